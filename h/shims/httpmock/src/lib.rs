//! The part of httpmock 0.7 that generated helpers use: requirements on a
//! request and the answer given when all are met. Requests are handed to the
//! mock instead of coming from a socket.
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[allow(clippy::upper_case_acronyms)]
pub enum Method {
    GET,
    HEAD,
    POST,
    PUT,
    DELETE,
    CONNECT,
    OPTIONS,
    TRACE,
    PATCH,
}

/// A request as requirements see it: the path as sent, the query decoded.
#[derive(Clone, Debug, Default)]
pub struct HttpMockRequest {
    pub path: String,
    pub method: String,
    pub headers: Option<Vec<(String, String)>>,
    pub query_params: Option<Vec<(String, String)>>,
    pub body: Option<Vec<u8>>,
}

type Test = Box<dyn Fn(&HttpMockRequest) -> bool + Send + Sync>;

pub struct When(Arc<Mutex<Vec<Test>>>);
impl When {
    fn with(self, t: impl Fn(&HttpMockRequest) -> bool + Send + Sync + 'static) -> Self {
        self.0.lock().unwrap().push(Box::new(t));
        self
    }
    pub fn method(self, m: Method) -> Self {
        self.with(move |r| r.method == format!("{m:?}"))
    }
    pub fn path<S: Into<String>>(self, path: S) -> Self {
        let p = path.into();
        self.with(move |r| r.path == p)
    }
    pub fn path_contains<S: Into<String>>(self, part: S) -> Self {
        let p = part.into();
        self.with(move |r| r.path.contains(&p))
    }
    pub fn path_matches<R: Into<regex::Regex>>(self, re: R) -> Self {
        let re = re.into();
        self.with(move |r| re.is_match(&r.path))
    }
    pub fn query_param<K: Into<String>, V: Into<String>>(self, name: K, value: V) -> Self {
        let (n, v) = (name.into(), value.into());
        self.with(move |r| r.query_params.iter().flatten().any(|(k, x)| *k == n && *x == v))
    }
    pub fn query_param_exists<S: Into<String>>(self, name: S) -> Self {
        let n = name.into();
        self.with(move |r| r.query_params.iter().flatten().any(|(k, _)| *k == n))
    }
    pub fn header<K: Into<String>, V: Into<String>>(self, name: K, value: V) -> Self {
        let (n, v) = (name.into(), value.into());
        self.with(move |r| r.headers.iter().flatten().any(|(k, x)| k.eq_ignore_ascii_case(&n) && *x == v))
    }
    pub fn header_exists<S: Into<String>>(self, name: S) -> Self {
        let n = name.into();
        self.with(move |r| r.headers.iter().flatten().any(|(k, _)| k.eq_ignore_ascii_case(&n)))
    }
    pub fn body<S: Into<String>>(self, body: S) -> Self {
        let b = body.into();
        self.with(move |r| r.body.as_deref() == Some(b.as_bytes()))
    }
    pub fn json_body<V: Into<Value>>(self, value: V) -> Self {
        let v = value.into();
        self.with(move |r| r.body.as_deref().and_then(|b| serde_json::from_slice::<Value>(b).ok()).is_some_and(|b| b == v))
    }
    pub fn json_body_obj<'a, T>(self, body: &T) -> Self
    where
        T: Serialize + Deserialize<'a>,
    {
        self.json_body(serde_json::to_value(body).expect("Cannot serialize json body to JSON string "))
    }
    pub fn matches(self, f: fn(&HttpMockRequest) -> bool) -> Self {
        self.with(f)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Answer {
    pub status: Option<u16>,
    pub headers: Vec<(String, String)>,
    pub body: Option<Vec<u8>>,
}
pub struct Then(Arc<Mutex<Answer>>);
impl Then {
    fn with(self, f: impl FnOnce(&mut Answer)) -> Self {
        f(&mut self.0.lock().unwrap());
        self
    }
    pub fn status(self, status: u16) -> Self {
        self.with(|a| a.status = Some(status))
    }
    pub fn header<K: Into<String>, V: Into<String>>(self, name: K, value: V) -> Self {
        let h = (name.into(), value.into());
        self.with(|a| a.headers.push(h))
    }
    pub fn body(self, body: impl AsRef<[u8]>) -> Self {
        self.with(|a| a.body = Some(body.as_ref().to_vec()))
    }
    pub fn json_body<V: Into<Value>>(self, body: V) -> Self {
        let b = body.into().to_string().into_bytes();
        self.with(|a| a.body = Some(b))
    }
    pub fn json_body_obj<T: Serialize>(self, body: &T) -> Self {
        self.json_body(serde_json::to_value(body).expect("Unable to serialize JSON body"))
    }
}

pub struct Mock<'a> {
    tests: Arc<Mutex<Vec<Test>>>,
    answer: Arc<Mutex<Answer>>,
    server: PhantomData<&'a MockServer>,
}
impl Mock<'_> {
    /// Whether all requirements are met.
    pub fn tests(&self) -> impl Fn(&HttpMockRequest) -> bool + Send + use<> {
        let t = self.tests.clone();
        move |r| t.lock().unwrap().iter().all(|t| t(r))
    }
    pub fn answer(&self) -> Answer {
        self.answer.lock().unwrap().clone()
    }
}

#[derive(Default)]
pub struct MockServer(());
impl MockServer {
    pub fn start() -> Self {
        MockServer(())
    }
    pub fn mock<F>(&self, config_fn: F) -> Mock<'_>
    where
        F: FnOnce(When, Then),
    {
        let m = Mock { tests: Default::default(), answer: Default::default(), server: PhantomData };
        config_fn(When(m.tests.clone()), Then(m.answer.clone()));
        m
    }
}
