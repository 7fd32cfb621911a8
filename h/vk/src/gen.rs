//! Generation by plain functions over a random source, with shrinking of the
//! generated value's JSON form: elements dropped, texts shortened, numbers
//! lowered, choices returned to their first alternative where that parses.
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::fmt::Debug;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % (hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, percent: u32) -> bool {
        self.below(100) < percent as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Index chosen by weight.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let mut n = self.below(w.iter().sum::<u32>() as usize) as u32;
        for (i, x) in w.iter().enumerate() {
            if n < *x {
                return i;
            }
            n -= x;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

/// One-step reductions of a JSON value, larger ones first; of a large value only
/// the coarse ones.
pub fn json_shrinks(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    let each = weight(v);
    let mut room = 8_000_000usize;
    let mut emit = |x: Value| {
        if room >= each {
            room -= each;
            out.push(x);
        }
    };
    if each > 20_000 {
        coarse(v, &mut emit);
    } else {
        reduce(v, &mut emit);
    }
    let mut out: Vec<(usize, Value)> = out.into_iter().map(|x| (weight(&x), x)).collect();
    out.sort_by_key(|x| x.0);
    let mut out: Vec<Value> = out.into_iter().map(|x| x.1).collect();
    out.dedup();
    out
}

/// About how much room a value takes.
fn weight(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(weight).sum::<usize>(),
        Value::Object(o) => 1 + o.iter().map(|(k, x)| k.len() / 8 + 1 + weight(x)).sum::<usize>(),
        Value::String(s) => 1 + s.len() / 8,
        _ => 1,
    }
}

/// Parts of long lists and texts.
fn coarse(v: &Value, emit: &mut dyn FnMut(Value)) {
    match v {
        Value::Array(a) => {
            if a.len() > 50 {
                let n = a.len();
                emit(a[..n / 2].to_vec().into());
                emit(a[n / 2..].to_vec().into());
                emit(a[..n - n / 8].to_vec().into());
                emit(a[n / 8..].to_vec().into());
            }
            for i in 0..a.len().min(50) {
                coarse(&a[i], &mut |x| {
                    let mut b = a.clone();
                    b[i] = x;
                    emit(Value::Array(b));
                });
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                coarse(x, &mut |y| {
                    let mut b = o.clone();
                    b.insert(k.clone(), y);
                    emit(Value::Object(b));
                });
            }
        }
        Value::String(s) if s.len() > 50 => {
            let c: Vec<char> = s.chars().collect();
            let n = c.len();
            emit(Value::String(c[..n / 2].iter().collect()));
            emit(Value::String(c[n / 2..].iter().collect()));
            emit(Value::String(c[..n - n / 8].iter().collect()));
        }
        _ => {}
    }
}

fn reduce(v: &Value, emit: &mut dyn FnMut(Value)) {
    // a part instead of the whole
    match v {
        Value::Array(a) => a.iter().filter(|x| x.is_object() || x.is_string() || x.is_array()).for_each(|x| emit(x.clone())),
        Value::Object(o) if o.len() == 1 => o.values().filter(|x| x.is_object() || x.is_string() || x.is_array()).for_each(|x| emit(x.clone())),
        _ => {}
    }
    match v {
        Value::Array(a) => {
            if a.len() > 2 {
                emit(a[..a.len() / 2].to_vec().into());
                emit(a[a.len() / 2..].to_vec().into());
            }
            for i in 0..a.len().min(60) {
                let mut b = a.clone();
                b.remove(i);
                emit(Value::Array(b));
            }
            for i in 0..a.len().min(60) {
                reduce(&a[i], &mut |x| {
                    let mut b = a.clone();
                    b[i] = x;
                    emit(Value::Array(b));
                });
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                if !x.is_null() {
                    let mut b = o.clone();
                    b.insert(k.clone(), Value::Null);
                    emit(Value::Object(b));
                    let mut b = o.clone();
                    b.remove(k);
                    emit(Value::Object(b));
                }
                reduce(x, &mut |y| {
                    let mut b = o.clone();
                    b.insert(k.clone(), y);
                    emit(Value::Object(b));
                });
            }
        }
        Value::String(s) if !s.is_empty() => {
            let c: Vec<char> = s.chars().collect();
            emit(Value::String(c[..c.len() / 2].iter().collect()));
            for i in 0..c.len().min(12) {
                let mut d = c.clone();
                d.remove(i);
                emit(Value::String(d.into_iter().collect()));
            }
        }
        Value::Number(n) => {
            if let Some(x) = n.as_i64() {
                if x != 0 {
                    emit(0.into());
                    emit((x / 2).into());
                }
            }
        }
        Value::Bool(true) => emit(false.into()),
        _ => {}
    }
}

pub fn shrinks<T: Serialize + DeserializeOwned>(v: &T, valid: impl Fn(&T) -> bool) -> Vec<T> {
    json_shrinks(&serde_json::to_value(v).unwrap())
        .into_iter()
        .filter_map(|x| serde_json::from_value::<T>(x).ok())
        .filter(|x| valid(x))
        .collect()
}

pub struct Gen<T> {
    f: Box<dyn Fn(&mut Rng) -> T>,
    valid: fn(&T) -> bool,
}
impl<T> Debug for Gen<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Gen")
    }
}
pub fn gen<T>(f: impl Fn(&mut Rng) -> T + 'static, valid: fn(&T) -> bool) -> Gen<T> {
    Gen { f: Box::new(f), valid }
}

/// Only the values which satisfy `valid`.
pub fn gen_if<T: 'static>(f: impl Fn(&mut Rng) -> T + 'static, valid: fn(&T) -> bool) -> Gen<T> {
    gen(
        move |r| loop {
            let v = f(r);
            if valid(&v) {
                return v;
            }
        },
        valid,
    )
}

pub struct Tree<T> {
    best: T,
    cands: std::vec::IntoIter<T>,
    cur: T,
    valid: fn(&T) -> bool,
}
impl<T: Serialize + DeserializeOwned + Clone + Debug> ValueTree for Tree<T> {
    type Value = T;
    fn current(&self) -> T {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        self.best = self.cur.clone();
        self.cands = shrinks(&self.best, self.valid).into_iter();
        self.complicate()
    }
    fn complicate(&mut self) -> bool {
        match self.cands.next() {
            Some(c) => {
                self.cur = c;
                true
            }
            None => {
                self.cur = self.best.clone();
                false
            }
        }
    }
}
impl<T: Serialize + DeserializeOwned + Clone + Debug> Strategy for Gen<T> {
    type Tree = Tree<T>;
    type Value = T;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let seed = proptest::num::u64::ANY.new_tree(runner)?.current();
        let mut r = Rng::new(seed);
        let v = (self.f)(&mut r);
        assert!((self.valid)(&v), "check: generated value is not valid: {}", serde_json::to_string(&v).unwrap());
        Ok(Tree { best: v.clone(), cands: vec![].into_iter(), cur: v, valid: self.valid })
    }
}
