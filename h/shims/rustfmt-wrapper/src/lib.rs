//! A stand-in for `rustfmt-wrapper` (not available offline): runs the
//! installed rustfmt, which as a stable one ignores the unstable options.
use std::fmt::Display;
use std::io::Write;
use std::process::{Command, Stdio};

#[derive(Debug)]
pub struct Error(pub String);
impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

pub mod config {
    #[derive(Default, Clone, Debug)]
    pub struct Config {
        pub normalize_doc_attributes: Option<bool>,
        pub wrap_comments: Option<bool>,
        pub max_width: Option<usize>,
        pub format_strings: Option<bool>,
        pub format_code_in_doc_comments: Option<bool>,
    }
}

pub fn rustfmt<T: Display>(input: T) -> Result<String, Error> {
    rustfmt_config(Default::default(), input)
}
pub fn rustfmt_config<T: Display>(_: config::Config, input: T) -> Result<String, Error> {
    let e = |e: std::io::Error| Error(e.to_string());
    let mut c = Command::new("rustfmt")
        .args(["--edition", "2021", "--emit", "stdout"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(e)?;
    let text = input.to_string();
    let mut i = c.stdin.take().unwrap();
    let w = std::thread::spawn(move || i.write_all(text.as_bytes()));
    let o = c.wait_with_output().map_err(e)?;
    let _ = w.join();
    if !o.status.success() {
        return Err(Error(String::from_utf8_lossy(&o.stderr).into()));
    }
    String::from_utf8(o.stdout).map_err(|e| Error(e.to_string()))
}
