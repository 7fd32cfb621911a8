//! Shared machinery of the checks: seeded proptest runs, statistics, shrinking
//! to a replay file, known findings, evidence.
pub mod dict;
pub mod gen;
use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::Instant;

#[derive(Debug, Clone, PartialEq)]
pub struct Fail {
    pub msg: String,
    /// Identifies the exact failing input/call site, for the known-findings file.
    pub sig: Option<String>,
}
impl Fail {
    pub fn new(m: impl Into<String>) -> Self {
        Fail { msg: m.into(), sig: None }
    }
    pub fn sig(m: impl Into<String>, s: impl Into<String>) -> Self {
        Fail { msg: m.into(), sig: Some(s.into()) }
    }
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::new(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::new(s)
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::Fail::new(format!($($t)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail::new(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)));
        }
    }};
}

/// What one case tells about itself.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Case {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
}

#[derive(Deserialize, Clone, Debug)]
pub struct Known {
    pub property: String,
    pub section: String,
    pub signature: String,
    pub what: String,
    #[serde(default)]
    pub status: String,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct ReplayFile {
    pub property: String,
    pub section: String,
    pub seed: u64,
    pub message: String,
    pub case: serde_json::Value,
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub replay: Option<ReplayFile>,
    pub rules: Vec<String>,
    pub assumptions: Vec<String>,
    pub notes: BTreeMap<String, serde_json::Value>,
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    section_counts: BTreeMap<String, u64>,
    violations: Vec<(String, PathBuf)>,
    known: Vec<Known>,
    known_hit: BTreeMap<String, u64>,
    replayed: bool,
    t0: Instant,
}

fn h64(x: impl Hash) -> u64 {
    // FNV over the std hasher's fixed-key output: stable within a build.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Ctx {
    /// args: <prop> [--replay FILE]
    pub fn from_env() -> Ctx {
        let args: Vec<String> = std::env::args().collect();
        let prop = args.get(1).cloned().unwrap_or_else(|| {
            eprintln!("usage: {} <property> [--replay FILE]", args[0]);
            std::process::exit(2)
        });
        let mut replay = None;
        if args.get(2).map(|s| s.as_str()) == Some("--replay") {
            let p = args.get(3).expect("--replay FILE");
            replay = Some(
                serde_json::from_str(&std::fs::read_to_string(p).expect("replay file"))
                    .expect("replay json"),
            );
        }
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(root.join("known-findings.jsonl")) {
            for l in s.lines().filter(|l| !l.trim().is_empty()) {
                let k: Known = serde_json::from_str(l).expect("known-findings.jsonl");
                if k.property == prop && k.status != "fixed" {
                    known.push(k);
                }
            }
        }
        Ctx {
            prop,
            tier,
            seed,
            root,
            replay,
            rules: vec![],
            assumptions: vec![],
            notes: Default::default(),
            evaluations: 0,
            nontrivial: Default::default(),
            labels: Default::default(),
            samples: vec![],
            section_counts: Default::default(),
            violations: vec![],
            known,
            known_hit: Default::default(),
            replayed: false,
            t0: Instant::now(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn cases(&self, quick: u32, thorough: u32) -> u32 {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_string());
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    fn rng(&self, section: &str) -> TestRng {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&self.seed.to_le_bytes());
        let mut i = 8;
        for c in self.prop.bytes().chain(section.bytes()) {
            b[i] = b[i].wrapping_mul(31).wrapping_add(c);
            i = if i == 31 { 8 } else { i + 1 };
        }
        TestRng::from_seed(RngAlgorithm::ChaCha, &b)
    }
    /// A generator deterministic in (seed, property, section), for non-proptest drivers.
    pub fn sub_runner(&self, section: &str, cases: u32) -> TestRunner {
        TestRunner::new_with_rng(self.config(cases), self.rng(section))
    }
    fn config(&self, cases: u32) -> Config {
        Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 60_000,
            max_global_rejects: 200_000,
            ..Config::default()
        }
    }

    /// Records a case that was evaluated outside proptest.
    pub fn note_case(&mut self, section: &str, key: impl Hash, sample: impl FnOnce() -> serde_json::Value, c: Case) {
        self.evaluations += 1;
        let n = self.section_counts.entry(section.to_string()).or_default();
        *n += 1;
        for l in c.labels {
            *self.labels.entry(format!("{section}:{l}")).or_default() += 1;
        }
        if c.nontrivial {
            self.nontrivial.insert(h64((section, h64(key))));
            let mine = self
                .samples
                .iter()
                .filter(|s| s.get("section").and_then(|x| x.as_str()) == Some(section))
                .count();
            if mine < 3 && (self.evaluations % 7 == 0 || *n > 20) {
                let s = sample();
                self.samples.push(serde_json::json!({"section": section, "case": s}));
            }
        }
    }

    fn is_known(&mut self, section: &str, f: &Fail) -> bool {
        if let Some(s) = &f.sig {
            for k in &self.known {
                if k.section == section && &k.signature == s {
                    *self.known_hit.entry(format!("{section}/{s}")).or_default() += 1;
                    return true;
                }
            }
        }
        false
    }

    /// Reports a failure found outside proptest. Returns true if it is a known finding.
    pub fn report(&mut self, section: &str, f: &Fail, case: serde_json::Value) -> bool {
        if self.is_known(section, f) {
            return true;
        }
        let dir = self.root.join("evidence").join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}.json", self.prop, section));
        let rf = ReplayFile {
            property: self.prop.clone(),
            section: section.to_string(),
            seed: self.seed,
            message: f.msg.clone(),
            case,
        };
        std::fs::write(&p, serde_json::to_string_pretty(&rf).unwrap()).expect("write replay");
        let shown: String = f.msg.chars().take(3000).collect();
        println!("FAILED section={section}: {shown}");
        if let Some(s) = &f.sig {
            println!("  signature: {s}");
        }
        self.violations.push((section.to_string(), p));
        false
    }

    pub fn section_enabled(&self, section: &str) -> bool {
        if let Ok(s) = std::env::var("VERIF_SECTION") {
            if s != section {
                return false;
            }
        }
        true
    }

    pub fn replaying(&self) -> bool {
        self.replay.is_some()
    }
    /// The case to replay in a section driven outside proptest.
    pub fn replay_case<T: DeserializeOwned>(&mut self, section: &str) -> Option<T> {
        let rf = self.replay.as_ref().filter(|r| r.section == section)?;
        let v = serde_json::from_value(rf.case.clone()).expect("replay case");
        self.replayed = true;
        Some(v)
    }
    /// A random source deterministic in (seed, property, section).
    pub fn source(&self, section: &str) -> gen::Rng {
        use proptest::prelude::Rng;
        gen::Rng::new(self.rng(section).next_u64())
    }

    /// Runs one property over generated cases.
    pub fn run<S>(
        &mut self,
        section: &str,
        quick: u32,
        thorough: u32,
        strat: S,
        f: impl Fn(&S::Value, &mut Case) -> R,
    ) where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + std::fmt::Debug,
    {
        if !self.section_enabled(section) {
            return;
        }
        let guarded = |v: &S::Value, c: &mut Case| -> R {
            match guard(|| f(v, c)) {
                Ok(r) => r,
                Err(p) => Err(Fail::new(format!("panic: {p}"))),
            }
        };
        if let Some(rf) = &self.replay {
            if rf.section == section {
                let v: S::Value = serde_json::from_value(rf.case.clone()).expect("replay case");
                let mut c = Case::default();
                self.replayed = true;
                match guarded(&v, &mut c) {
                    Ok(()) => println!("replay: case passes"),
                    Err(e) => {
                        self.report(section, &e, serde_json::to_value(&v).unwrap());
                    }
                }
            }
            return;
        }
        let cases = self.cases(quick, thorough);
        let mut runner = TestRunner::new_with_rng(self.config(cases), self.rng(section));
        let me = RefCell::new(&mut *self);
        let failing = std::cell::Cell::new(false);
        let r = runner.run(&strat, |v| {
            let mut c = Case::default();
            let r = guarded(&v, &mut c);
            let mut me = me.borrow_mut();
            match r {
                Ok(()) => {
                    if !failing.get() {
                        let key = serde_json::to_string(&v).unwrap();
                        me.note_case(section, key, || clip(serde_json::to_value(&v).unwrap()), c);
                    }
                    Ok(())
                }
                Err(e) => {
                    if me.is_known(section, &e) {
                        return Ok(());
                    }
                    failing.set(true);
                    Err(TestCaseError::fail(e.msg))
                }
            }
        });
        let me = me.into_inner();
        match r {
            Ok(()) => {}
            Err(TestError::Fail(_, v)) => {
                let mut c = Case::default();
                let e = guarded(&v, &mut c).err().unwrap_or_else(|| Fail::new("failure did not reproduce on the shrunk case"));
                me.report(section, &e, serde_json::to_value(&v).unwrap());
            }
            Err(TestError::Abort(m)) => {
                eprintln!("check error: {section}: generator gave up: {m}");
                std::process::exit(3);
            }
        }
    }

    /// Runs every case of a finite list.
    pub fn each<T>(&mut self, section: &str, items: impl IntoIterator<Item = T>, f: impl Fn(&T, &mut Case) -> R)
    where
        T: Serialize + DeserializeOwned + Clone + std::fmt::Debug,
    {
        if !self.section_enabled(section) {
            return;
        }
        let guarded = |v: &T, c: &mut Case| -> R {
            match guard(|| f(v, c)) {
                Ok(r) => r,
                Err(p) => Err(Fail::new(format!("panic: {p}"))),
            }
        };
        if let Some(rf) = &self.replay {
            if rf.section == section {
                let v: T = serde_json::from_value(rf.case.clone()).expect("replay case");
                let mut c = Case::default();
                self.replayed = true;
                match guarded(&v, &mut c) {
                    Ok(()) => println!("replay: case passes"),
                    Err(e) => {
                        self.report(section, &e, serde_json::to_value(&v).unwrap());
                    }
                }
            }
            return;
        }
        for v in items {
            let mut c = Case::default();
            match guarded(&v, &mut c) {
                Ok(()) => {
                    let key = serde_json::to_string(&v).unwrap();
                    self.note_case(section, key, || clip(serde_json::to_value(&v).unwrap()), c);
                }
                Err(e) => {
                    if !self.report(section, &e, serde_json::to_value(&v).unwrap()) {
                        return; // first unlisted failure of an enumeration
                    }
                }
            }
        }
    }

    pub fn finish(mut self) -> ! {
        if let Some(rf) = &self.replay {
            if !self.replayed {
                eprintln!("replay: no section {} in {}", rf.section, self.prop);
                std::process::exit(2);
            }
        }
        let mut missing = vec![];
        if self.replay.is_none() {
            for k in &self.known {
                let id = format!("{}/{}", k.section, k.signature);
                if self.known_hit.contains_key(&id) {
                    println!("KNOWN-FINDING: property={} {}", self.prop, k.what);
                } else {
                    missing.push(id);
                }
            }
            if !missing.is_empty() {
                println!("note: known findings not reproduced in this run: {missing:?}");
            }
        }
        if self.samples.len() > 40 {
            self.samples.truncate(40);
        }
        let mut cov = serde_json::json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.nontrivial.len(),
            "rule": self.rules.join(" "),
            "samples": self.samples,
            "per_section": self.section_counts,
            "labels": self.labels,
            "known_findings_hit": self.known_hit,
        });
        for (k, v) in &self.notes {
            cov[k] = v.clone();
        }
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.thorough() { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.t0.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        if self.replay.is_none() {
            let p = self.root.join("evidence").join(format!("{}.json", self.prop));
            let _ = std::fs::create_dir_all(p.parent().unwrap());
            std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
            self.prop,
            self.evaluations,
            self.nontrivial.len(),
            self.violations.len(),
            self.t0.elapsed().as_secs_f64()
        );
        if let Some((_, p)) = self.violations.first() {
            println!("VIOLATION property={} replay={}", self.prop, p.display());
            std::process::exit(1)
        }
        std::process::exit(0)
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
}

fn clip(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() > 1500 {
        serde_json::Value::String(s.chars().take(1500).collect::<String>() + "…")
    } else {
        v
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "non-string panic".into())
}

static GUARDED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Panics of the code under test are results; they are not printed.
pub fn quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if GUARDED.load(std::sync::atomic::Ordering::SeqCst) == 0 {
            old(i)
        }
    }));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    r.map_err(|p| panic_text(&p))
}

pub fn write_file(p: &Path, s: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, s).unwrap();
}
