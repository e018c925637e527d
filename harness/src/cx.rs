//! Context of a case: random choices, observations and verdicts.
use std::collections::{BTreeMap, BTreeSet, HashSet};

use crate::rng::{hash64, Rng};

#[derive(Clone, Debug)]
pub struct Fail {
    /// Exact signature identifying the failing input; only failures with a signature may be listed
    /// as known findings.
    pub sig: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)+) => { if !$c { return Err($crate::cx::Fail::from(format!($($a)+))); } };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)+) => { return Err($crate::cx::Fail::from(format!($($a)+))) };
}
/// Operation of the code under test which has to succeed.
#[macro_export]
macro_rules! must {
    ($e:expr, $($a:tt)+) => {
        match $crate::cx::IntoR::into_r($e) {
            Ok(v) => v,
            Err(e) => return Err($crate::cx::Fail::from(format!("{}: unexpected failure: {}", format!($($a)+), $crate::cx::short(&e)))),
        }
    };
}
pub trait IntoR {
    type Out;
    fn into_r(self) -> Result<Self::Out, String>;
}
impl<T, E: std::fmt::Debug> IntoR for Result<T, E> {
    type Out = T;
    fn into_r(self) -> Result<T, String> {
        self.map_err(|e| format!("{e:?}"))
    }
}
impl<T> IntoR for Option<T> {
    type Out = T;
    fn into_r(self) -> Result<T, String> {
        self.ok_or_else(|| "nothing returned".into())
    }
}

pub fn short(s: &str) -> String {
    clip(s, 1500)
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}… ({} bytes)", s.len())
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(200) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 200 {
        s.push_str(&format!("… ({} bytes)", b.len()));
    }
    s
}

pub struct Cx {
    pub rng: Rng,
    pub prop: String,
    pub case: u64,
    pub thorough: bool,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeSet<String>,
    pub known_hit: BTreeMap<String, String>,
    pub scratch: std::path::PathBuf,
    pub verbose: bool,
}

impl Cx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// One oracle evaluation on the input identified by `key`.
    pub fn eval(&mut self, key: impl AsRef<[u8]>) {
        self.evals += 1;
        self.distinct.insert(hash64(key.as_ref()));
    }
    /// One oracle evaluation on a trivial input
    pub fn eval_trivial(&mut self) {
        self.evals += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = clip(&f(), 400);
            self.samples.push(s);
        }
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("  {}", clip(&f(), 4000));
        }
    }
    /// Failure on an input having a signature, which may be a known finding.
    pub fn signed(&mut self, sig: &str, msg: String) -> R {
        if self.known.contains(sig) {
            self.known_hit.insert(sig.to_string(), msg);
            Ok(())
        } else {
            Err(Fail {
                sig: Some(sig.to_string()),
                msg,
            })
        }
    }
}
