//! What the monitors observed in a run.
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Cov {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Cov {
    /// One oracle comparison was made.
    pub fn eval(&mut self) { self.evaluations += 1; }
    pub fn evals(&mut self, n: u64) { self.evaluations += n; }
    /// A distinct non-trivial case, identified by its description.
    pub fn distinct<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        if self.distinct.len() < 400_000 { self.distinct.insert(h.finish()); }
    }
    pub fn count(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) { *v += n } else { self.counters.insert(k.into(), n); }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 { let mut i = 600; while !s.is_char_boundary(i) { i -= 1 } s.truncate(i); s.push('…'); }
            self.samples.push(s);
        }
    }
}

/// A refuted property. `known` names the known-findings signature this failure matches, if any.
pub struct Fail { pub msg: String, pub known: Option<&'static str> }
impl Fail { pub fn new<S: Into<String>>(s: S) -> Fail { Fail { msg: s.into(), known: None } } }
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err($crate::cov::Fail::new(format!($($a)*))) } }
#[macro_export]
macro_rules! check { ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::cov::Fail::new(format!($($a)*))) } } }

pub struct Ctx<'a> {
    pub rng: crate::rng::Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub cov: &'a mut Cov,
    /// A directory private to this worker, emptied on exit.
    pub scratch: std::path::PathBuf,
}
