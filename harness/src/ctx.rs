use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } } }

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assume: &'static [&'static str],
    /// non-vacuity: (counter, minimum per 1000 cases run)
    pub min: &'static [(&'static str, u64)],
    pub hang_violates: bool,
    pub run: fn(&mut Ctx, &mut Rng) -> Res,
}

#[derive(Default)]
pub struct Ctx {
    pub case: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    /// trace of the current case, for the replay file
    pub log: Vec<String>,
}

impl Ctx {
    pub fn count(&mut self, k: &str) { self.add(k, 1); }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) { *c += n; } else { self.counts.insert(k.to_string(), n); }
    }
    pub fn maxi(&mut self, k: &str, v: f64) {
        let e = self.maxima.entry(k.to_string()).or_insert(v);
        if v > *e { *e = v; }
    }
    /// this case (identified by what was observed in it) is distinct and non-trivial
    pub fn nontrivial(&mut self, h: u64) { self.hashes.insert(h); }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) { if self.samples.len() < 2 { self.samples.push(f()); } }
    pub fn log<F: FnOnce() -> String>(&mut self, f: F) {
        let s = f();
        if self.verbose { eprintln!("{}", s); }
        self.log.push(s);
        if self.log.len() > 400 { self.log.drain(0..100); }
    }
}

/// order-dependent hash accumulator
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H { H(0x1234567) }
    pub fn u(&mut self, x: u64) -> &mut H { self.0 = mix(self.0 ^ x.wrapping_mul(0x2545F4914F6CDD1D)); self }
    pub fn f(&mut self, x: f64) -> &mut H { self.u(x.to_bits()) }
    pub fn v(&mut self, v: crate::m::V) -> &mut H { self.f(v.0).f(v.1).f(v.2) }
}
