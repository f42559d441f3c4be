//! Plans, reports, violations, and what a property has to provide.
use crate::rng::Rng;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Which way the property broke; stable under shrinking.
    pub class: String,
    /// What was seen.
    pub detail: String,
}

pub type Res = Result<(), Violation>;

pub fn violation<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::harness::violation($class, format!($($arg)*));
        }
    };
}

/// What one run did.
#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Rep {
    /// Hash of everything observed, in order.
    pub trace: u64,
    /// Hash of the schedule of events: kinds of operations, faults that fired,
    /// places they struck, thread switches; no values.
    pub shape: u64,
    pub steps: u64,
    pub ops: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    /// Simulated time units, where the run has a clock.
    pub sim_time: u64,
}

impl Rep {
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_insert(0) += 1;
        self.shape_str(k);
    }

    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.to_string()).or_insert(0) += 1; }

    pub fn probe_n(&mut self, k: &str, n: u64) { *self.probes.entry(k.to_string()).or_insert(0) += n; }

    pub fn u(&mut self, v: u64) { self.trace = (self.trace ^ v).wrapping_mul(0x100000001b3).rotate_left(5); }

    pub fn f(&mut self, v: f64) { self.u(v.to_bits()); }

    pub fn fs(&mut self, vs: &[f64]) { vs.iter().for_each(|v| self.f(*v)); }

    pub fn str(&mut self, s: &str) { s.bytes().for_each(|b| self.u(b as u64)); }

    pub fn shape_u(&mut self, v: u64) { self.shape = (self.shape ^ v).wrapping_mul(0x100000001b3).rotate_left(7); }

    pub fn shape_str(&mut self, s: &str) { s.bytes().for_each(|b| self.shape_u(b as u64)); }

    pub fn absorb(&mut self, o: &Rep) {
        self.u(o.trace);
        self.shape_u(o.shape);
        self.ops += o.ops;
        self.steps += o.steps;
        self.sim_time += o.sim_time;
        for (k, n) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += n;
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    /// One seed, one plan. The plan decides the run completely.
    pub gen: fn(&mut Rng, bool) -> Value,
    pub run: fn(&Value, &mut Rep) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub fn decode<T: serde::de::DeserializeOwned>(v: &Value) -> T { serde_json::from_value(v.clone()).expect("plan of another shape") }

pub fn encode<T: serde::Serialize>(v: &T) -> Value { serde_json::to_value(v).expect("plan") }
