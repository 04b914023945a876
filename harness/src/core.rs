//! The shape of a check: a deterministic function of (seed, case index) which drives the real
//! code and either returns what it observed or a violation.

use crate::rng::Rng;
use std::collections::BTreeMap;

/// What one case observed.
#[derive(Default)]
pub struct Out {
    /// Named counts of the obligations the monitors evaluated.
    pub counts: BTreeMap<String, u64>,
    /// A hash of the observed behaviour.
    pub sig: u64,
    /// Whether the case exercised the property at all.
    pub nontrivial: bool,
    /// A short description of the case.
    pub sample: String,
}

impl Out {
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(name) {
            *c += n;
        } else {
            self.counts.insert(name.to_string(), n);
        }
    }
    pub fn hit(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn max(&mut self, name: &str, v: f64) {
        // Stored as micro-units; merged by `max` because of the prefix.
        let v = (v * 1e6) as i64;
        let e = self.counts.entry(format!("max:{name}")).or_insert(0);
        *e = (*e).max(v.max(0) as u64);
    }
}

pub type Res = Result<(), String>;

pub struct Check {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    /// Number of cases in the quick and thorough tiers.
    pub cases: [usize; 2],
    /// Counters which must reach these totals for the verdict to be conclusive.
    pub need: &'static [(&'static str, u64)],
    pub run: fn(usize, &mut Rng, &mut Out) -> Res,
    /// Judges the totals over all cases.
    pub post: fn(&Counts) -> Res,
}

pub type Counts = BTreeMap<String, u64>;

pub fn no_post(_: &Counts) -> Res {
    Ok(())
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

pub fn hash(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        for b in p.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
    h
}
