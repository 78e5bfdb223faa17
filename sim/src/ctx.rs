//! One simulated run is a pure function of a sequence of bounded choices. The sequence comes either
//! from the seeded generator or from a replay file; 0 is always the simplest alternative, so that
//! minimisation is deletion and reduction of numbers.

use crate::prng::{mix2, Prng};
use std::collections::BTreeMap;
use std::io::Write;

pub type Res = Result<(), V>;

/// A violation of the property under check
#[derive(Clone, Debug)]
pub struct V {
    pub class: String,
    pub msg: String,
}

pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, V> {
    Err(V {
        class: class.into(),
        msg: msg.into(),
    })
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    /// named counters: faults that fired, probes that were hit, outcomes
    pub count: BTreeMap<String, u64>,
    /// simulated time: arithmetic operations executed on simulated scalars
    pub ops: u64,
    /// largest observed value of a measured quantity relative to its limit
    pub max: BTreeMap<String, f64>,
    /// hash over schedule, faults and outcomes of this run
    pub hash: u64,
    /// whether the run was non-trivial by the rule of the property
    pub nontrivial: bool,
}

pub struct Ctx {
    prefix: Vec<u64>,
    pos: usize,
    rng: Option<Prng>,
    pub taken: Vec<u64>,
    pub trace: Vec<String>,
    pub stats: Stats,
    pub log: Option<std::fs::File>,
    pub tier: Tier,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Ctx {
    pub fn seeded(seed: u64, tier: Tier) -> Self {
        Self::make(vec![], Some(Prng::new(seed)), tier)
    }
    pub fn replay(choices: Vec<u64>, tier: Tier) -> Self {
        Self::make(choices, None, tier)
    }
    fn make(prefix: Vec<u64>, rng: Option<Prng>, tier: Tier) -> Self {
        Ctx {
            prefix,
            pos: 0,
            rng,
            taken: vec![],
            trace: vec![],
            stats: Stats::default(),
            log: None,
            tier,
        }
    }

    /// A choice in `0..n`
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if self.pos < self.prefix.len() {
            self.prefix[self.pos] % n
        } else if let Some(r) = &mut self.rng {
            r.below(n)
        } else {
            0
        };
        self.pos += 1;
        self.taken.push(v);
        if let Some(f) = &mut self.log {
            let _ = writeln!(f, "{v}");
        }
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.draw((hi - lo + 1) as u64) as usize
    }
    /// True with probability p/q; false is the simpler alternative
    pub fn chance(&mut self, p: u64, q: u64) -> bool {
        self.draw(q) >= q - p
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.draw(xs.len() as u64) as usize]
    }
    /// A seed for a derived generator
    pub fn seed(&mut self) -> u64 {
        self.draw(1 << 32)
    }

    pub fn note(&mut self, s: impl Into<String>) {
        if self.trace.len() < 400 {
            self.trace.push(s.into());
        }
    }
    pub fn hit(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if n > 0 {
            if let Some(c) = self.stats.count.get_mut(what) {
                *c += n;
            } else {
                self.stats.count.insert(what.to_string(), n);
            }
        }
    }
    /// Records a measured quantity in units of its limit
    pub fn metric(&mut self, what: &str, v: f64) {
        let v = if v.is_nan() { f64::INFINITY } else { v };
        let e = self.stats.max.entry(what.to_string()).or_insert(0.0);
        if v > *e {
            *e = v;
        }
    }
    /// Violation if `value > limit`; keeps the worst margin
    pub fn limit(
        &mut self,
        class: &str,
        value: f64,
        limit: f64,
        msg: impl FnOnce() -> String,
    ) -> Res {
        self.metric(class, if value == 0.0 { 0.0 } else { value / limit });
        if value <= limit {
            Ok(())
        } else {
            viol(class, format!("{value:e} > {limit:e}: {}", msg()))
        }
    }
    pub fn mixin(&mut self, w: u64) {
        self.stats.hash = mix2(self.stats.hash, w);
    }
    pub fn mixs(&mut self, s: &str) {
        for b in s.bytes() {
            self.mixin(b as u64);
        }
    }
}
