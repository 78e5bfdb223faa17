//! The caller's random source as a seam: counts draws, can repeat itself, stall or crash.

use crate::env::InjectedCrash;
use crate::prng::Prng;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stream {
    Normal,
    /// every value the same
    Constant(u64),
    /// all zero from the n-th draw on
    ZeroFrom(u64),
    /// repeats with this period
    Period(u64),
    /// extreme words (all zeros, all ones) at every n-th draw
    Holes(u64),
}

#[derive(Clone)]
pub struct SimRng {
    p: Prng,
    seed: u64,
    pub stream: Stream,
    n: u64,
    /// shared among clones unless `detach`ed
    pub draws: Arc<AtomicU64>,
    /// panic at these draws (absolute, ascending, shared counter `fired`)
    pub crash_at: Vec<u64>,
    pub fired: Arc<AtomicU64>,
    /// every word handed out, if somebody wants to know
    pub log: Option<Arc<std::sync::Mutex<Vec<u64>>>>,
}

impl SimRng {
    pub fn new(seed: u64) -> Self {
        SimRng {
            p: Prng::new(seed),
            seed,
            stream: Stream::Normal,
            n: 0,
            draws: Arc::default(),
            crash_at: vec![],
            fired: Arc::default(),
            log: None,
        }
    }
    pub fn count(&self) -> u64 {
        self.draws.load(SeqCst)
    }
    fn word(&mut self) -> u64 {
        let w = self.draw_word();
        if let Some(l) = &self.log {
            l.lock().unwrap().push(w);
        }
        w
    }
    fn draw_word(&mut self) -> u64 {
        let i = self.n;
        self.n += 1;
        self.draws.fetch_add(1, SeqCst);
        if self.crash_at.contains(&i) {
            self.fired.fetch_add(1, SeqCst);
            std::panic::resume_unwind(Box::new(InjectedCrash));
        }
        match self.stream {
            Stream::Normal => self.p.next(),
            Stream::Constant(c) => c,
            Stream::ZeroFrom(k) => {
                if i >= k {
                    0
                } else {
                    self.p.next()
                }
            }
            Stream::Holes(p) => match i % p.max(2) {
                0 => 0,
                1 => u64::MAX,
                _ => self.p.next(),
            },
            Stream::Period(p) => {
                if i % p.max(1) == 0 {
                    self.p = Prng::new(self.seed);
                }
                self.p.next()
            }
        }
    }
}

impl rand::RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        (self.word() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.word()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
