//! The simulated arithmetic environment of a thread.
//!
//! Every arithmetic operation on a simulated scalar is one tick of the simulated clock. The
//! environment decides how the operation is rounded, whether underflow is flushed, and whether the
//! caller is crashed, pre-empted or cut off at this very tick. All of it derives from `EnvCfg`.

use crate::prng::Prng;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Round {
    /// IEEE round-to-nearest as the host does it
    Nearest,
    Up,
    Down,
    Zero,
    /// each inexact operation picks one of the two neighbours with this probability (in 1/256)
    Faithful(u32),
}

#[derive(Clone, Copy, Debug)]
pub struct EnvCfg {
    pub round: Round,
    pub ftz: bool,
    pub seed: u64,
    /// panic at this tick
    pub crash_at: Option<u64>,
    /// abort the run as non-terminating at this tick
    pub budget: u64,
}

impl Default for EnvCfg {
    fn default() -> Self {
        EnvCfg {
            round: Round::Nearest,
            ftz: false,
            seed: 0,
            crash_at: None,
            budget: 200_000_000,
        }
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Report {
    pub ops: u64,
    pub perturbed: u64,
    pub flushed: u64,
}

/// Payload of an injected crash
pub struct InjectedCrash;
/// Payload of an exhausted step budget
pub struct BudgetExceeded;

#[derive(Debug)]
pub enum Outcome<R> {
    Done(R),
    Crashed,
    Budget,
    Panicked(String),
}

impl<R> Outcome<R> {
    pub fn label(&self) -> String {
        match self {
            Outcome::Done(_) => "finished".into(),
            Outcome::Crashed => "injected crash".into(),
            Outcome::Budget => "step budget exhausted".into(),
            Outcome::Panicked(e) => format!("panic: {e}"),
        }
    }
}

const NEVER: u64 = u64::MAX;

pub struct Tl {
    pub on: Cell<bool>,
    pub ops: Cell<u64>,
    pub next: Cell<u64>,
    pub mode: Cell<u8>, // 0 nearest, 1 up, 2 down, 3 zero, 4 faithful
    pub thr: Cell<u32>,
    pub ftz: Cell<bool>,
    pub rng: Cell<u64>,
    pub perturbed: Cell<u64>,
    pub flushed: Cell<u64>,
    pub crash_at: Cell<u64>,
    pub budget: Cell<u64>,
    pub yield_at: Cell<u64>,
}

thread_local! {
    pub static TL: Tl = const { Tl {
        on: Cell::new(false), ops: Cell::new(0), next: Cell::new(NEVER), mode: Cell::new(0),
        thr: Cell::new(0), ftz: Cell::new(false), rng: Cell::new(1), perturbed: Cell::new(0),
        flushed: Cell::new(0), crash_at: Cell::new(NEVER), budget: Cell::new(NEVER),
        yield_at: Cell::new(NEVER),
    } };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static HOOK: RefCell<Option<Box<dyn FnMut() -> u64>>> = const { RefCell::new(None) };
}

/// Installs the silent panic hook which remembers message and location per thread
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("SIM_DEBUG").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Sets what happens when the pre-emption tick is reached: the function gives up the processor and
/// returns the next quantum.
pub fn set_yielder(f: Option<Box<dyn FnMut() -> u64>>) {
    HOOK.with(|h| *h.borrow_mut() = f);
    if HOOK.with(|h| h.borrow().is_none()) {
        TL.with(|t| t.yield_at.set(NEVER));
    }
}
impl Tl {
    pub fn recompute(&self) {
        self.next.set(
            self.crash_at
                .get()
                .min(self.budget.get())
                .min(self.yield_at.get()),
        );
    }
    #[cold]
    #[inline(never)]
    pub fn slow(&self) {
        let ops = self.ops.get();
        if ops >= self.yield_at.get() {
            self.on.set(false);
            let q = HOOK.with(|h| h.borrow_mut().as_mut().map(|f| f()));
            self.on.set(true);
            self.yield_at
                .set(q.map_or(NEVER, |q| ops.saturating_add(q)));
        }
        if ops >= self.crash_at.get() {
            self.crash_at.set(NEVER);
            self.on.set(false);
            resume_unwind(Box::new(InjectedCrash));
        }
        if ops >= self.budget.get() {
            self.budget.set(NEVER);
            self.on.set(false);
            resume_unwind(Box::new(BudgetExceeded));
        }
        self.recompute();
    }
    #[inline]
    pub fn rand(&self) -> u64 {
        let mut x = self.rng.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.rng.set(x);
        x
    }
}

/// Runs `f` in the given environment and catches how it ends
pub fn run_env<R>(cfg: &EnvCfg, f: impl FnOnce() -> R) -> (Outcome<R>, Report) {
    TL.with(|t| {
        assert!(!t.on.get(), "nested environments");
        t.ops.set(0);
        t.perturbed.set(0);
        t.flushed.set(0);
        let (mode, thr) = match cfg.round {
            Round::Nearest => (0, 0),
            Round::Up => (1, 0),
            Round::Down => (2, 0),
            Round::Zero => (3, 0),
            Round::Faithful(p) => (4, p),
        };
        t.mode.set(mode);
        t.thr.set(thr);
        t.ftz.set(cfg.ftz);
        t.rng.set(Prng::new(cfg.seed).next() | 1);
        t.crash_at.set(cfg.crash_at.unwrap_or(NEVER));
        t.budget.set(cfg.budget);
        t.yield_at.set(NEVER);
        let preemptible = HOOK.with(|h| h.borrow().is_some());
        if preemptible {
            // give up the processor right at the start, which yields the first quantum
            let q = HOOK.with(|h| h.borrow_mut().as_mut().map(|f| f()));
            t.yield_at.set(q.unwrap_or(NEVER));
        }
        t.recompute();
        t.on.set(true);
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    let report = TL.with(|t| {
        t.on.set(false);
        t.crash_at.set(NEVER);
        t.budget.set(NEVER);
        t.yield_at.set(NEVER);
        t.next.set(NEVER);
        Report {
            ops: t.ops.get(),
            perturbed: t.perturbed.get(),
            flushed: t.flushed.get(),
        }
    });
    let out = match r {
        Ok(r) => Outcome::Done(r),
        Err(p) => {
            if p.is::<InjectedCrash>() {
                Outcome::Crashed
            } else if p.is::<BudgetExceeded>() {
                Outcome::Budget
            } else {
                drop(p);
                Outcome::Panicked(take_panic())
            }
        }
    };
    (out, report)
}

pub fn take_panic() -> String {
    LAST_PANIC.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

/// Suspends the environment for harness code running inside closures given to the code under test
pub struct Pause(bool);
impl Pause {
    pub fn new() -> Self {
        TL.with(|t| {
            let was = t.on.get();
            t.on.set(false);
            Pause(was)
        })
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        // not when unwinding out of the environment
        if !std::thread::panicking() {
            TL.with(|t| t.on.set(self.0));
        }
    }
}
