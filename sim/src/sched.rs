//! Deterministic interleaving of callers. Every caller is a real OS thread, but exactly one runs at
//! a time: it is released for a quantum of arithmetic steps and hands the processor back when the
//! quantum is used up, at every call boundary, and when it finishes. Who runs next, and for how
//! long, are choices of the run.

use crate::ctx::{Ctx, Res, V};
use crate::env::{set_yielder, take_panic};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Parked,
    Run(u64),
    Finished,
}

struct Ctl {
    st: Mutex<St>,
    cv: Condvar,
}

impl Ctl {
    fn park(&self) -> u64 {
        let mut g = self.st.lock().unwrap();
        *g = St::Parked;
        self.cv.notify_all();
        loop {
            if let St::Run(q) = *g {
                return q;
            }
            g = self.cv.wait(g).unwrap();
        }
    }
    fn finish(&self) {
        *self.st.lock().unwrap() = St::Finished;
        self.cv.notify_all();
    }
    /// Waits until the actor is parked or finished; false on timeout
    fn settle(&self, d: Duration) -> bool {
        let g = self.st.lock().unwrap();
        let (g, _) = self
            .cv
            .wait_timeout_while(g, d, |s| matches!(*s, St::Run(_)))
            .unwrap();
        !matches!(*g, St::Run(_))
    }
    fn release(&self, q: u64) {
        *self.st.lock().unwrap() = St::Run(q);
        self.cv.notify_all();
    }
    fn get(&self) -> St {
        *self.st.lock().unwrap()
    }
}

pub type Body<'a> = Box<dyn FnOnce() -> Res + Send + 'a>;

/// Results of `f` on a thread of its own, i.e. with fresh thread-local state
pub fn on_fresh_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        match s.spawn(f).join() {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

const QUANTA: [u64; 10] = [u64::MAX, 2000, 700, 300, 100, 40, 15, 6, 2, 1];

/// Runs all actors to completion under the schedule chosen by `ctx`. `invariant` is evaluated at
/// every switch, while all actors are parked.
pub fn interleave(
    ctx: &mut Ctx,
    actors: Vec<(String, Body<'_>)>,
    mut invariant: impl FnMut() -> Res,
) -> Res {
    let ctls: Vec<Arc<Ctl>> = actors
        .iter()
        .map(|_| {
            Arc::new(Ctl {
                st: Mutex::new(St::Run(0)),
                cv: Condvar::new(),
            })
        })
        .collect();
    let names: Vec<String> = actors.iter().map(|(n, _)| n.clone()).collect();
    let mut results: Vec<Res> = actors.iter().map(|_| Ok(())).collect();
    let mut bad: Res = Ok(());
    std::thread::scope(|scope| {
        let mut joins = vec![];
        for ((_, body), ctl) in actors.into_iter().zip(&ctls) {
            let ctl = ctl.clone();
            joins.push(scope.spawn(move || {
                // wait for the first release
                let c2 = ctl.clone();
                ctl.park();
                set_yielder(Some(Box::new(move || c2.park())));
                let r = catch_unwind(AssertUnwindSafe(body));
                set_yielder(None);
                let r = match r {
                    Ok(r) => r,
                    Err(_) => Err(V {
                        class: "harness-panic".into(),
                        msg: take_panic(),
                    }),
                };
                ctl.finish();
                r
            }));
        }
        for c in &ctls {
            c.settle(Duration::from_secs(60));
        }
        let mut switches = 0u64;
        let mut last = usize::MAX;
        loop {
            let live: Vec<usize> = (0..ctls.len())
                .filter(|i| ctls[*i].get() == St::Parked)
                .collect();
            if live.is_empty() {
                if ctls.iter().all(|c| c.get() == St::Finished) {
                    break;
                }
                // somebody is blocked on something the simulator does not own
                std::thread::sleep(Duration::from_millis(5));
                continue;
            }
            let i = live[ctx.draw(live.len() as u64) as usize];
            let q = if switches > 300 {
                u64::MAX
            } else {
                QUANTA[ctx.draw(QUANTA.len() as u64) as usize]
            };
            switches += 1;
            if last != i {
                ctx.mixin(i as u64 * 16 + QUANTA.iter().position(|x| *x == q).unwrap_or(0) as u64);
            }
            last = i;
            ctls[i].release(q);
            // a caller that blocks on another (parked) one is left alone and the others go on
            ctls[i].settle(Duration::from_secs(2));
            if bad.is_ok() {
                if let Err(v) = invariant() {
                    bad = Err(v);
                }
            }
        }
        ctx.add("sched.switches", switches);
        ctx.add("sched.actors", ctls.len() as u64);
        for (i, j) in joins.into_iter().enumerate() {
            results[i] = j.join().unwrap_or_else(|_| {
                Err(V {
                    class: "harness-panic".into(),
                    msg: "join".into(),
                })
            });
        }
    });
    bad?;
    for (i, r) in results.into_iter().enumerate() {
        r.map_err(|v| V {
            class: v.class,
            msg: format!("caller {} ({}): {}", i, names[i], v.msg),
        })?;
    }
    Ok(())
}
