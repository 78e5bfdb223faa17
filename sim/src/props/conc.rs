//! C09: concurrent callers never influence each other. C11: interruptions leak and corrupt nothing.

use crate::alloc;
use crate::ctx::{viol, Ctx, Res};
use crate::env::{run_env, EnvCfg, Outcome, Pause, Round};
use crate::gen;
use crate::ops::{lob_bits, run_op, Inputs, OPS};
use crate::rng::SimRng;
use crate::sched::{interleave, on_fresh_thread, Body};
use crate::simf::Sc;
use linfa_linalg::lobpcg::{lobpcg, TruncatedEig};
use linfa_linalg::Order;
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;

/// Budget of a single call of the catalogue on small operands, far above what any of them needs
const CALL: u64 = 30_000_000;

#[derive(Clone)]
struct Call {
    op: usize,
    /// which of the shared operand sets it works on
    set: usize,
    /// a second routine of the crate called from within the operator of an iterative solve
    nested: Option<usize>,
    cfg: EnvCfg,
    crash: Option<u64>,
    poison: Option<u8>,
    want: Vec<u64>,
}

fn nested<A: Sc>(inner: usize, i: &Inputs<A>) -> (Vec<u64>, Vec<Vec<u64>>) {
    let got = Mutex::new(vec![]);
    let r = lobpcg(
        |x| {
            {
                let _p = Pause::new();
                got.lock().unwrap().push(run_op(inner, i));
            }
            i.sym.dot(&x)
        },
        i.x0.clone(),
        |_| {},
        None,
        1e-4,
        8,
        Order::Largest,
    );
    (lob_bits(&r), got.into_inner().unwrap())
}

fn plain_lob<A: Sc>(i: &Inputs<A>) -> Vec<u64> {
    lob_bits(&lobpcg(
        |x| i.sym.dot(&x),
        i.x0.clone(),
        |_| {},
        None,
        1e-4,
        8,
        Order::Largest,
    ))
}

fn label(c: &Call) -> String {
    match c.nested {
        Some(n) => format!("lobpcg with {} inside its operator", OPS[n]),
        None => OPS[c.op].to_string(),
    }
}

/// Operands shared by the callers: two sets in one precision, one in the other
struct Pool<A: Sc> {
    own: [Inputs<A>; 2],
    other: Inputs<A::Other>,
}

impl<A: Sc> Pool<A> {
    fn gen(ctx: &mut Ctx) -> Self {
        let max = match ctx.draw(60) {
            59 => 24,
            54..=58 => 9,
            _ => 5,
        };
        Pool {
            own: [Inputs::gen(ctx, max), Inputs::gen(ctx, 4)],
            other: Inputs::gen(ctx, 4),
        }
    }
    fn digest(&self) -> [u64; 3] {
        [self.own[0].digest(), self.own[1].digest(), self.other.digest()]
    }
    fn perform(&self, c: &Call, crash: Option<u64>) -> Outcome<Vec<u64>> {
        match c.set {
            2 => perform(c, &self.other, crash),
            s => perform(c, &self.own[s], crash),
        }
    }
    fn alone(&self, c: &Call) -> Result<(Vec<u64>, u64), String> {
        match c.set {
            2 => alone(c, &self.other),
            s => alone(c, &self.own[s]),
        }
    }
}

fn alone<A: Sc>(c: &Call, i: &Inputs<A>) -> Result<(Vec<u64>, u64), String> {
    on_fresh_thread(|| {
        let (o, rep) = run_env(
            &c.cfg,
            AssertUnwindSafe(|| if c.nested.is_some() { plain_lob(i) } else { run_op(c.op, i) }),
        );
        match o {
            Outcome::Done(b) => Ok((b, rep.ops)),
            o => Err(o.label()),
        }
    })
}

fn perform<A: Sc>(c: &Call, i: &Inputs<A>, crash: Option<u64>) -> Outcome<Vec<u64>> {
    alloc::set_poison(c.poison);
    let cfg = EnvCfg { crash_at: crash, ..c.cfg };
    let (o, _) = run_env(
        &cfg,
        AssertUnwindSafe(|| match c.nested {
            None => run_op(c.op, i),
            Some(n) => nested(n, i).0,
        }),
    );
    alloc::set_poison(None);
    o
}

/// Set in a process which was started for a few calls only
const COLD: &str = "SIM_COLD";

fn hex(b: &[u64]) -> String {
    b.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ")
}

/// In the fresh process: makes the calls `index:crash` and prints what the last one gives
fn cold_calls<A: Sc>(spec: &str, pool: &Pool<A>, plan: &[Vec<Call>]) -> Res {
    let calls: Vec<&Call> = plan.iter().flatten().collect();
    let mut last = String::new();
    for item in spec.split(',') {
        let (k, crash) = item.split_once(':').unwrap();
        let c = calls[k.parse::<usize>().unwrap()];
        last = match (c.nested, pool.perform(c, crash.parse().ok())) {
            (_, Outcome::Done(b)) => hex(&b),
            (_, o) => o.label(),
        };
    }
    println!("cold {last}");
    Ok(())
}

/// A call gives the same in a process that has made no or other calls before
fn cold_start<A: Sc>(ctx: &mut Ctx, taken: &[u64], plan: &[Vec<Call>], ops: &[u64]) -> Res {
    let calls: Vec<&Call> = plan.iter().flatten().collect();
    let mut spec = vec![];
    let n = ctx.range(1, 3);
    let mut last = 0;
    for j in 0..n {
        last = ctx.draw(calls.len() as u64) as usize;
        let crash = j + 1 < n && ops[last] > 0 && ctx.chance(1, 2);
        spec.push(match crash {
            true => format!("{last}:{}", ctx.draw(ops[last])),
            false => format!("{last}:-"),
        });
    }
    let spec = spec.join(",");
    ctx.note(format!("fresh process: calls {spec}"));
    let choices: Vec<String> = taken.iter().map(|x| x.to_string()).collect();
    let out = std::env::current_exe()
        .and_then(|exe| {
            std::process::Command::new(exe)
                .args(["cold", "--property", "C09", "--choices", &choices.join(",")])
                .env(COLD, &spec)
                .output()
        })
        .map(|o| String::from_utf8_lossy(&o.stdout).into_owned())
        .unwrap_or_default();
    let Some(got) = out.lines().find_map(|l| l.strip_prefix("cold ")) else {
        // the machine refused another process, or the call died there
        ctx.hit("cold-start.no-answer");
        return Ok(());
    };
    ctx.hit("fault.process-restart");
    if got != hex(&calls[last].want) {
        return viol("cold-start", format!("{} gives another result in a fresh process", label(calls[last])));
    }
    Ok(())
}

pub fn c09<A: Sc>(ctx: &mut Ctx) -> Res {
    let pool = Pool::<A>::gen(ctx);
    // usually several callers work on the same operands
    let spread = ctx.draw(3);
    let n_act = ctx.range(2, 4);
    let mut plan: Vec<Vec<Call>> = vec![];
    for _ in 0..n_act {
        let mut calls = vec![];
        for _ in 0..ctx.range(1, 3) {
            let op = ctx.draw(OPS.len() as u64) as usize;
            let set = match spread {
                0 => 0,
                _ => ctx.pick(&[0usize, 1, 2, 2]),
            };
            let inner = (ctx.chance(1, 8)).then(|| ctx.draw(OPS.len() as u64) as usize);
            let mut cfg = gen::env(ctx);
            cfg.budget = CALL;
            let poison = if ctx.chance(1, 4) { Some(0xff) } else { None };
            let crash = ctx.chance(1, 4).then(|| ctx.draw(1 << 20));
            calls.push(Call { op, set, nested: inner, cfg, crash, poison, want: vec![] });
        }
        plan.push(calls);
    }
    if let Ok(spec) = std::env::var(COLD) {
        return cold_calls(&spec, &pool, &plan);
    }
    let taken = ctx.taken.clone();
    let mut ops_of = vec![];
    // what every call gives on its own
    for c in plan.iter_mut().flatten() {
        let (want, ops) = match pool.alone(c) {
            Ok(x) => x,
            Err(e) => return viol("alone", format!("{} on its own: {e}", label(c))),
        };
        c.want = want;
        ops_of.push(ops);
        ctx.stats.ops += ops;
        ctx.hit(&format!("op.{}", OPS[c.op]));
        c.crash = match c.crash {
            Some(x) if ops > 0 => Some(x % ops),
            _ => None,
        };
        ctx.note(format!("{} operands {} {} {:?}{} crash {:?}", A::NAME, c.set, label(c), c.cfg.round, if c.cfg.ftz { " ftz" } else { "" }, c.crash));
    }
    if ctx.chance(1, 40) {
        cold_start::<A>(ctx, &taken, &plan, &ops_of)?;
    }
    let before = pool.digest();
    let fired = Mutex::new((0u64, 0u64));
    let mut actors: Vec<(String, Body)> = vec![];
    for (k, calls) in plan.iter().enumerate() {
        let (pool, fired) = (&pool, &fired);
        actors.push((
            format!("actor {k}"),
            Box::new(move || {
                for (j, c) in calls.iter().enumerate() {
                    let mut crash = c.crash;
                    // a cancelled call is made again by the same caller
                    loop {
                        match pool.perform(c, crash) {
                            Outcome::Done(b) => {
                                if b != c.want {
                                    return viol("result", format!("call {j} ({}) gives another result than on its own", label(c)));
                                }
                                fired.lock().unwrap().0 += 1;
                                break;
                            }
                            Outcome::Crashed => {
                                fired.lock().unwrap().1 += 1;
                                crash = None;
                            }
                            o => return viol("outcome", format!("call {j} ({}): {}", label(c), o.label())),
                        }
                    }
                }
                Ok(())
            }),
        ));
    }
    let r = interleave(ctx, actors, || {
        if pool.digest() == before {
            Ok(())
        } else {
            viol("shared-operand", "a shared operand was observed in a modified state")
        }
    });
    let f = *fired.lock().unwrap();
    ctx.add("calls.completed", f.0);
    ctx.add("fault.cancelled-call", f.1);
    ctx.mixin(f.1);
    for c in plan.iter().flatten() {
        ctx.mixin(c.op as u64);
    }
    ctx.stats.nontrivial = f.0 >= 2;
    r?;
    // decomposition objects which were shared still answer as before
    Ok(())
}

fn inner_consistency<A: Sc>(i: &Inputs<A>, inner: usize) -> Res {
    let (outer, got) = nested(inner, i);
    if outer != plain_lob(i) {
        return viol("reentrancy", format!("{} called from within an operator changes the solve", OPS[inner]));
    }
    let want = run_op(inner, i);
    if got.iter().any(|g| *g != want) {
        return viol("reentrancy", format!("{} answers differently from within an operator", OPS[inner]));
    }
    Ok(())
}

pub fn c11<A: Sc>(ctx: &mut Ctx) -> Res {
    let max = match ctx.draw(60) {
        59 => 24,
        54..=58 => 9,
        _ => 5,
    };
    let i = Inputs::<A>::gen(ctx, max);
    let before = i.digest();
    let mut cfg = gen::env(ctx);
    cfg.budget = CALL;
    let calls = ctx.range(1, 4);
    for k in 0..calls {
        let op = ctx.draw(OPS.len() as u64) as usize;
        let poison = if ctx.chance(1, 3) { Some(ctx.pick(&[0xffu8, 0x00, 0x7f])) } else { None };
        ctx.hit(&format!("op.{}", OPS[op]));
        // uninterrupted; the first execution may initialise whatever the process keeps
        let (o, rep) = run_env(&cfg, AssertUnwindSafe(|| run_op(op, &i)));
        let Outcome::Done(want) = o else { return viol("uninterrupted", format!("{}: {}", OPS[op], o.label())) };
        ctx.stats.ops += rep.ops;
        let l0 = alloc::live();
        let (o, _) = run_env(&cfg, AssertUnwindSafe(|| run_op(op, &i)));
        let same = matches!(&o, Outcome::Done(b) if *b == want);
        drop(o);
        if !same {
            return viol("repetition", format!("{} called twice", OPS[op]));
        }
        if alloc::live() != l0 {
            return viol("leak", format!("{} keeps {} bytes allocated", OPS[op], alloc::live() - l0));
        }
        // interrupted at some steps
        if A::SIM && rep.ops > 0 {
            for _ in 0..ctx.range(1, 3) {
                let at = ctx.draw(rep.ops);
                ctx.note(format!("{} {} {:?} interrupted at step {at} of {}", A::NAME, OPS[op], cfg.round, rep.ops));
                let l0 = alloc::live();
                alloc::set_poison(poison);
                let (o, _) = run_env(&EnvCfg { crash_at: Some(at), ..cfg }, AssertUnwindSafe(|| run_op(op, &i)));
                alloc::set_poison(None);
                let crashed = matches!(o, Outcome::Crashed);
                let o = if crashed {
                    drop(o);
                    None
                } else {
                    Some(o)
                };
                let l1 = alloc::live();
                match o {
                    None => ctx.hit("fault.crash-at-step"),
                    Some(o) => return viol("interrupted", format!("{}: {}", OPS[op], o.label())),
                }
                ctx.mixin((op as u64) << 8 | (at * 16 / rep.ops));
                if l1 != l0 {
                    return viol("leak", format!("{} interrupted at step {at} leaves {} bytes allocated", OPS[op], l1 - l0));
                }
                if i.digest() != before {
                    return viol("operand", format!("{} interrupted at step {at} modified an operand passed by reference", OPS[op]));
                }
                // made again, possibly after further interruptions
                if ctx.chance(1, 3) {
                    continue;
                }
                alloc::set_poison(poison);
                let (o, _) = run_env(&cfg, AssertUnwindSafe(|| run_op(op, &i)));
                alloc::set_poison(None);
                match o {
                    Outcome::Done(b) if b == want => {}
                    Outcome::Done(_) => return viol("retry", format!("{} gives another result after an interruption at step {at}", OPS[op])),
                    o => return viol("retry", format!("{} after an interruption at step {at}: {}", OPS[op], o.label())),
                }
            }
            ctx.stats.nontrivial = true;
        }
        // decomposition objects answer as before, whatever was interrupted
        let q = [20usize, 21, 22, 23, 24, 38, 39][ctx.draw(7) as usize];
        let (o, _) = run_env(&cfg, AssertUnwindSafe(|| run_op(q, &i)));
        let Outcome::Done(now) = o else { return viol("queries", format!("{}: {}", OPS[q], o.label())) };
        let fresh = on_fresh_thread(|| match run_env(&cfg, AssertUnwindSafe(|| run_op(q, &i))).0 {
            Outcome::Done(b) => b,
            _ => vec![],
        });
        if now != fresh {
            return viol("queries", format!("{} answers differently after interruptions", OPS[q]));
        }
        if k == 0 && ctx.chance(1, 6) {
            let inner = ctx.draw(OPS.len() as u64) as usize;
            let (o, _) = run_env(
                &EnvCfg { round: Round::Nearest, ftz: false, budget: CALL, ..EnvCfg::default() },
                AssertUnwindSafe(|| inner_consistency(&i, inner)),
            );
            ctx.hit("probe.reentrancy");
            match o {
                Outcome::Done(r) => r?,
                o => return viol("reentrancy", o.label()),
            }
        }
    }
    if ctx.chance(1, 3) {
        collaborator(ctx, &i, &cfg)?;
    }
    if i.digest() != before {
        return viol("operand", "an operand passed by reference was modified");
    }
    Ok(())
}

/// The operator, preconditioner or random source panics
fn collaborator<A: Sc>(ctx: &mut Ctx, i: &Inputs<A>, cfg: &EnvCfg) -> Res {
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Who {
        Op,
        Pre,
        Rng,
    }
    let who = [Who::Op, Who::Pre, Who::Rng][ctx.draw(3) as usize];
    let at = ctx.range(0, 6);
    let crash = |on: bool, n: &std::cell::Cell<usize>| {
        if on && n.get() == at {
            std::panic::resume_unwind(Box::new(crate::env::InjectedCrash));
        }
        n.set(n.get() + 1);
    };
    let run = |on: bool| {
        run_env(
            cfg,
            AssertUnwindSafe(|| {
                let (a, b) = (std::cell::Cell::new(0), std::cell::Cell::new(0));
                if who == Who::Rng {
                    let mut r = SimRng::new(i.seed);
                    if on {
                        r.crash_at = vec![at as u64];
                    }
                    let mut t = TruncatedEig::new_with_rng(i.sym.clone(), Order::Largest, r).maxiter(6);
                    lob_bits(&t.decompose(i.x0.ncols()))
                } else {
                    lob_bits(&lobpcg(
                        |x| {
                            crash(on && who == Who::Op, &a);
                            i.sym.dot(&x)
                        },
                        i.x0.clone(),
                        |_| crash(on && who == Who::Pre, &b),
                        Some(i.y.view()).filter(|_| i.y.nrows() > 3),
                        1e-9,
                        6,
                        Order::Smallest,
                    ))
                }
            }),
        )
        .0
    };
    let Outcome::Done(want) = run(false) else { return viol("uninterrupted", "solve with collaborators") };
    let l0 = alloc::live();
    let o = run(true);
    let crashed = matches!(o, Outcome::Crashed);
    if let Outcome::Panicked(_) | Outcome::Budget = &o {
        return viol("collaborator", format!("{who:?} panicking at call {at}: {}", o.label()));
    }
    drop(o);
    let l1 = alloc::live();
    if crashed {
        ctx.hit(&format!("fault.collaborator-panics.{who:?}"));
    }
    if l1 != l0 {
        return viol("leak", format!("{who:?} panicking at call {at} leaves {} bytes allocated", l1 - l0));
    }
    match run(false) {
        Outcome::Done(b) if b == want => Ok(()),
        _ => viol("retry", format!("solve repeated after {who:?} panicked at call {at}")),
    }
}
