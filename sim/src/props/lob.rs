//! C01-C05: the iterative eigensolver with collaborators owned by the simulator.

use crate::ctx::*;
use crate::env::*;
use crate::gen;
use crate::oracle::*;
use crate::prng::Prng;
use crate::simf::*;
use linfa_linalg::lobpcg::{lobpcg, Lobpcg, LobpcgResult};
use linfa_linalg::{LinalgError, Order};
use ndarray::{Array2, ArrayView2, ArrayViewMut2};
use std::cell::RefCell;

/// What the preconditioner does at one call
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PF {
    Identity,
    Jacobi,
    Flip,
    Scale(i32),
    Garbage(u64),
    Mix(u64),
    Permute,
    Stale,
    Constraint,
    // rank-destroying or non-finite from here on
    Zero,
    Constant,
    DupColumn,
    Nan,
    Inf,
    NanBlock,
}

impl PF {
    pub fn name(&self) -> &'static str {
        match self {
            PF::Identity => "identity",
            PF::Jacobi => "jacobi",
            PF::Flip => "sign-flip",
            PF::Scale(_) => "scaled",
            PF::Garbage(_) => "garbage",
            PF::Mix(_) => "noise",
            PF::Permute => "permuted",
            PF::Stale => "stale",
            PF::Constraint => "leaks-constraint",
            PF::Zero => "zero",
            PF::Constant => "constant",
            PF::DupColumn => "dup-column",
            PF::Nan => "nan",
            PF::Inf => "inf",
            PF::NanBlock => "nan-block",
        }
    }
}

pub fn draw_soft(ctx: &mut Ctx) -> PF {
    match ctx.draw(9) {
        0 => PF::Identity,
        1 => PF::Jacobi,
        2 => PF::Flip,
        3 => PF::Scale(ctx.range(0, 40) as i32 - 20),
        4 => PF::Garbage(ctx.seed()),
        5 => PF::Mix(ctx.seed()),
        6 => PF::Permute,
        7 => PF::Stale,
        _ => PF::Constraint,
    }
}
pub fn draw_hard(ctx: &mut Ctx) -> PF {
    ctx.pick(&[PF::NanBlock, PF::Nan, PF::Inf, PF::Zero, PF::Constant, PF::DupColumn])
}

/// What the operator does at one call
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OF {
    Nan,
    NanBlock,
    Inf,
    NegInfBlock,
    Huge,
    Zero,
    Garbage(u64),
}

#[derive(Clone, Debug)]
pub struct OpCall {
    pub rows: usize,
    pub cols: usize,
    pub x: M,
}

#[derive(Clone)]
pub struct Plan {
    /// behaviour per call, then `rest`
    pub pre: Vec<PF>,
    pub rest: PF,
    pub op: Vec<(usize, OF)>,
    /// operator misbehaves like this from this call on
    pub op_from: Option<(usize, OF)>,
}

impl Plan {
    pub fn benign() -> Self {
        Plan {
            pre: vec![],
            rest: PF::Identity,
            op: vec![],
            op_from: None,
        }
    }
}

pub struct Problem {
    pub n: usize,
    pub k: usize,
    pub a: M,
    pub x: M,
    pub y: Option<M>,
    pub order: Order,
    pub tol: f32,
    pub maxiter: usize,
    pub evals: Vec<f64>,
    /// Memory layout of the start block, the constraints and what the operator returns
    pub layout: Option<u64>,
}

#[derive(Default)]
pub struct Log {
    pub op: Vec<OpCall>,
    pub pre: Vec<(usize, usize)>,
    pub fired: Vec<&'static str>,
    pub events: Vec<char>,
}


/// The columns of the constraints without their units
fn unit_columns(y: &M) -> M {
    let mut y = y.clone();
    for mut c in y.columns_mut() {
        let m = c.iter().fold(0f64, |m, x| m.max(x.abs()));
        c /= if m > 0.0 { m } else { 1.0 };
    }
    y
}

pub fn apply_pf<A: Sc>(
    pf: PF,
    r: &mut ArrayViewMut2<A>,
    p: &Problem,
    prev: &Option<M>,
) {
    let cur = raw2(&r.view());
    let (n, j) = cur.dim();
    let new = match pf {
        PF::Identity => return,
        PF::Jacobi => M::from_shape_fn((n, j), |(i, c)| {
            let d = p.a[(i, i)].abs();
            cur[(i, c)] / if d > 1e-3 { d } else { 1.0 }
        }),
        PF::Flip => -cur,
        PF::Scale(e) => cur * 2f64.powi(e),
        PF::Garbage(s) => {
            let mut g = Prng::new(s);
            M::from_shape_fn((n, j), |_| g.sym())
        }
        PF::Mix(s) => {
            let mut g = Prng::new(s);
            let m = amax(&cur);
            cur.mapv(|x| x + 0.5 * m * g.sym())
        }
        PF::Permute => M::from_shape_fn((n, j), |(i, c)| cur[(i, (c + 1) % j)]),
        PF::Stale => match prev {
            Some(q) if q.dim() == (n, j) => q.clone(),
            _ => return,
        },
        PF::Constraint => match &p.y {
            Some(y) => {
                let m = amax(&cur).max(1e-3);
                let y = unit_columns(y);
                M::from_shape_fn((n, j), |(i, c)| {
                    cur[(i, c)] + 3.0 * m * y[(i, c % y.ncols())]
                })
            }
            None => return,
        },
        PF::Zero => M::zeros((n, j)),
        PF::Constant => M::from_elem((n, j), 0.25),
        PF::DupColumn => M::from_shape_fn((n, j), |(i, _)| cur[(i, 0)]),
        PF::Nan => {
            let mut c = cur;
            c[(n / 2, j - 1)] = f64::NAN;
            c
        }
        PF::Inf => {
            let mut c = cur;
            c[(n / 2, j - 1)] = f64::INFINITY;
            c
        }
        PF::NanBlock => M::from_elem((n, j), f64::NAN),
    };
    for i in 0..n {
        for c in 0..j {
            r[(i, c)] = A::of(new[(i, c)]);
        }
    }
}

/// Runs one solve with simulated collaborators
pub fn solve<A: Sc>(
    p: &Problem,
    plan: &Plan,
    cfg: &EnvCfg,
    keep: bool,
) -> (Outcome<LobpcgResult<A>>, Log, Report) {
    let log = RefCell::new(Log::default());
    let prev: RefCell<Option<M>> = RefCell::new(None);
    let cap = 3 * (10 * p.n + 5);
    let op = |x: ArrayView2<A>| -> Array2<A> {
        let _g = Pause::new();
        let xin = raw2(&x);
        let idx = log.borrow().op.len();
        {
            let mut l = log.borrow_mut();
            l.op.push(OpCall {
                rows: xin.nrows(),
                cols: xin.ncols(),
                x: if keep { xin.clone() } else { M::zeros((0, 0)) },
            });
            l.events.push('A');
        }
        if idx > cap {
            drop(_g);
            std::panic::panic_any("runaway solve");
        }
        let mut y = mul(&p.a, &xin);
        let f = plan
            .op
            .iter()
            .find(|(i, _)| *i == idx)
            .map(|x| x.1)
            .or(plan.op_from.filter(|(i, _)| idx >= *i).map(|x| x.1));
        if let Some(f) = f {
            let (n, j) = y.dim();
            let name = match f {
                OF::Nan => {
                    y[(n - 1, 0)] = f64::NAN;
                    "op.nan"
                }
                OF::NanBlock => {
                    y.fill(f64::NAN);
                    "op.nan-block"
                }
                OF::Inf => {
                    y[(0, j - 1)] = f64::INFINITY;
                    "op.inf"
                }
                OF::NegInfBlock => {
                    y.fill(f64::NEG_INFINITY);
                    "op.neg-inf-block"
                }
                OF::Huge => {
                    y.fill(if A::F32 { 1e30 } else { 1e200 });
                    "op.huge"
                }
                OF::Zero => {
                    y.fill(0.0);
                    "op.zero"
                }
                OF::Garbage(s) => {
                    let mut g = Prng::new(s ^ idx as u64);
                    y.mapv_inplace(|_| g.sym());
                    "op.garbage"
                }
            };
            log.borrow_mut().fired.push(name);
        }
        match p.layout {
            Some(l) => gen::relay(to_sc(&y), l),
            None => to_sc(&y),
        }
    };
    let pre = |mut r: ArrayViewMut2<A>| {
        let _g = Pause::new();
        let idx = log.borrow().pre.len();
        {
            let mut l = log.borrow_mut();
            l.pre.push((r.nrows(), r.ncols()));
            l.events.push('M');
        }
        if idx > cap {
            drop(_g);
            std::panic::panic_any("runaway solve");
        }
        let pf = plan.pre.get(idx).copied().unwrap_or(plan.rest);
        if pf != PF::Identity {
            log.borrow_mut().fired.push(pf.name());
        }
        let before = raw2(&r.view());
        if r.ncols() > 0 && r.nrows() > 0 {
            apply_pf(pf, &mut r, p, &prev.borrow());
        }
        *prev.borrow_mut() = Some(before);
    };
    let lay = |x: Array2<A>| p.layout.map_or_else(|| x.clone(), |l| gen::relay(x.clone(), l));
    let x0: Array2<A> = lay(to_sc(&p.x));
    let y: Option<Array2<A>> = p.y.as_ref().map(|y| lay(to_sc(y)));
    let (out, rep) = run_env(cfg, || {
        lobpcg(
            op,
            x0,
            pre,
            y.as_ref().map(|y| y.view()),
            p.tol,
            p.maxiter,
            p.order,
        )
    });
    (out, log.into_inner(), rep)
}

pub fn account(ctx: &mut Ctx, log: &Log, rep: &Report) {
    ctx.stats.ops += rep.ops;
    ctx.add("fault.rounding", rep.perturbed);
    ctx.add("fault.flush-to-zero", rep.flushed);
    ctx.add("lobpcg.operator-calls", log.op.len() as u64);
    for f in &log.fired {
        ctx.hit(&format!("fault.{f}"));
        ctx.mixs(f);
    }
    ctx.mixin(log.op.len() as u64);
}

pub fn order(ctx: &mut Ctx) -> Order {
    ctx.pick(&[Order::Largest, Order::Smallest])
}

/// Symmetric operator with known structure
fn operator(ctx: &mut Ctx, n: usize) -> M {
    match ctx.draw(6) {
        0 => M::from_diag(&ndarray::Array1::from_shape_fn(n, |i| (i + 1) as f64)),
        1 => gen::spd(ctx, n),
        2 => {
            // indefinite
            let mut r = Prng::new(ctx.seed());
            let mut a = M::from_shape_fn((n, n), |_| r.sym() as f32 as f64);
            for i in 0..n {
                for j in 0..i {
                    a[(i, j)] = a[(j, i)];
                }
            }
            a
        }
        3 => {
            // 1-D Laplacian
            M::from_shape_fn((n, n), |(i, j)| match i.abs_diff(j) {
                0 => 2.0,
                1 => -1.0,
                _ => 0.0,
            })
        }
        4 => {
            // repeated eigenvalues
            let mut d = vec![0.0; n];
            for x in d.iter_mut() {
                *x = ctx.range(1, 4) as f64;
            }
            diag(&d)
        }
        _ => {
            let mut r = Prng::new(ctx.seed());
            let d: Vec<f64> = (0..n).map(|i| (i as f64) * 0.7 + 0.2 * r.sym()).collect();
            let q = gen::rotation(ctx, n);
            let mut a = mul(&mul(&q, &diag(&d)), &tr(&q)).mapv(|x| x as f32 as f64);
            for i in 0..n {
                for j in 0..i {
                    a[(i, j)] = a[(j, i)];
                }
            }
            a
        }
    }
}

fn start(ctx: &mut Ctx, n: usize, k: usize) -> M {
    match ctx.draw(5) {
        0 => {
            let mut r = Prng::new(ctx.seed());
            M::from_shape_fn((n, k), |(i, j)| {
                (r.unit() * 0.5 + if i == j { 1.0 } else { 0.0 }) as f32 as f64
            })
        }
        1 => {
            // coordinate vectors: exact eigenvectors of diagonal operators
            let o = ctx.range(0, n - k);
            M::from_shape_fn((n, k), |(i, j)| (i == j + o) as u8 as f64)
        }
        2 => {
            // badly scaled but well-conditioned after scaling
            let mut r = Prng::new(ctx.seed());
            let s = 2f64.powi(ctx.range(0, 20) as i32 - 10);
            M::from_shape_fn((n, k), |(i, j)| {
                ((r.sym() * 0.4 + if i == j { 1.0 } else { 0.0 }) * s) as f32 as f64
            })
        }
        _ => {
            let q = mgs(&gen::randm(ctx, n, k));
            q.mapv(|x| x as f32 as f64)
        }
    }
}

pub fn problem(ctx: &mut Ctx, nmax: usize, constraints: bool) -> Problem {
    let n = if ctx.chance(1, 60) { ctx.range(nmax, 48) } else { ctx.range(1, nmax) };
    let k = if n <= nmax && ctx.chance(1, 4) {
        ctx.range(1, n)
    } else {
        ctx.range(1, (n / 3).clamp(1, 5))
    };
    let a = operator(ctx, n);
    let mut x = start(ctx, n, k);
    // the domain is start blocks of numerically full rank
    if cond(&x) > 1e3 {
        x = M::from_shape_fn((n, k), |(i, j)| (i == j) as u8 as f64 + 0.01 * (i + j) as f64);
        if cond(&x) > 1e3 {
            x = M::from_shape_fn((n, k), |(i, j)| (i == j) as u8 as f64);
        }
    }
    let (evals, _) = jacobi(&a);
    let y = if constraints && n >= 3 && ctx.chance(1, 3) {
        let c = ctx.range(1, ((n - 1) / 2).min(3));
        let mut y = mgs(&gen::randm(ctx, n, c));
        if ctx.chance(1, 2) {
            y = y * 2f64.powi(ctx.range(0, 6) as i32 - 3);
        }
        Some(y.mapv(|x| x as f32 as f64))
    } else {
        None
    };
    let order = order(ctx);
    let maxiter = match ctx.draw(4) {
        0 => ctx.range(0, 4),
        1 => ctx.range(0, 12),
        2 => ctx.range(0, 30),
        _ => ctx.pick(&[1000, usize::MAX]),
    };
    let tol = ctx.pick(&[1e-5f32, 1e-3, 1e-1, 1e-7, 0.0, 10.0]);
    // large blocks make every iteration expensive
    let maxiter = if k > 5 { maxiter.min(30) } else { maxiter };
    Problem {
        n,
        k,
        a,
        x,
        y,
        order,
        tol,
        maxiter,
        evals,
        layout: layout(ctx),
    }
}

fn layout(ctx: &mut Ctx) -> Option<u64> {
    if ctx.chance(1, 6) {
        ctx.hit("input.unusual-layout");
        Some(ctx.draw(6))
    } else {
        None
    }
}

pub fn describe(p: &Problem) -> String {
    format!(
        "n={} k={} order={:?} tol={:e} maxiter={} constraints={}",
        p.n,
        p.k,
        p.order,
        p.tol,
        p.maxiter,
        p.y.as_ref().map_or(0, |y| y.ncols())
    )
}

pub fn best<A: Sc>(r: &LobpcgResult<A>) -> Option<&Lobpcg<A>> {
    match r {
        Ok(l) => Some(l),
        Err((_, l)) => l.as_ref(),
    }
}

/// With constraints the start block must keep its rank in the complement
fn start_ok(p: &Problem) -> bool {
    match &p.y {
        None => true,
        Some(y) => {
            let q = mgs(y);
            let px = &p.x - &mul(&q, &mul(&tr(&q), &p.x));
            p.k + y.ncols() <= p.n && cond(&unit_columns(y)) < 1e3 && cond(&px) < 1e3
        }
    }
}

/// The self-certification checks on a result
pub fn certify<A: Sc>(ctx: &mut Ctx, p: &Problem, l: &Lobpcg<A>, what: &str) -> Res {
    let (n, k) = (p.n, p.k);
    if l.eigvals.len() != k || l.eigvecs.dim() != (n, k) || l.rnorm.len() != k {
        return viol(
            "shape",
            format!(
                "{what}: {} values, vectors {:?}, {} norms for k={k}, n={n}",
                l.eigvals.len(),
                l.eigvecs.dim(),
                l.rnorm.len()
            ),
        );
    }
    let v = raw2(&l.eigvecs);
    let lam = raw1(&l.eigvals);
    let rn: Vec<f64> = l.rnorm.iter().map(|x| x.raw()).collect();
    if !finite(&v) || !lam.iter().chain(rn.iter()).all(|x| x.is_finite()) {
        return viol("non-finite", format!("{what}: {lam:?} {rn:?}"));
    }
    let sc = vmax(&p.evals).max(1e-3);
    // with an unreachable tolerance the solver keeps going on search directions that are rounding
    // errors; what it returns then is accurate to fewer digits
    let (to, tr_) = if A::F32 {
        (0.05, 0.05)
    } else if p.tol < 1e-6 {
        (1e-5, 1e-3)
    } else {
        (1e-4, 1e-4)
    };
    ctx.limit(&format!("orthonormality.{}", A::NAME), orth(&v), to, || {
        format!("{what}: vectors not orthonormal, values {lam:?}, Gram matrix {:.3?}", mul(&tr(&v), &v))
    })?;
    let av = mul(&p.a, &v);
    let yq = p.y.as_ref().map(mgs);
    for i in 0..k {
        let vi = col(&v, i);
        let avi = col(&av, i);
        let rq: f64 = vi.iter().zip(&avi).map(|(a, b)| a * b).sum();
        ctx.limit(
            &format!("rayleigh.{}", A::NAME),
            (rq - lam[i]).abs(),
            tr_ * sc,
            || format!("{what}: eigenvalue {} vs Rayleigh quotient {rq}", lam[i]),
        )?;
        let res: Vec<f64> = vi.iter().zip(&avi).map(|(a, b)| b - lam[i] * a).collect();
        // a constrained solve lives in the complement of the constraints
        let res = match &yq {
            None => res,
            Some(q) => {
                let r = M::from_shape_vec((n, 1), res).unwrap();
                let r = &r - &mul(q, &mul(&tr(q), &r));
                col(&r, 0)
            }
        };
        let t = norm2(&res);
        ctx.limit(
            &format!("residual-norm.{}", A::NAME),
            (t - rn[i]).abs(),
            tr_ * sc,
            || format!("{what}: reported {} true {t}", rn[i]),
        )?;
        let (hi, lo) = (p.evals[0], p.evals[n - 1]);
        let out = (lam[i] - hi).max(lo - lam[i]);
        ctx.limit(&format!("spectrum.{}", A::NAME), out, tr_ * sc, || {
            format!("{what}: {} outside [{lo}, {hi}]", lam[i])
        })?;
        if i > 0 {
            let d = match p.order {
                Order::Largest => lam[i] - lam[i - 1],
                Order::Smallest => lam[i - 1] - lam[i],
            };
            if d > 0.0 {
                return viol("order", format!("{what}: {lam:?} not {:?}", p.order));
            }
        }
    }
    Ok(())
}

/// Directed or heavily perturbed rounding biases every sum; with the 24 bits of f32 the Gram
/// matrices of a degenerate search space then look regular. f32 runs keep to (almost) IEEE rounding.
pub fn lob_env<A: Sc>(ctx: &mut Ctx) -> EnvCfg {
    let mut cfg = gen::env(ctx);
    if A::F32 && !matches!(cfg.round, Round::Nearest | Round::Faithful(4)) {
        cfg.round = Round::Nearest;
    }
    cfg
}

fn outcome_class<A: Sc>(o: &Outcome<LobpcgResult<A>>) -> &'static str {
    match o {
        Outcome::Done(Ok(_)) => "ok",
        Outcome::Done(Err((_, Some(_)))) => "err+best",
        Outcome::Done(Err((_, None))) => "err",
        Outcome::Crashed => "crashed",
        Outcome::Budget => "budget",
        Outcome::Panicked(_) => "panic",
    }
}

pub fn c01<A: Sc>(ctx: &mut Ctx) -> Res {
    let mut p = problem(ctx, 16, true);
    if !start_ok(&p) {
        ctx.hit("skipped.start-block");
        return Ok(());
    }
    if A::F32 {
        // below this every direction is a rounding error of the 24-bit Gram matrices
        p.tol = p.tol.max(1e-3);
    }
    let mut plan = Plan::benign();
    let np = ctx.range(0, 8);
    for _ in 0..np {
        let f = if ctx.chance(1, 8) && !A::F32 {
            draw_hard(ctx)
        } else {
            draw_soft(ctx)
        };
        plan.pre.push(f);
    }
    plan.rest = ctx.pick(&[PF::Identity, PF::Jacobi]);
    let cfg = lob_env::<A>(ctx);
    ctx.note(format!("{} {} {:?} pre={:?}", A::NAME, describe(&p), cfg.round, plan.pre));
    let (out, log, rep) = solve::<A>(&p, &plan, &cfg, false);
    account(ctx, &log, &rep);
    let oc = outcome_class(&out);
    ctx.hit(&format!("outcome.{oc}"));
    ctx.mixs(oc);
    ctx.stats.nontrivial = log.pre.len() >= 1;
    match out {
        Outcome::Done(r) => {
            if let Some(l) = best(&r) {
                certify(ctx, &p, l, oc)?;
            } else {
                return viol("no-result", format!("full-rank start block refused: {}", describe(&p)));
            }
        }
        Outcome::Panicked(m) => return viol("panic", m),
        Outcome::Budget => return viol("hang", "step budget exhausted"),
        Outcome::Crashed => return viol("harness", "unexpected crash"),
    }
    Ok(())
}

/// Total residual as the caller can compute it
fn total<A: Sc>(l: &Lobpcg<A>) -> f64 {
    l.rnorm.iter().map(|x| x.raw()).sum()
}

pub fn c02<A: Sc>(ctx: &mut Ctx) -> Res {
    let mut p = problem(ctx, 14, true);
    if !start_ok(&p) {
        ctx.hit("skipped.start-block");
        return Ok(());
    }
    p.tol = ctx.pick(&[1e-5f32, 1e-3, 0.0]);
    let mut plan = Plan::benign();
    for _ in 0..ctx.range(0, 5) {
        plan.pre.push(draw_soft(ctx));
    }
    plan.rest = ctx.pick(&[PF::Identity, PF::Jacobi]);
    let cfg = lob_env::<A>(ctx);
    let top = ctx.range(1, 10);
    ctx.note(format!("{} {} {:?} pre={:?} limits 0..={top}", A::NAME, describe(&p), cfg.round, plan.pre));
    // the same solve cut off after every number of iterations
    let mut cut: Vec<Vec<u64>> = vec![];
    let mut last = f64::INFINITY;
    let mut calls = 0;
    for m in 0..=top {
        p.maxiter = m;
        let (out, log, rep) = solve::<A>(&p, &plan, &cfg, false);
        account(ctx, &log, &rep);
        calls = log.op.len();
        let r = match out {
            Outcome::Done(r) => r,
            Outcome::Panicked(e) => return viol("panic", format!("limit {m}: {e}")),
            o => return viol("hang", format!("limit {m}: {}", outcome_class(&o))),
        };
        let Some(l) = best(&r) else {
            return viol("no-result", format!("limit {m} has no result"));
        };
        let t = total(l);
        // summation order and scalar width are not part of the guarantee
        if t > last * (1.0 + 16.0 * A::U) {
            return viol("larger-limit-worse", format!("limit {m}: {t:e} after {last:e}"));
        }
        last = t;
        let mut b = bits1(&l.eigvals);
        b.extend(bits2(&l.eigvecs));
        b.extend(l.rnorm.iter().map(|x| x.bits()));
        cut.push(b);
    }
    if calls < 2 {
        ctx.hit("probe.converged-at-once");
        return Ok(());
    }
    ctx.stats.nontrivial = true;
    // now break a collaborator in iteration j
    let j = ctx.range(1, calls - 1);
    let mut bad = plan.clone();
    let via_op = ctx.draw(2) == 0;
    p.maxiter = ctx.pick(&[top, top + 5, 1000]);
    let what = if via_op {
        let f = ctx.pick(&[OF::NanBlock, OF::Nan, OF::Inf, OF::NegInfBlock]);
        bad.op.push((j, f));
        format!("{f:?}")
    } else {
        let f = ctx.pick(&[PF::NanBlock, PF::Nan, PF::Inf, PF::Zero]);
        while bad.pre.len() < j {
            bad.pre.push(plan.rest);
        }
        bad.pre[j - 1] = f;
        format!("{f:?}")
    };
    ctx.note(format!("iteration {j}: {} delivers {what}", if via_op { "operator" } else { "preconditioner" }));
    let (out, log, rep) = solve::<A>(&p, &bad, &cfg, false);
    account(ctx, &log, &rep);
    match out {
        Outcome::Done(Err((_, Some(l)))) => {
            let mut b = bits1(&l.eigvals);
            b.extend(bits2(&l.eigvecs));
            b.extend(l.rnorm.iter().map(|x| x.bits()));
            if b != cut[j - 1] {
                return viol(
                    "best-lost",
                    format!(
                        "{what} in iteration {j}: total residual {:e}, limit {} gave different bits",
                        total(&l),
                        j - 1
                    ),
                );
            }
        }
        Outcome::Done(Err((e, None))) => {
            return viol("best-lost", format!("{what} in iteration {j}: {e} without a result"))
        }
        Outcome::Done(Ok(_)) => {
            return viol("error-swallowed", format!("{what} in iteration {j} reported as success"))
        }
        Outcome::Panicked(e) => return viol("panic", format!("{what} in iteration {j}: {e}")),
        o => return viol("hang", outcome_class(&o)),
    }
    // a start block or first operator call that is unusable: error without a result
    if ctx.chance(1, 3) {
        let mut bad = plan.clone();
        let mut q = Problem { x: p.x.clone(), a: p.a.clone(), y: p.y.clone(), evals: p.evals.clone(), ..p };
        let w = ctx.draw(3);
        match w {
            0 => bad.op.push((0, OF::NanBlock)),
            1 => q.x[(0, 0)] = f64::NAN,
            _ => q.x.column_mut(q.k - 1).fill(0.0),
        }
        ctx.hit("fault.start-unusable");
        let (out, _, _) = solve::<A>(&q, &bad, &cfg, false);
        match out {
            Outcome::Done(Err((_, None))) => {}
            o => {
                return viol(
                    "start-unusable",
                    format!("variant {w}: expected an error without result, got {}", match o { Outcome::Panicked(e) => e, o => outcome_class(&o).to_string() }),
                )
            }
        }
    }
    Ok(())
}

pub fn c03<A: Sc>(ctx: &mut Ctx) -> Res {
    let mut p = problem(ctx, 12, true);
    let start = start_ok(&p);
    p.tol = ctx.pick(&[1e-5f32, 1e-3, 0.0, 1e3, f32::INFINITY, 1e-1]);
    p.maxiter = match ctx.draw(3) {
        0 => ctx.range(0, 6),
        1 => ctx.range(0, 200),
        _ => ctx.pick(&[usize::MAX, 1000, 10 * p.n + 1, 10 * p.n]),
    };
    let mut plan = Plan::benign();
    for _ in 0..ctx.range(0, 6) {
        let f = if ctx.chance(1, 10) { draw_hard(ctx) } else { draw_soft(ctx) };
        plan.pre.push(f);
    }
    plan.rest = draw_soft(ctx);
    let mut clean = true;
    if ctx.chance(1, 3) {
        clean = false;
        let at = ctx.range(0, 4);
        let f = match ctx.draw(7) {
            0 => OF::Zero,
            1 => OF::Garbage(ctx.seed()),
            2 => OF::Huge,
            3 => OF::Nan,
            4 => OF::Inf,
            5 => OF::NegInfBlock,
            _ => OF::NanBlock,
        };
        if ctx.chance(1, 2) {
            plan.op_from = Some((at, f));
        } else {
            plan.op.push((at, f));
        }
    }
    let cfg = lob_env::<A>(ctx);
    ctx.note(format!(
        "{} {} {:?} pre={:?}.. {:?} op={:?} from={:?}",
        A::NAME, describe(&p), cfg.round, plan.pre, plan.rest, plan.op, plan.op_from
    ));
    let (out, log, rep) = solve::<A>(&p, &plan, &cfg, false);
    account(ctx, &log, &rep);
    ctx.hit(&format!("outcome.{}", outcome_class(&out)));
    ctx.stats.nontrivial = !log.pre.is_empty();
    let lim = p.maxiter.min(10 * p.n);
    if log.op.len() > 1 + lim {
        return viol("operator-calls", format!("{} calls for limit {lim}", log.op.len()));
    }
    if log.pre.len() > lim {
        return viol("preconditioner-calls", format!("{} calls for limit {lim}", log.pre.len()));
    }
    let mut prev = p.k;
    for c in &log.op {
        if c.rows != p.n || c.cols == 0 || c.cols > prev {
            return viol("block-shape", format!("operator got {}x{} after {prev} columns (n={} k={})", c.rows, c.cols, p.n, p.k));
        }
        prev = c.cols;
    }
    prev = p.k;
    for (r, c) in &log.pre {
        if *r != p.n || *c == 0 || *c > prev {
            return viol("block-shape", format!("preconditioner got {r}x{c} after {prev} columns (n={} k={})", p.n, p.k));
        }
        prev = *c;
    }
    match out {
        Outcome::Done(r) => {
            if (p.maxiter == 0 || p.tol >= 1e3 && clean) && !log.pre.is_empty() {
                return viol("needless-work", format!("{} preconditioner calls", log.pre.len()));
            }
            if clean && start {
                if let Ok(l) = &r {
                    let used = log.pre.len();
                    if used < lim {
                        // all pairs met the tolerance in the last iteration unless one was frozen
                        // before the others; a frozen pair may change again
                        let frozen = log.pre.last().is_some_and(|l| l.1 < p.k);
                        if frozen {
                            ctx.hit("probe.frozen-pair");
                        } else {
                            let t = p.tol as f64 * p.k as f64 * (1.0 + 1e-5);
                            ctx.limit("early-success", total(l), t + 1e-300, || {
                                format!("success after {used} of {lim} iterations, tolerance {:e}", p.tol)
                            })?;
                        }
                        ctx.hit("probe.converged-early");
                    }
                }
            }
        }
        Outcome::Panicked(e) => {
            if e.contains("runaway solve") {
                return viol("operator-calls", e);
            }
            return viol("panic", e);
        }
        o => return viol("hang", outcome_class(&o)),
    }
    Ok(())
}

pub fn c04<A: Sc>(ctx: &mut Ctx) -> Res {
    let n = if ctx.chance(1, 2) { ctx.range(3, 12) } else { ctx.range(8, 24) };
    let c = ctx.range(1, (n / 2).clamp(1, 4));
    // rarely a block which (nearly) exhausts the complement
    let most = if ctx.chance(1, 4) { n - c } else { (n - c) / 2 };
    let k = ctx.range(1, most.clamp(1, 3));
    let a = operator(ctx, n);
    let (evals, evecs) = jacobi(&a);
    let invariant = ctx.draw(2) == 0;
    // constraint basis: eigenvectors of the operator, or arbitrary directions
    let mut used: Vec<usize> = vec![];
    let base = if invariant {
        let mut left: Vec<usize> = (0..n).collect();
        for _ in 0..c {
            let i = ctx.draw(left.len() as u64) as usize;
            used.push(left.remove(i));
        }
        M::from_shape_fn((n, c), |(i, j)| evecs[(i, used[j])])
    } else {
        mgs(&gen::randm(ctx, n, c))
    };
    // orthonormal, scaled, or skewed basis of the same space
    let form = ctx.draw(3);
    let y = match form {
        0 => base.clone(),
        1 => {
            let mut y = base.clone();
            for j in 0..c {
                // the basis may be given in any units, and in different ones per column
                let s = ctx.pick(&[2.0, 0.5, -3.0, 8.0, 1e-3, 1e4, if A::F32 { 1e-5 } else { 1e-40 }, if A::F32 { 1e6 } else { 1e30 }]);
                y.column_mut(j).mapv_inplace(|x| x * s);
            }
            y
        }
        _ => {
            let mut t = M::eye(c);
            for i in 0..c {
                for j in 0..i {
                    t[(j, i)] = ctx.pick(&[0.5, -0.75, 1.0]);
                }
                t[(i, i)] = ctx.pick(&[1.0, 2.0, 0.5]);
            }
            mul(&base, &t)
        }
    };
    let order = order(ctx);
    let mut x = mgs(&gen::randm(ctx, n, k));
    if cond(&x) > 10.0 {
        x = M::from_shape_fn((n, k), |(i, j)| (i == j) as u8 as f64);
    }
    // a start block which is in the complement already, up to a small error
    if ctx.chance(1, 3) {
        let in_y = mul(&base, &mul(&tr(&base), &x));
        let leak = ctx.pick(&[0.0, 1e-12, 1e-8, 1e-5, 1e-4, 1e-2]);
        let z = &x - &(&in_y * (1.0 - leak));
        if z.columns().into_iter().all(|c| c.dot(&c) > 0.01) {
            x = z;
        }
    } else if ctx.chance(1, 4) {
        // a start block which hardly leaves the span of the constraints
        let in_y = mul(&base, &mul(&tr(&base), &x));
        let little = if A::F32 { ctx.pick(&[1e-1, 1e-2, 1e-3]) } else { ctx.pick(&[1e-2, 1e-4, 1e-6, 1e-8, 1e-10]) };
        ctx.hit("input.start-near-constraints");
        x = &in_y + &((&x - &in_y) * little);
    }
    let tight = if A::F32 { 1e-3 } else { 1e-6 };
    let p = Problem {
        n,
        k,
        a,
        x,
        y: Some(y.clone()),
        order,
        tol: ctx.pick(&[tight, tight, tight, tight, tight, tight, 1e-2, 1.0, 100.0]),
        maxiter: ctx.pick(&[1000, 1000, 1000, 0, 1, 2, 3, 5, 8, 40]),
        evals: evals.clone(),
        layout: layout(ctx),
    };
    if !start_ok(&p) {
        ctx.hit("skipped.start-block");
        return Ok(());
    }
    let mut plan = Plan::benign();
    for _ in 0..ctx.range(0, 5) {
        let f = if ctx.chance(1, 2) { PF::Constraint } else { draw_soft(ctx) };
        plan.pre.push(f);
    }
    plan.rest = ctx.pick(&[PF::Identity, PF::Constraint]);
    let cfg = lob_env::<A>(ctx);
    ctx.note(format!("{} {} {:?} form {form} invariant {invariant} pre={:?}..{:?}", A::NAME, describe(&p), cfg.round, plan.pre, plan.rest));
    let (out, log, rep) = solve::<A>(&p, &plan, &cfg, true);
    account(ctx, &log, &rep);
    ctx.stats.nontrivial = !log.pre.is_empty();
    let q = mgs(&unit_columns(&y));
    // without room in the complement (the domain of C05) the search directions are rounding errors;
    // they, and what is returned, have to stay in the complement all the same
    let tol = if A::F32 { 0.01 } else { 1e-9 };
    for (i, call) in log.op.iter().enumerate() {
        if call.x.nrows() != n {
            return viol("block-shape", format!("{:?}", call.x.dim()));
        }
        let m = amax(&call.x).max(1e-300);
        let d = amax(&mul(&tr(&q), &call.x)) / m;
        // a long solve in single precision works on residuals which are rounding errors
        if A::F32 && i > 8 {
            break;
        }
        ctx.limit(&format!("operator-input.{}", A::NAME), d, tol, || {
            format!("operator call {i} leaves the complement")
        })?;
    }
    match out {
        Outcome::Done(r) => {
            ctx.hit(&format!("outcome.{}", if r.is_ok() { "ok" } else { "err" }));
            let Some(l) = best(&r) else {
                return viol("no-result", describe(&p));
            };
            let v = raw2(&l.eigvecs);
            let d = amax(&mul(&tr(&q), &v));
            ctx.limit(&format!("eigenvectors.{}", A::NAME), d, if A::F32 { 0.01 } else { 1e-6 }, || {
                "returned vectors leave the complement".into()
            })?;
            let conv = l.rnorm.iter().all(|x| x.raw() <= tight as f64);
            if invariant && conv && r.is_ok() && n - c >= 5 * k {
                ctx.hit("probe.converged-in-complement");
                let mut idx: Vec<usize> = (0..n).filter(|i| !used.contains(i)).collect();
                if order == Order::Smallest {
                    idx.reverse();
                }
                let rest: Vec<f64> = idx.iter().map(|i| evals[*i]).collect();
                // how much of the wanted vectors there is in the start block
                let inside = &p.x - &mul(&base, &mul(&tr(&base), &p.x));
                let want = M::from_shape_fn((n, k), |(i, j)| evecs[(i, idx[j])]);
                let overlap = svals(&mul(&tr(&want), &mgs(&inside))).iter().fold(1.0f64, |m, x| m.min(*x));
                for i in 0..k {
                    // is there an eigenvalue of the complement at all, and is it the extreme one
                    let e = (l.eigvals[i].raw() - rest[i]).abs();
                    let near = rest.iter().fold(f64::INFINITY, |m, x| m.min((x - l.eigvals[i].raw()).abs()));
                    let t = if A::F32 { 2e-2 } else { 1e-4 } * vmax(&evals).max(1.0);
                    ctx.limit(&format!("complement-pair.{}", A::NAME), near, t, || {
                        format!("eigenvalue {} is none of the complement {rest:?}", l.eigvals[i].raw())
                    })?;
                    if e > t {
                        ctx.hit("probe.converged-to-inner-pair");
                        // single precision, a misleading preconditioner and a start block which
                        // hardly contains the wanted vectors may stop at an inner pair
                        if A::F32 || !plan.pre.is_empty() || plan.rest != PF::Identity || overlap < 0.1 {
                            continue;
                        }
                        return viol("complement-extreme", format!("pair {i}: {} instead of {}", l.eigvals[i].raw(), rest[i]));
                    }
                }
            }
        }
        Outcome::Panicked(e) => return viol("panic", e),
        o => return viol("hang", outcome_class(&o)),
    }
    Ok(())
}

pub fn c05<A: Sc>(ctx: &mut Ctx) -> Res {
    let (k, n) = if ctx.chance(1, 60) {
        let k = ctx.range(1, 12);
        (k, 5 * k + ctx.range(0, 40))
    } else {
        let k = ctx.range(1, 4);
        (k, 5 * k + ctx.range(0, 12))
    };
    // spectrum with a clear gap between wanted and unwanted pairs, and among the wanted ones
    let mut r = Prng::new(ctx.seed());
    let spread = ctx.pick(&[1.0, 0.25, 4.0]);
    let order = order(ctx);
    let mut d: Vec<f64> = (0..n)
        .map(|i| if i < k { (2 + k - i) as f64 } else { r.sym() })
        .map(|x| x * spread)
        .collect();
    if order == Order::Smallest {
        d.iter_mut().for_each(|x| *x = -*x);
    }
    // definite and indefinite operators
    let shift = ctx.pick(&[0.0, 10.0, -10.0]) * spread;
    d.iter_mut().for_each(|x| *x += shift);
    let q = gen::rotation(ctx, n);
    let mut a = mul(&mul(&q, &diag(&d)), &tr(&q)).mapv(|x| x as f32 as f64);
    for i in 0..n {
        for j in 0..i {
            a[(i, j)] = a[(j, i)];
        }
    }
    let (evals, _) = jacobi(&a);
    let x = gen::randm(ctx, n, k);
    let base = if A::F32 { 2e-4 } else { 1e-6 } * vmax(&evals);
    let p = Problem {
        n,
        k,
        a,
        x,
        y: None,
        order,
        tol: (base * ctx.pick(&[1.0, 10.0])) as f32,
        maxiter: 1000,
        evals: evals.clone(),
        layout: layout(ctx),
    };
    if cond(&p.x) > 100.0 {
        ctx.hit("skipped.start-block");
        return Ok(());
    }
    let mut plan = Plan::benign();
    let nf = ctx.range(0, 6);
    for _ in 0..nf {
        plan.pre.push(match ctx.draw(7) {
            0 => PF::Identity,
            1 => PF::Flip,
            2 => PF::Scale(ctx.range(0, 20) as i32 - 10),
            3 => PF::Garbage(ctx.seed()),
            4 => PF::Mix(ctx.seed()),
            5 => PF::Permute,
            _ => PF::Jacobi,
        });
    }
    let cfg = lob_env::<A>(ctx);
    ctx.note(format!("{} {} {:?} pre={:?}", A::NAME, describe(&p), cfg.round, plan.pre));
    let (out, log, rep) = solve::<A>(&p, &plan, &cfg, false);
    account(ctx, &log, &rep);
    ctx.stats.nontrivial = nf > 0;
    match out {
        Outcome::Done(r) => {
            let Some(l) = best(&r) else {
                return viol("no-result", describe(&p));
            };
            let worst = l.rnorm.iter().fold(0.0f64, |m, x| m.max(x.raw()));
            // a pair frozen while the faults lasted has met the tolerance once, that is all
            if log.pre.iter().take(nf + 1).any(|c| c.1 < k) {
                ctx.hit("probe.frozen-during-faults");
                return Ok(());
            }
            // documented: the solver may give up when the precision of the scalar is too low
            if A::F32 && matches!(r, Err((LinalgError::NotPositiveDefinite, _))) {
                ctx.hit("probe.f32-gave-up");
                return Ok(());
            }
            // in single precision a long solve wanders: a pair that has met the tolerance and is
            // frozen is still recombined with the others
            if A::F32 && worst > p.tol as f64 * 1.5 {
                ctx.hit("probe.f32-drift");
            }
            let slack = if A::F32 { 20.0 } else { 1.5 };
            ctx.limit(&format!("converged.{}", A::NAME), worst, p.tol as f64 * slack, || {
                format!("residual after {} iterations ({})", log.pre.len(), if r.is_ok() { "ok" } else { "err" })
            })?;
            let after = log.pre.len().saturating_sub(nf);
            ctx.limit(&format!("iterations.{}", A::NAME), after as f64, if A::F32 { 1000.0 } else { 100.0 }, || {
                "iterations after the last fault".into()
            })?;
            for i in 0..k {
                let want = match order {
                    Order::Largest => evals[i],
                    Order::Smallest => evals[n - 1 - i],
                };
                // with the loose tolerances of f32 a saddle point may pass for a solution
                if A::F32 && (l.eigvals[i].raw() - want).abs() > 0.05 * spread {
                    ctx.hit("probe.f32-inner-pair");
                    continue;
                }
                ctx.limit(&format!("extreme.{}", A::NAME), (l.eigvals[i].raw() - want).abs(), 0.05 * spread, || {
                    format!("pair {i}: {} instead of {want}", l.eigvals[i].raw())
                })?;
            }
            if let Err((e, _)) = r {
                if !matches!(e, LinalgError::NotPositiveDefinite) {
                    return viol("error", format!("{e}"));
                }
                ctx.hit("probe.converged-with-error");
            }
        }
        Outcome::Panicked(e) => return viol("panic", e),
        o => return viol("hang", outcome_class(&o)),
    }
    Ok(())
}
