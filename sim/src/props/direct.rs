//! C13: direct decompositions terminate within polynomial work. C14-C18: they are exact to working
//! precision and their objects answer every history of queries consistently, in every faithful
//! rounding environment, with several callers and cancelled calls.

use crate::ctx::{viol, Ctx, Res, V};
use crate::env::{run_env, EnvCfg, Outcome, Report};
use crate::gen;
use crate::ops::err_code;
use crate::oracle::*;
use crate::props::mem::{lower, reference_chol};
use crate::sched::{interleave, Body};
use crate::simf::Sc;
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::qr::*;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::*;
use linfa_linalg::{LinalgError, Order};
use ndarray::{Array1, Array2, OwnedRepr};
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;

/// What the callers of a run record besides their verdict
#[derive(Default)]
pub struct Rec {
    inner: Mutex<RecIn>,
}
#[derive(Default)]
struct RecIn {
    metrics: Vec<(String, f64)>,
    ops: u64,
    perturbed: u64,
    flushed: u64,
    crashed: u64,
    done: u64,
}

impl Rec {
    pub fn limit(&self, class: &str, value: f64, limit: f64, msg: impl FnOnce() -> String) -> Res {
        let v = if value.is_nan() { f64::INFINITY } else { value };
        self.inner.lock().unwrap().metrics.push((class.into(), if v == 0.0 { 0.0 } else { v / limit }));
        if v <= limit {
            Ok(())
        } else {
            viol(class, format!("{v:e} > {limit:e}: {}", msg()))
        }
    }
    fn report(&self, r: &Report) {
        let mut g = self.inner.lock().unwrap();
        g.ops += r.ops;
        g.perturbed += r.perturbed;
        g.flushed += r.flushed;
    }
    fn flush(&self, ctx: &mut Ctx) {
        let g = self.inner.lock().unwrap();
        for (k, v) in &g.metrics {
            ctx.metric(k, *v);
        }
        ctx.stats.ops += g.ops;
        ctx.add("fault.rounding-perturbed", g.perturbed);
        ctx.add("fault.flushed-to-zero", g.flushed);
        ctx.add("fault.cancelled-call", g.crashed);
        ctx.add("calls.completed", g.done);
        ctx.mixin(g.crashed << 32 | g.done);
        ctx.stats.nontrivial = g.done > 0;
    }
    /// Makes a call in the environment; a cancelled one is repeated by the same caller
    pub fn call<R>(&self, cfg: &EnvCfg, what: &str, mut f: impl FnMut() -> R) -> Result<R, V> {
        let mut cfg = *cfg;
        loop {
            let (o, r) = run_env(&cfg, AssertUnwindSafe(&mut f));
            self.report(&r);
            match o {
                Outcome::Done(x) => {
                    self.inner.lock().unwrap().done += 1;
                    return Ok(x);
                }
                Outcome::Crashed => {
                    self.inner.lock().unwrap().crashed += 1;
                    cfg.crash_at = None;
                }
                Outcome::Budget => return viol("non-terminating", format!("{what}: more than {} operations", cfg.budget)),
                Outcome::Panicked(e) => return viol("panic", format!("{what}: {e}")),
            }
        }
    }
}

pub type Job<'a> = Box<dyn Fn(&EnvCfg, &Rec) -> Res + Send + Sync + 'a>;

/// Environment of one call, possibly with a cancellation
pub fn call_env(ctx: &mut Ctx, sim: bool) -> EnvCfg {
    let mut cfg = gen::env(ctx);
    cfg.budget = 400_000_000;
    if sim && ctx.chance(1, 5) {
        let e = ctx.range(0, 14);
        cfg.crash_at = Some(ctx.draw(1 << e));
    }
    cfg
}

/// Executes the jobs one after the other, or as several interleaved callers
pub fn drive(ctx: &mut Ctx, sim: bool, jobs: Vec<(String, EnvCfg, Job<'_>)>, invariant: impl FnMut() -> Res) -> Res {
    let rec = Rec::default();
    let mut invariant = invariant;
    let concurrent = sim && jobs.len() > 1 && ctx.chance(1, 4);
    for (n, cfg, _) in &jobs {
        ctx.note(format!("{n} {:?}{} crash {:?}", cfg.round, if cfg.ftz { " ftz" } else { "" }, cfg.crash_at));
        ctx.mixs(n);
    }
    let r = if concurrent {
        let k = ctx.range(2, jobs.len().min(3));
        let mut lanes: Vec<Vec<(String, EnvCfg, Job)>> = (0..k).map(|_| vec![]).collect();
        for (i, j) in jobs.into_iter().enumerate() {
            lanes[i % k].push(j);
        }
        let rec = &rec;
        let actors: Vec<(String, Body)> = lanes
            .into_iter()
            .enumerate()
            .map(|(i, l)| {
                let body: Body = Box::new(move || {
                    for (n, cfg, j) in &l {
                        j(cfg, rec).map_err(|v| V { class: v.class, msg: format!("{n}: {}", v.msg) })?;
                    }
                    Ok(())
                });
                (format!("actor {i}"), body)
            })
            .collect();
        ctx.hit("runs.interleaved");
        interleave(ctx, actors, invariant)
    } else {
        let mut r = Ok(());
        for (n, cfg, j) in &jobs {
            r = j(cfg, &rec).map_err(|v| V { class: v.class, msg: format!("{n}: {}", v.msg) });
            if r.is_ok() {
                r = invariant();
            }
            if r.is_err() {
                break;
            }
        }
        r
    };
    rec.flush(ctx);
    r
}

/// The same buffer decomposed again after the caller has changed its elements: the answer has to
/// be that of a matrix which was never seen before
fn updated<A: Sc>(ctx: &mut Ctx, what: &str, a: &Array2<A>, sym: bool, f: &dyn Fn(&Array2<A>) -> Vec<u64>) -> Res {
    if a.is_empty() || !ctx.chance(1, 4) {
        return Ok(());
    }
    ctx.hit("history.updated-operand");
    let cfg = EnvCfg { crash_at: None, budget: 400_000_000, ..gen::env(ctx) };
    let call = |m: &Array2<A>| match run_env(&cfg, AssertUnwindSafe(|| f(m))).0 {
        Outcome::Done(x) => Ok(x),
        o => viol("panic", format!("{what}: {}", o.label())).map(|_: ()| vec![]),
    };
    let (m, k) = a.dim();
    let mut x = a.clone();
    for _ in 0..ctx.range(1, 3) {
        call(&x)?;
        let (i, j) = (ctx.draw(m as u64) as usize, ctx.draw(k as u64) as usize);
        match ctx.draw(5) {
            // one element, or a symmetric pair
            0 | 1 => {
                let v = A::of(x[(i, j)].raw() * -0.5);
                x[(i, j)] = v;
                if sym {
                    x[(j, i)] = v;
                }
            }
            // two rows and columns exchanged
            2 => {
                let i2 = ctx.draw(m as u64) as usize;
                for c in 0..k {
                    x.swap((i, c), (i2, c));
                }
                if sym {
                    for r in 0..m {
                        x.swap((r, i), (r, i2));
                    }
                }
            }
            3 => x.mapv_inplace(|v| A::of(v.raw() * 0.5)),
            // only the sign of everything beside the diagonal
            _ => x.indexed_iter_mut().for_each(|((r, c), v)| {
                if r != c {
                    *v = A::of(-v.raw());
                }
            }),
        }
        let got = call(&x)?;
        let fresh = x.clone();
        let mut other = x.clone();
        other.fill(A::of(3.0));
        call(&other)?;
        if got != call(&fresh)? {
            return viol("stale", format!("{what} of a modified matrix differs from that of an equal new one"));
        }
    }
    Ok(())
}

/// Exponent of a power-of-two factor applied to the whole problem
fn exponent(ctx: &mut Ctx, f32_: bool, max: i32) -> i32 {
    if !ctx.chance(1, 6) {
        return 0;
    }
    let m = if f32_ { max.min(90) } else { max };
    if ctx.chance(1, 2) {
        ctx.range(0, 24) as i32 - 12
    } else {
        (ctx.range(0, 2 * m as usize) as i32) - m
    }
}
/// Raises the exponent until the largest element is far from the subnormal numbers of the format
fn fit(a: &M, e: i32, f32_: bool) -> i32 {
    let m = amax(a);
    if m == 0.0 || !m.is_finite() {
        return e;
    }
    e.max(if f32_ { -100 } else { -960 } - m.log2().floor() as i32)
}
fn p2(e: i32) -> f64 {
    2f64.powi(e)
}
fn scaled(a: &M, e: i32) -> M {
    a.mapv(|x| x * p2(e))
}
/// Results of a scaled problem, scaled back
fn back(a: &M, e: i32) -> M {
    // in two steps, because the factor itself may be out of range
    let h = e / 2;
    a.mapv(|x| x * p2(-h) * p2(-(e - h)))
}

fn ltol<A: Sc>(n: usize) -> f64 {
    200.0 * n.max(2) as f64 * A::U
}

fn ok<T>(r: Result<T, LinalgError>, what: &str) -> Result<T, V> {
    r.map_err(|e| V { class: "error".into(), msg: format!("{what}: {e}") })
}

// ---------------------------------------------------------------------------------------------- C13

/// Special elements
fn spoil<A: Sc>(ctx: &mut Ctx, a: &mut M) -> bool {
    if a.is_empty() || !ctx.chance(1, 3) {
        return false;
    }
    for _ in 0..ctx.range(1, 3) {
        let (i, j) = (ctx.range(0, a.nrows() - 1), ctx.range(0, a.ncols() - 1));
        a[(i, j)] = ctx.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    }
    true
}

const DIRECT: [&str; 16] = [
    "svd", "svd values", "eigh", "eigvalsh", "qr", "least squares", "bidiagonal", "sym_tridiagonal", "cholesky", "solvec", "invc",
    "solve_triangular", "inverse", "svd u", "svd vt", "sort",
];

fn direct_op<A: Sc>(op: usize, a: &Array2<A>, sym: &Array2<A>, b: &Array2<A>, bt: &Array2<A>) {
    match op {
        0 => drop(a.svd(true, true)),
        1 => drop(a.svd(false, false)),
        2 => drop(sym.eigh()),
        3 => drop(sym.eigvalsh()),
        4 => drop(a.qr().map(|d| d.into_decomp())),
        5 => drop(a.clone().least_squares(bt)),
        6 => drop(a.clone().bidiagonal().map(|d| (d.generate_u(), d.generate_vt(), d.into_b()))),
        7 => drop(sym.clone().sym_tridiagonal().map(|d| (d.generate_q(), d.into_tridiag_matrix()))),
        8 => drop(sym.cholesky()),
        9 => drop(sym.clone().solvec(b)),
        10 => drop(sym.invc()),
        11 => drop((sym.solve_triangular(b, UPLO::Lower), sym.solve_triangular(b, UPLO::Upper))),
        12 => drop(sym.qr().and_then(|d| d.inverse())),
        13 => drop(a.svd(true, false)),
        14 => drop(a.svd(false, true)),
        _ => {
            // sorting is documented to panic for NaN
            if let Ok(d) = a.svd(true, true) {
                if d.1.iter().all(|x| x.raw().is_finite()) {
                    drop(d.sort_svd(Order::Largest));
                }
            }
            if let Ok(d) = sym.eigh() {
                if d.0.iter().all(|x| x.raw().is_finite()) {
                    drop(d.sort_eig(Order::Smallest));
                }
            }
        }
    }
}

pub fn c13<A: Sc>(ctx: &mut Ctx) -> Res {
    let condensed = ctx.chance(1, 6);
    let (c0, t0) = if condensed { (gen::condensed(ctx), gen::condensed_symmetric(ctx)) } else { Default::default() };
    let m = if condensed { c0.nrows().min(t0.nrows()) } else { gen::size(ctx, 0, 9, 40) };
    let k = if condensed { c0.ncols() } else if ctx.chance(1, 3) { m } else { gen::size(ctx, 0, 9, 40) };
    let e = if ctx.chance(1, 5) {
        let r = if A::F32 { 149 } else { 1070 };
        ctx.range(0, 2 * r) as i32 - r as i32
    } else {
        0
    };
    let grow = |x: f64| A::of(x * p2(e / 2) * p2(e - e / 2)).raw();
    let mut a0 = if condensed { c0.slice(ndarray::s![..m, ..]).mapv(grow) } else { gen::general(ctx, m, k).mapv(grow) };
    let mut s0 = if condensed { t0.slice(ndarray::s![..m, ..m]).mapv(grow) } else { gen::symmetric(ctx, m).mapv(grow) };
    let bad = spoil::<A>(ctx, &mut a0);
    if bad {
        ctx.hit("fault.non-finite-element");
    }
    if spoil::<A>(ctx, &mut s0) {
        for i in 0..m {
            for j in 0..i {
                s0[(j, i)] = s0[(i, j)];
            }
        }
        ctx.hit("fault.non-finite-element");
    }
    let fin = finite(&a0) && finite(&s0);
    let a: Array2<A> = gen::lay(ctx, to_sc(&a0));
    let sym: Array2<A> = gen::lay(ctx, to_sc(&s0));
    let b: Array2<A> = {
        let x = to_sc(&gen::randm(ctx, m, 2));
        gen::lay(ctx, x)
    };
    let bt: Array2<A> = {
        let x = to_sc(&gen::randm(ctx, m, 2));
        gen::lay(ctx, x)
    };
    let n = m.max(k).max(1) as f64;
    // cubic bound; the reference tree needs less than a tenth of it
    let bound = (C13_FACTOR * (n + 2.0).powi(3)) as u64;
    ctx.note(format!("{} {m}x{k} exponent {e} finite {fin}", A::NAME));
    for _ in 0..ctx.range(1, 4) {
        let op = ctx.draw(DIRECT.len() as u64) as usize;
        let mut cfg = gen::env(ctx);
        cfg.budget = if fin { bound } else { bound.max(1_000_000) };
        let (o, r) = run_env(&cfg, AssertUnwindSafe(|| direct_op(op, &a, &sym, &b, &bt)));
        ctx.stats.ops += r.ops;
        ctx.add("fault.rounding-perturbed", r.perturbed);
        ctx.add("fault.flushed-to-zero", r.flushed);
        ctx.hit(&format!("op.{}", DIRECT[op]));
        ctx.note(format!("{} {:?}{}: {} operations", DIRECT[op], cfg.round, if cfg.ftz { " ftz" } else { "" }, r.ops));
        ctx.mixin((op as u64) << 32 | r.ops);
        ctx.metric("work", r.ops as f64 / bound as f64);
        ctx.stats.nontrivial |= m * k > 0;
        match o {
            Outcome::Done(()) => {}
            Outcome::Budget => return viol("non-terminating", format!("{} of a {m}x{k} matrix exceeds {} operations", DIRECT[op], cfg.budget)),
            o => return viol("panic", format!("{}: {}", DIRECT[op], o.label())),
        }
    }
    Ok(())
}
const C13_FACTOR: f64 = 3000.0;

// ---------------------------------------------------------------------------------------------- C14

type Svd<A> = (Option<Array2<A>>, Array1<A>, Option<Array2<A>>);

fn check_sorted_triplets<A: Sc>(d: &Svd<A>, s: &Svd<A>, ord: Order) -> Res {
    let n = d.1.len();
    let key = |x: &Svd<A>, i: usize| {
        let mut k = vec![x.1[i].bits()];
        if let Some(u) = &x.0 {
            k.extend(bits1(&u.column(i)));
        }
        if let Some(v) = &x.2 {
            k.extend(bits1(&v.row(i)));
        }
        k
    };
    if s.1.len() != n || s.0.as_ref().map(|u| u.dim()) != d.0.as_ref().map(|u| u.dim()) || s.2.as_ref().map(|u| u.dim()) != d.2.as_ref().map(|u| u.dim()) {
        return viol("sort", "sorting changes shapes");
    }
    for i in 1..n {
        let (x, y) = (s.1[i - 1].raw(), s.1[i].raw());
        if (ord == Order::Largest && x < y) || (ord == Order::Smallest && x > y) {
            return viol("sort", format!("values {i} out of order after sorting {ord:?}"));
        }
    }
    let mut p: Vec<_> = (0..n).map(|i| key(d, i)).collect();
    let mut q: Vec<_> = (0..n).map(|i| key(s, i)).collect();
    p.sort();
    q.sort();
    if p != q {
        return viol("sort", "sorting does not permute the triplets consistently");
    }
    Ok(())
}

pub fn c14<A: Sc>(ctx: &mut Ctx) -> Res {
    let a0 = if ctx.chance(1, 6) {
        gen::condensed(ctx)
    } else {
        let m = gen::size(ctx, 1, 9, 40);
        let k = if ctx.chance(1, 3) { m } else { gen::size(ctx, 1, 9, 40) };
        gen::general(ctx, m, k)
    };
    let (m, k) = a0.dim();
    let e = exponent(ctx, A::F32, 900);
    let e = fit(&a0, e, A::F32);
    let a: Array2<A> = gen::lay(ctx, to_sc(&scaled(&a0, e)));
    let am = amax(&a0);
    let n = m.max(k);
    let t = ltol::<A>(n);
    let sv = svals(&a0);
    ctx.note(format!("{} exponent {e}", A::NAME));
    let vals = |s: &[f64], bitsrc: &Array1<A>, rec: &Rec| -> Res {
        for x in bitsrc.iter() {
            if !x.raw().is_finite() || x.raw().is_sign_negative() {
                return viol("value", format!("singular value {:?}", x));
            }
        }
        let mut o: Vec<f64> = s.iter().map(|x| x * p2(-e / 2) * p2(-(e - e / 2))).collect();
        o.sort_by(|x, y| y.total_cmp(x));
        let err = o.iter().zip(&sv).fold(0.0f64, |w, (x, y)| w.max((x - y).abs()));
        rec.limit("values", err, t * am, || "singular values differ from the true ones".into())
    };
    let values = &vals;
    let full = |cfg: &EnvCfg, rec: &Rec, into: bool| -> Result<Svd<A>, V> {
        let r = rec.call(cfg, "svd", || if into { a.clone().svd_into(true, true) } else { a.svd(true, true) })?;
        let d = ok(r, "svd")?;
        let (u, s, v) = (raw2(d.0.as_ref().unwrap()), raw1(&d.1), raw2(d.2.as_ref().unwrap()));
        let r = m.min(k);
        if u.dim() != (m, r) || s.len() != r || v.dim() != (r, k) {
            return viol("shape", format!("U {:?} S {} Vt {:?}", u.dim(), s.len(), v.dim()));
        }
        values(&s, &d.1, rec)?;
        rec.limit("orthonormal", orth(&u).max(orth(&tr(&v))), t, || "U or Vt".into())?;
        let s0: Vec<f64> = s.iter().map(|x| x * p2(-e / 2) * p2(-(e - e / 2))).collect();
        rec.limit("product", dist(&mul(&mul(&u, &diag(&s0)), &v), &a0), t * am, || "U S Vt differs from the matrix".into())?;
        Ok(d)
    };
    let mut jobs: Vec<(String, EnvCfg, Job)> = vec![];
    for _ in 0..ctx.range(1, 3) {
        let cfg = call_env(ctx, A::SIM);
        let which = ctx.draw(6);
        let ord = if ctx.chance(1, 2) { Order::Smallest } else { Order::Largest };
        let (full, a, a0) = (&full, &a, &a0);
        let job: (String, Job) = match which {
            0 | 1 => (
                format!("svd{}", if which == 1 { "_into" } else { "" }),
                Box::new(move |cfg, rec| {
                    let d = full(cfg, rec, which == 1)?;
                    let s = rec.call(&EnvCfg { crash_at: None, ..*cfg }, "sort", || d.clone().sort_svd(ord))?;
                    check_sorted_triplets(&d, &s, ord)?;
                    let s = if ord == Order::Largest { d.clone().sort_svd_desc() } else { d.clone().sort_svd_asc() };
                    check_sorted_triplets(&d, &s, ord)
                }),
            ),
            2 => (
                "svd values".into(),
                Box::new(move |cfg, rec| {
                    let d = ok(rec.call(cfg, "svd", || a.svd(false, false))?, "svd")?;
                    if d.0.is_some() || d.2.is_some() {
                        return viol("shape", "factors which were not requested");
                    }
                    values(&raw1(&d.1), &d.1, rec)?;
                    check_sorted_triplets(&d, &d.clone().sort_svd(ord), ord)
                }),
            ),
            3 | 4 => (
                if which == 3 { "svd u" } else { "svd vt" }.into(),
                Box::new(move |cfg, rec| {
                    let d = ok(rec.call(cfg, "svd", || if which == 3 { a.clone().svd_into(true, false) } else { a.svd(false, true) })?, "svd")?;
                    values(&raw1(&d.1), &d.1, rec)?;
                    check_sorted_triplets(&d, &d.clone().sort_svd(ord), ord)?;
                    let s0: Vec<f64> = raw1(&d.1).iter().map(|x| x * p2(-e / 2) * p2(-(e - e / 2))).collect();
                    let (f, w) = match (&d.0, &d.2) {
                        (Some(u), None) if which == 3 => {
                            let u = raw2(u);
                            let w = mul(&tr(&u), a0);
                            (u, w)
                        }
                        (None, Some(v)) if which == 4 => {
                            let v = tr(&raw2(v));
                            let w = tr(&mul(a0, &v));
                            (v, w)
                        }
                        _ => return viol("shape", "requested factor missing, or another one present"),
                    };
                    rec.limit("orthonormal", orth(&f), t, || "single factor".into())?;
                    // u_i^T A has norm s_i, and these rows are orthogonal to each other
                    let g = mul(&w, &tr(&w));
                    let want = diag(&s0.iter().map(|x| x * x).collect::<Vec<_>>());
                    rec.limit("one-side", dist(&g, &want), t * am * am * n as f64, || "the factor does not consist of singular vectors".into())
                }),
            ),
            _ => (
                "svd of the transpose".into(),
                Box::new(move |cfg, rec| {
                    let at = a.t().to_owned();
                    let d = ok(rec.call(cfg, "svd", || at.svd(true, true))?, "svd")?;
                    values(&raw1(&d.1), &d.1, rec)?;
                    let (u, v) = (raw2(d.0.as_ref().unwrap()), raw2(d.2.as_ref().unwrap()));
                    let s0: Vec<f64> = raw1(&d.1).iter().map(|x| x * p2(-e / 2) * p2(-(e - e / 2))).collect();
                    rec.limit("orthonormal", orth(&u).max(orth(&tr(&v))), t, || "U or Vt".into())?;
                    rec.limit("product", dist(&mul(&mul(&u, &diag(&s0)), &v), &tr(a0)), t * am, || "transpose".into())
                }),
            ),
        };
        jobs.push((job.0, cfg, job.1));
    }
    let before = bits2(&a);
    drive(ctx, A::SIM, jobs, || if bits2(&a) == before { Ok(()) } else { viol("operand", "svd modified its operand") })?;
    updated(ctx, "svd", &a, false, &|x| match x.svd(true, true) {
        Ok((u, s, v)) => [bits2(&u.unwrap()), bits1(&s), bits2(&v.unwrap())].concat(),
        Err(e) => err_code(&e),
    })
}

// ---------------------------------------------------------------------------------------------- C15

pub fn c15<A: Sc>(ctx: &mut Ctx) -> Res {
    let a0 = if ctx.chance(1, 6) {
        gen::condensed_symmetric(ctx)
    } else {
        let n = gen::size(ctx, 0, 10, 40);
        gen::symmetric(ctx, n)
    };
    let n = a0.nrows();
    let e = exponent(ctx, A::F32, 900);
    let e = fit(&a0, e, A::F32);
    let a: Array2<A> = gen::lay(ctx, to_sc(&scaled(&a0, e)));
    let am = amax(&a0);
    let t = ltol::<A>(n);
    let (lam, _) = jacobi(&a0);
    let trace: f64 = (0..n).map(|i| a0[(i, i)]).sum();
    ctx.note(format!("{} exponent {e}", A::NAME));
    let down = |l: &Array1<A>| -> Vec<f64> { raw1(l).iter().map(|x| x * p2(-e / 2) * p2(-(e - e / 2))).collect() };
    let values = |l: &Array1<A>, rec: &Rec| -> Res {
        if l.len() != n {
            return viol("shape", format!("{} eigenvalues", l.len()));
        }
        let mut o = down(l);
        rec.limit("trace", (o.iter().sum::<f64>() - trace).abs(), t * n.max(1) as f64 * am, || "trace".into())?;
        if o.iter().any(|x| !x.is_finite()) {
            return viol("value", format!("{o:?}"));
        }
        o.sort_by(|x, y| y.total_cmp(x));
        let err = o.iter().zip(&lam).fold(0.0f64, |w, (x, y)| w.max((x - y).abs()));
        rec.limit("values", err, t * am, || "eigenvalues differ from the true ones".into())
    };
    let (values, down) = (&values, &down);
    let mut jobs: Vec<(String, EnvCfg, Job)> = vec![];
    for _ in 0..ctx.range(1, 3) {
        let cfg = call_env(ctx, A::SIM);
        let which = ctx.draw(5);
        let ord = if ctx.chance(1, 2) { Order::Smallest } else { Order::Largest };
        let (a, a0) = (&a, &a0);
        let job: (String, Job) = match which {
            0..=2 => (
                format!("eigh{}", if which == 1 { "_into" } else { "" }),
                Box::new(move |cfg, rec| {
                    let (l, v) = ok(rec.call(cfg, "eigh", || if which == 1 { a.clone().eigh_into() } else { a.eigh() })?, "eigh")?;
                    values(&l, rec)?;
                    let vm = raw2(&v);
                    if vm.dim() != (n, n) {
                        return viol("shape", format!("vectors {:?}", vm.dim()));
                    }
                    rec.limit("orthonormal", orth(&vm), t, || "eigenvectors".into())?;
                    rec.limit("product", dist(&mul(&mul(&vm, &diag(&down(&l))), &tr(&vm)), a0), t * am, || "V diag V^T differs from the matrix".into())?;
                    let d = (l, v);
                    let key = |d: &(Array1<A>, Array2<A>), i: usize| [vec![d.0[i].bits()], bits1(&d.1.column(i))].concat();
                    let s = rec.call(&EnvCfg { crash_at: None, ..*cfg }, "sort", || match which {
                        2 if ord == Order::Largest => d.clone().sort_eig_desc(),
                        2 => d.clone().sort_eig_asc(),
                        _ => d.clone().sort_eig(ord),
                    })?;
                    sorted(&raw1(&s.0), ord)?;
                    let mut p: Vec<_> = (0..n).map(|i| key(&d, i)).collect();
                    let mut q: Vec<_> = (0..n).map(|i| key(&s, i)).collect();
                    p.sort();
                    q.sort();
                    if p != q || s.1.dim() != d.1.dim() {
                        return viol("sort", "sorting does not permute the pairs consistently");
                    }
                    Ok(())
                }),
            ),
            _ => (
                format!("eigvalsh{}", if which == 4 { "_into" } else { "" }),
                Box::new(move |cfg, rec| {
                    let l = ok(rec.call(cfg, "eigvalsh", || if which == 4 { a.clone().eigvalsh_into() } else { a.eigvalsh() })?, "eigvalsh")?;
                    values(&l, rec)?;
                    let s = rec.call(&EnvCfg { crash_at: None, ..*cfg }, "sort", || match which {
                        3 => l.clone().sort_eig(ord),
                        _ if ord == Order::Largest => l.clone().sort_eig_desc(),
                        _ => l.clone().sort_eig_asc(),
                    })?;
                    sorted(&raw1(&s), ord)?;
                    let (mut p, mut q) = (bits1(&l), bits1(&s));
                    p.sort();
                    q.sort();
                    if p != q {
                        return viol("sort", "sorting does not permute the values");
                    }
                    Ok(())
                }),
            ),
        };
        jobs.push((job.0, cfg, job.1));
    }
    let before = bits2(&a);
    drive(ctx, A::SIM, jobs, || if bits2(&a) == before { Ok(()) } else { viol("operand", "eigh modified its operand") })?;
    updated(ctx, "eigh", &a, true, &|x| match (x.eigh(), x.eigvalsh()) {
        (Ok((l, v)), Ok(o)) => [bits1(&l), bits2(&v), bits1(&o)].concat(),
        _ => vec![],
    })
}

fn sorted(l: &[f64], ord: Order) -> Res {
    for w in l.windows(2) {
        if (ord == Order::Largest && w[0] < w[1]) || (ord == Order::Smallest && w[0] > w[1]) {
            return viol("sort", format!("{} and {} in the wrong order for {ord:?}", w[0], w[1]));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C16

type Qr<A> = QRDecomp<A, OwnedRepr<A>>;

fn rbits<A: Sc>(r: Result<Array2<A>, LinalgError>) -> Vec<u64> {
    match r {
        Ok(x) => bits2(&x),
        Err(e) => [vec![0xe44], err_code(&e)].concat(),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum QrQ {
    Q,
    Solve,
    SolveInto,
    SolveTr,
    SolveTrInto,
    Inverse,
    Invertible,
    WrongSolve,
    WrongSolveTr,
    CloneDecomp,
    CloneR,
}

fn qr_query<A: Sc>(d: &Qr<A>, q: QrQ, b: &Array2<A>, bt: &Array2<A>, wrong: &Array2<A>) -> Vec<u64> {
    match q {
        QrQ::Q => bits2(&d.generate_q()),
        QrQ::Solve => rbits(d.solve(bt)),
        QrQ::SolveInto => rbits(d.solve_into(bt.clone()).map(|x| x.to_owned())),
        QrQ::SolveTr => rbits(d.solve_tr(b)),
        QrQ::SolveTrInto => rbits(d.solve_tr_into(b.clone())),
        QrQ::Inverse => rbits(d.inverse()),
        QrQ::Invertible => vec![d.is_invertible() as u64],
        QrQ::WrongSolve => rbits(d.solve(wrong)),
        QrQ::WrongSolveTr => rbits(d.solve_tr(wrong)),
        QrQ::CloneDecomp => {
            let (q, r) = d.clone().into_decomp();
            [bits2(&q), bits2(&r)].concat()
        }
        QrQ::CloneR => bits2(&d.clone().into_r()),
    }
}

pub fn c16<A: Sc>(ctx: &mut Ctx) -> Res {
    let n = gen::size(ctx, 1, 7, 16);
    let extra = if ctx.chance(1, 3) { 0 } else { ctx.range(0, 4) };
    let m = n + extra;
    let good = ctx.chance(2, 3);
    let a0 = if good { gen::well(ctx, m, n) } else { gen::general(ctx, m, n) };
    let e = exponent(ctx, A::F32, 900);
    let e = fit(&a0, e, A::F32);
    let a: Array2<A> = gen::lay(ctx, to_sc(&scaled(&a0, e)));
    let cols = ctx.range(1, 3);
    let b0 = gen::randm(ctx, n, cols);
    let bt0 = gen::randm(ctx, m, cols);
    let b: Array2<A> = gen::lay(ctx, to_sc(&b0));
    let bt: Array2<A> = gen::lay(ctx, to_sc(&bt0));
    let wrong: Array2<A> = {
        let x = to_sc(&gen::randm(ctx, m + 1 + n, 1));
        gen::lay(ctx, x)
    };
    let am = amax(&a0);
    let t = ltol::<A>(m);
    let base = EnvCfg { budget: 50_000_000, ..gen::env(ctx) };
    ctx.note(format!("{} {m}x{n} {} exponent {e} decomposed {:?}", A::NAME, if good { "well-conditioned" } else { "general" }, base.round));
    let decompose = || -> Result<Qr<A>, V> {
        match run_env(&base, AssertUnwindSafe(|| a.qr())).0 {
            Outcome::Done(r) => ok(r, "qr"),
            o => viol("panic", format!("qr: {}", o.label())),
        }
    };
    // factors
    let shared = decompose()?;
    let (q, r) = match run_env(&base, AssertUnwindSafe(|| shared.clone().into_decomp())).0 {
        Outcome::Done((q, r)) => (raw2(&q), raw2(&r)),
        o => return viol("panic", format!("into_decomp: {}", o.label())),
    };
    if q.dim() != (m, n) || r.dim() != (n, n) {
        return viol("shape", format!("Q {:?} R {:?}", q.dim(), r.dim()));
    }
    for i in 0..n {
        for j in 0..n {
            let x = r[(i, j)];
            if (j < i && x != 0.0) || (i == j && !(x >= 0.0 && x.is_sign_positive())) {
                return viol("triangle", format!("R[{i}, {j}] = {x}"));
            }
        }
    }
    ctx.limit("orthonormal", orth(&q), t, || "Q".into())?;
    ctx.limit("product", dist(&mul(&q, &back(&r, e)), &a0), t * am, || "Q R differs from the matrix".into())?;
    // queries
    let qs = [QrQ::Q, QrQ::Solve, QrQ::SolveInto, QrQ::SolveTr, QrQ::SolveTrInto, QrQ::Inverse, QrQ::Invertible, QrQ::WrongSolve, QrQ::WrongSolveTr, QrQ::CloneDecomp, QrQ::CloneR];
    let mut jobs: Vec<(String, EnvCfg, Job)> = vec![];
    for _ in 0..ctx.range(1, 6) {
        let q = ctx.pick(&qs);
        let cfg = call_env(ctx, A::SIM);
        let twin = decompose()?;
        let want = match run_env(&EnvCfg { crash_at: None, ..cfg }, AssertUnwindSafe(|| qr_query(&twin, q, &b, &bt, &wrong))).0 {
            Outcome::Done(w) => w,
            o => return viol("panic", format!("{q:?} on a fresh decomposition: {}", o.label())),
        };
        let (shared, b, bt, wrong) = (&shared, &b, &bt, &wrong);
        jobs.push((format!("{q:?}"), cfg, Box::new(move |cfg, rec| {
            let got = rec.call(cfg, "query", || qr_query(shared, q, b, bt, wrong))?;
            if got != want {
                return viol("history", format!("{q:?} answers differently than on a fresh decomposition"));
            }
            Ok(())
        })));
    }
    let digest = |d: &Qr<A>| bits2(&d.generate_q());
    let before = digest(&shared);
    drive(ctx, A::SIM, jobs, || if digest(&shared) == before { Ok(()) } else { viol("object", "a query modified the decomposition") })?;
    ctx.stats.nontrivial = true;
    updated(ctx, "qr", &a, false, &|x| match x.qr() {
        Ok(d) => [bits2(&d.generate_q()), rbits(d.solve(&bt)), rbits(d.solve_tr(&b)), bits2(&d.into_r())].concat(),
        Err(e) => err_code(&e),
    })?;
    if !good {
        return Ok(());
    }
    // optimality of the solutions, for well-conditioned matrices
    let cfg = EnvCfg { crash_at: None, ..call_env(ctx, A::SIM) };
    let run = |f: &dyn Fn() -> Result<Array2<A>, LinalgError>| -> Result<M, V> {
        match run_env(&cfg, AssertUnwindSafe(f)).0 {
            Outcome::Done(r) => ok(r, "solve").map(|x| raw2(&x)),
            o => viol("panic", format!("solve: {}", o.label())),
        }
    };
    let tt = t * 20.0;
    let via = ctx.draw(3);
    // least squares: A^T (A x - b) = 0
    let x = back(&run(&|| match via {
        0 => shared.solve(&bt),
        1 => a.clone().least_squares(&bt),
        _ => a.clone().least_squares_into(bt.clone()),
    })?, -e);
    if x.dim() != (n, cols) {
        return viol("shape", format!("least squares solution {:?}", x.dim()));
    }
    let res = mul(&a0, &x) - &bt0;
    let g = mul(&tr(&a0), &res);
    ctx.limit("least-squares", amax(&g), tt * am * m as f64, || "the residual is not orthogonal to the columns".into())?;
    // minimum norm: A^T x = b with x in the range of A
    let x = back(&run(&|| match via {
        0 => shared.solve_tr(&b),
        1 => a.t().to_owned().least_squares(&b),
        _ => a.t().to_owned().least_squares_into(b.clone()),
    })?, -e);
    if x.dim() != (m, cols) {
        return viol("shape", format!("minimum norm solution {:?}", x.dim()));
    }
    ctx.limit("minimum-norm-residual", dist(&mul(&tr(&a0), &x), &b0), tt * am, || "A x differs from b".into())?;
    let base_q = mgs(&a0);
    let p = mul(&base_q, &mul(&tr(&base_q), &x));
    ctx.limit("minimum-norm", dist(&p, &x), tt, || "the solution is not the one of minimum norm".into())?;
    if m == n {
        let inv = back(&run(&|| shared.inverse())?, -e);
        ctx.limit("inverse", dist(&mul(&a0, &inv), &M::eye(n)).max(dist(&mul(&inv, &a0), &M::eye(n))), tt * am, || "A inv differs from the identity".into())?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C17

pub fn c17<A: Sc>(ctx: &mut Ctx) -> Res {
    let n = gen::size(ctx, 0, 8, 20);
    let a0 = gen::spd(ctx, n);
    let e = 2 * (exponent(ctx, A::F32, 300) / 4);
    let a: Array2<A> = gen::lay(ctx, to_sc(&scaled(&a0, e)));
    let cols = ctx.range(0, 3);
    let b0 = gen::randm(ctx, n, cols);
    let b: Array2<A> = gen::lay(ctx, to_sc(&b0));
    let lo0 = lower(&gen::well(ctx, n, n));
    // the other triangle holds rubbish
    let rubbish = ctx.pick(&[0.0, 1.0, f64::NAN, 1e30]);
    let lo: Array2<A> = gen::lay(ctx, to_sc(&M::from_shape_fn((n, n), |(i, j)| if j <= i { lo0[(i, j)] } else { rubbish })));
    let am = amax(&a0).max(1.0);
    let t = ltol::<A>(n);
    let lref = reference_chol(&a0);
    let tt = t * 2000.0;
    ctx.note(format!("{} {n}x{n} exponent {e}, {cols} right-hand sides", A::NAME));
    let (a, a0, b, b0, lo, lo0, lref) = (&a, &a0, &b, &b0, &lo, &lo0, &lref);
    let factor = |l: &Array2<A>, dirty: bool, rec: &Rec| -> Res {
        let l = raw2(l);
        let mut lc = l.clone();
        for i in 0..n {
            for j in i + 1..n {
                let w = if dirty { a[(i, j)].raw() } else { 0.0 };
                if l[(i, j)] != w {
                    return viol("triangle", format!("element ({i}, {j}) of the factor is {}", l[(i, j)]));
                }
                lc[(i, j)] = 0.0;
            }
            if !(l[(i, i)] > 0.0) {
                return viol("triangle", format!("diagonal element {i} is {}", l[(i, i)]));
            }
        }
        let lc = lc.mapv(|x| x * p2(-e / 2));
        rec.limit("product", dist(&mul(&lc, &tr(&lc)), a0), t * am, || "L L^T differs from the matrix".into())?;
        rec.limit("factor", dist(&lc, lref), tt * am, || "the factor differs from the reference".into())
    };
    let factor = &factor;
    let mut jobs: Vec<(String, EnvCfg, Job)> = vec![];
    for _ in 0..ctx.range(1, 6) {
        let cfg = call_env(ctx, A::SIM);
        let which = ctx.draw(16);
        let job: (String, Job) = match which {
            0..=5 => {
                let name = ["cholesky", "cholesky_dirty", "cholesky_into", "cholesky_into_dirty", "cholesky_inplace", "cholesky_inplace_dirty"][which as usize];
                (name.into(), Box::new(move |cfg, rec| {
                    let r = rec.call(cfg, name, || match which {
                        0 => a.cholesky(),
                        1 => a.cholesky_dirty(),
                        2 => a.clone().cholesky_into(),
                        3 => a.clone().cholesky_into_dirty(),
                        4 => {
                            let mut x = a.clone();
                            x.cholesky_inplace().map(|_| ()).map(|_| x)
                        }
                        _ => {
                            let mut x = a.clone();
                            x.cholesky_inplace_dirty().map(|_| ()).map(|_| x)
                        }
                    })?;
                    factor(&ok(r, name)?, which % 2 == 1, rec)
                }))
            }
            6..=8 => {
                let name = ["solvec", "solvec_into", "solvec_inplace"][which as usize - 6];
                (name.into(), Box::new(move |cfg, rec| {
                    let r = rec.call(cfg, name, || match which {
                        6 => a.clone().solvec(b),
                        7 => a.clone().solvec_into(b.clone()),
                        _ => {
                            let mut x = b.clone();
                            a.clone().solvec_inplace(&mut x).map(|_| ()).map(|_| x)
                        }
                    })?;
                    let x = back(&raw2(&ok(r, name)?), -e);
                    if x.dim() != b0.dim() {
                        return viol("shape", format!("solution {:?}", x.dim()));
                    }
                    rec.limit("solve", dist(&mul(a0, &x), b0), t * am * (1.0 + amax(&x)), || "A x differs from b".into())
                }))
            }
            9 | 10 => {
                let name = ["invc", "invc_inplace"][which as usize - 9];
                (name.into(), Box::new(move |cfg, rec| {
                    let r = rec.call(cfg, name, || if which == 9 { a.invc() } else { a.clone().invc_inplace() })?;
                    let x = back(&raw2(&ok(r, name)?), -e);
                    if x.dim() != a0.dim() {
                        return viol("shape", format!("inverse {:?}", x.dim()));
                    }
                    rec.limit("inverse", dist(&mul(a0, &x), &M::eye(n)), t * am * (1.0 + amax(&x)), || "A inv differs from the identity".into())
                }))
            }
            11..=14 => {
                let up = which % 2 == 1;
                let name = if up { "solve_triangular upper" } else { "solve_triangular lower" };
                (name.into(), Box::new(move |cfg, rec| {
                    let (mat, mat0) = if up { (lo.t().to_owned(), tr(lo0)) } else { (lo.clone(), lo0.clone()) };
                    let uplo = if up { UPLO::Upper } else { UPLO::Lower };
                    let r = rec.call(cfg, name, || match which {
                        11 | 12 => mat.solve_triangular(b, uplo),
                        13 => mat.solve_triangular_into(b.clone(), uplo),
                        _ => {
                            let mut x = b.clone();
                            mat.solve_triangular_inplace(&mut x, uplo).map(|_| ()).map(|_| x)
                        }
                    })?;
                    let x = raw2(&ok(r, name)?);
                    if x.dim() != b0.dim() {
                        return viol("shape", format!("solution {:?}", x.dim()));
                    }
                    rec.limit("triangular", dist(&mul(&mat0, &x), b0), t * amax(&mat0).max(1.0) * (1.0 + amax(&x)), || "T x differs from b".into())
                }))
            }
            _ => {
                // a clearly indefinite neighbour of the same matrix
                let p = if n > 0 { ctx.range(0, n - 1) } else { 0 };
                let drop = 1.25 + ctx.draw(4) as f64;
                ("cholesky of indefinite".into(), Box::new(move |cfg, rec| {
                    if n == 0 {
                        return Ok(());
                    }
                    let mut x = a.clone();
                    let piv = lref[(p, p)] * lref[(p, p)];
                    x[(p, p)] = A::of((a0[(p, p)] - piv * drop) * p2(e));
                    let codes = rec.call(cfg, "cholesky", || {
                        [x.cholesky().is_ok(), x.clone().cholesky_into_dirty().is_ok(), x.clone().solvec(b).is_ok(), x.invc().is_ok()]
                    })?;
                    if codes.iter().any(|c| *c) {
                        return viol("accepted", format!("a clearly negative pivot at {p} of {n} was accepted"));
                    }
                    Ok(())
                }))
            }
        };
        jobs.push((job.0, cfg, job.1));
    }
    let before = (bits2(a), bits2(b), bits2(lo));
    drive(ctx, A::SIM, jobs, || {
        if (bits2(a), bits2(b), bits2(lo)) == before {
            Ok(())
        } else {
            viol("operand", "an operand passed by reference was modified")
        }
    })?;
    updated(ctx, "cholesky", a, true, &|x| [rbits(x.cholesky()), rbits(x.cholesky_dirty()), rbits(x.clone().solvec(b)), rbits(x.invc())].concat())?;
    updated(ctx, "solve_triangular", lo, false, &|x| [rbits(x.solve_triangular(b, UPLO::Lower)), rbits(x.solve_triangular(b, UPLO::Upper))].concat())
}

// ---------------------------------------------------------------------------------------------- C18

type Bi<A> = BidiagonalDecomp<A, OwnedRepr<A>>;
type Tri<A> = TridiagonalDecomp<A, OwnedRepr<A>>;

fn bi_query<A: Sc>(d: &Bi<A>, q: u64) -> Vec<u64> {
    match q {
        0 => bits2(&d.generate_u()),
        1 => bits2(&d.generate_vt()),
        2 => bits2(&d.clone().into_b()),
        3 => {
            let (x, y) = d.clone().into_diagonals();
            [bits1(&x), bits1(&y)].concat()
        }
        4 => vec![d.is_upper_diag() as u64],
        // the same questions put to a clone, of which more may be cloned
        5 => bits2(&d.clone().generate_u()),
        6 => bits2(&d.clone().generate_vt()),
        7 => vec![d.clone().is_upper_diag() as u64],
        _ => bits2(&d.clone().clone().into_b()),
    }
}
fn tri_query<A: Sc>(d: &Tri<A>, q: u64) -> Vec<u64> {
    match q {
        0 => bits2(&d.generate_q()),
        1 => bits2(&d.clone().into_tridiag_matrix()),
        2 => {
            let (x, y) = d.clone().into_diagonals();
            [bits1(&x), bits1(&y)].concat()
        }
        3 => bits2(&d.clone().generate_q()),
        _ => bits2(&d.clone().clone().into_tridiag_matrix()),
    }
}

/// The answer of an object that was never asked before and never cloned
fn bi_fresh<A: Sc>(d: Bi<A>, q: u64) -> Vec<u64> {
    match q {
        0 | 5 => bits2(&d.generate_u()),
        1 | 6 => bits2(&d.generate_vt()),
        2 | 8 => bits2(&d.into_b()),
        3 => {
            let (x, y) = d.into_diagonals();
            [bits1(&x), bits1(&y)].concat()
        }
        _ => vec![d.is_upper_diag() as u64],
    }
}
fn tri_fresh<A: Sc>(d: Tri<A>, q: u64) -> Vec<u64> {
    match q {
        0 | 3 => bits2(&d.generate_q()),
        1 | 4 => bits2(&d.into_tridiag_matrix()),
        _ => {
            let (x, y) = d.into_diagonals();
            [bits1(&x), bits1(&y)].concat()
        }
    }
}

pub fn c18<A: Sc>(ctx: &mut Ctx) -> Res {
    let m = gen::size(ctx, 1, 8, 20);
    let k = if ctx.chance(1, 3) { m } else { gen::size(ctx, 1, 8, 20) };
    let a0 = gen::general(ctx, m, k);
    let s0 = gen::symmetric(ctx, m);
    let e = exponent(ctx, A::F32, 900);
    let e = fit(&s0, fit(&a0, e, A::F32), A::F32);
    let a: Array2<A> = gen::lay(ctx, to_sc(&scaled(&a0, e)));
    let s: Array2<A> = gen::lay(ctx, to_sc(&scaled(&s0, e)));
    let base = EnvCfg { budget: 50_000_000, ..gen::env(ctx) };
    ctx.note(format!("{} {m}x{k} exponent {e} decomposed {:?}", A::NAME, base.round));
    let bi = || -> Result<Bi<A>, V> {
        match run_env(&base, AssertUnwindSafe(|| a.clone().bidiagonal())).0 {
            Outcome::Done(r) => ok(r, "bidiagonal"),
            o => viol("panic", format!("bidiagonal: {}", o.label())),
        }
    };
    let tri = || -> Result<Tri<A>, V> {
        match run_env(&base, AssertUnwindSafe(|| s.clone().sym_tridiagonal())).0 {
            Outcome::Done(r) => ok(r, "sym_tridiagonal"),
            o => viol("panic", format!("sym_tridiagonal: {}", o.label())),
        }
    };
    let (b, t3) = (bi()?, tri()?);
    let cfg = EnvCfg { crash_at: None, ..call_env(ctx, false) };
    let r = m.min(k);
    let upper = m >= k;
    // bidiagonal
    {
        let o = run_env(&cfg, AssertUnwindSafe(|| (b.generate_u(), b.generate_vt(), b.clone().into_b(), b.clone().into_diagonals()))).0;
        let Outcome::Done((u, vt, bb, (d, f))) = o else { return viol("panic", o.label()) };
        let (u, vt, bb) = (raw2(&u), raw2(&vt), raw2(&bb));
        if u.dim() != (m, r) || vt.dim() != (r, k) || bb.dim() != (r, r) || d.len() != r || f.len() != r - 1 {
            return viol("shape", format!("U {:?} B {:?} Vt {:?}", u.dim(), bb.dim(), vt.dim()));
        }
        if b.is_upper_diag() != upper {
            return viol("bidiagonal-form", "orientation");
        }
        for i in 0..r {
            for j in 0..r {
                let want = if i == j {
                    Some(d[i].raw())
                } else if upper && j == i + 1 {
                    Some(f[i].raw())
                } else if !upper && i == j + 1 {
                    Some(f[j].raw())
                } else {
                    None
                };
                let x = bb[(i, j)];
                match want {
                    None if x != 0.0 => return viol("bidiagonal-form", format!("B[{i}, {j}] = {x}")),
                    Some(w) if x != w || x.is_nan() || x < 0.0 || x.is_sign_negative() => return viol("bidiagonal-form", format!("B[{i}, {j}] = {x}, diagonals say {w}")),
                    _ => {}
                }
            }
        }
        let t = ltol::<A>(m.max(k));
        ctx.limit("orthonormal", orth(&u).max(orth(&tr(&vt))), t, || "U or Vt".into())?;
        ctx.limit("product", dist(&mul(&mul(&u, &back(&bb, e)), &vt), &a0), t * amax(&a0), || "U B Vt differs from the matrix".into())?;
    }
    {
        let o = run_env(&cfg, AssertUnwindSafe(|| (t3.generate_q(), t3.clone().into_tridiag_matrix(), t3.clone().into_diagonals()))).0;
        let Outcome::Done((q, tm, (d, f))) = o else { return viol("panic", o.label()) };
        let (q, tm) = (raw2(&q), raw2(&tm));
        if q.dim() != (m, m) || tm.dim() != (m, m) || d.len() != m || f.len() != m - 1 {
            return viol("shape", format!("Q {:?} T {:?}", q.dim(), tm.dim()));
        }
        for i in 0..m {
            for j in 0..m {
                let x = tm[(i, j)];
                let w = match i.abs_diff(j) {
                    0 => d[i].raw(),
                    1 => f[i.min(j)].raw(),
                    _ => 0.0,
                };
                if x != w || (i.abs_diff(j) == 1 && (x < 0.0 || x.is_sign_negative())) {
                    return viol("tridiagonal-form", format!("T[{i}, {j}] = {x}, diagonals say {w}"));
                }
            }
        }
        let t = ltol::<A>(m);
        ctx.limit("orthonormal", orth(&q), t, || "Q".into())?;
        ctx.limit("tri-product", dist(&mul(&mul(&q, &back(&tm, e)), &tr(&q)), &s0), t * amax(&s0), || "Q T Q^T differs from the matrix".into())?;
    }
    // histories of queries on the shared objects
    let mut jobs: Vec<(String, EnvCfg, Job)> = vec![];
    for _ in 0..ctx.range(1, 6) {
        let cfg = call_env(ctx, A::SIM);
        let plain = EnvCfg { crash_at: None, ..cfg };
        if ctx.chance(1, 2) {
            let q = ctx.draw(5);
            let twin = tri()?;
            let Outcome::Done(want) = run_env(&plain, AssertUnwindSafe(|| tri_fresh(twin, q))).0 else { return viol("panic", "query") };
            let t3 = &t3;
            jobs.push((format!("tridiagonal query {q}"), cfg, Box::new(move |cfg, rec| {
                if rec.call(cfg, "query", || tri_query(t3, q))? != want {
                    return viol("history", format!("tridiagonal query {q} answers differently than on a fresh object"));
                }
                Ok(())
            })));
        } else {
            let q = ctx.draw(9);
            let twin = bi()?;
            let Outcome::Done(want) = run_env(&plain, AssertUnwindSafe(|| bi_fresh(twin, q))).0 else { return viol("panic", "query") };
            let b = &b;
            jobs.push((format!("bidiagonal query {q}"), cfg, Box::new(move |cfg, rec| {
                if rec.call(cfg, "query", || bi_query(b, q))? != want {
                    return viol("history", format!("bidiagonal query {q} answers differently than on a fresh object"));
                }
                Ok(())
            })));
        }
    }
    let digest = |b: &Bi<A>, t: &Tri<A>| [bi_query(b, 0), bi_query(b, 1), tri_query(t, 0)].concat();
    let before = digest(&b, &t3);
    drive(ctx, A::SIM, jobs, || if digest(&b, &t3) == before { Ok(()) } else { viol("object", "a query modified the decomposition") })?;
    updated(ctx, "bidiagonal", &a, false, &|x| match x.clone().bidiagonal() {
        Ok(d) => [bits2(&d.generate_u()), bits2(&d.generate_vt()), bits2(&d.into_b())].concat(),
        Err(e) => err_code(&e),
    })?;
    updated(ctx, "sym_tridiagonal", &s, true, &|x| match x.clone().sym_tridiagonal() {
        Ok(d) => [bits2(&d.generate_q()), bits2(&d.into_tridiag_matrix())].concat(),
        Err(e) => err_code(&e),
    })?;
    ctx.stats.nontrivial = true;
    Ok(())
}
