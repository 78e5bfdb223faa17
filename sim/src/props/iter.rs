//! C06-C08: the truncated eigen/SVD front ends, driven by a random source the simulator owns.

use super::lob::lob_env;
use crate::alloc;
use crate::ctx::*;
use crate::env::*;
use crate::gen;
use crate::ops::{dom, lob_bits, run_op, Inputs, OPS};
use crate::oracle::*;
use crate::prng::Prng;
use crate::rng::{SimRng, Stream};
use crate::sched::{interleave, on_fresh_thread, Body};
use crate::simf::*;
use linfa_linalg::lobpcg::{Lobpcg, LobpcgResult, TruncatedEig, TruncatedSvd};
use linfa_linalg::{LinalgError, Order};
use ndarray::Array2;
use std::panic::AssertUnwindSafe;

fn order(ctx: &mut Ctx) -> Order {
    ctx.pick(&[Order::Largest, Order::Smallest])
}

fn stream(ctx: &mut Ctx, seed: u64) -> SimRng {
    let mut r = SimRng::new(seed);
    r.stream = match ctx.draw(12) {
        0..=8 => Stream::Normal,
        9 => Stream::Constant(ctx.pick(&[0, u64::MAX, 0x4000_0000_0000_0000])),
        10 => Stream::ZeroFrom(ctx.range(0, 40) as u64),
        _ => Stream::Period(ctx.range(1, 5) as u64),
    };
    r
}

/// Symmetric matrix with all eigenvalues separated by at least about one
fn separated(ctx: &mut Ctx, n: usize) -> M {
    let mut r = Prng::new(ctx.seed());
    let shift = ctx.pick(&[0.5, -3.25, -(n as f64)]);
    let d: Vec<f64> = (0..n).map(|i| i as f64 + shift + 0.1 * r.sym()).collect();
    let q = gen::rotation(ctx, n);
    let mut a = mul(&mul(&q, &diag(&d)), &tr(&q)).mapv(|x| x as f32 as f64);
    for i in 0..n {
        for j in 0..i {
            a[(i, j)] = a[(j, i)];
        }
    }
    a
}

/// Orthonormal basis of the complement of the columns of `y`
fn complement(n: usize, y: Option<&M>) -> M {
    let Some(y) = y else { return M::eye(n) };
    let c = y.ncols();
    // the eigenvectors of Y Y^+ for the eigenvalue zero
    let q = mgs(y);
    let (_, v) = jacobi(&mul(&q, &tr(&q)));
    M::from_shape_fn((n, n - c), |(i, j)| v[(i, c + j)])
}

pub fn c06<A: Sc>(ctx: &mut Ctx) -> Res {
    let n = if ctx.chance(1, 60) { ctx.range(12, 40) } else { ctx.range(1, 12) };
    let a = separated(ctx, n);
    let ord = order(ctx);
    let step = if ctx.chance(1, 2) { ctx.range(1, 3) } else { 1 };
    // constraints of the user: none, invariant, or arbitrary directions; orthonormal or not
    let (_, evecs) = jacobi(&a);
    let y = if n >= 3 && ctx.chance(1, 3) {
        let c = ctx.range(1, ((n - 1) / 2).clamp(1, 3));
        let mut y = if ctx.draw(2) == 0 {
            let o = ctx.range(0, n - c);
            M::from_shape_fn((n, c), |(i, j)| evecs[(i, o + j)])
        } else {
            mgs(&gen::randm(ctx, n, c))
        };
        if cond(&y) > 10.0 {
            y = M::from_shape_fn((n, c), |(i, j)| (i == j) as u8 as f64);
        }
        let s = ctx.pick(&[1.0, 2.0, 0.5]);
        Some(y.mapv(|x| (x * s) as f32 as f64))
    } else {
        None
    };
    let c = y.as_ref().map_or(0, |y| y.ncols());
    let basis = complement(n, y.as_ref());
    let (spec, inner) = jacobi(&mul(&tr(&basis), &mul(&a, &basis)));
    // eigenvectors of the restricted operator, in the requested order
    let modes = mul(&basis, &inner);
    let mode = |i: usize| match ord {
        Order::Largest => i,
        Order::Smallest => spec.len() - 1 - i,
    };
    let want: Vec<f64> = match ord {
        Order::Largest => spec.clone(),
        Order::Smallest => spec.iter().rev().copied().collect(),
    };
    let gap = want
        .windows(2)
        .fold(f64::INFINITY, |m, w| m.min((w[0] - w[1]).abs()));
    let seed = ctx.seed();
    let mut rng = stream(ctx, seed);
    let healthy = rng.stream == Stream::Normal;
    for _ in 0..ctx.range(0, 3) {
        rng.crash_at.push(ctx.range(0, 3 * n) as u64);
    }
    let counter = rng.draws.clone();
    let fired = rng.fired.clone();
    let words = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    rng.log = Some(words.clone());
    let cfg = lob_env::<A>(ctx);
    // steps which give up early, most of them without a result
    let impatient = ctx.chance(1, 4);
    let maxiter = if impatient { ctx.range(0, 6) } else { 500 };
    let mat = gen::lay(ctx, to_sc::<A>(&a));
    let mut eig = TruncatedEig::new_with_rng(mat, ord, rng)
        .precision(if A::F32 { 1e-3 } else { 1e-5 })
        .maxiter(maxiter);
    if let Some(y) = &y {
        eig = eig.orthogonal_to(gen::lay(ctx, to_sc(y)));
    }
    let pre = ctx.draw(3);
    if pre == 1 {
        eig = eig.precondition_with(to_sc(&(M::eye(n) * 0.5)));
    }
    ctx.note(format!(
        "{} n={n} {ord:?} step={step} constraints={c} {:?} stream healthy={healthy} precond={pre} gap={gap:.2} maxiter={maxiter}",
        A::NAME, cfg.round
    ));
    let default_iter = step == 1 && ctx.draw(2) == 0;
    let mut it = if default_iter {
        eig.into_iter()
    } else {
        match eig.into_iter_step_size(step) {
            Ok(i) => i,
            Err(e) => return viol("construct", format!("{e}")),
        }
    };
    // the history
    let total = n - c;
    let mut found: Vec<f64> = vec![];
    let mut vecs = M::zeros((n, 0));
    let yq = y.as_ref().map(mgs);
    let mut idle = 0;
    let mut done = false;
    let ft = if A::F32 { 0.1 } else { 1e-6 };
    for s in 0..(2 * n + 12) {
        let mut cfg = cfg;
        cfg.seed ^= s as u64;
        let crash = A::SIM && ctx.chance(1, 5);
        if crash {
            cfg.crash_at = Some(1 + (ctx.draw(1 << 16)) % ctx.pick(&[4000u64, 400, 60, 20_000]));
        }
        let before = counter.load(std::sync::atomic::Ordering::SeqCst);
        let shots = fired.load(std::sync::atomic::Ordering::SeqCst);
        let (out, rep) = run_env(&cfg, AssertUnwindSafe(|| it.next()));
        ctx.stats.ops += rep.ops;
        match out {
            Outcome::Done(Some((l, v))) => {
                idle = 0;
                ctx.note(format!("step {s}: {} pairs", l.len()));
                ctx.hit("iter.yielded");
                let left = total - found.len();
                let expect = step.min(left);
                if left == 0 || l.len() != expect || v.dim() != (n, expect) {
                    return viol(
                        "count",
                        format!("{} values and vectors {:?} with {left} pairs left and step {step}", l.len(), v.dim()),
                    );
                }
                let v = raw2(&v);
                let l = raw1(&l);
                if !finite(&v) || !l.iter().all(|x| x.is_finite()) {
                    return viol("non-finite", format!("{l:?}"));
                }
                // a block without room in the complement stays in it all the same
                let tight = left < 5 * step && step > 1;
                let mut all = M::zeros((n, vecs.ncols() + v.ncols()));
                for j in 0..vecs.ncols() {
                    all.column_mut(j).assign(&vecs.column(j));
                }
                for j in 0..v.ncols() {
                    all.column_mut(vecs.ncols() + j).assign(&v.column(j));
                }
                vecs = all;
                let leak = yq.as_ref().map_or(0.0, |q| amax(&mul(&tr(q), &v)));
                if tight {
                    ctx.hit("probe.no-room");
                }
                // a constant or dying random source may start in the span of the constraints, or with a
                // block of lower rank; single precision may do so with any source
                if (!healthy && (left < n || step > 1) || A::F32 && tight) && (orth(&vecs) > ft || leak > ft) {
                    ctx.hit("probe.no-start");
                    break;
                }
                ctx.limit(&format!("orthonormal.{}", A::NAME), orth(&vecs), ft, || {
                    format!("vectors after {} pairs", vecs.ncols())
                })?;
                if yq.is_some() {
                    ctx.limit(&format!("constraint.{}", A::NAME), leak, ft, || {
                        "vector not orthogonal to the constraints of the user".into()
                    })?;
                }
                // eigen-equation inside the complement
                let av = mul(&a, &v);
                for j in 0..v.ncols() {
                    let mut r: Vec<f64> = (0..n).map(|i| av[(i, j)] - l[j] * v[(i, j)]).collect();
                    // an early result satisfies it in the complement of the earlier ones only
                    let before = vecs.slice(ndarray::s![.., ..vecs.ncols() - v.ncols()]).to_owned();
                    for q in yq.iter().chain(impatient.then_some(&before)) {
                        let m = M::from_shape_vec((n, 1), r).unwrap();
                        let m = &m - &mul(q, &mul(&tr(q), &m));
                        r = col(&m, 0);
                    }
                    let noise = if A::F32 { 0.05 } else { 1e-3 } * n as f64;
                    ctx.limit(&format!("equation.{}", A::NAME), norm2(&r), 0.25 + noise, || {
                        format!("pair {} with value {}", found.len() + j, l[j])
                    })?;
                }
                // the spectrum in order, without repetition or omission
                if gap > 0.5 && left >= 5 * step && !impatient {
                    for (j, x) in l.iter().enumerate() {
                        let i = found.len() + j;
                        if (x - want[i]).abs() > 0.2 {
                            if !healthy || A::F32 {
                                // a degenerate start block may hide a direction
                                ctx.hit("probe.skipped-pair");
                                if !want.iter().any(|w| (w - x).abs() < 0.3) {
                                    return viol("spectrum", format!("pair {i} has value {x}, spectrum {want:?}"));
                                }
                                done = true;
                                break;
                            }
                            // the start block may happen to be blind to a wanted direction
                            let words = words.lock().unwrap();
                            let drawn = &words[words.len().saturating_sub(n * expect)..];
                            let start = M::from_shape_fn((n, expect), |(i, j)| {
                                (drawn[i * expect + j] >> 11) as f64 * (0.5f64).powi(53)
                            });
                            let mut before = vecs.slice(ndarray::s![.., ..vecs.ncols() - expect]).to_owned();
                            if let Some(q) = &yq {
                                before = ndarray::concatenate![ndarray::Axis(1), *q, before];
                            }
                            let start = mgs(&(&start - &mul(&before, &mul(&tr(&before), &start))));
                            let wanted = M::from_shape_fn((n, expect), |(i, j)| modes[(i, mode(found.len() + j))]);
                            let seen = svals(&mul(&tr(&wanted), &start)).last().copied().unwrap_or(0.0);
                            if !(seen > 1e-3) {
                                ctx.hit("probe.blind-start");
                                done = true;
                                break;
                            }
                            return viol("sequence", format!("pair {i} has value {x} instead of {}", want[i]));
                        }
                    }
                }
                found.extend(l);
                if done {
                    break;
                }
            }
            Outcome::Done(None) => {
                ctx.hit("iter.none");
                let left = total - found.len();
                if left == 0 {
                    if counter.load(std::sync::atomic::Ordering::SeqCst) != before {
                        return viol("exhausted", "drew random values after the last pair");
                    }
                    idle += 1;
                    if idle >= 2 {
                        break;
                    }
                    continue;
                }
                ctx.note(format!("step {s}: none with {left} left"));
                idle += 1;
                // a healthy step on a well separated problem with room makes progress
                if healthy && !A::F32 && !impatient && left >= 5 * step && idle >= 4 {
                    return viol("stuck", format!("{idle} fault-free steps yield nothing, {left} pairs left"));
                }
                if idle >= 6 {
                    break;
                }
            }
            Outcome::Crashed => {
                ctx.note(format!("step {s}: crashed after {} operations", rep.ops));
                if fired.load(std::sync::atomic::Ordering::SeqCst) != shots {
                    ctx.hit("fault.rng-panic");
                } else {
                    ctx.hit("fault.arith-crash");
                }
                ctx.stats.nontrivial = true;
                ctx.mixin(found.len() as u64);
            }
            Outcome::Panicked(e) => return viol("panic", format!("step {s}: {e}")),
            Outcome::Budget => return viol("hang", format!("step {s}")),
        }
    }
    if !healthy {
        ctx.hit("fault.degenerate-stream");
        ctx.stats.nontrivial = true;
    }
    if found.len() > total {
        return viol("count", format!("{} pairs of {total}", found.len()));
    }
    if found.len() == total {
        ctx.hit("probe.whole-spectrum");
    }
    ctx.mixin(found.len() as u64);
    Ok(())
}

pub fn c07<A: Sc>(ctx: &mut Ctx) -> Res {
    let thin = ctx.draw(3);
    let top = if ctx.chance(1, 60) { 40 } else { 12 };
    let (n, m) = (ctx.range(1, top), ctx.range(1, top));
    let sep = thin == 2;
    let ord = order(ctx);
    let mut unit = 1.0f64;
    let (a, k, sep) = if sep {
        unit = 2f64.powi(ctx.pick(&[0, 0, 0, -10, 10, -20, 20]));
        if !A::F32 && ctx.chance(1, 8) {
            // the square of the precision is still a number in single precision
            unit = 2f64.powi(ctx.pick(&[-40, -30, 30, 40]));
        }
        let k = if ctx.chance(1, 10) { ctx.range(1, 4) } else { ctx.range(1, 2) };
        let mn = 5 * k + ctx.range(0, 3);
        let mx = mn + ctx.range(0, 6);
        let s: Vec<f64> = (0..mn).map(|i| unit * (1.0 + i as f64)).collect();
        let u = gen::rotation(ctx, mx);
        let v = gen::rotation(ctx, mn);
        let mut mid = M::zeros((mx, mn));
        for i in 0..mn {
            mid[(i, i)] = s[i];
        }
        let a = mul(&mul(&u, &mid), &v).mapv(|x| x as f32 as f64);
        (if ctx.draw(2) == 0 { a } else { tr(&a) }, k, true)
    } else {
        let k = if ctx.chance(1, 12) { 0 } else { ctx.range(1, n.min(m).min(12)) };
        (dom::<A>(gen::general(ctx, n, m)), k, false)
    };
    let (n, m) = a.dim();
    let seed = ctx.seed();
    let rng = stream(ctx, seed);
    let healthy = rng.stream == Stream::Normal;
    let counter = rng.draws.clone();
    let maxiter = if sep {
        ctx.pick(&[1000, 0, 1, 2, 5])
    } else {
        ctx.pick(&[0, 1, 2, 3, 5, 10, 30])
    };
    // the precision is absolute
    let prec = ctx.pick(&[1e-5f32, 1e-3, 1e-2]) * unit as f32;
    let cfg = lob_env::<A>(ctx);
    let refs = svals(&a);
    let smax = refs.first().copied().unwrap_or(0.0);
    ctx.note(format!(
        "{} {n}x{m} k={k} {ord:?} maxiter={maxiter} precision={prec:e} {:?} separated={sep} healthy={healthy}",
        A::NAME, cfg.round
    ));
    let asc: Array2<A> = gen::lay(ctx, to_sc(&a));
    let (out, rep) = run_env(&cfg, AssertUnwindSafe(|| {
        TruncatedSvd::new_with_rng(asc, ord, rng)
            .precision(prec)
            .maxiter(maxiter)
            .decompose(k)
    }));
    ctx.stats.ops += rep.ops;
    let r = match out {
        Outcome::Done(Ok(r)) => r,
        Outcome::Done(Err(e)) => {
            ctx.hit("outcome.err");
            // the solver may only refuse start blocks or problems without usable directions
            if k == 0 || healthy && sep {
                return viol("refused", format!("{e}"));
            }
            if !matches!(e, LinalgError::NotPositiveDefinite | LinalgError::NotThin { .. }) {
                return viol("refused", format!("{e}"));
            }
            return Ok(());
        }
        Outcome::Panicked(e) => return viol("panic", e),
        o => return viol("hang", o.label()),
    };
    ctx.hit("outcome.ok");
    ctx.add("rng.draws", counter.load(std::sync::atomic::Ordering::SeqCst));
    ctx.stats.nontrivial = k > 0 && maxiter < 1000;
    ctx.mixin(maxiter as u64);
    ctx.mixin(((n * 16 + m) * 16 + k) as u64);
    ctx.mixin(rep.ops);
    let mut vals = vec![];
    for _ in 0..2 {
        let (out, _) = run_env(&cfg, AssertUnwindSafe(|| r.values()));
        match out {
            Outcome::Done(x) => vals.push(x),
            o => return viol("panic", format!("values: {}", o.label())),
        }
    }
    let (out, _) = run_env(&cfg, AssertUnwindSafe(|| r.values_vectors()));
    let (u, s, vt) = match out {
        Outcome::Done(x) => x,
        o => return viol("panic", format!("values_vectors: {}", o.label())),
    };
    let (v1, v2) = (&vals[0], &vals[1]);
    let (s1, s) = (raw1(v1), raw1(&s));
    if bits1(v1) != bits1(v2) || s1.len() != s.len() {
        return viol("values", format!("values {s1:?} then {:?}, with vectors {s:?}", raw1(v2)));
    }
    if s.len() > k || u.ncols() != s.len() || vt.nrows() != s.len() {
        return viol("shape", format!("{} values for k={k}, U {:?}, Vt {:?}", s.len(), u.dim(), vt.dim()));
    }
    if k == 0 {
        return Ok(());
    }
    if u.nrows() != n || vt.ncols() != m {
        return viol("shape", format!("U {:?}, Vt {:?} for {n}x{m}", u.dim(), vt.dim()));
    }
    let tol = if A::F32 { 0.05 } else { 1e-4 };
    // square roots of equal values may differ in a perturbed environment
    let ulps = if cfg.round == Round::Nearest { 0.0 } else { 4.0 * A::U * smax };
    // single precision needs room for start block and search directions, see C05, and a start block
    // that is not close to degenerate
    let room = !A::F32 || n.min(m) >= 5 * k && healthy;
    for (i, x) in s.iter().enumerate() {
        if !(x.is_finite() && *x >= 0.0) {
            return viol("value", format!("{s:?}"));
        }
        let d = (s1[i] - x).abs();
        ctx.limit(&format!("values-agree.{}", A::NAME), d, tol * smax + 1e-300, || format!("{s1:?} vs {s:?}"))?;
        if room {
            ctx.limit(&format!("bound.{}", A::NAME), x - smax, tol * smax + 1e-300, || {
                format!("singular value {x} above the largest {smax}")
            })?;
        }
        if i > 0 {
            let bad = match ord {
                Order::Largest => s[i - 1] < *x - ulps,
                Order::Smallest => s[i - 1] > *x + ulps,
            };
            if bad {
                return viol("order", format!("{s:?} for {ord:?}"));
            }
        }
    }
    // triplets above the noise level
    let noise = smax * if A::F32 { 0.1 } else { 1e-3 };
    let big: Vec<usize> = (0..s.len()).filter(|i| s[*i] > noise).collect();
    let uu = raw2(&u);
    let vv = tr(&raw2(&vt));
    let ub = M::from_shape_fn((n, big.len()), |(i, j)| uu[(i, big[j])]);
    let vb = M::from_shape_fn((m, big.len()), |(i, j)| vv[(i, big[j])]);
    let ft = if A::F32 { 0.2 } else { 5e-3 };
    if !big.is_empty() && room {
        ctx.limit(&format!("left.{}", A::NAME), orth(&ub), ft, || format!("left vectors, {s:?}"))?;
        ctx.limit(&format!("right.{}", A::NAME), orth(&vb), ft, || format!("right vectors, {s:?}"))?;
        // the other side is computed by applying the matrix
        let (img, tgt) = if n > m {
            (mul(&a, &vb), &ub)
        } else {
            (mul(&tr(&a), &ub), &vb)
        };
        let scaled = M::from_shape_fn(img.dim(), |(i, j)| tgt[(i, j)] * s[big[j]]);
        ctx.limit(&format!("triplet.{}", A::NAME), dist(&img, &scaled), ft * smax, || {
            format!("singular vectors do not map to each other, {s:?}")
        })?;
    }
    if sep && maxiter >= 1000 && healthy {
        ctx.hit("probe.converged");
        if s.len() != k {
            return viol("missing", format!("{} of {k} values", s.len()));
        }
        for i in 0..k {
            let want = match ord {
                Order::Largest => refs[i],
                Order::Smallest => refs[refs.len() - 1 - i],
            };
            let t = if A::F32 { 0.3 } else { 2e-2 } * unit;
            if A::F32 && (s[i] - want).abs() > t {
                // squared condition at 24 bits
                ctx.hit("probe.f32-inner-triplet");
                continue;
            }
            ctx.limit(&format!("extreme.{}", A::NAME), (s[i] - want).abs(), t, || {
                format!("triplet {i}: {} instead of {want}", s[i])
            })?;
        }
        if !A::F32 {
            let (img, tgt) = (mul(&a, &vb), &ub);
            let scaled = M::from_shape_fn(img.dim(), |(i, j)| tgt[(i, j)] * s[big[j]]);
            ctx.limit("both-sides", dist(&img, &scaled), 0.2 * unit, || "A v = sigma u".into())?;
        }
    }
    Ok(())
}

#[derive(Clone)]
enum Req {
    Eig(usize),
    Constrain,
}

struct Setup<A: Sc> {
    a: Array2<A>,
    ord: Order,
    prec: f32,
    maxiter: usize,
    seed: u64,
    stream: Stream,
    reqs: Vec<Req>,
    svd: Option<usize>,
    y: Array2<A>,
    cfg: EnvCfg,
}

thread_local! {
    /// operations executed by histories on this thread
    static TICKS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Executes the history, returns the bits of every answer and the number of draws per request
fn history<A: Sc>(s: &Setup<A>, skip: u64) -> Result<(Vec<Vec<u64>>, Vec<u64>), String> {
    let mut rng = SimRng::new(s.seed);
    rng.stream = s.stream;
    for _ in 0..skip {
        use rand::RngCore;
        rng.next_u64();
    }
    let base = rng.count();
    let c = rng.clone();
    let mut bits = vec![];
    let mut draws = vec![];
    let mut last = base;
    let mut tick = |draws: &mut Vec<u64>, c: &SimRng| {
        let n = c.count();
        draws.push(n - last);
        last = n;
    };
    if let Some(k) = s.svd {
        let t = TruncatedSvd::new_with_rng(s.a.clone(), s.ord, rng)
            .precision(s.prec)
            .maxiter(s.maxiter);
        let (o, rep) = run_env(&s.cfg, AssertUnwindSafe(|| t.decompose(k)));
        TICKS.set(TICKS.get() + rep.ops);
        match o {
            Outcome::Done(Ok(r)) => {
                let (u, v, w) = r.values_vectors();
                bits.push([bits2(&u), bits1(&v), bits2(&w)].concat());
            }
            Outcome::Done(Err(e)) => bits.push(crate::ops::err_code(&e)),
            o => return Err(o.label()),
        }
        tick(&mut draws, &c);
    } else {
        let mut t = TruncatedEig::new_with_rng(s.a.clone(), s.ord, rng)
            .precision(s.prec)
            .maxiter(s.maxiter);
        for r in &s.reqs {
            match r {
                Req::Eig(k) => {
                    let (o, rep) = run_env(&s.cfg, AssertUnwindSafe(|| t.decompose(*k)));
                    TICKS.set(TICKS.get() + rep.ops);
                    match o {
                        Outcome::Done(r) => bits.push(lob_bits(&r)),
                        o => return Err(o.label()),
                    }
                    tick(&mut draws, &c);
                }
                Req::Constrain => t = t.orthogonal_to(s.y.clone()),
            }
        }
    }
    Ok((bits, draws))
}

pub fn c08<A: Sc>(ctx: &mut Ctx) -> Res {
    let svd = ctx.draw(3) == 2;
    let top = if ctx.chance(1, 60) { 30 } else { 9 };
    let n = ctx.range(1, top);
    let m = if svd { ctx.range(1, top) } else { n };
    let mn = n.min(m);
    let data = |ctx: &mut Ctx| -> Array2<A> {
        {
            let x = to_sc(&dom::<A>(if svd { gen::general(ctx, n, m) } else { gen::symmetric(ctx, n) }));
            gen::lay(ctx, x)
        }
    };
    let a = data(ctx);
    let other = data(ctx);
    let seed = ctx.seed();
    let streams = [
        Stream::Normal,
        Stream::Normal,
        Stream::Normal,
        Stream::Period(7),
        Stream::Constant(1 << 62),
        Stream::Holes(5),
        Stream::Holes(2),
        Stream::ZeroFrom(3),
    ];
    let st = ctx.pick(&streams);
    let nreq = ctx.range(1, 4);
    let mut reqs = vec![];
    for _ in 0..nreq {
        let k = if ctx.chance(1, 6) { 0 } else { ctx.range(1, mn.min(9)) };
        reqs.push(Req::Eig(k));
        if n > 2 && ctx.chance(1, 6) {
            reqs.push(Req::Constrain);
        }
    }
    let mut y = M::zeros((n, 1));
    y[(ctx.range(0, n - 1), 0)] = 1.0;
    let k = if ctx.chance(1, 6) { 0 } else { ctx.range(1, mn) };
    let cfg = gen::env(ctx);
    let s = Setup {
        a,
        ord: order(ctx),
        prec: ctx.pick(&[1e-3f32, 1e-5, 1.0]),
        maxiter: ctx.range(0, 12),
        seed,
        stream: st,
        reqs,
        svd: svd.then_some(k),
        y: to_sc(&y),
        cfg,
    };
    ctx.note(format!(
        "{} {n}x{m} {} {:?} {:?} maxiter {} {:?} requests {:?}",
        A::NAME, if svd { "svd" } else { "eig" }, s.ord, s.stream, s.maxiter, cfg.round,
        s.svd.map_or(s.reqs.iter().map(|r| match r { Req::Eig(k) => *k as i64, _ => -1 }).collect(), |k| vec![k as i64])
    ));
    let same = |what: &str, a: &(Vec<Vec<u64>>, Vec<u64>), b: &Result<(Vec<Vec<u64>>, Vec<u64>), String>| -> Res {
        match b {
            Ok(b) if &b.0 == &a.0 && b.1 == a.1 => Ok(()),
            Ok(b) => {
                let i = a.0.iter().zip(&b.0).position(|(x, y)| x != y);
                viol(what, format!("answer {i:?} differs, draws {:?} vs {:?}", a.1, b.1))
            }
            Err(e) => viol(what, format!("repetition ended with {e}")),
        }
    };
    let first = match on_fresh_thread(|| history(&s, 0)) {
        Ok(x) => x,
        Err(e) => return viol("panic", e),
    };
    ctx.add("rng.draws", first.1.iter().sum());
    ctx.stats.nontrivial = !first.0.is_empty();
    // on this thread, after whatever ran here, with recycled memory full of rubbish
    let w = Inputs::<A>::gen(ctx, 4);
    let noise = ctx.draw(OPS.len() as u64) as usize;
    if ctx.draw(2) == 0 {
        let w = Inputs::<A::Other>::gen(ctx, 3);
        let _ = run_env(&cfg, AssertUnwindSafe(|| run_op(noise, &w)));
    }
    let _ = run_env(&cfg, AssertUnwindSafe(|| run_op(noise, &w)));
    let pat = ctx.pick(&[0xffu8, 0x00, 0x7f, 0xc3]);
    alloc::set_poison(Some(pat));
    TICKS.set(0);
    let second = history(&s, 0);
    ctx.stats.ops += TICKS.get();
    alloc::set_poison(None);
    ctx.hit("fault.poisoned-heap");
    same("heap-or-history", &first, &second)?;
    // interleaved with a second solver on the same stream and with other routines
    if A::SIM && ctx.chance(1, 2) {
        let results = std::sync::Mutex::new(vec![]);
        let s2 = &s;
        let mut actors: Vec<(String, Body)> = vec![];
        for i in 0..2 {
            let results = &results;
            actors.push((format!("solver {i}"), Box::new(move || {
                let r = history(s2, 0);
                results.lock().unwrap().push(r);
                Ok(())
            })));
        }
        let wr = &w;
        actors.push((OPS[noise].into(), Box::new(move || {
            let _ = run_env(&cfg, AssertUnwindSafe(|| run_op(noise, wr)));
            Ok(())
        })));
        interleave(ctx, actors, || Ok(()))?;
        for r in results.into_inner().unwrap().iter() {
            same("interleaving", &first, r)?;
        }
    }
    // draws depend on the shape only: other matrix, order, limit, precision and stream
    let alt = Setup {
        a: other,
        ord: order(ctx),
        maxiter: ctx.range(0, 12),
        prec: ctx.pick(&[1e-3f32, 1e-5, 1.0]),
        stream: ctx.pick(&streams),
        reqs: s.reqs.clone(),
        y: s.y.clone(),
        ..s
    };
    match history(&alt, 0) {
        Ok(b) => {
            if b.1 != first.1 {
                return viol("draws", format!("draws {:?} for one matrix, {:?} for another of the same shape", first.1, b.1));
            }
        }
        Err(e) => return viol("panic", e),
    }
    // zero request draws nothing, others do
    let ks: Vec<usize> = match s.svd {
        Some(k) => vec![k],
        None => s.reqs.iter().filter_map(|r| match r { Req::Eig(k) => Some(*k), _ => None }).collect(),
    };
    for (k, d) in ks.iter().zip(&first.1) {
        if (*k == 0) != (*d == 0) {
            return viol("draws", format!("{d} values drawn for {k} pairs"));
        }
    }
    // a request made later continues the stream where the ones before left it
    if s.svd.is_none() && st == Stream::Normal && !s.reqs.iter().any(|r| matches!(r, Req::Constrain)) && ks.len() > 1 {
        let skip: u64 = first.1[..ks.len() - 1].iter().sum();
        let tail = Setup { a: s.a.clone(), y: s.y.clone(), reqs: vec![Req::Eig(ks[ks.len() - 1])], ..s };
        match history(&tail, skip) {
            Ok(b) => {
                if b.0[0] != first.0[ks.len() - 1] {
                    return viol("stream", "a later request does not continue the stream");
                }
            }
            Err(e) => return viol("panic", e),
        }
    }
    // clones replay independently
    if s.svd.is_none() {
        let at = ctx.range(0, ks.len() - 1);
        let mut t = TruncatedEig::new_with_rng(s.a.clone(), s.ord, mk(&s))
            .precision(s.prec)
            .maxiter(s.maxiter);
        let mut twin = None;
        let mut i = 0;
        for r in &s.reqs {
            if i == at && twin.is_none() {
                twin = Some(t.clone());
            }
            match r {
                Req::Eig(k) => {
                    let (o, _) = run_env(&s.cfg, AssertUnwindSafe(|| t.decompose(*k)));
                    let Outcome::Done(r) = o else { return viol("panic", "clone history") };
                    if lob_bits(&r) != first.0[i] {
                        return viol("clone", format!("answer {i} changed after cloning the solver at {at}"));
                    }
                    i += 1;
                }
                Req::Constrain => t = t.orthogonal_to(s.y.clone()),
            }
        }
        let mut twin = twin.unwrap();
        let mut i = 0;
        for r in &s.reqs {
            match r {
                Req::Eig(k) => {
                    if i >= at {
                        let (o, _) = run_env(&s.cfg, AssertUnwindSafe(|| twin.decompose(*k)));
                        let Outcome::Done(r) = o else { return viol("panic", "clone history") };
                        if lob_bits(&r) != first.0[i] {
                            return viol("clone", format!("clone taken at {at} answers {i} differently"));
                        }
                    }
                    i += 1;
                }
                Req::Constrain => {
                    // made before the clone was taken, or replayed on it
                    if i >= at {
                        twin = twin.orthogonal_to(s.y.clone());
                    }
                }
            }
        }
    }
    Ok(())
}

fn mk<A: Sc>(s: &Setup<A>) -> SimRng {
    let mut r = SimRng::new(s.seed);
    r.stream = s.stream;
    r
}

/// The options a truncated eigensolver carries; what is set later replaces what was set before
#[derive(Clone)]
struct Opts<A: Sc> {
    precision: Option<f32>,
    maxiter: Option<usize>,
    y: Option<Array2<A>>,
    pre: Option<(usize, Array2<A>)>,
    /// words its generator has delivered
    pos: u64,
}

struct Plain<'a, A: Sc> {
    a: &'a Array2<A>,
    ord: Order,
    seed: u64,
    stream: Stream,
    cfg: &'a EnvCfg,
}

impl<A: Sc> Plain<'_, A> {
    /// A new solver with these options, set in an order of its own
    fn build(&self, o: &Opts<A>) -> (TruncatedEig<A, SimRng>, SimRng) {
        use rand::RngCore;
        let mut rng = SimRng::new(self.seed);
        rng.stream = self.stream;
        for _ in 0..o.pos {
            rng.next_u64();
        }
        // shares the counter of drawn words
        let counter = rng.clone();
        let mut t = TruncatedEig::new_with_rng(self.a.clone(), self.ord, rng);
        if let Some((_, p)) = &o.pre {
            t = t.precondition_with(p.clone());
        }
        if let Some(y) = &o.y {
            t = t.orthogonal_to(y.clone());
        }
        if let Some(n) = o.maxiter {
            t = t.maxiter(n);
        }
        if let Some(p) = o.precision {
            t = t.precision(p);
        }
        (t, counter)
    }
    fn solve(&self, o: &Opts<A>, k: usize) -> Result<(LobpcgResult<A>, u64), String> {
        let (mut t, _) = self.build(o);
        let (out, rep) = run_env(self.cfg, AssertUnwindSafe(|| t.decompose(k)));
        match out {
            Outcome::Done(r) => Ok((r, rep.ops)),
            o => Err(o.label()),
        }
    }
}

fn best<A: Sc>(r: &LobpcgResult<A>) -> Option<&Lobpcg<A>> {
    match r {
        Ok(l) | Err((_, Some(l))) => Some(l),
        _ => None,
    }
}

/// C22: options of the truncated solvers, any history of setting them, cloning, solving, failing
pub fn c22<A: Sc>(ctx: &mut Ctx) -> Res {
    let top = if ctx.chance(1, 60) { 24 } else { 8 };
    let n = ctx.range(2, top);
    if ctx.chance(1, 5) {
        return svd_options::<A>(ctx, n);
    }
    let a: Array2<A> = {
        let x = to_sc(&dom::<A>(gen::symmetric(ctx, n)));
        gen::lay(ctx, x)
    };
    let ord = order(ctx);
    let seed = ctx.seed();
    let stream = ctx.pick(&[Stream::Normal, Stream::Normal, Stream::Normal, Stream::Period(7), Stream::Holes(5)]);
    let cfg = lob_env::<A>(ctx);
    ctx.note(format!("{} {n}x{n} {ord:?} {stream:?} {:?}", A::NAME, cfg.round));
    let plain = Plain { a: &a, ord, seed, stream, cfg: &cfg };
    let fresh = Opts { precision: None, maxiter: None, y: None, pre: None, pos: 0 };
    let (t, drawn) = plain.build(&fresh);
    let drawn_at = |c: &SimRng| c.count();
    // solver and what it is supposed to know; clones share the counter of drawn words
    let mut solvers = vec![(t, fresh)];
    for _ in 0..ctx.range(2, 9) {
        let w = ctx.draw(solvers.len() as u64) as usize;
        let what = ctx.draw(9);
        let (t, mut o) = solvers.swap_remove(w);
        match what {
            0 => {
                let p = ctx.pick(&[1e-5f32, 1e-3, 1e-1, 10.0]);
                ctx.note(format!("solver {w}: precision {p:e}"));
                o.precision = Some(p);
                solvers.push((t.precision(p), o));
            }
            1 => {
                let l = ctx.range(0, 9);
                ctx.note(format!("solver {w}: maxiter {l}"));
                o.maxiter = Some(l);
                solvers.push((t.maxiter(l), o));
            }
            2 => {
                let c = ctx.range(1, 2.min(n - 1));
                let y = match ctx.draw(3) {
                    0 => M::from_shape_fn((n, c), |(i, j)| (i == j) as u8 as f64),
                    1 => M::from_shape_fn((n, c), |(i, j)| 2.0 * (i == n - 1 - j) as u8 as f64),
                    _ => mgs(&gen::randm(ctx, n, c)).mapv(|x| x as f32 as f64),
                };
                ctx.note(format!("solver {w}: orthogonal to {c} vectors"));
                let y: Array2<A> = to_sc(&y);
                o.y = Some(y.clone());
                solvers.push((t.orthogonal_to(y), o));
            }
            3 => {
                // what the caller may do with the public field
                let mut t = t;
                ctx.note(format!("solver {w}: constraints dropped"));
                t.constraints = None;
                o.y = None;
                solvers.push((t, o));
            }
            4 => {
                let kind = ctx.draw(4) as usize;
                let p = match kind {
                    0 => M::eye(n),
                    1 => M::zeros((n, n)),
                    2 => M::eye(n) * 4.0,
                    _ => M::from_shape_fn((n, n), |(i, j)| if i == j { 1.0 + (i % 3) as f64 } else { 0.0 }),
                };
                ctx.note(format!("solver {w}: preconditioner {}", ["identity", "zero", "scaled identity", "diagonal"][kind]));
                let p: Array2<A> = to_sc(&p);
                o.pre = Some((kind, p.clone()));
                solvers.push((t.precondition_with(p), o));
            }
            5 if solvers.len() < 3 => {
                ctx.note(format!("solver {w}: cloned"));
                ctx.hit("op.clone");
                solvers.push((t.clone(), o.clone()));
                solvers.push((t, o));
            }
            _ => {
                let mut t = t;
                let k = if ctx.chance(1, 8) { 0 } else { ctx.range(1, 3.min(n)) };
                let (want, ops) = match plain.solve(&o, k) {
                    Ok(x) => x,
                    Err(e) => return viol("outcome", e),
                };
                ctx.stats.ops += ops;
                // given up half-way
                if A::SIM && ops > 0 && what == 8 {
                    let at = ctx.draw(ops);
                    ctx.note(format!("solver {w}: {k} pairs, cut short at step {at} of {ops}"));
                    let before = drawn_at(&drawn);
                    let (out, _) = run_env(&EnvCfg { crash_at: Some(at), ..cfg }, AssertUnwindSafe(|| t.decompose(k)));
                    match out {
                        Outcome::Crashed => ctx.hit("fault.crash-at-step"),
                        Outcome::Done(_) => {}
                        o => return viol("outcome", o.label()),
                    }
                    o.pos += drawn_at(&drawn) - before;
                    solvers.push((t, o));
                    continue;
                }
                ctx.note(format!("solver {w}: {k} pairs"));
                ctx.hit("op.decompose");
                let before = drawn_at(&drawn);
                let (out, _) = run_env(&cfg, AssertUnwindSafe(|| t.decompose(k)));
                let got = match out {
                    Outcome::Done(r) => r,
                    o => return viol("outcome", o.label()),
                };
                if lob_bits(&got) != lob_bits(&want) {
                    return viol("options", format!(
                        "answers differently from a new solver with the same options: precision {:?}, maxiter {:?}, {} constraints, preconditioner {:?}",
                        o.precision, o.maxiter, o.y.as_ref().map_or(0, |y| y.ncols()), o.pre.as_ref().map(|p| p.0)
                    ));
                }
                effects(ctx, &plain, &o, k, &want)?;
                o.pos += drawn_at(&drawn) - before;
                ctx.stats.nontrivial = true;
                solvers.push((t, o));
            }
        }
        ctx.mixin(what * 8 + w as u64);
    }
    // iteration starts with what the solver knows, and it is only consumed by it
    let (t, o) = solvers.swap_remove(0);
    let step = ctx.range(1, 2);
    let (r, _) = plain.build(&o);
    let mut its = vec![];
    for t in [t, r] {
        let (out, rep) = run_env(&cfg, AssertUnwindSafe(|| {
            let mut it = match t.into_iter_step_size(step) {
                Ok(it) => it,
                Err(_) => return vec![],
            };
            let mut bits = vec![];
            for _ in 0..3 {
                match it.next() {
                    Some((vals, vecs)) => bits.push([bits1(&vals), bits2(&vecs)].concat()),
                    None => bits.push(vec![]),
                }
            }
            bits
        }));
        ctx.stats.ops += rep.ops;
        match out {
            Outcome::Done(b) => its.push(b),
            o => return viol("outcome", format!("iteration: {}", o.label())),
        }
    }
    if its[0] != its[1] {
        return viol("iteration", "iterates differently from a new solver with the same options");
    }
    Ok(())
}

/// What the options have to do with the answer
fn effects<A: Sc>(ctx: &mut Ctx, plain: &Plain<A>, o: &Opts<A>, k: usize, r: &LobpcgResult<A>) -> Res {
    if k == 0 {
        return Ok(());
    }
    let sum = |l: &Lobpcg<A>| raw1(&ndarray::Array1::from(l.rnorm.clone())).iter().sum::<f64>();
    let with = |o: &Opts<A>| plain.solve(o, k).map(|x| x.0);
    let start = Opts { maxiter: Some(0), precision: None, pre: None, ..o.clone() };
    match ctx.draw(5) {
        3 => {
            // a start which is precise enough is the answer
            let loose = Opts { precision: Some(1e8), ..o.clone() };
            let (Ok(z), Ok(s)) = (with(&loose), with(&start)) else { return viol("outcome", "loose precision") };
            ctx.hit("probe.loose-precision");
            if let (Some(x), Some(y)) = (best(&z), best(&s)) {
                if y.rnorm.iter().all(|x| x.raw() < 1e7) && lob_bits(&z) != lob_bits(&s) {
                    return viol("precision", format!("precision 1e8 gives {:?} instead of the start {:?}", x.eigvals, y.eigvals));
                }
            }
        }
        4 => {
            // success means that the precision was reached or all iterations were used
            let p = ctx.pick(&[1e-3f32, 1e-2, 1e-1]);
            let long = Opts { precision: Some(p), maxiter: Some(10_000), pre: None, ..o.clone() };
            let room = plain.a.nrows() - o.y.as_ref().map_or(0, |y| y.ncols());
            let (Ok(z), Ok(s)) = (with(&long), with(&start)) else { return viol("outcome", "long solve") };
            if let (Ok(x), Some(s), true) = (&z, best(&s), room >= 5 * k && !A::F32) {
                ctx.hit("probe.precision-reached");
                let scale = raw2(plain.a).iter().fold(1e-300, |m: f64, x| m.max(x.abs()));
                let worst = x.rnorm.iter().fold(0.0, |m: f64, x| m.max(x.raw()));
                // matrices of large elements cannot be solved to an absolute precision; a frozen pair drifts
                if scale < 1e3 && plain.stream == Stream::Normal {
                    ctx.limit("precision", worst, 10.0 * p as f64, || {
                        format!("success with residuals {:?} for precision {p:e}, start {:?}", x.rnorm, s.rnorm)
                    })?;
                }
            }
            if let (Some(y), Some(x)) = (&o.y, best(&z)) {
                let leak = mul(&tr(&mgs(&raw2(y))), &raw2(&x.eigvecs)).iter().fold(0.0, |m: f64, x| m.max(x.abs()));
                if plain.stream == Stream::Normal && room >= k {
                    ctx.limit(&format!("constraints.{}", A::NAME), leak, if A::F32 { 0.1 } else { 1e-4 }, || {
                        "not orthogonal to the constraints".into()
                    })?;
                }
            }
        }
        0 => {
            // without constraints and preconditioner every iteration counts
            let Some(l) = o.maxiter else { return Ok(()) };
            let more = Opts { maxiter: Some(l + ctx.range(1, 4)), ..o.clone() };
            let Ok(m) = with(&more) else { return viol("outcome", "larger limit") };
            ctx.hit("probe.larger-limit");
            if let (Some(x), Some(y)) = (best(r), best(&m)) {
                if sum(y) > sum(x) {
                    return viol("maxiter", format!("a larger limit makes the residual grow from {:e} to {:e}", sum(x), sum(y)));
                }
            }
        }
        1 if o.maxiter.is_some() => {
            // a preconditioner which returns nothing leaves the start
            let zero = Opts { pre: Some((1, Array2::zeros(plain.a.dim()))), ..o.clone() };
            let (Ok(z), Ok(s)) = (with(&zero), with(&start)) else { return viol("outcome", "zero preconditioner") };
            ctx.hit("probe.zero-preconditioner");
            if let (Some(x), Some(y)) = (best(&z), best(&s)) {
                if bits1(&x.eigvals) != bits1(&y.eigvals) || bits2(&x.eigvecs) != bits2(&y.eigvecs) {
                    return viol("preconditioner", "a preconditioner which returns zero is not asked");
                }
            }
        }
        _ => {
            // the identity changes nothing
            let Some((0, _)) = o.pre else { return Ok(()) };
            let bare = Opts { pre: None, ..o.clone() };
            let Ok(b) = with(&bare) else { return viol("outcome", "no preconditioner") };
            ctx.hit("probe.identity-preconditioner");
            match (best(r), best(&b)) {
                (Some(x), Some(y)) => {
                    // zeros may change their sign, and with it everything that hangs on a rounding
                    let scale = raw2(plain.a).iter().fold(0.0, |m: f64, x| m.max(x.abs()));
                    let (x, y) = (raw1(&x.eigvals), raw1(&y.eigvals));
                    let d = x.iter().zip(&y).fold(0.0, |m: f64, (x, y)| m.max((x - y).abs()));
                    let tol = if A::F32 { 0.1 } else { 1e-2 };
                    if plain.cfg.round == Round::Nearest && plain.stream == Stream::Normal {
                        ctx.limit(&format!("identity.{}", A::NAME), d, tol * scale, || {
                            format!("an identity preconditioner changes {y:?} to {x:?}")
                        })?;
                    }
                }
                (None, None) => {}
                _ => ctx.hit("probe.identity-other-outcome"),
            }
        }
    }
    Ok(())
}

fn svd_options<A: Sc>(ctx: &mut Ctx, n: usize) -> Res {
    let m = ctx.range(1, 8);
    let a: Array2<A> = {
        let x = to_sc(&dom::<A>(gen::general(ctx, n, m)));
        gen::lay(ctx, x)
    };
    let ord = order(ctx);
    let seed = ctx.seed();
    let cfg = lob_env::<A>(ctx);
    let k = ctx.range(0, 2.min(n.min(m)));
    let mut opts = vec![];
    for _ in 0..ctx.range(1, 4) {
        opts.push(match ctx.draw(2) {
            0 => (Some(ctx.pick(&[1e-5f32, 1e-3, 1e-1, 10.0])), None),
            _ => (None, Some(ctx.range(0, 9))),
        });
    }
    ctx.note(format!("{} svd {n}x{m} {ord:?} k={k} options {opts:?}", A::NAME));
    let precision = opts.iter().rev().find_map(|o| o.0);
    let maxiter = opts.iter().rev().find_map(|o| o.1);
    let make = || TruncatedSvd::new_with_rng(a.clone(), ord, SimRng::new(seed));
    let mut t = make();
    for (p, l) in &opts {
        if let Some(p) = p {
            t = t.precision(*p);
        }
        if let Some(l) = l {
            t = t.maxiter(*l);
        }
    }
    let mut plain = make();
    if let Some(l) = maxiter {
        plain = plain.maxiter(l);
    }
    if let Some(p) = precision {
        plain = plain.precision(p);
    }
    let twin = t.clone();
    let mut answers = vec![];
    for t in [plain, t, twin] {
        let (out, rep) = run_env(&cfg, AssertUnwindSafe(|| match t.decompose(k) {
            Ok(r) => {
                let (u, s, v) = r.values_vectors();
                [bits2(&u), bits1(&s), bits2(&v)].concat()
            }
            Err(e) => crate::ops::err_code(&e),
        }));
        ctx.stats.ops += rep.ops;
        match out {
            Outcome::Done(b) => answers.push(b),
            o => return viol("outcome", o.label()),
        }
    }
    ctx.hit("op.svd");
    ctx.stats.nontrivial = true;
    for o in &opts {
        ctx.mixin(o.0.map_or(0, |p| p.to_bits() as u64) ^ o.1.map_or(7, |l| l as u64 + 100));
    }
    if answers[1] != answers[0] {
        return viol("options", format!("answers differently from a new solver with precision {precision:?}, maxiter {maxiter:?}"));
    }
    if answers[2] != answers[0] {
        return viol("clone", "a clone answers differently");
    }
    Ok(())
}
