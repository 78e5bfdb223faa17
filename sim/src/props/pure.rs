//! C19 norms, C20 reflections, C21 triangles: small routines, decided in the same simulated
//! environments (rounding, cancellation, callers, storage) and histories as everything else.

use crate::ctx::{viol, Ctx, Res, V};
use crate::env::{run_env, EnvCfg, Outcome};
use crate::gen;
use crate::oracle::*;
use crate::prng::Prng;
use crate::props::direct::{call_env, drive, Job};
use crate::simf::Sc;
use linfa_linalg::norm::Norm;
use linfa_linalg::reflection::Reflection;
use linfa_linalg::triangular::{IntoTriangular, Triangular, UPLO};
use linfa_linalg::LinalgError;
use ndarray::{s, Array1, Array2, ArrayBase, ArrayD, Axis, Data, DataMut, Dimension, Ix1, Ix2, IxDyn, Slice};
use std::cell::Cell;
use std::panic::AssertUnwindSafe;

// ---------------------------------------------------------------------------------------------- C19

#[derive(Clone, Copy, Debug, PartialEq)]
enum N {
    L1,
    L2,
    Max,
}

/// Elements whose squares stay within the format
fn elements<A: Sc>(ctx: &mut Ctx, n: usize) -> Vec<f64> {
    let lim = if A::F32 { 30 } else { 400 };
    let e = if ctx.chance(1, 4) { ctx.range(0, 2 * lim) as i32 - lim as i32 } else { 0 };
    let kind = ctx.draw(7);
    ctx.note(format!("elements of kind {kind} times 2^{e}"));
    let few = n <= 24;
    let mut r = Prng::new(if few { 0 } else { ctx.seed() });
    let mut one = |ctx: &mut Ctx, k: u64| if few { ctx.draw(k) } else { r.below(k) };
    (0..n)
        .map(|i| {
            let x = match kind {
                0 => one(ctx, 7) as f64 - 3.0,
                1 => (one(ctx, 1 << 16) as f64 - 32768.0) / 32768.0,
                // graded over many orders of magnitude
                2 => 2f64.powi(one(ctx, 28) as i32 - 20) * if i % 3 == 0 { -1.0 } else { 1.0 },
                // one dominating element
                3 => {
                    if i == n / 2 {
                        -1000.0
                    } else {
                        one(ctx, 4) as f64 / 16.0
                    }
                }
                4 => -0.5,
                5 => [0.0, -0.0, 0.0, -1.0][one(ctx, 4) as usize],
                _ => -(1.0 + one(ctx, 1 << 10) as f64 / 1024.0),
            };
            A::of(x * 2f64.powi(e)).raw()
        })
        .collect()
}

fn norm<A: Sc, S: Data<Elem = A>, D: Dimension>(a: &ArrayBase<S, D>, q: N) -> f64 {
    match q {
        N::L1 => a.norm_l1().raw(),
        N::L2 => a.norm_l2().raw(),
        N::Max => a.norm_max().raw(),
    }
}

/// The norm of the array in one of the forms a caller may have it in
fn in_form<A: Sc>(a: &ArrayD<A>, form: u64, q: N) -> f64 {
    match form {
        0 => norm(a, q),
        1 => norm(&a.view(), q),
        2 => norm(&a.clone().into_shared(), q),
        3 => norm(&a.t(), q),
        // static dimensions
        4 => match a.ndim() {
            0 => norm(&a.view().into_dimensionality::<ndarray::Ix0>().unwrap(), q),
            1 => norm(&a.view().into_dimensionality::<Ix1>().unwrap(), q),
            2 => norm(&a.view().into_dimensionality::<Ix2>().unwrap(), q),
            3 => norm(&a.view().into_dimensionality::<ndarray::Ix3>().unwrap(), q),
            _ => norm(&a.clone(), q),
        },
        // all axes reversed
        5 => {
            let mut v = a.view();
            for i in 0..v.ndim() {
                v.invert_axis(Axis(i));
            }
            norm(&v, q)
        }
        // every second element of an array with huge ones in between
        6 if a.ndim() > 0 => {
            let mut d = a.raw_dim();
            let ax = a.ndim() - 1;
            d[ax] = 2 * d[ax] + 1;
            let mut big = ArrayD::from_elem(d, A::of(1e15));
            big.slice_axis_mut(Axis(ax), Slice::new(1, None, 2)).assign(a);
            norm(&big.slice_axis(Axis(ax), Slice::new(1, None, 2)), q)
        }
        // the rest of an array whose first entries were cut off
        7 if a.ndim() > 0 => {
            let mut d = a.raw_dim();
            d[0] += 2;
            let mut big = ArrayD::from_elem(d, A::of(-1e15));
            big.slice_axis_mut(Axis(0), Slice::new(2, None, 1)).assign(a);
            big.slice_axis_inplace(Axis(0), Slice::new(2, None, 1));
            norm(&big, q)
        }
        _ => {
            // a broadcast of the same elements is a bigger vector, so only its single copy is used
            let mut d = vec![1];
            d.extend(a.shape());
            norm(&a.broadcast(IxDyn(&d)).unwrap(), q)
        }
    }
}

pub fn c19<A: Sc>(ctx: &mut Ctx) -> Res {
    let nd = ctx.pick(&[2usize, 1, 2, 0, 1, 3, 4]);
    let top = match nd {
        1 => [40, 40, 4000][ctx.draw(3) as usize / 2 * 2],
        2 => 12,
        _ => 5,
    };
    let shape: Vec<usize> = (0..nd)
        .map(|_| if ctx.chance(1, 24) { 0 } else if ctx.chance(1, 24) { ctx.range(1, top) } else { ctx.range(1, top.min(7)) })
        .collect();
    let n: usize = shape.iter().product();
    let x = elements::<A>(ctx, n);
    ctx.note(format!("{} of shape {shape:?}", A::NAME));
    let a: ArrayD<A> = ArrayD::from_shape_vec(IxDyn(&shape), x.iter().map(|x| A::of(*x)).collect()).unwrap();
    let mut jobs: Vec<(String, EnvCfg, Job)> = vec![];
    let judge = |q: N, x: &[f64], got: f64| -> Result<(f64, f64), V> {
        let big = x.iter().fold(0f64, |m, v| m.max(v.abs()));
        let n = x.len() as f64;
        if got.is_nan() || got < 0.0 {
            return viol("value", format!("{q:?} norm {got}")).map(|_: ()| (0.0, 0.0));
        }
        Ok(match q {
            N::Max => ((got - big).abs(), 0.0),
            N::L1 => {
                let want: f64 = x.iter().map(|v| v.abs()).sum();
                ((got - want).abs(), 4.0 * (n + 1.0) * A::U * want)
            }
            N::L2 => {
                let want = if big > 0.0 { x.iter().map(|v| (v / big).powi(2)).sum::<f64>().sqrt() * big } else { 0.0 };
                ((got - want).abs(), 4.0 * (n + 3.0) * A::U * want)
            }
        })
    };
    let judge = &judge;
    for _ in 0..ctx.range(1, 5) {
        let cfg = call_env(ctx, A::SIM);
        let q = ctx.pick(&[N::L2, N::L1, N::Max]);
        let form = ctx.draw(9);
        let (a, x) = (&a, &x);
        jobs.push((
            format!("{q:?} norm in form {form}"),
            cfg,
            Box::new(move |cfg, rec| {
                let got = rec.call(cfg, "norm", || in_form(a, form, q))?;
                let (err, lim) = judge(q, x, got)?;
                if lim == 0.0 {
                    return if err == 0.0 { Ok(()) } else { viol("maximum", format!("{q:?} norm in form {form} is {got:e}, off by {err:e}")) };
                }
                rec.limit(&format!("{q:?}"), err, lim, || format!("{q:?} norm in form {form} is {got:e}"))
            }),
        ));
    }
    let before: Vec<u64> = a.iter().map(|v| v.raw().to_bits()).collect();
    drive(ctx, A::SIM, jobs, || {
        if a.iter().map(|v| v.raw().to_bits()).eq(before.iter().copied()) {
            Ok(())
        } else {
            viol("operand", "a norm modified its operand")
        }
    })?;
    // the same buffer after its elements were changed
    if n > 0 && ctx.chance(1, 3) {
        let mut a = a.clone();
        let mut x = x.clone();
        let cfg = EnvCfg { crash_at: None, ..call_env(ctx, false) };
        for _ in 0..ctx.range(1, 3) {
            let i = ctx.draw(n as u64) as usize;
            x[i] = A::of(-x[i] * 0.5).raw();
            *a.iter_mut().nth(i).unwrap() = A::of(x[i]);
            for q in [N::L1, N::L2, N::Max] {
                let Outcome::Done(got) = run_env(&cfg, AssertUnwindSafe(|| norm(&a, q))).0 else { return viol("panic", "norm") };
                let (err, lim) = judge(q, &x, got)?;
                if err > lim {
                    return viol("stale", format!("{q:?} norm after element {i} was changed is off by {err:e}"));
                }
            }
        }
    }
    ctx.stats.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C20

struct Step {
    axis: usize,
    rows: bool,
    crash: Option<u64>,
}

pub fn c20<A: Sc>(ctx: &mut Ctx) -> Res {
    let m = gen::size(ctx, 1, 7, 20);
    let k = if ctx.chance(1, 4) { m } else { gen::size(ctx, 0, 7, 20) };
    let unit = |ctx: &mut Ctx, n: usize| -> (Vec<f64>, f64) {
        let v: Vec<f64> = match ctx.draw(4) {
            0 => {
                let i = ctx.draw(n as u64) as usize;
                let sg = if ctx.chance(1, 2) { -1.0 } else { 1.0 };
                (0..n).map(|j| if i == j { sg } else { 0.0 }).collect()
            }
            1 => {
                // Pythagorean, exactly representable up to the last digit
                let mut v = vec![0.0; n];
                v[0] = 0.6;
                v[n - 1] += if n > 1 { -0.8 } else { 0.4 };
                v
            }
            2 => {
                let mut v = vec![1e-8; n];
                v[n / 2] = 1.0;
                let l = norm2(&v);
                v.iter().map(|x| x / l).collect()
            }
            _ => col(&mgs(&gen::randm(ctx, n, 1)), 0),
        };
        let v: Vec<f64> = v.iter().map(|x| A::of(*x).raw()).collect();
        let bias = if ctx.chance(1, 3) { ctx.pick(&[1.0, -0.5, 4.0, 1e-3]) } else { 0.0 };
        (v, bias)
    };
    let mut axes = vec![];
    let na = ctx.range(1, 4);
    let mut steps = vec![];
    let mut kinds = vec![];
    for i in 0..na {
        let rows = k > 0 && ctx.chance(1, 2);
        let (v, b) = unit(ctx, if rows { k } else { m });
        if (norm2(&v) - 1.0).abs() > 8.0 * A::U {
            ctx.hit("skipped.axis");
            return Ok(());
        }
        axes.push((v, b));
        kinds.push((rows, ctx.draw(4)));
        steps.push(Step { axis: i, rows, crash: None });
    }
    // more steps with the same axes, then everything undone in the opposite order
    for _ in 0..ctx.range(0, 4) {
        let i = ctx.range(0, na - 1);
        steps.push(Step { axis: i, rows: kinds[i].0, crash: None });
    }
    let undo: Vec<Step> = steps.iter().rev().map(|s| Step { crash: None, ..*s }).collect();
    steps.extend(undo);
    for s in &mut steps {
        if A::SIM && ctx.chance(1, 6) {
            s.crash = Some(ctx.draw(2 * (m * k) as u64 + 2));
        }
    }
    let e = if ctx.chance(1, 6) { ctx.range(0, 60) as i32 - 30 } else { 0 };
    let a0 = gen::general(ctx, m, k).mapv(|x| A::of(x * 2f64.powi(e)).raw());
    let cfg = EnvCfg { crash_at: None, budget: 50_000_000, ..gen::env(ctx) };
    let storage = ctx.draw(5);
    let lay = ctx.draw(8);
    ctx.note(format!("{} {m}x{k} times 2^{e}, {} steps with {na} axes, storage {storage}, {:?}", A::NAME, steps.len(), cfg.round));
    let u = 16.0 * (m.max(k) + 4) as f64 * A::U;
    let size = amax(&a0) + axes.iter().fold(0f64, |x, a| x.max(a.1.abs()));
    // all of them exactly as the library gets them
    let strided: Vec<Array1<A>> = axes
        .iter()
        .zip(&kinds)
        .map(|((v, _), (_, kind))| {
            let v: Vec<A> = v.iter().map(|x| A::of(*x)).collect();
            match kind {
                1 => {
                    let mut o: Array1<A> = v.into_iter().rev().collect();
                    o.invert_axis(Axis(0));
                    o
                }
                2 => {
                    let mut o: Array1<A> = Array1::from_elem(2 * v.len(), A::of(9.0));
                    o.slice_mut(s![1..;2]).assign(&Array1::from(v));
                    o.slice_move(s![1..;2])
                }
                _ => Array1::from(v),
            }
        })
        .collect();
    let bits_axes = |s: &[Array1<A>]| s.iter().map(|a| bits1(a)).collect::<Vec<_>>();
    let axes_before = bits_axes(&strided);
    fn step<A: Sc, S: DataMut<Elem = A>>(x: &mut ArrayBase<S, Ix2>, axis: &Array1<A>, owned: bool, bias: f64, rows: bool) {
        if owned {
            let r = Reflection::new(axis.clone(), A::of(bias));
            if rows {
                r.reflect_rows(x)
            } else {
                r.reflect_cols(x)
            }
        } else {
            let r = Reflection::new(axis.view(), A::of(bias));
            if rows {
                r.reflect_rows(x)
            } else {
                r.reflect_cols(x)
            }
        }
    }
    let mut cur: Array2<A> = if lay < 6 { gen::relay(to_sc(&a0), lay) } else { to_sc(&a0) };
    let mut done = 0.0;
    for (no, st) in steps.iter().enumerate() {
        let (v, bias) = &axes[st.axis];
        let axis = &strided[st.axis];
        let owned = kinds[st.axis].1 == 3;
        let before = raw2(&cur);
        // what it should be
        let mut want = before.clone();
        if st.rows {
            for mut r in want.rows_mut() {
                let d: f64 = r.iter().zip(v).map(|(x, y)| x * y).sum::<f64>() - bias;
                r.iter_mut().zip(v).for_each(|(x, y)| *x -= 2.0 * d * y);
            }
        } else {
            for mut c in want.columns_mut() {
                let d: f64 = c.iter().zip(v).map(|(x, y)| x * y).sum::<f64>() - bias;
                c.iter_mut().zip(v).for_each(|(x, y)| *x -= 2.0 * d * y);
            }
        }
        let mut crash = st.crash;
        loop {
            let c = EnvCfg { crash_at: crash, ..cfg };
            let backup = cur.clone();
            let (o, rep) = match storage {
                0 | 1 => run_env(&c, AssertUnwindSafe(|| step(&mut cur, axis, owned, *bias, st.rows))),
                // a window of a bigger buffer
                2 | 3 => {
                    let mut big = Array2::from_elem((2 * m + 3, k + 3), A::of(777.0));
                    big.slice_mut(s![1..2 * m + 1;2, 2..k + 2]).assign(&cur);
                    let r = {
                        let mut w = big.slice_mut(s![1..2 * m + 1;2, 2..k + 2]);
                        if storage == 3 {
                            // seen from the other side
                            let mut w = w.view_mut().reversed_axes();
                            run_env(&c, AssertUnwindSafe(|| step(&mut w, axis, owned, *bias, !st.rows)))
                        } else {
                            run_env(&c, AssertUnwindSafe(|| step(&mut w, axis, owned, *bias, st.rows)))
                        }
                    };
                    cur.assign(&big.slice(s![1..2 * m + 1;2, 2..k + 2]));
                    big.slice_mut(s![1..2 * m + 1;2, 2..k + 2]).fill(A::of(777.0));
                    if big.iter().any(|x| x.raw() != 777.0) {
                        return viol("witness", format!("step {no} wrote outside of its window"));
                    }
                    r
                }
                // shared storage, which has to be copied before it is written
                _ => {
                    let keep = cur.clone().into_shared();
                    let mut x = keep.clone();
                    let r = run_env(&c, AssertUnwindSafe(|| step(&mut x, axis, owned, *bias, st.rows)));
                    if bits2(&keep) != bits2(&cur) {
                        return viol("witness", format!("step {no} wrote to storage which is shared"));
                    }
                    cur.assign(&x);
                    r
                }
            };
            ctx.stats.ops += rep.ops;
            ctx.add("fault.rounding-perturbed", rep.perturbed);
            match o {
                Outcome::Done(()) => break,
                Outcome::Crashed => {
                    ctx.hit("fault.cancelled-call");
                    // the caller starts over from its own copy
                    cur = backup;
                    crash = None;
                }
                o => return viol("panic", format!("step {no}: {}", o.label())),
            }
        }
        ctx.limit("image", dist(&raw2(&cur), &want), u * size * (1.0 + done), || format!("step {no} is not the reflection"))?;
        // distances to the plane's origin are kept
        if *bias == 0.0 && k > 0 {
            let (g, h) = (raw2(&cur), before);
            let (g, h) = if st.rows { (mul(&g, &tr(&g)), mul(&h, &tr(&h))) } else { (mul(&tr(&g), &g), mul(&tr(&h), &h)) };
            ctx.limit("inner-products", dist(&g, &h), u * size * size * m.max(k) as f64 * (2.0 + done), || format!("step {no} changes inner products"))?;
        }
        done += 1.0;
    }
    if bits_axes(&strided) != axes_before {
        return viol("operand", "an axis was modified");
    }
    ctx.limit("undone", dist(&raw2(&cur), &a0), u * size * 4.0 * (1.0 + done), || "reflecting everything back does not restore the matrix".into())?;
    ctx.stats.nontrivial = !steps.is_empty() && k > 0;
    ctx.mixin((m * 100 + k) as u64);
    ctx.mixin(steps.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C21

/// An element which owns memory and may panic while it is examined or made
struct Cell21 {
    value: Box<i64>,
}
#[derive(Default)]
struct World {
    ticks: Cell<u64>,
    crash_at: Cell<Option<u64>>,
    alive: Cell<i64>,
}
thread_local!(static WORLD: World = World::default());
struct Bang;
fn tick() {
    WORLD.with(|w| {
        let t = w.ticks.get();
        w.ticks.set(t + 1);
        if w.crash_at.get() == Some(t) {
            w.crash_at.set(None);
            std::panic::resume_unwind(Box::new(Bang));
        }
    })
}
impl Cell21 {
    fn new(x: i64) -> Self {
        WORLD.with(|w| w.alive.set(w.alive.get() + 1));
        Cell21 { value: Box::new(x) }
    }
}
impl Drop for Cell21 {
    fn drop(&mut self) {
        WORLD.with(|w| w.alive.set(w.alive.get() - 1));
    }
}
impl Clone for Cell21 {
    fn clone(&self) -> Self {
        Cell21::new(*self.value)
    }
}
impl std::ops::Add for Cell21 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Cell21::new(*self.value + *o.value)
    }
}
impl num_traits::Zero for Cell21 {
    fn zero() -> Self {
        tick();
        Cell21::new(0)
    }
    fn is_zero(&self) -> bool {
        tick();
        *self.value == 0
    }
}

/// Elements of the triangle which zeroing with `uplo` removes
fn removed(uplo: UPLO, i: usize, j: usize) -> bool {
    match uplo {
        UPLO::Upper => j < i,
        UPLO::Lower => j > i,
    }
}

/// What a predicate has to answer
fn expected(a: &Array2<i64>, uplo: UPLO) -> bool {
    a.is_square() && a.indexed_iter().all(|((i, j), x)| !removed(uplo, i, j) || *x == 0)
}

fn history<T, S>(ctx: &mut Ctx, what: &str, make: &dyn Fn(i64) -> T, read: &dyn Fn(&T) -> i64, store: &dyn Fn(Array2<T>) -> ArrayBase<S, Ix2>) -> Res
where
    T: Clone + num_traits::Zero,
    S: DataMut<Elem = T>,
{
    let m = gen::size(ctx, 0, 6, 16);
    let k = if ctx.chance(1, 5) { gen::size(ctx, 0, 6, 16) } else { m };
    // mostly nearly triangular, so that single elements decide
    let kind = ctx.draw(4);
    let mut model = Array2::from_shape_fn((m, k), |(i, j)| match kind {
        0 => (i * k + j) as i64 + 1,
        1 => (removed(UPLO::Upper, i, j) as i64) * 5 + (i == j) as i64,
        2 => (!removed(UPLO::Upper, i, j)) as i64 * 3,
        _ => 0,
    });
    for _ in 0..ctx.range(0, 3) {
        if m * k > 0 {
            let (i, j) = (ctx.draw(m as u64) as usize, ctx.draw(k as u64) as usize);
            model[(i, j)] = ctx.range(0, 2) as i64 - 1;
        }
    }
    let lay = ctx.draw(8);
    let plain = model.mapv(make);
    let base = if lay < 6 { gen::relay(plain, lay) } else { plain };
    let mut a = store(base);
    ctx.note(format!("{what} {m}x{k} kind {kind} layout {lay}"));
    ctx.mixin((m * 64 + k) as u64);
    let same = |a: &ArrayBase<S, Ix2>, model: &Array2<i64>, when: &str| -> Res {
        if a.dim() != model.dim() {
            return viol("shape", when.to_string());
        }
        for ((i, j), x) in a.indexed_iter() {
            if read(x) != read(&make(model[(i, j)])) {
                return viol("element", format!("{when}: element ({i}, {j}) is {} instead of {}", read(x), model[(i, j)]));
            }
        }
        Ok(())
    };
    for no in 0..ctx.range(1, 6) {
        let uplo = if ctx.chance(1, 2) { UPLO::Lower } else { UPLO::Upper };
        let crash = if ctx.chance(1, 4) { Some(ctx.draw((m * k) as u64 + 1)) } else { None };
        let op = ctx.draw(4);
        ctx.mixin(op * 2 + (uplo == UPLO::Upper) as u64);
        WORLD.with(|w| {
            w.ticks.set(0);
            w.crash_at.set(crash);
        });
        match op {
            0 | 1 => {
                let r = std::panic::catch_unwind(AssertUnwindSafe(|| a.is_triangular(uplo)));
                match r {
                    Ok(got) => {
                        if got != expected(&model, uplo) {
                            return viol("predicate", format!("step {no}: is_triangular({uplo:?}) is {got}"));
                        }
                    }
                    Err(e) if e.is::<Bang>() => ctx.hit("fault.cancelled-call"),
                    Err(_) => return viol("panic", format!("step {no}: is_triangular({uplo:?})")),
                }
                same(&a, &model, "after a predicate")?;
            }
            2 => {
                let r = std::panic::catch_unwind(AssertUnwindSafe(|| match a.triangular_inplace(uplo) {
                    Ok(_) => None,
                    Err(e) => Some(e),
                }));
                let zeroed = Array2::from_shape_fn((m, k), |(i, j)| if removed(uplo, i, j) { 0 } else { model[(i, j)] });
                match r {
                    Ok(None) if m == k => {
                        model = zeroed;
                        same(&a, &model, "after zeroing")?;
                    }
                    Ok(Some(LinalgError::NotSquare { rows, cols })) if m != k && rows as usize == m && cols as usize == k => same(&a, &model, "after a refused zeroing")?,
                    Ok(r) => return viol("result", format!("step {no}: zeroing a {m}x{k} matrix: {:?}", r.map(|e| e.to_string()))),
                    Err(e) if e.is::<Bang>() => {
                        ctx.hit("fault.cancelled-call");
                        // cut short: every element is as before or zeroed; the caller finishes later
                        let now = a.map(read);
                        for ((i, j), x) in now.indexed_iter() {
                            if *x != read(&make(model[(i, j)])) && *x != read(&make(zeroed[(i, j)])) {
                                return viol("element", format!("cut short: element ({i}, {j}) is {x}"));
                            }
                        }
                        model = now;
                    }
                    Err(_) => return viol("panic", format!("step {no}: triangular_inplace({uplo:?})")),
                }
            }
            _ => {
                // consuming a copy leaves the original alone
                let copy = Array2::from_shape_fn(a.dim(), |ix| a[ix].clone());
                let r = std::panic::catch_unwind(AssertUnwindSafe(|| copy.into_triangular(uplo)));
                match r {
                    Ok(Ok(t)) if m == k => {
                        for ((i, j), x) in t.indexed_iter() {
                            let w = if removed(uplo, i, j) { 0 } else { read(&make(model[(i, j)])) };
                            if read(x) != w {
                                return viol("element", format!("into_triangular: element ({i}, {j}) is {} instead of {w}", read(x)));
                            }
                        }
                        WORLD.with(|w| w.crash_at.set(None));
                        if !t.is_triangular(uplo) {
                            return viol("predicate", "a zeroed matrix is not triangular");
                        }
                    }
                    Ok(Err(LinalgError::NotSquare { rows, cols })) if m != k && rows as usize == m && cols as usize == k => {}
                    Ok(r) => return viol("result", format!("into_triangular of a {m}x{k} matrix: ok {}", r.is_ok())),
                    Err(e) if e.is::<Bang>() => ctx.hit("fault.cancelled-call"),
                    Err(_) => return viol("panic", format!("step {no}: into_triangular({uplo:?})")),
                }
                same(&a, &model, "after consuming a copy")?;
            }
        }
        ctx.stats.ops += WORLD.with(|w| {
            w.crash_at.set(None);
            w.ticks.get()
        });
        // the caller changes an element
        if m * k > 0 && ctx.chance(1, 3) {
            let (i, j) = (ctx.draw(m as u64) as usize, ctx.draw(k as u64) as usize);
            let v = ctx.range(0, 2) as i64 - 1;
            model[(i, j)] = v;
            a[(i, j)] = make(v);
        }
    }
    Ok(())
}

pub fn c21<A: Sc>(ctx: &mut Ctx) -> Res {
    WORLD.with(|w| w.alive.set(0));
    let kind = ctx.draw(6);
    ctx.mixin(kind);
    let r = match kind {
        0 => history(ctx, A::NAME, &|x| A::of(x as f64), &|x: &A| x.raw() as i64, &|a| a),
        // negative zeros are zero, NaN and subnormal numbers are not
        1 => {
            let tiny = A::of(if A::F32 { 1e-44 } else { 5e-324 }).raw();
            history(
                ctx,
                "special numbers",
                &|x| A::of([-0.0, f64::NAN, tiny, f64::INFINITY][(x != 0) as usize * (1 + x.rem_euclid(3) as usize)]),
                &|x: &A| {
                    // read back through the same table, only the class of the number matters
                    if x.raw() == 0.0 {
                        0
                    } else if x.raw().is_nan() {
                        3
                    } else if x.raw() == tiny {
                        1
                    } else {
                        2
                    }
                },
                &|a| a,
            )
        }
        2 => history(ctx, "i64", &|x| x, &|x: &i64| *x, &|a| a),
        3 => history(ctx, "boxed", &|x| Cell21::new(x), &|x: &Cell21| *x.value, &|a| a),
        4 => history(ctx, "boxed in a shared array", &|x| Cell21::new(x), &|x: &Cell21| *x.value, &|a: Array2<Cell21>| a.into_shared()),
        _ => {
            // shared with somebody who must not notice
            let keep: std::cell::RefCell<Vec<ndarray::ArcArray2<A>>> = Default::default();
            let seen: std::cell::RefCell<Vec<Vec<u64>>> = Default::default();
            let r = history(ctx, "copy on write", &|x| A::of(x as f64), &|x: &A| x.raw() as i64, &|a: Array2<A>| {
                let s = a.into_shared();
                keep.borrow_mut().push(s.clone());
                seen.borrow_mut().push(bits2(&s));
                s
            });
            if r.is_ok() {
                for (k, b) in keep.borrow().iter().zip(seen.borrow().iter()) {
                    if bits2(k) != *b {
                        return viol("witness", "a matrix sharing the storage was modified");
                    }
                }
            }
            r
        }
    };
    r?;
    let left = WORLD.with(|w| w.alive.get());
    if left != 0 {
        return viol("elements", format!("{left} elements were dropped too rarely (or, below zero, too often)"));
    }
    ctx.stats.nontrivial = true;
    Ok(())
}
