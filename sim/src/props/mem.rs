//! C10: in-place routines touch exactly the caller's own elements. C12: failed calls are precise and
//! without side effects.

use crate::ctx::{viol, Ctx, Res};
use crate::env::{run_env, EnvCfg, Outcome};
use crate::gen;
use crate::ops::{err_code, run_op, Inputs, OPS};
use crate::oracle::*;
use crate::prng::Prng;
use crate::simf::Sc;
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use crate::rng::SimRng;
use linfa_linalg::eigh::*;
use linfa_linalg::lobpcg::{lobpcg, TruncatedEig, TruncatedSvd};
use linfa_linalg::qr::*;
use linfa_linalg::reflection::Reflection;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::*;
use linfa_linalg::{LinalgError, Order};
use ndarray::{s, Array2, ArrayBase, ArrayViewMut2, ArrayView2, Axis, CowArray, DataMut, Ix2, OwnedRepr, ShapeBuilder, Slice};
use std::panic::AssertUnwindSafe;

/// What a routine delivered, in a form which can be compared across memory layouts
#[derive(Default)]
struct Got {
    code: Vec<u64>,
    mats: Vec<(&'static str, M)>,
    /// product of the factors, to be compared with the original
    product: Option<M>,
    orth: Vec<M>,
}

struct Aux<A: Sc> {
    lo: Array2<A>,
    spd: Array2<A>,
    b: Array2<A>,
    bt: Array2<A>,
    axis: Array2<A>,
    tall: Array2<A>,
    qr: QRDecomp<A, OwnedRepr<A>>,
}

/// Role the varied matrix plays for a routine, which determines its shape and contents
#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    Spd,
    Square,
    Sym,
    Any,
    Tall,
    Wide,
    Rhs,
    RhsTall,
    Split,
    SplitSpd,
}

const IP: [(&str, Role); 29] = [
    ("cholesky_inplace_dirty", Role::Spd),
    ("cholesky_inplace", Role::Spd),
    ("cholesky_into_dirty", Role::Spd),
    ("cholesky_into", Role::Spd),
    ("triangular_inplace upper", Role::Square),
    ("triangular_inplace lower", Role::Square),
    ("into_triangular", Role::Square),
    ("solvec self", Role::Spd),
    ("invc_inplace", Role::Spd),
    ("solve_triangular_inplace lower rhs", Role::Rhs),
    ("solve_triangular_into upper rhs", Role::Rhs),
    ("solvec_inplace rhs", Role::Rhs),
    ("solvec_into rhs", Role::Rhs),
    ("QRDecomp::solve_into rhs", Role::RhsTall),
    ("QRDecomp::solve_tr_into rhs", Role::Rhs),
    ("qr_into", Role::Tall),
    ("qr_into queries", Role::Tall),
    ("least_squares_into tall", Role::Tall),
    ("least_squares_into wide", Role::Wide),
    ("least_squares_into rhs", Role::RhsTall),
    ("svd_into", Role::Any),
    ("eigh_into", Role::Sym),
    ("eigvalsh_into", Role::Sym),
    ("bidiagonal", Role::Any),
    ("sym_tridiagonal", Role::Sym),
    ("reflect_cols", Role::Square),
    ("reflect_rows", Role::Square),
    ("solve_triangular on halves of one buffer", Role::Split),
    ("solvec on halves of one buffer", Role::SplitSpd),
];

fn code<T>(r: &Result<T, LinalgError>) -> Vec<u64> {
    match r {
        Ok(_) => vec![0],
        Err(e) => err_code(e),
    }
}

fn apply<A: Sc, S: DataMut<Elem = A>>(op: usize, mut x: ArrayBase<S, Ix2>, u: &Aux<A>) -> Got {
    let mut g = Got::default();
    match op {
        0 | 1 => {
            g.code = code(&if op == 0 { x.cholesky_inplace_dirty() } else { x.cholesky_inplace() });
            g.mats.push(("self", raw2(&x)));
        }
        2 | 3 => match if op == 2 { x.cholesky_into_dirty() } else { x.cholesky_into() } {
            Ok(x) => g.mats.push(("result", raw2(&x))),
            Err(e) => g.code = err_code(&e),
        },
        4 | 5 => {
            g.code = code(&x.triangular_inplace(if op == 4 { UPLO::Upper } else { UPLO::Lower }));
            g.mats.push(("self", raw2(&x)));
        }
        6 => match x.into_triangular(UPLO::Upper) {
            Ok(x) => g.mats.push(("result", raw2(&x))),
            Err(e) => g.code = err_code(&e),
        },
        7 => {
            match x.solvec(&u.b) {
                Ok(r) => g.mats.push(("solution", raw2(&r))),
                Err(e) => g.code = err_code(&e),
            }
            g.mats.push(("self", raw2(&x)));
        }
        8 => match x.invc_inplace() {
            Ok(r) => {
                g.mats.push(("inverse", raw2(&r)));
                g.mats.push(("self", raw2(&x)));
            }
            Err(e) => g.code = err_code(&e),
        },
        9 => {
            g.code = code(&u.lo.solve_triangular_inplace(&mut x, UPLO::Lower));
            g.mats.push(("rhs", raw2(&x)));
        }
        10 => match u.lo.t().solve_triangular_into(x, UPLO::Upper) {
            Ok(x) => g.mats.push(("rhs", raw2(&x))),
            Err(e) => g.code = err_code(&e),
        },
        11 => {
            let mut a = u.spd.clone();
            g.code = code(&a.solvec_inplace(&mut x));
            g.mats.push(("rhs", raw2(&x)));
        }
        12 => match u.spd.clone().solvec_into(x) {
            Ok(x) => g.mats.push(("rhs", raw2(&x))),
            Err(e) => g.code = err_code(&e),
        },
        13 => match u.qr.solve_into(x) {
            Ok(x) => g.mats.push(("solution", raw2(&x))),
            Err(e) => g.code = err_code(&e),
        },
        14 => match u.qr.solve_tr_into(x) {
            Ok(x) => g.mats.push(("solution", raw2(&x))),
            Err(e) => g.code = err_code(&e),
        },
        15 => match x.qr_into() {
            Ok(d) => {
                let (q, r) = d.into_decomp();
                let (q, r) = (raw2(&q), raw2(&r));
                g.product = Some(mul(&q, &r));
                g.orth.push(q);
                g.mats.push(("R", r));
            }
            Err(e) => g.code = err_code(&e),
        },
        16 => match x.qr_into() {
            Ok(d) => {
                let q = raw2(&d.generate_q());
                for r in [d.solve(&u.bt), d.solve_tr(&u.b)] {
                    match r {
                        Ok(r) => g.mats.push(("solution", raw2(&r))),
                        Err(e) => g.code = err_code(&e),
                    }
                }
                let r = raw2(&d.into_r());
                g.product = Some(mul(&q, &r));
                g.orth.push(q);
            }
            Err(e) => g.code = err_code(&e),
        },
        17 | 18 => match x.least_squares_into(if op == 17 { u.bt.clone() } else { u.b.clone() }) {
            Ok(r) => g.mats.push(("solution", raw2(&r))),
            Err(e) => g.code = err_code(&e),
        },
        19 => match u.tall.clone().least_squares_into(x) {
            Ok(r) => g.mats.push(("solution", raw2(&r))),
            Err(e) => g.code = err_code(&e),
        },
        20 => match x.svd_into(true, true) {
            Ok((a, s, b)) => {
                let (a, b) = (raw2(&a.unwrap()), raw2(&b.unwrap()));
                g.product = Some(mul(&mul(&a, &diag(&raw1(&s))), &b));
                g.orth = vec![a, tr(&b)];
            }
            Err(e) => g.code = err_code(&e),
        },
        21 => match x.eigh_into() {
            Ok((l, v)) => {
                let v = raw2(&v);
                g.product = Some(mul(&mul(&v, &diag(&raw1(&l))), &tr(&v)));
                g.orth = vec![v];
            }
            Err(e) => g.code = err_code(&e),
        },
        22 => match x.eigvalsh_into() {
            Ok(l) => {
                let mut l = raw1(&l);
                l.sort_by(|a, b| a.total_cmp(b));
                g.mats.push(("eigenvalues", M::from_shape_vec((l.len(), 1), l).unwrap()));
            }
            Err(e) => g.code = err_code(&e),
        },
        23 => match x.bidiagonal() {
            Ok(d) => {
                let (a, b) = (raw2(&d.generate_u()), raw2(&d.generate_vt()));
                g.product = Some(mul(&mul(&a, &raw2(&d.into_b())), &b));
                g.orth = vec![a, tr(&b)];
            }
            Err(e) => g.code = err_code(&e),
        },
        24 => match x.sym_tridiagonal() {
            Ok(d) => {
                let q = raw2(&d.generate_q());
                let t = raw2(&d.into_tridiag_matrix());
                g.product = Some(mul(&mul(&q, &t), &tr(&q)));
                g.orth = vec![q];
            }
            Err(e) => g.code = err_code(&e),
        },
        25 | 26 => {
            let r = Reflection::new(u.axis.column(0), A::zero());
            if op == 25 {
                r.reflect_cols(&mut x)
            } else {
                r.reflect_rows(&mut x)
            }
            g.mats.push(("self", raw2(&x)));
        }
        _ => {
            let n = x.nrows();
            {
                let (mut a, mut b) = x.multi_slice_mut((s![.., ..n], s![.., n..]));
                g.code = if op == 27 {
                    code(&a.solve_triangular_inplace(&mut b, UPLO::Lower))
                } else {
                    code(&a.solvec_inplace(&mut b))
                };
            }
            g.mats.push(("both halves", raw2(&x)));
        }
    }
    g
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Store {
    C,
    F,
    /// window in a bigger buffer: offsets, steps (may be negative), transposed
    View(usize, usize, isize, isize, bool),
    ArcShared,
    ArcUnique,
    ArcWindow(usize, usize, isize, isize, bool),
    CowBorrowed(usize, usize, isize, isize, bool),
    CowOwned,
}

fn store(ctx: &mut Ctx) -> Store {
    let kind = ctx.draw(10);
    let step = [1isize, -1, 2, -2, 3];
    let w = (ctx.range(0, 2), ctx.range(0, 2), ctx.pick(&step), ctx.pick(&step), ctx.chance(1, 3));
    match kind {
        0 => Store::C,
        1 => Store::F,
        2..=4 => Store::View(w.0, w.1, w.2, w.3, w.4),
        5 => Store::ArcShared,
        6 => Store::ArcUnique,
        7 => Store::ArcWindow(w.0, w.1, w.2, w.3, w.4),
        8 => Store::CowBorrowed(w.0, w.1, w.2, w.3, w.4),
        _ => Store::CowOwned,
    }
}

/// A buffer full of canaries with room for the window, and the window
fn buffer<A: Sc>(d: (usize, usize), w: (usize, usize, isize, isize, bool), seed: u64) -> Array2<A> {
    let (m, k) = if w.4 { (d.1, d.0) } else { d };
    let rows = w.0 + m * w.2.unsigned_abs() + 2;
    let cols = w.1 + k * w.3.unsigned_abs() + 2;
    let mut r = Prng::new(seed ^ 0xca4a);
    Array2::from_shape_fn((rows, cols), |_| A::of(1000.0 + (r.below(1 << 20) as f64) / 1024.0))
}
fn slices(d: (usize, usize), w: (usize, usize, isize, isize, bool)) -> (Slice, Slice) {
    let (m, k) = if w.4 { (d.1, d.0) } else { d };
    let a = Slice::new(w.0 as isize, Some((w.0 + m * w.2.unsigned_abs()) as isize), w.2);
    let b = Slice::new(w.1 as isize, Some((w.1 + k * w.3.unsigned_abs()) as isize), w.3);
    (a, b)
}
fn window_mut<A>(b: &mut Array2<A>, d: (usize, usize), w: (usize, usize, isize, isize, bool)) -> ArrayViewMut2<'_, A> {
    let (p, q) = slices(d, w);
    let mut v = b.view_mut();
    v.slice_axis_inplace(Axis(0), p);
    v.slice_axis_inplace(Axis(1), q);
    if w.4 {
        v = v.reversed_axes();
    }
    v
}
fn window<A>(b: &Array2<A>, d: (usize, usize), w: (usize, usize, isize, isize, bool)) -> ArrayView2<'_, A> {
    let (p, q) = slices(d, w);
    let mut v = b.view();
    v.slice_axis_inplace(Axis(0), p);
    v.slice_axis_inplace(Axis(1), q);
    if w.4 {
        v = v.reversed_axes();
    }
    v
}

/// Runs the routine on the matrix in the given storage; checks everything around and behind it
fn stored<A: Sc>(st: Store, op: usize, data: &Array2<A>, u: &Aux<A>, cfg: &EnvCfg, seed: u64) -> Result<(Outcome<Got>, u64), crate::ctx::V> {
    let d = data.dim();
    let name = IP[op].0;
    let witness = |what: &str, before: &[u64], after: &[u64]| -> Res {
        if before == after {
            Ok(())
        } else {
            viol("witness", format!("{name} modified {what}"))
        }
    };
    let run = |f: &mut dyn FnMut() -> Got| {
        let (o, r) = run_env(cfg, AssertUnwindSafe(f));
        (o, r.ops)
    };
    Ok(match st {
        Store::C => {
            let mut x = Some(data.clone());
            run(&mut || apply(op, x.take().unwrap(), u))
        }
        Store::F => {
            let mut f = Array2::from_elem(d.f(), A::zero());
            f.assign(data);
            let mut x = Some(f);
            run(&mut || apply(op, x.take().unwrap(), u))
        }
        Store::View(a, b, c, e, t) => {
            let w = (a, b, c, e, t);
            let mut buf = buffer::<A>(d, w, seed);
            window_mut(&mut buf, d, w).assign(data);
            let before = buf.clone();
            let r = {
                let mut x = Some(window_mut(&mut buf, d, w));
                run(&mut || apply(op, x.take().unwrap(), u))
            };
            // neutralise the window in both and compare the rest
            let mut x = before.clone();
            window_mut(&mut x, d, w).fill(A::zero());
            window_mut(&mut buf, d, w).fill(A::zero());
            witness("elements of the buffer outside of the view", &bits2(&x), &bits2(&buf))?;
            r
        }
        Store::ArcShared => {
            let keep = data.clone().into_shared();
            let other = keep.clone();
            let before = bits2(&keep);
            let mut x = Some(keep.clone());
            let r = run(&mut || apply(op, x.take().unwrap(), u));
            drop(x);
            witness("a matrix sharing the storage", &before, &bits2(&keep))?;
            witness("a second matrix sharing the storage", &before, &bits2(&other))?;
            r
        }
        Store::ArcUnique => {
            let mut x = Some(data.clone().into_shared());
            run(&mut || apply(op, x.take().unwrap(), u))
        }
        Store::ArcWindow(a, b, c, e, t) => {
            let w = (a, b, c, e, t);
            let mut buf = buffer::<A>(d, w, seed);
            window_mut(&mut buf, d, w).assign(data);
            let keep = buf.into_shared();
            let before = bits2(&keep);
            let (p, q) = slices(d, w);
            let mut x = keep.clone();
            x.slice_axis_inplace(Axis(0), p);
            x.slice_axis_inplace(Axis(1), q);
            let mut x = Some(if t { x.reversed_axes() } else { x });
            let r = run(&mut || apply(op, x.take().unwrap(), u));
            witness("the matrix its storage is shared with", &before, &bits2(&keep))?;
            r
        }
        Store::CowBorrowed(a, b, c, e, t) => {
            let w = (a, b, c, e, t);
            let mut buf = buffer::<A>(d, w, seed);
            window_mut(&mut buf, d, w).assign(data);
            let before = bits2(&buf);
            let r = {
                let mut x = Some(CowArray::from(window(&buf, d, w)));
                run(&mut || apply(op, x.take().unwrap(), u))
            };
            witness("the data it borrowed", &before, &bits2(&buf))?;
            r
        }
        Store::CowOwned => {
            let mut x = Some(CowArray::from(data.clone()));
            run(&mut || apply(op, x.take().unwrap(), u))
        }
    })
}

fn operand<A: Sc>(ctx: &mut Ctx, role: Role, n: usize, extra: usize, cols: usize) -> M {
    match role {
        Role::Spd => gen::spd(ctx, n),
        Role::Square => gen::well(ctx, n, n),
        Role::Sym => gen::symmetric_tame(ctx, n),
        Role::Any => {
            let (m, k) = if ctx.chance(1, 2) { (n + extra, n) } else { (n, n + extra) };
            gen::well(ctx, m, k)
        }
        Role::Tall => gen::well(ctx, n + extra, n),
        Role::Wide => gen::well(ctx, n, n + extra),
        Role::Rhs => gen::randm(ctx, n, cols),
        Role::RhsTall => gen::randm(ctx, n + extra, cols),
        Role::Split | Role::SplitSpd => {
            let a = if role == Role::Split { lower(&gen::well(ctx, n, n)) } else { gen::spd(ctx, n) };
            let b = gen::randm(ctx, n, cols);
            M::from_shape_fn((n, n + cols), |(i, j)| if j < n { a[(i, j)] } else { b[(i, j - n)] })
        }
    }
}

pub fn lower(a: &M) -> M {
    M::from_shape_fn(a.dim(), |(i, j)| if j <= i { a[(i, j)] } else { 0.0 })
}

pub fn c10<A: Sc>(ctx: &mut Ctx) -> Res {
    let n = gen::size(ctx, 1, 6, 14);
    let extra = ctx.range(0, 3);
    let cols = ctx.range(1, 3);
    let tall: Array2<A> = to_sc(&gen::well(ctx, n + extra, n));
    let axis = mgs(&gen::randm(ctx, n, 1));
    let u = Aux::<A> {
        lo: to_sc(&lower(&gen::well(ctx, n, n))),
        spd: to_sc(&gen::spd(ctx, n)),
        b: to_sc(&gen::randm(ctx, n, cols)),
        bt: to_sc(&gen::randm(ctx, n + extra, cols)),
        axis: to_sc(&axis),
        qr: tall.qr().unwrap(),
        tall,
    };
    let auxbits = |u: &Aux<A>| [bits2(&u.lo), bits2(&u.spd), bits2(&u.b), bits2(&u.bt), bits2(&u.axis), bits2(&u.tall)].concat();
    let before = auxbits(&u);
    for _ in 0..ctx.range(1, 3) {
        let op = ctx.draw(IP.len() as u64) as usize;
        let (name, role) = IP[op];
        let data0 = operand::<A>(ctx, role, n, extra, cols);
        let data: Array2<A> = to_sc(&data0);
        let st = store(ctx);
        let mut cfg = gen::env(ctx);
        cfg.budget = 50_000_000;
        let seed = ctx.seed();
        ctx.note(format!("{} {name} on {:?} {st:?} {:?}", A::NAME, data.dim(), cfg.round));
        ctx.hit(&format!("op.{name}"));
        ctx.hit(&format!("storage.{}", format!("{st:?}").split('(').next().unwrap()));
        ctx.mixs(name);
        ctx.mixs(&format!("{st:?}"));
        // on a plain copy
        let (o, plain_ops) = stored(Store::C, op, &data, &u, &cfg, seed)?;
        ctx.stats.ops += plain_ops;
        let Outcome::Done(want) = o else { return viol("plain", format!("{name} on a plain copy: {}", o.label())) };
        let (o, ops) = stored(st, op, &data, &u, &cfg, seed)?;
        let got = match o {
            Outcome::Done(g) => g,
            o => return viol("panic", format!("{name} on {st:?}: {}", o.label())),
        };
        ctx.stats.nontrivial = true;
        if got.code != want.code {
            return viol("outcome", format!("{name} on {st:?}: result code {:?}, on a plain copy {:?}", got.code, want.code));
        }
        let t = 600.0 * (n + extra) as f64 * A::U;
        for ((what, g), (_, w)) in got.mats.iter().zip(&want.mats) {
            ctx.limit("same-result", dist(g, w), t * 4.0 * amax(w).max(1.0), || format!("{name} on {st:?}: {what} differs from the plain copy"))?;
        }
        for g in [&got, &want] {
            if let Some(p) = &g.product {
                ctx.limit("product", dist(p, &data0), t * amax(&data0), || format!("{name} on {st:?}: the factors do not reproduce the matrix"))?;
            }
            for q in &g.orth {
                ctx.limit("orthonormal", orth(q), t, || format!("{name} on {st:?}"))?;
            }
        }
        // the documented triangle contract
        if op <= 3 {
            let g = &got.mats[0].1;
            for i in 0..n {
                for j in i + 1..n {
                    let w = if op % 2 == 0 { data[(i, j)].raw() } else { 0.0 };
                    if g[(i, j)] != w {
                        return viol("triangle", format!("{name} on {st:?}: element ({i}, {j}) of the upper triangle is {} instead of {w}", g[(i, j)]));
                    }
                }
            }
            // the upper triangle is not read: same factor, bit by bit, with rubbish in there
            let mut rub = data.clone();
            for i in 0..n {
                for j in i + 1..n {
                    rub[(i, j)] = A::of(if (i + j) % 2 == 0 { f64::NAN } else { 1e3 });
                }
            }
            match stored(st, op, &rub, &u, &cfg, seed)?.0 {
                Outcome::Done(r) if r.code == got.code => {
                    if (0..n).any(|i| (0..=i).any(|j| r.mats[0].1[(i, j)].to_bits() != g[(i, j)].to_bits())) {
                        return viol("triangle", format!("{name} on {st:?} depends on the upper triangle"));
                    }
                }
                _ => return viol("triangle", format!("{name} on {st:?}: outcome depends on the upper triangle")),
            }
        }
        if (4..=6).contains(&op) {
            let g = &got.mats[0].1;
            for i in 0..n {
                for j in 0..n {
                    let keep = i == j || (if op == 5 { j < i } else { j > i });
                    let w = if keep { data[(i, j)].raw() } else { 0.0 };
                    if g[(i, j)] != w {
                        return viol("triangle", format!("{name} on {st:?}: element ({i}, {j})"));
                    }
                }
            }
        }
        // cut short
        if A::SIM && ops > 0 {
            for _ in 0..ctx.range(1, 3) {
                let at = ctx.draw(ops);
                let c = EnvCfg { crash_at: Some(at), ..cfg };
                match stored(st, op, &data, &u, &c, seed)?.0 {
                    Outcome::Crashed => ctx.hit("fault.crash-at-step"),
                    Outcome::Done(_) => {}
                    o => return viol("panic", format!("{name} on {st:?} cut short at {at}: {}", o.label())),
                }
            }
        }
        if auxbits(&u) != before {
            return viol("witness", format!("{name} modified an operand passed by reference"));
        }
    }
    Ok(())
}

/// One failing request: description, expected error code, execution
struct Bad<'a> {
    what: &'static str,
    want: Vec<u64>,
    run: Box<dyn FnMut() -> Vec<u64> + 'a>,
}

/// An error without a result
fn lob_err<A: Sc>(r: linfa_linalg::lobpcg::LobpcgResult<A>, untouched: bool) -> Vec<u64> {
    let mut v = match r {
        Err((e, None)) => err_code(&e),
        Err((e, Some(_))) => [err_code(&e), vec![u64::MAX]].concat(),
        Ok(_) => vec![0],
    };
    v.push(untouched as u64);
    v
}

fn rc<T>(r: Result<T, LinalgError>) -> Vec<u64> {
    code(&r)
}

pub fn c12<A: Sc>(ctx: &mut Ctx) -> Res {
    let max = if ctx.chance(1, 60) { 24 } else { 5 };
    let i = Inputs::<A>::gen(ctx, max);
    let before = i.digest();
    let mut cfg = gen::env(ctx);
    cfg.budget = 50_000_000;
    let n = i.sq.nrows();
    for _ in 0..ctx.range(1, 3) {
        failing(ctx, &i, &cfg)?;
        pivots::<A>(ctx, &cfg)?;
        // what follows a failed call is as if it had not been made
        let op = ctx.draw(OPS.len() as u64) as usize;
        let (a, rep) = run_env(&cfg, AssertUnwindSafe(|| run_op(op, &i)));
        ctx.stats.ops += rep.ops;
        let b = crate::sched::on_fresh_thread(|| run_env(&cfg, AssertUnwindSafe(|| run_op(op, &i))).0);
        match (a, b) {
            (Outcome::Done(a), Outcome::Done(b)) if a == b => {}
            (a, _) => return viol("afterwards", format!("{} after failed calls: {}", OPS[op], a.label())),
        }
        if i.digest() != before {
            return viol("operand", "a failed call modified an operand passed by reference");
        }
    }
    ctx.mixin(n as u64);
    ctx.stats.nontrivial = true;
    Ok(())
}

fn failing<A: Sc>(ctx: &mut Ctx, i: &Inputs<A>, cfg: &EnvCfg) -> Res {
    let n = i.sq.nrows();
    let (r, c) = {
        let r = ctx.range(0, 4);
        let d = ctx.range(1, 3);
        if ctx.chance(1, 2) {
            (r + d, r)
        } else {
            (r, r + d)
        }
    };
    let rect: Array2<A> = {
        let x = to_sc(&gen::randm(ctx, r, c));
        gen::lay(ctx, x)
    };
    let rect2: Array2<A> = {
        let x = to_sc(&gen::randm(ctx, r, 2));
        gen::lay(ctx, x)
    };
    let bad_rows = {
        let d = ctx.range(1, 2);
        if ctx.chance(1, 2) && n >= d {
            n - d
        } else {
            n + d
        }
    };
    let wb: Array2<A> = {
        let x = to_sc(&gen::randm(ctx, bad_rows, 2));
        gen::lay(ctx, x)
    };
    let tr_ = i.tall.nrows();
    let bad_t = if bad_rows < n { tr_ - 1 } else { tr_ + 1 };
    let wbt: Array2<A> = {
        let x = to_sc(&gen::randm(ctx, bad_t, 2));
        gen::lay(ctx, x)
    };
    let not_square = vec![1, r as u64, c as u64];
    let wrong = |e: usize, a: usize| vec![7, e as u64, a as u64];
    let (wide, thin) = if r < c { (rect.clone(), rect.t().to_owned()) } else { (rect.t().to_owned(), rect.clone()) };
    let mut square_rect = rect.clone();
    let mut keep = wb.clone();
    let keep_ref = bits2(&wb);
    let rect_ref = bits2(&rect);
    let which = ctx.draw(39);
    let (big, extra) = (n + ctx.range(1, 2), ctx.draw(2) == 0);
    let mut keep_t = wbt.clone();
    let keep_t_ref = bits2(&wbt);
    let mut keep_b = i.b.clone();
    let keep_b_ref = bits2(&i.b);
    let not_thin = vec![2, n as u64, big as u64];
    let wide_start: Array2<A> = {
        let x = to_sc(&gen::randm(ctx, n, big));
        gen::lay(ctx, x)
    };
    let start_seed = ctx.seed();
    let sq = &rect;
    // in-place variants also report whether their operands are bitwise what they were
    let same = |a: &Array2<A>, b: &[u64], mut code: Vec<u64>| {
        code.push((bits2(a) == b) as u64);
        code
    };
    let then = |mut v: Vec<u64>| {
        v.push(1);
        v
    };
    let mut bad = match which {
        0 => Bad { what: "cholesky of a non-square matrix", want: not_square, run: Box::new(|| rc(sq.cholesky())) },
        1 => Bad { what: "cholesky_dirty of a non-square matrix", want: not_square, run: Box::new(|| rc(sq.cholesky_dirty())) },
        2 => Bad { what: "cholesky_inplace of a non-square matrix", want: then(not_square), run: Box::new(|| {
            let e = rc(square_rect.cholesky_inplace());
            same(&square_rect, &rect_ref, e)
        }) },
        3 => Bad { what: "cholesky_inplace_dirty of a non-square matrix", want: then(not_square), run: Box::new(|| {
            let e = rc(square_rect.cholesky_inplace_dirty());
            same(&square_rect, &rect_ref, e)
        }) },
        4 => Bad { what: "solvec with a non-square matrix", want: then(then(not_square)), run: Box::new(|| {
            let mut b = rect2.clone();
            let e = rc(square_rect.solvec_inplace(&mut b));
            same(&b, &bits2(&rect2), same(&square_rect, &rect_ref, e))
        }) },
        5 => Bad { what: "invc of a non-square matrix", want: not_square, run: Box::new(|| rc(sq.invc())) },
        6 => Bad { what: "solve_triangular with a non-square matrix", want: then(not_square), run: Box::new(|| {
            let mut b = rect2.clone();
            let e = rc(sq.solve_triangular_inplace(&mut b, UPLO::Lower));
            same(&b, &bits2(&rect2), e)
        }) },
        7 => Bad { what: "triangular_inplace of a non-square matrix", want: then(not_square), run: Box::new(|| {
            let e = rc(square_rect.triangular_inplace(UPLO::Upper));
            same(&square_rect, &rect_ref, e)
        }) },
        8 => Bad { what: "triangular_inplace lower of a non-square matrix", want: then(not_square), run: Box::new(|| {
            let e = rc(square_rect.triangular_inplace(UPLO::Lower));
            same(&square_rect, &rect_ref, e)
        }) },
        9 => Bad { what: "eigh of a non-square matrix", want: not_square, run: Box::new(|| rc(sq.eigh())) },
        10 => Bad { what: "eigvalsh of a non-square matrix", want: not_square, run: Box::new(|| rc(sq.eigvalsh())) },
        11 => Bad { what: "sym_tridiagonal of a non-square matrix", want: not_square, run: Box::new(|| rc(sq.clone().sym_tridiagonal())) },
        12 => Bad { what: "qr of a wide matrix", want: vec![2, wide.nrows() as u64, wide.ncols() as u64], run: Box::new(|| rc(wide.qr())) },
        13 => Bad { what: "qr_into of a wide matrix", want: vec![2, wide.nrows() as u64, wide.ncols() as u64], run: Box::new(|| rc(wide.clone().qr_into())) },
        14 => Bad { what: "inverse of a thin QR decomposition", want: vec![1, thin.nrows() as u64, thin.ncols() as u64], run: Box::new(|| rc(thin.qr().and_then(|d| d.inverse()))) },
        15 => Bad { what: "QR solve with the wrong number of rows", want: wrong(tr_, bad_t), run: Box::new(|| rc(i.qr.solve(&wbt))) },
        16 => Bad { what: "QR solve_tr with the wrong number of rows", want: wrong(n, bad_rows), run: Box::new(|| rc(i.qr.solve_tr(&wb))) },
        17 => Bad { what: "least squares with the wrong number of rows", want: wrong(tr_, bad_t), run: Box::new(|| rc(i.tall.clone().least_squares(&wbt))) },
        18 => Bad { what: "least squares (wide) with the wrong number of rows", want: wrong(n, bad_rows), run: Box::new(|| rc(i.tall.t().to_owned().least_squares(&wb))) },
        19 => Bad { what: "QR solve of a singular matrix", want: vec![4], run: Box::new(|| rc(i.sing.qr().and_then(|d| d.solve(&i.b)))) },
        20 => Bad { what: "QR solve_tr of a singular matrix", want: vec![4], run: Box::new(|| rc(i.sing.qr().and_then(|d| d.solve_tr(&i.b)))) },
        21 => Bad { what: "inverse of a singular matrix", want: vec![4], run: Box::new(|| rc(i.sing.qr().and_then(|d| d.inverse()))) },
        22 => Bad { what: "least squares of a singular matrix", want: vec![4], run: Box::new(|| rc(i.sing.clone().least_squares(&i.b))) },
        23 => Bad { what: "solve_triangular with the wrong number of rows", want: then(wrong(n, bad_rows)), run: Box::new(|| {
            let e = rc(i.lo.solve_triangular_inplace(&mut keep, UPLO::Lower));
            same(&keep, &keep_ref, e)
        }) },
        24 => Bad { what: "solve_triangular upper with the wrong number of rows", want: then(wrong(n, bad_rows)), run: Box::new(|| {
            let e = rc(i.lo.t().solve_triangular_inplace(&mut keep, UPLO::Upper));
            same(&keep, &keep_ref, e)
        }) },
        25 => Bad { what: "solvec with the wrong number of rows", want: then(wrong(n, bad_rows)), run: Box::new(|| {
            let e = rc(i.spd.clone().solvec_inplace(&mut keep));
            same(&keep, &keep_ref, e)
        }) },
        26 => Bad { what: "solvec of an indefinite matrix", want: then(vec![3]), run: Box::new(|| {
            let mut b = i.b.clone();
            let e = rc(i.npd.clone().solvec_inplace(&mut b));
            same(&b, &bits2(&i.b), e)
        }) },
        27 => Bad { what: "invc of an indefinite matrix", want: vec![3], run: Box::new(|| rc(i.npd.invc())) },
        28 => Bad { what: "svd of an empty matrix", want: vec![5], run: Box::new(|| rc(Array2::<A>::zeros((r.min(c), 0)).svd(true, true))) },
        29 => Bad { what: "bidiagonal of an empty matrix", want: vec![5], run: Box::new(|| rc(Array2::<A>::zeros((0, c)).bidiagonal())) },
        30 => Bad { what: "QR solve_into of a singular matrix, right-hand side in a view", want: then(vec![4]), run: Box::new(|| {
            let d = i.sing.qr().unwrap();
            let e = rc(d.solve_into(keep_b.view_mut()));
            same(&keep_b, &keep_b_ref, e)
        }) },
        31 => Bad { what: "QR solve_tr_into of a singular matrix, right-hand side in a view", want: then(vec![4]), run: Box::new(|| {
            let d = i.sing.qr().unwrap();
            let e = rc(d.solve_tr_into(keep_b.view_mut()));
            same(&keep_b, &keep_b_ref, e)
        }) },
        32 => Bad { what: "QR solve_into with the wrong number of rows, right-hand side in a view", want: then(wrong(tr_, bad_t)), run: Box::new(|| {
            let e = rc(i.qr.solve_into(keep_t.view_mut()));
            same(&keep_t, &keep_t_ref, e)
        }) },
        33 => Bad { what: "QR solve_tr_into with the wrong number of rows, right-hand side in a view", want: then(wrong(n, bad_rows)), run: Box::new(|| {
            let e = rc(i.qr.solve_tr_into(keep.view_mut()));
            same(&keep, &keep_ref, e)
        }) },
        34 => Bad { what: "lobpcg with a start block which is not thin", want: then(not_thin), run: Box::new(|| {
            let called = std::cell::Cell::new(false);
            let r = lobpcg(
                |x| {
                    called.set(true);
                    i.sym.dot(&x)
                },
                wide_start.clone(),
                |_| called.set(true),
                extra.then(|| i.y.view()),
                1e-4,
                5,
                Order::Largest,
            );
            lob_err(r, !called.get())
        }) },
        35 => Bad { what: "lobpcg with a zero start block", want: vec![3, 1], run: Box::new(|| {
            let r = lobpcg(|x| i.sym.dot(&x), Array2::zeros(i.x0.dim()), |_| {}, None, 1e-4, 5, Order::Smallest);
            lob_err(r, true)
        }) },
        36 => Bad { what: "TruncatedEig asked for more pairs than there are", want: then(not_thin), run: Box::new(|| {
            let mut t = TruncatedEig::new_with_rng(i.sym.clone(), Order::Largest, SimRng::new(start_seed));
            if extra {
                t = t.orthogonal_to(i.y.clone());
            }
            lob_err(t.decompose(big), true)
        }) },
        37 => Bad { what: "TruncatedSvd asked for more triplets than there are", want: vec![2, i.tall.ncols() as u64, big as u64], run: Box::new(|| {
            let a = if extra { i.tall.clone() } else { i.tall.t().to_owned() };
            let t = TruncatedSvd::new_with_rng(a, Order::Largest, SimRng::new(start_seed));
            rc(t.decompose(big).map(|_| ()))
        }) },
        _ => Bad { what: "sym_tridiagonal of an empty matrix", want: vec![5], run: Box::new(|| rc(Array2::<A>::zeros((0, 0)).sym_tridiagonal())) },
    };
    ctx.note(format!("{} {} ({r}x{c}, {n}, {bad_rows}) {:?}", A::NAME, bad.what, cfg.round));
    ctx.hit(&format!("error.{}", bad.what));
    ctx.mixin(which);
    let (o, rep) = run_env(cfg, AssertUnwindSafe(|| (bad.run)()));
    ctx.stats.ops += rep.ops;
    match o {
        Outcome::Done(e) if e == bad.want => Ok(()),
        Outcome::Done(e) => viol("error", format!("{}: result code {e:?} instead of {:?}", bad.what, bad.want)),
        o => viol("panic", format!("{}: {}", bad.what, o.label())),
    }
}

/// Definiteness breaks, or an element becomes NaN, at an arbitrary place
fn pivots<A: Sc>(ctx: &mut Ctx, cfg: &EnvCfg) -> Res {
    let n = gen::size(ctx, 1, 7, 20);
    let kind = ctx.draw(3);
    let p = ctx.range(0, n - 1);
    let (a, what) = match kind {
        0 => {
            let mut a = gen::spd(ctx, n);
            let q = ctx.range(0, p);
            a[(p, q)] = f64::NAN;
            (a, "NaN in the lower triangle")
        }
        1 => {
            // exact arithmetic: integer L, squares as pivots, one of them zero or negative
            let l = M::from_shape_fn((n, n), |(i, j)| {
                if i == j {
                    1.0
                } else if j < i {
                    ctx.draw(5) as f64 - 2.0
                } else {
                    0.0
                }
            });
            let mut d: Vec<f64> = (0..n).map(|_| ctx.pick(&[1.0, 4.0, 9.0])).collect();
            d[p] = ctx.pick(&[0.0, -1.0, -4.0]);
            (mul(&mul(&l, &diag(&d)), &tr(&l)), "an exactly zero or negative pivot")
        }
        _ => {
            // lower the diagonal until the Schur complement is clearly negative
            let mut a = gen::spd(ctx, n);
            let l = reference_chol(&a);
            let pivot = l[(p, p)] * l[(p, p)];
            a[(p, p)] -= pivot * (1.25 + ctx.draw(4) as f64);
            (a, "a clearly negative pivot")
        }
    };
    let x: Array2<A> = to_sc(&a);
    let bits = bits2(&x);
    let b: Array2<A> = {
        let x = to_sc(&gen::randm(ctx, n, 2));
        gen::lay(ctx, x)
    };
    let bb = bits2(&b);
    ctx.hit(&format!("fault.{what}"));
    ctx.note(format!("{} {what} at {p} of {n}", A::NAME));
    let (o, rep) = run_env(
        cfg,
        AssertUnwindSafe(|| {
            let mut rhs = b.clone();
            let codes = vec![
                rc(x.cholesky()),
                rc(x.cholesky_dirty()),
                rc(x.clone().cholesky_into()),
                rc(x.clone().cholesky_into_dirty()),
                rc(x.clone().cholesky_inplace()),
                rc(x.clone().cholesky_inplace_dirty()),
                rc(x.clone().solvec(&b)),
                rc(x.clone().solvec_inplace(&mut rhs)),
                rc(x.invc()),
            ];
            (codes, bits2(&rhs))
        }),
    );
    ctx.stats.ops += rep.ops;
    match o {
        Outcome::Done((codes, rhs)) => {
            if let Some(k) = codes.iter().position(|c| *c != vec![3]) {
                return viol("accepted", format!("{what} at {p}: variant {k} returned {:?}", codes[k]));
            }
            if rhs != bb {
                return viol("operand", format!("{what} at {p}: the right-hand side was modified by the failed solve"));
            }
        }
        o => return viol("panic", format!("{what}: {}", o.label())),
    }
    if bits2(&x) != bits {
        return viol("operand", "cholesky modified its operand");
    }
    Ok(())
}

pub fn reference_chol(a: &M) -> M {
    let n = a.nrows();
    let mut l = M::zeros((n, n));
    for j in 0..n {
        for i in j..n {
            let s: f64 = (0..j).map(|k| l[(i, k)] * l[(j, k)]).sum();
            l[(i, j)] = if i == j { (a[(i, i)] - s).max(0.0).sqrt() } else { (a[(i, j)] - s) / l[(j, j)] };
        }
    }
    l
}
