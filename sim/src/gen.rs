//! Workload generation. All elements are exactly representable in f32.

use crate::ctx::Ctx;
use crate::env::{EnvCfg, Round};
use crate::oracle::{mgs, mul, tr, M};
use crate::prng::Prng;
use ndarray::{s, Array2, Axis, ShapeBuilder};

fn f32r(x: f64) -> f64 {
    x as f32 as f64
}

pub const KINDS: usize = 16;

/// Element distributions, from plain to nasty
pub fn general(ctx: &mut Ctx, m: usize, k: usize) -> M {
    let kind = ctx.draw(KINDS as u64) as usize;
    let a = general_kind(ctx, m, k, kind);
    ctx.note(format!("matrix {m}x{k} kind {kind}"));
    ctx.mixin(kind as u64);
    a
}

fn elems(ctx: &mut Ctx, m: usize, k: usize, n: u64, f: impl Fn(u64) -> f64) -> M {
    // small matrices are drawn element by element (good for minimisation), others from a seed
    if m * k <= 36 {
        M::from_shape_fn((m, k), |_| f(ctx.draw(n)))
    } else {
        let mut r = Prng::new(ctx.seed());
        M::from_shape_fn((m, k), |_| f(r.below(n)))
    }
}

fn small(v: u64) -> f64 {
    // 0, 1, -1, 2, -2 ...
    let h = v.div_ceil(2) as f64;
    if v % 2 == 1 {
        h
    } else {
        -h + 0.0
    }
}

/// Larger matrices in condensed form
pub fn condensed(ctx: &mut Ctx) -> M {
    let n = ctx.range(6, 18);
    let (m, k) = match ctx.draw(6) {
        0 => (n, n + ctx.range(1, 3)),
        1 => (n + ctx.range(1, 3), n),
        _ => (n, n),
    };
    let kind = [14, 15, 15, 16][ctx.draw(4) as usize];
    ctx.note(format!("matrix {m}x{k} kind {kind}"));
    ctx.mixin(kind as u64);
    general_kind(ctx, m, k, kind)
}

/// The same for symmetric matrices
pub fn condensed_symmetric(ctx: &mut Ctx) -> M {
    let n = ctx.range(6, 18);
    let kind = [14, 15, 15, 16][ctx.draw(4) as usize];
    ctx.note(format!("symmetric {n}x{n} kind {kind}"));
    ctx.mixin(kind as u64);
    let mut a = general_kind(ctx, n, n, kind);
    for i in 0..n {
        for j in 0..i {
            // whichever of the two is there
            let x = if a[(i, j)] != 0.0 { a[(i, j)] } else { a[(j, i)] };
            a[(i, j)] = x;
            a[(j, i)] = x;
        }
    }
    a
}

pub fn general_kind(ctx: &mut Ctx, m: usize, k: usize, kind: usize) -> M {
    let uni = |v: u64| (v as f64 - 8_388_608.0) / 8_388_608.0;
    match kind {
        0 => elems(ctx, m, k, 7, small),
        1 => elems(ctx, m, k, 1 << 24, uni),
        2 => elems(ctx, m, k, 12, |v| if v < 6 { 0.0 } else { small(v - 6) }),
        3 => elems(ctx, m, k, 1 << 20, |v| {
            let e = (v % 24) as i32;
            small(v / 24 % 9) * 2f64.powi(-e)
        }),
        4 => {
            // graded rows and columns
            let (p, q) = (ctx.range(0, 4) as i32, ctx.range(0, 4) as i32);
            let a = elems(ctx, m, k, 1 << 24, uni);
            M::from_shape_fn((m, k), |(i, j)| {
                a[(i, j)] * 2f64.powi(-(p * i as i32).min(60) - (q * j as i32).min(60))
            })
        }
        5 => {
            // low rank product of integer factors
            let r = ctx.range(0, m.min(k).saturating_sub(1));
            let a = elems(ctx, m, r, 7, small);
            let b = elems(ctx, r, k, 7, small);
            mul(&a, &b)
        }
        6 => {
            // duplicated rows and columns
            let mut a = elems(ctx, m, k, 1 << 24, uni);
            for _ in 0..ctx.range(1, 3) {
                if k > 0 {
                    let (s, d) = (ctx.range(0, k - 1), ctx.range(0, k - 1));
                    let c = a.column(s).to_owned();
                    a.column_mut(d).assign(&c);
                }
                if m > 0 {
                    let (s, d) = (ctx.range(0, m - 1), ctx.range(0, m - 1));
                    let c = a.row(s).to_owned();
                    a.row_mut(d).assign(&c);
                }
            }
            a
        }
        7 => {
            // almost empty
            let mut a = M::zeros((m, k));
            if m * k > 0 {
                for _ in 0..ctx.range(0, 3) {
                    let (i, j) = (ctx.range(0, m - 1), ctx.range(0, k - 1));
                    a[(i, j)] = small(ctx.draw(9));
                }
            }
            a
        }
        8 => {
            // banded
            let w = ctx.range(0, 2);
            let a = elems(ctx, m, k, 1 << 24, uni);
            M::from_shape_fn((m, k), |(i, j)| {
                if i.abs_diff(j) <= w {
                    a[(i, j)]
                } else {
                    0.0
                }
            })
        }
        9 => {
            // signed permutation
            let mut a = M::zeros((m, k));
            for j in 0..k {
                if m > 0 {
                    a[((j * 7 + ctx.range(0, 2)) % m, j)] = if ctx.draw(2) == 0 { 1.0 } else { -1.0 };
                }
            }
            a
        }
        10 => {
            // nearly the identity
            let e = ctx.range(1, 22) as i32;
            let a = elems(ctx, m, k, 7, small);
            M::from_shape_fn((m, k), |(i, j)| {
                f32r((i == j) as u8 as f64 + a[(i, j)] * 2f64.powi(-e))
            })
        }
        11 => {
            let c = small(ctx.draw(9));
            M::from_elem((m, k), c)
        }
        12 => {
            // zero rows/columns in a random matrix
            let mut a = elems(ctx, m, k, 1 << 24, uni);
            for j in 0..k {
                if ctx.chance(1, 3) {
                    a.column_mut(j).fill(0.0);
                }
            }
            for i in 0..m {
                if ctx.chance(1, 4) {
                    a.row_mut(i).fill(0.0);
                }
            }
            a
        }
        16 => {
            // condensed forms with uniformly distributed elements, which need more iterations than
            // dense matrices do, above all with a negligible element at the end of the diagonal
            let form = ctx.draw(3);
            let tiny = ctx.draw(4);
            let e = 2f64.powi(-(ctx.range(8, 50) as i32));
            let a = elems(ctx, m, k, 1 << 24, uni);
            let last = m.min(k).saturating_sub(1);
            M::from_shape_fn((m, k), |(i, j)| {
                if i == j {
                    let small = match tiny {
                        0 => false,
                        1 => i == last,
                        2 => (a[(i, j)] * 64.0).abs() as u64 % 3 == 0,
                        _ => i == last / 2,
                    };
                    a[(i, j)] * if small { e } else { 1.0 }
                } else if form != 1 && j == i + 1 || form != 2 && i == j + 1 {
                    a[(i, j)]
                } else {
                    0.0
                }
            })
        }
        14 | 15 => {
            // condensed forms: two or three diagonals, graded or of a few sizes, so that the
            // iterations start with exactly these numbers
            let form = ctx.draw(3);
            let g = ctx.range(1, 48) as u64;
            let a = elems(ctx, m, k, 1 << 24, |v| {
                let s = if v % 2 == 0 { 1.0 } else { -1.0 };
                let v = v / 2;
                if kind == 14 {
                    s * (1.0 + (v / 64 % 4096) as f64 / 4096.0) * 2f64.powi(-((v % 64 * g / 64) as i32))
                } else {
                    match v % 32 {
                        // mostly of one size
                        0..=22 => s * (1.0 + (v / 32 % 4096) as f64 / 4096.0),
                        23 => 0.0,
                        24 => s * 2f64.powi(-(g as i32)),
                        _ => s * 2f64.powi(-((v / 32 % 49) as i32)),
                    }
                }
            });
            M::from_shape_fn((m, k), |(i, j)| {
                if i == j || form != 1 && j == i + 1 || form != 2 && i == j + 1 {
                    a[(i, j)]
                } else {
                    0.0
                }
            })
        }
        _ => {
            // wide dynamic range, element-wise
            elems(ctx, m, k, 1 << 24, |v| {
                let e = (v % 61) as i32;
                let s = (v / 61 % 4096) as f64 / 2048.0 - 1.0;
                f32r(s * 2f64.powi(-e))
            })
        }
    }
    .mapv(f32r)
}

pub fn symmetric(ctx: &mut Ctx, n: usize) -> M {
    let kind = ctx.draw(KINDS as u64 + 2) as usize;
    let mut a = if kind >= KINDS {
        // prescribed, possibly clustered spectrum in a random basis
        let mut d: Vec<f64> = (0..n).map(|_| small(ctx.draw(7))).collect();
        if kind > KINDS {
            let e = ctx.range(1, 20) as i32;
            for x in d.iter_mut() {
                *x += small(ctx.draw(5)) * 2f64.powi(-e);
            }
        }
        let q = rotation(ctx, n);
        mul(&mul(&q, &M::from_diag(&ndarray::Array1::from(d))), &tr(&q)).mapv(f32r)
    } else {
        general_kind(ctx, n, n, kind)
    };
    for i in 0..n {
        for j in 0..i {
            a[(j, i)] = a[(i, j)];
        }
    }
    ctx.note(format!("symmetric {n}x{n} kind {kind}"));
    ctx.mixin(kind as u64);
    a
}

/// Well-conditioned general matrix (rows >= columns or any): random plus a dominant diagonal
pub fn well(ctx: &mut Ctx, m: usize, k: usize) -> M {
    let mut a = elems(ctx, m, k, 1 << 12, |v| (v as f64 - 2048.0) / 2048.0);
    let d = (m.max(k) as f64).sqrt() * 1.5 + 1.0;
    for i in 0..m.min(k) {
        a[(i, i)] += if ctx.draw(2) == 0 { d } else { -d };
    }
    a.mapv(f32r)
}

/// Symmetric positive definite with condition below about 1e3
pub fn spd(ctx: &mut Ctx, n: usize) -> M {
    let g = elems(ctx, n, n, 1 << 10, |v| (v as f64 - 512.0) / 512.0);
    let mut a = mul(&tr(&g), &g).mapv(|x| (x * 4096.0).round() / 4096.0);
    for i in 0..n {
        a[(i, i)] += 0.25 + ctx.draw(8) as f64 * 0.25;
        for j in 0..i {
            a[(i, j)] = f32r(a[(i, j)]);
            a[(j, i)] = a[(i, j)];
        }
    }
    a.mapv(f32r)
}

/// Random orthogonal matrix (seeded) or simple ones
pub fn rotation(ctx: &mut Ctx, n: usize) -> M {
    let s = ctx.seed();
    if s == 0 {
        return M::eye(n);
    }
    let mut r = Prng::new(s);
    let g = M::from_shape_fn((n, n), |(i, j)| r.sym() + if i == j { 0.5 } else { 0.0 });
    mgs(&g)
}

pub fn randm(ctx: &mut Ctx, m: usize, k: usize) -> M {
    let mut r = Prng::new(ctx.seed());
    M::from_shape_fn((m, k), |_| f32r(r.sym()))
}

/// Size with a bias to small ones and the occasional large one
pub fn size(ctx: &mut Ctx, lo: usize, hi: usize, big: usize) -> usize {
    if big > hi && ctx.chance(1, 24) {
        // sometimes a size at which blocked or recursive algorithms would take over
        if ctx.chance(1, 50) {
            ctx.range(lo, 2 * big + 70)
        } else {
            ctx.range(lo, big)
        }
    } else {
        ctx.range(lo, hi)
    }
}

/// Arithmetic environment of a caller
pub fn env(ctx: &mut Ctx) -> EnvCfg {
    let round = match ctx.draw(10) {
        0..=3 => Round::Nearest,
        4 => Round::Faithful(4),
        5 => Round::Faithful(48),
        6 => Round::Faithful(160),
        7 => Round::Up,
        8 => Round::Down,
        _ => Round::Zero,
    };
    let seed = if matches!(round, Round::Nearest) {
        0
    } else {
        ctx.seed()
    };
    let ftz = ctx.chance(1, 4);
    EnvCfg {
        round,
        ftz,
        seed,
        ..EnvCfg::default()
    }
}

/// Symmetric with elements of moderate size
pub fn symmetric_tame(ctx: &mut Ctx, n: usize) -> M {
    let mut a = well(ctx, n, n);
    for i in 0..n {
        for j in 0..i {
            a[(j, i)] = a[(i, j)];
        }
    }
    a
}

/// The same elements in another memory layout
pub fn lay<A: Clone>(ctx: &mut Ctx, a: Array2<A>) -> Array2<A> {
    if !ctx.chance(1, 3) {
        return a;
    }
    let kind = ctx.draw(6);
    ctx.hit("input.unusual-layout");
    relay(a, kind)
}

pub fn relay<A: Clone>(a: Array2<A>, kind: u64) -> Array2<A> {
    let flip = |a: &Array2<A>, axes: [bool; 2]| {
        let mut v = a.view();
        for (i, f) in axes.into_iter().enumerate() {
            if f {
                v.invert_axis(Axis(i));
            }
        }
        // collected in standard order, then turned around in place
        let mut o = Array2::from_shape_vec(v.dim(), v.iter().cloned().collect()).unwrap();
        for (i, f) in axes.into_iter().enumerate() {
            if f {
                o.invert_axis(Axis(i));
            }
        }
        o
    };
    let columns = |a: &Array2<A>| Array2::from_shape_vec(a.raw_dim().f(), a.t().iter().cloned().collect()).unwrap();
    match kind {
        0 => columns(&a),
        1 => flip(&a, [true, false]),
        2 => flip(&a, [false, true]),
        3 => flip(&a.reversed_axes(), [true, true]).reversed_axes(),
        _ if a.is_empty() => a,
        // a window of a bigger allocation, every row or column doubled
        4 => {
            let idx: Vec<usize> = (0..2 * a.nrows()).map(|i| i / 2).collect();
            a.select(Axis(0), &idx).slice_move(s![1..;2, ..])
        }
        _ => {
            let idx: Vec<usize> = (0..a.ncols() + 2).map(|j| j % a.ncols()).collect();
            let n = a.ncols();
            a.select(Axis(1), &idx).slice_move(s![.., ..n])
        }
    }
}
