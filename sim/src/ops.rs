//! Catalogue of calls covering every public routine. Each call maps shared inputs to the bits of
//! everything it returns, so that executions can be compared exactly.

use crate::ctx::Ctx;
use crate::gen;
use crate::oracle::*;
use crate::rng::SimRng;
use crate::simf::Sc;
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::lobpcg::{lobpcg, LobpcgResult, TruncatedEig, TruncatedSvd};
use linfa_linalg::norm::Norm;
use linfa_linalg::qr::*;
use linfa_linalg::reflection::Reflection;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::*;
use linfa_linalg::{LinalgError, Order};
use ndarray::{s, Array1, Array2, OwnedRepr};

pub struct Inputs<A: Sc> {
    pub a: Array2<A>,
    pub tall: Array2<A>,
    pub sq: Array2<A>,
    pub sym: Array2<A>,
    pub spd: Array2<A>,
    pub npd: Array2<A>,
    pub sing: Array2<A>,
    pub lo: Array2<A>,
    pub b: Array2<A>,
    pub bt: Array2<A>,
    pub x0: Array2<A>,
    pub y: Array2<A>,
    pub seed: u64,
    pub qr: QRDecomp<A, OwnedRepr<A>>,
    pub bi: BidiagonalDecomp<A, OwnedRepr<A>>,
    pub tri: TridiagonalDecomp<A, OwnedRepr<A>>,
}

/// Elements far below the largest one are flushed for f32, where their squares would underflow
pub fn dom<A: Sc>(m: M) -> M {
    if A::F32 {
        let t = amax(&m) * 2f64.powi(-24);
        m.mapv(|x| if x.abs() < t { 0.0 } else { x })
    } else {
        m
    }
}

impl<A: Sc> Inputs<A> {
    pub fn gen(ctx: &mut Ctx, max: usize) -> Self {
        let n = ctx.range(1, max);
        let (m, k) = (ctx.range(1, max), ctx.range(1, max));
        let a: Array2<A> = to_sc(&dom::<A>(gen::general(ctx, m, k)));
        let extra = ctx.range(0, 3);
        let tall: Array2<A> = to_sc(&gen::well(ctx, n + extra, n));
        let sq: Array2<A> = to_sc(&gen::well(ctx, n, n));
        let sym: Array2<A> = to_sc(&dom::<A>(gen::symmetric(ctx, n)));
        let spd: Array2<A> = to_sc(&gen::spd(ctx, n));
        let mut npd = spd.clone();
        let p = ctx.range(0, n - 1);
        npd[(p, p)] = A::of(-1.0);
        let mut sing = sq.clone();
        sing.column_mut(p).fill(A::zero());
        let lo = {
            let w = gen::well(ctx, n, n);
            to_sc(&M::from_shape_fn((n, n), |(i, j)| {
                if j <= i {
                    w[(i, j)]
                } else {
                    0.0
                }
            }))
        };
        let cols = ctx.range(1, 3);
        let b = to_sc(&gen::randm(ctx, n, cols));
        let bt = to_sc(&gen::randm(ctx, n + extra, cols));
        let kk = ctx.range(1, (n / 3).max(1));
        let x0 = to_sc(&gen::randm(ctx, n, kk));
        let y = to_sc(&gen::randm(ctx, n, 1));
        let seed = ctx.seed();
        let mut lay = |x: Array2<A>| gen::lay(ctx, x);
        let (a, tall, sq, sym, spd) = (lay(a), lay(tall), lay(sq), lay(sym), lay(spd));
        let (npd, sing, lo, b, bt) = (lay(npd), lay(sing), lay(lo), lay(b), lay(bt));
        let (x0, y) = (lay(x0), lay(y));
        let qr = tall.qr().unwrap();
        let bi = a.clone().bidiagonal().unwrap();
        let tri = sym.clone().sym_tridiagonal().unwrap();
        Inputs {
            a,
            tall,
            sq,
            sym,
            spd,
            npd,
            sing,
            lo,
            b,
            bt,
            x0,
            y,
            seed,
            qr,
            bi,
            tri,
        }
    }

    /// Bits of all shared operands
    pub fn digest(&self) -> u64 {
        let mut h = 0;
        for m in [
            &self.a, &self.tall, &self.sq, &self.sym, &self.spd, &self.npd, &self.sing, &self.lo,
            &self.b, &self.bt, &self.x0, &self.y,
        ] {
            h = crate::prng::hash_words(h, &bits2(m));
        }
        h
    }
}

pub fn err_code(e: &LinalgError) -> Vec<u64> {
    match e {
        LinalgError::NotSquare { rows, cols } => vec![1, *rows as u64, *cols as u64],
        LinalgError::NotThin { rows, cols } => vec![2, *rows as u64, *cols as u64],
        LinalgError::NotPositiveDefinite => vec![3],
        LinalgError::NonInvertible => vec![4],
        LinalgError::EmptyMatrix => vec![5],
        LinalgError::WrongColumns { expected, actual } => {
            vec![6, *expected as u64, *actual as u64]
        }
        LinalgError::WrongRows { expected, actual } => vec![7, *expected as u64, *actual as u64],
        LinalgError::Shape(_) => vec![8],
        _ => vec![9],
    }
}

fn res<T>(r: Result<T, LinalgError>, f: impl FnOnce(T) -> Vec<u64>) -> Vec<u64> {
    match r {
        Ok(x) => f(x),
        Err(e) => {
            let mut v = vec![0xe44];
            v.extend(err_code(&e));
            v
        }
    }
}

pub fn cat(parts: Vec<Vec<u64>>) -> Vec<u64> {
    parts.concat()
}

pub fn lob_bits<A: Sc>(r: &LobpcgResult<A>) -> Vec<u64> {
    let one = |l: &linfa_linalg::lobpcg::Lobpcg<A>| {
        cat(vec![
            bits1(&l.eigvals),
            bits2(&l.eigvecs),
            bits1(&Array1::from(l.rnorm.clone())),
        ])
    };
    match r {
        Ok(l) => one(l),
        Err((e, Some(l))) => cat(vec![vec![0xbe57], err_code(e), one(l)]),
        Err((e, None)) => cat(vec![vec![0xe44], err_code(e)]),
    }
}

pub const OPS: [&str; 50] = [
    "svd(u,vt)",
    "svd(values)",
    "svd_into+sort",
    "eigh",
    "eigh_into+sort",
    "eigvalsh",
    "qr.into_decomp",
    "qr.solve",
    "qr.solve_tr",
    "qr.inverse",
    "least_squares tall",
    "least_squares wide",
    "cholesky",
    "cholesky_into_dirty",
    "solvec",
    "invc",
    "solve_triangular lower",
    "solve_triangular upper",
    "bidiagonal",
    "tridiagonal",
    "shared qr.generate_q",
    "shared qr.solve",
    "shared qr.solve_tr",
    "shared bidiagonal queries",
    "shared tridiagonal.generate_q",
    "triangular",
    "lobpcg",
    "lobpcg constrained+preconditioned",
    "TruncatedEig.decompose",
    "TruncatedEig iterator",
    "TruncatedSvd",
    "norms",
    "reflection",
    "cholesky_inplace on view",
    "eigvalsh_into+sort",
    "cholesky of indefinite",
    "solve singular",
    "svd_into(u)",
    "shared qr cloned, into_decomp",
    "shared qr.solve_into on view",
    "least_squares_into wide",
    "solvec_inplace and what it leaves",
    "invc_inplace and what it leaves",
    "svd(vt)+sort ascending",
    "TruncatedSvd smallest",
    "TruncatedEig constrained+preconditioned",
    "TruncatedEig iterator, steps of two",
    "lobpcg with failing preconditioner",
    "solve_triangular_inplace on strided view",
    "wrong shapes",
];

pub fn run_op<A: Sc>(op: usize, i: &Inputs<A>) -> Vec<u64> {
    let o = |x: &Option<Array2<A>>| x.as_ref().map_or(vec![0xa0], |x| bits2(x));
    match op {
        0 => res(i.a.svd(true, true), |(u, s, v)| {
            cat(vec![o(&u), bits1(&s), o(&v)])
        }),
        1 => res(i.a.svd(false, false), |(u, s, v)| {
            cat(vec![o(&u), bits1(&s), o(&v)])
        }),
        2 => res(i.a.clone().svd_into(true, true), |d| {
            let (u, s, v) = d.sort_svd_desc();
            cat(vec![o(&u), bits1(&s), o(&v)])
        }),
        3 => res(i.sym.eigh(), |(l, v)| cat(vec![bits1(&l), bits2(&v)])),
        4 => res(i.sym.clone().eigh_into(), |d| {
            let (l, v) = d.sort_eig_asc();
            cat(vec![bits1(&l), bits2(&v)])
        }),
        5 => res(i.sym.eigvalsh(), |l| bits1(&l)),
        6 => res(i.tall.qr(), |d| {
            let (q, r) = d.into_decomp();
            cat(vec![bits2(&q), bits2(&r)])
        }),
        7 => res(i.tall.qr().and_then(|d| d.solve(&i.bt)), |x| bits2(&x)),
        8 => res(i.tall.qr().and_then(|d| d.solve_tr(&i.b)), |x| bits2(&x)),
        9 => res(i.sq.qr().and_then(|d| d.inverse()), |x| bits2(&x)),
        10 => res(i.tall.clone().least_squares(&i.bt), |x| bits2(&x)),
        11 => res(i.tall.t().to_owned().least_squares(&i.b), |x| bits2(&x)),
        12 => res(i.spd.cholesky(), |x| bits2(&x)),
        13 => res(i.spd.clone().cholesky_into_dirty(), |x| bits2(&x)),
        14 => res(i.spd.clone().solvec(&i.b), |x| bits2(&x)),
        15 => res(i.spd.invc(), |x| bits2(&x)),
        16 => res(i.lo.solve_triangular(&i.b, UPLO::Lower), |x| bits2(&x)),
        17 => res(i.lo.t().solve_triangular(&i.b, UPLO::Upper), |x| bits2(&x)),
        18 => res(i.a.clone().bidiagonal(), |d| {
            let (u, v) = (d.generate_u(), d.generate_vt());
            cat(vec![bits2(&u), bits2(&v), bits2(&d.into_b())])
        }),
        19 => res(i.sym.clone().sym_tridiagonal(), |d| {
            let q = d.generate_q();
            cat(vec![bits2(&q), bits2(&d.into_tridiag_matrix())])
        }),
        20 => bits2(&i.qr.generate_q()),
        21 => cat(vec![
            vec![i.qr.is_invertible() as u64],
            res(i.qr.solve(&i.bt), |x| bits2(&x)),
        ]),
        22 => res(i.qr.solve_tr(&i.b), |x| bits2(&x)),
        23 => {
            let c = i.bi.clone();
            cat(vec![
                bits2(&i.bi.generate_u()),
                bits2(&i.bi.generate_vt()),
                bits2(&c.into_b()),
                vec![i.bi.is_upper_diag() as u64],
            ])
        }
        24 => {
            let (d, e) = i.tri.clone().into_diagonals();
            cat(vec![bits2(&i.tri.generate_q()), bits1(&d), bits1(&e)])
        }
        25 => cat(vec![
            vec![
                i.lo.is_triangular(UPLO::Lower) as u64,
                i.a.is_triangular(UPLO::Upper) as u64,
            ],
            res(i.sq.clone().into_triangular(UPLO::Upper), |x| bits2(&x)),
            res(i.sq.clone().into_triangular(UPLO::Lower), |x| bits2(&x)),
        ]),
        26 => lob_bits(&lobpcg(
            |x| i.sym.dot(&x),
            i.x0.clone(),
            |_| {},
            None,
            1e-4,
            12,
            Order::Largest,
        )),
        27 => {
            let d = i.spd.diag().to_owned();
            lob_bits(&lobpcg(
                |x| i.spd.dot(&x),
                i.x0.clone(),
                |mut r| {
                    for mut c in r.columns_mut() {
                        c /= &d;
                    }
                },
                Some(i.y.view()),
                1e-4,
                12,
                Order::Smallest,
            ))
        }
        28 => {
            let mut t =
                TruncatedEig::new_with_rng(i.sym.clone(), Order::Largest, SimRng::new(i.seed))
                    .maxiter(15);
            cat(vec![
                lob_bits(&t.decompose(1)),
                lob_bits(&t.decompose(i.x0.ncols())),
            ])
        }
        29 => {
            let t = TruncatedEig::new_with_rng(i.spd.clone(), Order::Smallest, SimRng::new(i.seed))
                .precision(1e-3);
            t.into_iter()
                .take(3)
                .flat_map(|(l, v)| cat(vec![bits1(&l), bits2(&v)]))
                .collect()
        }
        30 => {
            let t = TruncatedSvd::new_with_rng(i.a.clone(), Order::Largest, SimRng::new(i.seed))
                .maxiter(15);
            res(t.decompose(1), |r| {
                let (u, s, v) = r.values_vectors();
                cat(vec![bits1(&r.values()), bits2(&u), bits1(&s), bits2(&v)])
            })
        }
        31 => vec![
            i.a.norm_l1().bits(),
            i.a.norm_l2().bits(),
            i.a.norm_max().bits(),
        ],
        32 => {
            let ax = i.b.column(0);
            let nrm = ax.norm_l2();
            let r = Reflection::new(ax.mapv(|x| x / nrm), A::of(0.5));
            let mut m = i.sq.clone();
            r.reflect_cols(&mut m);
            let mut n = i.sq.clone();
            r.reflect_rows(&mut n);
            cat(vec![bits2(&m), bits2(&n), bits1(r.axis())])
        }
        33 => {
            let n = i.spd.nrows();
            let mut big = Array2::<A>::from_elem((2 * n + 1, n + 2), A::of(7.0));
            big.slice_mut(s![1..;2, 1..n + 1]).assign(&i.spd);
            let ok = {
                let mut v = big.slice_mut(s![1..;2, 1..n + 1]);
                v.cholesky_inplace().is_ok()
            };
            cat(vec![vec![ok as u64], bits2(&big)])
        }
        34 => res(i.sym.clone().eigvalsh_into(), |l| bits1(&l.sort_eig_desc())),
        35 => res(i.npd.cholesky(), |x| bits2(&x)),
        36 => res(i.sing.qr().and_then(|d| d.solve(&i.b)), |x| bits2(&x)),
        37 => res(i.a.clone().svd_into(true, false), |(u, s, v)| {
            cat(vec![o(&u), bits1(&s), o(&v)])
        }),
        38 => {
            let (q, r) = i.qr.clone().into_decomp();
            cat(vec![bits2(&q), bits2(&r)])
        }
        39 => {
            let mut b = i.bt.clone();
            let x = res(i.qr.solve_into(b.view_mut()), |x| bits2(&x.to_owned()));
            cat(vec![x, bits2(&b)])
        }
        40 => res(i.tall.t().to_owned().least_squares_into(i.b.clone()), |x| bits2(&x)),
        41 => {
            let (mut a, mut b) = (i.spd.clone(), i.b.clone());
            let ok = a.solvec_inplace(&mut b).is_ok();
            cat(vec![vec![ok as u64], bits2(&a), bits2(&b)])
        }
        42 => {
            let mut a = i.spd.clone();
            let x = res(a.invc_inplace(), |x| bits2(&x));
            cat(vec![x, bits2(&a)])
        }
        43 => res(i.a.svd(false, true), |d| {
            let (u, s, v) = d.sort_svd_asc();
            cat(vec![o(&u), bits1(&s), o(&v)])
        }),
        44 => {
            let t = TruncatedSvd::new_with_rng(i.a.clone(), Order::Smallest, SimRng::new(i.seed))
                .maxiter(10)
                .precision(1e-3);
            let k = i.a.nrows().min(i.a.ncols()).min(2);
            res(t.decompose(k), |r| {
                let (u, s, v) = r.values_vectors();
                cat(vec![bits2(&u), bits1(&s), bits2(&v)])
            })
        }
        45 => {
            let d = Array2::from_diag(&i.spd.diag().mapv(|x| A::one() / x));
            let mut t = TruncatedEig::new_with_rng(i.spd.clone(), Order::Smallest, SimRng::new(i.seed))
                .orthogonal_to(i.y.clone())
                .precondition_with(d)
                .maxiter(10);
            lob_bits(&t.decompose(i.x0.ncols()))
        }
        46 => {
            let t = TruncatedEig::new_with_rng(i.sym.clone(), Order::Largest, SimRng::new(i.seed))
                .precision(1e-3)
                .maxiter(20);
            match t.into_iter_step_size(2) {
                Ok(it) => it
                    .take(2)
                    .flat_map(|(l, v)| cat(vec![bits1(&l), bits2(&v)]))
                    .collect(),
                Err(e) => err_code(&e),
            }
        }
        47 => {
            let calls = std::cell::Cell::new(0);
            lob_bits(&lobpcg(
                |x| i.sym.dot(&x),
                i.x0.clone(),
                |mut r| {
                    calls.set(calls.get() + 1);
                    if calls.get() == 2 {
                        r.fill(A::zero());
                    }
                },
                None,
                1e-6,
                6,
                Order::Largest,
            ))
        }
        48 => {
            let n = i.lo.nrows();
            let mut big = Array2::<A>::from_elem((2 * n, 2 * i.b.ncols() + 1), A::of(3.0));
            big.slice_mut(s![..;2, 1..;2]).assign(&i.b);
            let ok = {
                let mut v = big.slice_mut(s![..;2, 1..;2]);
                i.lo.solve_triangular_inplace(&mut v, UPLO::Lower).is_ok()
            };
            cat(vec![vec![ok as u64], bits2(&big)])
        }
        _ => {
            let n = i.lo.nrows();
            let wide = Array2::<A>::zeros((n, n + 1));
            let long = Array2::<A>::zeros((n + 2, 1));
            let mut m = wide.clone();
            cat(vec![
                res(wide.qr(), |_| vec![]),
                res(wide.eigh(), |_| vec![]),
                res(wide.cholesky(), |_| vec![]),
                res(m.cholesky_inplace().map(|_| ()), |_| vec![]),
                res(i.lo.solve_triangular(&long, UPLO::Lower), |x| bits2(&x)),
                res(i.lo.solve_triangular(&long, UPLO::Upper), |x| bits2(&x)),
                res(i.spd.clone().solvec(&long), |x| bits2(&x)),
                res(Array2::<A>::zeros((0, n)).svd(true, true), |_| vec![]),
                res(wide.sym_tridiagonal(), |_| vec![]),
            ])
        }
    }
}
