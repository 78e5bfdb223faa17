//! Reference linear algebra in plain f64, independent of the code under test and deliberately naive.

use crate::simf::Sc;
use ndarray::{Array1, Array2, ArrayBase, Data, Ix1, Ix2};

pub type M = Array2<f64>;

pub fn raw2<A: Sc, S: Data<Elem = A>>(a: &ArrayBase<S, Ix2>) -> M {
    Array2::from_shape_fn(a.dim(), |ix| a[ix].raw())
}
pub fn raw1<A: Sc, S: Data<Elem = A>>(a: &ArrayBase<S, Ix1>) -> Vec<f64> {
    a.iter().map(|x| x.raw()).collect()
}
pub fn to_sc<A: Sc>(a: &M) -> Array2<A> {
    Array2::from_shape_fn(a.dim(), |ix| A::of(a[ix]))
}
pub fn bits2<A: Sc, S: Data<Elem = A>>(a: &ArrayBase<S, Ix2>) -> Vec<u64> {
    let mut v = vec![a.nrows() as u64, a.ncols() as u64];
    for i in 0..a.nrows() {
        for j in 0..a.ncols() {
            v.push(nan_canon(a[(i, j)]));
        }
    }
    v
}
pub fn bits1<A: Sc, S: Data<Elem = A>>(a: &ArrayBase<S, Ix1>) -> Vec<u64> {
    let mut v = vec![a.len() as u64];
    v.extend(a.iter().map(|x| nan_canon(*x)));
    v
}
/// NaN payloads and signs are not part of any result
fn nan_canon<A: Sc>(x: A) -> u64 {
    if x.raw().is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        x.bits()
    }
}

pub fn mul(a: &M, b: &M) -> M {
    assert_eq!(a.ncols(), b.nrows());
    let mut c = M::zeros((a.nrows(), b.ncols()));
    for i in 0..a.nrows() {
        for k in 0..a.ncols() {
            let x = a[(i, k)];
            for j in 0..b.ncols() {
                c[(i, j)] += x * b[(k, j)];
            }
        }
    }
    c
}
pub fn tr(a: &M) -> M {
    a.t().as_standard_layout().into_owned()
}
pub fn diag(d: &[f64]) -> M {
    M::from_diag(&Array1::from(d.to_vec()))
}
/// Largest absolute element; NaN counts as infinite
pub fn amax(a: &M) -> f64 {
    a.iter().fold(0.0, |m, x| {
        if x.is_nan() {
            f64::INFINITY
        } else {
            m.max(x.abs())
        }
    })
}
pub fn vmax(a: &[f64]) -> f64 {
    a.iter().fold(0.0, |m, x| {
        if x.is_nan() {
            f64::INFINITY
        } else {
            m.max(x.abs())
        }
    })
}
pub fn dist(a: &M, b: &M) -> f64 {
    if a.dim() != b.dim() {
        return f64::INFINITY;
    }
    amax(&(a - b))
}
/// deviation of the columns from orthonormality
pub fn orth(a: &M) -> f64 {
    dist(&mul(&tr(a), a), &M::eye(a.ncols()))
}
pub fn norm2(v: &[f64]) -> f64 {
    let m = vmax(v);
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}
pub fn col(a: &M, j: usize) -> Vec<f64> {
    a.column(j).to_vec()
}
pub fn finite(a: &M) -> bool {
    a.iter().all(|x| x.is_finite())
}

/// Cyclic Jacobi; eigenvalues in descending order with vectors in columns
pub fn jacobi(a: &M) -> (Vec<f64>, M) {
    let n = a.nrows();
    let mut a = a.clone();
    let mut v = M::eye(n);
    for _ in 0..60 {
        let mut off = 0.0f64;
        let mut dg = 0.0f64;
        for i in 0..n {
            dg = dg.max(a[(i, i)].abs());
            for j in 0..i {
                off = off.max(a[(i, j)].abs());
            }
        }
        if off <= 1e-300 || off <= dg * 1e-18 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[(p, q)] == 0.0 {
                    continue;
                }
                let th = (a[(q, q)] - a[(p, p)]) / (2.0 * a[(p, q)]);
                let t = if th.is_infinite() {
                    0.0
                } else {
                    th.signum() / (th.abs() + (th * th + 1.0).sqrt())
                };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[(k, p)], a[(k, q)]);
                    a[(k, p)] = c * x - s * y;
                    a[(k, q)] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[(p, k)], a[(q, k)]);
                    a[(p, k)] = c * x - s * y;
                    a[(q, k)] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[(k, p)], v[(k, q)]);
                    v[(k, p)] = c * x - s * y;
                    v[(k, q)] = s * x + c * y;
                }
            }
        }
    }
    let mut ix: Vec<usize> = (0..n).collect();
    ix.sort_by(|i, j| a[(*j, *j)].partial_cmp(&a[(*i, *i)]).unwrap());
    let vals = ix.iter().map(|i| a[(*i, *i)]).collect();
    let vecs = M::from_shape_fn((n, n), |(i, j)| v[(i, ix[j])]);
    (vals, vecs)
}

/// One-sided Jacobi singular values in descending order
pub fn svals(a: &M) -> Vec<f64> {
    let mut a = if a.nrows() >= a.ncols() { a.clone() } else { tr(a) };
    let (m, n) = a.dim();
    for _ in 0..60 {
        let mut rot = false;
        for p in 0..n {
            for q in p + 1..n {
                let (mut al, mut be, mut ga) = (0.0, 0.0, 0.0);
                for k in 0..m {
                    al += a[(k, p)] * a[(k, p)];
                    be += a[(k, q)] * a[(k, q)];
                    ga += a[(k, p)] * a[(k, q)];
                }
                if ga == 0.0 || ga.abs() <= 1e-17 * (al * be).sqrt() {
                    continue;
                }
                rot = true;
                let z = (be - al) / (2.0 * ga);
                let t = z.signum() / (z.abs() + (1.0 + z * z).sqrt());
                if !t.is_finite() {
                    continue;
                }
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = c * t;
                for k in 0..m {
                    let (x, y) = (a[(k, p)], a[(k, q)]);
                    a[(k, p)] = c * x - s * y;
                    a[(k, q)] = s * x + c * y;
                }
            }
        }
        if !rot {
            break;
        }
    }
    let mut s: Vec<f64> = (0..n).map(|j| norm2(&col(&a, j))).collect();
    s.sort_by(|x, y| y.partial_cmp(x).unwrap());
    s
}

/// Orthonormal basis of the column space by modified Gram-Schmidt, twice
pub fn mgs(a: &M) -> M {
    let mut q = a.clone();
    for j in 0..q.ncols() {
        for _ in 0..2 {
            for i in 0..j {
                let d: f64 = (0..q.nrows()).map(|k| q[(k, i)] * q[(k, j)]).sum();
                for k in 0..q.nrows() {
                    let x = q[(k, i)];
                    q[(k, j)] -= d * x;
                }
            }
        }
        let n = norm2(&col(&q, j));
        if n > 0.0 {
            for k in 0..q.nrows() {
                q[(k, j)] /= n;
            }
        }
    }
    q
}

/// Condition number estimate from reference singular values
pub fn cond(a: &M) -> f64 {
    let s = svals(a);
    match (s.first(), s.last()) {
        (Some(a), Some(b)) if *b > 0.0 => a / b,
        (None, _) => 1.0,
        _ => f64::INFINITY,
    }
}
