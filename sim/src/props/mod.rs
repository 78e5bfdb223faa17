//! The properties under check.

pub mod conc;
pub mod direct;
pub mod iter;
pub mod lob;
pub mod mem;
pub mod pure;

use crate::ctx::{Ctx, Res};
use crate::simf::{Sc, Sim};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
}

/// Picks the scalar of a run: mostly simulated f64, sometimes the native types
macro_rules! scalars {
    ($name:ident, $m:ident, $f:ident) => {
        pub fn $name(ctx: &mut Ctx) -> Res {
            match ctx.draw(12) {
                0..=6 => $m::$f::<Sim<f64>>(ctx),
                7..=9 => $m::$f::<Sim<f32>>(ctx),
                10 => $m::$f::<f64>(ctx),
                _ => $m::$f::<f32>(ctx),
            }
        }
    };
}

#[allow(dead_code)]
pub fn name<A: Sc>() -> &'static str {
    A::NAME
}

mod entry {
    use super::*;
    scalars!(c01, lob, c01);
    scalars!(c02, lob, c02);
    scalars!(c03, lob, c03);
    scalars!(c04, lob, c04);
    scalars!(c05, lob, c05);
    scalars!(c06, iter, c06);
    scalars!(c07, iter, c07);
    scalars!(c08, iter, c08);
    scalars!(c09, conc, c09);
    scalars!(c10, mem, c10);
    scalars!(c11, conc, c11);
    scalars!(c12, mem, c12);
    scalars!(c13, direct, c13);
    scalars!(c14, direct, c14);
    scalars!(c15, direct, c15);
    scalars!(c16, direct, c16);
    scalars!(c17, direct, c17);
    scalars!(c18, direct, c18);
    scalars!(c19, pure, c19);
    scalars!(c20, pure, c20);
    scalars!(c21, pure, c21);
    scalars!(c22, iter, c22);
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: entry::c01,
        quick: 60000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. A script of preconditioner faults (per call: identity, Jacobi, sign flip, scaling, garbage, noise, permutation, stale block, constraint leak, NaN/Inf/zero/duplicate blocks) meets one solve with an arbitrary iteration limit; the returned pairs are certified against f64 reference algebra. Non-trivial: the preconditioner was called at least once; distinct: hash over faults that fired, operator calls and outcome.",
        real: &["linfa_linalg::lobpcg (algorithm and everything below it: Rayleigh-Ritz, eigh, Cholesky, triangular solves)", "ndarray"],
        stub: &["operator and preconditioner callbacks (faulty collaborators)", "scalar arithmetic: rounding, flush to zero, step counter", "rayon/BLAS: not used by the crate"],
        assume: &["start blocks have numerically full rank (condition below 1e3), also in the complement of the constraints", "f32 iterative solves run in nearest or rarely perturbed rounding only: directed rounding makes 24-bit Gram matrices meaningless", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C02",
        run: entry::c02,
        quick: 40000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. The same solve is executed for every iteration limit 0..=L, then once more with a collaborator that breaks in iteration j; its best result must be bitwise the one of limit j-1. Non-trivial: the solve iterates at least once so that a collaborator can break.",
        real: &["linfa_linalg::lobpcg (algorithm and everything below it: Rayleigh-Ritz, eigh, Cholesky, triangular solves)", "ndarray"],
        stub: &["operator and preconditioner callbacks (faulty collaborators)", "scalar arithmetic: rounding, flush to zero, step counter", "rayon/BLAS: not used by the crate"],
        assume: &["start blocks have numerically full rank (condition below 1e3), also in the complement of the constraints", "f32 iterative solves run in nearest or rarely perturbed rounding only: directed rounding makes 24-bit Gram matrices meaningless", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C03",
        run: entry::c03,
        quick: 60000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. Finite, non-finite and rank-destroying collaborators, extreme tolerances and limits; the call sequence of the collaborators is checked. Non-trivial: at least one preconditioner call.",
        real: &["linfa_linalg::lobpcg (algorithm and everything below it: Rayleigh-Ritz, eigh, Cholesky, triangular solves)", "ndarray"],
        stub: &["operator and preconditioner callbacks (faulty collaborators)", "scalar arithmetic: rounding, flush to zero, step counter", "rayon/BLAS: not used by the crate"],
        assume: &["start blocks have numerically full rank (condition below 1e3), also in the complement of the constraints", "f32 iterative solves run in nearest or rarely perturbed rounding only: directed rounding makes 24-bit Gram matrices meaningless", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C04",
        run: entry::c04,
        quick: 80000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. Constraints (orthonormal, scaled, skewed; invariant or arbitrary) with preconditioners which leak constraint directions; every operator input and every returned vector is checked. Non-trivial: at least one preconditioner call.",
        real: &["linfa_linalg::lobpcg (algorithm and everything below it: Rayleigh-Ritz, eigh, Cholesky, triangular solves)", "ndarray"],
        stub: &["operator and preconditioner callbacks (faulty collaborators)", "scalar arithmetic: rounding, flush to zero, step counter", "rayon/BLAS: not used by the crate"],
        assume: &["start blocks have numerically full rank (condition below 1e3), also in the complement of the constraints", "f32 iterative solves run in nearest or rarely perturbed rounding only: directed rounding makes 24-bit Gram matrices meaningless", "without room in the complement (n - c < 5 k) only the returned vectors are checked, with a looser bound in f32", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C05",
        run: entry::c05,
        quick: 24000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. A finite prefix of soft preconditioner faults, then a fault-free rest; convergence within a bounded number of iterations to the extreme pairs. Non-trivial: at least one fault was scripted.",
        real: &["linfa_linalg::lobpcg (algorithm and everything below it: Rayleigh-Ritz, eigh, Cholesky, triangular solves)", "ndarray"],
        stub: &["operator and preconditioner callbacks (faulty collaborators)", "scalar arithmetic: rounding, flush to zero, step counter", "rayon/BLAS: not used by the crate"],
        assume: &["start blocks have numerically full rank (condition below 1e3), also in the complement of the constraints", "f32 iterative solves run in nearest or rarely perturbed rounding only: directed rounding makes 24-bit Gram matrices meaningless", "spectra have a gap of at least the spread between the wanted pairs and the rest", "f32 may give up with NotPositiveDefinite or stop at an inner pair", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C06",
        run: entry::c06,
        quick: 30000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. A history of iterator steps with random source panics, arithmetic crashes inside a step, degenerate streams and retries; the yielded sequence is compared with the reference spectrum of the complement. Non-trivial: a crash fired or the random stream was degenerate.",
        real: &["linfa_linalg::lobpcg::{TruncatedEig, TruncatedEigIterator} and everything below"],
        stub: &["random source (RngCore)", "scalar arithmetic"],
        assume: &["start blocks have numerically full rank (condition below 1e3), also in the complement of the constraints", "f32 iterative solves run in nearest or rarely perturbed rounding only: directed rounding makes 24-bit Gram matrices meaningless", "the order of the spectrum is only asserted while blocks have room (remaining dimension >= 5 x step)", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C07",
        run: entry::c07,
        quick: 60000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. Truncated SVDs cut off after every number of iterations on well and badly conditioned matrices; the result object is queried repeatedly. Non-trivial: at least one triplet was requested and the iteration limit can strike.",
        real: &["linfa_linalg::lobpcg::{TruncatedSvd, TruncatedSvdResult} and everything below"],
        stub: &["random source (RngCore)", "scalar arithmetic"],
        assume: &["triplets below the noise level (1e-3, in f32 0.1, of the largest) are not checked for orthogonality", "f32 blocks need room (min(n, m) >= 5 k)", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C08",
        run: entry::c08,
        quick: 60000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. A history of requests is executed on a fresh thread, again on a used thread with poisoned heap, again interleaved with other solvers, on another matrix, in parts and on clones; answers must agree bitwise, draws are counted. Non-trivial: at least one answer was produced.",
        real: &["linfa_linalg::lobpcg::{TruncatedEig, TruncatedSvd}", "rand / rand_distr glue: ndarray-rand"],
        stub: &["random source (RngCore)", "heap contents (poisoning allocator)", "scheduler", "scalar arithmetic"],
        assume: &["single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C09",
        run: entry::c09,
        quick: 40000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. 2-4 callers make 1-3 calls each out of a catalogue of 50 calls on shared operands (two sets in one precision and one in the other); the scheduler pre-empts them at arithmetic steps, cancels some calls, which are then repeated. Every answer is compared bitwise with the one given alone. Non-trivial: at least two calls completed; distinct: hash over the schedule (who ran for which quantum), calls and cancellations.",
        real: &["all 50 calls of the catalogue (sim/src/ops.rs), i.e. the whole public API"],
        stub: &["thread scheduler (one caller runs at a time, switches at arithmetic steps)", "scalar arithmetic", "heap contents"],
        assume: &["pre-emption happens at arithmetic operations on scalars, which are the only observable steps of a library without locks, I/O or atomics", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C10",
        run: entry::c10,
        quick: 200000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. 29 in-place and consuming routines on 8 storage kinds (standard, column-major, strided/reversed/transposed windows, shared/unique/windowed ArcArray, borrowed/owned CowArray), uninterrupted and crashed at arbitrary steps; canaries and aliases are compared bitwise. Every run is non-trivial; distinct: hash over routine, storage and shape.",
        real: &["all routines which write into their operands"],
        stub: &["scalar arithmetic incl. crash points", "operand storage (canary buffers and aliases)"],
        assume: &["results on different layouts may differ by rounding (summation order)", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C11",
        run: entry::c11,
        quick: 40000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. Calls of the catalogue interrupted by a panic at arbitrary arithmetic steps or inside collaborators, with heap accounting, then repeated. Non-trivial: at least one crash fired.",
        real: &["all 50 calls of the catalogue"],
        stub: &["scalar arithmetic incl. crash points", "operator, preconditioner, random source", "global allocator (accounting, poisoning)"],
        assume: &["leaks are measured per thread by the global allocator of the simulator", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C12",
        run: entry::c12,
        quick: 200000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. Histories of failing calls (39 scenarios, breaking pivots and NaN at arbitrary places) on shared operands followed by correct calls; error values and operands are compared exactly. Every run is non-trivial; distinct: hash over scenario and shape.",
        real: &["all routines with documented errors"],
        stub: &["scalar arithmetic", "soft faults: NaN elements"],
        assume: &["a pivot is only required to be refused when it is exactly zero or clearly negative", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C13",
        run: entry::c13,
        quick: 200000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. Direct decompositions and solvers on all element distributions (incl. NaN/Inf, extreme exponents), rounding environments and flush-to-zero, cut off by a step budget of 3000 (n+2)^3 operations. Non-trivial: the operand is not empty; distinct: hash over routine and exact number of operations.",
        real: &["all direct decompositions and solvers"],
        stub: &["scalar arithmetic incl. step budget", "soft faults: non-finite elements"],
        assume: &["native f32/f64 runs have no step budget and are watched by a wall-clock limit of 90 s", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C14",
        run: entry::c14,
        quick: 120000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. SVD calls (all factor combinations, owned/borrowed, sorted) in perturbed rounding environments, interleaved and cancelled, against one-sided Jacobi singular values and residuals in f64. Non-trivial: at least one call completed.",
        real: &["linfa_linalg::{svd, bidiagonal, givens, householder}"],
        stub: &["scalar arithmetic incl. crash points", "scheduler"],
        assume: &["tolerance 200 max(n,2) eps times the largest element", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C15",
        run: entry::c15,
        quick: 60000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. Symmetric eigensolver calls (vectors/values, owned/borrowed, sorted) in perturbed rounding environments, interleaved and cancelled, against cyclic Jacobi in f64. Non-trivial: at least one call completed.",
        real: &["linfa_linalg::{eigh, tridiagonal, givens, householder}"],
        stub: &["scalar arithmetic incl. crash points", "scheduler"],
        assume: &["tolerance 200 max(n,2) eps times the largest element", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C16",
        run: entry::c16,
        quick: 200000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. Histories of queries on one shared QR decomposition by several callers with cancellations and failing queries in between; every answer is compared with a fresh object and with the optimality conditions. Every run is non-trivial.",
        real: &["linfa_linalg::{qr, householder, reflection, triangular}"],
        stub: &["scalar arithmetic incl. crash points", "scheduler"],
        assume: &["solutions are checked for well-conditioned matrices only", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C17",
        run: entry::c17,
        quick: 200000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. Histories over the Cholesky and triangular API on shared operands by several callers with failing and cancelled calls in between. Non-trivial: at least one call completed.",
        real: &["linfa_linalg::{cholesky, triangular}"],
        stub: &["scalar arithmetic incl. crash points", "scheduler"],
        assume: &["positive definite matrices have condition below about 1e3", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C18",
        run: entry::c18,
        quick: 200000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shapes, request and environment are drawn from it. Histories of queries on shared bidiagonal and tridiagonal decompositions by several callers with cancellations, in perturbed rounding environments. Every run is non-trivial.",
        real: &["linfa_linalg::{bidiagonal, tridiagonal, householder}"],
        stub: &["scalar arithmetic incl. crash points", "scheduler"],
        assume: &["tolerance 200 max(n,2) eps times the largest element", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C19",
        run: entry::c19,
        quick: 200000,
        thorough: 100_000_000,
        rule: "one run = one seed: element distribution, shape (0 to 4 dimensions), storage form of every call and environment are drawn from it. Histories of norm calls by several callers on one array in perturbed rounding environments, cancelled and repeated, and again after elements of it were changed, against exact-to-rounding references. Non-trivial: every run.",
        real: &["linfa_linalg::norm"],
        stub: &["scalar arithmetic incl. crash points", "scheduler"],
        assume: &["elements whose squares stay within the format (no overflow or underflow of the intermediate sum)", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C20",
        run: entry::c20,
        quick: 400000,
        thorough: 100_000_000,
        rule: "one run = one seed: matrix, axes, offsets, storage and environment are drawn from it. Histories of reflections of rows and columns on one matrix in perturbed rounding environments, some cut short and repeated from the caller's copy, then everything undone in reverse order; every step is compared with the model image. Non-trivial: the matrix is not empty; distinct: shapes and lengths of history.",
        real: &["linfa_linalg::reflection"],
        stub: &["scalar arithmetic incl. crash points", "operand storage (windows with canaries, aliases)"],
        assume: &["axes are unit vectors up to 8 eps", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C21",
        run: entry::c21,
        quick: 800000,
        thorough: 100_000_000,
        rule: "one run = one seed: element type (numbers, special numbers, integers, boxed elements which panic while examined or made), shape, layout, storage and a history of zeroing, testing and editing are drawn from it; every element is compared with a model matrix after every call, also after calls cut short by a panicking element. Non-trivial: every run; distinct: shapes and operations.",
        real: &["linfa_linalg::triangular::{IntoTriangular, Triangular}"],
        stub: &["element type incl. crash points", "operand storage (layouts, copy-on-write aliases)", "global allocator (accounting)"],
        assume: &["panics come from the element's zero() and is_zero() only", "single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
    Prop {
        id: "C22",
        run: entry::c22,
        quick: 120000,
        thorough: 100_000_000,
        rule: "one run = one seed: matrix, random stream and a history of setting options (precision, limit, constraints, preconditioner), cloning, solving and solves cut short are drawn from it. Every answer is compared bitwise with the one of a new solver which was given the model's options in one fixed order, at the same position of the stream; iteration at the end likewise; larger limits, zero and identity preconditioners are tried for their effect. Non-trivial: at least one request was answered; distinct: hash over the history.",
        real: &["linfa_linalg::lobpcg::{TruncatedEig, TruncatedSvd, TruncatedEigIterator}"],
        stub: &["random source (RngCore)", "scalar arithmetic incl. crash points"],
        assume: &["single precision is simulated with the 24-bit format itself, not with f64", "directed rounding modes are emulated per operation (+ - * / sqrt and everything ndarray builds from them); exp/trigonometric functions are not used by the crate"],
    },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
