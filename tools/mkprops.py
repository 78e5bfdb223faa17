#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
L = "src/lobpcg/algorithm.rs"; E = "src/lobpcg/eig.rs"; S = "src/lobpcg/svd.rs"

p("C01", "Iterative eigen-results are self-certifying whatever interrupts the solve",
  "Whatever the preconditioner does, whatever start block of full column rank, tolerance, order, constraint set and iteration limit the caller gives, and whether the call ends with success or with an error that carries a best result, every result the iterative eigensolver hands out for a symmetric operator consists of exactly k eigenvalues in the requested order with k orthonormal vectors, all finite. "
  "Each eigenvalue is the Rayleigh quotient of its vector, each reported residual norm is the norm of the residual A v - lambda v of that very pair (within the complement of the constraints, if there are any), and no reported eigenvalue lies outside the operator's spectrum.",
  ["fault_sequences", "inputs", "configurations"],
  "all preconditioner fault sequences (identity, exact, stale, lost, scaled, sign-flipped, garbage, NaN/Inf block at any call), all interruption points (iteration budgets 0..), symmetric operators, start blocks, f32/f64 and faithful rounding environments",
  "The unit tests run a handful of fixed diagonal problems with well-behaved or no preconditioner, to convergence; they never look at the reported residual norms or at results of interrupted or failing solves.",
  [L], [("Rayleigh-Ritz over span{X,R,P}", L+": main loop of lobpcg"), ("best result tracking", L+": best_result"), ("deterministic order", L+": sorted_eig")],
  ["return value of lobpcg::lobpcg", "TruncatedEig::decompose"])

p("C02", "The best result so far survives an interruption at any iteration",
  "Giving the same iterative eigen-solve a larger iteration limit never yields a result whose total residual is larger. "
  "If an operator or preconditioner starts to deliver unusable (non-finite or rank-destroying) blocks in some iteration, the solve does not panic: it returns an error carrying exactly the result which the same solve stopped just before that iteration would have returned, and an error without a result only if not even one iterate existed.",
  ["crash_points", "fault_sequences"],
  "every iteration at which a collaborator fails, every kind of unusable block (NaN, +-Inf, all-zero, linearly dependent), every iteration limit",
  "No test passes a failing operator or preconditioner, and none compares the results of different iteration limits.",
  [L], [("best_result update before every exit", L+": main loop"), ("errors mapped to Err((err, best))", L+": break Err / map_err")],
  ["LobpcgResult of lobpcg::lobpcg"])

p("C03", "Iterative solves do bounded work and honour the collaborator contract",
  "For any behaviour of operator and preconditioner, one iterative eigen-solve calls the operator at most 1 + min(maxiter, 10 n) times and the preconditioner at most min(maxiter, 10 n) times, hands them only n-by-j blocks with 1 <= j <= k where j never grows, and returns. "
  "With iteration limit 0 or an already satisfied tolerance it asks the preconditioner for nothing, and a successful return before the limit is reached means that every pair met the requested tolerance when it was last iterated.",
  ["fault_sequences", "configurations"],
  "all collaborator behaviours (finite, NaN, Inf, garbage, constant, asymmetric), tolerances (0, tiny, huge), iteration limits (0, 1, .., usize::MAX), shapes",
  "The tests never count collaborator calls nor use uncooperative collaborators; a loop that fails to count an iteration or calls once more only shows under specific fault/limit combinations.",
  [L], [("iteration cap", L+": let mut iter = usize::min(n * 10, maxiter)"), ("active mask", L+": activemask")],
  ["sequence of calls of the operator and preconditioner closures"])

p("C04", "Constrained solves never leave the orthogonal complement",
  "If constraints of full column rank are given (orthonormal or not), then every block handed to the operator and every returned eigenvector is orthogonal to all of them, no matter which components a faulty preconditioner mixes into its output or when the solve is interrupted. "
  "When the constraints span an invariant subspace and the solve converges, the reported pairs are the extreme eigenpairs of the operator restricted to the complement.",
  ["fault_sequences", "inputs"],
  "all constraint sets (scaled, skewed, several columns), preconditioner fault sequences which inject constraint directions, interruption points",
  "One test uses one orthonormal constraint set with an identity preconditioner; leakage needs a preconditioner that leaves the complement or constraints which are not orthonormal.",
  [L], [("apply_constraints on start block and on every preconditioned residual", L+": apply_constraints")],
  ["operator inputs", "eigenvectors of the result"])

p("C05", "Solves converge to the true extreme eigenpairs once faults stop",
  "For a symmetric operator with separated extreme eigenvalues, a full-rank start block and n >= 5 k, an iterative eigen-solve whose preconditioner misbehaves only for a finite prefix of the calls reaches a tolerance comfortably above working precision within a bounded number of further iterations (in single precision it may also give up with the documented not-positive-definite error). "
  "The pairs it then reports are the k largest (or smallest) eigenpairs of the operator, not some other eigenpairs.",
  ["fault_sequences", "schedules"],
  "all finite prefixes of soft preconditioner faults (garbage, sign flips, scalings, permutations, stalls) on operators with spectral gap, with and without exact preconditioning afterwards, f64/f32, rounding environments",
  "Liveness after faults cannot be sampled by the fixed fault-free problems of the test-suite.",
  [L], [("conjugate directions P are kept over iterations and restarted when degenerate", L+": previous_p_ap"), ("Rayleigh-Ritz selects extreme pairs by order", L+": sorted_eig")],
  ["result and iteration count of lobpcg::lobpcg"])

p("C06", "Iterating over eigenpairs yields every pair exactly once, in order",
  "Over any history of steps the truncated eigenproblem iterator yields pairs that satisfy the eigen-equation, whose vectors are orthonormal to each other, to everything yielded before and to the constraints given by the user, also when the remaining complement has hardly room for the block of a step; it never yields more pairs than the complement of the constraints holds. With separated eigenvalues, and as long as there is room, the eigenvalues follow the spectrum in the requested order without repetition. "
  "A step that fails or is cut short (random source or arithmetic panics, degenerate random start block) yields nothing and loses nothing: stepping again continues with the same next pair.",
  ["histories", "crash_points", "fault_sequences"],
  "all step sizes, numbers of steps, user constraints, random streams (including degenerate ones) and crash points inside a step followed by retries",
  "The single iterator test takes three steps of size one on one matrix with one seed and no failure.",
  [E, L], [("found vectors become constraints only after success", E+": TruncatedEigIterator::next"), ("remaining pair counter", E+": remaining")],
  ["items yielded by TruncatedEigIterator", "TruncatedEig::into_iter / into_iter_step_size"])

p("C07", "Truncated SVD results are well-formed at any interruption point",
  "For every matrix, order, number of triplets, precision and iteration limit, a truncated SVD yields non-negative, finite singular values in the requested order, bounded by the largest singular value of the matrix, where for every triplet above the noise level the singular vectors on each side are orthonormal and correspond to each other (A v = sigma u for more rows than columns, A^T u = sigma v otherwise). "
  "When it is given enough iterations on a problem with separated singular values and thin shape, the triplets are the extreme singular triplets of the matrix; asking for zero triplets yields an empty result.",
  ["crash_points", "inputs", "configurations"],
  "all iteration cut-offs (0..), tall/wide/square, full-rank and rank-deficient matrices, both orders, random streams",
  "Tests cover three converged problems for the largest values only.",
  [S], [("eigenproblem of the smaller Gram matrix", S+": TruncatedSvd::decompose"), ("cut-off and ordering", S+": singular_values_with_indices"), ("other-side vectors A v / sigma", S+": values_vectors")],
  ["TruncatedSvdResult::values / values_vectors"])

p("C08", "The caller's random source is the only source of randomness",
  "Two runs of the same sequence of truncated eigen/SVD calls on random sources with the same stream give bitwise identical results, whatever ran before in the process, on which thread they run, and what freshly allocated memory happens to contain. "
  "The number of values drawn from the source depends on the shape of the request only (not on the data or on how the solve ends), a request for zero pairs draws none, successive requests continue the stream, and clones of a solver replay it independently.",
  ["schedules", "histories", "configurations"],
  "all random streams, heap contents, threads, interleavings with other solvers, request sequences and clone points",
  "A hidden random source, a shared generator or a read of uninitialised memory only shows when the same history is re-executed in a different environment, which unit tests never do.",
  [E, S, "src/lobpcg/mod.rs"], [("random start block from the caller's generator", "src/lobpcg/mod.rs: random"), ("generator owned by the solver", E+": TruncatedEig.rng")],
  ["results of TruncatedEig / TruncatedSvd", "calls of the RngCore given by the caller"])

p("C09", "Concurrent callers never influence each other",
  "For every interleaving of calls made from several threads, also when inputs are shared between them and some of the calls are cancelled by a panic half-way, and whatever ran earlier in the process, every call that completes returns bitwise the same result as when it runs alone (also as the first call of a new process). "
  "Shared input matrices and shared decomposition objects are never observed in a modified state.",
  ["schedules", "crash_points"],
  "all interleavings of arithmetic steps of 2-4 callers over all routines of the crate, with cancellations, f32/f64",
  "All tests run each routine once, single-threaded; hidden shared state shows only under specific interleavings or after an aborted call.",
  ["src/svd.rs", "src/eigh.rs", "src/qr.rs", "src/cholesky.rs", "src/triangular.rs", "src/bidiagonal.rs", "src/tridiagonal.rs", "src/householder.rs", "src/givens.rs", L],
  [("no global or thread-local state anywhere in the crate", "src/lib.rs"), ("&self queries do not mutate", "src/qr.rs: QRDecomp")],
  ["results of every public routine"])

p("C10", "In-place routines touch exactly the caller's own elements",
  "An in-place or consuming routine applied to a matrix that shares its storage with others (copy-on-write handles, borrowed data, strided, transposed or reversed views into a bigger buffer) gives the same result as on a plain copy, and changes nothing but the elements of the matrix it was given; this also holds at every point at which it may be cut short. "
  "Routines documented to read one triangle, or to leave the other triangle alone, do so: the Cholesky factorization does not depend on the upper triangle, and its dirty variants leave it unmodified.",
  ["crash_points", "inputs", "configurations"],
  "all storage kinds (owned, view, strided/reversed/transposed view, shared ArcArray, borrowed CowArray), aliasing handles, crash points inside the routine, in builds with and without debug assertions",
  "The tests use owned, contiguous, row-major arrays, in debug builds only, where the unchecked element accesses of release builds are not even compiled.",
  ["src/index.rs", "src/cholesky.rs", "src/triangular.rs", "src/qr.rs", "src/householder.rs", "src/givens.rs"],
  [("element access which un-shares copy-on-write data", "src/index.rs: atm"), ("slices and reversed axes instead of raw strides", "src/householder.rs: clear_row")],
  ["buffers around and behind the operands"])

p("C11", "An interruption at any arithmetic step leaks nothing and corrupts nothing",
  "If a call is interrupted by a panic at an arbitrary arithmetic step (a scalar type, operator or preconditioner that panics), operands passed by reference to non-mutating routines are bitwise unchanged, no memory stays allocated, and repeating the call gives bitwise the result of an uninterrupted run. "
  "Decomposition objects that were being queried remain fully usable and answer as before.",
  ["crash_points", "histories"],
  "every arithmetic step of every routine as crash point, repeated crashes, followed by retries on the same operands and objects",
  "No test interrupts a routine.",
  ["src/svd.rs", "src/eigh.rs", "src/qr.rs", "src/cholesky.rs", "src/bidiagonal.rs", "src/tridiagonal.rs", L],
  [("by-reference routines work on a copy", "src/svd.rs, src/eigh.rs, src/qr.rs, src/cholesky.rs: to_owned()"), ("owned arrays only, no manual memory management", "src/*")],
  ["operands and heap after catch_unwind", "results of retries"])

p("C12", "Failing calls report the right error and leave their operands intact",
  "A call that cannot be carried out (non-square, wide, empty, mismatching, singular, not positive definite or NaN-poisoned operands) returns the error documented for that situation instead of panicking or returning a result, wherever in the computation the problem surfaces. "
  "Operands given by reference, right-hand sides given for in-place solution and decomposition objects are unmodified after such an error, and later correct calls on them succeed.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of valid and invalid calls on the same operands; soft faults (NaN) injected at any pivot; all positions at which definiteness or invertibility breaks",
  "The tests check single error cases with fixed 2x2/3x2 operands, none checks the operands afterwards, none fails late in a computation.",
  ["src/lib.rs", "src/cholesky.rs", "src/qr.rs", "src/triangular.rs", "src/svd.rs", "src/eigh.rs", "src/bidiagonal.rs", "src/tridiagonal.rs", L],
  [("shape checks before the first write", "src/triangular.rs: solve_triangular_system_common"), ("pivot check", "src/cholesky.rs: cholesky_inplace_dirty"), ("is_invertible check before touching b", "src/qr.rs: solve_into")],
  ["Result values", "operands after Err"])

p("C13", "Direct decompositions always terminate within polynomial work",
  "For every input, including rank-deficient, graded, clustered, zero, NaN and infinite matrices, and for every faithful rounding or flush-to-zero environment, all direct decompositions and solvers finish, and for finite inputs within a number of arithmetic operations that is cubic in the size with a fixed constant. "
  "No input and no rounding behaviour makes them loop forever or panic.",
  ["inputs", "fault_sequences", "configurations"],
  "all matrices up to 40x40 incl. special values, all sequences of faithful rounding choices and underflow flushes at any operation",
  "Non-termination of the implicit QR loops depends on rare data and on the rounding of single operations; tests sample fault-free rounding on random well-scaled matrices.",
  ["src/svd.rs", "src/eigh.rs", "src/bidiagonal.rs", "src/tridiagonal.rs", "src/qr.rs", "src/cholesky.rs"],
  [("deflation criteria", "src/svd.rs, src/eigh.rs: delimit_subproblem"), ("Wilkinson shift", "src/eigh.rs: wilkinson_shift"), ("scaling by the largest element", "src/svd.rs, src/eigh.rs: amax")],
  ["number of scalar operations per call"])

p("C14", "SVD is exact to working precision in every rounding environment",
  "For every finite non-empty matrix, every faithful rounding environment and every interleaving or cancelled-and-retried call, the computed singular values are non-negative (never negative zero) and match the true ones, U and Vt are semi-orthogonal, and U S Vt reproduces the matrix, all up to a small multiple of working precision relative to its largest element. "
  "Requesting fewer factors changes none of those which are computed beyond rounding, and sorting is a consistent permutation of the triplets in the requested order.",
  ["fault_sequences", "inputs", "schedules"],
  "shapes 1x1..40x40, all element distributions incl. rank-deficient/graded/clustered, rounding choices at any operation, f32/f64, preemption and cancellation points",
  "Cancellation in special sub-blocks needs rare data (observed on this code base) and the reference tests use absolute tolerances on random uniform matrices with one rounding.",
  ["src/svd.rs", "src/bidiagonal.rs", "src/givens.rs", "src/householder.rs"],
  [("Golub-Kahan iteration", "src/svd.rs: svd"), ("zero-diagonal chasing", "src/svd.rs: cancel_horizontal_off_diagonal_elt / cancel_vertical_off_diagonal_elt"), ("2x2 solution", "src/svd.rs: compute_2x2_uptrig_svd"), ("sorting", "src/svd.rs: SvdSort")],
  ["SVD::svd, SVDInto::svd_into, SvdSort"])

p("C15", "Symmetric eigendecomposition is exact in every rounding environment",
  "For every finite symmetric matrix, every faithful rounding environment and every interleaving or cancelled-and-retried call, eigenvectors are orthonormal, V diag(lambda) V^T reproduces the matrix and the eigenvalues match the true spectrum (trace, order and multiplicity), all up to a small multiple of working precision relative to its largest element. "
  "The values-only routines agree with the full ones, and sorting is a consistent permutation of the pairs in the requested order.",
  ["fault_sequences", "inputs", "schedules"],
  "sizes 0..40, all element distributions incl. clustered/graded/rank-deficient/indefinite, rounding choices at any operation, f32/f64, preemption and cancellation points",
  "As for the SVD: wrong vectors need special sub-blocks; fixed-tolerance tests on random matrices flake rather than decide.",
  ["src/eigh.rs", "src/tridiagonal.rs", "src/givens.rs", "src/householder.rs"],
  [("implicit QR iteration", "src/eigh.rs: symmetric_eig"), ("2x2 solution", "src/eigh.rs: compute_2x2_eigvals"), ("sorting", "src/eigh.rs: EigSort")],
  ["Eigh, EighInto, EigValsh, EigValshInto, EigSort"])

p("C16", "A QR decomposition answers every history of queries consistently",
  "For every tall or square matrix, Q has orthonormal columns, R is exactly upper triangular with non-negative diagonal and Q R reproduces the matrix; over any history of queries on one decomposition object (factors, solves with either orientation, inverse, clones; repeated, concurrent, failing or cancelled ones in between) every answer is what a fresh decomposition would give. "
  "Solutions satisfy the least-squares (or, for wide problems, minimum-norm) optimality conditions to working precision for well-conditioned matrices.",
  ["histories", "schedules", "crash_points"],
  "all query histories on shared decomposition objects by several callers, shapes up to 12x12, rounding environments, cancellations",
  "Tests call each query once on a fresh object and check consistent square or exactly solvable systems only.",
  ["src/qr.rs", "src/householder.rs", "src/reflection.rs", "src/triangular.rs"],
  [("compact Householder form plus diagonal signs", "src/qr.rs: QRDecomp"), ("Q^T b without forming Q", "src/qr.rs: qt_mul"), ("transposed solve", "src/qr.rs: solve_tr_into")],
  ["QRDecomp methods", "LeastSquaresQr(Into)"])

p("C17", "Cholesky and triangular pipelines solve what they claim, in any history",
  "For every symmetric positive definite matrix of moderate condition, the factor is lower triangular with positive diagonal and reproduces the matrix, and solutions and inverses obtained through it satisfy their equations to working precision; triangular solves satisfy theirs for either triangle and any number of right-hand sides, and ignore the other triangle. "
  "All variants (in place, consuming, by reference, dirty) agree with each other over any history of calls, with failed, cancelled or concurrent calls in between; matrices with a clearly negative or zero pivot are always refused.",
  ["histories", "schedules", "fault_sequences"],
  "all histories over the Cholesky/triangular API on shared operands with several callers, sizes 0..12, rounding environments, cancellations, storage layouts",
  "Tests use fixed examples and proptest on single calls with owned row-major matrices.",
  ["src/cholesky.rs", "src/triangular.rs"],
  [("row-oriented factorization", "src/cholesky.rs: cholesky_inplace_dirty"), ("substitution", "src/triangular.rs: solve_triangular_system_common")],
  ["CholeskyInplace, Cholesky, SolveC, InverseC, SolveTriangular, IntoTriangular"])

p("C18", "Bidiagonal/tridiagonal decomposition objects reproduce their matrix",
  "For every non-empty matrix the bidiagonal decomposition's U and Vt are semi-orthogonal, B is bidiagonal (upper for rows >= columns, lower otherwise) with non-negative elements and U B Vt reproduces the matrix; for every symmetric matrix the tridiagonal decomposition's Q is orthogonal, T is symmetric tridiagonal with non-negative off-diagonals and Q T Q^T reproduces the matrix. "
  "This holds for any order and repetition of queries and clones on one object, by several callers and with cancelled calls in between, in every faithful rounding environment.",
  ["histories", "schedules", "fault_sequences"],
  "all query histories on shared decomposition objects, shapes 1x1..14x14 incl. rank-deficient and zero rows/columns, rounding environments, cancellations",
  "Tests check one order of queries on uniformly random matrices.",
  ["src/bidiagonal.rs", "src/tridiagonal.rs", "src/householder.rs"],
  [("Householder vectors stored in place", "src/householder.rs: clear_column / clear_row"), ("assembly with sign bookkeeping", "src/householder.rs: assemble_q"), ("absolute diagonals", "src/bidiagonal.rs: into_diagonals")],
  ["BidiagonalDecomp and TridiagonalDecomp methods"])

p("C19", "Norms match their definition on every storage, environment and history",
  "The L1, L2 and maximum norm of an array of any dimension equal the sum of absolute values, the root of the sum of squares (both to working precision, in every faithful rounding environment) and the largest absolute value (exactly) of its current elements. "
  "This holds for every storage form (owned, shared, view, strided, reversed, offset, broadcast, dynamic or static dimension), for any number of interleaved or cancelled-and-repeated calls and again after elements were changed; empty arrays have norm zero and the operand is never modified.",
  ["inputs", "schedules", "histories"], "finite arrays of 0 to 4 dimensions whose squares stay in the format; rounding choices at any operation; preemption and cancellation points; f32/f64",
  "One fixed 2x2 example.", ["src/norm.rs"], [("iteration over all elements", "src/norm.rs: Norm")], ["Norm methods"])

p("C20", "Reflections are involutive isometries in every history and on every storage",
  "Reflecting columns or rows at the hyperplane given by a unit axis and an offset maps every vector x to x - 2 (a.x - b) a to working precision, preserves inner products (for offset zero), and a history of reflections with different axes, undone in the opposite order, gives back the original. "
  "This holds in every faithful rounding environment, for owned and borrowed axes of any layout and for matrices in any storage (owned, windows, transposed views, copy-on-write), with nothing outside the operand written, and when calls are cut short and repeated from the caller's copy.",
  ["histories", "inputs", "crash_points"], "shapes 1..20 x 0..20, up to 16 steps with up to 4 axes, rounding choices at any operation, cancellation points",
  "Fixed axis-aligned examples only.", ["src/reflection.rs"], [("x - 2 (a.x - b) a", "src/reflection.rs: reflect_cols"), ("rows as columns of the transpose", "src/reflection.rs: reflect_rows")], ["Reflection methods"])

p("C21", "Triangular predicates and zeroing agree for every element type and history",
  "Zeroing one triangle of a square matrix changes exactly the elements strictly on the other side of the diagonal, and a matrix is reported triangular exactly if it is square and those elements are zero (negative zero is, NaN and subnormal numbers are not); other shapes are refused unmodified. "
  "This holds for every element type incl. ones which own memory (each element is dropped exactly once), every layout and copy-on-write storage, over any history of zeroing, testing and editing, also when an element panics midway: then every element is as before or zeroed and a later call finishes the work.",
  ["histories", "inputs", "crash_points"], "shapes 0..16, numbers, special numbers, integers and boxed elements, layouts, histories of up to 6 calls with panics at any element", "Two fixed examples.", ["src/triangular.rs"],
  [("index loops over the strict triangle", "src/triangular.rs: triangular_inplace / is_triangular")], ["IntoTriangular, Triangular"])

p("C22", "Options of a truncated solver mean the same in any history",
  "Options of the truncated solvers (precision, iteration limit, constraints, preconditioner), set in any order, any number of times (the last one wins), before or between requests, on clones and after interrupted requests, have the same effect as on a new solver: every answer, and every step of an iteration, equals bitwise that of a new solver with the same options at the same position of the random source. "
  "Each option acts on what it names only: a larger iteration limit never worsens the best residual reported, a preconditioner returning zero leaves the start block's Rayleigh-Ritz answer, the identity as preconditioner changes nothing beyond rounding.",
  ["histories", "crash_points", "configurations"],
  "histories of 2-9 settings, clones, requests and interrupted requests over up to 3 solvers, matrices 2..8 (rarely 24), both orders, degenerate random sources, f32/f64, rounding choices",
  "Each test sets one option once on a fresh solver and solves once.", [E, S],
  [("builder methods which replace one field", E+": TruncatedEig::{precision, maxiter, orthogonal_to, precondition_with}"), ("iteration built from the solver's options", E+": TruncatedEigIterator"), ("builder methods", S+": TruncatedSvd::{precision, maxiter}")],
  ["results of TruncatedEig / TruncatedEigIterator / TruncatedSvd"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
