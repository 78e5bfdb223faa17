#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: seeded search over "
CHECKS = {
 "C01": ("preconditioner fault scripts, interruption points and rounding environments; every result certified against f64 reference algebra", "release and debug-assertion builds; f32 runs in (almost) nearest rounding only"),
 "C02": ("iteration limits and the iteration in which a collaborator breaks; history comparison bit by bit", "cut-off results compared bitwise with those of the interrupted solve"),
 "C03": ("collaborator behaviours incl. NaN/Inf, limits and tolerances; call-sequence invariants", "counts and shapes of collaborator calls are checked exactly"),
 "C04": ("constraint sets and preconditioners leaking constraint directions; invariant on every operator input and result", "looser bound without room in the complement in f32"),
 "C05": ("finite prefixes of preconditioner faults; liveness as bounded number of iterations once faults stop", "gapped spectra, n >= 5k"),
 "C06": ("iterator step histories with random source panics, crashes inside a step, degenerate streams; sequence compared with the reference spectrum", "order asserted on separated spectra with room for blocks"),
 "C07": ("interruption points of truncated SVDs and random streams; result objects checked against reference singular values", "vectors checked above the noise level of the Gram matrix approach"),
 "C08": ("random streams, heap contents, threads, interleavings and request histories; bitwise re-execution", "exact comparison"),
 "C09": ("interleavings of several callers at arithmetic steps with cancellations; bitwise comparison with solo executions", "pre-emption at arithmetic operations; native scalars only at call boundaries"),
 "C10": ("storage layouts, aliases and crash points; canaries and aliases compared bitwise", "release and debug-assertion builds"),
 "C11": ("crash points at arithmetic steps and inside collaborators; heap accounting, operand and retry comparison", "exact comparison"),
 "C12": ("histories of failing and correct calls with soft faults; error values and operands compared exactly", "pivots only clearly negative, zero or NaN"),
 "C13": ("rounding choices, flush-to-zero, non-finite and extreme elements under a step budget", "bound 3000 (n+2)^3 operations; the tree needs about 1% of it"),
 "C14": ("rounding choices, flush-to-zero, pre-emption and cancellation points; residual oracle in f64", "tolerance 200 max(n,2) eps"),
 "C15": ("rounding choices, flush-to-zero, pre-emption and cancellation points; residual oracle in f64", "tolerance 200 max(n,2) eps"),
 "C16": ("query histories on shared decompositions with pre-emption, cancellation and failing queries; fresh-object oracle and optimality conditions", "well-conditioned matrices for solutions"),
 "C17": ("call histories with pre-emption, cancellation, failing calls and rounding choices; reference factor and residual oracle", "condition below about 1e3"),
 "C18": ("query histories on shared decompositions with pre-emption, cancellation and rounding choices; fresh-object and residual oracle", "tolerance 200 max(n,2) eps"),
 "C19": ("rounding choices, storage forms, pre-emption and cancellation points and in-place edits between calls; reference sums in f64", "maximum exactly, sums up to 4 (n + 3) eps"),
 "C20": ("histories of reflections with rounding choices, storage faults and cancelled steps; model image after every step and reversal of the history", "tolerance 16 (n + 4) eps per step"),
 "C21": ("histories of zeroing, testing and editing on elements which panic or own memory; comparison with a model matrix and element accounting", "exact comparison"),
 "C22": ("histories of option settings, clones, requests and interrupted requests; bitwise comparison with a new solver at the same stream position", "exact comparison; monotonicity and preconditioner effects within rounding"),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash check.sh build",
  checks=[dict(property=k, quick_cmd=f"bash check.sh {k} quick", thorough_cmd=f"bash check.sh {k} thorough",
    technique=T + v[0], level="exploration", level_note=v[1]) for k, v in CHECKS.items()],
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
assert {p["id"] for p in props} == set(CHECKS) | set(NA)
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
