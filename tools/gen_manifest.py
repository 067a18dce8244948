#!/usr/bin/env python3
"""Write MANIFEST.json. Run after changing what is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: seeded search over schedules{f} of the real code on a simulated thread pool, oracle: {o}"
ASSUME = (" Sampled, not exhaustive: a clean batch is evidence, not proof. Trusts the simulated rayon-core (same API and "
          "split/steal semantics as the published one) and the reference model.")
CLAIMS = {
 "C01": ("", "element-by-element reference model over strides", "Every elementwise family on generated views, devices and calling contexts under seeded work splitting, stealing and preemption inside element operations."),
 "C02": ("", "direct fold over the elements each result element selects, exact for integers and within any-order rounding for floats", "All reductions, all-element and axes forms, closeness tests; views with broadcast, negative and gapped strides, sizes around the parallel thresholds, empty tensors, concurrent callers and every calling position."),
 "C03": ("", "first extremum of a direct scan in row-major order of the axes given", "argmin/argmax flat, unraveled, over all elements and over axes, with many ties, NaN and infinities."),
 "C05": ("", "index/position sequence computed from the strides; exactly-once counters in the buffer for mutable walks", "Element, axes and layout iterators, shared and mutable, with and without index: scripts of next/next_back/nth/split, pieces on simulated threads, rayon adaptors (collect, rev, enumerate, chunks, zip, skip/take, step_by, for_each)."),
 "C06": ("", "index-by-index model of where each operation puts each source element", "Layout conversions, reshapes, transposition, concatenation/stacking, selections (out-of-range indices must be refused), triangles, diagonals, grids, ranges, fills and blocked order changes, around the parallel thresholds."),
 "C04": ("", "direct sum of products over the stride model, exact for integers and within a rounding bound for floats", "Vector, matrix and batched products and vector dots of every layout, with and without scaling and accumulation into strided outputs holding stale content, integer/float/complex/user element types, symmetric rank-k shortcut, on the faer device and the five BLAS devices, around the threshold where the back end goes parallel."),
 "C07": (" and panic points inside element operations", "old-or-new value per element, ownership registry, pool health and model results after the panic", "Every operation family with a panicking element type or callback; the panic is raised at the n-th element operation of the run (any worker), with other callers running."),
 "C08": (" and failing allocations", "model results of everything that does return, unchanged operands, byte accounting, error values of the fallible creation forms", "Every operation family under single and repeated allocation failures at the n-th request of the operation in any thread, then the same operation again with memory available."),
 "C09": (" and contents of fresh memory", "registry of constructed/dropped elements and results under poisoned memory", "Every operation family over plain and resource-owning element types with freshly allocated memory filled with patterns; histories of creating, combining, overwriting, converting and dropping tensors. Known findings (see known_findings.txt): output forms leak the elements they overwrite; re-layout leaves unused places uninitialised."),
 "C10": (" and histories of handle operations", "model of independent values per handle, checked through every handle after every step", "Threads clone, read, mutate, convert and drop shared, copy-on-write and view handles of one buffer at every interleaving point; buffer release counted."),
 "C11": (" and thread-creation failures", "which simulated worker ran each element operation, reported thread counts, bounded steps and deadlock detection, model results", "Operations from plain threads, own and foreign pools, nested installs, concurrent reconfiguration of device clones, spawn failures at any worker; on the faer device and the five BLAS devices."),
 "C12": (" and panics, failing allocations and failing library calls inside delegated sections", "models of the thread settings of the five libraries, compared after every operation and at every library call", "Products, factorisations, solvers and nested scoped settings on the five BLAS devices, concurrent and nested callers, each library's documented scope of settings (process-wide, per thread, or both) simulated behind its control routines; the LAPACKE and dynamically loaded variants are not covered."),
 "C13": (" and failing writers", "prefix relation with the fault-free text, returned error, no write after failure", "Printing with all format options to string, fmt and io sinks that fail at the n-th write, chunk differently, and to elements whose own formatting fails; concurrent printing."),
 "C14": (" and panicking metrics", "definition of each metric for every pair, pair counters for user metrics", "All metrics, weighted or not, layouts, batch remainders, caller positions, panics in user metrics."),
 "C20": ("", "happens-before race detector: vector clocks over fork/join of pool jobs, threads, atomic operations and blocking primitives, checked at every plain memory access to heap blocks", "The fault-free workloads of C01-C06, C10, C13 and C14 (thorough: also C11, C15 and the BLAS devices). Each pool job has its own clock, so pieces that the schedule happened to run one after the other are still recognised as concurrent. Accesses to stacks and statics, and those inside precompiled code (std's non-generic functions, gemm/faer kernels, BLAS), are not followed."),
 "C15": ("", "residuals of the defining equations against a dense reference within rounding; operand and parallelism-setting checks", "Cholesky, triangular/symmetric/general solve, inverse, determinants, (generalised) eigenproblems, SVD with every driver, pseudo-inverse and the level 3 builders with every way of passing operands, on the faer device and the five BLAS devices, concurrent callers."),
}
NA = {
 "C16": "View algebra is a pure function of the layout and the indexing expression: no schedule, clock, I/O, randomness or fault takes part, so there is nothing for a simulator to decide (views still serve as operands of every simulated workload).",
 "C17": "Whether an invalid argument is reported as an error or a panic is a pure function of the arguments; no schedule or fault takes part. The fault-related part (error forms under allocation failure) is claimed as C08.",
 "C18": "Promotion is resolved at compile time by traits and is a pure function of types and values; no schedule or fault takes part.",
 "C19": "The contraction plug-in delegates to an external library that is not installed and cannot be linked here, and the code around it is a pure translation of the index expression.",
}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    extra = os.path.join(here, "tools", "claims.json")
    checks = []
    claims = dict(CLAIMS)
    if os.path.exists(extra):
        claims.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
    for p in sorted(claims):
        f, o, note = claims[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "technique": T.format(f=f, o=o), "level": "exploration", "level_note": note + ASSUME})
    na = [{"property": p, "reason": NA.get(p, "Not claimed yet: the workload for it is still being built.")} for p in props if p not in claims]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the seams are cargo's [patch] for rayon-core, the global allocator, the BLAS symbols, element types, writers, and compiler instrumentation (rustc wrapper) that hands every atomic operation and plain memory access of the crates under test to the simulator."}
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
main()
