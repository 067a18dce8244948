#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

RN = "rstsr-native-impl/src/cpu_rayon/"
AI = "rstsr-core/src/feature_rayon/auto_impl/"

prop("C01", "Parallel elementwise results equal their definition under every schedule",
 "On a multi-threaded device, every elementwise operation (tensor-tensor and tensor-scalar arithmetic, comparisons, unary functions, in-place updates, assignment, filling, copying between layouts, type-preserving copies and mapping a user function) yields, at every index, the operation's definition applied to the broadcast operands, whatever the number of threads and however work is split, stolen and interleaved. Every output element is produced exactly once (a user function is called once per output element) and memory of the target buffer outside the target view is left untouched.",
 ["schedules", "inputs", "configurations"],
 "all interleavings and work-splittings of the worker threads of a device with 1..n threads, from one or several calling threads, for all operand shapes, strides (negative, zero for broadcast inputs, permuted), offsets and sizes on both sides of the serial/parallel switch",
 "The tests run each operation a handful of times on real threads with whatever interleaving the OS chose, on small or contiguous tensors (mostly below the parallel thresholds); none controls splitting or stealing, and none counts how often an element is produced.",
 [RN+"assignment.rs", RN+"op_with_func.rs", AI+"op_binary_arithmetic.rs", AI+"op_binary_common.rs", AI+"op_ternary_common.rs", AI+"assignment.rs", "rstsr-common/src/par_iter.rs", "rstsr-common/src/layout/iterator.rs", "rstsr-common/src/layout/rearrangement.rs", "rstsr-core/src/tensor/map_elementwise.rs", "rstsr-core/src/tensor/assignment.rs"],
 [("disjoint splitting of the output layout between workers", RN+"op_with_func.rs"), ("layout iterator split_at used as rayon producer", "rstsr-common/src/par_iter.rs"), ("contiguous-run decomposition of common layouts", "rstsr-common/src/layout/rearrangement.rs")],
 observe=["values of the result tensor and of the whole underlying buffer", "per-element operation counts of an instrumented element type"])

prop("C02", "Parallel reductions include every selected element exactly once",
 "On a multi-threaded device, sums, products, minima, maxima, means, variances, standard deviations, norms, logical all/any, non-zero counts and closeness tests, over all elements or over any subset of axes of any tensor view, take every selected element into account exactly once (with the multiplicity given by broadcasting), whatever the number of threads and the schedule. The value equals the sequential definition exactly for exact element types and within rounding for floating point, and the result has the shape of the remaining axes.",
 ["schedules", "inputs", "configurations"],
 "all interleavings and splittings of the reduction tree, all thread counts, all shapes, strides, broadcast axes, offsets and axis subsets, on both sides of the chunking thresholds",
 "Tests compare a few fixed tensors against NumPy values; lost or doubled partial results only appear for particular splits, chunk remainders, stride patterns or axis subsets.",
 [RN+"reduction.rs", AI+"reduction.rs", "rstsr-core/src/tensor/reduction.rs", "rstsr-native-impl/src/cpu_serial/reduction.rs"],
 [("chunked parallel fold and combine", RN+"reduction.rs"), ("axis splitting of the layout", "rstsr-common/src/layout/"), ("device glue choosing pool or serial", AI+"reduction.rs")],
 observe=["result value and shape", "multiset of element identities folded in"])

prop("C03", "Parallel arg-reductions return the first extremum, schedule-independently",
 "On a multi-threaded device, locating the minimum or maximum over all elements or over axes, as a flat or per-axis index, always returns the index of an element attaining the extremum, and among equal extrema the one that comes first in row-major order of the axes searched (NaN counting as the extremum, as in NumPy), whatever the number of threads and the schedule. The index refers to the logical view, not to memory.",
 ["schedules", "inputs", "configurations"],
 "all interleavings and splittings, thread counts, view shapes/strides/offsets, axis subsets and data with repeated extrema",
 "Tie-breaking between partial results of different workers depends on which splits happened; tests use distinct values or sizes that never go parallel.",
 [RN+"reduction.rs", AI+"reduction.rs", "rstsr-core/src/tensor/reduction.rs", "rstsr-native-impl/src/cpu_serial/reduction.rs"],
 [("indexed fold with tie-breaking on index", RN+"reduction.rs"), ("ravel/unravel of indices", "rstsr-native-impl/src/cpu_serial/reduction.rs")],
 observe=["returned index values"])

prop("C04", "Matrix products equal their definition on every parallel device",
 "On every multi-threaded device, matrix products and vector dot products (vector, matrix and batched operands with broadcasting, any layout, optional scaling of the product and accumulation into an existing output) equal the defining sum of products, exactly for exact element types and within rounding for floating point, whatever the number of threads and the schedule. The previous content of an output that is not accumulated into never influences the result, an accumulated output contributes exactly once, and operands and memory outside the output view are unchanged.",
 ["schedules", "inputs", "configurations"],
 "all interleavings, thread counts, BLAS back ends, batch shapes on both sides of the outer-parallel switch, layouts of all three operands, alpha and beta",
 "Tests use small products with one or two layouts per device, alpha=1/beta=0 and almost never go through the outer-parallel batch path, non-contiguous outputs or element types without a BLAS routine.",
 ["rstsr-core/src/device_faer/matmul.rs", "rstsr-core/src/device_faer/matmul_impl.rs", RN+"matmul_naive.rs", RN+"vecdot.rs", "crates-device/rstsr-openblas/src/matmul.rs", "crates-device/rstsr-openblas/src/matmul_impl.rs", "crates-device/rstsr-mkl/src/matmul_impl.rs", "crates-device/rstsr-blis/src/matmul_impl.rs", "crates-device/rstsr-aocl/src/matmul_impl.rs", "crates-device/rstsr-kml/src/matmul_impl.rs"],
 [("batched dispatch inner- or outer-parallel", "crates-device/rstsr-openblas/src/matmul.rs"), ("layout normalisation and copies for the BLAS call", "crates-device/rstsr-openblas/src/matmul_impl.rs"), ("symmetric rank-k shortcut for a times its own transpose", "rstsr-core/src/device_faer/matmul_impl.rs"), ("generic blocked product", RN+"matmul_naive.rs")],
 observe=["output buffer values", "calls received by the simulated BLAS library"])

prop("C05", "Parallel and double-ended iterators visit each item once with its own index",
 "Iterating over a tensor's elements or over sub-tensors along chosen axes, by reference or mutably, with or without indices, forwards, backwards, from both ends or in parallel, visits each item exactly once, and an item's reported index always addresses that very item. Collecting in parallel yields the sequential order, and mutable items handed to different threads never overlap, however the iteration is split.",
 ["schedules", "inputs", "programs"],
 "all split trees and interleavings the parallel runtime may choose, all sequences of next/next_back/split calls, all view layouts, axis selections and iteration orders",
 "Tests iterate forwards over whole small tensors; split positions, mixed front/back consumption and reversed or indexed parallel iteration are unexplored.",
 ["rstsr-core/src/tensor/iterator_elem.rs", "rstsr-core/src/tensor/iterator_axes.rs", "rstsr-common/src/layout/iterator.rs", "rstsr-common/src/par_iter.rs", "rstsr-core/src/feature_rayon/par_iter.rs"],
 [("split_at of layout iterators", "rstsr-common/src/layout/iterator.rs"), ("rayon producer adaptor", "rstsr-common/src/par_iter.rs"), ("element and axes iterators", "rstsr-core/src/tensor/iterator_axes.rs")],
 observe=["sequence of visited (index, value) pairs per thread and collected result"])

prop("C06", "Parallel data movement places every element where its definition says",
 "On a multi-threaded device, packing and unpacking of triangles, index and boolean selection, concatenation and stacking, layout changes (transposition, contiguous copies, reshaping with copy), triangle extraction and range/grid creation put exactly the defined source value at every destination index and nowhere else, whatever the number of threads, the schedule and the view layouts. Selecting with an invalid index reports an error instead of returning data.",
 ["schedules", "inputs", "configurations"],
 "all interleavings and thread counts, batch shapes, upper/lower and symmetry variants, axes, index lists with repeats and negatives, source and destination layouts",
 "Tests check a few shapes per routine, in one order, mostly below the parallel switch.",
 [RN+"op_tri.rs", RN+"adv_indexing.rs", RN+"transpose.rs", RN+"creation.rs", "rstsr-core/src/tensor/operators/op_tri.rs", "rstsr-core/src/tensor/adv_indexing.rs", "rstsr-core/src/tensor/creation_from_tensor.rs", "rstsr-core/src/tensor/manipulation/to_contig.rs"],
 [("batched triangle kernels", RN+"op_tri.rs"), ("parallel gather", RN+"adv_indexing.rs"), ("blocked out-of-place transposition", RN+"transpose.rs")],
 observe=["destination values", "error results"])

prop("C07", "A panic inside a parallel operation is contained",
 "If an element operation or user function panics at any moment inside an operation running on a multi-threaded device, the panic reaches the caller after all workers have stopped touching the operands, and no result is returned. Read-only operands are unchanged, each element of an in-place target holds its old or its new value, no element is dropped twice or used after being dropped, and the device, its pool and other callers keep working and give correct results afterwards.",
 ["crash_points", "schedules"],
 "every instant at which an element operation or callback may panic, under every interleaving of the other workers, for every operation family",
 "No test injects a panic into a running parallel operation.",
 [RN+"assignment.rs", RN+"op_with_func.rs", RN+"reduction.rs", RN+"vecdot.rs", RN+"matmul_naive.rs", "rstsr-common/src/alloc_vec.rs", "rstsr-core/src/feature_rayon/device.rs"],
 [("outputs built as possibly-uninitialised memory and only then assumed initialised", "rstsr-core/src/storage/creation.rs"), ("rayon panic propagation out of the device pool", "rstsr-core/src/feature_rayon/device.rs")],
 observe=["caller-visible unwind", "live-object registry of instrumented elements", "later operations on the same device"])

prop("C08", "Failing memory allocation never yields wrong data or damage",
 "If memory for an operation's output or workspace cannot be obtained at any point, the operation ends with an error or a panic and never returns a tensor with missing or wrong values, its operands keep their values, and nothing is leaked beyond what the failing call itself had obtained. Afterwards, with memory available again, the same device and operands work normally, and the error-returning form of a creation routine given a shape or a number of points reports exhaustion of the requested buffer as an error value.",
 ["fault_sequences", "schedules"],
 "every allocation request made during an operation, in any thread, failing once or repeatedly, under every interleaving",
 "Allocation failure cannot be provoked by ordinary tests.",
 ["rstsr-common/src/alloc_vec.rs", "rstsr-core/src/device_cpu_serial/creation.rs", AI+"creation.rs", "rstsr-core/src/tensor/creation.rs"],
 [("fallible reservation of output buffers", "rstsr-common/src/alloc_vec.rs"), ("error propagation through the _f API", "rstsr-core/src/tensor/creation.rs")],
 observe=["returned errors", "allocator accounting", "operand values"])

prop("C09", "Results never depend on stale memory; every element is owned exactly once",
 "No operation reads or drops an element that has not been given a value: results are the same whatever bytes freshly allocated or recycled memory contains, whatever the schedule. Every element value an operation creates is dropped exactly once, at the latest when the last tensor owning it is gone, for element types that own resources as well as for plain numbers.",
 ["histories", "schedules", "inputs"],
 "all contents of fresh memory, all sequences of creating, combining, converting, overwriting and dropping tensors, all schedules",
 "The tests use plain numbers only, and the allocator usually hands out zeroed or unlucky-but-harmless memory.",
 ["rstsr-common/src/alloc_vec.rs", "rstsr-core/src/storage/creation.rs", "rstsr-core/src/tensor/creation.rs", RN+"op_with_func.rs", RN+"assignment.rs", RN+"reduction.rs", RN+"matmul_naive.rs", RN+"vecdot.rs"],
 [("uninitialised buffers written through MaybeUninit before being assumed initialised", "rstsr-core/src/storage/creation.rs"), ("element writes in kernels", RN+"op_with_func.rs")],
 observe=["construction/drop registry of instrumented elements", "results under different memory fill patterns"])

prop("C10", "Handles sharing one buffer stay isolated across threads",
 "Tensors that share storage (shared handles, copy-on-write handles, views) behave as independent values: modifying or converting one handle is never visible through another handle, and never fails because other handles exist or are being dropped by other threads at the same moment. Any number of threads may read the same tensor or run operations on it concurrently and each obtains the result it would obtain alone; the buffer is released exactly once, after the last handle is gone.",
 ["schedules", "histories"],
 "all interleavings of several threads cloning, reading, mutating, converting and dropping handles of the same buffer",
 "The tests use shared handles from one thread, without concurrent mutation or conversion.",
 ["rstsr-core/src/storage/data.rs", "rstsr-core/src/tensor/ownership_conversion.rs", "rstsr-core/src/tensorbase.rs", "rstsr-core/src/tensor/device_conversion.rs"],
 [("reference-counted storage with clone-on-write", "rstsr-core/src/storage/data.rs"), ("copy-on-write storage", "rstsr-core/src/storage/data.rs"), ("conversion to owned/shared tensors", "rstsr-core/src/tensor/ownership_conversion.rs")],
 observe=["values seen through every handle after every step, against a model of independent values"])

prop("C11", "Thread configuration changes speed only; operations always terminate",
 "Running an operation from a plain thread, from inside the device's own pool, from inside another pool, from several threads at once, or while clones of the device are reconfigured gives the same result, and the operation finishes after a bounded amount of work with no deadlock. A device reports the thread count it was configured with, work submitted from outside a pool runs on that device's own workers only, reconfiguring one device handle does not affect operations or other handles, and failure to create worker threads surfaces as a panic or error that leaves the device unchanged and usable.",
 ["schedules", "configurations", "fault_sequences"],
 "all nestings of pools and callers, thread counts from 1 up, reconfiguration at any moment, thread-creation failure at any worker, every interleaving",
 "Tests run each operation from one plain thread with the default pool.",
 ["rstsr-core/src/feature_rayon/device.rs", "rstsr-core/src/device_faer/device.rs", "crates-device/rstsr-openblas/src/device.rs", AI+"reduction.rs", RN+"op_with_func.rs", "rstsr-core/src/device_faer/matmul.rs"],
 [("own pool unless already inside a worker", "rstsr-core/src/feature_rayon/device.rs"), ("pool creation and replacement", "rstsr-core/src/feature_rayon/device.rs")],
 observe=["results", "which simulated worker executed each element operation", "step counts, deadlock detection"])

prop("C12", "BLAS thread settings are given back and respected",
 "Any operation that delegates to an external BLAS/LAPACK library leaves the library's thread settings, as the caller and other threads see them, exactly as they were before the operation, whether it returns, fails or panics, once all operations in flight have ended, even when operations run concurrently or nested. While it runs, library calls issued from parallel regions use one library thread each and no call uses more library threads than the device is configured for.",
 ["schedules", "crash_points", "histories"],
 "all interleavings of concurrent and nested operations on several devices, all batch sizes and thread counts, panics and failing calls inside delegated sections, for every supported BLAS back end",
 "Tests never observe the library's thread setting, run one operation at a time, and use a single-threaded library.",
 ["crates-device/rstsr-openblas/src/threading.rs", "crates-device/rstsr-mkl/src/threading.rs", "crates-device/rstsr-blis/src/threading.rs", "crates-device/rstsr-aocl/src/threading.rs", "crates-device/rstsr-kml/src/threading.rs", "crates-device/rstsr-openblas/src/matmul.rs", "rstsr-blas-traits/src/threading.rs"],
 [("scoped change of the library's thread count", "crates-device/rstsr-openblas/src/threading.rs"), ("outer-parallel batches pin the library to one thread", "crates-device/rstsr-openblas/src/matmul.rs")],
 state=[("library thread count", "process-wide or per-thread setting inside the BLAS library", "external BLAS library")],
 observe=["thread-count calls and compute calls received by the simulated BLAS library"])

prop("C13", "Formatting into a failing sink reports the failure faithfully",
 "Printing a tensor writes the same text whatever the sink's chunking and whatever other threads do, and when the sink fails at any point the failure is returned to the caller, what was written up to then is a prefix of the full text, nothing more is written after the failure, and formatting neither panics nor changes the tensor.",
 ["fault_sequences", "inputs", "schedules"],
 "a sink that fails at every possible write, all tensor shapes, layouts, format options, and concurrent printing of the same tensor",
 "Tests print to strings, which never fail.",
 ["rstsr-core/src/format/format_tensor.rs"],
 [("recursive printer propagating write errors", "rstsr-core/src/format/format_tensor.rs")],
 observe=["bytes accepted by the sink and the returned result"])

prop("C14", "Parallel pairwise distances equal their definition for every pair",
 "On a multi-threaded device, pairwise distances between two sets of points, weighted or not, equal the metric's definition for every pair, stored at that pair's index, whatever the number of threads, the schedule and the operand layouts; each pair is evaluated, with the operands unchanged, and a panic in a user-supplied metric reaches the caller.",
 ["schedules", "inputs", "crash_points"],
 "all interleavings and batch splits, thread counts, operand layouts and offsets, metrics, storage orders",
 "The only parallel test prints the result of one fixed case.",
 ["rstsr-sci-traits/src/distance/native_impl.rs", "rstsr-sci-traits/src/distance/auto_impl_rayon.rs", "rstsr-sci-traits/src/distance/impl_faer.rs", "rstsr-sci-traits/src/distance/metric.rs"],
 [("two-level blocked parallel loop writing disjoint blocks", "rstsr-sci-traits/src/distance/native_impl.rs")],
 observe=["result matrix, per-pair evaluation counts"])

prop("C15", "Linear-algebra routines keep their contracts under any schedule",
 "On multi-threaded devices, decompositions and solvers (Cholesky, triangular, symmetric and general solve, inverse, determinant, eigenvalues, singular values, pseudo-inverse) satisfy their defining equations within rounding for every thread count, schedule and operand layout, and calls issued concurrently do not disturb one another. Operands passed by reference are unchanged, operands passed for overwriting end up holding the result, matrices that are not positive definite (where a routine needs that) and non-square matrices are reported as errors, and the back end's process-wide parallelism setting is left as it was.",
 ["schedules", "inputs", "configurations"],
 "all interleavings and thread counts, matrix sizes, layouts, triangle choices, overwrite or preserve, single and concurrent callers",
 "Tests check one fixed matrix per routine and layout on one thread at a time.",
 ["rstsr-linalg-traits/src/faer_impl/", "rstsr-linalg-traits/src/blas_impl/", "rstsr-core/src/tensor/tensor_mutable.rs", "rstsr-blas-traits/src/"],
 [("overwrite-aware operand wrapper", "rstsr-core/src/tensor/tensor_mutable.rs"), ("thread count handed to the back end", "rstsr-linalg-traits/src/faer_impl/")],
 observe=["residuals of the defining equations", "operand buffers"])

prop("C20", "Safe operations are free of data races",
 "Whatever the schedule and the thread count, the threads that take part in safe operations (the calling threads, which may share tensors and devices, and the pool workers that execute pieces of an operation) never access the same memory location, at least one of them writing or releasing it, without synchronisation that orders the two accesses, for element types that may be shared between threads. In particular the pieces an operation is split into write disjoint memory, read nothing that another piece writes, and writing through a view whose elements are shared by several indices is refused unless each element is written once.",
 ["schedules", "inputs", "configurations"],
 "all interleavings, work splits and thread counts, all operations on tensors, operand layouts, offsets and broadcasts, single and concurrent callers",
 "A data race usually leaves the right values behind: it shows in results only under rare timing, and tests compare results.",
 ["rstsr-native-impl/src/cpu_rayon/", "rstsr-common/src/par_iter.rs", "rstsr-common/src/layout/iterator_generation.rs", "rstsr-core/src/feature_rayon/", "rstsr-core/src/device_faer/", "rstsr-core/src/storage/data.rs", "rstsr-core/src/tensor/iterator_elem.rs", "rstsr-core/src/tensor/iterator_axes.rs", "rstsr-core/src/tensor/operators/", "rstsr-sci-traits/src/distance/native_impl.rs"],
 [("raw pointer writes from several pool jobs into one buffer", "rstsr-native-impl/src/cpu_rayon/"), ("splitting of mutable iterators", "rstsr-common/src/par_iter.rs"), ("shared buffers with copy on write", "rstsr-core/src/storage/data.rs")],
 observe=["every plain memory access of the instrumented crates with its vector clock"])

# listed, not claimed (pure functions of their input)
prop("C16", "Views select exactly the elements their indexing expression names",
 "Slicing, indexing with ranges, steps, ellipsis and new axes, transposing, flipping, broadcasting, squeezing, diagonal extraction and reshaping without copy produce views whose element at every index is the one NumPy's rules name, and reject what NumPy rejects.",
 ["inputs"], "all shapes, strides and indexing expressions",
 "An unbounded input space; tests sample it.",
 ["rstsr-common/src/layout/", "rstsr-core/src/tensor/indexing.rs", "rstsr-core/src/tensor/manipulation/"],
 [("layout algebra", "rstsr-common/src/layout/")])
prop("C17", "Error-returning forms return errors where panicking forms panic",
 "For every operation, the error-returning form returns an error exactly when the panicking form panics, never panics itself on invalid arguments, and both agree on every valid input.",
 ["inputs", "programs"], "all operations and all argument values",
 "Tests call one of the two forms with valid arguments.",
 ["rstsr-common/src/error.rs", "rstsr-core/src/tensor/"],
 [("_f functions and rstsr_unwrap", "rstsr-common/src/error.rs")])
prop("C18", "Element-type promotion follows the published promotion table",
 "Mixed-type operations and conversions produce the element type of the promotion table and the value obtained by converting both operands to it.",
 ["inputs"], "all pairs of element types and values",
 "Tests cover selected pairs.",
 ["rstsr-dtype-traits/src/"],
 [("promotion traits", "rstsr-dtype-traits/src/promotion.rs")])
prop("C19", "Contraction expressions equal their defining sums",
 "Tensor contractions given by an index expression equal the defining sum over repeated indices for every expression, shape and operand layout.",
 ["inputs"], "all index expressions and shapes",
 "Tests cover selected expressions, and the plug-in cannot be linked here.",
 ["crates-plugin/rstsr-tblis/src/"],
 [("delegation to the contraction library", "crates-plugin/rstsr-tblis/src/einsum_impl.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
