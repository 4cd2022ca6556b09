#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

K = ["src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_kernel.rs", "src/zgemm_kernel.rs", "src/cgemm_common.rs"]
p("C01", "Real GEMM computes alpha*A*B + beta*C for every shape, stride and kernel",
  "For every valid call of the f32 or f64 entry point, each of the m*n elements of C ends up equal (in exact arithmetic) to alpha times the dot product of its row of A and its column of B over all k terms, plus beta times its old value. This holds for every shape, every row/column stride combination of A, B and C, and every CPU-specific kernel the library may select.",
  ["inputs", "configurations"], "all m,k,n, all alpha/beta, all strides (positive, negative, zero for A/B), every kernel variant and blocking size",
  "The tests sample a few hundred small shapes with positive stride multipliers and only the kernels the test host selects; blocking beyond one NC panel, negative strides and most remainder shapes are never reached.",
  ["src/gemm.rs", "src/packing.rs", "src/util.rs"] + K[:2],
  [("five blocked loops around a micro-kernel", "src/gemm.rs: gemm_loop, gemm_packed"), ("SIMD and fallback micro-kernels", "src/sgemm_kernel.rs, src/dgemm_kernel.rs"), ("operand packing", "src/packing.rs: pack_impl")])
p("C02", "Complex GEMM computes alpha*A*B + beta*C with true complex products",
  "For every valid call of the complex f32 or f64 entry point, each element of C ends up equal (in exact arithmetic) to alpha*(A*B) + beta*C with complex multiplication, real and imaginary parts never mixed up, for every shape, stride and kernel variant. alpha and beta with non-zero imaginary parts are fully honoured.",
  ["inputs", "configurations"], "all m,k,n, all complex alpha/beta/data, all strides, every complex kernel variant",
  "Tests compare a few small shapes against a naive loop with a tolerance and a small set of alpha/beta values; only the kernel picked by the host CPU runs.",
  K[2:] + ["src/gemm.rs", "src/kernel.rs"],
  [("split real/imaginary packing", "src/cgemm_common.rs: pack_complex"), ("complex micro-kernels", "src/cgemm_kernel.rs, src/zgemm_kernel.rs, src/cgemm_common.rs"), ("complex scalar arithmetic", "src/kernel.rs: c32_mul, c64_mul")])
p("C03", "beta scales the old C exactly once, also when k is zero",
  "The old contents of C are scaled by beta exactly once per call, however many blocks the inner dimension is split into; partial products of later blocks are accumulated without rescaling. When k is zero the call leaves C equal to beta times its old contents.",
  ["inputs"], "all shapes, in particular any number of blocks of the inner dimension and k = 0; all beta",
  "Existing tests use beta in {0,1,2}-like values, and inner dimensions of at most two blocks; a fault tied to a particular block count, kernel or edge tile is not sampled.",
  ["src/gemm.rs"], [("per-block beta choice", "src/gemm.rs: gemm_loop"), ("scale-only path", "src/gemm.rs: c_to_beta_c"), ("edge tile merge", "src/gemm.rs: c_to_masked_ab_beta_c")])
p("C04", "With beta zero the old contents of C are never read",
  "When beta is zero, no element of C is read before it has been written by the same call, so C may be uninitialized memory or hold NaN and infinities without influencing the result. This includes empty inner dimensions, edge tiles and every kernel.",
  ["inputs"], "all calls with beta = 0 (complex: both parts zero), all shapes, strides and kernels",
  "Tests with a NaN-filled C only cover some shapes; a read whose value is multiplied by zero is invisible on ordinary data, and uninitialized reads are undetectable by comparing results.",
  ["src/gemm.rs"] + K, [("beta test in every kernel epilogue", "src/*_kernel.rs"), ("edge tile merge and scale-only path", "src/gemm.rs: c_to_masked_ab_beta_c, c_to_beta_c")])
p("C05", "Writes touch only the m*n elements of C; A and B are never written",
  "A call writes to no user memory except the elements of C at row*rsc + col*csc with row < m and col < n. A and B are never written, and bytes between, before or after the elements of C keep their values.",
  ["inputs"], "all shapes, strides of C including negative and interleaved ones, alpha/beta, kernels",
  "Tests check surrounding padding only for a few positive stride multipliers; an out-of-tile write for a particular remainder shape or stride combination is not sampled.",
  ["src/gemm.rs"] + K, [("masked edge tiles", "src/gemm.rs: masked_kernel, c_to_masked_ab_beta_c"), ("vector stores of full tiles", "src/*_kernel.rs")])
p("C06", "Reads of A, B and C stay inside the declared matrices",
  "Every read of user memory is at an element of A (row < m, col < k), of B (row < k, col < n) or of C (row < m, col < n) under the given strides. If any dimension is zero, the operands whose element set is empty are never dereferenced.",
  ["inputs"], "all shapes including empty ones, all strides including negative and zero, all kernels and packers",
  "An out-of-range read usually lands in mapped memory and changes nothing observable, so result comparisons cannot see it; tests also allocate operands with slack.",
  ["src/packing.rs", "src/cgemm_common.rs", "src/gemm.rs"], [("packing fast path and remainder path", "src/packing.rs: pack_impl; src/cgemm_common.rs: pack_complex"), ("block offsets", "src/gemm.rs: gemm_loop")])
p("C07", "Internal scratch memory is never accessed out of bounds",
  "Every access to the library's own scratch memory (the packed copies of A and B and the temporary edge tile) lies inside the storage reserved for it, for every shape, kernel, thread count and configured block size. Packed copies of different operands never overlap.",
  ["inputs", "configurations"], "all shapes, kernels, thread counts, block sizes",
  "Overruns of a heap or thread-local scratch buffer silently hit neighbouring data; tests have no bounds instrumentation and few shapes where the buffers are tight.",
  ["src/gemm.rs", "src/packing.rs", "src/aligned_alloc.rs"], [("buffer sizing", "src/gemm.rs: make_packing_buffer"), ("edge tile buffer", "src/gemm.rs: MASK_BUF, MaskBuffer, align_ptr"), ("packers and kernel panel reads", "src/packing.rs, src/*_kernel.rs")])
p("C08", "Scratch memory is always filled by the current block before it is read",
  "Every scratch value used in a product was written by the same call, for the block being computed; padding lanes are zero. No result depends on stale scratch contents of an earlier block, an earlier call or another thread.",
  ["inputs", "histories"], "all shapes and all sequences of earlier calls, blocks and tiles that used the same scratch memory",
  "Fresh heap pages are often zero and stale values are often equal, so a missing fill is masked in tests; it needs a particular sequence of shapes.",
  ["src/gemm.rs", "src/packing.rs"], [("pack before compute ordering", "src/gemm.rs: gemm_loop"), ("zero padding of partial strips", "src/packing.rs: pack_impl; src/cgemm_common.rs: pack_complex")])
p("C09", "Vector accesses that demand alignment are always aligned",
  "Every memory access that the CPU or the language requires to be aligned is at a suitably aligned address, for arbitrary user pointers valid for the element type and strides, and for scratch memory at any position the allocator or thread-local storage may place it.",
  ["inputs", "configurations"], "all user pointers and strides, all allocator/TLS placements, all shapes",
  "Allocators usually return over-aligned memory, so a wrong assumption only faults at unlucky placements or strides; tests use a handful of placements.",
  ["src/gemm.rs", "src/aligned_alloc.rs"] + K, [("alignment of packing buffer and mask buffer", "src/gemm.rs: make_packing_buffer, align_ptr; src/aligned_alloc.rs"), ("aligned/unaligned loads and stores", "src/*_kernel.rs")])
p("C10", "Parallel execution is free of data races",
  "When a call is split over worker threads, no two threads access the same memory location with at least one of them writing, without a join between them: each thread writes its own elements of C, its own packed copy of A and its own edge-tile buffer, and shared packed data is only read.",
  ["schedules", "inputs"], "all thread counts, all interleavings, all shapes",
  "Tests run a few threaded shapes under whatever interleavings happen; an overlap needs a specific timing and shape to corrupt a result.",
  ["src/threading.rs", "src/gemm.rs", "src/util.rs"], [("splitting chunk ranges over threads", "src/util.rs: RangeChunk::part; src/threading.rs: RangeChunkParallel"), ("per-thread packing buffers", "src/gemm.rs: gemm_loop")])
p("C11", "The result is bit-for-bit independent of the number of threads",
  "The sequence of floating-point operations producing each element of C is the same for every number of threads, so results are identical whatever MATMUL_NUM_THREADS or the core count is: the inner dimension is never divided among threads and every tile is computed by exactly one thread from the same packed operands.",
  ["configurations", "schedules"], "all thread counts 1..4, all shapes",
  "The thread count is fixed once per process, so no test compares two counts; tolerances hide a changed summation order.",
  ["src/threading.rs", "src/util.rs", "src/gemm.rs"], [("loops eligible for splitting", "src/gemm.rs: gemm_loop, gemm_packed"), ("chunk partition", "src/util.rs: RangeChunk::part")])
p("C12", "Any MATMUL_NUM_THREADS setting yields 1 to 4 threads and never a failure",
  "Whatever the environment variable MATMUL_NUM_THREADS contains (unset, empty, unparsable, zero, huge) and however many cores are reported, the library uses between one and four threads, with enough workers in its pool for that count, and never panics because of the setting. A number in the setting is taken as the thread count (limited to 1..4), no setting means the number of processors (limited to 1..4), and no call is split over more workers than that.",
  ["configurations"], "all environment values and core counts",
  "The test suite runs with one fixed setting per process.",
  ["src/threading.rs"], [("registry initialisation", "src/threading.rs: REGISTRY"), ("per-call thread split", "src/threading.rs: LoopThreadConfig::new_impl")])
p("C13", "CPU-specific instructions run only on CPUs that were found to have them",
  "A kernel or packing routine compiled for an optional instruction set is only ever executed after run-time detection (or a compile-time guarantee) showed that every instruction set it uses is present. On a CPU without any optional feature a portable kernel is used.",
  ["configurations"], "all CPUs, i.e. all combinations of detected features",
  "The test host has one fixed feature set, so a missing guard never traps there.",
  ["src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_kernel.rs", "src/zgemm_kernel.rs", "src/x86/macros.rs"], [("run-time kernel selection", "src/*_kernel.rs: detect"), ("target_feature functions", "src/*_kernel.rs, src/packing.rs: pack_avx2")])
p("C14", "Scratch allocations are checked, and released exactly once with the same layout",
  "Every block of memory a call allocates is checked for allocation failure before use, is released exactly once before the call returns on every path, and is released with the size and alignment it was requested with. A call leaks nothing.",
  ["inputs", "fault_sequences"], "all shapes, kernels, and an allocation failure at any point",
  "Leaks, mismatched layouts and null dereferences do not show in results; the tests never make an allocation fail.",
  ["src/aligned_alloc.rs", "src/gemm.rs"], [("aligned allocation wrapper", "src/aligned_alloc.rs: Alloc")])
p("C15", "Compile-time block-size settings reach the intended parameter and stay safe",
  "With the compile-time tuning feature, each MATMUL_*_NC/KC/MC setting changes exactly the block size it names for the element type it names, unset ones keep the documented defaults, and whichever values are accepted the call still computes the full product. A setting is read as a decimal number; one that contains anything but digits is rejected at compile time.",
  ["configurations"], "all settings of the twelve build-time variables",
  "No test builds with this feature and a non-default setting.",
  ["src/archparam.rs", "src/archparam_defaults.rs", "src/constparse.rs", "src/gemm.rs"], [("setting to constant mapping", "src/archparam.rs"), ("constant parser", "src/constparse.rs"), ("block-size validation", "src/gemm.rs: ensure_kernel_params")])
p("C16", "Concurrent calls from different threads do not affect each other",
  "Any number of user threads may run calls at the same time on disjoint outputs: apart from the once-initialised thread pool and per-thread scratch memory, a call reads and writes no state shared between calls and leaves none behind that changes a later result.",
  ["schedules", "histories"], "all interleavings of calls from several threads, all earlier calls",
  "No test runs calls concurrently; shared scratch only corrupts results under particular timing.",
  ["src/gemm.rs", "src/threading.rs"], [("global and thread-local state", "src/gemm.rs: MASK_BUF; src/threading.rs: REGISTRY")])
p("C17", "A valid call never panics, aborts or overflows index arithmetic",
  "For every valid call no assertion, bounds check, unwrap, division by zero or index-arithmetic underflow can fail, in optimised and in debug builds alike. Only memory exhaustion may abort the call.",
  ["inputs", "configurations"], "all shapes including empty and one-element ones, all strides, builds with and without debug assertions",
  "Panics depend on corner shapes (empty, one row, last partial chunk) in combination with build mode and thread count; only a few are sampled.",
  ["src/gemm.rs", "src/packing.rs", "src/util.rs", "src/threading.rs"] + K, [("assertions and slice indexing", "src/gemm.rs, src/packing.rs, src/threading.rs, src/util.rs"), ("k - 1 style arithmetic in kernels", "src/loopmacros.rs")])
p("C18", "Every call terminates",
  "Every loop of a call performs a number of iterations bounded by the dimensions and block sizes, so every valid call returns after a finite number of steps.",
  ["inputs", "configurations"], "all shapes, thread counts and block sizes",
  "A non-advancing loop shows only on the shape that triggers it, as a hang rather than a failed comparison.",
  ["src/gemm.rs", "src/util.rs", "src/packing.rs"], [("chunk iterator", "src/util.rs: RangeChunk"), ("blocked loops", "src/gemm.rs"), ("unrolled kernel loops", "src/loopmacros.rs")])
p("C19", "Every crate feature configuration implements the same product",
  "With threading on or off, with or without the standard library, and in debug or release builds, the same call yields the same mathematical result and obeys the same memory rules; a configuration changes at most speed.",
  ["configurations"], "all supported feature combinations and build modes",
  "The regular suite covers a few feature sets on small shapes; the no-std scratch buffer and single-thread range code are hardly exercised.",
  ["src/gemm.rs", "src/threading.rs", "src/loopmacros.rs", "src/lib.rs"], [("cfg-dependent code", "src/gemm.rs: gemm_packed; src/threading.rs; src/loopmacros.rs")])
p("C20", "The rounding error of each result element stays within the standard bound",
  "Each computed element of C differs from the exact value by at most the usual k-term dot-product error bound for the element type.",
  ["inputs"], "all floating-point data", "Tests compare with a tolerance on smooth data only.",
  ["src/gemm.rs"] + K, [("summation order of the kernels", "src/*_kernel.rs")])
p("C21", "A call that is split over threads never waits for itself",
  "Under every schedule a parallel call completes: a nested parallel section is forked only on the thread-pool context handed to the enclosing section's branch (never again on the node whose worker is busy with that branch), no branch waits for another branch or for a lock held across the fork, and the once-only start-up code never waits for its own result. This holds for all shapes and thread counts and with several user threads sharing the pool.",
  ["schedules", "configurations"], "all interleavings, all thread counts, all shapes that are split",
  "A self-wait needs the right combination of loop split, pool depth and schedule, and then shows as a hang in a process with that thread count only.",
  ["src/threading.rs", "src/gemm.rs"], [("thread pool joins", "src/threading.rs: RangeChunkParallel::for_each (thread-tree crate)"), ("pool contexts passed down the loop nest", "src/gemm.rs: gemm_loop, gemm_packed"), ("deferred start-up", "src/threading.rs: REGISTRY")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
