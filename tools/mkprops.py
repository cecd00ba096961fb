#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the text stays readable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A level schedule covers every row once and orders every dependence",
 "For every structurally symmetric sparse matrix with a full diagonal, every thread count and every combination of schedule options, constructing a level schedule terminates and yields a schedule in which every row belongs to exactly one task, every task to exactly one thread, the two published row orders are inverse permutations, and the published level boundaries split the rows by the length of the longest dependence chain that ends in them. "
 "For every pair of rows coupled by a matrix entry, the forward order (per-thread task order plus the published parent lists, or barriers in barrier mode) runs the lower-numbered row's task before the higher-numbered row's, and the backward order runs them the other way round, so coupled rows never share a task. "
 "Transitive reduction may drop redundant parents but never an ordering that a coupled pair needs.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of the construction's own threads, all patterns (chains, grids, disconnected, dense rows, empty, extra halo columns), 1..8+ threads, both index bases, barrier/p2p, transitive reduction, vector aggregation, fused and pool-allocated variants",
 "gs_test/trsv_test build a schedule for a few grid-like matrices at 1-4 threads under whatever schedule the OS happens to give and only compare the solution loosely; missing dependences stay hidden unless the race is lost.",
 ["LevelSchedule.cpp", "LevelSchedule.hpp"],
 [("level construction (serial and parallel breadth-first)", "LevelSchedule.cpp findLevels"), ("task partition per level and per thread", "LevelSchedule.cpp constructTaskGraph"), ("transitive reduction with vectors of per-thread last parents", "LevelSchedule.cpp")],
 [("taskBoundaries/threadBoundaries", "rows per task, tasks per thread", "LevelSchedule.hpp"), ("parentsForward/parentsBackward", "cross-thread dependences of a task", "LevelSchedule.hpp"), ("origToThreadContPerm/threadContToOrigPerm", "row orders", "LevelSchedule.hpp")],
 ["public fields of the schedule after construction"],
 "threshold that selects the parallel construction made overridable so small matrices reach it")

prop("C02", "Point-to-point scheduled sweeps equal the sequential sweep",
 "When threads run the published wait/compute/notify loop over a level schedule, a forward sweep in which each row reads its lower neighbours and a backward sweep in which each row reads its higher neighbours give exactly the values of the sequential sweep, in the original row order as well as on the permuted matrix. "
 "This holds with and without transitive reduction, for Gauss-Seidel style sweeps that also read not-yet-updated neighbours, and for any number of repeated forward/backward sweeps that reuse one schedule. "
 "Every sweep terminates: no thread waits forever whatever the interleaving.",
 ["schedules", "inputs", "histories", "configurations"],
 "all interleavings of the consumer threads (preempted at any memory access, stalled threads, uneven speed), all matrices, thread counts and option combinations, all sequences of forward/backward sweeps",
 "the solver tests run each sweep under one uncontrolled OS schedule with tolerance 1e-5 on few matrices; a missing dependence shows up only in a rare interleaving.",
 ["LevelSchedule.hpp", "LevelSchedule.cpp"],
 [("wait/notify macros over task-finished flags", "LevelSchedule.hpp"), ("parent lists after transitive reduction", "LevelSchedule.cpp")],
 [("taskFinished", "flag per task polled by waiters", "LevelSchedule.hpp")],
 ["solution vector after each sweep"], None)

prop("C03", "Barrier-scheduled sweeps equal the sequential sweep",
 "When a level schedule is built in barrier mode and every thread executes its tasks one per level with a team barrier after each, forward and backward sweeps give exactly the sequential result for every interleaving, thread count and matrix, and all threads pass the same number of barriers so the sweep terminates.",
 ["schedules", "inputs", "histories", "configurations"],
 "all interleavings of the consumer threads and of the spinning barrier, all matrices and thread counts, repeated sweeps in both directions",
 "only a few matrices and 1-4 threads are run, under OS schedules, with loose comparison.",
 ["LevelSchedule.cpp", "synk/barrier.cpp", "synk/barrier.hpp"],
 [("per-level task partition with one task per thread and level", "LevelSchedule.cpp"), ("dissemination/tree barrier", "synk/barrier.cpp")],
 [], ["solution vector after each sweep"], None)

prop("C04", "The fused sweep-then-multiply schedule orders reads after writes",
 "For a schedule constructed with the fused option, a task's matrix-vector product that starts after its listed fused parents have finished their backward sweep reads only final values of the swept vector, so the fused result equals running the whole backward sweep first and multiplying afterwards. "
 "This holds for every interleaving, matrix, thread count and with transitive reduction on or off, and every execution terminates.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of fused consumers, all matrices and thread counts, transitive reduction on and off",
 "no registered test executes a fused schedule at all.",
 ["LevelSchedule.cpp", "LevelSchedule.hpp", "gs_spmv_fused.cpp"],
 [("fused parent lists", "LevelSchedule.cpp FusedGSAndSpMVSchedule")],
 [("fusedSchedule", "parents of the multiply phase of each task", "LevelSchedule.hpp")],
 ["product vector after a fused execution"],None)

prop("C05", "The spinning barrier never lets a thread pass early and never hangs",
 "For every number of cores and threads per core and every interleaving, no participant returns from a barrier wait before all participants have arrived at the same episode, all writes made before the wait are visible after it, and every participant eventually returns. "
 "The same barrier object stays correct for any number of consecutive episodes, including when some threads run far ahead into the next episode.",
 ["schedules", "configurations", "histories"],
 "all interleavings with arbitrarily delayed threads, 1..12 cores x 1..4 threads per core, many reuses",
 "the barrier is exercised only with one thread per core and at most 4 threads in tests, under OS schedules.",
 ["synk/barrier.cpp", "synk/barrier.hpp", "synk/synk.cpp", "synk/synk.hpp", "synk/atomic.h"],
 [("intra-core flags and inter-core dissemination with sense reversal", "synk/barrier.cpp")],
 [], ["episode counters of participants"], None)

prop("C06", "The reduction barrier returns the full reduction to every thread",
 "For every number of cores and threads per core, every associative and commutative reduction function and every interleaving, each participant of a reduction barrier receives the reduction of exactly the values contributed in that round, once each, and every participant returns. "
 "Consecutive rounds with different values do not mix.",
 ["schedules", "configurations", "histories"],
 "all interleavings, 1..8 cores x 1..4 threads per core, many consecutive rounds with distinct values",
 "no test uses the reduction barrier.",
 ["synk/reduce.hpp"],
 [("intra-core gather, inter-core pairwise exchange, broadcast", "synk/reduce.hpp")],
 [], ["value returned to each participant"], None)

prop("C07", "Transposition is exact and schedule-independent",
 "Transposing any sparse matrix yields, for every entry (i,j,v), the entry (j,i,v) and nothing else, with the same index base, and transposing twice gives back the same matrix up to order within a row, for every matrix shape including rectangular, empty rows or columns and pattern-only matrices. "
 "The result is the same for every thread count and interleaving.",
 ["schedules", "inputs", "configurations"],
 "all interleavings and thread counts, square and rectangular matrices of both bases, more threads than rows",
 "tests reach transposition only indirectly on a few square inputs.",
 ["CSR.cpp", "CSR.hpp", "Utils.cpp"],
 [("parallel bucket counting and scatter", "CSR.cpp transpose")], [], ["resulting matrix"], None)

prop("C08", "Sparse matrix-vector and matrix-multivector products are exact",
 "Multiplying computes w = alpha*A*x + beta*y + gamma exactly as the definition does (on values where floating-point arithmetic is exact), for every matrix, both index bases, rectangular shapes, and every alpha and beta including 0 and 1, and with the output aliasing the y or the x operand; stored entries without values count as 1. "
 "The multi-vector form honours the given number of vectors and each operand's own stride, touches no element outside the operands, and both give the same result for every thread count and interleaving.",
 ["schedules", "inputs", "configurations"],
 "all interleavings and thread counts, shapes, bases, strides, scalar combinations, skewed row lengths",
 "tests compare one product on a few matrices with tolerance and never use the multi-vector form.",
 ["SpMV.cpp", "CSR.hpp"],
 [("nnz-balanced thread partition of rows", "SpMV.cpp, Utils.cpp")], [], ["output operand"], None)

prop("C09", "Permuting a matrix or vector moves every entry and changes nothing else",
 "Permuting a matrix by a column permutation and an inverse row permutation yields exactly the entries (P i, P j, v) of the original, in every form offered (full permute sorted or unsorted, rows only, row pointers only, columns in place), for both index bases and pattern-only matrices; sorted variants have sorted rows. "
 "Reordering a vector by a permutation and then by its inverse gives the vector back. "
 "Results are the same for every thread count and interleaving, and the inputs are unchanged unless the operation is documented as in place.",
 ["schedules", "inputs", "configurations"],
 "all interleavings and thread counts, arbitrary permutations, both bases, with and without values or diagonal pointers",
 "the reordering test compares norms on few inputs and one thread schedule, base 0 only.",
 ["Permute.cpp", "CSR.cpp", "Utils.cpp", "Vector.cpp"],
 [("parallel prefix sum of permuted row lengths and scatter", "Permute.cpp")], [], ["resulting matrix or vector"], None)

prop("C10", "Reorderings return mutually inverse permutations of all rows",
 "For every structurally symmetric square matrix, connected or not, with isolated rows and of either index base, computing a reverse Cuthill-McKee or breadth-first ordering terminates and returns a permutation of all rows and its exact inverse, and leaves the matrix as it was. "
 "The ordering is level-consistent: within each connected component rows are numbered consecutively by non-decreasing (for reverse Cuthill-McKee: non-increasing) distance from that component's start row, and Cuthill-McKee additionally orders the rows of a level by their first-numbered neighbour in the previous level, ties by degree. "
 "This holds for every interleaving and thread count.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of the parallel breadth-first search, candidate selection and placement; many components of mixed size; 1..8 threads; both bases",
 "the test checks only that the result is a permutation for a few matrices at 1-4 threads under OS schedules.",
 ["reordering/RCM.cpp", "reordering/BitVector.hpp", "reordering/ConnectedComponents.cpp", "CSR.cpp"],
 [("parallel BFS with bit vector and per-thread queues", "reordering/RCM.cpp"), ("pseudo-diameter source search", "reordering/RCM.cpp"), ("level-parallel placement with shared write offsets", "reordering/RCM.cpp")],
 [], ["permutation and inverse returned"],
 "size threshold between sequential and parallel treatment of a component made overridable")

prop("C11", "Connected components are found exactly",
 "For every structurally symmetric matrix, every thread count and every interleaving, the number of components, the size of each component, each component's representative (its smallest row) and the grouping of all rows by component equal those of the undirected graph of the matrix, representatives in ascending order. "
 "The search always terminates.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of concurrent unions, all graphs (long chains, stars, many small components, isolated rows), 1..8 threads, both bases",
 "components are only reached through the reordering test on a few, mostly connected inputs; a lost union needs a narrow race.",
 ["reordering/ConnectedComponents.cpp"],
 [("concurrent union-find with compare-and-swap", "reordering/ConnectedComponents.cpp"), ("parallel counting and grouping by root", "reordering/ConnectedComponents.cpp")],
 [], ["component arrays returned"], None)

prop("C12", "Bipartite breadth-first reordering returns valid permutations",
 "For every rectangular or square sparse matrix given with its transpose, the bipartite breadth-first reordering terminates and returns a permutation of all rows and a permutation of all columns together with their exact inverses, including rows or columns that have no entries and graphs with many components. Rows and columns of a component are numbered consecutively, by non-decreasing distance from where its search started. "
 "This holds for every thread count and interleaving, without touching memory outside its inputs and outputs.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of the parallel search, rectangular shapes, empty rows/columns, disconnected graphs, 1..8 threads",
 "the registered test runs it and does not verify the result.",
 ["reordering/BFSBipartite.cpp", "reordering/BFSBipartite.hpp", "reordering/BitVector.hpp"],
 [("level-synchronous bipartite BFS with bit vectors", "reordering/BFSBipartite.cpp")], [], ["row and column permutations returned"], None)

prop("C13", "Symmetrised patterns and triangular splits lose and invent nothing",
 "The symmetrised pattern of a square matrix holds exactly the union of the pattern of A, of its transpose and the full diagonal, each once, arranged per row as lower part, diagonal, upper part with correct diagonal and external-part markers, for both index bases. "
 "Splitting a matrix with a full diagonal into lower and upper parts places every entry in exactly one of them according to its side of the diagonal, with the diagonal available separately. "
 "Both hold for every thread count and interleaving.",
 ["schedules", "inputs", "configurations"],
 "all interleavings and thread counts, symmetric and unsymmetric patterns, both bases, halo columns",
 "tests use them once per driver on a base-0 matrix.",
 ["SymGS.cpp", "Utils.hpp", "LevelSchedule.hpp"],
 [("counting, prefix sum and scatter across threads", "SymGS.cpp")], [], ["pattern arrays, L and U"], None)

prop("C14", "Index-base changes and structural queries agree with the matrix",
 "Converting a matrix between 0- and 1-based indexing changes only the base: all entries, diagonal and partial-row markers keep describing the same matrix, and converting back restores it. "
 "Bandwidth, average width, maximum degree, symmetry, zero-diagonal, comparison, printing and inverse-diagonal queries give the value given by their definition for either base, stored entries without values counting as 1, and a copied matrix carries everything the original does. "
 "All hold for every thread count and interleaving.",
 ["schedules", "inputs", "configurations"],
 "all interleavings and thread counts, both bases, rows that are empty, missing diagonals, entries in the last column",
 "tests query base-0 matrices only and print most results without checking.",
 ["CSR.cpp", "CSR.hpp", "Utils.cpp"],
 [("parallel loops and reductions", "CSR.cpp")], [], ["query results and matrix fields"], None)

prop("C15", "Matrices and vectors survive a store/load round trip",
 "A matrix stored in binary or Matrix Market form and loaded again by any of the library's readers is the same matrix, entries and values, for every shape and either index base, and storing leaves the in-memory matrix as it was. "
 "A Matrix Market file in general, symmetric, skew or pattern form loads as the matrix it describes, whatever the order of its entries, with transposed loading giving the transpose, pattern entries loading as ones, padding adding unit diagonal entries only, and files numbered from 0 (recognised by an index 0) loading like files numbered from 1, and converting coordinate form to compressed rows keeps every entry and, when asked to, sorts each row. "
 "This holds for every thread count and interleaving and when the operating system delivers the file in pieces of any size.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "all file shapes and entry orders, both bases, symmetric expansion and padding, short reads of any size, thread counts 1..8",
 "mtx2bin is tested on small well-formed files only, with reads that always complete.",
 ["COO.cpp", "COO.hpp", "CSR.cpp", "mm_io.cpp", "Vector.cpp", "test/mtx2bin.cpp"],
 [("reader, symmetric expansion, padding, counting conversion", "COO.cpp"), ("binary format", "CSR.cpp loadBin/storeBin")], [], ["loaded matrix"], None)

prop("C16", "Damaged files and failing I/O are reported, never silently absorbed",
 "If a matrix file is missing, truncated at any byte, torn, malformed or corrupted in its counts, or memory cannot be allocated, or a read, write, open or close fails at any point, the loader or writer terminates in bounded work and reports the failure: through its return value, through an empty matrix for a failed binary load into an existing object, through a controlled program exit with an error status when constructing from a file, and through a message for stores, which return nothing. "
 "It never reads or writes outside its buffers, never loops forever, and never reports success with a matrix other than the one in the file. "
 "A failed store leaves the in-memory matrix unchanged and does not claim success.",
 ["fault_sequences", "crash_points", "inputs"],
 "every truncation or crash point, byte corruption in headers and entries, EIO/ENOSPC/open failure at any call, short transfers",
 "no registered test injects an I/O failure or loads a malformed file.",
 ["COO.cpp", "CSR.cpp", "mm_io.cpp", "mm_io.h", "Vector.cpp"],
 [("return codes and error exits", "COO.cpp, CSR.cpp, mm_io.cpp")], [], ["return value, exit status, memory accesses"], None)

prop("C17", "The memory pool never hands out overlapping or out-of-range memory",
 "Blocks handed out by the memory pool and not yet released by moving its head or tail never overlap, are aligned as requested, lie inside the pool and are recognised as belonging to it; an exhausted pool says so instead of handing out memory in use. "
 "A schedule built in pool memory equals the one built in ordinary memory, operations on a matrix kept in pool memory give the results they give elsewhere, and releasing either does not corrupt either allocator. "
 "When huge pages cannot be mapped or memory is exhausted, allocation falls back or reports failure, and never yields an unusable address.",
 ["histories", "fault_sequences", "configurations"],
 "all sequences of allocate front/back, set head/tail and release, wrap-around, mapping and allocation failures at any call, pool-backed schedules and matrices",
 "no registered test uses the pool or makes an allocation fail.",
 ["MemoryPool.cpp", "MemoryPool.hpp", "Utils.cpp", "LevelSchedule.cpp", "CSR.cpp"],
 [("circular buffer head/tail arithmetic", "MemoryPool.cpp"), ("huge page mapping with fallback", "Utils.cpp")], [], ["returned addresses"], None)

prop("C18", "Parallel utilities partition work exactly and compute exact results",
 "For every length, thread count and interleaving, the work-partition helpers split a range into disjoint pieces in thread order that cover it exactly, including the non-zero balanced split of matrix rows, with no piece of an even split above the rounded-up share and no piece of a balanced split above the share by more than one row; the prefix sums are exact and give every thread the same totals; parallel copy and fill affect exactly the requested bytes; inverting a permutation gives its inverse; and the permutation tests accept exactly the permutations and inverses.",
 ["schedules", "inputs", "configurations"],
 "all lengths (zero, fewer than threads, not divisible), 1..12 threads, all interleavings, repeated use",
 "they are exercised only indirectly on few sizes and at most 4 threads.",
 ["Utils.cpp", "Utils.hpp", "PrefixSum.cpp", "Vector.cpp"],
 [("thread partition arithmetic", "Utils.cpp"), ("two-phase prefix sum with barriers", "PrefixSum.cpp")], [], ["ranges and arrays"], None)

prop("C19", "Operations release what they take and nothing twice",
 "Over any sequence of library operations on matrices, coordinate matrices, schedules and files, including operations that fail because of an injected fault, no memory is used after release or released twice, every file opened is closed, and when all objects have been destroyed no memory the operations allocated is still held, apart from what was handed to the caller. A matrix made around the caller's arrays never releases them.",
 ["histories", "fault_sequences", "configurations"],
 "all operation sequences on shared objects, with open/read/write failures at any point, any thread count and interleaving",
 "the tests neither observe leaks nor open handles and take no failing path.",
 ["CSR.cpp", "COO.cpp", "LevelSchedule.cpp", "reordering/RCM.cpp", "reordering/ConnectedComponents.cpp", "mm_io.cpp", "Vector.cpp"],
 [("ownership flag and dealloc", "CSR.cpp"), ("file handling", "COO.cpp, mm_io.cpp")], [], ["allocator and file-handle ledger"], None)

prop("C20", "Structured Laplacian generation yields the documented operator",
 "The 27-point 3D Laplacian generator and the file-name spelled grid operators yield, for every grid size including degenerate ones, the symmetric matrix with one row per grid point, couplings exactly to the grid neighbours, sorted rows and correct diagonal markers.",
 ["inputs"],
 "all grid sizes",
 "tests generate a handful of sizes.",
 ["Laplacian.cpp", "CSR.cpp"], [("sequential generation", "Laplacian.cpp")], [], ["generated matrix"], None)

prop("C21", "A reordered, scheduled and permuted solve gives the sequential result of the original system",
 "The steps a solver chains fit together: for every square matrix with a full non-zero diagonal, built in memory or stored and loaded again, reordered breadth-first or by reverse Cuthill-McKee on its (symmetrised) pattern or left alone, permuted together with its vectors, in either index base, split into triangular parts or not, and swept forward and backward under a point-to-point or barrier schedule, in original or schedule order, the values mapped back to the original numbering are exactly those of sequential sweeps over the original rows in the reordered sequence, and products of the permuted matrix and vector map back to the product of the original ones. "
 "This holds for every thread count, option combination and interleaving, and the chain always terminates.",
 ["schedules", "inputs", "histories", "configurations"],
 "all systems, all chains of load / symmetrise / reorder / permute / rebase / split / schedule / sweep / map-back steps, 1..8+ threads, all interleavings of every step",
 "gs_test, trsv_test and reordering_test each chain a few of these steps on one or two grid matrices under one OS schedule and compare with a tolerance.",
 ["CSR.cpp", "COO.cpp", "LevelSchedule.cpp", "LevelSchedule.hpp", "reordering/RCM.cpp", "Utils.cpp", "Vector.cpp"],
 [("permutation of rows, columns, diagonal markers and inverse diagonals", "CSR.cpp"), ("pattern symmetrisation and triangular split", "CSR.cpp"), ("schedule and its two row orders", "LevelSchedule.cpp"), ("vector reordering", "Utils.cpp")], [], ["solution and product vectors after mapping back"], None)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
