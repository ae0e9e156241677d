"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; CHECKS = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
def check(id, technique, note, level='other'):
    CHECKS.append({'property': id, 'quick_cmd': 'python3 checks/%s.py quick' % id, 'thorough_cmd': 'python3 checks/%s.py thorough' % id,
                   'evidence_file': 'evidence/%s.json' % id, 'technique': technique, 'level': level, 'level_note': note})
def na(id, reason): NA.append({'property': id, 'reason': reason})

prop('S01', 'Results do not depend on the index base of a matrix',
  'Every operation on a sparse matrix accesses the same elements and produces the same result (up to the base of the indices it stores) whether the matrix uses 0-based or 1-based indices. '
  'No array is read or written at a place that is shifted by the base, index bases are never mixed, and outputs carry the base their consumers expect.',
  ['inputs', 'configurations'], 'all matrices, in both index bases, through every public operation, in release and debug builds',
  'The tests build 0-based matrices only (the Fortran base is converted away while loading), so no line that treats a 1-based matrix is ever executed with base 1.',
  ['CSR.cpp', 'CSR.hpp', 'SpMV.cpp', 'SymGS.cpp', 'Permute.cpp', 'LevelSchedule.cpp', 'COO.cpp', 'reordering/RCM.cpp', 'reordering/BFSBipartite.cpp', 'reordering/ConnectedComponents.cpp'],
  [('rebased array pointers (p - base)', 'most kernels in SpMV.cpp, Permute.cpp, CSR.cpp'), ('template specialisation on the base', 'RCM.cpp, LevelSchedule.cpp, CSR.cpp'), ('make0BasedIndexing/make1BasedIndexing', 'CSR.cpp')],
  observe=['element accesses of the matrix arrays', 'outputs'])
check('S01', 'dimension (index-base) inference over an inlined SSA form',
  'A consistent assignment of base shifts for all expressions of every public function, in both build configurations, means that moving all index arrays by one moves every access accordingly. '
  'Assumes the array conventions of CSR and that arrays passed to raw library calls are opaque; values laundered through memory of unknown role are unconstrained.')

prop('S03', 'Every file the library opens is closed exactly once',
  'Every operation that opens a file closes it exactly once on every path out of the operation, including those that report an error: unreadable or malformed input, a truncated file, a failed write. '
  'A stream is never used after it was closed and never overwritten while it is open.',
  ['inputs', 'fault_sequences'], 'all input files, including malformed and truncated ones, and all outcomes of library calls on the stream',
  'The tests read well-formed files only and never look at the process\'s open descriptors, so no error exit is ever taken.',
  ['COO.cpp', 'CSR.cpp', 'mm_io.cpp', 'Vector.cpp'],
  [('fopen/fclose pairs', 'COO::storeMatrixMarket, CSR::storeMatrixMarket, CSR::loadBin, CSR::storeBin, loadMatrixMarket_, loadVectorMatrixMarket, mm_read_mtx_crd, mm_read_unsymmetric_sparse')],
  observe=['open descriptors after a call'])
check('S03', 'path-sensitive typestate analysis (property simulation) of streams',
  'Every fopen in the library is followed along every path of the inlined operation, with the outcomes of earlier tests; assumes that exceptions and failing assertions end the path.')

prop('S04', 'Temporary memory is released exactly once, by the matching function',
  'Every piece of memory an operation acquires for its own use is released exactly once on every path out of that operation, also on early and error returns, with the function that matches the acquisition, and is not used afterwards. '
  'Memory that is handed to the caller is either returned or stored in an object that outlives the call, and memory owned by somebody else is not released.',
  ['inputs', 'configurations'], 'all inputs, every path through every library function, with and without a memory pool, in release and debug builds',
  'A leak or a release that does not match changes no result, and the tests run without leak detection and without a memory pool; error exits are not taken at all.',
  ['CSR.cpp', 'COO.cpp', 'LevelSchedule.cpp', 'SymGS.cpp', 'Permute.cpp', 'SpMV.cpp', 'Utils.cpp', 'mm_io.cpp', 'reordering/RCM.cpp', 'reordering/BFSBipartite.cpp', 'reordering/ConnectedComponents.cpp'],
  [('MALLOC/FREE with the optional memory pool', 'Utils.hpp, MemoryPool.hpp'), ('new[]/delete[] and malloc/free pairs', 'reordering/*.cpp, LevelSchedule.cpp, mm_io.cpp')],
  observe=['live memory after a call'])
check('S04', 'path-sensitive typestate analysis (property simulation) of memory',
  'Every allocation site is followed along every path of the inlined operation together with the outcomes of tests it depends on; resources leaving a helper are followed in its callers. '
  'Memory stored in an object that outlives the operation is out of scope here (S12). Whether a pointer lies in the pool is taken to be stable during one operation.')

prop('S09', 'Threads of a parallel region do not race',
  'In every parallel operation, two threads of a team never access the same memory without synchronisation when one of them writes it, for any number of threads, any schedule and any input; atomic updates and flags through which threads knowingly communicate (volatile or atomic) are the only exceptions. '
  'Temporary results of one thread stay private to it, and what one thread produces is read by another only after a barrier or an equivalent synchronisation.',
  ['schedules', 'inputs', 'configurations'], 'all interleavings of all teams of threads, all inputs with valid index arrays, in release and debug builds',
  'The tests run a few times with at most four threads on small inputs; a race shows up only under a particular interleaving, and most often as a plausible result.',
  ['CSR.cpp', 'LevelSchedule.cpp', 'SymGS.cpp', 'Permute.cpp', 'SpMV.cpp', 'Utils.cpp', 'Vector.cpp', 'COO.cpp', 'reordering/RCM.cpp', 'reordering/BFSBipartite.cpp', 'reordering/ConnectedComponents.cpp'],
  [('per-thread row ranges', 'getSimpleThreadPartition, getLoadBalancedPartition in CSR.cpp and Utils.cpp'), ('per-thread slices of shared workspaces', 'RCM.cpp, prefixSum in Utils.cpp, LevelSchedule.cpp'), ('barriers between phases', 'all parallel regions')],
  observe=['shared arrays and variables inside parallel regions'])
check('S09', 'race analysis: access forms, ownership of iterations and slices, barrier phases (may-happen-in-parallel)',
  'Each pair of accesses to the same shared object in every parallel region is separated by a barrier or shown to be disjoint between threads. Assumes ascending offset tables, injective permutations, non-overlapping distinct pointer parameters; '
  'hand-made lock-free protocols on volatile/atomic data and reads in assertions are exempt; three reviewed idioms are listed in analysis/par.py.')

prop('S10', 'All threads of a team reach the same barriers',
  'In every parallel operation all threads of the team pass the same sequence of barriers and work-sharing constructs, whatever the input and however the work is distributed, so that no thread waits for ever and no phase starts early.',
  ['schedules', 'inputs', 'configurations'], 'all inputs, numbers of threads and schedules, in release and debug builds',
  'A barrier that only some threads reach hangs or shifts phases only for inputs that give threads different work, such as fewer rows than threads.',
  ['CSR.cpp', 'LevelSchedule.cpp', 'SymGS.cpp', 'Permute.cpp', 'Utils.cpp', 'reordering/RCM.cpp', 'reordering/BFSBipartite.cpp', 'reordering/ConnectedComponents.cpp'],
  [('omp barrier and implicit barriers of work-sharing loops', 'all parallel regions'), ('wake-up and termination of the team by thread 0', 'RCM.cpp')],
  observe=['termination of parallel operations'])
check('S10', 'divergence analysis of branches and a product of thread 0 with the other threads',
  'No barrier or work-sharing construct is control dependent on a value that may differ between threads, or else the product of the two roles shows the same barriers in step. Values read from shared memory count as equal when no thread may write them in the same phase.')

prop('S02', 'Operations restore the index base and rebase matrices completely',
  'Converting a matrix to another index base moves every index it stores - row pointers, column indices, positions of the diagonal and of remote columns - by exactly one and nothing else, for every size. '
  'An operation that converts a matrix it was given temporarily restores the base the matrix had, on every path, so that callers never see a matrix in another base than they passed.',
  ['inputs', 'histories'], 'all matrices and sequences of operations, in both index bases, with and without the optional index arrays, any number of threads',
  'The tests use 0-based matrices, for which the conversions do nothing, and never compare a matrix with itself before and after an operation.',
  ['CSR.cpp', 'Permute.cpp', 'LevelSchedule.cpp', 'reordering/RCM.cpp', 'reordering/BFSBipartite.cpp', 'reordering/ConnectedComponents.cpp'],
  [('make0BasedIndexing/make1BasedIndexing and the loops that shift arrays', 'CSR.cpp'), ('oldBase saved and restored around algorithms', 'RCM.cpp, BFSBipartite.cpp')],
  observe=['index arrays of a matrix before and after an operation'])
check('S02', 'counted-loop ranges for the conversion; path analysis of the base (two scenarios) for its restoration',
  'Every index array of the class is shifted over its whole length by one on every path of a conversion; each public operation leaves matrices passed to it in the base they had on entry, judged on all paths for both entry bases.')

prop('S05', 'Operations modify nothing but their documented outputs',
  'A public operation writes only to what it is documented to produce: its output arguments, the object it modifies and what these own. Operations that only read an object or an array - queries, comparisons, stores, products - leave it bit for bit as it was, including what it points to.',
  ['inputs', 'histories'], 'all inputs and sequences of operations, in release and debug builds',
  'Constness of an object does not extend to the arrays it points to, so the compiler accepts such writes, and the tests do not compare inputs before and after a call.',
  ['CSR.cpp', 'COO.cpp', 'SpMV.cpp', 'SymGS.cpp', 'Permute.cpp', 'LevelSchedule.cpp', 'Utils.cpp', 'Vector.cpp', 'reordering/RCM.cpp', 'reordering/BFSBipartite.cpp', 'reordering/ConnectedComponents.cpp'],
  [('const member functions with raw pointers to the arrays', 'CSR.hpp'), ('const pointer parameters cast away', 'LevelSchedule.cpp, mm_io.cpp')],
  observe=['arguments before and after a call'])
check('S05', 'interprocedural effect analysis: provenance of every store against a footprint contract per function',
  'Where every store of each public function may point to (parameters, members, what they point to, own allocations, globals) is compared with the contract analysis/footprint.txt; new functions are judged by constness of their parameters.')

prop('S06', 'Debug and release builds behave alike',
  'Code that exists in one build type only - assertion conditions, checking code, conditional compilation - never changes what the rest of the library does: it modifies no state the other code sees, decides nothing, and takes part in no synchronisation, and constructs common to both builds mean the same. '
  'So as long as no assertion fails, both builds compute the same results.',
  ['configurations', 'inputs'], 'both build types, all inputs and all executions in which no assertion fails',
  'The tests run each build on its own against its own expectations and never compare the two; code within assertions that is needed elsewhere shows up only on the paths that use it.',
  ['CSR.cpp', 'LevelSchedule.cpp', 'SymGS.cpp', 'Permute.cpp', 'Utils.cpp', 'MemoryPool.cpp', 'reordering/RCM.cpp', 'reordering/BFSBipartite.cpp', 'reordering/ConnectedComponents.cpp'],
  [('assert conditions', 'all sources'), ('#ifndef NDEBUG checking code', 'LevelSchedule.cpp, SymGS.cpp, BFSBipartite.cpp')],
  observe=['results and side effects of both builds'])
check('S06', 'difference of the two configurations at the level of lowered code, with an effect and control dependence analysis of what differs',
  'Both configurations are parsed and lowered (callees inlined); instructions and branches of one configuration only must be free of effects on memory, variables, synchronisation and control of the common code.')

prop('S12', 'Objects own their memory from construction to destruction',
  'Whatever sequence of operations an object goes through, each array it owns is released exactly once: operations that give it new arrays release the old ones first, its destructor releases all that is left, and arrays that the caller or the memory pool owns are never released. '
  'Constructors initialise every member, released arrays are not left dangling in an object that lives on, and copies share no memory and are complete - or copying is ruled out.',
  ['histories', 'configurations'], 'all sequences of constructions, copies, operations and destructions of matrices, schedules and the other objects of the library, with owned, borrowed and pool memory',
  'The tests construct each object once, never copy or reuse one, use no borrowed or pool memory, and do not notice leaks.',
  ['CSR.cpp', 'CSR.hpp', 'COO.cpp', 'COO.hpp', 'LevelSchedule.cpp', 'LevelSchedule.hpp', 'gs_spmv_fused.cpp', 'MemoryPool.cpp', 'SymGS.cpp', 'Permute.cpp', 'Laplacian.cpp', 'synk/barrier.cpp', 'reordering/BitVector.hpp'],
  [('ownData_ and the memory pool', 'CSR::dealloc, CSR::useMemoryPool_'), ('useMemoryPool', 'LevelSchedule.cpp'), ('copy constructor and assignment', 'CSR.cpp')],
  observe=['live memory and the members of an object after each operation'])
check('S12', 'typestate analysis of object members (disjunctive vectors of member states and ownership flags), special member rules, copy completeness',
  'Every public operation, constructor and destructor is analysed with callees inlined, for every combination of the ownership flags on entry. Objects reached through arrays are not followed; the pool is taken to hold all arrays of a matrix or none.')

prop('S13', 'Optional arrays and permutations may be absent',
  'Operations that do not need an optional part of a matrix - its values, the diagonal and its inverse, the positions of the diagonal or of remote columns - or an optional permutation work when that part is absent: they neither access it nor fail because it is missing, in either index base and on every path.',
  ['inputs', 'configurations'], 'all matrices with any of the optional arrays missing, all options of each operation, in release and debug builds',
  'The tests use matrices with all arrays the loader makes and pass every permutation, so the paths for absent ones never run.',
  ['CSR.cpp', 'SpMV.cpp', 'SymGS.cpp', 'Permute.cpp', 'LevelSchedule.cpp', 'Utils.cpp', 'reordering/RCM.cpp', 'reordering/BFSBipartite.cpp'],
  [('values/idiag/diag/diagptr/extptr of a matrix may be NULL', 'CSR.hpp'), ('perm, inversePerm may be NULL', 'Utils.cpp, Permute.cpp')],
  observe=['operations on pattern-only matrices and without permutations'])
check('S13', 'conditional constant propagation of the assumption that a pointer is NULL',
  'For each optional array and pointer argument listed in analysis/optional.txt (release: quick, both builds: thorough), no access through it is possible on any path that can be taken when it is NULL. Correlations between branches other than through constants and NULL tests are not tracked.')

prop('S07', 'Failed input and output is reported',
  'Whenever a file cannot be opened, ends early, cannot be parsed or cannot be written, the operation says so the way it says anything: through its result, an empty matrix, or a message where it has no result. '
  'It never claims success, never ends the process, never goes on with the missing file and never loops for ever; and it does not claim failure when all went well.',
  ['inputs', 'fault_sequences'], 'all outcomes of every call of the C library on a file, in each operation that reads or writes matrices and vectors',
  'The tests read well-formed files and write to a directory that has room; no error exit runs, and what the results say is never looked at.',
  ['COO.cpp', 'CSR.cpp', 'mm_io.cpp', 'Vector.cpp'],
  [('bool and error code results', 'loadMatrixMarket, mm_read_*, mm_write_*, loadVectorMatrixMarket'), ('a matrix of size 0', 'CSR::loadBin'), ('messages on stderr', 'CSR::storeBin, storeMatrixMarket')],
  observe=['results, messages and the matrix after a failed operation'])
check('S07', 'fault propagation: conditional constant propagation from each I/O call under the assumption that it failed',
  'Each failing outcome of each call is followed along all paths that remain possible to the exits. Assumes that a text file which ends within its entries has fewer of them than announced, and that ferror() is true after a failed write.')

prop('S08', 'Numbers and words in files are validated before they are used',
  'Sizes, counts and indices that come from a file are rejected when they are negative, too large or inconsistent before they determine the size of memory or a position in it, and are never passed on in a matrix that counts as loaded. '
  'More entries than announced, long lines and long words never overrun the memory provided for them.',
  ['inputs'], 'all contents of matrix and vector files, text and binary',
  'The tests read well-formed files only; a missing check shows up only as memory corruption for hostile files.',
  ['COO.cpp', 'CSR.cpp', 'mm_io.cpp', 'Vector.cpp'],
  [('range checks of sizes and coordinates', 'loadMatrixMarket_, CSR::loadBin, loadVectorMatrixMarket'), ('limits of words and lines', 'mm_read_banner, mm_read_*_size')],
  observe=['sizes of memory and indices derived from the file'])
check('S08', 'fault propagation: conditional constant propagation of bad numbers from each read to allocations, accesses and successful exits',
  'Each number read is assumed negative, the largest, or larger than anything it is compared with; arrays read at once must pass a validating loop over all elements. Relations between two numbers (a size and an index limit) are not proved, only that a limit is applied.')

prop('S14', 'The shares of the threads make up the whole work',
  'Wherever the threads of a team divide a range of rows, elements or bytes among them, each part of the range is taken by exactly one thread: the shares do not overlap, leave nothing out, and stay within the range that one thread alone would take. '
  'That holds for every team size, including teams larger than the range, and for ranges that the team size does not divide.',
  ['schedules', 'inputs', 'configurations'], 'all team sizes and all lengths of the divided ranges, in every operation that divides work by thread number',
  'The tests use 1-4 threads and small inputs; a wrong share shows up only for lengths and team sizes with an unlucky remainder.',
  ['Utils.cpp', 'SpMV.cpp', 'CSR.cpp', 'COO.cpp', 'Permute.cpp', 'LevelSchedule.cpp', 'PrefixSum.cpp', 'SymGS.cpp', 'reordering/RCM.cpp', 'reordering/ConnectedComponents.cpp'],
  [('partition helpers', 'Utils.cpp getSimpleThreadPartition, getLoadBalancedPartition'), ('shares computed in place', 'parMemset, parMemcpy, PrefixSum.cpp, RCM.cpp'), ('offset tables per thread', 'LevelSchedule.cpp, RCM.cpp')],
  observe=['ranges that the threads of a team work on'])
check('S14', 'symbolic shares: bounds of loops as normalised terms over thread number and team size, adjacency and coverage decided on the terms',
  'Bounds extracted from the inlined SSA form are compared as terms: by normal form, else by evaluating both for teams of 1-8 threads and sample values of their atoms (the formula is evaluated, not the program). Bounds with thread-private data are undecided and reported as such.')

prop('S17', 'Arrays with elements per row or thread have room for all of them',
  'Arrays that the library allocates by the number of rows, columns or threads - temporary tables with elements per thread or row, arrays of which each thread is handed a part, and the per-row arrays of the matrices it builds - have room for every row and thread that is read or written in them. '
  'That includes matrices without rows, with a single row or with more columns than rows, and teams larger than the number of rows or processors.',
  ['inputs', 'schedules', 'configurations'], 'all sizes of matrices and all team sizes, in every operation of the library',
  'An access one element past the end rarely changes a result of the tests, and the sizes that make it happen (a single row, more threads than rows, a row count the allocator does not round up) are not among them.',
  ['CSR.cpp', 'COO.cpp', 'SymGS.cpp', 'Permute.cpp', 'Laplacian.cpp', 'LevelSchedule.cpp', 'reordering/RCM.cpp', 'reordering/ConnectedComponents.cpp', 'reordering/BFSBipartite.cpp'],
  [('tables per thread', 'rowPtrSum, rowPtrPartialSum, cnts, nodesToFindCnt, local_min, local_sum_array'), ('parts for each thread', 'bfsAuxData, children_array, bucket of CSR::transpose, buffer of LevelSchedule::constructTaskGraph'), ('arrays of matrices', 'CSR::alloc, CSR::transpose, splitLU, CSR::permute, generate3D27PtLaplacian')],
  observe=['indices of accesses to arrays of known size', 'sizes of the arrays of matrices'])
check('S17', 'symbolic ranges: size of each array and indices of the accesses leading to it as terms over sizes, loop counters, thread number and team size',
  'Pointers are traced to the array they lead to through copies, offsets, members and inlined callees; index and size terms are compared by evaluating them for teams of 1-8 threads and sample values of their atoms (the formula is evaluated, not the program). Indices read from data (colidx, permutations, queues) and sizes counted from data are undecided and reported as such.')

exec(open(os.path.join(V, 'tools', 'props2.py')).read())

if __name__ == '__main__':
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    claimed = {c['property'] for c in CHECKS}
    for p in P: assert (p['id'] in claimed) != any(n['property'] == p['id'] for n in NA), p['id']
    m = {'version': 1, 'setup_cmd': 'python3 analysis/core.py --setup', 'checks': sorted(CHECKS, key=lambda c: c['property']), 'not_applicable': sorted(NA, key=lambda n: n['property']),
         'notes': 'Static analysis only. Checks read /repo (or $SPMP_REPO) on every run, through a clang front end built from frontend/astdump.cpp into build/.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
