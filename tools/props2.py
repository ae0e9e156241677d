# Properties outside the reach of static analysis.
def nap(id, title, statement, text, why, files, mech, reason):
    prop(id, title, statement, ['inputs', 'schedules'], text, why, files, mech); na(id, reason)
nap('N01', 'Scheduled triangular solves equal the sequential solve',
  'For every matrix and every thread count, the barrier-based and the point-to-point scheduled triangular solves and Gauss-Seidel sweeps return the result of the sequential sweep.',
  'all matrices, thread counts and interleavings', 'Tests use a few small matrices on 1-4 threads.', ['LevelSchedule.cpp', 'SymGS.cpp', 'test/trsv_test.cpp'], [('task dependency graph', 'LevelSchedule::constructTaskGraph')],
  'The order is enforced by a dependency graph that is computed at run time from the matrix; whether that graph orders every conflicting pair quantifies over its contents, which no static argument here bounds (S01 decides the indexing, S09 and S10 races and barriers, S14 the shares).')
nap('N02', 'Reorderings are bijections and reduce bandwidth',
  'Every reordering returns a permutation of the rows with its exact inverse, and reverse Cuthill-McKee does not depend on the number of threads.',
  'all matrices and thread counts', 'Tests check isPerm on small connected matrices.', ['reordering/RCM.cpp', 'reordering/BFSBipartite.cpp'], [('parallel BFS with prefix sums', 'reordering/RCM.cpp')],
  'Bijectivity rests on run-time queue contents and atomic visits; it is a heap-data invariant, not a dataflow fact.')
nap('N03', 'Transitive reduction keeps the dependency order',
  'Removing transitive edges from the task graph never removes an ordering between two tasks.',
  'all task graphs', 'Tests look at the numerical result only, for small inputs.', ['LevelSchedule.cpp'], [('two-hop edge removal', 'LevelSchedule::constructTaskGraph_')],
  'A property of reachability in a graph built at run time.')
nap('N04', 'Parallel prefix sums equal the sequential ones',
  'For every input and thread count the parallel prefix sum stores the sequential running totals.',
  'all arrays, thread counts', 'Tests only exercise it as part of a few conversions.', ['PrefixSum.cpp'], [('two-phase scan', 'PrefixSum.cpp')],
  'Functional correctness of a loop over run-time data requires a numeric invariant proof, outside dataflow analysis.')
nap('N05', 'Level sets respect every dependency',
  'Each row is put in a level after those of all rows it depends on, and every row is put in exactly one level and one task.',
  'all matrices', 'Only a handful of matrices are levelised.', ['LevelSchedule.cpp'], [('level construction', 'LevelSchedule.cpp findLevels')],
  'Quantifies over the run-time contents of the level arrays.')
nap('N06', 'ILU(0) and the symmetric Gauss-Seidel sweep are numerically correct',
  'The incomplete factors multiply back to the matrix on its sparsity pattern, and one sweep equals the textbook formula within rounding.',
  'all matrices with a full diagonal', 'Tests compare a few matrices with a tolerance.', ['CSR.cpp', 'SymGS.cpp', 'LevelSchedule.cpp'], [('row elimination', 'SymGS.cpp')],
  'Numerical functional correctness is not a static dataflow fact.')
