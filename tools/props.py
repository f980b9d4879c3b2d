prop('C01', 'Every matrix build mode yields exactly the declared sparsity pattern',
 'For every matrix size, sparsity pattern and legal order of construction calls, building a sparse matrix row by row, by random insertion after row sizes, or implicitly by accessing entries yields a matrix whose rows contain exactly the declared columns in ascending order, whose reported sizes and non-zero count match, and in which every access path reaches the same distinct entries with the values given during assembly. Reserving more room than needed changes nothing observable; too little room, indices out of range and calls in the wrong stage are rejected with the documented exception. A construction may be abandoned or restarted at any point without leaking, corrupting memory or carrying entries over.',
 ['inputs', 'histories'], 'all sizes, patterns, insertion orders, reservations and stopping points of the construction call sequences',
 'The tests build a handful of fixed patterns in one order each; which combination of pattern, order, over- or under-reservation and reuse goes wrong is a question about all of them.',
 ['bcrsmatrix.hh', 'basearray.hh', 'bvector.hh'],
 [('row-wise creation', 'bcrsmatrix.hh CreateIterator'), ('random creation', 'bcrsmatrix.hh setrowsize/endrowsizes/addindex/endindices'), ('implicit creation', 'bcrsmatrix.hh entry/compress')],
 'pattern, values and exceptions through the public matrix interface')
prop('C02', 'Copies of matrices and vectors are deep, independent and complete',
 'After any sequence of constructing, copying, assigning, resizing, scaling and destroying sparse matrices and block vectors, each object holds exactly the structure and values that a value-semantics reference holds, whatever storage is shared internally. Changing, resizing or destroying one object never changes another; all memory and all block objects are released exactly once.',
 ['histories'], 'all operation sequences up to a bounded depth over several live objects, starting from matrices built in every mode',
 'The tests copy once or twice from one starting state; sharing bugs need particular chains such as copy, resize the source, assign back.',
 ['bcrsmatrix.hh', 'bvector.hh', 'vbvector.hh', 'matrix.hh'],
 [('copy and assignment', 'bcrsmatrix.hh BCRSMatrix(const BCRSMatrix&), operator='), ('index sharing', 'bcrsmatrix.hh copyWindowStructure'), ('release', 'bcrsmatrix.hh deallocate')],
 'object contents after each operation; allocator and block lifetime accounting')
prop('C03', 'Matrix and vector arithmetic equals the flat algebra for every block structure',
 'For every block type (scalars, dense, diagonal, scaled-identity and nested sparse blocks; real and complex), every shape including empty ones and every sparsity pattern, the matrix-vector products (plain, additive, subtractive, scaled, transposed, Hermitian), scaling, addition and axpy of matrices and vectors, dot products and all norms of BCRSMatrix, Matrix, BDMatrix, BTDMatrix, ScaledIdentityMatrix and the block vectors give exactly what the same operation gives on the flat dense matrix and vector. Operands not written to stay unchanged, and NaN entries propagate into the maximum norms.',
 ['inputs'], 'all shapes and sparsity patterns up to a small bound for each block type, plus a ladder of larger sizes',
 'The tests compare single hand-picked matrices; the guarantee is about every pattern, shape and block type.',
 ['bcrsmatrix.hh', 'matrix.hh', 'bdmatrix.hh', 'btdmatrix.hh', 'scaledidmatrix.hh', 'bvector.hh', 'vbvector.hh'],
 [('sparse products', 'bcrsmatrix.hh mv/umv/mtv/umhv/usmv'), ('dense products', 'matrix.hh'), ('scaled identity', 'scaledidmatrix.hh'), ('norms', 'bvector.hh, bcrsmatrix.hh infinity_norm')],
 'results of the public arithmetic interface')
prop('C05', 'MatrixIndexSet and pattern import give exactly the requested pattern',
 'For every sequence of add(), resize() and import() calls, in any order, a MatrixIndexSet contains exactly the inserted pairs, reports correct sizes, row sizes and membership, iterates every row in ascending order, and exports a matrix with exactly that pattern whatever the target matrix held before. Row storage switching between representations is never observable.',
 ['inputs', 'histories'], 'all insertion orders up to a bound, all threshold values of the row representation, all target matrix states',
 'The tests insert one pattern; the switch of the representation depends on the order, the count and the threshold.',
 ['matrixindexset.hh'],
 [('insertion and representation switch', 'matrixindexset.hh add'), ('import', 'matrixindexset.hh import'), ('export', 'matrixindexset.hh exportIdx')],
 'public interface of MatrixIndexSet and the exported matrix')
prop('C06', 'Sparse matrix products and matrix utilities match the dense definition',
 'For every pair of sparsity patterns and conforming block types, matMultMat, matMultTransposeMat and transposeMatMultMat return the product with exactly the symbolic non-zero pattern and leave the operands unchanged. countNonZeros, MatrixDimension (rowdim/coldim, total and per row or column), CheckIfDiagonalPresent, flatMatrixForEach/flatVectorForEach, blockLevel and the pattern-sum, copy and conversion utilities agree with the definition on the flat matrix.',
 ['inputs'], 'all pairs of patterns up to 3x3x3 (and a ladder beyond) with each block type',
 'Tests multiply one or two matrices; empty rows, empty columns and cancelling entries only occur for particular pairs of patterns.',
 ['matrixmatrix.hh', 'matrixutils.hh', 'foreach.hh', 'blocklevel.hh'],
 [('sparse products', 'matrixmatrix.hh'), ('dimensions and counting', 'matrixutils.hh'), ('flat iteration', 'foreach.hh')],
 'returned matrices, counts and visited entries')
prop('C07', 'Relaxation steps compute the block-recursive iteration they are named after',
 'For every sparsity pattern with a full diagonal, every block type and every block recursion level, the Jacobi, Gauss-Seidel, forward and backward SOR and SSOR steps, the block triangular and block diagonal solves and the preconditioners SeqJac, SeqGS, SeqSOR, SeqSSOR and Richardson compute the result of the textbook iteration on the flat matrix with the given relaxation factor and number of iterations, also for heterogeneous MultiTypeBlockMatrix systems and blocks of different sizes. The exact solution is a fixed point, neither the matrix nor the right hand side changes, and with checking enabled a missing diagonal block is rejected.',
 ['inputs'], 'all patterns up to 4x4 blocks for each block type, level, relaxation factor and iteration count, plus a ladder of larger sizes',
 'The tests only look at convergence of one model problem, which a wrong coupling, order or relaxation still reaches.',
 ['gsetc.hh', 'preconditioners.hh', 'multitypeblockmatrix.hh', 'matrixutils.hh'],
 [('iteration steps', 'gsetc.hh algmeta_itsteps'), ('triangular solves', 'gsetc.hh algmeta_btsolve'), ('heterogeneous steps', 'multitypeblockmatrix.hh MultiTypeBlockMatrix_Solver'), ('preconditioners', 'preconditioners.hh')],
 'result vectors of the kernels and of Preconditioner::apply')
prop('C08', 'Incomplete factorizations reproduce the matrix on their pattern',
 'For every sparsity pattern with a full diagonal and every block type, SeqILU of order n, SeqDILU and SeqILDL apply the inverse of the factorization defined by elimination restricted to the pattern: ILU(0), ILU(n) and ILDL reproduce the matrix on the pattern (ILU(n) adds exactly the fill of original entries for n=1, never less fill for larger n, and is exact for n at least the size), DILU reproduces the diagonal. Storage variant (resort), relaxation and construction from a parameter tree do not change the factorization, the matrix stays unchanged, and a missing diagonal entry is reported as an ISTLError.',
 ['inputs'], 'all patterns up to 4x4 blocks (symmetric ones up to 5x5), all orders, all constructors, and a ladder of larger patterns',
 'An incomplete factorization with a wrong entry still preconditions well enough for the iteration counts tests look at.',
 ['ilu.hh', 'dilu.hh', 'ildl.hh', 'preconditioners.hh'],
 [('ILU', 'ilu.hh blockILU0Decomposition/blockILUDecomposition/blockILUBacksolve/convertToCRS'), ('DILU', 'dilu.hh'), ('ILDL', 'ildl.hh')],
 'result of Preconditioner::apply for full-rank right hand sides; pattern of the factorization')
prop('C22', 'Heterogeneous block matrices and vectors behave like the flat algebra',
 'For every combination of block shapes and sparsity patterns, MultiTypeBlockMatrix products (plain, transposed, Hermitian, scaled, additive), scaling, addition, copying, assignment and norms, nested or used through MatrixAdapter, equal the same operation on the flat matrix assembled from all blocks. Operands not written to stay unchanged, and a NaN in any block reaches the norms.',
 ['inputs'], 'all patterns of all blocks for a set of block shapes including empty blocks, real and complex',
 'Tests print results of single systems or check one solve.',
 ['multitypeblockmatrix.hh', 'multitypeblockvector.hh', 'operators.hh'],
 [('products', 'multitypeblockmatrix.hh mv/umv/mtv/umhv/usmtv'), ('norms', 'multitypeblockmatrix.hh frobenius_norm2/infinity_norm'), ('vector', 'multitypeblockvector.hh')],
 'results of the public arithmetic interface')
prop('C09', 'Krylov solvers produce their defining iterates and report truthful statistics',
 'For every small nonsingular system of the class a solver is meant for (real and complex, definite, indefinite, nonsymmetric, singular start defects), every preconditioner including flexible ones where the solver supports them, every start vector, reduction, iteration limit and restart length, the iterates of LoopSolver, GradientSolver, CGSolver, BiCGSTAB, MINRES, RestartedGMRes, RestartedFlexibleGMRes, GeneralizedPCG and the restarted and complete FCG solvers are those of the defining method (optimality over the Krylov space, orthogonality, textbook recurrence), independent of the scaling of the matrix and of the right hand side. The reported iterations, reduction, convergence flag, rate and condition estimate agree with what happened: at most maxit iterations, converged exactly if the requested reduction (or an absolute defect at the underflow level) is reached, and stop at the first such iterate. An apply with a given reduction uses that reduction for that call only, repeated calls and calls after an exception behave like calls on a new solver, a NaN in the operator or preconditioner ends in the documented SolverAbort, and preconditioner pre and post are called once per solve.',
 ['inputs', 'histories', 'fault_sequences'], 'all systems from an exhaustive family of small matrices, preconditioners, starts and parameters; all short call sequences; all fault positions',
 'Tests check that one model problem converges; a solver that iterates once too often, ignores a parameter or loses optimality after a restart still converges.',
 ['solver.hh', 'solvers.hh', 'preconditioner.hh', 'scalarproducts.hh'],
 [('iteration and statistics', 'solver.hh IterativeSolver::Iteration'), ('methods', 'solvers.hh'), ('call with reduction', 'solver.hh IterativeSolver::apply')],
 'InverseOperator::apply: solution, result record, calls on operator and preconditioner')
prop('C10', 'Direct solvers return the exact solution of the system that was set last',
 'For every nonsingular (for LDL and Cholmod symmetric, for Cholmod positive definite) sparse matrix, block size and supported number type (real, complex), SuperLU, UMFPack (also nested and multi-type matrices), LDL, SPQR, Cholmod, BTDMatrix::solve and BDMatrix::solve return the solution of A x = b up to rounding, SPQR the least-squares solution for rectangular matrices, and report one iteration and convergence, through every form of apply and every constructor and without changing the matrix. This holds after any sequence of setMatrix, setSubMatrix, setMatrix with ignored unknowns, apply and free on one solver object: the solution is that of the last set (sub)system, ignored entries are untouched (Cholmod), no memory is leaked or used after being freed, and apply without a matrix or with vectors of the wrong size is rejected where the solver checks sizes (SuperLU, UMFPack). A decomposition saved by UMFPack solves the same system after loading, an incompletely written file is never used as a decomposition, and LDL reports a singular matrix by an exception.',
 ['inputs', 'histories', 'crash_points'], 'all patterns up to 3x3 (and a ladder beyond) per solver and block type; all call sequences to a depth; all truncation points of the decomposition file',
 'The tests factorize one Laplacian once; unsymmetric patterns, pivoting, sub-systems, reuse of a solver and damaged files are never exercised.',
 ['superlu.hh', 'umfpack.hh', 'ldl.hh', 'spqr.hh', 'cholmod.hh', 'bccsmatrixinitializer.hh', 'bccsmatrix.hh', 'supermatrix.hh', 'btdmatrix.hh', 'bdmatrix.hh'],
 [('column-compressed conversion', 'bccsmatrixinitializer.hh copyToBCCSMatrix'), ('reuse', 'setMatrix/setSubMatrix/free of each solver'), ('ignored unknowns', 'cholmod.hh setMatrix, umfpack.hh setMatrix'), ('saved decompositions', 'umfpack.hh saveDecomposition and file constructors')],
 'solution vectors, InverseOperatorResult, exceptions and allocated memory')
prop('C12', 'MatrixMarket files are read back as written and damaged ones are rejected',
 'For every sparse matrix (any pattern, block shape and real, complex or integer field) and every block vector, writing it in MatrixMarket format with sufficient precision and reading it into any target returns the same sizes, pattern and values, for every file name variant; on several ranks the files of each rank restore its part, its index set and its connections to the other ranks. Every file in the documented coordinate format (general, symmetric, skew-symmetric, hermitian; comments, any order of entries, partially stored blocks, missing diagonal) is expanded to the matrix it defines. A matrix, vector or index file that is cut off, has entries out of range, sizes that do not fit the blocks, or an unsupported format is rejected by an exception instead of being misread.',
 ['inputs', 'crash_points'], 'all patterns up to 3x3 blocks and all targets; all subsets of entries, orders and layouts of small files; every truncation point of a file',
 'The tests round-trip one dense-diagonal matrix and one vector.',
 ['matrixmarket.hh'],
 [('reader', 'matrixmarket.hh readMatrixMarket/readSparseEntries'), ('writer', 'matrixmarket.hh writeMatrixMarket/storeMatrixMarket'), ('header', 'matrixmarket.hh readMatrixMarketBanner/mm_read_header')],
 'contents of the matrix or vector read, and exceptions')
prop('C17', 'Parallel communication moves exactly the values its attributes prescribe',
 'For every distribution of indices over the ranks (one owner each, overlap, copy or absent elsewhere, any local numbering, any way of setting up index sets and remote indices) and every order in which messages arrive, the remote indices are exactly what the other ranks publish, copyOwnerToAll, copyCopyToAll, addOwnerOverlapToAll, addOwnerCopyToAll, addOwnerCopyToOwnerCopy and project change exactly the prescribed entries to the prescribed values, also in place and in any sequence, without changing the source. Global dot products (conjugating the first argument) and norms count every owned entry exactly once and agree on all ranks. No schedule deadlocks, loses a message or mixes up messages; wrong index information is reported, and the communicator is freed if and only if that was requested.',
 ['schedules', 'inputs', 'histories'], 'all decompositions of up to 3 indices over up to 3 ranks, all setups, all operations and pairs of operations, all message orders up to a deviation bound (4 ranks for one exchange)',
 'The tests run one decomposition on a few ranks with whatever message order the MPI library happens to produce.',
 ['owneroverlapcopy.hh', 'scalarproducts.hh'],
 [('index information', 'owneroverlapcopy.hh OwnerOverlapCopyCommunication constructor'), ('exchange', 'owneroverlapcopy.hh copyOwnerToAll/addOwner*'), ('dot and norm', 'owneroverlapcopy.hh dot/norm, scalarproducts.hh ParallelScalarProduct')],
 'vectors of all ranks after each operation', technique='stateless exploration of the real code over an in-process MPI: all message matches up to a deviation bound')
prop('C18', 'Parallel operators, preconditioners and solvers equal the sequential ones',
'For every distribution of indices over the ranks, every sparsity pattern and every argument that is consistent where the documentation asks for it, the overlapping Schwarz operator (apply and applyscaleadd) yields on every rank the entries of the global sequential product and zero on copy entries, and the nonoverlapping operator yields the global product on all owner and copy entries whenever a shared index belongs to the first rank of some ranking. BlockPreconditioner, NonoverlappingBlockPreconditioner and ParSSOR apply the sequential preconditioner to the local matrix and then perform exactly the prescribed exchange, in pre, apply and post, without changing the defect. Every iterative solver run in parallel with parallel operator, scalar product and preconditioner produces the iterates, iteration count and result record of the sequential run on the global problem, the same on all ranks.',
['inputs', 'schedules', 'configurations'], 'all directed patterns and owner/overlap/copy assignments of up to 3 indices over 2 and 3 ranks (paths and rings beyond that), all element distributions for the nonoverlapping case, ten solvers',
'No test compares a parallel operator with the sequential one; solvers are only run on one decomposition in which a wrong border contribution merely changes an iteration count.',
['schwarz.hh', 'novlpschwarz.hh', 'scalarproducts.hh', 'solvers.hh'],
[('operators', 'schwarz.hh OverlappingSchwarzOperator, novlpschwarz.hh NonoverlappingSchwarzOperator'), ('preconditioners', 'schwarz.hh BlockPreconditioner/ParSSOR, novlpschwarz.hh NonoverlappingBlockPreconditioner'), ('solvers', 'solvers.hh with scalarproducts.hh ParallelScalarProduct')],
'vectors of all ranks and result records', technique='stateless exploration of the real code over an in-process MPI, compared with a dense global model')
prop('C19', 'Repartitioning and redistribution lose nothing and follow the partitioner',
'For every distributed symmetric matrix graph (also with private indices missing from the index set), every number of parts and every partition that the graph partitioner may return, graphRepartition and commGraphRepartition hand the partitioner the true graph and produce a distribution in which every index has exactly one owner, namely the one the partitioner asked for, every rank has copies of exactly the neighbours of its indices, and the new communicator and remote indices work. Redistributing vectors forward and backward moves exactly the owned values, and redistributeMatrix reproduces every row of the global matrix at its new owner (overlapping: Dirichlet rows for the copies; nonoverlapping: rows completed from all copies). No schedule deadlocks, and nothing is read or written out of bounds.',
['inputs', 'schedules'], 'all graphs of up to 3 vertices (paths, rings, pairs, complete graphs and stars of 4 and 5), all owners, all partitions, 2 to 4 ranks, message orders up to a deviation bound',
'The one redistribution test uses a structured grid with the partition that ParMETIS happens to return and a numbering in which local and global order agree.',
['repartition.hh', 'matrixredistribute.hh'],
[('partitioning', 'repartition.hh graphRepartition/commGraphRepartition/buildCommunication/fillIndexSetHoles'), ('redistribution', 'matrixredistribute.hh redistributeMatrix, RedistributeInformation')],
'new index sets, vectors and matrices of all ranks; the graph passed to the partitioner', technique='stateless exploration of the real code over an in-process MPI with a partitioner stand-in that returns every partition')
prop('C20', 'Parallel AMG works on the Galerkin hierarchy of the global matrix',
'For every distributed matrix graph (any owners, overlap, numbering, ranks without indices, more vertices known than needed), criterion and accumulation mode, all ranks agree on the levels of the AMG hierarchy and their global aggregates; every level has exactly one owner per coarse index, matching remote indices and the exact Galerkin product of the global matrix with the global aggregates as its owned rows (copies are decoupled), also after redistribution to fewer processes and after recalculateGalerkin. One application of parallel AMG is the documented cycle of that global hierarchy with the same values on owners and copies on every rank, for all numbers of smoothing steps, gamma, damping, additive mode, direct and iterative coarse solvers, and for repeated applications; pre() and post() leave consistent vectors. No message order changes this or deadlocks, and no process reports a different level count or convergence than the others.',
['inputs', 'configurations', 'schedules'], 'all graphs and owners of up to 4 (thorough 5) vertices on 2 ranks, structured graphs on up to 5 ranks and 25 vertices, criteria and cycle parameters as listed in the bounds; message orders up to a deviation bound',
'The parallel AMG test solves one Laplacian and looks at convergence; a coarse level that is wrong at a process boundary or redistributed incompletely only costs iterations, and rare message orders are never met.',
['paamg/amg.hh', 'paamg/matrixhierarchy.hh', 'paamg/indicescoarsener.hh', 'paamg/globalaggregates.hh', 'paamg/galerkin.hh', 'paamg/hierarchy.hh', 'paamg/transfer.hh', 'paamg/pinfo.hh', 'repartition.hh', 'matrixredistribute.hh', 'owneroverlapcopy.hh'],
[('coarse index sets', 'paamg/indicescoarsener.hh ParallelIndicesCoarsener, globalaggregates.hh'), ('parallel hierarchy and accumulation', 'paamg/matrixhierarchy.hh MatrixHierarchy::build, repartitionAndDistributeMatrix'), ('cycle with redistribution', 'paamg/amg.hh mgc/moveToCoarseLevel/moveToFineLevel/createCoarseSolver, transfer.hh'), ('parallel Galerkin product', 'paamg/galerkin.hh OverlapVertex, ParallelGalerkinProduct')],
'index sets, remote indices, matrices and aggregates of all levels and ranks; results of apply on every rank', technique='stateless exploration of the real code over an in-process MPI')
prop('C23', 'Eigenvalue algorithms return eigenpairs or report that they failed',
'For every square matrix, start vector, shift, interval, accuracy and iteration limit, power iteration, inverse iteration (with and without shift), Rayleigh quotient iteration and TLIME perform their defining iteration and return a normalised vector whose residual with the returned Rayleigh quotient is at most the requested one after at most the allowed number of steps, or throw; they never return NaN, do not change the matrix, and report the iteration count. This holds for direct and iterative linear solvers, also inexact ones if linear solver crime is to be avoided, and for every sequence of calls on one object: iteration operator and iteration matrix always are A minus the current shift, and every solver used works with it. The ARPACK++ algorithms return the eigenvalues and singular values of largest and smallest magnitude and the condition numbers of symmetric and of tall rectangular matrices and refuse other shapes.',
['inputs', 'histories', 'configurations'], 'all small symmetric and general matrices from an entry set, families up to 20 rows (ARPACK++: 32), all parameter combinations, all call sequences of length 3 (thorough 4) with three solvers',
'The test computes a few eigenvalues of one Laplacian with fresh objects; a stale shift, a swapped dimension or an ignored parameter needs another matrix shape or a second call.',
['eigenvalue/poweriteration.hh', 'eigenvalue/arpackpp.hh', 'solver.hh'],
[('iterations', 'eigenvalue/poweriteration.hh PowerIteration_Algorithms::apply*'), ('shifted operator and matrix', 'eigenvalue/poweriteration.hh updateShiftMu, getIterationMatrix, Impl::LinearOperatorSum'), ('ARPACK++', 'eigenvalue/arpackpp.hh ArPackPlusPlus_Algorithms')],
'eigenvalue, vector, iteration count, exceptions, iteration operator and matrix')
prop('C11', 'Solver factory builds the same objects as the constructors',
'For every registered preconditioner, iterative solver, direct solver and AMG name, every combination of the documented configuration keys and every sequential, overlapping or nonoverlapping operator (also matrix-free ones and operators seen through their base class), the object made by the factory or by a ParameterTree constructor behaves exactly like the class constructed by hand with the documented parameters and defaults, on the scalar product of the category of the operator, with a sequential preconditioner made parallel where the operator is parallel. Missing, malformed or unknown keys, a direct solver on several processes or without a matrix it supports, and components of different solver categories raise the documented exceptions and leave later calls unaffected. Objects do not depend on later calls, on later changes of the configuration or on the lifetime of the operator passed in.',
['configurations', 'inputs', 'histories'], 'all names x all key combinations on small matrices of several block types, call histories of length 3 (thorough 4), decompositions of up to 5 vertices on 2-3 ranks',
'The factory test checks that objects can be created; a key that is read into the wrong parameter, an ignored default or a category mix-up still converges.',
['solverfactory.hh', 'solverregistry.hh', 'common/registry.hh', 'solver.hh', 'solvers.hh', 'preconditioners.hh', 'preconditioner.hh', 'paamg/amg.hh', 'scalarproducts.hh', 'schwarz.hh', 'novlpschwarz.hh', 'operators.hh'],
[('factory', 'solverfactory.hh getSolverFromFactory, SolverFactory, PreconditionerFactory'), ('registry', 'solverregistry.hh, common/registry.hh'), ('category checks', 'solver.hh IterativeSolver constructors, scalarproducts.hh createScalarProduct'), ('AMG from a configuration', 'paamg/amg.hh AMGCreator')],
'results and iteration counts of factory objects and of objects built by hand, exceptions', technique='exhaustive enumeration of configurations and call histories on the real code')
prop('C13', 'Overlapping Schwarz applies exactly the local corrections it names',
'For every sparsity pattern, block size, family of overlapping subdomains that covers all rows (given as sets or as lists per row, in any order), relaxation factor and start vector, SeqOverlappingSchwarz performs the additive, multiplicative or symmetric multiplicative sweep of its definition: each subdomain in order (and back again) solves its local matrix for the current defect and adds the relaxed correction. This holds for every local solver (ILU0, ILUN, DynamicMatrix, SuperLU, UMFPack), gives the same result with decompositions computed on the fly or in advance, and for repeated applications; matrix and right hand side stay unchanged.',
['inputs', 'configurations'], 'all patterns and all sequences of up to 2 (for 2 rows 3) subdomains of up to 3 rows, five families of subdomains and four patterns for larger sizes, all modes, local solvers, constructors',
'The test runs one structured problem and looks at convergence; a correction that is relaxed twice or built from a stale defect still converges.',
['overlappingschwarz.hh', 'ilusubdomainsolver.hh', 'bccsmatrixinitializer.hh'],
[('sweeps', 'overlappingschwarz.hh SeqOverlappingSchwarz::apply'), ('local problems', 'overlappingschwarz.hh assembleLocalProblems, OverlappingAssigner'), ('incomplete local solvers', 'ilusubdomainsolver.hh')],
'result of Preconditioner::apply')
prop('C16', 'Graph views of matrices and their properties are faithful',
'For every sparsity pattern with a full diagonal (symmetric or not) MatrixGraph presents exactly the off-diagonal entries as edges with the right source, target, weight, edge descriptors that are unique and found by findEdge, and rejects matrices that are not square. SubGraph presents exactly the vertices and edges among vertices that are not excluded with consecutive edge indices; PropertiesGraph and VertexPropertiesGraph attach to each vertex and edge its own, initially empty property, reached consistently through iterators, descriptors, selectors and the visited map, and every sequence of flag operations leaves exactly the flags it set. breadthFirstSearch visits exactly the vertices of the aggregate connected to the start, once each and nearest first, reports the edges leaving it, and leaves visited flags and the vertex list as requested.',
['inputs', 'histories'], 'all directed patterns and excluded sets of up to 4 vertices, all flag histories of length 4, all aggregate maps of up to 4 vertices, larger families to 40 vertices',
'The graph test prints one 10x10 grid; an edge index shared between two edges or a lost edge of a sub graph only changes the quality of the aggregates.',
['paamg/graph.hh', 'paamg/dependency.hh', 'paamg/aggregates.hh', 'paamg/combinedfunctor.hh'],
[('graphs', 'graph.hh MatrixGraph, SubGraph'), ('properties', 'graph.hh PropertiesGraph/VertexPropertiesGraph, dependency.hh EdgeProperties/VertexProperties'), ('search', 'aggregates.hh AggregatesMap::breadthFirstSearch')],
'graph traversals, properties, results of the search')
prop('C14', 'AMG marks strong couplings by the rule and aggregates every row',
'For every matrix, norm, dependency policy, threshold and set of excluded rows the dependency graph carries exactly the depends, influences, isolated and (on the finest level) Dirichlet flags of the documented rule. The aggregation assigns every row of the graph to one of the nonempty aggregates 0..k-1, or skips it exactly if it is a Dirichlet row of the finest level or isolated with skipIsolated set; aggregates are connected (by strong connections unless they contain isolated rows), no row stays alone on which a nonisolated neighbour depends, and the four returned counts are true. The result is reproducible, unaffected by scaling the matrix, leaves no visited marks, and the default parameters of every criterion are those of the documentation.',
['inputs', 'configurations'], 'all directed weighted matrices of up to 3 rows, all symmetric ones of 4 rows, blocks of size 2 and 3 with five norms, eight size settings, thresholds, sub graphs; grids and chains up to 64 rows (thorough: 5 rows, 144 rows)',
'The test prints the aggregates of one grid and never compares them; a wrong strong coupling or an aggregated Dirichlet row merely costs a few iterations.',
['paamg/aggregates.hh', 'paamg/dependency.hh', 'paamg/parameters.hh'],
[('dependency', 'aggregates.hh SymmetricDependency, Dependency, SymmetricMatrixDependency, buildDependency'), ('aggregation', 'aggregates.hh Aggregator::build and growth'), ('parameters', 'parameters.hh')],
'edge and vertex flags, the aggregates map and the returned counts')
prop('C15', 'AMG builds the Galerkin hierarchy and applies the documented cycle',
'For every structurally symmetric matrix, criterion and parameter set the AMG hierarchy consists of the exact Galerkin products of the finer matrix with its aggregation, ends at the documented limits (levels, coarsening target, coarsening rate), reports consistent coarsest aggregates and is recalculated correctly for new values. One application of AMG (V- and W-cycle and additive, any numbers of pre- and post-smoothing steps, gamma, damping, seven smoothers, direct or iterative or user-supplied coarse solver), KAMG, FastAMG and TwoLevelMethod performs exactly the documented cycle starting from zero, for every right hand side, repeatedly and on copies, leaves the matrix unchanged, and a failed coarse solve is reported by exactly the application in which it happens. Setting up AMG from a configuration tree is the same as setting the parameters by hand, wrong values are rejected, and everything allocated is released.',
['inputs', 'configurations', 'histories'], 'all symmetric patterns up to 4 rows (thorough 5), all combinations of weak and strong couplings up to 3 (thorough 4) rows, scalars and 2x2 blocks, structured problems up to 100 rows; all cycle parameters; sequences of applications; every configuration key',
'The tests check that a Laplacian converges; a wrong damping, a missing smoothing step, a stale coarse correction or an ignored parameter only changes an iteration count.',
['paamg/amg.hh', 'paamg/matrixhierarchy.hh', 'paamg/galerkin.hh', 'paamg/fastamg.hh', 'paamg/kamg.hh', 'paamg/twolevelmethod.hh', 'paamg/smoother.hh', 'paamg/fastamgsmoother.hh', 'paamg/transfer.hh', 'paamg/hierarchy.hh'],
[('hierarchy', 'paamg/matrixhierarchy.hh MatrixHierarchy::build/recalculateGalerkin, galerkin.hh'), ('cycle', 'paamg/amg.hh mgc/additiveMgc/moveToCoarseLevel'), ('K-cycle', 'paamg/kamg.hh'), ('two-level', 'paamg/twolevelmethod.hh'), ('fused smoothers', 'paamg/fastamg.hh, fastamgsmoother.hh')],
'matrices and aggregates of all levels, results of apply, exceptions')
prop('C24', 'Matlab files, printed matrices and pictures show exactly the entries',
'For every sparse, dense and nested matrix and every vector, with any pattern (also empty rows and columns), block type and field type, writeMatrixToMatlab, writeMatrixToMatlabHelper and writeVectorToMatlab write every stored scalar exactly once, with its flat 1-based row and column and with the requested number of digits, and nothing else. printmatrix, printSparseMatrix and printvector show sizes, positions and values of exactly the stored entries and restore the format of the stream. writeSVGMatrix draws exactly one rectangle per stored scalar at the place of its entry, inside the picture, for all options.',
['inputs', 'configurations'], 'all patterns of up to 6 (thorough 9) entries for eight block types, precisions, stream states and picture options as listed in the bounds',
'The IO test writes one Laplacian and compares with nothing; an offset that is wrong after an empty row or for a rectangular block gives a plausible file.',
['io.hh', 'matrixutils.hh'],
[('Matlab output', 'io.hh writeMatrixToMatlabHelper, writeVectorToMatlabHelper'), ('printing', 'io.hh printmatrix, printSparseMatrix, printvector'), ('pictures', 'io.hh writeSVGMatrix'), ('flat dimensions', 'matrixutils.hh MatrixDimension')],
'files and streams written', technique='exhaustive enumeration of inputs on the real code')
