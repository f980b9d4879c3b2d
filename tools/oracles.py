O = {'C01': 'Oracle: a map from row to sorted set of columns plus values; documented exceptions by stage. Tracked block type and allocator prove release and construction exactly once.',
 'C02': 'Oracle: value semantics (plain structs) per object; after every operation all live objects are compared; tracked allocator/blocks.',
 'C03': 'Oracle: dense matrix of the flattened blocks; inputs are all patterns with seeded values incl. stored zeros and NaN probes; all build modes because the memory layouts differ.',
 'C05': 'Oracle: std::set of pairs.',
 'C06': 'Oracle: dense product and symbolic product; structural counters from the pattern.',
 'C07': 'Oracle: `itref::step`: recursive definition of Jacobi/GS/SOR on index ranges.',
 'C08': 'Oracle: right-looking elimination restricted to the pattern (the library goes row by row) giving L U, then A-pattern identity; applied via full-rank probes.',
 'C09': 'Oracle: per iteration definition (optimality over the Krylov space by a dense projection, textbook recurrences, fixed-point iteration) through a logging operator/preconditioner; result '
        'record recomputed from true defects; faults injected at every operator/preconditioner call.',
 'C10': 'Oracle: dense Gaussian elimination with pivoting, normal equations for SPQR; call histories on one solver object; file truncation at each byte.',
 'C12': 'Oracle: independent parser/expander of the documented format; file system effects only inside /dev/shm scratch directories.',
 'C13': 'Oracle: the sweep written on flat vectors, local solves by dense elimination or by SeqILU on an explicit local matrix (itself decided by C08).',
 'C14': 'Oracle: the strength rule of each policy written on a dense table of block norms; the aggregates are judged by the stated requirements (partition, connectivity, counts, no stranded '
        'dependent row), never by comparison with one particular aggregation, so any other legal aggregation is accepted.',
 'C15': 'Oracle: `aggregatesMaps()` of the library are taken as given (they are decided by C14), everything else is recomputed: dense Galerkin products, the cycle as a recursive function over public '
        'smoothers (decided by C07, C08), dense elimination on the coarsest level; a counting `operator new` shows leaks of every construction path.',
 'C16': 'Oracle: adjacency sets computed from the pattern; a plain table of the flags per vertex and edge; breadth-first distances by hand.',
 'C17': 'Oracle: one global table (rank, index) -> attribute, value; expected exchange computed per entry. All message orders to the deviation bound.',
 'C18': 'Oracle: the global sequential matrix/vector; exchange by definition; solvers: the sequential solver of the same type on the global system.',
 'C20': 'Oracle: aggregates of the ranks are glued to global ones (they have to agree), everything else is recomputed on the global matrix: dense Galerkin products per level, and the cycle as a recursive function on the global hierarchy with Jacobi smoothing (which does not depend on the distribution).',
 'C23': 'Oracle: the residual and the Rayleigh quotient of the returned pair computed densely, a dense reference iteration (same iterates and step count where two perturbed runs of the reference agree, i.e. where the result does not depend on rounding), and the spectrum from Jacobi rotations.',
 'C11': 'Oracle: the same object constructed by hand with the documented parameters (its own behaviour is decided by C07-C10, C15, C17, C18): results of apply, iteration counts and convergence have to be identical; a table of documented exceptions.',
 'C24': 'Oracle: list of stored scalars computed from the pattern, parsed back from the text; recorded boxes for pictures.',
 'C19': 'Oracle: the partition handed out by the ParMETIS/METIS stand-in (which records the graph it was given and returns every partition), global matrix rows.',
 'C22': 'Oracle: flat matrix of all blocks.'}
