CHECKS = {}
CHECKS['C01'] = dict(bins=[dict(name='build', src='C01/build.cc')], bounds='', assumptions=[])
CHECKS['C02'] = dict(bins=[dict(name='life', src='C02/life.cc'), dict(name='vec', src='C02/vec.cc')], bounds='', assumptions=[])
CHECKS['C03'] = dict(bins=[dict(name='mat%d' % i, src='C03/mat.cc', defs=['PART%d' % i]) for i in range(1, 8)] + [dict(name='vec', src='C03/vec.cc')], bounds='', assumptions=[])
CHECKS['C05'] = dict(bins=[dict(name='idx', src='C05/idx.cc')], bounds='', assumptions=[])
CHECKS['C06'] = dict(bins=[dict(name='prod', src='C06/prod.cc'), dict(name='util', src='C06/util.cc')], bounds='', assumptions=[])
CHECKS['C07'] = dict(bins=[dict(name='relax%d' % i, src='C07/relax.cc', defs=['PART%d' % i]) for i in (1, 2, 3, 4)] + [dict(name='relax5', src='C07/relax.cc', defs=['PART5', 'DUNE_ISTL_WITH_CHECKING=1'])] + [dict(name='mt', src='C07/mt.cc')], bounds='', assumptions=[])
CHECKS['C08'] = dict(bins=[dict(name='fact%d' % i, src='C08/fact.cc', defs=['PART%d' % i]) for i in (1, 2, 3, 4)], bounds='', assumptions=[])
CHECKS['C22'] = dict(bins=[dict(name='mtm%d' % i, src='C22/mtm.cc', opt='-O0', defs=['PART%d' % i]) for i in (1, 2, 3, 4)], bounds='', assumptions=[])
CHECKS['C09'] = dict(bins=[dict(name='solve%d%s' % (i, x), src='C09/solve.cc', defs=['HAVE_ARPACKPP=1', 'SOLVERS=' + l] + (['CPLX'] if x else []), libs=['mpi', 'arpack++', 'arpack', 'superlu', 'lapack', 'blas']) for x in ('', 'c') for i, l in enumerate(['LOOP,GRAD,CG,BICG,MINRES', 'GMRES,FGMRES', 'GPCG,RFCG,CFCG'])], bounds='', assumptions=[])
DIRECT = ['HAVE_SUPERLU=1', 'HAVE_SUITESPARSE_UMFPACK=1', 'HAVE_SUITESPARSE_LDL=1', 'HAVE_SUITESPARSE_SPQR=1', 'HAVE_SUITESPARSE_CHOLMOD=1', 'HAVE_SUITESPARSE_AMD=1', 'HAVE_SUITESPARSE=1']
DIRECT_LIBS = ['superlu', 'umfpack', 'ldl', 'spqr', 'cholmod', 'amd', 'suitesparseconfig', 'lapack', 'blas']
CHECKS['C10'] = dict(bins=[dict(name='direct%s' % i, src='C10/direct.cc', defs=DIRECT + ['PART%s' % i], libs=DIRECT_LIBS) for i in ('1A', '1B', '1C', '2A', '2B', '2C', '3A', '3B', '4A', '4B', '5')], bounds='', assumptions=[])
CHECKS['C12'] = dict(bins=[dict(name='mm%d' % i, src='C12/mm.cc', defs=['PART%d' % i]) for i in (1, 2, 3, 4)] + [dict(name='par', src='C12/par.cc', flags=['--param=asan-use-after-return=0'])], bounds='', assumptions=[])
CHECKS['C17'] = dict(bins=[dict(name='comm%d' % i, src='C17/comm.cc', defs=['PART%d' % i], flags=['--param=asan-use-after-return=0']) for i in (1, 2)], bounds='', assumptions=[])
CHECKS['C18'] = dict(bins=[dict(name='par%d' % i, src='C18/par.cc', defs=['PART%d' % i], flags=['--param=asan-use-after-return=0']) for i in (1, 2, 3)], bounds='', assumptions=[])
CHECKS['C19'] = dict(bins=[dict(name='redist%d' % i, src='C19/redist.cc', defs=['PART%d' % i], flags=['--param=asan-use-after-return=0']) for i in (1, 2)] + [dict(name='redist3', src='C19/redist.cc', defs=['PART3', 'NO_PARMETIS'], flags=['--param=asan-use-after-return=0'])], bounds='', assumptions=[])
CHECKS['C13'] = dict(bins=[dict(name='schwarz%d' % i, src='C13/schwarz.cc', defs=DIRECT + ['PART%d' % i, 'DYNBLOCK'], libs=DIRECT_LIBS) for i in (1, 2, 3, 4, 5)], bounds='', assumptions=[])
CHECKS['C16'] = dict(bins=[dict(name='graph', src='C16/graph.cc')], bounds='', assumptions=[])
CHECKS['C14'] = dict(bins=[dict(name='agg1', src='C14/agg.cc', defs=['PART1']), dict(name='agg2', src='C14/agg.cc', defs=['PART2']), dict(name='agg3', src='C14/agg.cc', defs=['PART3', 'BLK=2']), dict(name='agg4', src='C14/agg.cc', defs=['PART3', 'BLK=3'])], bounds='', assumptions=[])

def _c15(name, part, blk, deps=True, thorough=False):
    return dict(name=name, src='C15/amg.cc', defs=(DIRECT if deps else []) + part + ['BLK=%d' % blk], libs=DIRECT_LIBS if deps else [], thorough_only=thorough)
CHECKS['C15'] = dict(bins=[_c15('hier0', ['PART1'], 0, False), _c15('hier1', ['PART1'], 1, False, True), _c15('hier2', ['PART1'], 2, False),
    _c15('hier5', ['PART1', 'ROWS5'], 1, False, True), _c15('cycA1', ['PART2', 'SMA'], 1, thorough=True), _c15('cycA2', ['PART2', 'SMA'], 2),
    _c15('cycB1', ['PART2', 'SMB'], 1), _c15('iter', ['PART3', 'SMA'], 1, False)]
    + [_c15('other%d%d' % (k, b), ['PART4=%d' % k], b, thorough=b == 1) for k in (1, 2) for b in (1, 2)]
    + [_c15('tree%d' % b, ['PART5'], b, thorough=b == 1) for b in (1, 2)], bounds='', assumptions=[])
CHECKS['C20'] = dict(bins=[dict(name='hier', src='C20/paramg.cc', defs=DIRECT + ['PART1'], libs=['mpi'] + DIRECT_LIBS, flags=['--param=asan-use-after-return=0']), dict(name='cycle', src='C20/paramg.cc', defs=DIRECT + ['PART2'], libs=['mpi'] + DIRECT_LIBS, flags=['--param=asan-use-after-return=0']), dict(name='cycleit', src='C20/paramg.cc', defs=['DISABLE_AMG_DIRECTSOLVER=1', 'ITERATIVE', 'PART2'], libs=['mpi'], flags=['--param=asan-use-after-return=0'])], bounds='', assumptions=[])
CHECKS['C23'] = dict(bins=[dict(name='power', src='C23/eigen.cc', defs=DIRECT + ['PART1'], libs=['mpi'] + DIRECT_LIBS), dict(name='arpack', src='C23/eigen.cc', defs=DIRECT + ['HAVE_ARPACKPP=1', 'ARPACK'], flags=['-fno-sanitize=bool'], libs=['mpi', 'arpack++', 'arpack'] + DIRECT_LIBS)], bounds='', assumptions=[])
_F = ['--param=asan-use-after-return=0']
CHECKS['C11'] = dict(bins=[dict(name='seq%d' % i, src='C11/factory.cc', defs=['SEQ=%d' % i]) for i in (1, 2, 3)]
    + [dict(name='direct', opt='-O0', src='C11/factory.cc', defs=DIRECT + ['DIRECTSOLVERS'], libs=DIRECT_LIBS), dict(name='amg', opt='-O0', src='C11/factory.cc', defs=['DISABLE_AMG_DIRECTSOLVER=1', 'WITHAMG'])]
    + [dict(name='par%d' % i, opt='-O0' if i == 3 else '-O1', src='C11/factory.cc', defs=['PAR=%d' % i] + (DIRECT + ['DIRECTSOLVERS'] if i == 3 else []), libs=['mpi'] + (DIRECT_LIBS if i == 3 else []), flags=_F) for i in (1, 2, 3)]
    + [dict(name='paramg%d' % i, opt='-O0', src='C11/factory.cc', defs=['PAR=%d' % i, 'WITHAMG', 'DISABLE_AMG_DIRECTSOLVER=1'], libs=['mpi'], flags=_F) for i in (4, 5)], bounds='', assumptions=[])
CHECKS['C11']['bins'].reverse()   # long compilations first
CHECKS['C24'] = dict(bins=[dict(name='io%d' % i, src='C24/io.cc', defs=['PART=%d' % i]) for i in (1, 2)], bounds='', assumptions=[])
ASAN = ['the host compiler, AddressSanitizer and UBSan are correct', 'values are small integers or well conditioned numbers: rounding is compared with a relative tolerance, exact results exactly']
MPI_ASSUME = ASAN + ['MPI is replaced by common/fakempi.hh: messages between two ranks with one tag and communicator do not overtake; synchronous sends block until received; collectives block']
B = {}
B['C01'] = 'row-wise: all patterns up to 3x3 (subset 4x4) with every reservation; random: all row-size/insertion orders up to 3x3; implicit: all access sequences up to length 5 with all avg/overflow settings; all abandon points; ladder to 40 rows'
B['C02'] = 'all operation sequences of length 3 (thorough 4) over 2-3 live objects from all build modes; BlockVector, VariableBlockVector, Matrix, BDMatrix, BTDMatrix sequences'
B['C03'] = 'all patterns up to 3x3 (2x3, 3x2, ... and empty shapes) per block type, all build modes; vectors of 0..4 blocks; ladder of sizes up to 17'
B['C05'] = 'all insertion sequences up to length 5 on 3 columns, all thresholds 0..4, all target states; larger ladders across the threshold'
B['C06'] = 'all pairs of patterns 2x2x2, 2x3x2, 3x2x3, 3x3x3 (hashed subset for the largest in the quick tier), all block types; ladder'
B['C07'] = 'all full-diagonal patterns up to 4x4 scalars / 3x3 blocks, nested blocks, relaxation factors {1, 0.75, 1.5}, 1-3 iterations; multi-type 2x2 and 3x3 systems'
B['C08'] = 'all full-diagonal patterns up to 4x4 (ILDL 5x5), fill orders 0..n, resort on/off, all constructors; six families up to 12 blocks'
B['C22'] = 'all patterns of all blocks of 2x2 multi-type matrices with shapes from {0,1,2}, nested multi-type matrices, real and complex'
B['C09'] = 'matrices of size 0-4 from an exhaustive family (diagonal, rotations, triangular, Laplacians, indefinite), 4-6 preconditioners, start vectors, reductions, iteration limits 0..n+2, restarts 1..n+1; call sequences of length 2; every fault position'
B['C10'] = 'all patterns up to 3x3 with seeded values, ladders to 30; all call sequences of length 3 over two matrices, subsets and ignore sets; all truncation points of the decomposition file'
B['C12'] = 'all patterns up to 3x3 blocks, all block shapes and fields; all subsets/orders of entries of 2x2 and 3x3 files; every truncation point and every single-token corruption'
B['C13'] = 'all patterns and all sequences of up to 2 (3 for n<=2) covering subdomains for n<=3 (scalars) or n<=2 (blocks); 5 families x 4 patterns for n up to 13; all modes, local solvers, constructors, on-the-fly or not; two applications'
B['C17'] = 'all decompositions of up to 3 indices over up to 3 ranks (4 ranks for one exchange), all index set-ups, all operations and pairs; message orders up to 2 deviations'
B['C18'] = 'all directed patterns and attributes of up to 3 indices over 2 and 3 ranks; element distributions of up to 4 elements; ten solvers; message orders up to the deviation bound'
B['C19'] = 'all graphs of up to 3 vertices (families of 4 and 5), owners and partitions, 2-4 ranks, ParMETIS/METIS stand-in returning every partition; message orders up to the deviation bound'
B['C16'] = 'all directed patterns with full diagonal up to 4 vertices, all excluded sets, all flag operation sequences of length 4 (thorough 5), all aggregate maps and start vertices of up to 4 (thorough 5) vertices; ladder to 40 vertices'
B['C14'] = 'all directed weighted patterns up to 3 rows (5 entries per pair; for 3 rows the size settings are taken from a hash in the quick tier), all symmetric families of 4 (thorough 5) rows, block sizes 2 and 3, 8 size settings, 4 thresholds, 9 policy/norm combinations; structured problems up to 49 (thorough 144) rows'
B['C15'] = 'all symmetric patterns up to 4 (thorough 5) rows x 5 value families x 7 settings, all directed weak/strong couplings up to 3 (thorough 4) rows, scalar and 2x2 blocks, structured problems up to 100 rows; cycles: five smoothers x eight combinations of pre/post sweeps 0-2, gamma 1-3, damping and additive x direct and iterative coarse solvers; KAMG, FastAMG and TwoLevelMethod; every parameter of the configuration tree'
B['C20'] = 'hierarchy: every connected graph and every owner map of 1-4 (thorough 5) vertices on 2 ranks with the criterion settings (coarsen target, levels, accumulation, decoupled or not, numbering) taken from a list; structured graphs of 4-5 vertices on 3 ranks; 6-25 vertices on up to 5 ranks; cycles: every owner map of 5 (thorough 6) vertices of three structured graphs, every graph of 4 (5) vertices, 6-25 vertices, with gamma, steps, damping, additive mode and coarse solver taken from a list; message orders up to the deviation bound for small graphs; ParMETIS/METIS stand-in'
B['C23']='all symmetric matrices of size 1-3 and general ones of size 2 with entries from small sets, blocks of size 1 and 2, six families up to 20 rows; five algorithms x shifts x accuracies x iteration limits x UMFPack/SuperLU/GMRes (accurate and inexact) x both accuracy modes; all sequences of 3 (thorough 4) calls on one object with three solvers; ARPACK++: six algorithms on symmetric and rectangular matrices up to 32 rows'
B['C11'] = 'matrices of 2-3 (thorough 1-5) rows x 3 kinds x 5 block and field types; every preconditioner, solver and direct solver name x all combinations of the documented keys present or absent; call histories of length 3 (thorough 4); every missing, malformed or unknown key; overlapping and nonoverlapping decompositions of 3-4 (thorough 5) vertices on 2-3 ranks; all pairs of solver categories'
B['C24'] = 'all patterns of up to 6 (thorough 9) entries and four families up to 4x4 blocks, 8 block types, 3 precisions, vectors of up to 7 entries of five nestings, 4 stream states, all column counts 1-4, 4 picture option sets'
for _k, _v in B.items():
    CHECKS[_k]['bounds'] = _v
    CHECKS[_k]['assumptions'] = MPI_ASSUME if _k in ('C11', 'C17', 'C18', 'C19', 'C20') else ASAN
