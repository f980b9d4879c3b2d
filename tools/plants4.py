bug('io-matlab-emptyrow', 'C24',
 [('io.hh', '      rowOffset += MatrixDimension<MatrixType>::rowdim(matrix, rowIdx);', '      if (matrix[rowIdx].begin() != matrix[rowIdx].end())\n        rowOffset += MatrixDimension<MatrixType>::rowdim(matrix, rowIdx);')],
 'a matrix with an empty block row before a row with entries',
 'entries below an empty row are written with too small row numbers',
 r'''
#include <dune/istl/io.hh>
#include <sstream>
int main() {
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,2,2>>; M A(3, 3, 2, M::random);
  A.setrowsize(0, 1); A.setrowsize(1, 0); A.setrowsize(2, 1); A.endrowsizes(); A.addindex(0, 0); A.addindex(2, 1); A.endindices(); A = 3;
  std::ostringstream s; Dune::writeMatrixToMatlabHelper(A, 0, 0, s);
  std::istringstream i(s.str()); int r, c; double v; std::vector<std::pair<int,int>> got; while (i >> r >> c >> v) got.push_back({r, c});
  std::vector<std::pair<int,int>> want = {{1,1},{1,2},{2,1},{2,2},{5,3},{5,4},{6,3},{6,4}};
  EXPECT(got == want);
  return bad;
}
''')
bug('sf-prec-stale', 'C11',
 [('solverfactory.hh', '      PreconditionerFactory<Operator>::instance().define("__passed at runtime__",', '      if(!PreconditionerFactory<Operator>::instance().contains("__passed at runtime__"))\n      PreconditionerFactory<Operator>::instance().define("__passed at runtime__",')],
 'two calls of getSolverFromFactory with different preconditioner objects for the same operator type',
 'the second solver uses the preconditioner of the first call',
 r'''
#include <dune/istl/solverfactory.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/operators.hh>
int main() {
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>>; using V = Dune::BlockVector<Dune::FieldVector<double,1>>; using Op = Dune::MatrixAdapter<M, V, V>;
  M A(2, 2, 2, M::random); A.setrowsize(0, 1); A.setrowsize(1, 1); A.endrowsizes(); A.addindex(0, 0); A.addindex(1, 1); A.endindices(); A[0][0] = 1; A[1][1] = 1;
  Dune::initSolverFactories<Op>(); auto op = std::make_shared<Op>(A);
  Dune::ParameterTree t; t["type"] = "loopsolver"; t["reduction"] = "1e-30"; t["maxit"] = "1"; t["verbose"] = "0";
  auto solve = [&](double w) { auto p = std::make_shared<Dune::Richardson<V, V>>(w); auto s = Dune::getSolverFromFactory(op, t, p); V x(2), b(2); x = 0; b = 1; Dune::InverseOperatorResult r; s->apply(x, b, r); return x[0][0]; };
  EXPECT(std::abs(solve(0.5) - 0.5) < 1e-12); EXPECT(std::abs(solve(0.25) - 0.25) < 1e-12);
  return bad;
}
''')
bug('ev-op-scaleadd', 'C23',
 [('eigenvalue/poweriteration.hh', '        op2_.applyscaleadd(1.0,x,temp);', '        op2_.applyscaleadd(alpha,x,temp);')],
 'the iteration operator used with a scaling factor different from one, that is by an iterative linear solver with a shift and a nonzero start vector',
 'the iteration operator applies A plus the shift instead of A minus the shift',
 r'''
#include <dune/istl/eigenvalue/poweriteration.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
int main() {
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>>; using V = Dune::BlockVector<Dune::FieldVector<double,1>>;
  M A(2, 2, 2, M::random); A.setrowsize(0, 1); A.setrowsize(1, 1); A.endrowsizes(); A.addindex(0, 0); A.addindex(1, 1); A.endindices(); A[0][0] = 1; A[1][1] = 4;
  Dune::PowerIteration_Algorithms<M, V> p(A, 50); auto& op = p.getIterationOperator(); Dune::Richardson<V, V> r(1.0); Dune::RestartedGMResSolver<V> s(op, r, 1e-12, 10, 20, 0);
  V x(2); x = 1; double l = 0;
  try { p.applyInverseIteration(3.5, 1e-9, s, x, l); } catch (Dune::Exception&) {}
  V y(2), u(2); u = 1; y = 0; op.applyscaleadd(-1, u, y);   // -(A - 3.5 I) u
  EXPECT(std::abs(y[0] - 2.5) < 1e-12); EXPECT(std::abs(y[1] + 0.5) < 1e-12);
  EXPECT(std::abs(l - 4) < 1e-6);
  return bad;
}
''')
bug('ag-symdep-max', 'C14',
 [('paamg/aggregates.hh', """                             eij /diagonal_ * eji/
""", """                             eij /diagonal_ * eij/
""")],
 'a structurally symmetric matrix with very different couplings in the two directions',
 'the largest coupling of a row is wrong and weak couplings are marked as strong',
 r'''
#include <dune/istl/preconditioners.hh>
#include <dune/istl/paamg/matrixhierarchy.hh>
#include <dune/istl/paamg/pinfo.hh>
using namespace Dune; using namespace Dune::Amg;
int main() {
  using M = BCRSMatrix<FieldMatrix<double,1,1>>; int n = 4;
  M A(n, n, M::row_wise); for (auto r = A.createbegin(); r != A.createend(); ++r) for (int j = 0; j < n; ++j) if (std::abs(j - (int)r.index()) < 2) r.insert(j);
  A = 1; A[0][1] = -10; A[1][0] = -0.1; A[1][2] = A[2][1] = -0.3; A[2][3] = A[3][2] = -3;
  using MG = MatrixGraph<const M>; using PG = PropertiesGraph<MG, VertexProperties, EdgeProperties>; MG mg(A); PG pg(mg);
  CoarsenCriterion<UnSymmetricCriterion<M, FirstDiagonal>> u; (void)u;
  CoarsenCriterion<AggregationCriterion<SymmetricDependency<M, FirstDiagonal>>> c; c.setAlpha(0.3); c.setBeta(1e-5);
  AggregatesMap<PG::VertexDescriptor> map(n); map.buildAggregates(A, pg, c, true);
  bool strong[4][4] = {}; strong[0][1] = strong[1][0] = strong[2][3] = strong[3][2] = true;
  for (auto v = pg.begin(); v != pg.end(); ++v) for (auto e = v.begin(); e != v.end(); ++e) EXPECT(e.properties().depends() == strong[e.source()][e.target()]);
  return bad;
}
''')
