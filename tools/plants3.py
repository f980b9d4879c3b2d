bug('mg-gamma-three', 'C15',
 [('paamg/amg.hh', '            if(i+1 < gamma_){\n              levelContext.matrix->applyscaleadd', '            if(i+1 < gamma_ && i==0){\n              levelContext.matrix->applyscaleadd')],
 'gamma of at least 3 and at least three levels',
 'the third coarse cycle starts from a stale defect',
 r'''
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/pinfo.hh>
int main() {
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>>; using V = Dune::BlockVector<Dune::FieldVector<double,1>>; using Op = Dune::MatrixAdapter<M,V,V>; using S = Dune::SeqJac<M,V,V>;
  int n = 64; M A(n, n, 3*n, M::random); for (int i = 0; i < n; ++i) A.setrowsize(i, 1 + (i > 0) + (i + 1 < n)); A.endrowsizes();
  for (int i = 0; i < n; ++i) { if (i) A.addindex(i, i-1); A.addindex(i, i); if (i + 1 < n) A.addindex(i, i+1); } A.endindices();
  for (int i = 0; i < n; ++i) { if (i) A[i][i-1] = -1; A[i][i] = 2.01; if (i + 1 < n) A[i][i+1] = -1; }
  Op op(A); using C = Dune::Amg::CoarsenCriterion<Dune::Amg::SymmetricCriterion<M, Dune::Amg::FirstDiagonal>>;
  // no smoothing: with gamma = g the two-grid error propagation on level 1 is applied g times
  auto run = [&](int gamma, int levels) { C c(levels, 2); c.setGamma(gamma); c.setMaxLevel(levels); c.setNoPreSmoothSteps(1); c.setNoPostSmoothSteps(1); c.setDefaultValuesIsotropic(1);
    Dune::Amg::SmootherTraits<S>::Arguments a; a.iterations = 1; a.relaxationFactor = 0.5; Dune::Amg::AMG<Op,V,S> amg(op, c, a);
    V b(n), x(n); for (int i = 0; i < n; ++i) b[i] = 1 + i % 3; x = 0; V r = b; amg.pre(x, r);
    double q = 0; V e = b; for (int k = 0; k < 6; ++k) { V v(n); v = 0; amg.apply(v, e); A.mmv(v, e); q = e.two_norm(); } amg.post(x); return q; };
  // with many cycles on the coarse levels the method converges to the two-level method
  double two = run(1, 1), many = run(9, 6), few = run(1, 6);
  std::cerr << two << " " << many << " " << few << "\n";
  EXPECT(std::abs(many - two) < 0.1 * two);
  return bad;
}
''', DIRECTFLAGS, DIRECTLIBS)
bug('mg-twolevel-start', 'C15',
 [('paamg/twolevelmethod.hh', '''      ::restrictVector(*aggregatesMap_, this->rhs_, fineRhs, ParallelInformation());
    this->lhs_=0;''', '''      ::restrictVector(*aggregatesMap_, this->rhs_, fineRhs, ParallelInformation());''')],
 'a two-level method with a coarse solver that starts from the vector it is given, applied twice',
 'the second application starts its coarse solve from the correction of the first one',
 r'''
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
#include <dune/istl/paamg/pinfo.hh>
using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>>; using V = Dune::BlockVector<Dune::FieldVector<double,1>>; using Op = Dune::MatrixAdapter<M,V,V>; using S = Dune::SeqJac<M,V,V>;
struct Policy { using Operator = Op;
  struct CoarseLevelSolver : Dune::InverseOperator<V,V> { Op& op; CoarseLevelSolver(Op& o) : op(o) {}
    void apply(V& x, V& b, Dune::InverseOperatorResult& r) override { V d = b; op.applyscaleadd(-1, x, d); d *= 0.25; x += d; r.converged = true; }
    void apply(V& x, V& b, double, Dune::InverseOperatorResult& r) override { apply(x, b, r); }
    Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; } };
  template <class P> CoarseLevelSolver* createCoarseLevelSolver(P& p) { o = p.getCoarseLevelOperator(); return new CoarseLevelSolver(*o); }
  std::shared_ptr<Op> o; };
int main() {
  int n = 16; M A(n, n, 3*n, M::random); for (int i = 0; i < n; ++i) A.setrowsize(i, 1 + (i > 0) + (i + 1 < n)); A.endrowsizes();
  for (int i = 0; i < n; ++i) { if (i) A.addindex(i, i-1); A.addindex(i, i); if (i + 1 < n) A.addindex(i, i+1); } A.endindices();
  for (int i = 0; i < n; ++i) { if (i) A[i][i-1] = -1; A[i][i] = 2.01; if (i + 1 < n) A[i][i+1] = -1; }
  Op op(A); using C = Dune::Amg::CoarsenCriterion<Dune::Amg::SymmetricCriterion<M, Dune::Amg::FirstDiagonal>>; C c; c.setDefaultValuesIsotropic(1);
  Dune::Amg::AggregationLevelTransferPolicy<Op, C> tp(c); Policy cp; Dune::Amg::TwoLevelMethod<Op, Policy, S> p(op, std::make_shared<S>(A, 1, 0.5), tp, cp, 1, 1);
  V d(n), v(n), w(n); for (int i = 0; i < n; ++i) d[i] = 1 + i % 3; v = 0; w = 0; V x(n), b(n); x = 0; b = 0;
  p.pre(x, b); p.apply(v, d); p.apply(w, d); p.post(x);
  for (int i = 0; i < n; ++i) EXPECT(std::abs(v[i] - w[i]) < 1e-12);
  return bad;
}
''', DIRECTFLAGS, DIRECTLIBS)
bug('gr-sub-findedge', 'C16',
 [('paamg/graph.hh', '''      if(edge==edges_+end_[source] || *edge!=target)
        return std::numeric_limits<EdgeDescriptor>::max();

      return edge;
    }

    template<class G, class T>
    SubGraph<G,T>::~SubGraph()''', '''      if(edge==edges_+noEdges_ || *edge!=target)
        return std::numeric_limits<EdgeDescriptor>::max();

      return edge;
    }

    template<class G, class T>
    SubGraph<G,T>::~SubGraph()''')],
 'searching an edge to a vertex behind the last neighbour whose number is the first neighbour of the next vertex',
 'findEdge of a sub graph returns an edge of another vertex',
 r'''
#include <dune/istl/paamg/graph.hh>
int main() {
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>>; int n = 4;
  M A(n, n, n*n, M::random); bool e[4][4] = {{1,1,0,0},{1,1,0,0},{0,0,1,1},{0,0,1,1}};
  for (int i = 0; i < n; ++i) { int s = 0; for (int j = 0; j < n; ++j) s += e[i][j]; A.setrowsize(i, s); } A.endrowsizes();
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (e[i][j]) A.addindex(i, j);
  A.endindices();
  using G = Dune::Amg::MatrixGraph<const M>; G g(A); std::vector<bool> ex(n, false); ex[0] = true;
  Dune::Amg::SubGraph<G, std::vector<bool>> s(g, ex);
  auto none = std::numeric_limits<decltype(s)::EdgeDescriptor>::max();
  bool f[4][4] = {{0,0,0,0},{0,0,0,0},{0,0,0,1},{0,0,1,0}};   // without vertex 0
  for (int i = 1; i < n; ++i) for (int j = 1; j < n; ++j) if (i != j) EXPECT((s.findEdge(i, j) != none) == f[i][j]);
  Dune::Amg::SubGraph<G, std::vector<bool>> t(g, std::vector<bool>(n, false));
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) EXPECT((t.findEdge(i, j) != none) == e[i][j]);
  return bad;
}
''')
bug('os-ilun-offset', 'C13',
 [('ilusubdomainsolver.hh', 'offset=std::max(offset,(std::size_t)std::abs((int)(guess->second-rowCreator.index())));', 'offset=std::max(offset,(std::size_t)std::max(0,(int)(guess->second-rowCreator.index())));')],
 'ILUN subdomain solvers and a pattern whose lower band is wider than the upper one',
 'the fill level of the incomplete decomposition is too small and the local solve less exact',
 r'''
#include <dune/istl/overlappingschwarz.hh>
int main() {
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>>; using V = Dune::BlockVector<Dune::FieldVector<double,1>>; int n = 5;
  M A(n, n, n*n, M::random); bool e[5][5] = {{1,1,0,0,0},{0,1,1,0,0},{0,0,1,1,0},{0,0,0,1,1},{1,0,0,0,1}};
  for (int i = 0; i < n; ++i) { int s = 0; for (int j = 0; j < n; ++j) s += e[i][j]; A.setrowsize(i, s); } A.endrowsizes();
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (e[i][j]) A.addindex(i, j);
  A.endindices(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (e[i][j]) A[i][j] = i == j ? 2 : 1;
  using S = Dune::SeqOverlappingSchwarz<M, V, Dune::AdditiveSchwarzMode, Dune::ILUNSubdomainSolver<M, V, V>>;
  S::subdomain_vector sd(1); for (int i = 0; i < n; ++i) sd[0].insert(i);
  S s(A, sd, 1, false);
  // bandwidth 4 gives fill level 2, ILU(2) of this matrix computed by SeqILU
  Dune::SeqILU<M, V, V> ref(A, 2, 1.0);
  V b(n), x(n), y(n); for (int i = 0; i < n; ++i) b[i] = 1 + i; x = 0; y = 0; s.apply(x, b); ref.apply(y, b);
  for (int i = 0; i < n; ++i) EXPECT(std::abs(x[i] - y[i]) < 1e-12);
  return bad;
}
''')
