DIRECTFLAGS = '-DHAVE_SUPERLU=1 -DHAVE_SUITESPARSE_UMFPACK=1 -DHAVE_SUITESPARSE_LDL=1 -DHAVE_SUITESPARSE_SPQR=1 -DHAVE_SUITESPARSE_CHOLMOD=1 -DHAVE_SUITESPARSE_AMD=1 -DHAVE_SUITESPARSE=1'
DIRECTLIBS = '-lsuperlu -lumfpack -lldl -lspqr -lcholmod -lamd -lsuitesparseconfig -llapack -lblas'
bug('ds-slu-reuse-x', 'C10',
 [('superlu.hh', '''        ((DNformat*)B.Store)->nzval=&b[0];
        ((DNformat*)X.Store)->nzval=&x[0];
      }
    } else {
      SuperLUDenseMatChooser<T>::create(&rB, (int)mat.N(), 1,  reinterpret_cast<T*>(&b[0])''', '''        ((DNformat*)B.Store)->nzval=&b[0];
      }
    } else {
      SuperLUDenseMatChooser<T>::create(&rB, (int)mat.N(), 1,  reinterpret_cast<T*>(&b[0])''')],
 'a second apply of the same SuperLU object with another solution vector',
 'the solution of the second solve is written into the vector of the first one',
 r'''
#include <dune/istl/superlu.hh>
int main() {
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>>; using V = Dune::BlockVector<Dune::FieldVector<double,1>>;
  M A(2, 2, 2, M::random); A.setrowsize(0, 1); A.setrowsize(1, 1); A.endrowsizes(); A.addindex(0, 0); A.addindex(1, 1); A.endindices(); A[0][0] = 2; A[1][1] = 4;
  Dune::SuperLU<M> S(A, false, true); Dune::InverseOperatorResult r;
  V x(2), b(2), y(2), c(2); x = 0; y = 0; b[0] = 2; b[1] = 4; c[0] = 4; c[1] = 4;
  S.apply(x, b, r); S.apply(y, c, r);
  EXPECT(std::abs(x[0][0] - 1) < 1e-10); EXPECT(std::abs(x[1][0] - 1) < 1e-10); EXPECT(std::abs(y[0][0] - 2) < 1e-10); EXPECT(std::abs(y[1][0] - 1) < 1e-10);
  return bad;
}
''', DIRECTFLAGS, DIRECTLIBS)
bug('ds-rect-rows', 'C10',
 [('bccsmatrixinitializer.hh', 'mat->rowindex[marker[colindex*m+j]]=rowindex*n+i;', 'mat->rowindex[marker[colindex*m+j]]=rowindex*m+i;')],
 'blocks with a different number of rows and columns',
 'rows of rectangular blocks are placed at wrong positions',
 r'''
#include <dune/istl/spqr.hh>
int main() {
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,2,1>>; using X = Dune::BlockVector<Dune::FieldVector<double,1>>; using Y = Dune::BlockVector<Dune::FieldVector<double,2>>;
  M A(2, 2, 2, M::random); A.setrowsize(0, 1); A.setrowsize(1, 1); A.endrowsizes(); A.addindex(0, 0); A.addindex(1, 1); A.endindices();
  A[0][0][0][0] = 2; A[0][0][1][0] = 0; A[1][1][0][0] = 0; A[1][1][1][0] = 4;
  Dune::SPQR<M> S(A); Dune::InverseOperatorResult r;
  X x(2); Y b(2); x = 0; b[0][0] = 2; b[0][1] = 5; b[1][0] = 7; b[1][1] = 12;
  S.apply(x, b, r);
  EXPECT(std::abs(x[0][0] - 1) < 1e-10); EXPECT(std::abs(x[1][0] - 3) < 1e-10);
  return bad;
}
''', DIRECTFLAGS, DIRECTLIBS)
bug('mm-hermitian-block', 'C12',
 [('matrixmarket.hh', '          if(row!=data.index)\n            symmetryFixup(row, data);', '          if(row/brows!=data.index/bcols)\n            symmetryFixup(row, data);')],
 'a symmetric, skew-symmetric or hermitian file read into blocks larger than 1x1',
 'mirrored entries inside a diagonal block are lost',
 r'''
#include <sstream>
#include <dune/istl/matrixmarket.hh>
int main() {
  Dune::BCRSMatrix<Dune::FieldMatrix<double,2,2>> A;
  std::istringstream s("%%MatrixMarket matrix coordinate real symmetric\n% ISTL_STRUCT blocked 2 2\n2 2 3\n1 1 1\n2 1 5\n2 2 3\n");
  Dune::readMatrixMarket(A, s);
  EXPECT(A[0][0][1][0] == 5); EXPECT(A[0][0][0][1] == 5);
  return bad;
}
''')
bug('mm-idx-public', 'C12',
 [('matrixmarket.hh', '<<(int)iter->local().attribute()<<" "<<(int)iter->local().isPublic()<<std::endl;', '<<(int)iter->local().attribute()<<" "<<(iter->local().attribute()!=0 || iter->local().isPublic())<<std::endl;')],
 'a stored index set with private owner indices',
 'private owner indices are stored as public ones',
 r'''
#include <dune/common/parallel/mpihelper.hh>
#include <dune/istl/matrixmarket.hh>
#include <dune/istl/owneroverlapcopy.hh>
int main(int argc, char** argv) {
  Dune::MPIHelper::instance(argc, argv);
  using C = Dune::OwnerOverlapCopyCommunication<int>; using M = Dune::BCRSMatrix<double>;
  C a(MPI_COMM_WORLD), b(MPI_COMM_WORLD);
  a.indexSet().beginResize();
  a.indexSet().add(0, C::PIS::LocalIndex(0, Dune::OwnerOverlapCopyAttributeSet::owner, false));
  a.indexSet().add(1, C::PIS::LocalIndex(1, Dune::OwnerOverlapCopyAttributeSet::owner, true));
  a.indexSet().endResize(); a.remoteIndices().rebuild<false>();
  M A(2, 2, 1, M::random); A.setrowsize(0, 1); A.setrowsize(1, 0); A.endrowsizes(); A.addindex(0, 0); A.endindices(); A = 1;
  Dune::storeMatrixMarket(A, "m", a); M B; Dune::loadMatrixMarket(B, "m", b);
  EXPECT(b.indexSet().size() == 2); EXPECT(!b.indexSet().at(0).local().isPublic()); EXPECT(b.indexSet().at(1).local().isPublic());
  return bad;
}
''')
MPIHEAD = r'''
#include <dune/common/parallel/mpihelper.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
using C = Dune::OwnerOverlapCopyCommunication<int>; using At = Dune::OwnerOverlapCopyAttributeSet;
using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>>; using V = Dune::BlockVector<Dune::FieldVector<double,1>>;
// a[r][g]: 0 absent, 1 owner, 2 overlap, 3 copy
void setup(C& c, const std::vector<int>& a) {
  c.indexSet().beginResize(); int l = 0;
  for (int g = 0; g < (int)a.size(); ++g) if (a[g]) c.indexSet().add(g, C::PIS::LocalIndex(l++, a[g] == 1 ? At::owner : a[g] == 2 ? At::overlap : At::copy, true));
  c.indexSet().endResize(); c.remoteIndices().rebuild<false>();
}
M dense(const std::vector<std::vector<double>>& d) {
  int n = d.size(); M A(n, n, M::row_wise); for (auto r = A.createbegin(); r != A.createend(); ++r) for (int j = 0; j < n; ++j) if (d[r.index()][j] != 0) r.insert(j);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (d[i][j] != 0) A[i][j] = d[i][j];
  return A;
}
'''
bug('oc-norm-overlap', 'C17',
 [('owneroverlapcopy.hh', '''          if (i->local().attribute()!=OwnerOverlapCopyAttributeSet::owner)
            mask[i->local().local()] = 0;
      }
      auto result = real_type(0.0);
''', '''          if (i->local().attribute()==OwnerOverlapCopyAttributeSet::copy)
            mask[i->local().local()] = 0;
      }
      auto result = real_type(0.0);
''')],
 'a decomposition with indices of attribute overlap, and norm called before any dot product',
 'overlap entries are counted more than once in the norm',
 MPIHEAD + r'''
int main(int argc, char** argv) {
  Dune::MPIHelper::instance(argc, argv);
  C c(MPI_COMM_WORLD); setup(c, {1, 2});
  V x(2); x[0] = 3; x[1] = 4;
  EXPECT(std::abs(c.norm(x) - 3) < 1e-12);
  return bad;
}
''')
bug('oc-ownercopy-dest', 'C17',
 [('owneroverlapcopy.hh', 'Combine<OwnerCopySet,EnumItem<AttributeSet,OwnerOverlapCopyAttributeSet::overlap>,AttributeSet> destFlags;\n      OwnerCopyToAllInterface', 'OwnerCopySet destFlags;\n      OwnerCopyToAllInterface')],
 'addOwnerCopyToAll with indices that are overlap on some rank',
 'addOwnerCopyToAll does not reach overlap entries',
 MPIHEAD + r'''
int main(int argc, char** argv) {
  auto& h = Dune::MPIHelper::instance(argc, argv);
  C c(MPI_COMM_WORLD); if (h.rank() == 0) setup(c, {1, 1}); else setup(c, {2, 3});
  V x(2), y(2); x[0] = 3; x[1] = 4; y = 1;
  c.addOwnerCopyToAll(x, y);
  if (h.rank() == 0) { EXPECT(y[0][0] == 1); EXPECT(y[1][0] == 5); } else { EXPECT(y[0][0] == 4); EXPECT(y[1][0] == 5); }
  return bad;
}
''', np=2)
bug('po-novlp-iowner', 'C18',
 [('novlpschwarz.hh', '\n                          || foundj->second.first == iowner', '')],
 'three ranks: a shared entry between two indices that are both copies here, owned by different ranks, and the owner of the row has a larger rank than this one',
 'the coupling is added twice',
 MPIHEAD + r'''
// 3 ranks; index 0 owned by rank 2, index 1 owned by rank 0: ranks 1 and 2 share both; see below
int main(int argc, char** argv) {
  auto& h = Dune::MPIHelper::instance(argc, argv); int r = h.rank();
  // rank 0 owns 1 (does not know 0); rank 1 has both as copies; rank 2 owns 0 and has 1 as copy
  C c(MPI_COMM_WORLD, Dune::SolverCategory::nonoverlapping); setup(c, r == 0 ? std::vector<int>{0, 1} : r == 1 ? std::vector<int>{3, 3} : std::vector<int>{1, 3});
  // consistent global matrix: entry (0,1) = 5 known to ranks 1 and 2
  M A = r == 0 ? dense({{4}}) : dense({{2, 5}, {5, 4}});
  V x(r == 0 ? 1 : 2), y(x.size());
  if (r == 0) x[0] = 7; else { x[0] = 3; x[1] = 7; }
  Dune::NonoverlappingSchwarzOperator<M, V, V, C> op(A, c); op.apply(x, y);
  double y0 = 2 * 3 + 5 * 7;
  if (r != 0) EXPECT(std::abs(y[0][0] - y0) < 1e-12);
  return bad;
}
''', np=3)
bug('po-ssor-exchange', 'C18',
 [('schwarz.hh', '''      for (int i=0; i<_n; i++) {
        bsorf(_A_,v,d,_w);
        bsorb(_A_,v,d,_w);
      }
      communication.copyOwnerToAll(v,v);''', '''      for (int i=0; i<_n; i++) {
        bsorf(_A_,v,d,_w);
        bsorb(_A_,v,d,_w);
        communication.copyOwnerToAll(v,v);
      }''')],
 'ParSSOR with more than one iteration on several ranks (or with no iteration at all)',
 'values of other ranks enter between the sweeps instead of after the last one',
 MPIHEAD + r'''
int main(int argc, char** argv) {
  auto& h = Dune::MPIHelper::instance(argc, argv); int r = h.rank();
  C c(MPI_COMM_WORLD); setup(c, r == 0 ? std::vector<int>{1, 2} : std::vector<int>{2, 1});
  M A = dense({{4, -1}, {-1, 4 + r}});
  V d(2), v(2), w(2); d[0] = 1; d[1] = 2; v = 0; w = 0;
  Dune::ParSSOR<M, V, V, C> p(A, 2, 1.0, c); p.apply(v, d);
  Dune::SeqSSOR<M, V, V> s(A, 2, 1.0); s.apply(w, d); c.copyOwnerToAll(w, w);
  for (int i = 0; i < 2; ++i) EXPECT(std::abs(v[i][0] - w[i][0]) < 1e-12);
  return bad;
}
''', np=2)

bug('rd-copyrow-last', 'C19',
 [('matrixredistribute.hh', '''      if (rowsize > cont.rowsize.getCopyRowSize(i))
        cont.rowsize''', '''      if (rowsize != cont.rowsize.getCopyRowSize(i))
        cont.rowsize''')],
 'nonoverlapping redistribution of rows of which two ranks hold copies with different numbers of entries, the shorter one arriving last',
 'the space reserved for received copy rows depends on the rank that comes last instead of the longest row',
 MPIHEAD + r'''
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/repartition.hh>
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/paamg/pinfo.hh>
// everything moves to rank 0
int main(int argc, char** argv) {
  auto& h = Dune::MPIHelper::instance(argc, argv); int r = h.rank();
  C c(MPI_COMM_WORLD, Dune::SolverCategory::nonoverlapping);
  // rank 0 owns 0; rank 1: copy of 0, owns 1,2,3 (coupled with 0); rank 2: copy of 0, owns 4
  setup(c, r == 0 ? std::vector<int>{1, 0, 0, 0, 0} : r == 1 ? std::vector<int>{3, 1, 1, 1, 0} : std::vector<int>{3, 0, 0, 0, 1});
  M A = r == 0 ? dense({{1}}) : r == 1 ? dense({{2, 3, 4, 5}, {3, 10, 0, 0}, {4, 0, 11, 0}, {5, 0, 0, 12}}) : dense({{6, 7}, {7, 13}});
  Dune::Amg::MatrixGraph<M> g(A); std::shared_ptr<C> nc; Dune::RedistributeInformation<C> ri;
  Dune::graphRepartition(g, c, 1, nc, ri.getInterface()); ri.setSetup(); if (r == 0) nc->remoteIndices().rebuild<false>();
  M B; Dune::redistributeMatrix(A, B, c, *nc, ri);
  if (r == 0) {
    EXPECT(B.N() == 5); EXPECT(B[0].size() == 5);
    double want[5] = {9, 3, 4, 5, 7};
    for (int j = 1; j < 5; ++j) EXPECT(B.exists(0, j) && std::abs(B[0][j][0][0] - want[j]) < 1e-12);
  }
  return bad;
}
''', np=3)
