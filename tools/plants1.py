bug('bm-addindex-full', 'C01',
 [('bcrsmatrix.hh', '''      // check if index is already in row
      if (pos!=last && *pos == col) return;

      // find end of already inserted column indices
      size_type* end = std::lower_bound(pos,last,m);
      if (end==last)
        DUNE_THROW(BCRSMatrixError,"row is too small");
''', '''      // find end of already inserted column indices
      size_type* end = std::lower_bound(pos,last,m);
      if (end==last)
        DUNE_THROW(BCRSMatrixError,"row is too small");

      // check if index is already in row
      if (*pos == col) return;
''')],
 'random build mode: adding an index again once the row is completely filled',
 'adding an index that is present already throws when the row is full',
 r'''
int main() {
  using M = Dune::BCRSMatrix<double>;
  M A(2, 3, 3, M::random);
  A.setrowsize(0, 2); A.setrowsize(1, 1); A.endrowsizes();
  try {
    A.addindex(0, 2); A.addindex(0, 0); A.addindex(0, 2); A.addindex(1, 1); A.addindex(1, 1); A.endindices();
    EXPECT(A[0].size() == 2); EXPECT(A[1].size() == 1);
  } catch (Dune::Exception& e) { EXPECT(false); }
  return bad;
}
''')
bug('cp-columns-kept', 'C02',
 [('bcrsmatrix.hh', 'allocate(Mat.n, Mat.m, nnz_, n!=Mat.n, true);\n\n      // build window structure', 'allocate(Mat.n, (n!=Mat.n || m==0) ? Mat.m : m, nnz_, n!=Mat.n, true);\n\n      // build window structure')],
 'assignment onto a built matrix with the same number of rows and a different number of columns',
 'the assigned matrix keeps its old number of columns',
 r'''
int main() {
  using M = Dune::BCRSMatrix<double>;
  auto mk = [](int n, int m) { M A(n, m, n, M::random); for (int i = 0; i < n; ++i) A.setrowsize(i, 1); A.endrowsizes(); for (int i = 0; i < n; ++i) A.addindex(i, m - 1); A.endindices(); A = 1.0; return A; };
  M A = mk(2, 2), B = mk(2, 5);
  A = B; EXPECT(A.M() == 5);
  M C; C = B; EXPECT(C.M() == 5);
  M D = mk(3, 2); D = B; EXPECT(D.M() == 5); EXPECT(D.N() == 2);
  return bad;
}
''')
bug('ar-div-rowwise', 'C03',
 [('bcrsmatrix.hh', '''          for (ColIterator j=(*i).begin(); j!=endj; ++j)
            (*j) /= k;''', '''          for (ColIterator j=(*i).begin(); j!=endj; ++j)
            (*j) *= k;''')],
 'a matrix built row by row without giving the number of nonzeroes',
 'division by a scalar multiplies',
 r'''
int main() {
  using M = Dune::BCRSMatrix<double>;
  M A(2, 2, M::row_wise);
  for (auto r = A.createbegin(); r != A.createend(); ++r) r.insert(r.index());
  A[0][0] = 4; A[1][1] = 6; A /= 2.0;
  EXPECT(A[0][0] == 2); EXPECT(A[1][1] == 3);
  return bad;
}
''')
bug('ar-herm-scaledid', 'C03',
 [('scaledidmatrix.hh', 'y[i] += alpha * conjugateComplex(p_) * x[i];', 'y[i] += conjugateComplex(alpha * p_) * x[i];')],
 'scaled Hermitian product with complex scaled identity blocks and a complex factor',
 'usmhv conjugates the factor as well',
 r'''
#include <dune/istl/scaledidmatrix.hh>
int main() {
  using K = std::complex<double>;
  Dune::ScaledIdentityMatrix<K, 2> S(K(1, 2));
  Dune::FieldVector<K, 2> x, y; x[0] = K(1, 1); x[1] = 2; y = K(0);
  S.usmhv(K(0, 1), x, y);
  EXPECT(std::abs(y[0] - K(0, 1) * K(1, -2) * K(1, 1)) < 1e-12);
  return bad;
}
''')
bug('is-export-same-size', 'C05',
 [('matrixindexset.hh', '      matrix.setSize(rows_, cols_);\n', '      // keep the allocated rows of a matrix that has the right size\n      if (matrix.N() != rows_ || matrix.M() != cols_)\n        matrix.setSize(rows_, cols_);\n')],
 'exporting into a matrix that already has the same size but another pattern',
 'the export of an index set into a built matrix of equal size fails',
 r'''
#include <dune/istl/matrixindexset.hh>
int main() {
  using M = Dune::BCRSMatrix<double>;
  Dune::MatrixIndexSet a(2, 2), b(2, 2);
  a.add(0, 0); a.add(1, 1); b.add(0, 1); b.add(1, 0); b.add(1, 1);
  M A; a.exportIdx(A);
  try { b.exportIdx(A); } catch (Dune::Exception& e) { std::cerr << e.what() << std::endl; EXPECT(false); }
  EXPECT(A.exists(0, 1)); EXPECT(!A.exists(0, 0)); EXPECT(A.nonzeroes() == 3);
  return bad;
}
''')
bug('is-switch-drops', 'C05',
 [('matrixindexset.hh', 'std::set<size_type> set(sortedVector.begin(), sortedVector.end());\n            set.insert(col);', 'std::set<size_type> set(sortedVector.begin(), sortedVector.end());\n            set.insert(set.end(), std::max(col, *sortedVector.begin()));')],
 'the row representation switches to a tree on the insertion of a column that is smaller than all present ones',
 'that column is lost',
 r'''
#include <dune/istl/matrixindexset.hh>
int main() {
  using M = Dune::BCRSMatrix<double>;
  Dune::MatrixIndexSet s(1, 5000);
  for (int j = 4000; j > 900; --j) s.add(0, j);
  EXPECT(s.rowsize(0) == 3100);
  M A; s.exportIdx(A);
  for (int j = 4000; j > 900; --j) EXPECT(A.exists(0, j));
  return bad;
}
''')
bug('mu-nnz-blocks', 'C06',
 [('matrixutils.hh', '    for(auto&& row : matrix)\n      for(auto&& entry : row)\n        nonZeros += countNonZeros(entry);', '    for(auto&& row : matrix) {\n      // all blocks of a row have the same size\n      auto entry = row.begin();\n      if (entry != row.end())\n        nonZeros += row.size() * countNonZeros(*entry);\n    }')],
 'rows whose blocks have different numbers of nonzeroes: sparse blocks with different patterns, or diagonal blocks',
 'countNonZeros is wrong for nested sparse blocks',
 r'''
#include <dune/istl/matrixutils.hh>
int main() {
  using B = Dune::BCRSMatrix<double>; using M = Dune::BCRSMatrix<B>;
  auto mk = [](int n, std::vector<std::pair<int,int>> e) { B A(n, n, B::row_wise); for (auto r = A.createbegin(); r != A.createend(); ++r) for (auto& p : e) if (p.first == (int)r.index()) r.insert(p.second); A = 1.0; return A; };
  M A(1, 2, M::row_wise);
  for (auto r = A.createbegin(); r != A.createend(); ++r) { r.insert(0); r.insert(1); }
  A[0][0] = mk(2, {{0,0},{1,1}}); A[0][1] = mk(2, {{0,0},{0,1},{1,0}});
  EXPECT(Dune::countNonZeros(A) == 5);
  return bad;
}
''')
bug('rx-jac-diag', 'C07',
 [('gsetc.hh', '''          for (; j!=endj; ++j)
            rhs -= (*j) * x[j.index()];
          v[i.index()] = rhs / (*diag);
        }
        else
        {
          for (; j.index()<i.index(); ++j)
            j->mmv(x[j.index()],rhs);
          coliterator diag=j;
          for (; j!=endj; ++j)
            j->mmv(x[j.index()],rhs);
          algmeta_itsteps<I-1,typename M::block_type>::dbjac(*diag,v[i.index()],rhs,w);''', '''          for (; j!=endj; ++j)
            rhs -= (*j) * x[j.index()];
          v[i.index()] = rhs / (*diag);
        }
        else
        {
          for (; j.index()<i.index(); ++j)
            j->mmv(x[j.index()],rhs);
          coliterator diag=j;
          for (; j!=endj; ++j)
            j->mmv(x[j.index()],rhs);
          algmeta_itsteps<I-1,typename M::block_type>::dbjac(*diag,v[i.index()],rhs,K(1));''')],
 'block level 2 or higher together with a relaxation factor different from one',
 'the inner Jacobi step of nested matrices ignores the relaxation factor',
 r'''
#include <dune/istl/gsetc.hh>
int main() {
  using B = Dune::BCRSMatrix<double>; using M = Dune::BCRSMatrix<B>;
  using V = Dune::BlockVector<Dune::BlockVector<double>>;
  M A(1, 1, M::row_wise); for (auto r = A.createbegin(); r != A.createend(); ++r) r.insert(0);
  B D(2, 2, B::row_wise); for (auto r = D.createbegin(); r != D.createend(); ++r) r.insert(r.index());
  D[0][0] = 2; D[1][1] = 4; A[0][0] = D;
  V x(1), b(1); x[0].resize(2); b[0].resize(2); x = 0.0; b = 4.0;
  Dune::dbjac(A, x, b, 0.5, Dune::BL<2>());
  // inner step with factor 0.5, outer update with factor 0.5
  EXPECT(std::abs(x[0][0] - 0.5) < 1e-12); EXPECT(std::abs(x[0][1] - 0.25) < 1e-12);
  return bad;
}
''')
bug('rx-ssor-order', 'C07',
 [('preconditioners.hh', '''        bsorf(_A_,v,d,_w,BL<l>());
        bsorb(_A_,v,d,_w,BL<l>());''', '''        if (i % 2 == 0)
        {
          bsorf(_A_,v,d,_w,BL<l>());
          bsorb(_A_,v,d,_w,BL<l>());
        }
        else
        {
          bsorb(_A_,v,d,_w,BL<l>());
          bsorf(_A_,v,d,_w,BL<l>());
        }''')],
 'SSOR with at least two iterations per application',
 'every second SSOR step sweeps backward first',
 r'''
#include <dune/istl/preconditioners.hh>
int main() {
  using M = Dune::BCRSMatrix<double>; using V = Dune::BlockVector<double>;
  M A(3, 3, M::row_wise); for (auto r = A.createbegin(); r != A.createend(); ++r) for (int j = 0; j < 3; ++j) r.insert(j);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = i == j ? 6 : 1 + i - 0.5 * j;
  V d(3), v(3), w(3); d[0] = 1; d[1] = 2; d[2] = -1; v = 0; w = 0;
  Dune::SeqSSOR<M, V, V> p(A, 2, 0.9); p.apply(v, d);
  auto row = [&](int i) { double s = d[i]; for (int j = 0; j < 3; ++j) s -= A[i][j] * w[j]; w[i] += 0.9 * s / A[i][i]; };
  for (int k = 0; k < 2; ++k) { for (int i = 0; i < 3; ++i) row(i); for (int i = 2; i >= 0; --i) row(i); }
  for (int i = 0; i < 3; ++i) EXPECT(std::abs(v[i] - w[i]) < 1e-12);
  return bad;
}
''')
bug('if-ildl-last', 'C08',
 [('ildl.hh', 'while( (ik != ij) && (jk.index() < ij.index()) )', 'while( (ik != ij) && (jk.index()+1 < ij.index()) )')],
 'a pattern with three mutually coupled unknowns j-1, j, i',
 'ILDL omits the contribution of the column directly before the current one',
 r'''
#include <dune/istl/preconditioners.hh>
int main() {
  using M = Dune::BCRSMatrix<double>; using V = Dune::BlockVector<double>;
  M A(3, 3, M::row_wise); for (auto r = A.createbegin(); r != A.createend(); ++r) for (int j = 0; j < 3; ++j) r.insert(j);
  double a[3][3] = {{4, 1, 2}, {1, 5, 1}, {2, 1, 6}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = a[i][j];
  V x(3), b(3), v(3); x[0] = 1; x[1] = -2; x[2] = 3; A.mv(x, b); v = 0;
  Dune::SeqILDL<M, V, V> p(A); p.apply(v, b);      // full pattern: exact
  for (int i = 0; i < 3; ++i) EXPECT(std::abs(v[i] - x[i]) < 1e-10);
  return bad;
}
''')
bug('if-dilu-order', 'C08',
 [('dilu.hh', 'Dinv_[row_i] -= (*a_ij) * Dinv_[col_j] * (*a_ji);', 'Dinv_[row_i] -= (*a_ij) * (*a_ji) * Dinv_[col_j];')],
 'matrices with blocks that do not commute',
 'the block DILU pivots are computed with the factors in the wrong order',
 r'''
#include <dune/istl/preconditioners.hh>
int main() {
  using F = Dune::FieldMatrix<double, 2, 2>; using M = Dune::BCRSMatrix<F>; using V = Dune::BlockVector<Dune::FieldVector<double, 2>>;
  M A(2, 2, M::row_wise); for (auto r = A.createbegin(); r != A.createend(); ++r) for (int j = 0; j < 2; ++j) r.insert(j);
  A[0][0] = F{{5, 1}, {2, 6}}; A[0][1] = F{{1, 2}, {0, 1}}; A[1][0] = F{{0, 1}, {3, 1}}; A[1][1] = F{{9, 0}, {1, 8}};
  // two blocks, full pattern: DILU is the exact factorization
  V x(2), b(2), v(2); x[0] = 1; x[1] = -2; x[1][0] = 3; A.mv(x, b); v = 0;
  Dune::SeqDILU<M, V, V> p(A, 1.0); p.apply(v, b);
  for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) EXPECT(std::abs(v[i][k] - x[i][k]) < 1e-10);
  return bad;
}
''')
bug('kr-gmres-restart-norm', 'C09',
 [('solvers.hh', '''          v[0] = 0.0;
          _prec->apply(v[0],b);
          norm = _sp->norm(v[0]);
        }

      } //end while

      // postprocess preconditioner
      _prec->post(x);
    }

  protected :''', '''          v[0] = 0.0;
          _prec->apply(v[0],b);
          norm = _sp->norm(b);
        }

      } //end while

      // postprocess preconditioner
      _prec->post(x);
    }

  protected :''')],
 'GMRes with a restart and a preconditioner that changes the norm',
 'after a restart GMRes normalizes the preconditioned defect with the norm of the unpreconditioned one',
 r'''
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/operators.hh>
int main() {
  using M = Dune::BCRSMatrix<double>; using V = Dune::BlockVector<double>;
  const int n = 6;
  M A(n, n, M::row_wise); for (auto r = A.createbegin(); r != A.createend(); ++r) for (int j = 0; j < n; ++j) if (std::abs(j - (int)r.index()) < 2) r.insert(j);
  for (int i = 0; i < n; ++i) { A[i][i] = 20 + 7 * i; if (i) { A[i][i-1] = -5; A[i-1][i] = -3; } }
  Dune::MatrixAdapter<M, V, V> op(A); Dune::SeqJac<M, V, V> prec(A, 1, 1.0);
  V x(n), b(n), r(n), z(n); x = 0; for (int i = 0; i < n; ++i) b[i] = i + 1;
  V b0(b); z = 0; prec.apply(z, b0); double d0 = z.two_norm();
  Dune::RestartedGMResSolver<V> s(op, prec, 1e-6, 2, 4, 0); Dune::InverseOperatorResult res;
  s.apply(x, b, res);
  r = b0; A.mmv(x, r); z = 0; prec.apply(z, r);
  EXPECT(std::abs(z.two_norm() / d0 - res.reduction) < 1e-9 + 1e-3 * res.reduction);
  return bad;
}
''')
bug('mt-umtv-index', 'C22',
 [('multitypeblockmatrix.hh', '          (*this)[j][i].mmhv(x[j], y[i]);', '          (*this)[j][i].mmtv(x[j], y[i]);')],
 'y -= A^H x on a heterogeneous matrix with complex entries',
 'the subtractive Hermitian product of MultiTypeBlockMatrix does not conjugate',
 r'''
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
int main() {
  using K = std::complex<double>;
  using F = Dune::FieldMatrix<K, 1, 1>; using R = Dune::MultiTypeBlockVector<F, F>; using M = Dune::MultiTypeBlockMatrix<R, R>;
  using V = Dune::MultiTypeBlockVector<Dune::FieldVector<K, 1>, Dune::FieldVector<K, 1>>;
  M A; using namespace Dune::Indices;
  A[_0][_0] = K(1, 2); A[_0][_1] = K(0, 1); A[_1][_0] = K(3, -1); A[_1][_1] = K(2, 2);
  V x, y; x[_0] = K(1, 0); x[_1] = K(0, 1); y[_0] = K(0); y[_1] = K(0);
  A.mmhv(x, y);
  K e0 = -(std::conj(K(1, 2)) + std::conj(K(3, -1)) * K(0, 1)), e1 = -(std::conj(K(0, 1)) + std::conj(K(2, 2)) * K(0, 1));
  EXPECT(std::abs(y[_0][0] - e0) < 1e-12); EXPECT(std::abs(y[_1][0] - e1) < 1e-12);
  return bad;
}
''')
bug('cp-vec-assign-window', 'C02',
 [('bvector.hh', '''      [[maybe_unused]] const auto &guard =
        Imp::makeScopeGuard([this]{ syncBaseArray(); });
      storage_ = a.storage_;
      return *this;''', '''      // the size changes only if new storage is needed
      const bool grow = a.storage_.size() > storage_.capacity();
      storage_ = a.storage_;
      if (grow || storage_.size() < this->n)
        syncBaseArray();
      return *this;''')],
 'assigning a longer vector to one that was shrunk before or has reserved capacity',
 'the assigned vector keeps its old size',
 r'''
int main() {
  using V = Dune::BlockVector<double>;
  V a(5), b(4); a = 1.0; b = 2.0;
  a.resize(2); a = b;
  EXPECT(a.size() == 4);
  V c(1), d(3); c.reserve(10); d = 7.0; c = d; EXPECT(c.size() == 3);
  V e(2); e = d; EXPECT(e.size() == 3); e = V(2); EXPECT(e.size() == 2);
  return bad;
}
''')
bug('bm-rowwise-nnz', 'C01',
 [('bcrsmatrix.hh', """            // as some methods rely on it
            Mat.nnz_ = nnz;
""", """            // as some methods rely on it
            if (Mat.n > Mat.m)
              Mat.nnz_ = nnz;
""")],
 'row-wise creation with more room reserved than needed, for a matrix that has at least as many columns as rows',
 'the number of nonzeroes reported is the reserved one',
 r"""
int main() {
  using M = Dune::BCRSMatrix<double>;
  M A(2, 2, 10, M::row_wise);
  for (auto r = A.createbegin(); r != A.createend(); ++r) r.insert(r.index());
  EXPECT(A.nonzeroes() == 2);
  A = 3.0; M B(A); EXPECT(B.nonzeroes() == 2); EXPECT(B[1][1] == 3.0);
  return bad;
}
""")
