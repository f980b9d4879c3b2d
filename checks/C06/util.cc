// C06: traversal helpers see every scalar entry exactly once at its flat position; sizes and diagnostics agree.
#include "flat.hh"
#include <dune/istl/foreach.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/matrixutils.hh>
#include <dune/istl/blocklevel.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/vbvector.hh>
using namespace Dune; using namespace flat; using C = std::complex<double>; using namespace Dune::Indices;
template <class M, class K> void traverse(M& A, const Dense<K>& D, const std::vector<std::pair<int, int>>& sup, bool zeroSize = false) {
  std::map<std::pair<int, int>, K> seen; mc::step();
  const M& Ac = A;
  auto [r, q] = flatMatrixForEach(Ac, [&](auto&& e, std::size_t i, std::size_t j) { bool ins = seen.insert({{(int)i, (int)j}, e}).second; CHECK(ins, "position ", i, ",", j, " visited twice"); });
  CHECK((int)r == D.n && (int)q == D.m, "flat size ", r, "x", q, " expected ", D.n, "x", D.m);
  CHECK(seen.size() == sup.size(), "visited ", seen.size(), " entries, expected ", sup.size());
  for (auto& s : sup) { auto it = seen.find(s); CHECK(it != seen.end() && it->second == D(s.first, s.second), "entry ", s.first, ",", s.second); }
  // and writing
  flatMatrixForEach(A, [&](auto&& e, std::size_t, std::size_t) { e += K(1); });
  flatMatrixForEach(Ac, [&](auto&& e, std::size_t i, std::size_t j) { CHECK(e == D(i, j) + K(1), "value written at ", i, ",", j); });
}
template <class B> std::vector<std::pair<int, int>> support(const Pattern& p) { using S = Blk<B>; std::vector<std::pair<int, int>> r; for (size_t i = 0; i < p.size(); ++i) for (int j : p[i]) for (int a = 0; a < S::R; ++a) for (int b = 0; b < S::C; ++b) if (!S::off(a, b)) r.push_back({(int)i * S::R + a, j * S::C + b}); return r; }
template <class M> void sparse(mc::Chooser& c, int lim) {
  using B = typename M::block_type; using K = FieldOf<M>; int n = c(4), m = c(4); if (n * m > lim) throw mc::Skip{}; auto p = patternOf(n, m, c.mask(n * m, "pattern"));
  constexpr bool dyn = requires(B b) { b.setBuildMode(B::random); };
  if (dyn && nnz(p) == 0) throw mc::Skip{};
  M A; buildPattern(A, n, m, p); auto D = fill(A, n, m, p, [](int i, int j) { return val<K>(i * 31 + j * 7 + 1); });
  NOTE(show(D)); mc::state(mc::Hash()(show(p))(n)(m)((int)sizeof(B)));
  auto sup = support<B>(p);
  CHECK((size_t)countNonZeros(A) == sup.size(), "countNonZeros ", countNonZeros(A), " expected ", sup.size());
  bool full = true; std::vector<bool> col(m); for (auto& r : p) { full &= !r.empty(); for (int j : r) col[j] = true; } bool fullc = true; for (bool b : col) fullc &= b;
  constexpr bool fixed = !dyn && (IsNumber<B>::value || requires { B::rows; });
  int rows = 0, cols = 0; for (int i = 0; i < n; ++i) if (fixed || !p[i].empty()) rows += Blk<B>::R; for (int j = 0; j < m; ++j) if (fixed || col[j]) cols += Blk<B>::C;
  if (full || fixed) CHECK((int)MatrixDimension<M>::rowdim(A) == rows, "rowdim ", MatrixDimension<M>::rowdim(A), " expected ", rows);
  if (fullc || fixed) CHECK((int)MatrixDimension<M>::coldim(A) == cols, "coldim ", MatrixDimension<M>::coldim(A), " expected ", cols);
  for (int i = 0; i < n; ++i) if (fixed || !p[i].empty()) CHECK((int)MatrixDimension<M>::rowdim(A, i) == Blk<B>::R, "rowdim of row ", i);
  for (int j = 0; j < m; ++j) if (fixed || col[j]) CHECK((int)MatrixDimension<M>::coldim(A, j) == Blk<B>::C, "coldim of column ", j);
  if (n == m) { bool diag = true, thrown = false; for (int i = 0; i < n; ++i) diag &= A.exists(i, i); try { CheckIfDiagonalPresent<M, 0>::check(A); } catch (ISTLError&) { thrown = true; } CHECK(thrown == !diag, "missing diagonal reported: ", thrown); }
  traverse(A, D, sup);
}
UNIT(sp_double) { sparse<BCRSMatrix<double>>(c, 9); }
UNIT(sp_complex) { sparse<BCRSMatrix<C>>(c, 6); }
UNIT(sp_fm) { sparse<BCRSMatrix<FieldMatrix<double, 2, 3>>>(c, 9); }
UNIT(sp_nested) { sparse<BCRSMatrix<BCRSMatrix<FieldMatrix<double, 1, 2>>>>(c, 6); }
UNIT(sp_nested_double) { sparse<BCRSMatrix<BCRSMatrix<double>>>(c, 6); }
// nested matrices whose blocks were assembled in any build mode (the column dimension is found by searching)
UNIT(build_modes) {
  using M = BCRSMatrix<BCRSMatrix<double>>; int n = 2, m = c.range(1, 3); auto p = patternOf(n, m, c.mask(n * m)); int mode = c(5); if (!nnz(p)) throw mc::Skip{};
  M A;
  if (mode == 0) buildPattern(A, n, m, p);
  else if (mode == 1) { A.setBuildMode(M::random); A.setSize(n, m); for (int i = 0; i < n; ++i) A.setrowsize(i, p[i].size()); A.endrowsizes(); for (int i = 0; i < n; ++i) for (int j : p[i]) A.addindex(i, j); A.endindices(); }
  else if (mode == 2) { A.setBuildMode(M::row_wise); A.setSize(n, m); for (auto r = A.createbegin(); r != A.createend(); ++r) for (int j : p[r.index()]) r.insert(j); }
  else if (mode == 3) { A.setBuildMode(M::row_wise); A.setSize(n, m, nnz(p) + 3); for (auto r = A.createbegin(); r != A.createend(); ++r) for (int j : p[r.index()]) r.insert(j); }
  else { A.setBuildMode(M::implicit); A.setImplicitBuildModeParameters(3, 0.5); A.setSize(n, m); for (int i = 0; i < n; ++i) for (int j : p[i]) A.entry(i, j); A.compress(); }
  for (auto r = A.begin(); r != A.end(); ++r) for (auto e = r->begin(); e != r->end(); ++e) Blk<BCRSMatrix<double>>::shape(*e);
  std::vector<bool> col(m), row(n); for (int i = 0; i < n; ++i) for (int j : p[i]) col[j] = row[i] = true; mc::step(); mc::state(mc::Hash()(show(p))(mode)(m));
  for (int j = 0; j < m; ++j) CHECK((int)MatrixDimension<M>::coldim(A, j) == (col[j] ? 2 : 0), "coldim(", j, ") = ", MatrixDimension<M>::coldim(A, j));
  for (int i = 0; i < n; ++i) CHECK((int)MatrixDimension<M>::rowdim(A, i) == (row[i] ? 2 : 0), "rowdim(", i, ") = ", MatrixDimension<M>::rowdim(A, i));
  int rs = 0, cs = 0; for (bool b : row) rs += 2 * b; for (bool b : col) cs += 2 * b;
  CHECK((int)MatrixDimension<M>::rowdim(A) == rs, "rowdim ", MatrixDimension<M>::rowdim(A), " expected ", rs); CHECK((int)MatrixDimension<M>::coldim(A) == cs, "coldim ", MatrixDimension<M>::coldim(A), " expected ", cs);
  CHECK((int)countNonZeros(A) == 3 * nnz(p), "countNonZeros");
}
// nested blocks with individual patterns
UNIT(nested_varied) {
  using B = BCRSMatrix<double>; using M = BCRSMatrix<B>; static const std::vector<unsigned> masks{0, 1, 6, 9, 7, 15};
  int n = c.range(1, 2), m = c.range(1, 2); auto p = patternOf(n, m, c.mask(n * m, "outer")); if (!nnz(p)) throw mc::Skip{};
  M A; buildAs(A, c.of(std::vector<int>{0, 2, 4}, "mode"), n, m, p, false); Dense<double> D(2 * n, 3 * m); std::vector<std::pair<int, int>> sup;
  for (int i = 0; i < n; ++i) for (int j : p[i]) { unsigned k = c.of(masks, "inner"); auto q = patternOf(2, 3, k * 5 & 63); buildAs(A[i][j], c.of(std::vector<int>{0, 2}, "inner mode"), 2, 3, q); for (int a = 0; a < 2; ++a) for (int b : q[a]) { A[i][j][a][b] = D(2 * i + a, 3 * j + b) = val<double>(i * 7 + j * 3 + a * 11 + b); sup.push_back({2 * i + a, 3 * j + b}); } }
  NOTE("outer ", show(p), " ", show(D)); mc::state(mc::Hash()(show(D))(n)(m));
  CHECK((size_t)countNonZeros(A) == sup.size(), "countNonZeros ", countNonZeros(A), " expected ", sup.size());
  std::map<std::pair<int, int>, double> seen; bool all = true; for (auto& r : p) all &= (int)r.size() == m; mc::step();
  if (all) traverse(A, D, sup);
}
template <class B> void sparseNoDim(mc::Chooser& c) { using M = BCRSMatrix<B>; using K = FieldOf<M>; int n = c(4), m = c(4); if (n * m > 6) throw mc::Skip{}; auto p = patternOf(n, m, c.mask(n * m)); M A; buildPattern(A, n, m, p); auto D = fill(A, n, m, p, [](int i, int j) { return val<K>(i * 31 + j * 7 + 1); });
  mc::state(mc::Hash()(show(p))(n)(m)((int)sizeof(B))); 
  std::map<std::pair<int, int>, K> seen; mc::step(); auto [r, q] = flatMatrixForEach(A, [&](auto&& e, std::size_t i, std::size_t j) { CHECK(seen.insert({{(int)i, (int)j}, e}).second, "visited twice"); });
  CHECK((int)r == D.n && (int)q == D.m, "flat size"); auto sup = support<B>(p); CHECK(seen.size() == sup.size(), "visited ", seen.size(), " expected ", sup.size()); for (auto& s : sup) CHECK(seen.count(s) && seen[s] == D(s.first, s.second), "entry ", s.first, ",", s.second);
  CHECK((int)MatrixDimension<M>::rowdim(A) <= D.n, "rowdim"); }
UNIT(sp_diag) { sparseNoDim<DiagonalMatrix<double, 2>>(c); }
UNIT(sp_scaled) { sparseNoDim<ScaledIdentityMatrix<double, 3>>(c); }
template <class T> void dense(mc::Chooser& c) {
  using S = Blk<T>; using K = typename S::F; using M = Matrix<T>; int n = c.range(1, 4), m = c.range(1, 4); M A(n, m); Dense<K> D(n * S::R, m * S::C); std::vector<std::pair<int, int>> sup;
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) S::set(A[i][j], [&](int k, int l) { return D(i * S::R + k, j * S::C + l) = val<K>((i * S::R + k) * 31 + (j * S::C + l) * 7); });
  for (int i = 0; i < D.n; ++i) for (int j = 0; j < D.m; ++j) sup.push_back({i, j});
  mc::state(mc::Hash()(n)(m)((int)sizeof(T))); CHECK((size_t)countNonZeros(A) == sup.size(), "countNonZeros"); CHECK((int)MatrixDimension<M>::rowdim(A) == D.n && (int)MatrixDimension<M>::coldim(A) == D.m, "dimension ", MatrixDimension<M>::rowdim(A), "x", MatrixDimension<M>::coldim(A)); traverse(A, D, sup);
}
UNIT(dense_fm) { dense<FieldMatrix<double, 2, 3>>(c); }
UNIT(fieldmatrix) { FieldMatrix<double, 2, 3> A; Dense<double> D(2, 3); std::vector<std::pair<int, int>> sup; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { A[i][j] = D(i, j) = i * 3 + j + 1; sup.push_back({i, j}); } mc::state(mc::Hash()(1)); traverse(A, D, sup); CHECK(countNonZeros(A) == 6, "countNonZeros"); }
UNIT(multitype) {
  using A00 = BCRSMatrix<FieldMatrix<double, 2, 2>>; using A01 = BCRSMatrix<FieldMatrix<double, 2, 1>>; using A10 = BCRSMatrix<FieldMatrix<double, 1, 2>>; using A11 = BCRSMatrix<double>;
  using MT = MultiTypeBlockMatrix<MultiTypeBlockVector<A00, A01>, MultiTypeBlockVector<A10, A11>>; MT A; int n = c.range(1, 2), m = c.range(1, 2);
  Dense<double> D(2 * n + m, 2 * n + m); std::vector<std::pair<int, int>> sup;
  auto put = [&](auto& B, int r, int q, int ro, int co) { using BB = std::decay_t<decltype(B)>; auto p = patternOf(r, q, c.mask(r * q)); if (std::is_same_v<BB, A11> == false || nnz(p) || true) {} buildPattern(B, r, q, p); auto E = fill(B, r, q, p, [&](int i, int j) { return val<double>((i + ro) * 31 + (j + co) * 7); }); for (int i = 0; i < E.n; ++i) for (int j = 0; j < E.m; ++j) D(ro + i, co + j) = E(i, j); for (auto s : support<typename BB::block_type>(p)) sup.push_back({s.first + ro, s.second + co}); };
  put(A[_0][_0], n, n, 0, 0); put(A[_0][_1], n, m, 0, 2 * n); put(A[_1][_0], m, n, 2 * n, 0); put(A[_1][_1], m, m, 2 * n, 2 * n);
  mc::state(mc::Hash()(show(D))); traverse(A, D, sup);
}
template <class V, class G> void vec(V& v, G each) { // each calls back with every scalar in order
  std::vector<const void*> want; each([&](auto& x) { want.push_back(&x); }); size_t k = 0; mc::step();
  size_t n = flatVectorForEach(v, [&](auto&& e, std::size_t o) { CHECK(o == k, "offset ", o, " expected ", k); CHECK((const void*)&e == want.at(k), "scalar ", k, " is a different object"); ++k; });
  CHECK(n == want.size() && k == want.size(), "visited ", k, " of ", want.size()); CHECK(v.dim() == n, "dim");
}
UNIT(vectors) {
  int kind = c(6), n = c(4); mc::state(mc::Hash()(kind)(n));
  if (kind == 0) { BlockVector<double> v(n); vec(v, [&](auto f) { for (auto& x : v) f(x); }); }
  if (kind == 1) { BlockVector<FieldVector<double, 3>> v(n); vec(v, [&](auto f) { for (auto& b : v) for (auto& x : b) f(x); }); }
  if (kind == 2) { BlockVector<BlockVector<FieldVector<double, 2>>> v(n); for (auto& b : v) b.resize(c(3)); vec(v, [&](auto f) { for (auto& b : v) for (auto& q : b) for (auto& x : q) f(x); }); }
  if (kind == 3) { MultiTypeBlockVector<BlockVector<double>, BlockVector<FieldVector<double, 2>>> v; v[_0].resize(n); v[_1].resize(c(3)); vec(v, [&](auto f) { for (auto& x : v[_0]) f(x); for (auto& b : v[_1]) for (auto& x : b) f(x); }); }
  if (kind == 4) { MultiTypeBlockVector<BlockVector<double>, FieldVector<double, 2>> w; MultiTypeBlockVector<BlockVector<FieldVector<double, 1>>, decltype(w)> v; v[_0].resize(n); v[_1][_0].resize(c(3)); vec(v, [&](auto f) { for (auto& b : v[_0]) for (auto& x : b) f(x); for (auto& x : v[_1][_0]) f(x); for (auto& x : v[_1][_1]) f(x); }); }
  if (kind == 5) { FieldVector<double, 4> v; vec(v, [&](auto f) { for (auto& x : v) f(x); }); }
}
UNIT(levels) {
  using D = double; using FV = FieldVector<double, 2>; using FM = FieldMatrix<double, 2, 2>; mc::state(mc::Hash()(0)); mc::step();
  CHECK(blockLevel<D>() == 0 && blockLevel<FV>() == 1 && blockLevel<BlockVector<D>>() == 1 && blockLevel<BlockVector<FV>>() == 2 && blockLevel<BlockVector<BlockVector<FV>>>() == 3, "vector levels");
  CHECK(blockLevel<BCRSMatrix<D>>() == 1 && blockLevel<BCRSMatrix<FM>>() == 2 && blockLevel<BCRSMatrix<BCRSMatrix<FM>>>() == 3 && blockLevel<Matrix<FM>>() == 2 && blockLevel<VariableBlockVector<D>>() == 2, "matrix levels");
  using MV = MultiTypeBlockVector<BlockVector<D>, BlockVector<FV>>; CHECK(maxBlockLevel<MV>() == 3 && minBlockLevel<MV>() == 2 && !hasUniqueBlockLevel<MV>(), "multi type levels");
  using MM = MultiTypeBlockMatrix<MultiTypeBlockVector<BCRSMatrix<D>, BCRSMatrix<D>>, MultiTypeBlockVector<BCRSMatrix<FM>, BCRSMatrix<BCRSMatrix<FM>>>>; CHECK(maxBlockLevel<MM>() == 4 && minBlockLevel<MM>() == 2, "multi type matrix levels");
  using MU = MultiTypeBlockVector<BlockVector<D>, BlockVector<D>>; CHECK(hasUniqueBlockLevel<MU>() && blockLevel<MU>() == 2, "unique");
}
