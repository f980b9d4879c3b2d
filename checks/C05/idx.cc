// C05: MatrixIndexSet is a set of (row, column) pairs, whatever order, repetition, import and internal storage.
#include "flat.hh"
#include <dune/istl/matrixindexset.hh>
using namespace Dune; using namespace flat;
using Mat = BCRSMatrix<double>;
using Model = std::vector<std::set<int>>;
static void verify(const MatrixIndexSet& s, const Model& m, int cols) {
  mc::step();
  CHECK(s.rows() == m.size() && (int)s.cols() == cols, "sizes ", s.rows(), "x", s.cols());
  size_t tot = 0;
  for (size_t i = 0; i < m.size(); ++i) {
    tot += m[i].size(); CHECK(s.rowsize(i) == m[i].size(), "rowsize(", i, ") = ", s.rowsize(i), " expected ", m[i].size());
    std::vector<int> got; std::visit([&](const auto& r) { for (auto c : r) got.push_back((int)c); }, s.columnIndices(i));
    CHECK(got == std::vector<int>(m[i].begin(), m[i].end()), "columns of row ", i, ": ", show(got));
  }
  CHECK(s.size() == tot, "size() = ", s.size(), " expected ", tot);
}
static std::string key(const Model& m) { std::ostringstream o; for (auto& r : m) { for (int c : r) o << c << ","; o << ";"; } return o.str(); }
template <class M> void exported(const MatrixIndexSet& s, const Model& m, int cols, M& A) {
  s.exportIdx(A);
  CHECK(A.N() == m.size() && (int)A.M() == cols, "exported size ", A.N(), "x", A.M());
  CHECK(A.buildStage() == M::built, "exported matrix is not built");
  size_t tot = 0; A = 0.0; double k = 0; Dense<double> D((int)m.size(), cols);
  for (size_t i = 0; i < m.size(); ++i) { tot += m[i].size(); CHECK(A.getrowsize(i) == m[i].size(), "row size of the exported matrix");
    for (int j = 0; j < cols; ++j) { CHECK(A.exists(i, j) == (m[i].count(j) > 0), "exported pattern ", i, ",", j); if (m[i].count(j)) { A[i][j] = ++k; D((int)i, j) = k; } } }
  CHECK(A.nonzeroes() == tot, "nonzeroes of the exported matrix");
  CHECK(flatten(A) == D, "entries of the exported matrix: ", show(flatten(A)), " expected ", show(D));
}
// all sequences of additions, small vector limits force the switch of the storage
UNIT(adds) {
  static const int lim[] = {0, 1, 2, 3, 2048};
  int ml = c(5, "maxVectorSize"); const int R = 2, C = 3; bool viaResize = c.flag("resize");
  MatrixIndexSet s = viaResize ? MatrixIndexSet(lim[ml]) : MatrixIndexSet(R, C, lim[ml]); if (viaResize) s.resize(R, C);
  Model m(R); int depth = mc::thorough() ? 6 : 5;
  for (int d = 0; d < depth; ++d) { int op = c(R * C, "add"); s.add(op / C, op % C); m[op / C].insert(op % C); }
  NOTE("maxVectorSize ", lim[ml], " model ", key(m)); verify(s, m, C); mc::state(mc::Hash()(key(m))(ml));
  MatrixIndexSet t(s); t.add(0, 0); t.add(1, 2); verify(s, m, C); s = t; m[0].insert(0); m[1].insert(2); verify(s, m, C); verify(t, m, C);
  Mat A; exported(s, m, C, A);
}
UNIT(onerow) {
  static const int lim[] = {0, 1, 2, 3, 4, 5, 2048}; const int C = 5;
  int ml = c(7, "maxVectorSize"); MatrixIndexSet s(1, C, lim[ml]); Model m(1);
  int depth = mc::thorough() ? 7 : 6;
  for (int d = 0; d < depth; ++d) { int j = c(C, "column"); s.add(0, j); m[0].insert(j); verify(s, m, C); }
  mc::state(mc::Hash()(key(m))(ml)); Mat A; exported(s, m, C, A);
}
// import of a matrix at an offset, twice, and export into matrices with a history
UNIT(import_export) {
  static const int lim[] = {1, 2048}; int ml = c(2, "maxVectorSize"); int n = c.range(1, 2, "rows"), k = c.range(1, 2, "cols");
  auto p = patternOf(n, k, c.mask(n * k, "first")), q = patternOf(n, k, c.mask(n * k, "second")); int ro = c(2, "row offset"), co = c(3, "col offset"); int hist = c(5, "target");
  Mat A, B; buildPattern(A, n, k, p); buildPattern(B, n, k, q); A = 1.0; B = 2.0;
  MatrixIndexSet s(n + 1, k + 2, lim[ml]); Model m(n + 1);
  s.add(n, k + 1); m[n].insert(k + 1);
  s.import(A, ro, co); for (int i = 0; i < n; ++i) for (int j : p[i]) m[i + ro].insert(j + co); verify(s, m, k + 2);
  s.import(B); for (int i = 0; i < n; ++i) for (int j : q[i]) m[i].insert(j); verify(s, m, k + 2);
  mc::state(mc::Hash()(key(m))(n)(k)(hist)(ml));
  Mat T;
  switch (hist) {
  case 0: break;
  case 1: buildPattern(T, 3, 3, patternOf(3, 3, 0x1ff)); T = 7.0; break;
  case 2: { T.setBuildMode(Mat::random); T.setSize(2, 2); T.setrowsize(0, 1); break; }
  case 3: { T.setBuildMode(Mat::row_wise); T.setSize(2, 2); for (auto r = T.createbegin(); r != T.createend(); ++r) r.insert(r.index()); T = 5.0; break; }
  case 4: { exported(s, m, k + 2, T); break; }
  }
  Mat U; if (hist != 2) U = T; auto before = flatten(U);
  exported(s, m, k + 2, T);
  CHECK(flatten(U) == before, "a copy of the target taken before the export changed");
  // exporting again into another matrix type
  BCRSMatrix<FieldMatrix<double, 2, 1>> F; s.exportIdx(F); F = 0.0; for (size_t i = 0; i < m.size(); ++i) for (int j = 0; j < k + 2; ++j) CHECK(F.exists(i, j) == (m[i].count(j) > 0), "pattern");
  // round trip
  MatrixIndexSet r(T.N(), T.M()); r.import(T); verify(r, m, k + 2); verify(s, m, k + 2);
}
// sizes around the limits and different insertion orders
UNIT(ladder) {
  static const std::vector<int> ns{0, 1, 2, 5, 16, 17, 100, 2047, 2048, 2049, 2100}; int n = c.of(ns, "columns"); int order = c(4, "order"); static const int lim[] = {0, 7, 16, 2048}; int ml = c(4, "limit");
  MatrixIndexSet s(3, std::max(n, 1) * 2, lim[ml]); Model m(3);
  for (int t = 0; t < n; ++t) { int j = order == 0 ? t : order == 1 ? n - 1 - t : order == 2 ? (t % 2 ? n - 1 - t / 2 : t / 2) : (int)((uint64_t)t * 7919 % n); s.add(1, 2 * j); m[1].insert(2 * j); if (t % 3 == 0) { s.add(1, 2 * j); s.add(2, j); m[2].insert(j); } }
  verify(s, m, std::max(n, 1) * 2); mc::state(mc::Hash()(n)(order)(ml));
  Mat A; s.exportIdx(A); CHECK(A.nonzeroes() == s.size(), "nonzeroes"); for (int i = 0; i < 3; ++i) { auto it = m[i].begin(); CHECK(A.getrowsize(i) == m[i].size(), "row size"); for (auto e = A[i].begin(); e != A[i].end(); ++e, ++it) CHECK((int)e.index() == *it, "column order"); }
}
// empty index sets
UNIT(empty) {
  int n = c(3), k = c(3); MatrixIndexSet s(n, k); Model m(n); verify(s, m, k); Mat A; int h = c(2); if (h) buildPattern(A, 2, 2, patternOf(2, 2, 15)); exported(s, m, k, A); mc::state(mc::Hash()(n)(k));
}
