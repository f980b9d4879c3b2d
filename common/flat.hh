// Reference model for block matrices and block vectors: flat dense arrays, plain loops.
// Harnesses construct the library object and the flat model from the same pattern and values.
#pragma once
#include "mc.hh"
#include <complex>
#include <type_traits>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/common/diagonalmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/scaledidmatrix.hh>

namespace flat {
template <class T> struct isComplex : std::false_type {};
template <class T> struct isComplex<std::complex<T>> : std::true_type {};
template <class K> struct RealOf { using type = K; };
template <class T> struct RealOf<std::complex<T>> { using type = T; };
template <class K> K cj(const K& k) { if constexpr (isComplex<K>::value) return std::conj(k); else return k; }
template <class K> double abs1(const K& k) { if constexpr (isComplex<K>::value) return std::fabs(k.real()) + std::fabs(k.imag()); else return std::fabs(double(k)); }
template <class K> double abs2(const K& k) { if constexpr (isComplex<K>::value) return std::abs(k); else return std::fabs(double(k)); }
// a small exactly representable number; different for different s, never zero
template <class K> K num(int re, int im) { if constexpr (isComplex<K>::value) return K(re, im); else return K(re); }
inline int small(unsigned s) { int v = (int)((s * 2654435761u >> 7) % 19u) - 9; return v >= 0 ? v + 1 : v; }   // -9..-1, 1..10
template <class K> K val(unsigned s) { return num<K>(small(s), small(s * 31u + 17u)); }

template <class K> struct Dense {
  int n = 0, m = 0; std::vector<K> a;
  Dense() = default;
  Dense(int n_, int m_) : n(n_), m(m_), a((size_t)n_ * m_, K(0)) {}
  K& operator()(int i, int j) { return a[(size_t)i * m + j]; }
  const K& operator()(int i, int j) const { return a[(size_t)i * m + j]; }
  bool operator==(const Dense& o) const { return n == o.n && m == o.m && a == o.a; }
};
template <class K> std::string show(const Dense<K>& d) { std::ostringstream s; s << d.n << "x" << d.m << "["; for (int i = 0; i < d.n; ++i) { for (int j = 0; j < d.m; ++j) s << d(i, j) << (j + 1 < d.m ? " " : ""); s << "; "; } s << "]"; return s.str(); }
template <class K> std::string show(const std::vector<K>& v) { std::ostringstream s; s << "("; for (auto& x : v) s << x << " "; s << ")"; return s.str(); }
template <class K> std::vector<K> matvec(const Dense<K>& A, const std::vector<K>& x) { std::vector<K> y(A.n, K(0)); for (int i = 0; i < A.n; ++i) for (int j = 0; j < A.m; ++j) y[i] += A(i, j) * x[j]; return y; }
template <class K> Dense<K> trans(const Dense<K>& A, bool conj = false) { Dense<K> B(A.m, A.n); for (int i = 0; i < A.n; ++i) for (int j = 0; j < A.m; ++j) B(j, i) = conj ? cj(A(i, j)) : A(i, j); return B; }
template <class K> Dense<K> mul(const Dense<K>& A, const Dense<K>& B) { Dense<K> C(A.n, B.m); for (int i = 0; i < A.n; ++i) for (int k = 0; k < A.m; ++k) for (int j = 0; j < B.m; ++j) C(i, j) += A(i, k) * B(k, j); return C; }
// dense solve with partial pivoting (K complex or real); false if singular
template <class K> bool solve(Dense<K> A, std::vector<K> b, std::vector<K>& x) {
  int n = A.n;
  for (int k = 0; k < n; ++k) {
    int p = k; for (int i = k + 1; i < n; ++i) if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i;
    if (std::abs(A(p, k)) < 1e-13) return false;
    if (p != k) { for (int j = 0; j < n; ++j) std::swap(A(k, j), A(p, j)); std::swap(b[k], b[p]); }
    for (int i = k + 1; i < n; ++i) { K f = A(i, k) / A(k, k); for (int j = k; j < n; ++j) A(i, j) -= f * A(k, j); b[i] -= f * b[k]; }
  }
  x.assign(n, K(0));
  for (int i = n - 1; i >= 0; --i) { K s = b[i]; for (int j = i + 1; j < n; ++j) s -= A(i, j) * x[j]; x[i] = s / A(i, i); }
  return true;
}
template <class K> Dense<K> inverse(const Dense<K>& A, bool& ok) {
  Dense<K> R(A.n, A.n); ok = true;
  for (int j = 0; j < A.n && ok; ++j) { std::vector<K> e(A.n, K(0)), x; e[j] = K(1); ok = solve(A, e, x); if (ok) for (int i = 0; i < A.n; ++i) R(i, j) = x[i]; }
  return R;
}

// ---- blocks ----
template <class B, class = void> struct Blk;
template <class K> struct Blk<K, std::enable_if_t<Dune::IsNumber<K>::value>> {
  using F = K; static constexpr int R = 1, C = 1;
  template <class G> static void set(K& b, G g) { b = g(0, 0); }
  static bool off(int, int) { return false; }
  static K get(const K& b, int, int) { return b; }
  static void shape(K&) {}
};
template <class K, int r, int c> struct Blk<Dune::FieldMatrix<K, r, c>> {
  using B = Dune::FieldMatrix<K, r, c>; using F = K; static constexpr int R = r, C = c;
  template <class G> static void set(B& b, G g) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) b[i][j] = g(i, j); }
  static bool off(int, int) { return false; }
  static K get(const B& b, int i, int j) { return b[i][j]; }
  static void shape(B&) {}
};
template <class K, int n> struct Blk<Dune::ScaledIdentityMatrix<K, n>> {
  using B = Dune::ScaledIdentityMatrix<K, n>; using F = K; static constexpr int R = n, C = n;
  template <class G> static void set(B& b, G g) { b.scalar() = g(0, 0); }
  static bool off(int i, int j) { return i != j; }
  static K get(const B& b, int i, int j) { return i == j ? b.scalar() : K(0); }
  static void shape(B&) {}
};
template <class K, int n> struct Blk<Dune::DiagonalMatrix<K, n>> {
  using B = Dune::DiagonalMatrix<K, n>; using F = K; static constexpr int R = n, C = n;
  template <class G> static void set(B& b, G g) { for (int i = 0; i < n; ++i) b.diagonal(i) = g(i, i); }
  static bool off(int i, int j) { return i != j; }
  static K get(const B& b, int i, int j) { return i == j ? b.diagonal(i) : K(0); }
  static void shape(B&) {}
};
// a nested sparse block: always 2x2 block entries with the lower left one missing
template <class B0, class A> struct Blk<Dune::BCRSMatrix<B0, A>> {
  using B = Dune::BCRSMatrix<B0, A>; using S = Blk<B0>; using F = typename S::F; static constexpr int R = 2 * S::R, C = 2 * S::C;
  static bool off(int i, int j) { int bi = i / S::R, bj = j / S::C; return (bi == 1 && bj == 0) || S::off(i % S::R, j % S::C); }
  static void shape(B& b) {
    B t(2, 2, 3, B::random); t.setrowsize(0, 2); t.setrowsize(1, 1); t.endrowsizes(); t.addindex(0, 0); t.addindex(0, 1); t.addindex(1, 1); t.endindices();
    for (auto r = t.begin(); r != t.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) S::shape(*c);
    b = t;
  }
  template <class G> static void set(B& b, G g) { for (int i = 0; i < 2; ++i) for (int j = i; j < 2; ++j) S::set(b[i][j], [&](int k, int l) { return g(i * S::R + k, j * S::C + l); }); }
  static F get(const B& b, int i, int j) { int bi = i / S::R, bj = j / S::C; if (bi == 1 && bj == 0) return F(0); return S::get(b[bi][bj], i % S::R, j % S::C); }
};

using Pattern = std::vector<std::vector<int>>;  // columns per row, ascending
inline Pattern patternOf(int n, int m, uint64_t mask) { Pattern p(n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (mask >> (i * m + j) & 1) p[i].push_back(j); return p; }
inline int nnz(const Pattern& p) { int s = 0; for (auto& r : p) s += (int)r.size(); return s; }
inline std::string show(const Pattern& p) { std::ostringstream s; s << "{"; for (auto& r : p) { s << "["; for (int c : r) s << c << " "; s << "]"; } s << "}"; return s.str(); }

template <class M> void buildPattern(M& A, int n, int m, const Pattern& p) {
  M t(n, m, nnz(p), M::random);
  for (int i = 0; i < n; ++i) t.setrowsize(i, p[i].size());
  t.endrowsizes();
  for (int i = 0; i < n; ++i) for (int j : p[i]) t.addindex(i, j);
  t.endindices();
  for (auto r = t.begin(); r != t.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) Blk<typename M::block_type>::shape(*c);
  A = t;
}
// the same pattern through every way of building a matrix
inline constexpr int buildModes = 7;
template <class M> void buildAs(M& A, int mode, int n, int m, const Pattern& p, bool shape = true) {
  auto rowwise = [&](M& X) { for (auto r = X.createbegin(); r != X.createend(); ++r) for (int j : p[r.index()]) r.insert(j); };
  auto random = [&](M& X, int extra) { for (int i = 0; i < n; ++i) X.setrowsize(i, p[i].size() + (i % 2 ? 0 : extra)); X.endrowsizes(); for (int i = 0; i < n; ++i) for (int k = (int)p[i].size(); k-- > 0;) X.addindex(i, p[i][k]); X.endindices(); };
  A.~M(); new (&A) M();
  switch (mode) {
  case 0: buildPattern(A, n, m, p); return;
  case 1: A.setBuildMode(M::random); A.setSize(n, m); random(A, 0); break;
  case 2: A.setBuildMode(M::row_wise); A.setSize(n, m); rowwise(A); break;
  case 3: A.setBuildMode(M::row_wise); A.setSize(n, m, nnz(p) + 3); rowwise(A); break;
  case 4: A.setBuildMode(M::implicit); A.setImplicitBuildModeParameters(2, 0.7 + m); A.setSize(n, m); for (int i = 0; i < n; ++i) for (int k = (int)p[i].size(); k-- > 0;) A.entry(i, p[i][k]); A.compress(); break;
  case 5: { M X(n, m, M::row_wise); rowwise(X); A = X; break; }
  case 6: { std::ostringstream sink; A.setBuildMode(M::random); A.setSize(n, m, nnz(p) + n + 2); random(A, 1); break; }
  }
  if (shape) for (auto r = A.begin(); r != A.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) Blk<typename M::block_type>::shape(*c);
}
template <class M> using FieldOf = typename Blk<typename M::block_type>::F;

// fill the entries of a built sparse matrix; g(row, col) is asked for flat positions
template <class M, class G> Dense<FieldOf<M>> fill(M& A, int n, int m, const Pattern& p, G g) {
  using S = Blk<typename M::block_type>; using K = FieldOf<M>;
  Dense<K> D(n * S::R, m * S::C);
  for (int i = 0; i < n; ++i) for (int j : p[i]) {
    S::set(A[i][j], [&](int k, int l) { return g(i * S::R + k, j * S::C + l); });
    for (int k = 0; k < S::R; ++k) for (int l = 0; l < S::C; ++l) D(i * S::R + k, j * S::C + l) = S::get(A[i][j], k, l);
  }
  return D;
}
template <class M> Dense<FieldOf<M>> flatten(const M& A) {
  using S = Blk<typename M::block_type>; using K = FieldOf<M>;
  Dense<K> D((int)A.N() * S::R, (int)A.M() * S::C);
  for (auto r = A.begin(); r != A.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c)
    for (int k = 0; k < S::R; ++k) for (int l = 0; l < S::C; ++l) D((int)r.index() * S::R + k, (int)c.index() * S::C + l) = S::get(*c, k, l);
  return D;
}

// ---- vectors ----
template <class V, class = void> struct VB;
template <class K> struct VB<K, std::enable_if_t<Dune::IsNumber<K>::value>> { using F = K; static constexpr int N = 1; static void shape(K&) {} static K& at(K& v, int) { return v; } static const K& at(const K& v, int) { return v; } };
template <class K, int n> struct VB<Dune::FieldVector<K, n>> { using V = Dune::FieldVector<K, n>; using F = K; static constexpr int N = n; static void shape(V&) {} static K& at(V& v, int i) { return v[i]; } static const K& at(const V& v, int i) { return v[i]; } };
template <class B, class A> struct VB<Dune::BlockVector<B, A>> {   // nested: always two blocks
  using V = Dune::BlockVector<B, A>; using S = VB<B>; using F = typename S::F; static constexpr int N = 2 * S::N;
  static void shape(V& v) { v.resize(2); for (auto& b : v) S::shape(b); }
  static F& at(V& v, int i) { return S::at(v[i / S::N], i % S::N); }
  static const F& at(const V& v, int i) { return S::at(v[i / S::N], i % S::N); }
};
template <class V> std::vector<typename VB<typename V::block_type>::F> get(const V& v) {
  using S = VB<typename V::block_type>; std::vector<typename S::F> r;
  for (size_t i = 0; i < v.size(); ++i) for (int k = 0; k < S::N; ++k) r.push_back(S::at(v[i], k));
  return r;
}
template <class V, class W> void put(V& v, const W& w) { using S = VB<typename V::block_type>; for (size_t i = 0; i < v.size(); ++i) for (int k = 0; k < S::N; ++k) S::at(v[i], k) = w[i * S::N + k]; }
template <class V> void make(V& v, int blocks) { v.resize(blocks); for (auto& b : v) VB<typename V::block_type>::shape(b); }
// the vector block type that fits the rows / columns of a matrix block
template <class B> struct VecFor { using row = B; using col = B; };
template <class K, int r, int c> struct VecFor<Dune::FieldMatrix<K, r, c>> { using row = Dune::FieldVector<K, r>; using col = Dune::FieldVector<K, c>; };
template <class K, int n> struct VecFor<Dune::ScaledIdentityMatrix<K, n>> { using row = Dune::FieldVector<K, n>; using col = row; };
template <class K, int n> struct VecFor<Dune::DiagonalMatrix<K, n>> { using row = Dune::FieldVector<K, n>; using col = row; };
template <class B, class A> struct VecFor<Dune::BCRSMatrix<B, A>> { using row = Dune::BlockVector<typename VecFor<B>::row>; using col = Dune::BlockVector<typename VecFor<B>::col>; };
}
