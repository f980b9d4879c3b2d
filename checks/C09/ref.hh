// Reference iterates of the Krylov methods, computed in extended precision from their defining
// (optimality / textbook) property on the dense matrix, not from the library's recurrences.
#pragma once
#include "mc.hh"
#include <complex>
#include <vector>
namespace ref {
using L = std::complex<long double>;
using V = std::vector<L>;
struct M { int n = 0; V a; M() = default; M(int n_) : n(n_), a((size_t)n_ * n_, L(0)) {} L& operator()(int i, int j) { return a[(size_t)i * n + j]; } const L& operator()(int i, int j) const { return a[(size_t)i * n + j]; } };
inline V mul(const M& A, const V& x) { V y(A.n, L(0)); for (int i = 0; i < A.n; ++i) for (int j = 0; j < A.n; ++j) y[i] += A(i, j) * x[j]; return y; }
inline L dot(const V& a, const V& b) { L s(0); for (size_t i = 0; i < a.size(); ++i) s += std::conj(a[i]) * b[i]; return s; }
inline long double norm(const V& a) { return std::sqrt(std::max(0.0L, dot(a, a).real())); }
inline V axpy(V y, L a, const V& x) { for (size_t i = 0; i < y.size(); ++i) y[i] += a * x[i]; return y; }
inline V sub(const V& a, const V& b) { return axpy(a, L(-1), b); }
// square solve; false if (numerically) singular
inline bool solve(std::vector<V> A, V b, V& x) {
  int n = (int)b.size(); x.assign(n, L(0)); long double sc = 0; for (auto& r : A) for (auto& e : r) sc = std::max(sc, std::abs(e));
  for (int k = 0; k < n; ++k) { int p = k; for (int i = k + 1; i < n; ++i) if (std::abs(A[i][k]) > std::abs(A[p][k])) p = i; if (!(std::abs(A[p][k]) > 1e-14L * sc)) return false; std::swap(A[k], A[p]); std::swap(b[k], b[p]);
    for (int i = k + 1; i < n; ++i) { L f = A[i][k] / A[k][k]; for (int j = k; j < n; ++j) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; } }
  for (int i = n - 1; i >= 0; --i) { L s = b[i]; for (int j = i + 1; j < n; ++j) s -= A[i][j] * x[j]; x[i] = s / A[i][i]; }
  return true;
}
// append v to an orthonormal basis (twice is enough); false if it depends on it
inline bool extend(std::vector<V>& Q, V v) {
  long double n0 = norm(v); if (!(n0 > 0)) return false;
  for (int r = 0; r < 2; ++r) for (auto& q : Q) v = axpy(v, -dot(q, v), q);
  long double n1 = norm(v); if (n1 <= 1e-12L * n0) return false;
  for (auto& e : v) e /= n1; Q.push_back(v); return true;
}
// x0 + span(Q) with Galerkin condition  W_i^H (b - A x) = 0
inline bool petrov(const M& A, const V& x0, const V& r0, const std::vector<V>& Q, const std::vector<V>& W, V& x) {
  int k = (int)Q.size(); std::vector<V> G(k, V(k)); V rhs(k), y;
  for (int j = 0; j < k; ++j) { V aq = mul(A, Q[j]); for (int i = 0; i < k; ++i) G[i][j] = dot(W[i], aq); rhs[j] = dot(W[j], r0); }
  if (!solve(G, rhs, y)) return false;
  x = x0; for (int j = 0; j < k; ++j) x = axpy(x, y[j], Q[j]);
  return true;
}
struct Run { std::vector<V> x; std::vector<long double> d; std::vector<int> exhausted; bool undefined = false; };  // iterate and defect after step k; exhausted: space cannot grow beyond this step
} // namespace ref
