// Reference for the stationary iterations: block-recursive steps on the flat dense matrix.
#pragma once
#include "flat.hh"
namespace itref {
using flat::Dense;
struct Part { int lo, hi; std::vector<Part> sub; };
template <class K> std::vector<K> cut(const std::vector<K>& v, const Part& p) { return {v.begin() + p.lo, v.begin() + p.hi}; }
template <class K> Dense<K> cut(const Dense<K>& A, int r0, int r1, int c0, int c1) { Dense<K> B(r1 - r0, c1 - c0); for (int i = r0; i < r1; ++i) for (int j = c0; j < c1; ++j) B(i - r0, j - c0) = A(i, j); return B; }
enum Kind { Jac, GS, Fwd, Bwd };
// one step of kind k at recursion level I on the diagonal block p of A: improves x (global vector, only p is touched) for A_pp x_p = b_p
template <class K> void step(Kind k, const Dense<K>& A, const Part& p, int I, std::vector<K>& x, const std::vector<K>& b, double w) {
  if (I == 0) {
    std::vector<K> y;
    if (!flat::solve(cut(A, p.lo, p.hi, p.lo, p.hi), cut(b, p), y)) throw mc::Skip{};
    for (int i = p.lo; i < p.hi; ++i) x[i] = y[i - p.lo];
    return;
  }
  const std::vector<K> old = x; std::vector<K> corr(x.size(), K(0));
  int n = (int)p.sub.size();
  for (int s = 0; s < n; ++s) {
    const Part& q = p.sub[k == Bwd ? n - 1 - s : s];
    std::vector<K> rhs = b;
    for (int i = q.lo; i < q.hi; ++i) for (int j = p.lo; j < p.hi; ++j) { if (k == GS && j >= q.lo && j < q.hi) continue; rhs[i] -= A(i, j) * (k == Jac ? old[j] : x[j]); }
    if (k == GS) { step(k, A, q, I - 1, x, rhs, w); continue; }
    std::vector<K> v(x.size(), K(0));
    step(k, A, q, I - 1, v, rhs, w);
    for (int i = q.lo; i < q.hi; ++i) if (k == Jac) corr[i] = v[i]; else x[i] += K(w) * v[i];
  }
  for (int i = p.lo; i < p.hi; ++i) { if (k == GS) x[i] = K(w) * x[i] + K(1 - w) * old[i]; if (k == Jac) x[i] += K(w) * corr[i]; }
}
// block triangular solves: lower (or upper) part of the block partition up to depth I, with or without the diagonal
template <class K> void tri(bool upper, bool diag, const Dense<K>& A, const Part& p, int I, std::vector<K>& x, const std::vector<K>& b, double w) {
  if (I == 0) {
    if (diag) { std::vector<K> y; if (!flat::solve(cut(A, p.lo, p.hi, p.lo, p.hi), cut(b, p), y)) throw mc::Skip{}; for (int i = p.lo; i < p.hi; ++i) x[i] = K(w) * y[i - p.lo]; }
    else for (int i = p.lo; i < p.hi; ++i) x[i] = K(w) * b[i];
    return;
  }
  int n = (int)p.sub.size();
  for (int s = 0; s < n; ++s) {
    const Part& q = p.sub[upper ? n - 1 - s : s];
    std::vector<K> rhs = b;
    for (int i = q.lo; i < q.hi; ++i) for (int j = upper ? q.hi : p.lo; j < (upper ? p.hi : q.lo); ++j) rhs[i] -= A(i, j) * x[j];
    tri(upper, diag, A, q, I - 1, x, rhs, w);
  }
}
template <class K> void bd(const Dense<K>& A, const Part& p, int I, std::vector<K>& x, const std::vector<K>& b, double w) {
  if (I == 0) { std::vector<K> y; if (!flat::solve(cut(A, p.lo, p.hi, p.lo, p.hi), cut(b, p), y)) throw mc::Skip{}; for (int i = p.lo; i < p.hi; ++i) x[i] = K(w) * y[i - p.lo]; return; }
  for (auto& q : p.sub) bd(A, q, I - 1, x, b, w);
}
inline Part uniform(int lo, int blocks, int size) { Part p{lo, lo + blocks * size, {}}; for (int i = 0; i < blocks; ++i) p.sub.push_back({lo + i * size, lo + (i + 1) * size, {}}); return p; }
template <class K> double scaleOf(const Dense<K>& A, const std::vector<K>& x, const std::vector<K>& b) { double s = 1; for (auto& a : A.a) s = std::max(s, flat::abs1(a)); double t = 1; for (auto& a : x) t = std::max(t, flat::abs1(a)); for (auto& a : b) t = std::max(t, flat::abs1(a)); return s * t; }
template <class K> bool same(const std::vector<K>& a, const std::vector<K>& b, double tol = 1e-9) {
  if (a.size() != b.size()) return false;
  double s = 1; for (auto& x : b) s = std::max(s, flat::abs1(x));
  for (size_t i = 0; i < a.size(); ++i) if (!mc::close(a[i], b[i], s, tol)) return false;
  return true;
}
template <class K> uint64_t hash(const std::vector<K>& v) { mc::Hash h; for (auto& x : v) { if constexpr (flat::isComplex<K>::value) { h(x.real()); h(x.imag()); } else h(double(x)); } return h.h; }
}
