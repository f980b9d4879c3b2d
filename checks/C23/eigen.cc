// C23: eigenvalue algorithms: the returned pair is an eigenpair to the requested accuracy, or the failure is reported.
#include "mc.hh"
#include "flat.hh"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/eigenvalue/poweriteration.hh>
#ifdef ARPACK
#include <dune/istl/eigenvalue/arpackpp.hh>
#endif
#include <iostream>
#include <sstream>
using namespace flat;
struct Quiet { std::ostringstream s; std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
using Mat = Dense<double>; using Vec = std::vector<double>;
template <int N, int K = N> struct Types { using M = Dune::BCRSMatrix<Dune::FieldMatrix<double, N, K>>; using V = Dune::BlockVector<Dune::FieldVector<double, K>>; };
inline double norm(const Vec& v) { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }
inline double dot(const Vec& a, const Vec& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
inline Vec times(const Mat& A, const Vec& x) { Vec y(A.n, 0.); for (size_t i = 0; i < (size_t)A.n; ++i) for (size_t j = 0; j < (size_t)A.m; ++j) y[i] += A(i, j) * x[j]; return y; }
inline double frob(const Mat& A) { double s = 0; for (size_t i = 0; i < (size_t)A.n; ++i) for (size_t j = 0; j < (size_t)A.m; ++j) s += A(i, j) * A(i, j); return std::sqrt(s); }
inline double residual(const Mat& A, const Vec& x, double l) { Vec y = times(A, x); for (size_t i = 0; i < x.size(); ++i) y[i] -= l * x[i]; return norm(y); }
inline bool symmetric(const Mat& A) { for (int i = 0; i < (int)A.n; ++i) for (int j = 0; j < i; ++j) if (A(i, j) != A(j, i)) return false; return true; }
// eigenvalues and eigenvectors of a symmetric matrix: cyclic Jacobi rotations
struct Eig { Vec l; std::vector<Vec> v; };
inline Eig eig(Mat A) {
  int n = (int)A.n; Mat Q(n, n); for (int i = 0; i < n; ++i) Q(i, i) = 1;
  for (int sweep = 0; sweep < 60; ++sweep) for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) { if (std::abs(A(p, q)) < 1e-300) continue; double t = .5 * std::atan2(2 * A(p, q), A(q, q) - A(p, p)), c = std::cos(t), s = std::sin(t);
    for (int k = 0; k < n; ++k) { double a = A(k, p), b = A(k, q); A(k, p) = c * a - s * b; A(k, q) = s * a + c * b; } for (int k = 0; k < n; ++k) { double a = A(p, k), b = A(q, k); A(p, k) = c * a - s * b; A(q, k) = s * a + c * b; } for (int k = 0; k < n; ++k) { double a = Q(k, p), b = Q(k, q); Q(k, p) = c * a - s * b; Q(k, q) = s * a + c * b; } }
  Eig e; for (int i = 0; i < n; ++i) { e.l.push_back(A(i, i)); Vec v; for (int k = 0; k < n; ++k) v.push_back(Q(k, i)); e.v.push_back(v); } return e;
}
template <int N, int K> void toBCRS(typename Types<N, K>::M& M, const Mat& A, bool diag) {
  int n = (int)A.n / N, m = (int)A.m / K; Pattern p(n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { bool on = diag && i == j; for (int k = 0; k < N; ++k) for (int l = 0; l < K; ++l) on |= A(i * N + k, j * K + l) != 0; if (on) p[i].push_back(j); }
  buildPattern(M, n, m, p); fill(M, n, m, p, [&](int r, int c) { return A(r, c); });
}
template <class V> Vec toVec(const V& x) { Vec y; for (auto& b : x) for (auto& v : b) y.push_back(v); return y; }
template <class V> void fromVec(V& x, const Vec& y) { size_t k = 0; for (auto& b : x) for (auto& v : b) v = y[k++]; }
inline Mat shifted(Mat A, double mu) { for (int i = 0; i < (int)A.n; ++i) A(i, i) -= mu; return A; }

// matrices: every symmetric/general matrix with entries from a small set, and families
inline Mat chooseMatrix(mc::Chooser& c, int n, int style) {
  Mat A(n, n); static const double D[] = {1, -2, 4, 0, 3}, O[] = {0, 1, -2};
  if (style == 0) { for (int i = 0; i < n; ++i) { A(i, i) = D[c(n < 3 ? 5 : mc::thorough() ? 4 : 3, "diagonal")]; for (int j = 0; j < i; ++j) A(i, j) = A(j, i) = O[c(n == 3 && !mc::thorough() ? 2 : 3, "offdiagonal")]; } }
  else { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = i == j ? D[c(3, "diagonal")] : O[c(n == 3 ? 2 : 3, "offdiagonal")]; }
  return A;
}
inline Mat family(int k, int n) {
  Mat A(n, n); for (int i = 0; i < n; ++i) switch (k) {
    case 0: A(i, i) = 2; if (i) A(i, i - 1) = A(i - 1, i) = -1; break;
    case 1: A(i, i) = i + 1; break;
    case 2: A(i, i) = (i % 2 ? -1. : 1.) * (i + 1.5); if (i) A(i, i - 1) = A(i - 1, i) = .5; break;
    case 3: A(i, i) = i < 2 ? 5 : 1. / (i + 1); if (i > 1) A(i, 0) = A(0, i) = .25; break;
    case 4: A(i, i) = -3 - 2 * i; if (i) A(i, i - 1) = A(i - 1, i) = 1; break;
    default: for (int j = 0; j < n; ++j) A(i, j) = 1. / (i + j + 1); A(i, i) += i; }
  return A;
}
inline Vec start(int k, int n) { Vec x(n); for (int i = 0; i < n; ++i) x[i] = k == 0 ? 1. : k == 1 ? (i == 0 ? 2. : 0.) : k == 2 ? 1. + .5 * i : (i % 2 ? -1. : .75) + .125 * i; return x; }

struct Outcome { bool thrown = false, other = false; Vec x; double lambda = 0; unsigned it = 0; bool extrnl = false; std::string what; };
struct RefStep { double r, l; Vec x; };
// the algorithms as they are defined, with exact dense solves
struct Ref { std::vector<RefStep> h; bool bad = false, converged = false, extrnl = true; double lambda = 0; Vec x; double margin = 1e300, cond = 1; };
struct Algo { int kind; double gamma, eta, eps; int maxit; bool avoid; double lambda0; double delta; int m; };   // 0 power 1 inverse 2 shifted inverse 3 RQI 4 TLIME
inline Ref reference(const Mat& A, Vec x, const Algo& a) {
  Ref R; double nx = norm(x); for (auto& v : x) v /= nx; double lam = a.lambda0, r = 1e300; bool rqi = false; int n = (int)x.size(); double scale = frob(A) + 1;
  while (!(r <= a.eps)) {
    if ((int)R.h.size() >= a.maxit) return R; Vec y(n); double old = lam, mu = 0;
    if (a.kind == 0) y = times(A, x); else { mu = a.kind == 1 ? 0. : a.kind == 2 ? a.gamma : a.kind == 3 ? lam : rqi ? lam : a.gamma; if (!flat::solve(shifted(A, mu), x, y)) { R.bad = true; return R; } }
    double ny = norm(y); if (!(ny > 1e-14 * scale) || !(ny < 1e13)) { R.bad = true; return R; } R.cond = std::max(R.cond, a.kind ? ny * scale : 1.); for (int i = 0; i < n; ++i) x[i] = y[i] / ny;
    Vec Ax = times(A, x); lam = dot(x, Ax); r = residual(A, x, lam); R.h.push_back({r, lam, x}); if (r > 0) R.margin = std::min(R.margin, std::abs(std::log(r / a.eps)));
    if (a.kind == 4) { double q = residual(A, x, a.gamma); R.margin = std::min(R.margin, std::abs(q - a.eta)); if (!rqi && q < a.eta) { R.extrnl = false; rqi = true; }
      R.margin = std::min(R.margin, std::abs(std::abs(lam - a.gamma) - a.eta)); if (!R.extrnl && rqi && std::abs(lam - a.gamma) >= a.eta) rqi = false;
      if (R.extrnl && !rqi && (int)R.h.size() >= a.m) { double ch = std::abs(lam - old) / std::abs(lam); R.margin = std::min(R.margin, std::abs(std::log((ch + 1e-300) / a.delta))); if (ch < a.delta) rqi = true; } }
  }
  R.converged = true; R.lambda = lam; R.x = x; return R;
}
// does the iteration depend on rounding? (components of the start vector that should be zero, nearly singular systems)
inline bool stable(const Mat& A, const Vec& x0, const Algo& a, const Ref& R) { if (R.bad || R.margin < 1e-3 || R.cond > 1e8) return false; for (int k = 0; k < 2; ++k) { Vec y = x0; for (size_t i = 0; i < y.size(); ++i) y[i] += 1e-7 * (k ? -1 : 1) * val<double>((int)(i + 2)); Ref Q = reference(A, y, a); if (Q.bad || Q.h.size() != R.h.size() || Q.converged != R.converged || Q.extrnl != R.extrnl) return false; for (size_t i = 0; i < R.h.size(); ++i) if (std::abs(Q.h[i].l - R.h[i].l) > 1e-4) return false; } return true; }
template <class Alg, class Solver, class V> Outcome run(Alg& alg, const Algo& a, Solver& s, V x, int n) {
  Outcome o; double lam = a.lambda0; bool ext = false; (void)n;
  try {
    if (a.kind == 0) alg.applyPowerIteration(a.eps, x, lam);
    else if (a.avoid) { if (a.kind == 1) alg.template applyInverseIteration<Solver, true>(a.eps, s, x, lam); else if (a.kind == 2) alg.template applyInverseIteration<Solver, true>(a.gamma, a.eps, s, x, lam); else if (a.kind == 3) alg.template applyRayleighQuotientIteration<Solver, true>(a.eps, s, x, lam); else alg.template applyTLIMEIteration<Solver, true>(a.gamma, a.eta, a.eps, s, a.delta, a.m, ext, x, lam); }
    else { if (a.kind == 1) alg.applyInverseIteration(a.eps, s, x, lam); else if (a.kind == 2) alg.applyInverseIteration(a.gamma, a.eps, s, x, lam); else if (a.kind == 3) alg.applyRayleighQuotientIteration(a.eps, s, x, lam); else alg.applyTLIMEIteration(a.gamma, a.eta, a.eps, s, a.delta, a.m, ext, x, lam); }
  } catch (const Dune::SolverAbort& e) { o.thrown = o.other = true; o.what = e.what(); } catch (const Dune::ISTLError& e) { o.thrown = true; o.what = e.what(); } catch (const Dune::Exception& e) { o.thrown = o.other = true; o.what = e.what(); }
  o.x = toVec(x); o.lambda = lam; o.extrnl = ext; try { o.it = alg.getIterationCount(); } catch (const Dune::ISTLError&) { o.it = 0; } return o;
}
// judge an outcome; exact: the linear solver is accurate
inline void judge(const Mat& A, const Vec& x0, const Algo& a, const Outcome& o, bool exact, const char* what, bool direct = true) {
  double sc = frob(A) + 1; Ref R = reference(A, x0, a); static const char* names[] = {"power", "inverse", "shifted inverse", "RQI", "TLIME"}; std::string w = mc::str(what, " ", names[a.kind], " iteration (eps ", a.eps, " gamma ", a.gamma, " avoid ", a.avoid, ")");
  NOTE(w, ": ", o.thrown ? o.what : mc::str("lambda ", o.lambda, " after ", o.it, " iterations"), "; reference ", R.bad ? "singular" : R.converged ? mc::str("lambda ", R.lambda, " after ", R.h.size()) : "not converged");
  CHECK(o.it >= 1 || o.other, w, ": no iteration counted");
  if (o.thrown) { if (!o.other) CHECK((int)o.it == a.maxit + 1 || (int)o.it == a.maxit, w, ": gave up after ", o.it, " of ", a.maxit, " iterations"); CHECK(!(R.converged && exact && (!o.other || direct) && stable(A, x0, a, R)), w, ": failed (", o.what, ") although the iteration converges after ", R.h.size(), " iterations"); mc::outcome("no convergence"); return; }
  CHECK((int)o.it <= a.maxit, w, ": ", o.it, " iterations, ", a.maxit, " are allowed"); CHECK(std::isfinite(o.lambda), w, ": returned lambda ", o.lambda); for (double v : o.x) CHECK(std::isfinite(v), w, ": returned a vector entry ", v);
  CHECK(std::abs(norm(o.x) - 1) < 1e-9, w, ": the eigenvector has norm ", norm(o.x));
  if (exact || a.avoid || a.kind == 0) { double r = residual(A, o.x, o.lambda); CHECK(r <= a.eps * (1 + 1e-6) + 1e-7 * sc * (a.kind == 0 ? 1e-6 : 1.), w, ": the residual norm is ", r); CHECK(std::abs(o.lambda - dot(o.x, times(A, o.x))) <= 1e-7 * sc, w, ": lambda ", o.lambda, " is not the Rayleigh quotient ", dot(o.x, times(A, o.x))); }
  if (exact && stable(A, x0, a, R)) {
    CHECK(R.converged, w, ": stopped after ", o.it, " iterations although the residual is still ", R.h.empty() ? 0. : R.h.back().r); CHECK(o.it == R.h.size(), w, ": ", o.it, " iterations instead of ", R.h.size());
    CHECK(mc::close(o.lambda, R.lambda, sc, 1e-7), w, ": lambda ", o.lambda, " instead of ", R.lambda); double s = dot(o.x, R.x) < 0 ? -1 : 1; if (R.cond < 1e5 || a.kind == 0) for (size_t i = 0; i < o.x.size(); ++i) CHECK(mc::close(o.x[i], s * R.x[i], 1., 1e-6), w, ": x[", i, "] is ", o.x[i], " instead of ", s * R.x[i]);
    if (a.kind == 4) CHECK(o.extrnl == R.extrnl, w, ": extrnl is ", o.extrnl);
  }
  if (a.kind == 4 && exact && symmetric(A)) { auto e = eig(A); double best = 1e300; for (double l : e.l) best = std::min(best, std::abs(l - o.lambda)); CHECK(best <= a.eps + 1e-7 * sc, w, ": lambda ", o.lambda, " is no eigenvalue"); if (!o.extrnl) { bool in = false; for (double l : e.l) in |= std::abs(l - a.gamma) < a.eta + 1e-7; CHECK(in, w, ": no eigenvalue lies in the interval, but extrnl is false"); if (R.margin > 1e-3) CHECK(std::abs(o.lambda - a.gamma) < a.eta + a.eps + 1e-7, w, ": lambda ", o.lambda, " lies outside the interval"); } }
  mc::outcome(mc::str(names[a.kind], " converged ", o.extrnl));
}
inline Algo algo(mc::Chooser& c, const Mat& A, bool deep) {
  static const double G[] = {.3, 2.6, -1.9, 5.2}, E[] = {1e-8, 1e-2}; static const int I[] = {60, 1, 4}; Algo a; a.kind = c(5, "algorithm"); a.gamma = a.kind == 2 || a.kind == 4 ? G[c(deep ? 4 : 3, "gamma")] : 0; a.eta = a.kind == 4 ? (c(2, "eta") ? .8 : .15) : 0; a.eps = E[c(2, "eps")]; if (a.kind == 4 && a.eps < 1e-6) a.eps = 1e-6; a.maxit = I[deep ? c(3, "iterations") : 0]; a.avoid = a.kind && c.flag("avoid linear solver crime"); a.lambda0 = a.kind == 3 ? (c(2, "lambda") ? 2.7 : -.4) : 0; a.delta = .05; a.m = 3; (void)A; return a;
}
template <int N> using Alg = Dune::PowerIteration_Algorithms<typename Types<N>::M, typename Types<N>::V>;
// the solvers; their kind is chosen
template <int N, class F> void withSolver(Alg<N>& alg, int kind, F&& f) {
  using M = typename Types<N>::M; using V = typename Types<N>::V;
  if (kind == 0) { Dune::UMFPack<M> s(alg.getIterationMatrix(), 0); f(s); }
  else if (kind == 1) { Dune::SuperLU<M> s(alg.getIterationMatrix(), false); f(s); }
  else { Dune::Richardson<V, V> p; double red = kind == 2 ? 1e-13 : .3; Dune::RestartedGMResSolver<V> s(alg.getIterationOperator(), p, red, 30, 200, 0); f(s); }
}
template <int N> void operatorIs(Alg<N>& alg, const Mat& A, double mu, bool matrix, const char* what) {
  using V = typename Types<N>::V; int n = (int)A.n; Mat S = shifted(A, mu); V x(n / N), y(n / N), z(n / N); Vec xv, zv; for (int i = 0; i < n; ++i) { xv.push_back(val<double>(i + 3)); zv.push_back(val<double>(2 * i + 1)); } fromVec(x, xv); fromVec(z, zv); y = 17.;
  auto& op = alg.getIterationOperator(); op.apply(x, y); Vec want = times(S, xv); for (int i = 0; i < n; ++i) CHECK(mc::close(toVec(y)[i], want[i], 10., 1e-12), what, ": the iteration operator is not A - ", mu, " I: ", toVec(y)[i], " instead of ", want[i]);
  op.applyscaleadd(-2.5, x, z); for (int i = 0; i < n; ++i) CHECK(mc::close(toVec(z)[i], zv[i] - 2.5 * want[i], 10., 1e-12), what, ": applyscaleadd of the iteration operator"); CHECK(toVec(x) == xv && op.category() == Dune::SolverCategory::sequential, what, ": operator");
  if (matrix) { auto D = flatten(alg.getIterationMatrix()); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(mc::close(D(i, j), S(i, j), 10., 1e-12), what, ": entry ", i, ",", j, " of the iteration matrix is ", D(i, j), " instead of ", S(i, j)); }
}
template <int N> void single(mc::Chooser& c, const Mat& A, bool deep) {
  using M = typename Types<N>::M; using V = typename Types<N>::V; Quiet q; int n = (int)A.n; M m; toBCRS<N, N>(m, A, true); NOTE("matrix ", show(A)); Algo a = algo(c, A, deep); int kind = a.kind ? (n % N || deep ? c(4, "solver") : c(2, "solver") * 2 + (int)(a.eps < 1e-5)) : 0; int verb = a.avoid ? 3 : 0; Vec x0 = start(c(deep && mc::thorough() ? 4 : 2, "start"), n);
  Alg<N> alg(m, a.maxit, verb); try { alg.getIterationCount(); mc::fail("an iteration count before anything was done"); } catch (const Dune::ISTLError&) {} operatorIs<N>(alg, A, 0., false, "new object"); V x(n / N); fromVec(x, x0);
  auto go = [&](auto& s) { auto o = run(alg, a, s, x, n); judge(A, x0, a, o, kind < 3, kind == 0 ? "UMFPack" : kind == 1 ? "SuperLU" : kind == 2 ? "GMRes" : "inexact GMRes", kind < 2); };
  try { if (a.kind == 0) { Dune::Richardson<V, V> p; Dune::LoopSolver<V> s(alg.getIterationOperator(), p, 1e-3, 1, 0); go(s); } else withSolver<N>(alg, kind, go); } catch (const Dune::Exception& e) { if (kind > 1) throw; mc::outcome("singular"); auto det = A; Vec y(n); CHECK(!flat::solve(det, x0, y), "the factorisation failed: ", e.what()); }
  auto D = flatten(m); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(D(i, j) == A(i, j), "the matrix was changed");
  if (a.kind == 1 || a.kind == 2) operatorIs<N>(alg, A, a.gamma, true, "afterwards"); if (a.kind == 0) operatorIs<N>(alg, A, 0., true, "afterwards");
  mc::Hash h; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) h(A(i, j)); mc::state(h(a.kind)(a.gamma)(a.eps)(a.maxit)(a.avoid).h);
}
// sequences of calls on one object
template <int N> void history(mc::Chooser& c, const Mat& A, int len) {
  using M = typename Types<N>::M; using V = typename Types<N>::V; Quiet q; int n = (int)A.n; M m; toBCRS<N, N>(m, A, true); NOTE("matrix ", show(A)); Alg<N> alg(m, 60, 0); std::unique_ptr<Dune::UMFPack<M>> d1; std::unique_ptr<Dune::SuperLU<M>> d2; mc::Hash h; double mu = 0; bool known = true;
  Dune::Richardson<V, V> p; Dune::RestartedGMResSolver<V> it(alg.getIterationOperator(), p, 1e-13, 30, 200, 0); const M* im = nullptr;
  for (int k = 0; k < len; ++k) {
    static const Algo all[] = {{0, 0, 0, 1e-6, 60, false, 0, .05, 3}, {1, 0, 0, 1e-6, 60, false, 0, .05, 3}, {2, 2.6, 0, 1e-6, 60, false, 0, .05, 3}, {2, 2.6, 0, 1e-6, 60, true, 0, .05, 3}, {3, 0, 0, 1e-6, 60, false, -.4, .05, 3}, {4, 2.6, .8, 1e-6, 60, false, 0, .05, 3}, {2, -.7, 0, 1e-6, 60, false, 0, .05, 3}};
    int op = c(8, "operation"); if (op == 7) { auto& mm = alg.getIterationMatrix(); CHECK(!im || im == &mm, "another iteration matrix"); im = &mm; if (known) operatorIs<N>(alg, A, mu, true, "getIterationMatrix"); h(7); continue; }
    const Algo& a = all[op]; int s = a.kind ? c(3, "solver") : 2; h(op * 3 + s); Vec x0 = start(2, n); V x(n / N); fromVec(x, x0); Outcome o; NOTE("step ", k, ": algorithm ", a.kind, " gamma ", a.gamma, " solver ", s == 0 ? "UMFPack" : s == 1 ? "SuperLU" : "GMRes");
    if (s == 0) { if (!d1) d1 = std::make_unique<Dune::UMFPack<M>>(alg.getIterationMatrix(), 0); o = run(alg, a, *d1, x, n); } else if (s == 1) { if (!d2) d2 = std::make_unique<Dune::SuperLU<M>>(alg.getIterationMatrix(), false); o = run(alg, a, *d2, x, n); } else o = run(alg, a, it, x, n);
    judge(A, x0, a, o, true, mc::str("step ", k, ",").c_str(), s < 2); if (a.kind == 1 || a.kind == 2) { mu = a.kind == 1 ? 0 : a.gamma; known = true; } else if (a.kind > 2) known = false; if (known) operatorIs<N>(alg, A, mu, im != nullptr, "after a step");
  }
  mc::state(h.h);
}
#ifdef PART1
UNIT(tiny) { int n = 1 + c(2, "n"); auto A = chooseMatrix(c, n, 0); single<1>(c, A, true); }
UNIT(symmetric3) { auto A = chooseMatrix(c, 3, 0); single<1>(c, A, false); }
UNIT(general2) { auto A = chooseMatrix(c, 2, 1); single<1>(c, A, false); }
UNIT(blocks) { auto A = chooseMatrix(c, 2, 0); if (c.flag("4x4")) { Mat B(4, 4); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { B(i, j) = A(i, j); B(i + 2, j + 2) = A(1 - i, 1 - j) + (i == j ? 2.25 : 0); } B(0, 3) = B(3, 0) = .5; A = B; } single<2>(c, A, false); }
UNIT(families) { static const int S[] = {4, 6, 10, 20}; int n = S[c(4, "n")]; auto A = family(c(6, "family"), n); bool deep = mc::thorough(); if (c.flag("blocks")) single<2>(c, A, deep); else single<1>(c, A, deep); }
UNIT(histories) { auto A = family(1 + c(2, "family"), 4); history<1>(c, A, mc::thorough() ? 4 : 3); }
UNIT(histories_blocks) { auto A = family(2, 4); history<2>(c, A, mc::thorough() ? 3 : 2); }
UNIT(not_square) { Quiet q; int N = 1 + c(3, "rows"), M = 1 + c(3, "columns"); if (N == M) throw mc::Skip{}; Dune::BCRSMatrix<Dune::FieldMatrix<double, 1, 1>> m; Pattern p(N); for (auto& r : p) r = {0}; buildPattern(m, N, M, p); m = 1.; try { Alg<1> alg(m); mc::fail("a matrix that is not square was accepted"); } catch (const Dune::ISTLError&) {} mc::state(mc::Hash()(N)(M).h); }
#endif
#ifdef ARPACK
template <int N, int K> void arpack(mc::Chooser& c, const Mat& A, int what) {
  using M = typename Types<N, K>::M; using V = typename Types<N, K>::V; M m; toBCRS<N, K>(m, A, false); NOTE("matrix ", show(A)); Quiet q; int n = (int)A.n, k = (int)A.m; Dune::ArPackPlusPlus_Algorithms<M, V> alg(m, 2000, c(2, "verbosity") * 3); double sc = frob(A) + 1, res = -1, tol = 1e-8; V x(k / K); x = 0.;
  try { alg.getIterationCount(); mc::fail("an iteration count before anything was done"); } catch (const Dune::ISTLError&) {}
  bool sym = what < 3, thrown = false; try { switch (what) { case 0: alg.computeSymMaxMagnitude(1e-10, x, res); break; case 1: alg.computeSymMinMagnitude(1e-10, x, res); break; case 2: alg.computeSymCond2(1e-10, res); break; case 3: alg.computeNonSymMax(1e-10, x, res); break; case 4: alg.computeNonSymMin(1e-10, x, res); break; default: alg.computeNonSymCond2(1e-10, res); } } catch (const Dune::ISTLError&) { thrown = true; } catch (ArpackError& e) { mc::fail("ARPACK++ reports error ", (int)e.Status()); }
  mc::state(mc::Hash()(what)(n)(k)(res).h); if (n < k || (sym && n != k)) { CHECK(thrown, "a matrix of ", n, " rows and ", k, " columns was accepted"); mc::outcome("refused"); return; } CHECK(!thrown, "a matrix of ", n, " rows and ", k, " columns was refused");
  CHECK(alg.getIterationCount() >= 1, "iterations"); Mat T(k, k); if (sym) T = A; else for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) for (int l = 0; l < n; ++l) T(i, j) += A(l, i) * A(l, j);
  auto e = eig(T); double mx = 0, mn = 1e300; for (double l : e.l) { mx = std::max(mx, std::abs(l)); mn = std::min(mn, std::abs(l)); } if (!sym) { mx = std::sqrt(mx); mn = std::sqrt(mn); } NOTE("result ", res, " largest ", mx, " smallest ", mn);
  switch (what) { case 0: CHECK(mc::close(std::abs(res), mx, sc, tol), "largest magnitude ", res, " instead of ", mx); break; case 1: CHECK(mc::close(std::abs(res), mn, sc, tol), "smallest magnitude ", res, " instead of ", mn); break; case 3: CHECK(mc::close(res, mx, sc, tol), "largest singular value ", res, " instead of ", mx); break; case 4: CHECK(mc::close(res * res, mn * mn, sc * sc, tol), "smallest singular value ", res, " instead of ", mn); break; default: CHECK(mn < 1e-3 || std::abs(res - mx / mn) <= 1e-6 * (mx / mn) * (mx / mn), "condition ", res, " instead of ", mx / mn); }
  if (what != 2 && what != 5) { Vec v = toVec(x); CHECK(std::abs(norm(v) - 1) < 1e-8, "norm of the vector ", norm(v)); CHECK(residual(T, v, sym ? res : res * res) < 1e-7 * sc * sc, "residual ", residual(T, v, sym ? res : res * res)); }
  mc::outcome(mc::str("algorithm ", what));
}
inline Mat rect(int fam, int n, int k) { Mat A(n, k); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) switch (fam) { case 0: A(i, j) = i == j ? 2 + i : i == j + 1 ? 1 : 0; break; case 1: A(i, j) = (i * 3 + j * 5) % 7 - 2.5; break; case 2: A(i, j) = i % k == j ? 1. + i * .5 : 0; break; default: A(i, j) = std::abs(i - j) <= 1 ? 1. / (1 + i + j) + (i == j) : 0; } return A; }
UNIT(symmetric) { int n = 3 + c(2, "n"); Mat A = n == 3 ? chooseMatrix(c, 3, 0) : family(c(6, "family"), 4 + 3 * c(6, "size")); bool simple = true; if (n == 3) { auto e = eig(A); for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) simple &= std::abs(std::abs(e.l[i]) - std::abs(e.l[j])) > 1e-3; } if (!simple) throw mc::Skip{}; arpack<1, 1>(c, A, c(3, "algorithm")); }
UNIT(general) { int k = 2 + c(4, "columns"), n = k + c(3, "more rows"); if (k == 5) { k = 24; n = 24 + (n - 5) * 4; } int w = 3 + c(3, "algorithm"); if (w == 5 && k < 3) throw mc::Skip{}; arpack<1, 1>(c, rect(c(4, "family"), n, k), w); }
UNIT(rectangular_blocks) { int k = 2 + c(3, "columns"), n = k + c(3, "more rows"); int f = c(4, "family"), w = 3 + c(3, "algorithm"); if (w == 5 && k < 3) throw mc::Skip{}; if (c.flag("tall blocks")) arpack<2, 1>(c, rect(f, 2 * n, k), w); else arpack<2, 2>(c, rect(f, 2 * n, 2 * k), w); }
UNIT(refused) { int n = 2 + c(4, "rows"), k = 2 + c(4, "columns"); if (n >= k && n == k) throw mc::Skip{}; int w = c(6, "algorithm"); if (n > k && w > 2) throw mc::Skip{}; arpack<1, 1>(c, n == k ? family(0, n) : rect(1, n, k), w); }
#endif
