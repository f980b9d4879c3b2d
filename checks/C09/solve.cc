// C09: every iterative solver, on every small system / preconditioner / start / maxit / reduction / restart,
// against the defining property of its iterates.
#include "mc.hh"
#include "ref.hh"
#include <dune/common/fvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/solvers.hh>
using namespace ref;
#ifdef CPLX
using K = std::complex<double>;
#else
using K = double;
#endif
using Vec = Dune::BlockVector<Dune::FieldVector<K, 1>>;
static L toL(double v) { return L(v); }
static L toL(std::complex<double> v) { return L(v.real(), v.imag()); }
template <class KK = K> static KK toK(L v) { if constexpr (std::is_same_v<KK, double>) return (double)v.real(); else return KK((double)v.real(), (double)v.imag()); }
static V getv(const Vec& x) { V r; for (auto& b : x) r.push_back(toL(b[0])); return r; }
static Vec putv(const V& x) { Vec r(x.size()); for (size_t i = 0; i < x.size(); ++i) r[i][0] = toK(x[i]); return r; }
static std::string show(const V& v) { std::ostringstream s; s.precision(10); s << "("; for (auto& e : v) { s << (double)e.real(); if (e.imag() != 0) s << "+" << (double)e.imag() << "i"; s << " "; } s << ")"; return s.str(); }
static std::string show(const M& m) { std::ostringstream s; s << "["; for (int i = 0; i < m.n; ++i) { for (int j = 0; j < m.n; ++j) { s << (double)m(i, j).real(); if (m(i, j).imag() != 0) s << "+" << (double)m(i, j).imag() << "i"; s << " "; } s << "; "; } s << "]"; return s.str(); }

struct Log { int pre = 0, post = 0, papply = 0, oapply = 0; bool papplyBeforePre = false, papplyAfterPost = false, dirtyUpdate = false; };
struct Op : Dune::LinearOperator<Vec, Vec> {
  const M& A; Log& log; int nanAt;
  Op(const M& a, Log& l, int na = -1) : A(a), log(l), nanAt(na) {}
  void apply(const Vec& x, Vec& y) const override { ++log.oapply; y.resize(A.n); for (int i = 0; i < A.n; ++i) { K s(0); for (int j = 0; j < A.n; ++j) s += toK(A(i, j)) * x[j][0]; y[i][0] = s; } fault(y); }
  void applyscaleadd(K al, const Vec& x, Vec& y) const override { ++log.oapply; for (int i = 0; i < A.n; ++i) { K s(0); for (int j = 0; j < A.n; ++j) s += toK(A(i, j)) * x[j][0]; y[i][0] += al * s; } fault(y); }
  void fault(Vec& y) const { if (log.oapply == nanAt) y[0][0] = std::numeric_limits<double>::quiet_NaN(); }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; }
};
struct Boom : std::exception {};
struct Prec : Dune::Preconditioner<Vec, Vec> {
  std::vector<const M*> P; Log& log; int throwAt;
  Prec(std::vector<const M*> p, Log& l, int ta = -1) : P(p), log(l), throwAt(ta) {}
  void pre(Vec&, Vec&) override { ++log.pre; }
  void apply(Vec& v, const Vec& d) override {
    if (!log.pre) log.papplyBeforePre = true; if (log.post) log.papplyAfterPost = true;
    for (auto& e : v) if (e[0] != K(0)) log.dirtyUpdate = true;
    const M& p = *P[log.papply % P.size()]; ++log.papply;
    if (log.papply == throwAt) throw Boom();
    for (int i = 0; i < p.n; ++i) { K s(0); for (int j = 0; j < p.n; ++j) s += toK(p(i, j)) * d[j][0]; v[i][0] = s; }
  }
  void post(Vec&) override { ++log.post; }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; }
};
enum S { LOOP, GRAD, CG, BICG, MINRES, GMRES, FGMRES, GPCG, RFCG, CFCG, NS };
static const char* const name[] = {"Loop", "Gradient", "CG", "BiCGSTAB", "MINRES", "GMRes", "FlexibleGMRes", "GeneralizedPCG", "RestartedFCG", "CompleteFCG"};
static std::unique_ptr<Dune::InverseOperator<Vec, Vec>> make(int s, Op& op, Dune::ScalarProduct<Vec>& sp, Prec& p, double red, int maxit, int m) {
  using namespace Dune;
  switch (s) {
    case LOOP: return std::make_unique<LoopSolver<Vec>>(op, sp, p, red, maxit, 0);
    case GRAD: return std::make_unique<GradientSolver<Vec>>(op, sp, p, red, maxit, 0);
    case CG: return std::make_unique<CGSolver<Vec>>(op, sp, p, red, maxit, 0);
    case BICG: return std::make_unique<BiCGSTABSolver<Vec>>(op, sp, p, red, maxit, 0);
    case MINRES: return std::make_unique<MINRESSolver<Vec>>(op, sp, p, red, maxit, 0);
    case GMRES: return std::make_unique<RestartedGMResSolver<Vec>>(op, sp, p, red, m, maxit, 0);
    case FGMRES: return std::make_unique<RestartedFlexibleGMResSolver<Vec>>(op, sp, p, red, m, maxit, 0);
    case GPCG: return std::make_unique<GeneralizedPCGSolver<Vec>>(op, sp, p, red, maxit, 0, m);
    case RFCG: return std::make_unique<RestartedFCGSolver<Vec>>(op, sp, p, red, maxit, 0, m);
    case CFCG: return std::make_unique<CompleteFCGSolver<Vec>>(op, sp, p, red, maxit, 0, m);
  }
  return {};
}
// ---- reference iterates: run until kmax steps or the defect is numerically zero ----
static Run reference(int s, const M& A, const std::vector<const M*>& P, const V& b, const V& x0, int kmax, int m) {
  Run R; int t = 0; auto prec = [&](const V& r) { return mul(*P[(t++) % P.size()], r); };
  V x = x0, r = sub(b, mul(A, x));
  auto pn = [&](const V& r) { return std::sqrt(std::max(0.0L, dot(r, mul(*P[0], r)).real())); };
  auto push = [&](const V& x, long double d, bool ex = false) { R.x.push_back(x); R.d.push_back(d); R.exhausted.push_back(ex); };
  long double d0 = s == GMRES ? norm(mul(*P[0], r)) : s == MINRES ? pn(r) : norm(r);
  push(x, d0);
  const long double tiny = 1e-13L * d0;
  if (!(d0 > 1e-30L)) return R;
  if (s == LOOP || s == GRAD) {
    for (int k = 1; k <= kmax; ++k) {
      V z = prec(r); L a(1); if (s == GRAD) a = dot(z, r) / dot(z, mul(A, z));
      x = axpy(x, a, z); r = sub(b, mul(A, x)); push(x, norm(r)); if (norm(r) <= tiny) break;
    }
  } else if (s == CG || s == MINRES) {
    std::vector<V> Q, W; V v = mul(*P[0], r);
    for (int k = 1; k <= kmax; ++k) {
      bool grew = extend(Q, v);
      if (grew) { v = mul(*P[0], mul(A, Q.back())); W.push_back(v); }   // P A q
      if (!petrov(A, x0, r, Q, s == CG ? Q : W, x)) { R.undefined = true; break; }
      V rk = sub(b, mul(A, x)); long double d = s == CG ? norm(rk) : pn(rk); push(x, d);
      if (!grew || d <= tiny) break;
    }
  } else if (s == BICG) {
    V rt = r, p(r.size(), L(0)), v = p; L rho(1), al(1), om(1);
    for (int k = 1; k <= kmax; ++k) {   // pushes two half steps per step
      L rn = dot(rt, r); if (std::abs(rn) < 1e-8L * norm(rt) * norm(r)) { R.undefined = true; break; }
      if (k == 1) p = r; else { L be = (rn / rho) * (al / om); p = axpy(r, be, axpy(p, -om, v)); }
      V y = prec(p); v = mul(A, y); L h = dot(rt, v); if (std::abs(h) < 1e-8L * norm(rt) * norm(v)) { R.undefined = true; break; }
      al = rn / h; x = axpy(x, al, y); r = axpy(r, -al, v); push(x, norm(r)); if (norm(r) <= tiny) break;
      y = prec(r); V tt = mul(A, y); om = dot(tt, r) / dot(tt, tt); if (std::abs(om) * norm(tt) < 1e-8L * norm(r)) { R.undefined = true; }
      x = axpy(x, om, y); r = axpy(r, -om, tt); rho = rn; push(x, norm(r)); if (norm(r) <= tiny || R.undefined) break;
    }
  } else if (s == GMRES || s == FGMRES) {
    int k = 0;
    while (k < kmax) {
      V xc = x; r = sub(b, mul(A, xc)); std::vector<V> B, Z, W;   // Arnoldi basis, update directions, images
      V r0 = s == GMRES ? mul(*P[0], r) : r; if (norm(r0) <= tiny) return R;
      extend(B, r0);
      for (int i = 0; i < m && k < kmax; ++i) {
        ++k; V z = s == GMRES ? B[i] : prec(B[i]); Z.push_back(z);
        V w = mul(A, z); if (s == GMRES) w = mul(*P[0], w);
        W.push_back(w); bool grew = extend(B, w);
        // minimise | r0 - W y |
        int c = (int)Z.size(); std::vector<V> G(c, V(c)); V rhs(c), y; for (int a = 0; a < c; ++a) { for (int q = 0; q < c; ++q) G[a][q] = dot(W[a], W[q]); rhs[a] = dot(W[a], r0); }
        if (!solve(G, rhs, y)) { R.undefined = true; return R; }
        x = xc; V rr = r0; for (int a = 0; a < c; ++a) { x = axpy(x, y[a], Z[a]); rr = axpy(rr, -y[a], W[a]); }
        push(x, norm(rr), !grew); if (!grew || norm(rr) <= tiny) return R;
      }
    }
  } else {   // conjugate directions with a window of stored ones
    std::vector<V> D, AD; int cap = s == GPCG ? m : m + 1, next = 0;
    for (int k = 1; k <= kmax; ++k) {
      V z = prec(r), d = z;
      // slots that take part in the orthogonalisation
      for (int j = 0; j < (int)D.size(); ++j) { if (s == CFCG && j == next && (int)D.size() == cap) continue; d = axpy(d, -dot(AD[j], z) / dot(D[j], AD[j]), D[j]); }
      V Ad = mul(A, d); L a = dot(d, r) / dot(d, Ad); x = axpy(x, a, d); r = sub(b, mul(A, x)); push(x, norm(r)); if (norm(r) <= tiny) break;
      if (s == CFCG) { if ((int)D.size() < cap) { D.push_back(d); AD.push_back(Ad); next = (int)D.size() % cap; } else { D[next] = d; AD[next] = Ad; next = (next + 1) % cap; } }
      else { D.push_back(d); AD.push_back(Ad); if ((int)D.size() == cap) { if (cap > 1) { D = {D.back()}; AD = {AD.back()}; } else { D.clear(); AD.clear(); } } }
    }
  }
  return R;
}

// ---- alphabets ----
static M hpd(mc::Chooser& c, int n, int alpha) {
  M A(n); std::vector<L> off = {L(0), L(-1), L(2), std::is_same_v<K, double> ? L(-3) : L(0, 1)};
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { L v = off[c(alpha, "off")]; A(i, j) = v; A(j, i) = std::conj(v); }
  for (int i = 0; i < n; ++i) { long double s = 1 + i; for (int j = 0; j < n; ++j) if (j != i) s += std::abs(A(i, j)); A(i, i) = s; }
  return A;
}
static M matrix(mc::Chooser& c, int s, int n, int alpha) {
  M A = hpd(c, n, alpha);
  if (s == BICG || s == GMRES || s == FGMRES || s == LOOP) { if (n > 1 && c.flag("nonsymmetric")) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) A(i, j) -= L(1 + j); for (int i = 0; i < n; ++i) A(i, i) += L(n); }
  if (s == MINRES && c.flag("indefinite")) A(n - 1, n - 1) = -A(n - 1, n - 1);
  return A;
}
// preconditioners: 0 identity, 1 scaled identity, 2 diagonal, 3 dense hpd
static M pmat(int kind, const M& A) {
  int n = A.n; M P(n);
  for (int i = 0; i < n; ++i) P(i, i) = kind == 0 ? L(1) : kind == 1 ? L(1.0L / 1024) : kind == 2 ? L((long double)(double)(1 / std::abs(A(i, i)))) : L(2 + i);
  if (kind == 3) for (int i = 0; i + 1 < n; ++i) P(i, i + 1) = P(i + 1, i) = L(0.5L);
  return P;
}
static V vec(int kind, int n) { V v(n, L(0)); if (kind == 1) v[n - 1] = 3; if (kind == 2) for (int i = 0; i < n; ++i) v[i] = L(i % 2 ? -2 : 1 + i, std::is_same_v<K, double> ? 0 : i); return v; }

static void judge(int s, const M& A, const std::vector<const M*>& P, const V& b, const V& x0, double red, int maxit, int m) {
  Run R = reference(s, A, P, b, x0, maxit, m);
  Log log; Op op(A, log); Prec pr(P, log); Dune::SeqScalarProduct<Vec> sp;
  auto solver = make(s, op, sp, pr, red, maxit, m);
  Vec x = putv(x0), rhs = putv(b); Dune::InverseOperatorResult res; res.iterations = 77; res.converged = true; res.reduction = -5;
  bool aborted = false; std::string what;
  try { solver->apply(x, rhs, res); } catch (Dune::SolverAbort& e) { aborted = true; what = e.what(); }
  mc::step(log.oapply + log.papply);
  long double d0 = R.d[0];
  // first step at which the criterion holds
  int ks = -1; bool amb = false;
  for (size_t k = 0; k < R.d.size() && ks < 0; ++k) {
    bool c = R.d[k] < d0 * red || R.d[k] < 1e-30L; long double th = d0 * red;
    if (k && std::fabs(R.d[k] - th) < 1e-6L * d0 * std::min(1.0, red) ) amb = true;
    if (c) ks = (int)k;
  }
  int per = s == BICG ? 2 : 1;
  auto ctx = [&] { return mc::str(name[s], " A=", show(A), " P=", show(*P[0]), P.size() > 1 ? "(varying)" : "", " b=", show(b), " x0=", show(x0), " red=", red, " maxit=", maxit, " m=", m, " -> it=", res.iterations, " conv=", res.converged, " red=", res.reduction, " x=", show(getv(x)), " ref d:", [&] { std::ostringstream o; for (auto d : R.d) o << (double)d << " "; return o.str(); }(), aborted ? " ABORT " : "", what); };
  mc::outcome(mc::str(name[s], aborted ? " abort" : res.converged ? " converged " : " not converged ", aborted ? 0 : res.iterations));
  mc::state(mc::Hash()(s)(res.iterations)((int)res.converged)((double)std::abs(getv(x)[0]))((double)R.d.back()));
  if (aborted) {
    // allowed only where the method has no next vector: exhausted space, or a breakdown of the recurrence
    bool ok = R.undefined || amb; int last = (int)R.d.size() - 1;
    if ((s == GMRES || s == FGMRES) && R.exhausted[last]) ok = true;
    CHECK(ok, "the solver aborted although the method is well defined here: ", ctx());
    return;
  }
  CHECK(log.pre == 1, "pre() must be called exactly once, was ", log.pre, ctx());
  CHECK(log.post == 1, "post() must be called exactly once, was ", log.post, ctx());
  CHECK(!log.papplyBeforePre && !log.papplyAfterPost, "the preconditioner was applied outside pre()/post() ", ctx());
  CHECK(!log.dirtyUpdate, "the update passed to the preconditioner was not zero ", ctx());
  CHECK(res.iterations >= 0 && res.iterations <= maxit, "number of iterations ", ctx());
  CHECK(!std::isnan(res.reduction) && !std::isnan(res.conv_rate) && res.elapsed >= 0, "statistics ", ctx());
  CHECK(res.iterations == 0 || mc::close(std::pow(res.reduction, 1.0 / res.iterations), res.conv_rate, 1, 1e-9) || s == BICG, "conv_rate ", ctx());
  V xs = getv(x), r = sub(b, mul(A, xs));
  long double dn = s == GMRES ? norm(mul(*P[0], r)) : s == MINRES ? std::sqrt(std::max(0.0L, dot(r, mul(*P[0], r)).real())) : norm(r);
  long double dm = 0; for (auto d : R.d) dm = std::max(dm, d); long double slack = 1e-9L * (dm + norm(b));
  if (d0 > 1e-30L && !R.undefined) CHECK(std::fabs(dn - res.reduction * d0) <= slack, "the reported reduction is not the one achieved: defect ", (double)dn, " ", ctx());
  if (res.converged) CHECK(dn <= red * d0 + slack + 1e-30L, "converged, but the defect is ", (double)dn, " ", ctx());
  else CHECK(dn >= red * d0 - slack, "not converged, but the defect is ", (double)dn, " ", ctx());
  if (R.undefined || amb) return;
  int steps = per * maxit, expect = ks >= 0 && ks <= steps ? ks : std::min(steps, (int)R.d.size() - 1);
  bool econv = ks >= 0 && ks <= steps;
  if (s == BICG && !econv) expect = steps;
  CHECK(res.converged == econv, "convergence flag, expected ", econv, " ", ctx());
  CHECK(res.iterations == expect / per, "expected ", expect / per, " iterations ", ctx());
  if (expect < (int)R.x.size()) {
    long double sc = 1; for (auto& e : R.x[expect]) sc = std::max(sc, std::abs(e));
    for (size_t i = 0; i < xs.size(); ++i) CHECK(std::abs(xs[i] - R.x[expect][i]) <= 1e-8L * sc, "iterate differs from the method's: expected ", show(R.x[expect]), " ", ctx());
  }
  if (expect == 0) { for (size_t i = 0; i < xs.size(); ++i) CHECK(xs[i] == x0[i], "no step, but x changed ", ctx()); CHECK(log.papply <= 1, "no step, but the preconditioner was applied ", log.papply, ctx()); }
}
static const double reds[] = {1e-9, 0.3, 1e-3};
static bool needsHermitian(int s) { return s == GRAD || s == CG || s == MINRES || s >= GPCG; }
static bool hasM(int s) { return s >= GMRES; }

static void fixedPrec(mc::Chooser& c, int s) {
  int nmax = mc::thorough() ? 4 : 3;
  int n = 1 + c(nmax, "n");
  M A = matrix(c, s, n, n == 4 ? 3 : n == 3 && !mc::thorough() ? (hasM(s) ? 2 : 3) : 4);
  M P = pmat(c(4, "prec"), A);
  int xk = c(3, "xstar"), sk = c(3, "start");
  V xs = vec(xk, n), b = mul(A, xs), x0 = sk == 0 ? V(n, L(0)) : sk == 1 ? xs : vec(2 - xk % 2, n);
  int m = !hasM(s) ? 1 : s == RFCG || s == CFCG ? c(n + 1, "mmax") : 1 + c(n + 1, "restart");
  int maxit = c(hasM(s) ? std::max(n + 2, 2 * m + 2) : n + 3, "maxit");
  double red = reds[c(3, "reduction")];
  judge(s, A, {&P}, b, x0, red, maxit, m);
}
// preconditioner that changes from step to step: the flexible methods
static void varying(mc::Chooser& c, int s) {
  int n = 2 + c(mc::thorough() ? 3 : 2, "n");
  M A = matrix(c, s, n, n == 4 ? 2 : 3);
  M P[4] = {pmat(0, A), pmat(2, A), pmat(3, A), pmat(1, A)};
  std::vector<const M*> seq; int len = n + 1; for (int i = 0; i < len; ++i) seq.push_back(&P[c(3, "prec")]);
  V b = mul(A, vec(2, n)), x0(n, L(0));
  int m = s == RFCG || s == CFCG ? c(n + 1, "mmax") : 1 + c(n + 1, "restart");
  int maxit = 1 + c(len, "maxit");
  judge(s, A, seq, b, x0, 1e-9, maxit, m);
}
// longer systems: laplacian of size n, all maxit / restart
static void ladder(mc::Chooser& c, int s) {
  static const int ns[] = {5, 6, 8, 11}; int n = ns[c(mc::thorough() ? 4 : 3, "n")];
  M A(n); for (int i = 0; i < n; ++i) { A(i, i) = 3; if (i) A(i, i - 1) = -1; if (i + 1 < n) A(i, i + 1) = -1; }
  if (!needsHermitian(s) && c.flag("nonsymmetric")) for (int i = 1; i < n; ++i) A(i, i - 1) = -1.5L;
  M P = pmat(c(4, "prec"), A); V xs = vec(2, n), b = mul(A, xs), x0(n, L(0));
  int m = !hasM(s) ? 1 : 1 + c(n, "m"); int maxit = c(n + 3, "maxit"); double red = reds[c(3, "reduction")];
  judge(s, A, {&P}, b, x0, red, maxit, m);
}
// the same operator and right hand side scaled by a power of two: the iteration must not notice
static void scaled(mc::Chooser& c, int s) {
  int n = 2 + c(2, "n"); M A = matrix(c, s, n, 2);
  static const long double sc[] = {1.0L, 0x1p-70L, 0x1p70L, 0x1p-30L}; long double f = sc[c(4, "scale")];
  V xs = vec(2, n); M B = A; for (auto& e : B.a) e *= f; M P = pmat(c(2, "prec") ? 3 : 0, A); if (s == LOOP || c.flag("scale prec")) for (auto& e : P.a) e /= f;
  V b = mul(B, xs), x0(n, L(0)); int m = !hasM(s) ? 1 : 1 + c(n, "m");
  if (s == GMRES || s == MINRES) if (f < 1e-15L) { /* left preconditioned defect must stay above the absolute floor 1e-30 */ }
  int maxit = c(n + 2, "maxit"); double red = reds[c(3, "reduction")];
  if (norm(b) * (s == GMRES ? norm(mul(P, b)) / norm(b) : 1) * red < 1e-26L) throw mc::Skip{};
  judge(s, B, {&P}, b, x0, red, maxit, m);
}
// ---- one solver object, a history of calls; every call must behave like the first call of a fresh object ----
static void history(mc::Chooser& c, int s) {
  int n = 2; M A(n); A(0, 0) = 4; A(0, 1) = A(1, 0) = 1; A(1, 1) = 3; M P = pmat(c(2, "prec") ? 2 : 0, A);
  int m = !hasM(s) ? 1 : 1 + c(3, "m"); double red = c.flag("red") ? 1e-9 : 0.5; int maxit = 1 + c(3, "maxit");
  Log log; Op op(A, log); Prec pr({&P}, log); Dune::SeqScalarProduct<Vec> sp; auto solver = make(s, op, sp, pr, red, maxit, m);
  int len = 1 + c(3, "calls");
  for (int q = 0; q < len; ++q) {
    int kind = c(6, "call");   // 0: apply(x,b,res)  1,2: with reduction  3: NaN from the operator  4: exception from the preconditioner  5: with reduction, exception
    V xs = vec(1 + (q & 1), n), b = mul(A, xs); if (q == 2) b = vec(1, n);
    double r2 = kind == 1 || kind == 5 ? (red < 0.1 ? 0.5 : 1e-10) : 1e-3; bool four = kind == 1 || kind == 2 || kind == 5;
    auto run = [&](Dune::InverseOperator<Vec, Vec>& so, Op& o, Prec& p, Log& lg, bool four_, Vec& x, Dune::InverseOperatorResult& res) -> std::string {
      lg = Log(); o.nanAt = kind == 3 ? 2 : -1; p.throwAt = kind >= 4 ? 1 : -1; Vec rhs = putv(b);
      try { if (four_) so.apply(x, rhs, r2, res); else so.apply(x, rhs, res); } catch (Dune::SolverAbort&) { return "SolverAbort"; } catch (Boom&) { return "Boom"; }
      return "ok";
    };
    Dune::InverseOperatorResult res, fres; Vec x(n), fx(n); x = 0; fx = 0;
    std::string e = run(*solver, op, pr, log, four, x, res);
    Log fl; Op fo(A, fl); Prec fp({&P}, fl); auto fresh = make(s, fo, sp, fp, four ? r2 : red, maxit, m);
    std::string fe = run(*fresh, fo, fp, fl, false, fx, fres);
    mc::step(); mc::outcome(mc::str(name[s], " ", kind, " ", e));
    CHECK(e == fe, name[s], " call ", q, " kind ", kind, ": ", e, " instead of ", fe);
    if (kind == 3) CHECK(e == "SolverAbort", name[s], ": a NaN defect must be reported, got ", e);
    if (kind >= 4) CHECK(e == "Boom", name[s], ": exception of the preconditioner swallowed");
    if (e != "ok") continue;
    CHECK(res.iterations == fres.iterations && res.converged == fres.converged, name[s], " call ", q, " kind ", kind, " red=", red, " r2=", r2, ": iterations ", res.iterations, " of a fresh solver ", fres.iterations, " converged ", res.converged, "/", fres.converged);
    CHECK(mc::close(res.reduction, fres.reduction, 1, 1e-14) && getv(x) == getv(fx), name[s], " call ", q, ": result depends on earlier calls");
    mc::state(mc::Hash()(s)(kind)(res.iterations)(res.reduction)(q));
  }
}
// a NaN or infinity appearing in the k-th operator application must end in SolverAbort, never in convergence
static void nanfault(mc::Chooser& c, int s) {
  int n = 2 + c(2, "n"); M A = matrix(c, s, n, 2); M P = pmat(c(4, "prec"), A); V b = mul(A, vec(2, n)), x0(n, L(0)); int m = !hasM(s) ? 1 : 1 + c(n + 1, "m"); int maxit = 1 + c(n + 1, "maxit");
  int k = 1 + c(2 * n + 4, "fault at");
  Log log; Op op(A, log, k); Prec pr({&P}, log); Dune::SeqScalarProduct<Vec> sp; auto solver = make(s, op, sp, pr, 1e-9, maxit, m);
  Vec x = putv(x0), rhs = putv(b); Dune::InverseOperatorResult res; bool ab = false;
  try { solver->apply(x, rhs, res); } catch (Dune::SolverAbort&) { ab = true; }
  mc::step(log.oapply); bool hit = log.oapply >= k; mc::outcome(mc::str(name[s], hit ? ab ? " fault reported" : " fault missed" : " not reached"));
  if (hit && !ab) {   // the faulty result may have been unused; then nothing may differ from the run without a fault
    Log l2; Op o2(A, l2); Prec p2({&P}, l2); auto so2 = make(s, o2, sp, p2, 1e-9, maxit, m); Vec x2 = putv(x0), b2 = putv(b); Dune::InverseOperatorResult r2; so2->apply(x2, b2, r2);
    ab = getv(x2) == getv(x) && r2.iterations == res.iterations && r2.converged == res.converged;
  }
  if (hit) CHECK(ab, name[s], " A=", show(A), " P=", show(P), " maxit=", maxit, " m=", m, ": NaN in operator application ", k, " of ", log.oapply, " was not reported; converged=", res.converged, " x=", show(getv(x)));
  mc::state(mc::Hash()(s)(k)(m)(maxit)((int)hit));
}
// ---- condition estimate of CG: ratio of the extreme Ritz values ----
#if HAVE_ARPACKPP && !defined(CPLX)
static std::vector<long double> eig(std::vector<std::vector<long double>> A) {   // Jacobi rotations
  int n = (int)A.size();
  for (int sweep = 0; sweep < 60; ++sweep) for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
    if (std::fabs(A[p][q]) < 1e-30L) continue;
    long double th = 0.5L * std::atan2(2 * A[p][q], A[q][q] - A[p][p]), c = std::cos(th), s = std::sin(th);
    for (int k = 0; k < n; ++k) { long double a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; }
    for (int k = 0; k < n; ++k) { long double a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; }
  }
  std::vector<long double> r; for (int i = 0; i < n; ++i) r.push_back(A[i][i]); std::sort(r.begin(), r.end()); return r;
}
UNIT(condition) {
  int n = 1 + c(4, "n"); M A = hpd(c, n, n == 4 ? 2 : 3); int pk = c(3, "prec"); M P = pmat(pk, A); int maxit = c(n + 2, "maxit"); double red = reds[c(3, "red")];
  V b = mul(A, vec(2, n)), x0(n, L(0)); Log log; Op op(A, log); Prec pr({&P}, log); Dune::SeqScalarProduct<Vec> sp;
  std::unique_ptr<Dune::CGSolver<Vec>> so; int ct = c(3, "constructor");
  if (ct == 0) so = std::make_unique<Dune::CGSolver<Vec>>(op, pr, red, maxit, 0, true); else if (ct == 1) so = std::make_unique<Dune::CGSolver<Vec>>(op, sp, pr, red, maxit, 0, true);
  else so = std::make_unique<Dune::CGSolver<Vec>>(Dune::stackobject_to_shared_ptr<const Dune::LinearOperator<Vec, Vec>>(op), std::make_shared<Dune::ScalarProduct<Vec>>(), Dune::stackobject_to_shared_ptr<Dune::Preconditioner<Vec, Vec>>(pr), red, maxit, 0, true);
  Vec x = putv(x0), rhs = putv(b); Dune::InverseOperatorResult res; so->apply(x, rhs, res); mc::step(log.oapply);
  int k = res.iterations; mc::outcome(mc::str("steps ", k)); mc::state(mc::Hash()(n)(k)(res.condition_estimate));
  if (k == 0) { CHECK(res.condition_estimate == -1 || res.condition_estimate == 1, "no step, estimate ", res.condition_estimate); return; }
  std::vector<V> Q; V v = mul(P, b); for (int i = 0; i < k; ++i) { if (!extend(Q, v)) throw mc::Skip{}; v = mul(P, mul(A, Q.back())); }
  // pencil Q^T A Q, Q^T P^-1 Q with P diagonal here
  std::vector<std::vector<long double>> G(k, std::vector<long double>(k)), H = G;
  for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { G[i][j] = dot(Q[i], mul(A, Q[j])).real(); V w = Q[j]; for (int q = 0; q < n; ++q) w[q] /= P(q, q); H[i][j] = dot(Q[i], w).real(); }
  for (int p = 0; p < k; ++p) { for (int q = 0; q < p; ++q) for (int i = p; i < k; ++i) H[i][p] -= H[i][q] * H[p][q]; long double d = std::sqrt(H[p][p]); for (int i = p; i < k; ++i) H[i][p] /= d; }   // Cholesky
  for (int j = 0; j < k; ++j) for (int i = 0; i < k; ++i) { for (int q = 0; q < i; ++q) G[i][j] -= H[i][q] * G[q][j]; G[i][j] /= H[i][i]; }
  for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { for (int q = 0; q < j; ++q) G[i][j] -= H[j][q] * G[i][q]; G[i][j] /= H[j][j]; }
  auto e = eig(G); double want = (double)(e.back() / e.front());
  CHECK(mc::close(res.condition_estimate, want, 1, 1e-6 * want), "condition estimate ", res.condition_estimate, " instead of ", want, " A=", show(A), " P=", show(P), " steps ", k);
}
#endif
#ifndef SOLVERS
#define SOLVERS LOOP, GRAD, CG, BICG, MINRES, GMRES, FGMRES, GPCG, RFCG, CFCG
#endif
static const std::vector<int> sel = {SOLVERS};
static std::vector<int> flexible() { std::vector<int> r; for (int s : sel) if (s >= FGMRES) r.push_back(s); return r; }
UNIT(fixed) { fixedPrec(c, c.of(sel, "solver")); }
UNIT(varying) { auto f = flexible(); if (f.empty()) return; varying(c, c.of(f, "solver")); }
UNIT(ladder) { ladder(c, c.of(sel, "solver")); }
UNIT(scaled) { scaled(c, c.of(sel, "solver")); }
UNIT(history) { history(c, c.of(sel, "solver")); }
UNIT(nanfault) { nanfault(c, c.of(sel, "solver")); }
