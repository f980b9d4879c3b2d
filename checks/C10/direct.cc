// C10: direct solvers give the exact solution of whatever system was set last.
#include "mc.hh"
#include "flat.hh"
#include <set>
#include <fstream>
#include <unistd.h>
#include <dune/common/parametertree.hh>
#include <dune/common/indices.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/solver.hh>
#if defined(PART1A) || defined(PART1B) || defined(PART1C)
#include <dune/istl/superlu.hh>
#endif
#if defined(PART2A) || defined(PART2B) || defined(PART2C)
#include <dune/istl/umfpack.hh>
#endif
#if defined(PART3A) || defined(PART3B)
#include <dune/istl/ldl.hh>
#endif
#if defined(PART4A) || defined(PART4B)
#include <dune/istl/spqr.hh>
#endif
#if defined(PART3A) || defined(PART3B)
#include <dune/istl/cholmod.hh>
#endif
using namespace flat;
using C = std::complex<double>;
template <class K, int n, int m = n> using FM = Dune::FieldMatrix<K, n, m>;
template <class B> using BCRS = Dune::BCRSMatrix<B>;

struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };

enum Kind { GENERAL, SYM, SPD, RECT };
// ---- a system: pattern, values, dense reference
template <class M> struct Sys {
  using B = typename M::block_type; using K = FieldOf<M>; static constexpr int R = Blk<B>::R, Cc = Blk<B>::C;
  using X = Dune::BlockVector<typename VecFor<B>::col>; using Y = Dune::BlockVector<typename VecFor<B>::row>;
  int n, m; Pattern p; M A; Dense<K> D;
  static K entry(int i, int j, int seed, Kind k, int rows) {
    if (k == SYM || k == SPD) if (i < j) std::swap(i, j);
    K v = val<K>((unsigned)(i * 37 + j * 11 + seed * 101 + 5));
    if (k == SPD && i == j) v = K(40.0 + 3 * i + 10 * rows);
    if (k == SYM && i == j) v = num<K>((i + seed) & 1 ? -60 - i : 70 + i, 0);
    if (k == SPD || k == SYM) return v;
    if (seed == 1 && (i + j) % 5 == 0 && i != j) return K(0);                     // stored zeros
    if (seed == 2) v *= K(i % 3 == 0 ? 4096. : i % 3 == 1 ? 1. : 1. / 512);        // badly scaled rows: equilibration
    if (seed == 3) v *= K(j % 2 ? 16384. : 1. / 64);                              // badly scaled columns
    return v;
  }
  Sys(int n_, int m_, const Pattern& p_, int seed, Kind k, int mode = 0) : n(n_), m(m_), p(p_) {
    buildAs(A, mode, n, m, p); D = fill(A, n, m, p, [&](int i, int j) { return entry(i, j, seed, k, 0); });
  }
};
static bool inject(const Pattern& p, int m) {   // structurally nonsingular? (perfect matching)
  std::vector<int> own(m, -1); std::vector<char> seen;
  std::function<bool(int)> go = [&](int i) { for (int j : p[i]) if (!seen[j]) { seen[j] = 1; if (own[j] < 0 || go(own[j])) { own[j] = i; return true; } } return false; };
  for (int i = 0; i < (int)p.size(); ++i) { seen.assign(m, 0); if (!go(i)) return false; } return true;
}
static Pattern family(int n, int kind, bool sym) {
  Pattern p(n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    int d = std::abs(i - j); bool on = i == j;
    if (kind == 0) on |= d == 1;
    if (kind == 1) on |= i == 0 || j == 0;
    if (kind == 2) on |= i == n - 1 || j == n - 1 || d == 3;
    if (kind == 3) on |= d == 1 || d == 4;
    if (kind == 4) on |= sym ? (i * j + i + j) % 4 == 0 : (i * 7 + j * 3) % 4 == 0;
    if (kind == 5) on = sym ? true : (i + j == n - 1 || d == 2);     // zero diagonal: pivoting needed
    if (on) p[i].push_back(j);
  }
  return p;
}
static Pattern pattern(mc::Chooser& c, int& n, int maxAll, std::vector<int> big, Kind k) {
  if (mc::thorough() && maxAll < (k == GENERAL ? 4 : 5)) ++maxAll;
  int s = c.range(1, maxAll + (int)big.size(), "size"); if (s > maxAll) { n = big[s - maxAll - 1]; return family(n, c(6, "kind"), k != GENERAL); }
  n = s; Pattern p(n);
  if (k == GENERAL) { p = patternOf(n, n, c.mask(n * n, "pattern")); if (!inject(p, n)) throw mc::Skip{}; return p; }
  unsigned msk = c.mask(n * (n - 1) / 2, "pattern"); int b = 0; std::vector<char> on(n * n, 0);
  for (int i = 0; i < n; ++i) { on[i * n + i] = 1; for (int j = 0; j < i; ++j) if (msk >> b++ & 1) on[i * n + j] = on[j * n + i] = 1; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (on[i * n + j]) p[i].push_back(j);
  return p;
}
template <class K> std::vector<K> rhs(int n, int seed) { std::vector<K> b(n); for (int i = 0; i < n; ++i) b[i] = seed == 0 ? val<K>((unsigned)(i * 13 + 1)) : seed == 1 ? (i == n - 1 ? K(3) : K(0)) : K(0); return b; }
// backward error of every equation small, measured in column-scaled unknowns
template <class K> void exact(const Dense<K>& D, const std::vector<K>& b, const std::vector<K>& x, const std::string& what, double tol = 1e-9) {
  std::vector<K> ref; if (!solve(D, b, ref)) throw mc::Skip{};
  CHECK(x.size() == ref.size(), what, " size");
  double xs = 0; std::vector<double> cs(D.m, 0); for (int j = 0; j < D.m; ++j) { for (int i = 0; i < D.n; ++i) cs[j] = std::max(cs[j], abs2(D(i, j))); xs = std::max(xs, cs[j] * abs2(ref[j])); }
  for (int i = 0; i < D.n; ++i) {
    K r = b[i]; double s = abs2(b[i]); for (int j = 0; j < D.m; ++j) { r -= D(i, j) * x[j]; s += abs2(D(i, j)) / cs[j] * xs; }
    CHECK(abs2(r) <= tol * (s + 1e-300), what, " A=", show(D), " b=", show(b), " x=", show(x), " expected ", show(ref));
  }
}
// least squares: A^H (b - A x) = 0
template <class K> void leastSquares(const Dense<K>& D, const std::vector<K>& b, const std::vector<K>& x, const std::string& what) {
  auto r = matvec(D, x); double s = 0; for (int i = 0; i < D.n; ++i) { r[i] = b[i] - r[i]; s += abs2(b[i]); }
  for (auto& v : x) s += abs2(v);
  auto g = matvec(trans(D, true), r); for (auto& v : g) CHECK(abs2(v) <= 1e-8 * (s + 1), what, " A=", show(D), " b=", show(b), " x=", show(x), " A^H r=", show(g));
}
template <class K> Dense<K> restrict_(const Dense<K>& D, const std::vector<int>& idx) { Dense<K> S((int)idx.size(), (int)idx.size()); for (size_t i = 0; i < idx.size(); ++i) for (size_t j = 0; j < idx.size(); ++j) S((int)i, (int)j) = D(idx[i], idx[j]); return S; }
// well conditioned after scaling of rows and columns
template <class K> bool regular(Dense<K> D) {
  int n = D.n; if (n != D.m) return false;
  for (int pass = 0; pass < 2; ++pass) for (int a = 0; a < n; ++a) { double s = 0; for (int b = 0; b < n; ++b) s = std::max(s, abs2(pass ? D(a, b) : D(b, a))); if (s == 0) return false; for (int b = 0; b < n; ++b) (pass ? D(a, b) : D(b, a)) *= K(1 / s); }
  std::vector<char> cdone(n, 0);
  for (int k = 0; k < n; ++k) {   // full pivoting
    int pi = -1, pj = -1; double best = 1e-4; for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (abs2(D(i, j)) > best) { best = abs2(D(i, j)); pi = i; pj = j; }
    if (pi < 0) return false;
    for (int j = 0; j < n; ++j) std::swap(D(k, j), D(pi, j)); for (int i = 0; i < n; ++i) std::swap(D(i, k), D(i, pj));
    for (int i = k + 1; i < n; ++i) { K f = D(i, k) / D(k, k); for (int j = k; j < n; ++j) D(i, j) -= f * D(k, j); }
  }
  return true;
}
struct Res : Dune::InverseOperatorResult { Res() { iterations = -7; converged = false; } };
static void okRes(const Dune::InverseOperatorResult& r, const std::string& w) { CHECK(r.converged && r.iterations == 1, w, ": result converged=", r.converged, " iterations=", r.iterations); }

// solve with every form of apply
template <class S, class T, class K, bool raw = true> void solveAll(mc::Chooser& c, S& s, const T& sys, const Dense<K>& D, const std::vector<int>& blocks, const std::string& w, double tol = 1e-9) {
  using X = typename S::domain_type; using Y = typename S::range_type; constexpr int R = T::R, Cc = T::Cc;
  int applies = 2, first = c(raw ? 3 : 2, "apply");
  for (int a = 0; a < applies; ++a) for (int seed : {a, 2 * a}) {
    auto b = rhs<K>(D.n, seed); X x; Y y; flat::make(x, (int)blocks.size()); flat::make(y, (int)blocks.size()); put(y, b); put(x, rhs<K>(D.m, 1));
    (void)sizeof(Cc); (void)sizeof(R);
    Res r; int form = (first + a) % (raw ? 3 : 2);
    if (form == 0) { s.apply(x, y, r); okRes(r, w); }
    else if (form == 1) { s.apply(x, y, 1e-3, r); okRes(r, w); }
    else if constexpr (raw) { std::vector<K> xf(D.m, K(5)), bf = b; s.apply(xf.data(), bf.data()); put(x, xf); }
    mc::step(); exact(D, b, get(x), w + mc::str(" apply form ", form, " rhs ", seed), tol);
    mc::state(mc::Hash()((int)D.n)(seed)(form)(show(get(x))));
  }
}
[[maybe_unused]] static std::vector<int> iota(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
static std::vector<int> expand(const std::vector<int>& b, int s) { std::vector<int> r; for (int i : b) for (int k = 0; k < s; ++k) r.push_back(i * s + k); return r; }

// history of operations on one solver object; V: wrapper with the supported operations
template <class V> void history(mc::Chooser& c, int depth) {
  using M = typename V::M; using T = Sys<M>; using K = FieldOf<M>;
  static const std::vector<T> pool = [] { std::vector<T> v; v.emplace_back(2, 2, family(2, 0, true), 0, V::kind); v.emplace_back(4, 4, family(4, 1, true), 1, V::kind, 4); v.emplace_back(4, 4, family(4, 3, true), 0, V::kind, 2); return v; }();
  static const M empty = [] { M e; buildPattern(e, 0, 0, {}); return e; }();
  V v(c.flag("reuse"));
  const T* cur = nullptr; std::vector<int> sub; bool full = true; std::string log;
  for (int d = 0; d < depth; ++d) {
    int op = c(9, "op"); log += mc::str(op, " "); NOTE("ops ", log);
    if (op < 3) { v.set(pool[op].A); cur = &pool[op]; sub = iota(cur->n); full = true; }
    else if (op < 5) { sub = op == 3 ? std::vector<int>{1, 3} : std::vector<int>{0, 2, 3}; if (!v.setSub(pool[op - 2].A, std::set<std::size_t>(sub.begin(), sub.end()))) throw mc::Skip{}; cur = &pool[op - 2]; full = false; }
    else if (op == 5) { if (!v.ignore(pool[1].A, {1, 0, 0, 1})) throw mc::Skip{}; cur = &pool[1]; sub = {1, 2}; full = false; }
    else if (op == 6) { if (!cur && !V::freeTwice) throw mc::Skip{}; if (!v.free()) throw mc::Skip{}; cur = nullptr; }
    else if (op == 7) { if (!v.set0(empty, pool[0].A)) throw mc::Skip{}; cur = nullptr; }
    else {
      if (d == 0 && !V::rejects) throw mc::Skip{};
      int s = (int)sub.size() * T::R; if (!cur) s = 2 * T::R;
      if (!cur) {
        if (!V::rejects) throw mc::Skip{};
        try { v.apply(rhs<K>(s, 0), 2, {}, s); mc::fail("apply without a matrix was not rejected, ops ", log); } catch (Dune::ISTLError&) {}
      } else {
        auto Dr = restrict_(cur->D, expand(sub, T::R)); if (!regular(Dr)) throw mc::Skip{};
        auto b = rhs<K>(s, d & 1); auto x = v.apply(b, (int)sub.size(), sub, cur->n); mc::step(); exact(Dr, b, x, mc::str("after ops ", log), V::tol);
        if (V::rejects && full) for (int wrong : {cur->n - 1, cur->n + 1}) try { v.apply(rhs<K>(wrong * T::R, 0), wrong, {}, wrong); mc::fail("vectors of ", wrong, " blocks were accepted for ", cur->n); } catch (Dune::ISTLError&) {}
      }
    }
    mc::state(mc::Hash()(op)(cur ? int(cur - &pool[0]) : -1)((int)sub.size())((int)full));
  }
  mc::outcome(mc::str("ends with ", cur ? "matrix" : "none"));
}
template <class S, class Mat, Kind kd> struct Wrap {
  using M = Mat; static constexpr Kind kind = kd; static constexpr bool rejects = false, freeTwice = true; static constexpr double tol = 1e-9; using K = FieldOf<M>;
  std::unique_ptr<S> s; Wrap(bool) : s(new S()) {}
  void set(const M& m) { s->setMatrix(m); }
  bool setSub(const M& m, const std::set<std::size_t>& i) { s->setSubMatrix(m, i); return true; }
  bool ignore(const M&, std::vector<char>) { return false; }
  bool free() { s->free(); return true; }
  bool set0(const M&, const M&) { return false; }
  std::vector<K> apply(const std::vector<K>& b, int n, const std::vector<int>&, int) { typename S::domain_type x; typename S::range_type y; flat::make(x, n); flat::make(y, n); put(y, b); Res r; s->apply(x, y, r); okRes(r, "history"); return get(x); }
};

// building, using and destroying a solver repeatedly does not accumulate memory
extern "C" size_t __sanitizer_get_current_allocated_bytes();
template <class F> void noLeak(const char* what, F f) { f(); f(); size_t a = __sanitizer_get_current_allocated_bytes(); f(); f(); f(); size_t b = __sanitizer_get_current_allocated_bytes(); CHECK(b <= a, what, ": ", b - a, " bytes leaked in three uses"); mc::step(); }
template <class S, class M> void leak(mc::Chooser& c, Kind k, const char* what) {
  Quiet q; int n = c.range(1, 5, "n"), how = c(5, "how"); Sys<M> s(n, n, family(n, 0, true), 0, k), s2(2, 2, family(2, 0, true), 0, k); using X = typename Sys<M>::X;
  noLeak(what, [&] { X x(n), b(n); b = FieldOf<M>(1); Res r; S o; o.setMatrix(s.A); o.apply(x, b, r); if (how >= 1) o.setMatrix(s.A); if (how >= 2) o.setMatrix(s2.A); if (how >= 3) { if constexpr (requires { o.free(); }) o.free(); } if (how == 4) { o.setMatrix(s.A); o.apply(x, b, r); o.apply(x, b, r); } });
  if constexpr (requires { S(s.A); }) if (how == 0) noLeak(what, [&] { X x(n), b(n); b = FieldOf<M>(1); Res r; S o(s.A); o.apply(x, b, r); o.apply(x, b, r); });
}
#if defined(PART1A) || defined(PART1B) || defined(PART1C)   // ---------------------------------------------------------------- SuperLU
template <class Mat> struct WSuper : Wrap<Dune::SuperLU<Mat>, Mat, GENERAL> {
  static constexpr bool rejects = true, freeTwice = true; static constexpr double tol = std::is_same_v<typename RealOf<FieldOf<Mat>>::type, float> ? 1e-4 : 1e-9;
  bool reuse; WSuper(bool r) : Wrap<Dune::SuperLU<Mat>, Mat, GENERAL>(r), reuse(r) {}
  void set(const Mat& m) { if (reuse && !started) this->s.reset(new Dune::SuperLU<Mat>(m, false, true)); else this->s->setMatrix(m); started = true; }
  bool started = false;
};
template <class M> void super(mc::Chooser& c, int maxAll, std::vector<int> big, double tol = 1e-9) {
  Quiet q; int n; auto p = pattern(c, n, maxAll, big, GENERAL); int seed = c(4, "values"); Sys<M> s(n, n, p, seed, GENERAL, (n + seed) % buildModes); if (!regular(s.D)) throw mc::Skip{};
  NOTE("A=", show(s.D)); using S = Dune::SuperLU<M>; std::unique_ptr<S> o; int ctor = c(4, "ctor");
  if (ctor == 0) o.reset(new S(s.A)); else if (ctor == 1) o.reset(new S(s.A, true, false)); else if (ctor == 2) { Dune::ParameterTree t; t["verbose"] = "0"; t["reuseVector"] = c.flag("reuse") ? "true" : "false"; o.reset(new S(s.A, t)); } else { o.reset(new S()); o->setVerbosity(c.flag("verbose")); o->setMatrix(s.A); }
  CHECK(o->category() == Dune::SolverCategory::sequential && (int)o->nnz() == nnz(p) * Sys<M>::R * Sys<M>::Cc, "nnz ", o->nnz());
  solveAll<S, Sys<M>, FieldOf<M>>(c, *o, s, s.D, iota(n), "SuperLU", tol);
  CHECK(flatten(s.A) == s.D, "the matrix was changed");
}
#ifdef PART1A
UNIT(superlu_scalar) { super<BCRS<double>>(c, 3, {9}); }
UNIT(superlu_fm1) { super<BCRS<FM<double, 1>>>(c, 2, {10}); }
UNIT(superlu_fm2) { super<BCRS<FM<double, 2>>>(c, 2, {5}); }
UNIT(superlu_fm3) { super<BCRS<FM<double, 3>>>(c, 2, {4}); }
#endif
#ifdef PART1B
UNIT(superlu_cplx) { super<BCRS<C>>(c, 2, {7}); }
UNIT(superlu_cplx2) { super<BCRS<FM<C, 2>>>(c, 2, {4}); }
UNIT(superlu_float) { super<BCRS<FM<float, 1>>>(c, 2, {5}, 1e-4); }
UNIT(superlu_history) { Quiet q; history<WSuper<BCRS<double>>>(c, mc::thorough() ? 5 : 4); }
#endif
#ifdef PART1C
UNIT(superlu_history2) { Quiet q; history<WSuper<BCRS<FM<C, 2>>>>(c, mc::thorough() ? 4 : 3); }
UNIT(superlu_leak) { leak<Dune::SuperLU<BCRS<double>>, BCRS<double>>(c, SPD, "SuperLU"); }
UNIT(superlu_leak2) { leak<Dune::SuperLU<BCRS<FM<C, 2>>>, BCRS<FM<C, 2>>>(c, SPD, "SuperLU"); }
#endif
#endif
#if defined(PART2A) || defined(PART2B) || defined(PART2C)   // ---------------------------------------------------------------- UMFPack
template <class Mat> struct WUmf : Wrap<Dune::UMFPack<Mat>, Mat, GENERAL> {
  static constexpr bool rejects = true, freeTwice = true; using Wrap<Dune::UMFPack<Mat>, Mat, GENERAL>::Wrap;
  bool ignore(const Mat& m, std::vector<char> ig) { typename Dune::UMFPack<Mat>::domain_type t; flat::make(t, (int)ig.size()); Dune::BlockVector<Dune::FieldVector<char, Sys<Mat>::R>> bits(ig.size()); for (size_t i = 0; i < ig.size(); ++i) bits[i] = ig[i]; this->s->setMatrix(m, bits); return true; }
  bool set0(const Mat& e, const Mat&) { this->s->setMatrix(e); return true; }
};
template <class M> void umf(mc::Chooser& c, int maxAll, std::vector<int> big) {
  Quiet q; int n; auto p = pattern(c, n, maxAll, big, GENERAL); int seed = c(4, "values"); Sys<M> s(n, n, p, seed, GENERAL, (n + seed) % buildModes); if (!regular(s.D)) throw mc::Skip{};
  NOTE("A=", show(s.D)); using S = Dune::UMFPack<M>; std::unique_ptr<S> o; int ctor = c(5, "ctor");
  if (ctor == 0) o.reset(new S(s.A)); else if (ctor == 1) o.reset(new S(s.A, 1)); else if (ctor == 2) { Dune::ParameterTree t; t["verbose"] = "0"; o.reset(new S(s.A, t)); } else if (ctor == 3) o.reset(new S(s.A, 0, true)); else { o.reset(new S()); o->setVerbosity(0); o->setOption(UMFPACK_IRSTEP, c.flag("refine") ? 2 : 0); o->setMatrix(s.A); }
  CHECK(o->category() == Dune::SolverCategory::sequential, "category");
  bool thrown = false; try { o->setOption(UMFPACK_CONTROL, 1); } catch (Dune::RangeError&) { thrown = true; } CHECK(thrown, "an option that does not exist was accepted");
  solveAll<S, Sys<M>, FieldOf<M>>(c, *o, s, s.D, iota(n), "UMFPack");
  CHECK(flatten(s.A) == s.D, "the matrix was changed");
}
#ifdef PART2A
UNIT(umfpack_scalar) { umf<BCRS<double>>(c, 3, {9}); }
UNIT(umfpack_fm1) { umf<BCRS<FM<double, 1>>>(c, 2, {10}); }
UNIT(umfpack_fm2) { umf<BCRS<FM<double, 2>>>(c, 2, {5}); }
UNIT(umfpack_cplx) { umf<BCRS<C>>(c, 2, {7}); }
UNIT(umfpack_cplx2) { umf<BCRS<FM<C, 2>>>(c, 2, {4}); }
#endif
#ifdef PART2B
UNIT(umfpack_nested) { umf<BCRS<BCRS<double>>>(c, 2, {3}); }
UNIT(umfpack_nested2) { umf<BCRS<BCRS<FM<double, 2>>>>(c, 2, {3}); }
UNIT(umfpack_history) { Quiet q; history<WUmf<BCRS<FM<double, 1>>>>(c, mc::thorough() ? 5 : 4); }
UNIT(umfpack_history2) { Quiet q; history<WUmf<BCRS<FM<C, 2>>>>(c, mc::thorough() ? 4 : 3); }
#endif
// every set of ignored scalar components
UNIT(umfpack_ignore) {
  Quiet q; using M = BCRS<FM<double, 2>>; int n = c.range(1, mc::thorough() ? 4 : 3, "n"); Sys<M> s(n, n, family(n, c(4, "kind"), false), c(2, "values"), GENERAL); auto ig = c.mask(2 * n, "ignored");
  std::vector<int> keep; Dune::BlockVector<Dune::FieldVector<char, 2>> bits(n); for (int i = 0; i < 2 * n; ++i) { bits[i / 2][i % 2] = ig >> i & 1; if (!(ig >> i & 1)) keep.push_back(i); }
  auto Dr = restrict_(s.D, keep); if (!keep.empty() && !regular(Dr)) throw mc::Skip{};
  Dune::UMFPack<M> o; if (c.flag("before")) o.setMatrix(s.A); o.setMatrix(s.A, bits);
  if (keep.empty()) return;
  auto b = rhs<double>((int)keep.size(), 0), x = b, bb = b; o.apply(x.data(), bb.data()); mc::step(); exact(Dr, b, x, "UMFPack with ignored components");
  Dune::BlockVector<Dune::FieldVector<double, 2>> X, Y; Res r;
  if (keep.size() % 2 == 0) { X.resize(keep.size() / 2); Y.resize(keep.size() / 2); put(Y, b); X = 0; o.apply(X, Y, r); exact(Dr, b, get(X), "UMFPack with ignored components"); }
  mc::state(mc::Hash()(n)((int)ig));
}
// decomposition saved to and loaded from a file; the file may be cut anywhere (crash while writing)
template <class M> void file(mc::Chooser& c) {
  Quiet q; using K = FieldOf<M>; using S = Dune::UMFPack<M>; int n = mc::thorough() ? c.range(1, 4, "n") : 1 + 2 * c(2, "n"); Sys<M> s(n, n, family(n, 0, false), 0, GENERAL), s2(n, n, family(n, 0, false), 1, GENERAL); if (!regular(s.D)) throw mc::Skip{};
  char dir[] = "/dev/shm/c10XXXXXX"; if (!mkdtemp(dir)) mc::fail("mkdtemp"); std::string f = std::string(dir) + "/lu"; struct Rm { std::string f, d; ~Rm() { unlink(f.c_str()); rmdir(d.c_str()); } } rm{f, dir};
  if (c.flag("by ctor")) { S w(s.A, f.c_str()); auto b = rhs<K>(s.D.n, 0), x = b, bb = b; w.apply(x.data(), bb.data()); exact(s.D, b, x, "UMFPack(matrix, new file)"); } else { S w(s.A); w.saveDecomposition(f.c_str()); }
  std::string bytes; { std::ifstream in(f, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); bytes = ss.str(); } CHECK(!bytes.empty(), "nothing was saved");
  int cut = c(5, "cut"), at = -1;
  if (cut) { at = cut == 1 ? 0 : cut == 2 ? (int)bytes.size() - 1 : cut == 3 ? c((int)std::min<size_t>(bytes.size(), 80), "at") : (int)(bytes.size() * (1 + c(mc::thorough() ? 63 : 31, "part")) / (mc::thorough() ? 64 : 32)); std::ofstream(f, std::ios::binary | std::ios::trunc) << bytes.substr(0, at); }
  int how = c(3, "load"); const Sys<M>* cur = &s; std::unique_ptr<S> o;
  if (how == 0) o.reset(new S(s.A, f.c_str()));
  else try { o.reset(new S(f.c_str())); CHECK(!cut, "a file cut at byte ", at, " of ", bytes.size(), " was loaded"); } catch (Dune::Exception& e) { CHECK(cut, "loading failed: ", e.what()); return; }
  if (how == 2) { o->setMatrix(s2.A); if (!regular(s2.D)) throw mc::Skip{}; cur = &s2; }
  solveAll<S, Sys<M>, K>(c, *o, *cur, cur->D, iota(n), mc::str("UMFPack with file cut at ", at));
  if (how == 1) { o->free(); }
  mc::state(mc::Hash()(n)(at)(how)); mc::outcome(mc::str("cut ", cut, " how ", how));
}
#ifdef PART2B
UNIT(umfpack_file) { file<BCRS<FM<double, 1>>>(c); }
#endif
#ifdef PART2C
UNIT(umfpack_file_cplx) { file<BCRS<FM<C, 2>>>(c); }
UNIT(umfpack_file_missing) { Quiet q; char dir[] = "/dev/shm/c10XXXXXX"; if (!mkdtemp(dir)) mc::fail("mkdtemp"); std::string f = std::string(dir) + "/none"; bool t = false; try { Dune::UMFPack<BCRS<double>> o(f.c_str(), c(2, "verbose")); } catch (Dune::Exception&) { t = true; } rmdir(dir); CHECK(t, "loading a missing file succeeded"); mc::step(); }
#endif
// multi-type systems
UNIT(umfpack_multitype) {
  Quiet q; using A11 = BCRS<FM<double, 2>>; using A12 = BCRS<FM<double, 2, 1>>; using A21 = BCRS<FM<double, 1, 2>>; using A22 = BCRS<FM<double, 1>>;
  using R0 = Dune::MultiTypeBlockVector<A11, A12>; using R1 = Dune::MultiTypeBlockVector<A21, A22>; using MT = Dune::MultiTypeBlockMatrix<R0, R1>; using namespace Dune::Indices;
  int n = c.range(1, 2, "n"), m = c.range(1, mc::thorough() ? 3 : 2, "m"); MT A; Dense<double> D(2 * n + m, 2 * n + m); int seed = c(3, "values");
  auto setup = [&](auto& B, int r, int cc, int ro, int co, unsigned mask) { auto p = patternOf(r, cc, mask); buildPattern(B, r, cc, p); auto E = fill(B, r, cc, p, [&](int i, int j) { return ro == co && i == j ? 40.0 + i : val<double>((unsigned)(i * 31 + j * 17 + ro * 7 + co * 3 + seed * 57)); }); for (int i = 0; i < E.n; ++i) for (int j = 0; j < E.m; ++j) D(ro + i, co + j) = E(i, j); };
  setup(A[_0][_0], n, n, 0, 0, (1u << (n * n)) - 1); setup(A[_0][_1], n, m, 0, 2 * n, c.mask(n * m, "upper")); setup(A[_1][_0], m, n, 2 * n, 0, c.mask(n * m, "lower")); unsigned d = 0; for (int i = 0; i < m; ++i) d |= 1u << (i * m + i); if (c.flag("full")) d = (1u << (m * m)) - 1; setup(A[_1][_1], m, m, 2 * n, 2 * n, d);
  if (!regular(D)) throw mc::Skip{};
  Dune::MultiTypeBlockVector<Dune::BlockVector<Dune::FieldVector<double, 2>>, Dune::BlockVector<Dune::FieldVector<double, 1>>> x, b; x[_0].resize(n); b[_0].resize(n); x[_1].resize(m); b[_1].resize(m);
  Dune::UMFPack<MT> S(A); for (int k = 0; k < 2; ++k) {
    auto bf = rhs<double>(2 * n + m, k); for (int i = 0; i < 2 * n; ++i) b[_0][i / 2][i % 2] = bf[i]; for (int i = 0; i < m; ++i) b[_1][i][0] = bf[2 * n + i]; x[_0] = 3; x[_1] = 4;
    Res r; S.apply(x, b, r); okRes(r, "multitype"); std::vector<double> xf; for (int i = 0; i < 2 * n; ++i) xf.push_back(x[_0][i / 2][i % 2]); for (int i = 0; i < m; ++i) xf.push_back(x[_1][i][0]); exact(D, bf, xf, "UMFPack multi-type"); mc::step(); mc::state(mc::Hash()(n)(m)(show(xf)));
  }
}
#ifdef PART2C
UNIT(umfpack_leak) { leak<Dune::UMFPack<BCRS<double>>, BCRS<double>>(c, SPD, "UMFPack"); }
UNIT(umfpack_leak2) { leak<Dune::UMFPack<BCRS<FM<C, 2>>>, BCRS<FM<C, 2>>>(c, SPD, "UMFPack"); }
#endif
#endif
#if defined(PART3A) || defined(PART3B)   // ---------------------------------------------------------------- LDL, CHOLMOD
template <class Mat> struct WLDL : Wrap<Dune::LDL<Mat>, Mat, SYM> { using Wrap<Dune::LDL<Mat>, Mat, SYM>::Wrap; };
template <class M> void ldl(mc::Chooser& c, int maxAll, std::vector<int> big) {
  Quiet q; int n; auto p = pattern(c, n, maxAll, big, SYM); int seed = c(2, "values"); Sys<M> s(n, n, p, seed, SYM, (n + seed) % buildModes); if (!regular(s.D)) throw mc::Skip{};
  NOTE("A=", show(s.D)); using S = Dune::LDL<M>; std::unique_ptr<S> o; int ctor = c(4, "ctor");
  if (ctor == 0) o.reset(new S(s.A)); else if (ctor == 1) o.reset(new S(s.A, 0, true)); else if (ctor == 2) { Dune::ParameterTree t; t["verbose"] = "0"; o.reset(new S(s.A, t)); } else { o.reset(new S()); o->setVerbosity(0); o->setMatrix(s.A); }
  solveAll<S, Sys<M>, FieldOf<M>>(c, *o, s, s.D, iota(n), "LDL"); CHECK(flatten(s.A) == s.D, "the matrix was changed");
}
#ifdef PART3A
UNIT(ldl_fm1) { ldl<BCRS<FM<double, 1>>>(c, 4, {9}); }
UNIT(ldl_fm2) { ldl<BCRS<FM<double, 2>>>(c, 3, {6}); }
UNIT(ldl_fm3) { ldl<BCRS<FM<double, 3>>>(c, 2, {4}); }
UNIT(ldl_history) { Quiet q; history<WLDL<BCRS<FM<double, 1>>>>(c, mc::thorough() ? 5 : 4); }
UNIT(ldl_history2) { Quiet q; history<WLDL<BCRS<FM<double, 2>>>>(c, mc::thorough() ? 4 : 3); }
#endif
// a zero pivot (exact arithmetic) is reported, and the object can be used again afterwards
UNIT(ldl_singular) {
  Quiet q; using M = BCRS<FM<double, 1>>; int n = c.range(1, 4, "n"), z = c(n, "zero"), kind = c(2, "kind"); M A; auto p = family(n, 0, true); buildPattern(A, n, n, p);
  for (auto r = A.begin(); r != A.end(); ++r) for (auto e = r->begin(); e != r->end(); ++e) *e = (int)e.index() == (int)r.index() ? ((int)r.index() == z ? 0. : 2. + r.index()) : (kind && (int)r.index() != z && (int)e.index() != z ? 0.25 : 0.);
  bool t = false; try { Dune::LDL<M> o(A); } catch (Dune::InvalidStateException&) { t = true; } CHECK(t, "LDL accepted a singular matrix");
  Dune::LDL<M> o; t = false; try { o.setMatrix(A); } catch (Dune::InvalidStateException&) { t = true; } CHECK(t, "LDL::setMatrix accepted a singular matrix");
  Sys<M> s(3, 3, family(3, 0, true), 0, SYM); o.setMatrix(s.A); mc::step(); solveAll<Dune::LDL<M>, Sys<M>, double>(c, o, s, s.D, iota(3), "LDL after a failure");
}
template <class Mat, class Idx = int> struct WChol {
  using M = Mat; static constexpr Kind kind = SPD; static constexpr bool rejects = false, freeTwice = true; using K = FieldOf<M>; static constexpr double tol = std::is_same_v<K, float> ? 1e-4 : 1e-9;
  using X = typename Sys<M>::X; using S = Dune::Cholmod<X, Idx>; std::unique_ptr<S> s; std::vector<char> ig; WChol(bool) : s(new S()) {}
  void set(const M& m) { s->setMatrix(m); ig.clear(); }
  bool setSub(const M&, const std::set<std::size_t>&) { return false; }
  bool ignore(const M& m, std::vector<char> g) { ig = g; Dune::BlockVector<Dune::FieldVector<char, Sys<M>::R>> bits(ig.size()); for (size_t i = 0; i < ig.size(); ++i) bits[i] = ig[i]; s->setMatrix(m, &bits); return true; }
  bool free() { return false; }
  bool set0(const M&, const M& m) { ignore(m, std::vector<char>(m.N(), 1)); X x(m.N()), b(m.N()); x = 3; b = 1; Res r; s->apply(x, b, r); for (auto& e : get(x)) CHECK(e == K(3), "ignored entry changed"); return true; }
  std::vector<K> apply(const std::vector<K>& b, int, const std::vector<int>& sub, int n) { X x(n), y(n); x = 77; y = 55; constexpr int R = Sys<M>::R; for (size_t k = 0; k < b.size(); ++k) y[sub[k / R]][k % R] = b[k]; Res r; s->apply(x, y, r); okRes(r, "Cholmod"); std::vector<K> res; for (size_t k = 0; k < b.size(); ++k) { res.push_back(x[sub[k / R]][k % R]); x[sub[k / R]][k % R] = 77; } for (auto& e : get(x)) CHECK(e == K(77), "an ignored entry was changed"); return res; }
};
template <class M, class Idx> void chol(mc::Chooser& c, int maxAll, std::vector<int> big, double tol = 1e-9) {
  Quiet q; int n; auto p = pattern(c, n, maxAll, big, SPD); int seed = c(2, "values"); Sys<M> s(n, n, p, seed, SPD, (n + seed) % buildModes); if (!regular(s.D)) throw mc::Skip{};
  for (int i = 0; i < s.D.n; ++i) { double r = 0; for (int j = 0; j < s.D.m; ++j) if (j != i) r += std::abs(s.D(i, j)); if (r >= s.D(i, i)) throw mc::Skip{}; }   // SPD by dominance
  using X = typename Sys<M>::X; using S = Dune::Cholmod<X, Idx>; struct SS : S { using domain_type = X; using range_type = X; } o; if (c.flag("supernodal")) o.cholmodCommonObject().supernodal = CHOLMOD_SUPERNODAL; o.setMatrix(s.A);
  solveAll<SS, Sys<M>, FieldOf<M>, false>(c, o, s, s.D, iota(n), "Cholmod", tol); CHECK((int)o.cholmodFactor().n == s.D.n, "factor size");
  X x(n), b(n + 1); bool t = false; Res r; try { o.apply(x, b, r); } catch (Dune::Exception&) { t = true; } CHECK(t, "vectors of different size were accepted");
}
#ifdef PART3A
UNIT(cholmod_fm1) { chol<BCRS<FM<double, 1>>, int>(c, 4, {8}); }
UNIT(cholmod_fm2) { chol<BCRS<FM<double, 2>>, int>(c, 3, {4}); }
UNIT(cholmod_long) { chol<BCRS<FM<double, 1>>, SuiteSparse_long>(c, 3, {8}); }
#endif
#ifdef PART3B
UNIT(cholmod_float) { chol<BCRS<FM<float, 1>>, int>(c, 3, {6}, 1e-4); }
UNIT(cholmod_nested) { using M = BCRS<FM<double, 3>>; chol<M, int>(c, 2, {3}); }
UNIT(cholmod_history) { Quiet q; history<WChol<BCRS<FM<double, 1>>>>(c, mc::thorough() ? 5 : 4); }
UNIT(cholmod_history2) { Quiet q; history<WChol<BCRS<FM<double, 2>>, SuiteSparse_long>>(c, mc::thorough() ? 5 : 4); }
#endif
// every set of ignored scalar components
UNIT(cholmod_ignore) {
  using M = BCRS<FM<double, 2>>; int n = c.range(1, mc::thorough() ? 4 : 3, "n"); Sys<M> s(n, n, family(n, c(4, "kind"), true), 0, SPD); auto ig = c.mask(2 * n, "ignored"); using X = Sys<M>::X;
  std::vector<int> keep; Dune::BlockVector<Dune::FieldVector<char, 2>> bits(n); for (int i = 0; i < 2 * n; ++i) { bits[i / 2][i % 2] = ig >> i & 1; if (!(ig >> i & 1)) keep.push_back(i); }
  auto Dr = restrict_(s.D, keep); Dune::Cholmod<X> o; o.setMatrix(s.A, &bits); X x(n), b(n); auto xf = rhs<double>(2 * n, 0), bf = rhs<double>(2 * n, 0); for (auto& v : bf) v = 2 * v + 1; put(x, xf); put(b, bf); Res r; o.apply(x, b, r); mc::step();
  auto g = get(x); std::vector<double> gr, br; for (int i : keep) { gr.push_back(g[i]); br.push_back(bf[i]); }
  for (int i = 0; i < 2 * n; ++i) if (ig >> i & 1) CHECK(g[i] == xf[i], "ignored entry ", i, " of x was changed"); CHECK(get(b) == bf, "b was changed");
  if (!keep.empty()) exact(Dr, br, gr, "Cholmod with ignored components"); mc::state(mc::Hash()(n)((int)ig));
}
#ifdef PART3B
UNIT(ldl_leak) { leak<Dune::LDL<BCRS<FM<double, 2>>>, BCRS<FM<double, 2>>>(c, SPD, "LDL"); }
UNIT(ldl_leak_fail) { Quiet q; using M = BCRS<FM<double, 1>>; M A; buildPattern(A, 2, 2, family(2, 0, true)); A = 0; noLeak("LDL of a singular matrix", [&] { try { Dune::LDL<M> o(A); mc::fail("accepted"); } catch (Dune::InvalidStateException&) {} }); (void)c; }
UNIT(cholmod_leak) { leak<Dune::Cholmod<Sys<BCRS<FM<double, 2>>>::X>, BCRS<FM<double, 2>>>(c, SPD, "Cholmod"); }
#endif
#endif
#if defined(PART4A) || defined(PART4B)   // ---------------------------------------------------------------- SPQR
template <class Mat> struct WQR : Wrap<Dune::SPQR<Mat>, Mat, GENERAL> { using Wrap<Dune::SPQR<Mat>, Mat, GENERAL>::Wrap; };
template <class M> void spqr(mc::Chooser& c, int maxAll, std::vector<int> big) {
  Quiet q; int n; auto p = pattern(c, n, maxAll, big, GENERAL); int seed = c(4, "values"); Sys<M> s(n, n, p, seed, GENERAL, (n + seed) % buildModes); if (!regular(s.D)) throw mc::Skip{};
  NOTE("A=", show(s.D)); using S = Dune::SPQR<M>; std::unique_ptr<S> o; int ctor = c(4, "ctor");
  if (ctor == 0) o.reset(new S(s.A)); else if (ctor == 1) o.reset(new S(s.A, 0, true)); else if (ctor == 2) { Dune::ParameterTree t; t["verbose"] = "0"; o.reset(new S(s.A, t)); } else { o.reset(new S()); o->setVerbosity(0); o->setMatrix(s.A); }
  solveAll<S, Sys<M>, FieldOf<M>, false>(c, *o, s, s.D, iota(n), "SPQR"); CHECK(flatten(s.A) == s.D, "the matrix was changed");
}
#ifdef PART4A
UNIT(spqr_fm1) { spqr<BCRS<FM<double, 1>>>(c, 3, {8}); }
UNIT(spqr_fm2) { spqr<BCRS<FM<double, 2>>>(c, 2, {4}); }
UNIT(spqr_cplx) { spqr<BCRS<FM<C, 1>>>(c, 2, {6}); }
UNIT(spqr_cplx2) { spqr<BCRS<FM<C, 2>>>(c, 2, {4}); }
UNIT(spqr_history) { Quiet q; history<WQR<BCRS<FM<double, 1>>>>(c, mc::thorough() ? 5 : 4); }
UNIT(spqr_history2) { Quiet q; history<WQR<BCRS<FM<C, 2>>>>(c, mc::thorough() ? 4 : 3); }
#endif
template <class M> void rect(mc::Chooser& c) {
  Quiet q; using K = FieldOf<M>; int m = c.range(1, 3, "cols"), n = m + c.range(0, 3, "extra rows"); Pattern p(n); unsigned kind = c(4, "kind");
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (i == j || kind == 0 || (kind == 1 && (i + j) % 2) || (kind == 2 && i >= m) || (kind == 3 && j == 0)) p[i].push_back(j);
  Sys<M> s(n, m, p, c(3, "values") % 2, GENERAL); auto G = mul(trans(s.D, true), s.D); if (!regular(G)) throw mc::Skip{};
  Dune::SPQR<M> o(s.A); for (int k = 0; k < 2; ++k) { typename Sys<M>::X x(m); typename Sys<M>::Y b(n); auto bf = rhs<K>(s.D.n, k); put(b, bf); x = K(7); Res r; o.apply(x, b, r); okRes(r, "SPQR"); mc::step(); leastSquares(s.D, bf, get(x), "SPQR least squares"); mc::state(mc::Hash()(n)(m)(show(get(x)))); }
}
#ifdef PART4B
UNIT(spqr_least_squares) { rect<BCRS<FM<double, 1>>>(c); }
UNIT(spqr_least_squares21) { rect<BCRS<FM<double, 2, 1>>>(c); }
UNIT(spqr_least_squares_cplx) { rect<BCRS<FM<C, 2, 1>>>(c); }
UNIT(spqr_leak) { leak<Dune::SPQR<BCRS<FM<double, 2>>>, BCRS<FM<double, 2>>>(c, SPD, "SPQR"); }
UNIT(spqr_leak_cplx) { leak<Dune::SPQR<BCRS<FM<C, 1>>>, BCRS<FM<C, 1>>>(c, SPD, "SPQR"); }
#endif
#endif
#ifdef PART5   // ---------------------------------------------------------------- block diagonal and tridiagonal
template <class B> void btd(mc::Chooser& c) {
  using K = typename Blk<B>::F; int n = c.range(1, mc::thorough() ? 7 : 5, "n"); constexpr int R = Blk<B>::R; int seed = c(5, "values"); Dune::BTDMatrix<B> A(n); Dense<K> D(n * R, n * R);
  for (int i = 0; i < n; ++i) for (int j = std::max(0, i - 1); j <= std::min(n - 1, i + 1); ++j) { Blk<B>::set(A[i][j], [&](int k, int l) { return i == j && k == l ? num<K>(60 + i, 0) : (seed == 4 && i != j) ? K(0) : val<K>((unsigned)(i * 31 + j * 7 + k * 3 + l + seed * 91)); }); for (int k = 0; k < R; ++k) for (int l = 0; l < R; ++l) D(i * R + k, j * R + l) = Blk<B>::get(A[i][j], k, l); }
  if (!regular(D)) throw mc::Skip{};
  for (int k = 0; k < 3; ++k) { Dune::BlockVector<typename VecFor<B>::row> x(n), b(n); auto bf = rhs<K>(n * R, k); put(b, bf); x = K(9); A.solve(x, b); mc::step(); exact(D, bf, get(x), "BTDMatrix::solve"); CHECK(get(b) == bf, "rhs changed"); mc::state(mc::Hash()(n)(show(get(x)))); }
}
UNIT(btd_double) { btd<double>(c); }
UNIT(btd_fm2) { btd<FM<double, 2>>(c); }
UNIT(btd_cplx) { btd<FM<C, 2>>(c); }
template <class B> void bd(mc::Chooser& c) {
  using K = typename Blk<B>::F; int n = c.range(1, mc::thorough() ? 6 : 4, "n"); constexpr int R = Blk<B>::R; int seed = c(6, "values"); Dune::BDMatrix<B> A(n); Dense<K> D(n * R, n * R);
  for (int i = 0; i < n; ++i) { Blk<B>::set(A[i][i], [&](int k, int l) { return val<K>((unsigned)(i * 31 + k * 3 + l + seed * 91)); }); for (int k = 0; k < R; ++k) for (int l = 0; l < R; ++l) D(i * R + k, i * R + l) = Blk<B>::get(A[i][i], k, l); }
  if (!regular(D)) throw mc::Skip{};
  Dune::BlockVector<typename VecFor<B>::row> x(n), b(n); auto bf = rhs<K>(n * R, 0); put(b, bf); x = K(9); A.solve(x, b); mc::step(); exact(D, bf, get(x), "BDMatrix::solve"); CHECK(get(b) == bf, "rhs changed");
  A.invert(); x = K(1); A.mv(b, x); exact(D, bf, get(x), "BDMatrix::invert"); mc::state(mc::Hash()(n)(show(get(x))));
}
UNIT(bd_double) { bd<double>(c); }
UNIT(bd_fm2) { bd<FM<double, 2>>(c); }
UNIT(bd_cplx) { bd<FM<C, 2>>(c); }
#endif
