// Overlapping Schwarz: every mode, subdomain solver, family of subdomains and pattern against a flat reference.
#include "mc.hh"
#include "flat.hh"
#include <dune/istl/overlappingschwarz.hh>
#include <dune/istl/preconditioners.hh>
using namespace flat;
using C = std::complex<double>;
template <class K, int N> using FM = Dune::FieldMatrix<K, N, N>;
using Doms = std::vector<std::vector<int>>;
enum Mode { Add, Mult, Sym };
template <int m> struct ModeTag; template <> struct ModeTag<Add> { using type = Dune::AdditiveSchwarzMode; }; template <> struct ModeTag<Mult> { using type = Dune::MultiplicativeSchwarzMode; }; template <> struct ModeTag<Sym> { using type = Dune::SymmetricMultiplicativeSchwarzMode; };
enum Kind { Ilu0, Ilun, Dyn, Slu, Umf };
template <int k, class M, class X> struct KindTag;
template <class M, class X> struct KindTag<Ilu0, M, X> { using type = Dune::ILU0SubdomainSolver<M, X, X>; };
template <class M, class X> struct KindTag<Ilun, M, X> { using type = Dune::ILUNSubdomainSolver<M, X, X>; };
template <class M, class X> struct KindTag<Dyn, M, X> { using type = Dune::DynamicMatrixSubdomainSolver<M, X, X>; };
template <class M, class X> struct KindTag<Slu, M, X> { using type = Dune::SuperLU<M>; };
template <class M, class X> struct KindTag<Umf, M, X> { using type = Dune::UMFPack<M>; };
template <class K> K entry(int i, int j, int seed) { return i == j ? num<K>(seed ? -37 - i : 31 + 2 * i, seed ? 11 : 3) : (i * 5 + j * 3 + seed) % 7 == 0 ? K(0) : val<K>((unsigned)(i * 37 + j * 11 + seed * 101 + 5)); }
// local solve by the reference: exact, or the incomplete factorization of the local matrix (by the sequential preconditioner on an explicit copy)
template <int kind, class M, class X, class F> std::vector<F> localSolve(const Dense<F>& D, const Pattern& p, const std::vector<int>& dom, int R, const std::vector<F>& r) {
  int n = (int)dom.size();
  if (kind == Ilu0 || kind == Ilun) {
    Pattern q(n); int band = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (std::count(p[dom[i]].begin(), p[dom[i]].end(), dom[j])) { q[i].push_back(j); band = std::max(band, std::abs(i - j)); }
    M L; buildPattern(L, n, n, q); fill(L, n, n, q, [&](int i, int j) { return D(dom[i / R] * R + i % R, dom[j / R] * R + j % R); });
    X v(n), d(n); v = 0; put(d, r);
    if (kind == Ilu0) Dune::SeqILU<M, X, X>(L, 1.0).apply(v, d); else Dune::SeqILU<M, X, X>(L, (band + 1) / 2, 1.0).apply(v, d);
    return get(v);
  }
  Dense<F> L(n * R, n * R); for (int i = 0; i < n * R; ++i) for (int j = 0; j < n * R; ++j) L(i, j) = D(dom[i / R] * R + i % R, dom[j / R] * R + j % R);
  std::vector<F> y; if (!flat::solve(L, r, y)) throw mc::Skip{}; return y;
}
template <int kind, class M, class X, class F> void sweep(bool additive, bool forward, const Dense<F>& D, const Pattern& p, const Doms& doms, int R, F relax, std::vector<F>& x, const std::vector<F>& b) {
  auto x0 = x; auto upd = std::vector<F>(x.size(), F(0));
  for (int s = 0; s < (int)doms.size(); ++s) {
    auto& dom = doms[forward ? s : doms.size() - 1 - s]; auto Ax = matvec(D, additive ? x0 : x); std::vector<F> r;
    for (int g : dom) for (int k = 0; k < R; ++k) r.push_back(b[g * R + k] - Ax[g * R + k]);
    auto y = localSolve<kind, M, X>(D, p, dom, R, r); int a = 0;
    for (int g : dom) for (int k = 0; k < R; ++k, ++a) if (additive) upd[g * R + k] += y[a]; else x[g * R + k] += relax * y[a];
  }
  if (additive) for (size_t i = 0; i < x.size(); ++i) x[i] += relax * upd[i];
}
template <int kind, int mode, class M> void check(mc::Chooser& c, M& A, const Dense<FieldOf<M>>& D, const Pattern& p, const Doms& doms, bool lists, int listOrder, FieldOf<M> relax, bool fly, int seed) {
  using F = FieldOf<M>; using X = Dune::BlockVector<typename VecFor<typename M::block_type>::row>; constexpr int R = Blk<typename M::block_type>::R;
  using S = Dune::SeqOverlappingSchwarz<M, X, typename ModeTag<mode>::type, typename KindTag<kind, M, X>::type>;
  int n = (int)p.size(); std::unique_ptr<S> s;
  if (lists) {
    typename S::rowtodomain_vector r(n);
    for (int i = 0; i < n; ++i) { std::vector<int> in; for (int d = 0; d < (int)doms.size(); ++d) if (std::count(doms[d].begin(), doms[d].end(), i)) in.push_back(d); if (listOrder) std::reverse(in.begin(), in.end()); for (int d : in) r[i].push_back(d); }
    s = std::make_unique<S>(A, r, relax, fly);
  } else {
    typename S::subdomain_vector v(doms.size()); for (size_t d = 0; d < doms.size(); ++d) for (int i : doms[d]) v[d].insert(i);
    s = std::make_unique<S>(A, v, relax, fly);
  }
  CHECK(s->category() == Dune::SolverCategory::sequential, "category");
  X x(n), b(n); std::vector<F> xf(n * R), bf(n * R); for (int i = 0; i < n * R; ++i) { xf[i] = val<F>(i * 7 + 3 + seed); bf[i] = val<F>(i * 13 + 5 + seed); }
  put(x, xf); put(b, bf); s->pre(x, b); auto A0 = flatten(A);
  for (int rep = 0; rep < 2; ++rep) {
    s->apply(x, b); mc::step();
    if (mode == Add) sweep<kind, M, X>(true, true, D, p, doms, R, relax, xf, bf);
    else { sweep<kind, M, X>(false, true, D, p, doms, R, relax, xf, bf); if (mode == Sym) sweep<kind, M, X>(false, false, D, p, doms, R, relax, xf, bf); }
    auto got = get(x); for (int i = 0; i < n * R; ++i) CHECK(mc::close(got[i], xf[i], 100, 1e-8), "apply ", rep, " entry ", i, " is ", got[i], " instead of ", xf[i], " pattern ", show(p));
    CHECK(get(b) == bf, "the right hand side changed");
    for (int i = 0; i < n * R; ++i) { xf[i] = got[i]; if (rep == 0) bf[i] = val<F>(i * 17 + 9); } put(b, bf);
  }
  s->post(x); CHECK(flatten(A).a == A0.a, "the matrix changed");
}
static std::string showDoms(const Doms& d) { std::string s; for (auto& v : d) { s += "{"; for (int i : v) s += mc::str(i, " "); s += "}"; } return s; }
// all sequences of up to maxd non-empty subdomains that cover all rows
static Doms domains(mc::Chooser& c, int n, int maxd) {
  int k = c.range(1, maxd, "subdomains"); Doms d(k); unsigned all = 0;
  for (auto& v : d) { unsigned m = 1 + c((1 << n) - 1, "subdomain"); all |= m; for (int i = 0; i < n; ++i) if (m >> i & 1) v.push_back(i); }
  if (all != (1u << n) - 1) throw mc::Skip{};
  return d;
}
template <int kind, class M> void run(mc::Chooser& c, int maxAll, int maxd, int big) {
  using F = FieldOf<M>; int nb = 3;
  int n = c.range(1, maxAll + (big ? nb : 0), "n"); Pattern p(n); Doms doms; int tie = -1;
  if (n <= maxAll) {
    unsigned m = c.mask(n * n - n, "pattern"); int b = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i == j || (m >> b++ & 1)) p[i].push_back(j);
    doms = domains(c, n, n > 2 ? maxd : 3);
  } else {
    n = n == maxAll + 1 ? big - 1 : n == maxAll + 2 ? big : 2 * big + 1; p.assign(n, {}); int kd = c(4, "kind");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (int d = std::abs(i - j); d == 0 || (kd == 0 && d == 1) || (kd == 1 && (d == 1 || d == 3)) || (kd == 2 && (i == n - 1 || j == 0)) || (kd == 3 && (i * 7 + j * 3) % 4 == 0)) p[i].push_back(j);
    int fam = c(5, "family"), w = c.range(1, 3, "width"); if (!mc::thorough()) tie = kd + fam + w;   // overlapping windows, interleaved, all rows once plus singles, of increasing and decreasing size
    if (fam == 0) for (int a = 0; a < n; a += w) { doms.emplace_back(); for (int i = std::max(0, a - 1); i < std::min(n, a + w + 1); ++i) doms.back().push_back(i); }
    if (fam == 1) for (int a = 0; a < w + 1; ++a) { doms.emplace_back(); for (int i = a; i < n; i += w + 1) doms.back().push_back(i); }
    if (fam == 2) { for (int i = 0; i < n; ++i) doms.push_back({i}); doms.emplace_back(); for (int i = 0; i < n; i += w) doms.back().push_back(i); }
    if (fam == 3) for (int a = 0; a < n; a += w) { doms.emplace_back(); for (int i = 0; i <= a || (a + w >= n && i < n); ++i) doms.back().push_back(i); }
    if (fam == 4) for (int a = 0; a < n; a += w) { doms.emplace_back(); for (int i = a; i < n; ++i) doms.back().push_back(i); }
  }
  int mode = c(3, "mode"); bool few = !mc::thorough() && n == maxAll && n > 1; bool fly = c.flag("on the fly"); int lists = few ? 2 * !fly : c(3, "constructor"); if (kind == Dyn) fly = true;
  int rl = few ? (fly ? 1 : 2) : tie >= 0 ? tie % 3 : c(3, "relax"); F relax = rl == 0 ? F(1) : rl == 1 ? F(0.625) : F(-0.375); int seed = tie >= 0 ? tie % 2 : n > maxAll || n < 3 ? c(2, "values") : 0;
  NOTE("subdomains ", showDoms(doms), " pattern ", flat::show(p));
  M A; buildPattern(A, n, n, p); auto D = fill(A, n, n, p, [&](int i, int j) { return entry<F>(i, j, seed); });
  mc::state(mc::Hash()(n)(mode)(fly)(lists)); mc::outcome(mc::str("mode", mode, fly ? " fly" : "", " lists", lists));
  if (mode == Add) check<kind, Add>(c, A, D, p, doms, lists > 0, lists == 2, relax, fly, seed); else if (mode == Mult) check<kind, Mult>(c, A, D, p, doms, lists > 0, lists == 2, relax, fly, seed); else check<kind, Sym>(c, A, D, p, doms, lists > 0, lists == 2, relax, fly, seed);
}
template <class K, int N = 0> struct Mt { using type = Dune::BCRSMatrix<FM<K, N>>; }; template <class K> struct Mt<K, 0> { using type = Dune::BCRSMatrix<K>; };
template <class K, int N = 0> using Mat = typename Mt<K, N>::type;
#ifdef PART1
UNIT(ilu0_double) { run<Ilu0, Mat<double>>(c, 3, 2, 5); }
UNIT(ilu0_fm2) { run<Ilu0, Mat<double, 2>>(c, 2, 2, 5); }
UNIT(ilu0_fm2c) { run<Ilu0, Mat<C, 2>>(c, 2, 2, 0); }
#endif
#ifdef PART2
UNIT(ilun_double) { run<Ilun, Mat<double>>(c, 3, 2, 6); }
UNIT(ilun_fm2) { run<Ilun, Mat<double, 2>>(c, 2, 2, 5); }
UNIT(ilun_complex) { run<Ilun, Mat<C>>(c, 2, 2, 5); }
#endif
#ifdef PART3
UNIT(dyn_double) { run<Dyn, Mat<double>>(c, 3, 2, 5); }
UNIT(dyn_fm1) { run<Dyn, Mat<double, 1>>(c, 2, 2, 5); }
#ifdef DYNBLOCK
UNIT(dyn_fm2) { run<Dyn, Mat<double, 2>>(c, 2, 2, 5); }
#endif
#endif
#ifdef PART4
UNIT(slu_double) { run<Slu, Mat<double>>(c, 3, 2, 5); }
UNIT(slu_fm2) { run<Slu, Mat<double, 2>>(c, 2, 2, 5); }
UNIT(slu_complex) { run<Slu, Mat<C, 1>>(c, 2, 2, 5); }
#endif
#ifdef PART5
UNIT(umf_double) { run<Umf, Mat<double>>(c, 3, 2, 5); }
UNIT(umf_fm2) { run<Umf, Mat<double, 2>>(c, 2, 2, 5); }
UNIT(umf_complex) { run<Umf, Mat<C, 2>>(c, 2, 2, 5); }
#endif
