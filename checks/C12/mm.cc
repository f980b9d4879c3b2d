// C12: MatrixMarket files: what is written is read back; every structure is expanded as the format defines; damaged files are rejected.
#include "mc.hh"
#include "flat.hh"
#include <fstream>
#include <iomanip>
#include <unistd.h>
#include <dirent.h>
#include <dune/istl/matrixmarket.hh>
using namespace flat;
using C = std::complex<double>;
template <class K, int n, int m = n> using FM = Dune::FieldMatrix<K, n, m>;
template <class B> using BCRS = Dune::BCRSMatrix<B>;
struct Quiet { std::ostringstream s; std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Dir { std::string d; Dir() { char t[] = "/dev/shm/c12XXXXXX"; if (!mkdtemp(t)) mc::fail("mkdtemp"); d = t; }
  std::vector<std::string> ls() { std::vector<std::string> r; DIR* D = opendir(d.c_str()); while (auto* e = readdir(D)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(D); return r; }
  ~Dir() { for (auto& f : ls()) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); } };
// values that need all digits
template <class K> K value(int i, int j, int kind) {
  static const double sp[] = {1. / 3, -2. / 7, 1e-300, -1.7976931348623157e308, 0., 123456789.123456789, -1e-5, 4.9406564584124654e-324 * 1e10};
  auto r = [&](int s) { return kind == 0 ? (double)small((unsigned)s) : std::is_same_v<typename RealOf<K>::type, double> ? sp[(unsigned)s % 8] : sp[(unsigned)s % 2] * (1 + s % 5); };
  if constexpr (isComplex<K>::value) return K(r(i * 3 + j), r(i + 5 * j + 1)); else if constexpr (std::is_same_v<K, int>) return (int)small((unsigned)(i * 3 + j)) * (kind ? 100000000 : 1); else return K(r(i * 3 + j));
}
template <class M> void fillTarget(M& A, int how) {   // what the target of a load may have been before
  if (how == 0) return;
  if (how == 1) { buildPattern(A, 2, 3, patternOf(2, 3, 0b101101)); A = FieldOf<M>(9); }
  if (how == 2) { M t; t.setBuildMode(M::random); A = t; }
  if (how == 3) { A.setBuildMode(M::row_wise); A.setSize(1, 1, 1); auto r = A.createbegin(); r.insert(0); ++r; }
}
template <class M> void same(const M& A, int n, int m, const Pattern& p, const Dense<FieldOf<M>>& D, const char* what) {
  CHECK((int)A.N() == n && (int)A.M() == m, what, ": size ", A.N(), "x", A.M(), " expected ", n, "x", m);
  for (int i = 0; i < n; ++i) { std::vector<int> cols; for (auto c = A[i].begin(); c != A[i].end(); ++c) cols.push_back((int)c.index()); CHECK(cols == p[i], what, ": columns of row ", i, " differ from ", show(p)); }
  CHECK((int)A.nonzeroes() == nnz(p), what, ": nonzeroes ", A.nonzeroes());
  CHECK(flatten(A) == D, what, ": values ", show(flatten(A)), " expected ", show(D));
}
template <class K> constexpr int digits() { return std::numeric_limits<typename RealOf<K>::type>::is_integer ? 12 : std::numeric_limits<typename RealOf<K>::type>::max_digits10; }
template <class M> void roundtrip(mc::Chooser& c, int maxn) {
  Quiet q; using K = FieldOf<M>; if (mc::thorough()) ++maxn;
  int n = c.range(0, maxn, "n"), m = c.range(0, maxn, "m"), kind = c(2, "values"); Pattern p = n * m <= 9 ? patternOf(n, m, c.mask(n * m, "pattern")) : patternOf(n, m, c.mask(9, "pattern") * 0x9249ull);
  M A; buildAs(A, (n + m) % buildModes, n, m, p); auto D = fill(A, n, m, p, [&](int i, int j) { return value<K>(i, j, kind); });
  NOTE("pattern ", show(p));
  int how = c(4, "target"), via = c(3, "via"); M B; fillTarget(B, how);
  if (via == 0) { std::stringstream s; s << std::setprecision(digits<K>()); writeMatrixMarket(A, s); mc::step(); readMatrixMarket(B, s); }
  else { Dir d; static const char* names[] = {"a", "a.mm", "a.mtx", "a.b", "a.b.mtx"}; int f = (n + m + how) % 5; std::string w = d.d + "/" + names[f]; storeMatrixMarket(A, w, digits<K>()); mc::step();
    auto l = d.ls(); CHECK(l.size() == 1 && l[0] == std::string(names[f]) + (f == 0 || f == 3 ? ".mm" : ""), "file name ", l.size() ? l[0] : "none");
    if (via == 2 && (f == 0 || f == 3)) { rename((w + ".mm").c_str(), (w + ".mtx").c_str()); }   // found under the other suffix as well
    Dune::loadMatrixMarket(B, w); }
  mc::step(); same(B, n, m, p, D, "round trip"); same(A, n, m, p, D, "source"); mc::state(mc::Hash()(n)(m)(show(p))(kind)(how));
}
template <class V, class K> void vec(mc::Chooser& c) {
  Quiet q; int n = c.range(0, 4, "n"), kind = c(2, "values"), via = c(2, "via"), how = c(3, "target"); V v; flat::make(v, n); constexpr int R = VB<typename V::block_type>::N; std::vector<K> f(n * R); for (int i = 0; i < n * R; ++i) f[i] = value<K>(i, i / 2, kind); put(v, f);
  V w; if (how) { flat::make(w, how == 1 ? 1 : 7); w = K(3); }
  if (via == 0) { std::stringstream s; s << std::setprecision(digits<K>()); writeMatrixMarket(v, s); readMatrixMarket(w, s); } else { Dir d; storeMatrixMarket(v, d.d + "/v", digits<K>()); Dune::loadMatrixMarket(w, d.d + "/v"); }
  mc::step(); CHECK((int)w.size() == n && get(w) == f, "vector round trip: ", show(get(w)), " expected ", show(f)); mc::state(mc::Hash()(n)(kind)(how));
}
// ---- text in the documented format -> matrix
enum Str { GEN, SYMM, SKEW, HERM };
struct Text { std::string text; std::vector<std::string> tok; };
template <class K> std::string num2(const K& k) { std::ostringstream s; s.precision(17); if constexpr (isComplex<K>::value) s << k.real() << " " << k.imag(); else s << k; return s.str(); }
// entries (i,j,v) of the stored part; lay: layout variations
template <class K> std::string text(int n, int m, Str st, const char* ctype, const std::vector<std::tuple<int, int, K>>& es, int lay) {
  static const char* sn[] = {"general", "symmetric", "skew-symmetric", "hermitian"}; std::ostringstream s;
  std::string head = mc::str("matrix coordinate ", ctype, " ", sn[st]);
  if (lay == 3) for (auto& ch : head) if (&ch - &head[0] > 6) ch = (char)toupper(ch);
  s << "%%MatrixMarket " << head << "\n"; if (lay >= 1) s << "% a comment\n%\n"; if (lay == 2) s << "% ISTL_STRUCT blocked 1 1\n";
  s << n << (lay == 1 ? "   " : " ") << m << " " << es.size() << "\n"; int k = 0;
  for (auto& [i, j, v] : es) { if (lay == 1 && k == 1) s << "% within the data\n"; s << (lay == 1 ? "  " : "") << i + 1 << (lay == 1 ? "   " : " ") << j + 1 << " " << num2(v) << "\n"; ++k; }
  return s.str();
}
template <class M> void structure(mc::Chooser& c, Str st, int maxn) {
  Quiet q; using K = FieldOf<M>; constexpr int R = Blk<typename M::block_type>::R, Cc = Blk<typename M::block_type>::C; if (mc::thorough() && R * Cc == 1) ++maxn;
  int bn = c.range(1, maxn, "n"), bm = st == GEN ? c.range(1, maxn, "m") : bn, n = bn * R, m = st == GEN ? bm * Cc : n; if (st != GEN) bm = n / Cc;
  std::vector<std::pair<int, int>> pos; for (int i = 0; i < n; ++i) for (int j = 0; j < (st == GEN ? m : st == SKEW ? i : i + 1); ++j) pos.emplace_back(i, j);
  unsigned msk; if (pos.size() <= 10) msk = c.mask((int)pos.size(), "entries"); else { int k = c(12, "family"); msk = 0; for (size_t b = 0; b < pos.size(); ++b) if (k == 0 || (k == 1 && pos[b].first == pos[b].second) || (k == 2 && b % 3 == 0) || (k == 3 && pos[b].first == (int)n - 1) || (k > 3 && (int)b == (k - 4) * (int)pos.size() / 8)) msk |= 1u << b; }
  std::vector<std::tuple<int, int, K>> es; Dense<K> D(n, m); std::vector<std::set<int>> bp(bn);
  for (size_t b = 0; b < pos.size(); ++b) if (msk >> b & 1) { auto [i, j] = pos[b]; K v = value<K>(i, j, 0); if (st == HERM && i == j) v = K(std::real(v)); es.emplace_back(i, j, v); D(i, j) = v; bp[i / R].insert(j / Cc); if (st != GEN && i != j) { D(j, i) = st == SYMM ? v : st == SKEW ? -v : cj(v); bp[j / R].insert(i / Cc); } }
  int order = c(3, "order"), lay = c(4, "layout"); if (order == 1) std::reverse(es.begin(), es.end()); if (order == 2) std::rotate(es.begin(), es.begin() + es.size() / 2, es.end());
  Pattern p(bn); for (int i = 0; i < bn; ++i) p[i].assign(bp[i].begin(), bp[i].end());
  auto t = text(n, m, st, isComplex<K>::value ? "complex" : std::is_same_v<K, int> ? "integer" : "real", es, lay); NOTE(t);
  M A; fillTarget(A, (order + lay) % 4); std::istringstream is(t); readMatrixMarket(A, is); mc::step(); same(A, bn, bm, p, D, "reading"); mc::state(mc::Hash()(n)(m)((int)msk));
}
// ---- damaged files
static std::vector<std::string> tokens(const std::string& s) { std::vector<std::string> r; std::istringstream is(s); std::string l; while (std::getline(is, l)) { if (!l.empty() && l[0] == '%') continue; std::istringstream ls(l); std::string t; while (ls >> t) r.push_back(t); } return r; }
template <class M> void cut(mc::Chooser& c) {
  Quiet q; using K = FieldOf<M>; int st = c(isComplex<K>::value ? 4 : 3, "structure"), n = 2; constexpr int R = Blk<typename M::block_type>::R; n *= R; std::vector<std::tuple<int, int, K>> es; for (int i = 0; i < n; ++i) for (int j = 0; j < (st == GEN ? n : i); ++j) es.emplace_back(i, j, value<K>(i, j, 0));
  std::string t = text(n, n, (Str)st, isComplex<K>::value ? "complex" : "real", es, c(2, "layout")); size_t head = t.find('\n') + 1; int at = (int)head + c((int)(t.size() - head + 1), "cut"); std::string u = t.substr(0, at); NOTE(u);
  auto full = tokens(t), got = tokens(u); bool thrown = false; M A, ref; std::string what; { std::istringstream is(t); readMatrixMarket(ref, is); }
  try { std::istringstream is(u); readMatrixMarket(A, is); } catch (Dune::Exception& e) { thrown = true; what = e.what(); }
  mc::step(); mc::outcome(thrown ? "rejected" : "read");
  if (got.size() < full.size()) { bool sizesOnly = got.size() <= 3 && (got.size() < 3 || got[2] == "0"); if (!(sizesOnly && got.size() == 3)) CHECK(thrown || (got.size() == 3 && got[2] != full[2]), "a file that lacks ", full.size() - got.size(), " numbers was read without an error"); }
  else { if (got.back() == full.back()) { CHECK(!thrown, "a complete file was rejected: ", what); CHECK(flatten(A) == flatten(ref), "values"); } }
}
template <class V, class K> void cutVec(mc::Chooser& c) {
  Quiet q; V v; flat::make(v, 3); std::vector<K> f; for (int i = 0; i < 3 * VB<typename V::block_type>::N; ++i) f.push_back(value<K>(i, 1, 0)); put(v, f); std::ostringstream s; writeMatrixMarket(v, s); std::string t = s.str(); size_t head = t.find('\n') + 1; int at = (int)head + c((int)(t.size() - head + 1), "cut"); std::string u = t.substr(0, at);
  auto full = tokens(t), got = tokens(u); bool thrown = false; V w; try { std::istringstream is(u); readMatrixMarket(w, is); } catch (Dune::Exception&) { thrown = true; } mc::step();
  if (got.size() < full.size()) { if (!(got.size() == 2 && got[0] != full[0])) CHECK(thrown, "a vector file that lacks ", full.size() - got.size(), " numbers was read without an error"); } else if (got.back() == full.back()) CHECK(!thrown && get(w) == f, "a complete vector file was not read");
}
// wrong contents: index out of range, sizes that do not fit the blocks, formats that do not fit the matrix
template <class M> void malformed(mc::Chooser& c) {
  Quiet q; using K = FieldOf<M>; constexpr int R = Blk<typename M::block_type>::R, Cc = Blk<typename M::block_type>::C; int n = 2 * R, m = 2 * Cc, k = c(9, "fault"); std::string t; std::vector<std::tuple<int, int, K>> es{{0, 0, K(1)}, {n - 1, m - 1, K(2)}}; const char* ct = isComplex<K>::value ? "complex" : "real";
  if (k < 4) { int bad[4][2] = {{n, 0}, {0, m}, {-1, 0}, {0, -1}}; es.insert(es.begin() + c(3, "position"), {bad[k][0], bad[k][1], K(1)}); t = text(n, m, GEN, ct, es, 0); }
  else if (k == 4) { if (R == 1) throw mc::Skip{}; t = text(n + 1, m, GEN, ct, es, 0); }
  else if (k == 5) { if (Cc == 1) throw mc::Skip{}; t = text(n, m + 1, GEN, ct, es, 0); }
  else if (k == 6) { t = "%%MatrixMarket matrix array real general\n2 2\n1\n2\n3\n4\n"; }
  else if (k == 7) { t = text(n, m, GEN, ct, es, 0); size_t p = t.rfind(num2(K(2))); t.replace(p, 1, "x"); }
  else { static const char* heads[] = {"\n2 2\n", "\n 2\n2 1\n1 1 1\n"}; t = std::string("%%MatrixMarket matrix coordinate real general") + heads[c(2, "head")]; if (isComplex<K>::value) throw mc::Skip{}; }
  NOTE(t); bool thrown = false; M A; fillTarget(A, c(2, "target")); try { std::istringstream is(t); readMatrixMarket(A, is); } catch (Dune::Exception&) { thrown = true; } mc::step(); mc::outcome(mc::str("fault ", k)); CHECK(thrown, "a malformed file was read without an error");
}
UNIT(bad_header) {   // a file whose first line is no banner is read as "coordinate real general"
  Quiet q; static const char* h[] = {"", "2 2 x\n", "%%MatrixMarket vector coordinate real general\n", "%%MatrixMarket matrix foo real general\n", "%%MatrixMarket matrix coordinate foo general\n", "%%MatrixMarket matrix coordinate real foo\n", "%%MatrixMarket matrix coordinate real s\n", "%%MatrixMarket\n", "%%MatrixMarket matrix\n", "%MatrixMarket matrix coordinate real general\n", "% comment\n"};
  int k = c(11, "header"); if (k == 1) k = 0; std::string t = std::string(h[k]) + "2 2 2\n1 2 3.5\n2 1 -1\n"; BCRS<double> A; std::istringstream is(t); bool ok = true; NOTE(t);
  try { readMatrixMarket(A, is); } catch (Dune::Exception&) { ok = false; } mc::step(); mc::outcome(ok ? "read" : "rejected");
  if (ok) { Dense<double> D(2, 2); D(0, 1) = 3.5; D(1, 0) = -1; same(A, 2, 2, {{1}, {0}}, D, "default banner"); }
}
UNIT(type_mismatch) {   // either read correctly or rejected, never misread
  Quiet q; static const char* ct[] = {"real", "integer", "complex", "pattern"}; int k = c(4, "file type"), t = c(2, "matrix type"), st = c(2, "structure"); std::string txt = mc::str("%%MatrixMarket matrix coordinate ", ct[k], st ? " symmetric" : " general", "\n2 2 2\n1 1", k == 3 ? "" : k == 2 ? " 3 4" : " 3", "\n2 1", k == 3 ? "" : k == 2 ? " 5 6" : " 5", "\n"); NOTE(txt);
  std::istringstream is(txt); bool ok = true; Dense<C> got; auto run = [&](auto A) { try { readMatrixMarket(A, is); Dense<C> d(2, 2); CHECK(A.N() == 2 && A.M() == 2, "size"); for (auto r = A.begin(); r != A.end(); ++r) for (auto e = r->begin(); e != r->end(); ++e) d((int)r.index(), (int)e.index()) = C(*e); got = d; } catch (Dune::Exception&) { ok = false; } }; if (t) run(BCRS<C>()); else run(BCRS<double>());
  mc::step(); mc::outcome(mc::str(ct[k], " into ", t ? "complex " : "real ", ok ? "read" : "rejected")); if (k <= 1 && !t) CHECK(ok, "rejected");
  if (k == 2 && t) CHECK(ok, "rejected"); if (ok && k != 3) { Dense<C> D(2, 2); C im = k == 2 ? C(0, 1) : C(0); D(0, 0) = 3. + 4. * im; D(1, 0) = 5. + 6. * im; if (st) D(0, 1) = D(1, 0); CHECK(got == D, "misread: ", show(got), " expected ", show(D)); }
}
UNIT(vec_malformed) {
  Quiet q; static const char* t[] = {"%%MatrixMarket matrix array real general\n4 2\n1\n2\n3\n4\n5\n6\n7\n8\n", "%%MatrixMarket matrix coordinate real general\n4 1\n1\n2\n3\n4\n", "%%MatrixMarket matrix array real general\n3 1\n1\n2\n3\n", "%%MatrixMarket matrix array real general\n4\n", "%%MatrixMarket matrix array real general\n2 1\n1\nx\n"};
  int k = c(5, "fault"); Dune::BlockVector<Dune::FieldVector<double, 2>> v; std::istringstream is(t[k]); bool thrown = false; try { readMatrixMarket(v, is); } catch (Dune::Exception&) { thrown = true; } mc::step(); CHECK(thrown, "a malformed vector was read: ", t[k]);
}
UNIT(missing_file) { Quiet q; Dir d; static const char* names[] = {"a", "a.mm", "a.mtx", "no/a"}; std::string f = d.d + "/" + names[c(4, "name")]; int k = c(3, "what"); bool thrown = false; try { if (k == 0) { BCRS<double> A; Dune::loadMatrixMarket(A, f); } else if (k == 1) { Dune::BlockVector<double> v; Dune::loadMatrixMarket(v, f); } else { BCRS<double> A; buildPattern(A, 1, 1, {{0}}); storeMatrixMarket(A, d.d + "/no/a.mm"); } } catch (Dune::IOError&) { thrown = true; } mc::step(); CHECK(thrown, "no IOError for ", f); }
#ifdef PART1
UNIT(round_double) { roundtrip<BCRS<double>>(c, 3); }
UNIT(round_fm1) { roundtrip<BCRS<FM<double, 1>>>(c, 2); }
UNIT(round_fm23) { roundtrip<BCRS<FM<double, 2, 3>>>(c, 2); }
UNIT(round_fm31) { roundtrip<BCRS<FM<double, 3, 1>>>(c, 2); }
UNIT(round_int) { roundtrip<BCRS<int>>(c, 2); }
#endif
#ifdef PART2
UNIT(round_cplx) { roundtrip<BCRS<C>>(c, 2); }
UNIT(round_cplx2) { roundtrip<BCRS<FM<C, 2>>>(c, 2); }
UNIT(round_cplx13) { roundtrip<BCRS<FM<C, 1, 3>>>(c, 2); }
UNIT(round_float) { roundtrip<BCRS<FM<float, 2>>>(c, 2); }
UNIT(vec_double) { vec<Dune::BlockVector<double>, double>(c); }
UNIT(vec_fv1) { vec<Dune::BlockVector<Dune::FieldVector<double, 1>>, double>(c); }
UNIT(vec_fv3) { vec<Dune::BlockVector<Dune::FieldVector<double, 3>>, double>(c); }
UNIT(vec_cplx) { vec<Dune::BlockVector<C>, C>(c); }
UNIT(vec_cplx2) { vec<Dune::BlockVector<Dune::FieldVector<C, 2>>, C>(c); }
UNIT(vec_int) { vec<Dune::BlockVector<int>, int>(c); }
#endif
#ifdef PART3
UNIT(gen_scalar) { structure<BCRS<double>>(c, GEN, 2); }
UNIT(gen_fm2) { structure<BCRS<FM<double, 2>>>(c, GEN, 2); }
UNIT(gen_fm31) { structure<BCRS<FM<double, 3, 1>>>(c, GEN, 2); }
UNIT(gen_fm13) { structure<BCRS<FM<double, 1, 3>>>(c, GEN, 2); }
UNIT(gen_cplx) { structure<BCRS<C>>(c, GEN, 2); }
UNIT(gen_int) { structure<BCRS<int>>(c, GEN, 2); }
UNIT(sym_scalar) { structure<BCRS<double>>(c, SYMM, 3); }
UNIT(sym_fm2) { structure<BCRS<FM<double, 2>>>(c, SYMM, 2); }
UNIT(sym_cplx) { structure<BCRS<C>>(c, SYMM, 3); }
#endif
#ifdef PART4
UNIT(skew_scalar) { structure<BCRS<double>>(c, SKEW, 4); }
UNIT(skew_fm2) { structure<BCRS<FM<double, 2>>>(c, SKEW, 2); }
UNIT(skew_cplx) { structure<BCRS<C>>(c, SKEW, 3); }
UNIT(herm_scalar) { structure<BCRS<double>>(c, HERM, 3); }
UNIT(herm_cplx) { structure<BCRS<C>>(c, HERM, 3); }
UNIT(herm_cplx2) { structure<BCRS<FM<C, 2>>>(c, HERM, 2); }
UNIT(cut_double) { cut<BCRS<double>>(c); }
UNIT(cut_fm2) { cut<BCRS<FM<double, 2>>>(c); }
UNIT(cut_cplx) { cut<BCRS<C>>(c); }
UNIT(cut_vec) { cutVec<Dune::BlockVector<Dune::FieldVector<double, 2>>, double>(c); }
UNIT(cut_vec_cplx) { cutVec<Dune::BlockVector<C>, C>(c); }
UNIT(malformed_scalar) { malformed<BCRS<double>>(c); }
UNIT(malformed_fm2) { malformed<BCRS<FM<double, 2>>>(c); }
UNIT(malformed_fm31) { malformed<BCRS<FM<double, 3, 1>>>(c); }
UNIT(malformed_fm13) { malformed<BCRS<FM<double, 1, 3>>>(c); }
UNIT(malformed_cplx) { malformed<BCRS<C>>(c); }
#endif
