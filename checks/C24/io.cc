// C24: Matlab files, printed matrices and vectors and SVG pictures show exactly the entries of the object.
#include "mc.hh"
#include "flat.hh"
#include <fstream>
#include <sstream>
#include <iomanip>
#include <unistd.h>
#include <dune/common/dynmatrix.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/io.hh>
using namespace flat; using Cx = std::complex<double>;
template <class K, int n, int m = n> using FM = Dune::FieldMatrix<K, n, m>; template <class B> using BCRS = Dune::BCRSMatrix<B>;
// values that need all digits, are huge, tiny, negative or whole
template <class K> K wild(unsigned s) {
  auto re = [&](unsigned t) { static const double v[] = {1. / 3, -2.5, 1e-300, 12345678.125, -0.1, 3, 2. / 3 * 1e17, -1e-7, 0}; double x = v[t % 9]; if (sizeof(typename Dune::FieldTraits<K>::real_type) == 4 && (std::abs(x) < 1e-30)) x = 1e-30; return (typename Dune::FieldTraits<K>::real_type)x; };
  if constexpr (isComplex<K>::value) return K(re(s), re(s / 2 + 3)); else return re(s);
}
struct Tmp { std::string d; Tmp() { char b[] = "/dev/shm/c24XXXXXX"; if (!mkdtemp(b)) mc::fail("mkdtemp"); d = b; } ~Tmp() { unlink((d + "/f").c_str()); rmdir(d.c_str()); } std::string file() const { return d + "/f"; } };
inline std::string slurp(const std::string& f) { std::ifstream s(f); std::stringstream o; o << s.rdbuf(); CHECK((bool)s, "the file was not written"); return o.str(); }
inline std::vector<std::string> lines(const std::string& s) { std::vector<std::string> l; std::istringstream i(s); std::string x; while (std::getline(i, x)) l.push_back(x); return l; }
inline std::vector<std::string> tokens(const std::string& s) { std::vector<std::string> l; std::istringstream i(s); std::string x; while (i >> x) l.push_back(x); return l; }
inline double number(const std::string& s) { char* e = nullptr; double x = strtod(s.c_str(), &e); CHECK(e && *e == 0 && !s.empty(), "not a number:", s); return x; }
template <class K> K parse(const std::vector<std::string>& t, size_t at) { if constexpr (isComplex<K>::value) return K(number(t.at(at)), number(t.at(at + 1))); else return (K)number(t.at(at)); }
struct State { std::ios_base::fmtflags f; std::streamsize p; static State of(std::ostream& s) { return {s.flags(), s.precision()}; } bool operator==(const State& o) const { return f == o.f && p == o.p; } };
inline void dress(std::ostream& s, int k) { if (k == 1) s << std::fixed << std::setprecision(3) << std::showpos; if (k == 2) s << std::hexfloat << std::left; if (k == 3) s << std::setprecision(12) << std::scientific << std::uppercase; }
// ---- Matlab
template <class K> void sameEntries(std::vector<std::tuple<int, int, K>> want, const std::string& text, double eps) {
  auto ls = lines(text); std::map<std::pair<int, int>, K> got; CHECK(ls.size() == want.size(), "lines", ls.size(), "entries", want.size());
  for (auto& l : ls) { auto t = tokens(l); CHECK(t.size() == (isComplex<K>::value ? 4u : 3u), "columns in", l); auto key = std::make_pair((int)number(t[0]), (int)number(t[1])); CHECK(got.emplace(key, parse<K>(t, 2)).second, "entry written twice", l); }
  for (auto& [i, j, v] : want) { auto it = got.find({i + 1, j + 1}); CHECK(it != got.end(), "entry", i, j, "is missing"); CHECK(std::abs(it->second - v) <= eps * std::abs(v), "entry", i, j, "is written as", it->second, "not", v); }
}
template <class M> std::vector<std::tuple<int, int, FieldOf<M>>> stored(const M& A, const Pattern& p) {   // every scalar that is stored
  using S = Blk<typename M::block_type>; using K = FieldOf<M>; std::vector<std::tuple<int, int, K>> w; (void)A;
  for (int i = 0; i < (int)p.size(); ++i) for (int j : p[i]) for (int k = 0; k < S::R; ++k) for (int l = 0; l < S::C; ++l) if (!S::off(k, l)) w.emplace_back(i * S::R + k, j * S::C + l, K(0)); return w;
}
inline Pattern anyPattern(mc::Chooser& c, int n, int m, int bits) { if (n * m <= bits) return patternOf(n, m, c.mask(n * m)); Pattern p(n); int f = c(4, "family"); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (f == 0 ? true : f == 1 ? std::abs(i - j) <= 1 : f == 2 ? i % 3 != 1 && (i + j) % 2 == 0 : j == m - 1 - i % m) p[i].push_back(j); return p; }
template <class M> void matlab(mc::Chooser& c, int bits) {
  using K = FieldOf<M>; int n = c(5, "rows"), m = c(5, "columns"); if (n * m > bits && (n < 4 || m < 3)) throw mc::Skip{}; auto p = anyPattern(c, n, m, bits); if constexpr (requires(typename M::block_type b) { b.setBuildMode(M::block_type::random); }) { std::set<int> q; for (auto& r : p) { if (r.empty()) throw mc::Skip{}; q.insert(r.begin(), r.end()); } if ((int)q.size() < m) throw mc::Skip{}; } M A; buildPattern(A, n, m, p); auto w = stored(A, p); std::map<std::pair<int, int>, K> val; { unsigned s = 1; for (auto& [i, j, v] : w) { v = wild<K>(s++); val[{i, j}] = v; } }
  auto D = fill(A, n, m, p, [&](int i, int j) -> K { auto it = val.find({i, j}); return it == val.end() ? K(0) : it->second; }); for (auto& [i, j, v] : w) v = D(i, j); int prec = c.of(std::vector<int>{18, 3, 7}); NOTE(n, "x", m, " blocks, precision ", prec); Tmp t;
  if (prec == 18 && c.flag("default precision")) Dune::writeMatrixToMatlab(A, t.file()); else Dune::writeMatrixToMatlab(A, t.file(), prec);
  sameEntries<K>(w, slurp(t.file()), prec == 18 ? 0. : std::pow(10., 1 - prec)); mc::state(mc::Hash()(n)(m)(prec)(slurp(t.file())));
  if (c.flag("helper with offsets")) { std::ostringstream o; o.precision(17); Dune::writeMatrixToMatlabHelper(A, 5, 11, o); for (auto& [i, j, v] : w) { i += 5; j += 11; } sameEntries<K>(w, o.str(), 0.); }
}
template <class B> void matlabDense(mc::Chooser& c) { using K = FieldOf<Dune::Matrix<B>>; using S = Blk<B>; int n = c(4, "rows"), m = 1 + c(3, "columns"); Dune::Matrix<B> A(n, m); std::vector<std::tuple<int, int, K>> w; unsigned s = 2; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { A[i][j] = K(0); for (int k = 0; k < S::R; ++k) for (int l = 0; l < S::C; ++l) { K v = wild<K>(s++); if constexpr (Dune::IsNumber<B>::value) A[i][j] = v; else A[i][j][k][l] = v; w.emplace_back(i * S::R + k, j * S::C + l, v); } } Tmp t; Dune::writeMatrixToMatlab(A, t.file()); sameEntries<K>(w, slurp(t.file()), 0.); mc::state(mc::Hash()(n)(m)); }
template <class V> void collect(const V& v, std::vector<double>& w) { if constexpr (Dune::IsNumber<V>::value) w.push_back(v); else for (auto& x : v) collect(x, w); }
template <class V> void assignWild(V& v, unsigned& s) { if constexpr (Dune::IsNumber<V>::value) v = wild<V>(s++); else for (auto& x : v) assignWild(x, s); }
template <class V> void matlabVector(mc::Chooser& c, V v) {
  unsigned s = 1 + c(4, "values"); assignWild(v, s); int prec = c.of(std::vector<int>{18, 4}); Tmp t; if (prec == 18 && c.flag("default precision")) Dune::writeVectorToMatlab(v, t.file()); else Dune::writeVectorToMatlab(v, t.file(), prec); std::vector<double> w; collect(v, w); auto ls = lines(slurp(t.file())); CHECK(ls.size() == w.size(), "lines", ls.size(), "entries", w.size()); for (size_t i = 0; i < w.size(); ++i) { auto tk = tokens(ls[i]); CHECK(tk.size() == 1, "columns in", ls[i]); CHECK(std::abs(number(tk[0]) - w[i]) <= (prec == 18 ? 0. : 1e-3) * std::abs(w[i]), "entry", i, "written", tk[0], "is", w[i]); } mc::state(mc::Hash()((int)w.size())(prec)(slurp(t.file())));
}
// ---- printing
template <class M> void print(mc::Chooser& c, int bits) {
  using K = FieldOf<M>; using S = Blk<typename M::block_type>; int n = c(4, "rows"), m = c(4, "columns"); if (n * m > bits && (n < 3 || m < 3)) throw mc::Skip{}; auto p = anyPattern(c, n, m, bits); M A; buildPattern(A, n, m, p); unsigned s = 1; Dense<K> D(n * S::R, m * S::C); std::set<std::pair<int, int>> has; for (int i = 0; i < n; ++i) for (int j : p[i]) has.insert({i, j});
  auto w = stored(A, p); for (auto& [i, j, v] : w) D(i, j) = val<K>(s++) * K(1.25); fill(A, n, m, p, [&](int i, int j) { return D(i, j); }); int style = c(4, "stream"), prec = c.of(std::vector<int>{2, 6}); std::ostringstream o; dress(o, style); auto before = State::of(o); std::string title = "the matrix", row = c.flag("row text") ? "row" : "--"; NOTE(n, "x", m); 
  Dune::printmatrix(o, A, title, row, 12, prec); CHECK(State::of(o) == before, "the format of the stream is not restored"); auto ls = lines(o.str()); CHECK((int)ls.size() == 1 + n * S::R, "lines", ls.size()); CHECK(ls[0] == mc::str("the matrix [n=", n, ",m=", m, ",rowdim=", n * S::R, ",coldim=", m * S::C, "]") || style == 1 || style == 2, "title", ls[0]);
  for (int i = 0; i < n * S::R; ++i) { auto t = tokens(ls[1 + i]); CHECK(t.size() == (size_t)(2 + m * S::C), "line", ls[1 + i]); CHECK(t[0] == row && (int)number(t[1]) == i, "line starts with", t[0], t[1]); for (int j = 0; j < m * S::C; ++j) { bool in = has.count({i / S::R, j / S::C}); auto& x = t[2 + j]; if (!in) CHECK(x == ".", "entry", i, j, "is not stored but printed as", x); else if (S::off(i % S::R, j % S::C)) CHECK(x == "." || number(x) == 0, "entry", i, j, "is not stored but printed as", x); else if constexpr (!isComplex<K>::value) CHECK(std::abs(number(x) - D(i, j)) <= std::pow(10., -prec) * std::abs(D(i, j)), "entry", i, j, "is printed as", x, "not", D(i, j)); else CHECK(x.size() > 2 && x[0] == '(', "entry", x); } }
  mc::state(mc::Hash()(o.str()));
}
template <class M> void printSparse(mc::Chooser& c, int bits) {   // blocks in lines of width blocks: col: |values|
  using K = FieldOf<M>; using S = Blk<typename M::block_type>; int n = c(4, "rows"), m = 1 + c(4, "columns"); if (n * m > bits && (n < 3 || m < 3)) throw mc::Skip{}; auto p = anyPattern(c, n, m, bits); M A; buildPattern(A, n, m, p); unsigned s = 1; auto D = fill(A, n, m, p, [&](int i, int j) { return val<K>(s++ + i + j) * K(1.25); }); int width = 1 + c(3, "width"), style = c(4, "stream"); std::ostringstream o; dress(o, style); auto before = State::of(o);
  Dune::printSparseMatrix(o, A, "sparse", "row", width, 4); CHECK(State::of(o) == before, "the format of the stream is not restored"); auto ls = lines(o.str()); CHECK(ls.size() > 0, "no title"); CHECK(style == 1 || style == 2 || ls[0] == mc::str("sparse [n=", n, ",m=", m, ",rowdim=", n * S::R, ",coldim=", m * S::C, "]"), "title", ls[0]);
  std::map<std::pair<int, int>, int> seen; int cur = -1; std::vector<int> cols; int inner = 0; NOTE(n, "x", m, " width ", width);
  auto clean = [](std::string x) { for (auto& ch : x) if (ch == '+' || ch == ':') ch = ' '; return x; };
  for (size_t k = 1; k < ls.size(); ++k) { auto& l = ls[k]; if (l.find('|') == l.npos) { CHECK(tokens(l).empty(), "line", l); continue; } bool first = l.compare(0, 3, "row") == 0; std::vector<std::string> parts; { std::string x; for (char ch : l) if (ch == '|') { parts.push_back(x); x.clear(); } else x += ch; }
    if (first) { auto t = tokens(clean(parts[0])); CHECK(t.size() >= 3 && t[0] == "row", "line", l); cur = atoi(t[1].c_str()); cols.clear(); inner = 0; } else ++inner; CHECK(inner < S::R && cur >= 0 && cur < n, "line", l); int blocks = 0;
    for (size_t q = 0; q + 1 < parts.size(); q += 2, ++blocks) { if (first) { auto t = tokens(clean(parts[q])); int col = atoi(t.back().c_str()); cols.push_back(col); } CHECK(blocks < (int)cols.size(), "line", l); auto t = tokens(parts[q + 1]); CHECK((int)t.size() == S::C, "block", parts[q + 1]); int j = cols[blocks]; CHECK(j >= 0 && j < m && std::find(p[cur].begin(), p[cur].end(), j) != p[cur].end(), "block", cur, j, "is not stored"); if (first) CHECK((seen[std::make_pair(cur, j)]++ == 0), "block", cur, j, "twice");
      for (int k2 = 0; k2 < S::C; ++k2) CHECK(std::abs(number(t[k2]) - D(cur * S::R + inner, j * S::C + k2)) <= 1e-4 * std::abs(D(cur * S::R + inner, j * S::C + k2)), "entry", t[k2], "is", D(cur * S::R + inner, j * S::C + k2)); }
    CHECK(blocks <= width && blocks == (int)cols.size(), "blocks in the line", l); }
  size_t nz = 0; for (auto& r : p) nz += r.size(); CHECK(seen.size() == nz, "blocks", seen.size(), "stored", nz); mc::state(mc::Hash()(o.str()));
}
template <class V> void printVec(mc::Chooser& c, V v) {
  unsigned s = 1 + c(2, "values"); assignWild(v, s); std::vector<double> w; collect(v, w); int cols = 1 + c(4, "columns"), style = c(4, "stream"), prec = c.of(std::vector<int>{2, 7}); std::ostringstream o; dress(o, style); auto before = State::of(o); Dune::printvector(o, v, "vec", "row", cols, 14, prec); CHECK(State::of(o) == before, "the format of the stream is not restored"); auto ls = lines(o.str()); size_t expect = (w.size() + cols - 1) / cols; CHECK(ls.size() == 1 + expect, "lines", ls.size()); CHECK(style == 1 || style == 2 || ls[0] == mc::str("vec [blocks=", v.N(), ",dimension=", w.size(), "]"), "title", ls[0]);
  size_t at = 0; for (size_t k = 1; k < ls.size(); ++k) { auto t = tokens(ls[k]); CHECK(t.size() >= 2 && t[0] == "row" && (size_t)number(t[1]) == at, "line", ls[k]); for (size_t q = 2; q < t.size(); ++q, ++at) CHECK(at < w.size() && std::abs(number(t[q]) - w[at]) <= std::pow(10., -prec) * std::abs(w[at]), "entry", at, "printed", t[q]); CHECK(at == std::min(w.size(), k * cols), "entries in line", ls[k]); } CHECK(at == w.size(), "entries", at); mc::state(mc::Hash()(o.str()));
}
// ---- SVG: every scalar that is stored gets a rectangle of its own at the place of the entry
struct Opts : Dune::DefaultSVGMatrixOptions { struct R { std::vector<size_t> row, col; std::array<size_t, 4> box; bool leaf; double v; }; std::shared_ptr<std::vector<R>> rec = std::make_shared<std::vector<R>>();
  template <class St, class RP, class CP, class B> void writeSVGBlock(St& out, const RP& r, const CP& q, const B block, const std::array<std::size_t, 4>& box) const { constexpr bool leaf = Dune::blockLevel<B>() == 0; { R x{{r.begin(), r.end()}, {q.begin(), q.end()}, box, leaf, 0}; if constexpr (std::is_convertible_v<B, double>) x.v = (double)block; rec->push_back(x); out << "<!--" << rec->size() - 1 << "-->"; } Dune::DefaultSVGMatrixOptions::writeSVGBlock(out, r, q, block, box); } };
inline int count(const std::string& s, const std::string& x) { int n = 0; for (size_t i = s.find(x); i != s.npos; i = s.find(x, i + 1)) ++n; return n; }
template <class M> void svg(mc::Chooser& c, int bits) {
  using K = FieldOf<M>; using S = Blk<typename M::block_type>; int n = 1 + c(3, "rows"), m = 1 + c(3, "columns"); if (n * m > bits && (n < 3 || m < 3)) throw mc::Skip{}; auto p = anyPattern(c, n, m, bits); M A; buildPattern(A, n, m, p); unsigned s = 1; auto D = fill(A, n, m, p, [&](int i, int j) { return K(100 * i + j + 1); }); (void)s; size_t nz = 0; for (auto& r : p) nz += r.size(); if (!nz && !Dune::IsNumber<typename M::block_type>::value) throw mc::Skip{};
  Opts o; int k = c(4, "options"); o.block_size = k == 1 ? 3 : 10; o.interspace = k == 2 ? 0 : 5; if (k == 3) { o.width = 0; o.height = 200; } o.write_header = !c.flag("no header"); o.write_block_title = !c.flag("no titles"); std::ostringstream out; Dune::writeSVGMatrix(out, A, o); auto t = out.str(); { std::vector<Opts::R> shown; for (size_t q = 0; q < o.rec->size(); ++q) if (count(t, mc::str("<!--", q, "-->"))) shown.push_back((*o.rec)[q]); *o.rec = shown; } NOTE(n, "x", m, " options ", k);
  CHECK(count(t, "<rect ") == (int)o.rec->size() && count(t, "</rect>") == (int)o.rec->size(), "rectangles"); CHECK(count(t, "<svg ") == count(t, "</svg>") && count(t, "<g ") == count(t, "</g>") && count(t, "<title>") == count(t, "</title>"), "elements are not closed"); CHECK((count(t, "<style>") == 1) == o.write_header, "header"); CHECK(count(t, "<title>") == (o.write_block_title ? (int)o.rec->size() : 0), "titles");
  constexpr bool scalar = Dune::IsNumber<typename M::block_type>::value; std::set<std::pair<int, int>> blocks, scalars; size_t roots = 0;
  for (auto& r : *o.rec) { CHECK(r.row.size() == r.col.size(), "prefixes"); if (r.row.empty()) { ++roots; CHECK(!r.leaf && r.box[0] == 0 && r.box[1] == 0, "root"); continue; } int i = r.row[0], j = r.col[0]; CHECK(i < n && j < m && std::find(p[i].begin(), p[i].end(), j) != p[i].end(), "block", i, j, "is drawn but not stored");
    if (r.row.size() == 1 && !scalar) { CHECK(blocks.insert(std::make_pair(i, j)).second, "block", i, j, "is drawn twice"); continue; }
    CHECK(r.leaf && r.box[2] == o.block_size && r.box[3] == o.block_size, "size of an entry"); int li = scalar ? i : (int)r.row[1], lj = scalar ? j : (int)r.col[1]; CHECK(r.box[0] == o.interspace + lj * (o.interspace + o.block_size) && r.box[1] == o.interspace + li * (o.interspace + o.block_size), "place of entry", li, lj); int gi = scalar ? i : i * S::R + li, gj = scalar ? j : j * S::C + lj; CHECK(scalars.insert(std::make_pair(gi, gj)).second, "entry drawn twice"); if (!isComplex<K>::value) CHECK(r.v == (double)std::real(D(gi, gj)), "value of entry", gi, gj); }
  CHECK(roots == 1, "roots", roots); if (!scalar) CHECK(blocks.size() == nz, "blocks drawn", blocks.size(), "stored", nz); auto w = stored(A, p); for (auto& [i, j, v] : w) CHECK(scalars.count(std::make_pair(i, j)), "entry", i, j, "is not drawn"); CHECK(scalars.size() == w.size(), "entries drawn", scalars.size());
  size_t W = 0, H = 0; for (auto& r : *o.rec) if (r.row.empty()) { W = r.box[2]; H = r.box[3]; }   // all blocks lie inside the picture and do not overlap
  if (scalar) CHECK(W == o.interspace + m * (o.interspace + o.block_size) && H == o.interspace + n * (o.interspace + o.block_size), "size of the picture", W, H);
  else { std::map<int, std::pair<double, double>> xs, ys; size_t at = 0; std::vector<std::array<double, 4>> boxes; while ((at = t.find("<svg x='", at)) != t.npos) { double x, y, w2, h2; CHECK(sscanf(t.c_str() + at, "<svg x='%lf' y='%lf' width='%lf' height='%lf'", &x, &y, &w2, &h2) == 4, "nested svg"); boxes.push_back({x, y, w2, h2}); ++at; } CHECK(boxes.size() == nz, "nested pictures"); size_t b = 0; size_t bw = o.interspace + S::C * (o.interspace + o.block_size), bh = o.interspace + S::R * (o.interspace + o.block_size);
    for (int i = 0; i < n; ++i) for (int j : p[i]) { auto& q = boxes[b++]; CHECK(q[2] == bw && q[3] == bh, "size of block", i, j, q[2], q[3]); CHECK(q[0] == o.interspace + j * (bw + o.interspace) && q[1] == o.interspace + i * (bh + o.interspace), "place of block", i, j, "is", q[0], q[1]); CHECK(q[0] + q[2] <= W && q[1] + q[3] <= H, "block outside of the picture"); } }
  mc::state(mc::Hash()(t));
}
using BV1 = Dune::BlockVector<Dune::FieldVector<double, 1>>; using BV2 = Dune::BlockVector<Dune::FieldVector<double, 2>>; using BVF = Dune::BlockVector<Dune::FieldVector<float, 3>>; using BVS = Dune::BlockVector<double>; using BVN = Dune::BlockVector<BV2>;
inline BVN nested(mc::Chooser& c) { BVN v(c(4, "blocks")); for (auto& b : v) b.resize(c(3, "size")); return v; }
#if PART == 1
UNIT(matlab_scalar) { matlab<BCRS<double>>(c, 6); }
UNIT(matlab_fm1) { matlab<BCRS<FM<double, 1>>>(c, 6); }
UNIT(matlab_fm23) { matlab<BCRS<FM<double, 2, 3>>>(c, 6); }
UNIT(matlab_cplx) { matlab<BCRS<FM<Cx, 2>>>(c, 4); }
UNIT(matlab_cplx_scalar) { matlab<BCRS<Cx>>(c, 4); }
UNIT(matlab_float) { matlab<BCRS<FM<float, 1, 2>>>(c, 4); }
UNIT(matlab_diagonal) { matlab<BCRS<Dune::DiagonalMatrix<double, 2>>>(c, 4); }
UNIT(matlab_scaled_identity) { matlab<BCRS<Dune::ScaledIdentityMatrix<double, 2>>>(c, 4); }
UNIT(matlab_nested) { if (c.flag("blocks")) matlab<BCRS<BCRS<FM<double, 1, 2>>>>(c, 6); else matlab<BCRS<BCRS<double>>>(c, 6); }
UNIT(matlab_dense) { if (c.flag("blocks")) matlabDense<FM<double, 2, 3>>(c); else matlabDense<FM<Cx, 1>>(c); }
UNIT(matlab_vector) { switch (c(5, "type")) { case 0: return matlabVector(c, BV1(c(6, "size"))); case 1: return matlabVector(c, BV2(c(6, "size"))); case 2: return matlabVector(c, BVF(c(4, "size"))); case 3: return matlabVector(c, BVS(c(6, "size"))); default: return matlabVector(c, nested(c)); } }
#else
UNIT(print_scalar) { print<BCRS<double>>(c, mc::thorough() ? 9 : 6); }
UNIT(print_fm1) { print<BCRS<FM<double, 1>>>(c, 6); }
UNIT(print_fm23) { print<BCRS<FM<double, 2, 3>>>(c, 6); }
UNIT(print_cplx) { print<BCRS<FM<Cx, 2>>>(c, 4); }
UNIT(print_sparse_scalar) { printSparse<BCRS<double>>(c, mc::thorough() ? 9 : 6); }
UNIT(print_sparse_fm1) { printSparse<BCRS<FM<double, 1>>>(c, 4); }
UNIT(print_sparse_fm23) { printSparse<BCRS<FM<double, 2, 3>>>(c, 6); }
UNIT(print_vector) { switch (c(5, "type")) { case 0: return printVec(c, BV1(c(8, "size"))); case 1: return printVec(c, BV2(c(6, "size"))); case 2: return printVec(c, BVS(c(6, "size"))); case 3: { BVF v(c(4, "size")); return printVec(c, v); } default: { auto v = nested(c); for (auto& b : v) if (!b.size()) b.resize(1); return printVec(c, v); } } }
UNIT(svg_scalar) { svg<BCRS<double>>(c, mc::thorough() ? 9 : 6); }
UNIT(svg_fm1) { svg<BCRS<FM<double, 1>>>(c, 6); }
UNIT(svg_fm23) { svg<BCRS<FM<double, 2, 3>>>(c, 6); }
UNIT(svg_cplx) { svg<BCRS<FM<Cx, 2>>>(c, 4); }
#endif
