// C03: vector arithmetic, scalar products and norms agree with the flat array.
#include <limits>
#include "flat.hh"
#include <dune/istl/vbvector.hh>
#include <dune/istl/multitypeblockvector.hh>
using namespace Dune; using namespace flat; using C = std::complex<double>;
template <class K> constexpr bool canNan = std::is_floating_point_v<K> || isComplex<K>::value;

// generic access: at(v, i) for every flat position, in order
template <class V> struct Flat;
template <class B, class A> struct Flat<BlockVector<B, A>> { using K = typename VB<B>::F; template <class V, class G> static void each(V& v, G g) { for (size_t i = 0; i < v.size(); ++i) { if constexpr (requires { v[i].capacity(); }) Flat<B>::each(v[i], g); else for (int k = 0; k < VB<B>::N; ++k) g(VB<B>::at(v[i], k)); } } };
template <class B, class A> struct Flat<VariableBlockVector<B, A>> { using K = typename VB<B>::F; template <class V, class G> static void each(V& v, G g) { for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j) for (int k = 0; k < VB<B>::N; ++k) g(VB<B>::at(v[i][j], k)); } };
template <class... T> struct Flat<MultiTypeBlockVector<T...>> { using K = typename MultiTypeBlockVector<T...>::field_type; template <class V, class G> static void each(V& v, G g) { Hybrid::forEach(v, [&](auto& b) { Flat<std::decay_t<decltype(b)>>::each(b, g); }); } };
template <class K, int n> struct Flat<FieldVector<K, n>> { template <class V, class G> static void each(V& v, G g) { for (int i = 0; i < n; ++i) g(v[i]); } };
template <class V> std::vector<typename Flat<V>::K> gets(const V& v) { std::vector<typename Flat<V>::K> r; Flat<V>::each(v, [&](const auto& x) { r.push_back(x); }); return r; }
template <class V, class W> void puts_(V& v, const W& w) { size_t i = 0; Flat<V>::each(v, [&](auto& x) { x = w[i++]; }); }

template <class V> void arith(mc::Chooser& c, V v0, const char* what) {
  using K = typename Flat<V>::K;
  unsigned seed = c(4, "values");
  const size_t n = gets(v0).size();
  auto gen = [&](unsigned s) { std::vector<K> r(n); for (size_t i = 0; i < n; ++i) r[i] = seed == 3 && (i + s) % 2 ? K(0) : val<K>(seed * 7919u + s * 977u + (unsigned)i * 31u + 5u); return r; };
  auto fx = gen(1), fy = gen(2); V x(v0), y(v0); puts_(x, fx); puts_(y, fy);
  NOTE(what, " x=", show(fx), " y=", show(fy)); { mc::Hash h; h(std::string(what))((int)n)((int)seed); mc::state(h); }
  auto eq = [&](const V& got, const std::vector<K>& want, const char* op) { mc::step(); auto g = gets(got); CHECK(g == want, what, " ", op, ": ", show(g), " expected ", show(want)); };
  auto map = [&](auto f) { std::vector<K> r(n); for (size_t i = 0; i < n; ++i) r[i] = f(fx[i], fy[i]); return r; };
  eq(x, fx, "values");
  { V z(x); z += y; eq(z, map([](K a, K b) { return a + b; }), "+="); z -= y; eq(z, fx, "-="); z -= y; eq(z, map([](K a, K b) { return a - b; }), "-="); }
  { V z(x); z += z; eq(z, map([](K a, K) { return a + a; }), "+= itself"); z -= z; eq(z, std::vector<K>(n, K(0)), "-= itself"); }
  for (K al : {K(0), K(1), K(-1), num<K>(3, 2)}) {
    V z(x); z.axpy(al, y); eq(z, map([&](K a, K b) { return a + al * b; }), "axpy");
    V w(x); w *= al; eq(w, map([&](K a, K) { return a * al; }), "*=");
  }
  { V z(x); z /= K(4); eq(z, map([](K a, K) { return a / K(4); }), "/="); }
  { V z(x); z = K(3); eq(z, std::vector<K>(n, K(3)), "= scalar"); }
  K tdot(0), hdot(0); double n1 = 0, n1r = 0, n2 = 0, ni = 0, nir = 0;
  for (size_t i = 0; i < n; ++i) { tdot += fx[i] * fy[i]; hdot += cj(fx[i]) * fy[i]; n1 += abs2(fx[i]); n1r += abs1(fx[i]); n2 += abs2(fx[i]) * abs2(fx[i]); ni = std::max(ni, abs2(fx[i])); nir = std::max(nir, abs1(fx[i])); }
  CHECK(K(x * y) == tdot, what, " x*y = ", x * y, " expected ", tdot); CHECK(K(x.dot(y)) == hdot, what, " x.dot(y) = ", x.dot(y), " expected ", hdot);
  auto nrm = [&](const V& z, double a, double b, double d, double e, double f) {
    double tol = std::is_same_v<K, float> ? 1e-6 : 1e-13; mc::step(6);
    CHECK(mc::close(z.one_norm(), a, 1, tol), what, " one_norm ", z.one_norm(), " expected ", a); CHECK(mc::close(z.one_norm_real(), b, 1, tol), what, " one_norm_real ", z.one_norm_real(), " expected ", b);
    CHECK(mc::close(z.two_norm2(), d, 1, tol), what, " two_norm2 ", z.two_norm2(), " expected ", d); CHECK(mc::close(z.two_norm(), std::sqrt(d), 1, tol), what, " two_norm ", z.two_norm(), " expected ", std::sqrt(d));
    CHECK(mc::close(z.infinity_norm(), e, 1, tol), what, " infinity_norm ", z.infinity_norm(), " expected ", e); CHECK(mc::close(z.infinity_norm_real(), f, 1, tol), what, " infinity_norm_real ", z.infinity_norm_real(), " expected ", f); };
  nrm(x, n1, n1r, n2, ni, nir);
  CHECK(x.dim() == n, what, " dim ", x.dim(), " expected ", n);
  if constexpr (canNan<K>) for (size_t k = 0; k < n && k < 40; ++k) { auto f = fx; f[k] = K(std::nan("")); V z(x); puts_(z, f); double q = std::nan(""); nrm(z, q, q, q, q, q); }
  eq(x, fx, "left operand unchanged"); eq(y, fy, "right operand unchanged");
}
static const std::vector<int> sizes{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64, 65, 100};
template <class V> V sized(mc::Chooser& c) { V v; make(v, c.of(sizes, "blocks")); return v; }
UNIT(bv_double) { using V = BlockVector<double>; arith<V>(c, sized<V>(c), "BlockVector<double>"); }
UNIT(bv_float) { using V = BlockVector<float>; arith<V>(c, sized<V>(c), "BlockVector<float>"); }
UNIT(bv_fv1) { using V = BlockVector<FieldVector<double, 1>>; arith<V>(c, sized<V>(c), "BlockVector<FV1>"); }
UNIT(bv_fv3) { using V = BlockVector<FieldVector<double, 3>>; arith<V>(c, sized<V>(c), "BlockVector<FV3>"); }
UNIT(bv_complex) { using V = BlockVector<C>; arith<V>(c, sized<V>(c), "BlockVector<complex>"); }
UNIT(bv_fvc2) { using V = BlockVector<FieldVector<C, 2>>; arith<V>(c, sized<V>(c), "BlockVector<FVc2>"); }
UNIT(nested) { using V = BlockVector<BlockVector<FieldVector<double, 2>>>; int n = c(4, "outer"); V v(n); for (auto& b : v) b.resize(c(4, "inner")); arith<V>(c, v, "nested BlockVector"); }
UNIT(nested_complex) { using V = BlockVector<BlockVector<C>>; int n = c(4, "outer"); V v(n); for (auto& b : v) b.resize(c(3, "inner")); arith<V>(c, v, "nested complex BlockVector"); }
template <class V> V vbv(mc::Chooser& c, int mx) { int n = c(4, "blocks"); V v(n); auto e = v.createend(); for (auto it = v.createbegin(); it != e; ++it) it.setblocksize(c(mx, "block size")); v = 0; return v; }
UNIT(vbv_double) { using V = VariableBlockVector<double>; arith<V>(c, vbv<V>(c, 4), "VariableBlockVector<double>"); }
UNIT(vbv_fvc2) { using V = VariableBlockVector<FieldVector<C, 2>>; arith<V>(c, vbv<V>(c, 3), "VariableBlockVector<FVc2>"); }
UNIT(multi) { using V = MultiTypeBlockVector<BlockVector<double>, BlockVector<FieldVector<double, 2>>, FieldVector<double, 3>>; V v; v[Indices::_0].resize(c(4, "first")); v[Indices::_1].resize(c(4, "second")); arith<V>(c, v, "MultiTypeBlockVector"); }
UNIT(multi_complex) { using V = MultiTypeBlockVector<BlockVector<FieldVector<C, 1>>, BlockVector<FieldVector<C, 2>>>; V v; v[Indices::_0].resize(c(4, "first")); v[Indices::_1].resize(c(4, "second")); arith<V>(c, v, "complex MultiTypeBlockVector"); }
UNIT(multi_nested) { using W = MultiTypeBlockVector<BlockVector<double>, FieldVector<double, 2>>; using V = MultiTypeBlockVector<W, BlockVector<double>>; V v; v[Indices::_0][Indices::_0].resize(c(4, "first")); v[Indices::_1].resize(c(4, "second")); arith<V>(c, v, "nested MultiTypeBlockVector"); }
// scalar products of real with complex vectors
UNIT(mixed) {
  int n = c.of(sizes, "size"); BlockVector<FieldVector<double, 2>> r(n); BlockVector<FieldVector<C, 2>> z(n); C t(0), h(0);
  for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) { r[i][k] = val<double>(i * 7 + k); z[i][k] = val<C>(i * 13 + k + 4); t += r[i][k] * z[i][k]; h += std::conj(z[i][k]) * r[i][k]; }
  mc::state(mc::Hash()(n)); mc::step(4);
  CHECK(C(r * z) == t && C(z * r) == t, "mixed product"); CHECK(C(r.dot(z)) == t, "real.dot(complex)"); CHECK(C(z.dot(r)) == h, "complex.dot(real) = ", z.dot(r), " expected ", h);
}
// a window onto a block shares the entries and does arithmetic on them
UNIT(windows) {
  using V = VariableBlockVector<double>; V v(3); { int s = 0; for (auto it = v.createbegin(); it != v.createend(); ++it) it.setblocksize(++s); }
  int k = 0; for (size_t i = 0; i < 3; ++i) for (auto& x : v[i]) x = ++k;
  int a = c(3), op = c(4); auto before = gets(v); auto w = v[a]; mc::step(); mc::state(mc::Hash()(a)(op));
  if (op == 0) w *= 3.0; else if (op == 1) w = 5.0; else if (op == 2) w += v[a]; else w.axpy(2.0, v[a]);
  auto after = gets(v); size_t p = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j, ++p) { double e = before[p]; if (i == a) e = op == 1 ? 5 : op == 2 ? 2 * e : 3 * e; CHECK(after[p] == e, "entry ", p, " is ", after[p], " expected ", e); }
}
