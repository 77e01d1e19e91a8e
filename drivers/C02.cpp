#include "vt.h"
#include <iterator>
using namespace vt;
template <typename T> T nz(Rng& r) { T x; do x = scalar<T>(r); while (x == T(0)); return x; }
template <typename T, std::size_t S> vm::vec<T, S> nzv(Rng& r) { vm::vec<T, S> v; for (std::size_t i = 0; i < S; ++i) v[i] = nz<T>(r); return v; }
template <typename T, std::size_t S> vm::vec<T, S> wide(Rng& r) {
  auto v = vec<T, S>(r);
  if constexpr (std::is_floating_point<T>::value)
    if (r.coin(3)) for (std::size_t i = 0; i < S; ++i) v[i] = T(r.real(-1, 1) * std::pow(10.0, r.range(-8, 8)));
  return v;
}
/** now and then zeros, infinities and NaN among the components, often the same in several operands */
static int theme = -1;
template <typename T, std::size_t S> vm::vec<T, S> spice(Rng& r, vm::vec<T, S> v) {
  if constexpr (std::is_floating_point<T>::value)
    if (r.coin(theme >= 0 ? 2 : 4)) for (std::size_t i = 0; i < S; ++i) if (r.coin()) {
      const T inf = std::numeric_limits<T>::infinity();
      const T c[] = {T(0), inf, -inf, std::numeric_limits<T>::quiet_NaN(), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min()};
      v[i] = c[theme >= 0 && r.coin() ? theme : r.below(7)];
    }
  return v;
}
template <typename T, std::size_t S, typename U, std::size_t V> void conv(Rng& r) {
  const auto a = r.coin() ? ivec<U, V>(r, 50) : vec<U, V>(r, 50);
  Ev e("conv", P<T>::name);
  bool exact = !std::is_integral<T>::value && (sizeof(T) >= sizeof(U) || std::is_integral<U>::value);
  e.k("a", a).b("exact", exact).k("r", vm::vec<T, S>(a));
}
struct Holder { int tag; vm::vec3d pos; };

template <typename T, std::size_t S> void sample(Rng& r) {
  const char* p = P<T>::name;
  const auto a = wide<T, S>(r), b = wide<T, S>(r);
  const T s = nz<T>(r); theme = r.coin() ? -1 : r.below(7);
  { const auto x = spice(r, a), y = spice(r, b), z = spice(r, r.coin(6) ? nzv<T, S>(r) : r.coin(6) ? vm::vec<T, S>::fill(s) : nzv<T, S>(r));
    const T w = spice(r, vm::vec<T, 1>(s))[0];
    { Ev e("add", p); e.k("a", x).k("b", y); e.k("r", x + y); }
    { Ev e("sub", p); e.k("a", x).k("b", y); e.k("r", x - y); }
    { Ev e("mul", p); e.k("a", x).k("b", y); e.k("r", x * y); }
    { Ev e("div", p); e.k("a", x).k("b", z); e.k("r", x / z); }
    { Ev e("smul", p); e.k("a", x).k("s", w); e.k("r", x * w).k("r2", w * x); }
    { Ev e("divs", p); e.k("a", x).k("s", w); e.k("r", x / w); }
    { Ev e("sdiv", p); e.k("a", z).k("s", w); e.k("r", w / z); } }
  { Ev e("neg", p); e.k("a", a); e.k("r", -a).k("plus", +a); }
  { Ev e("get", p); e.k("a", a);
    std::vector<T> l, x;
    const auto& ca = a;
    for (std::size_t i = 0; i < S; ++i) l.push_back(ca[i]);
    if constexpr (S >= 1) x.push_back(a.x());
    if constexpr (S >= 2) x.push_back(a.y());
    if constexpr (S >= 3) x.push_back(a.z());
    if constexpr (S >= 4) x.push_back(a.w());
    for (std::size_t i = 4; i < S; ++i) x.push_back(ca[i]);
    e.k("r", l).k("xyz", x); }
  for (std::size_t i = 0; i < S; ++i) {
    auto c = a; c[i] = s;
    Ev e("set", p); e.k("a", a).i("i", i).k("s", s); e.k("r", c);
  }
  if constexpr (S == 3) { Ev e("swz", p); e.k("a", a); e.k("xy", a.xy()).k("xz", a.xz()).k("yz", a.yz()).k("xyz", a.xyz()); }
  if constexpr (S == 4) { Ev e("swz", p); e.k("a", a); e.k("xy", a.xy()).k("xz", a.xz()).k("yz", a.yz()).k("xyz", a.xyz()).k("xyzw", a.xyzw()); }
  { Ev e("zero", p); e.k("r", vm::vec<T, S>()); }
  { const T x0 = scalar<T>(r), x1 = scalar<T>(r), x2 = scalar<T>(r);
    { Ev e("list", p); e.k("a", std::vector<T>{x0, x1, x2}); std::initializer_list<T> l{x0, x1, x2}; e.k("r", vm::vec<T, S>(l)); }
    { Ev e("list", p); e.k("a", std::vector<T>{x0}); std::initializer_list<T> l{x0}; e.k("r", vm::vec<T, S>(l)); }
    { Ev e("list", p); e.k("a", std::vector<T>{}); std::initializer_list<T> l{}; e.k("r", vm::vec<T, S>(l)); } }
  conv<T, S, double, S>(r); conv<T, S, float, S>(r); conv<T, S, int, S>(r);
  conv<T, S, double, S + 1>(r); conv<T, S, T, S + 2>(r);
  if constexpr (S > 1) { conv<T, S, double, S - 1>(r); conv<T, S, T, S - 1>(r); conv<T, S, float, 1>(r); }
  { Ev e("append", p); e.k("a", a).k("b", std::vector<T>{s}); e.k("r", vm::vec<T, S + 1>(a, s)); }
  if constexpr (std::is_same<T, double>::value) { vm::vec<float, S> g; vm::vec<int, S> k; for (std::size_t i = 0; i < S; ++i) { g[i] = float(a[i]); k[i] = r.range(-2000000000, 2000000000); }   // of other types than the component type
    { Ev e("append", p); e.k("a", g).k("b", std::vector<T>{s}); e.k("r", vm::vec<T, S + 1>(g, s)); }
    { Ev e("append", p); e.k("a", k).k("b", std::vector<T>{s, b[0]}); e.k("r", vm::vec<T, S + 2>(k, s, b[0])); }
    { const int x = r.range(-2000000000, 2000000000); Ev e("append", p); e.k("a", g).k("b", std::vector<T>{T(x), s}); e.k("r", vm::vec<T, S + 2>(g, x, s)); }
    { Ev e("conv", p); e.k("a", k).b("exact", true); e.k("r", vm::vec<T, S>(k)); } }
  { Ev e("append", p); e.k("a", a).k("b", std::vector<T>{s, a[0]}); e.k("r", vm::vec<T, S + 2>(a, s, a[0])); }
  { Ev e("fill", p); e.k("s", s); e.k("r", vm::vec<T, S>::fill(s)); }
  for (std::size_t i = 0; i < S; ++i) { Ev e("axis", p); e.i("i", i); e.k("r", vm::vec<T, S>::axis(i)); }
  { Ev e("consts", p);
    using V = vm::vec<T, S>;
    e.k("px", V::pos_x()).k("nx", V::neg_x());
    if constexpr (S >= 2) e.k("py", V::pos_y()).k("ny", V::neg_y());
    if constexpr (S >= 3) e.k("pz", V::pos_z()).k("nz", V::neg_z());
    e.k("zero", V::zero()).k("one", V::one());
    if constexpr (std::is_floating_point<T>::value) e.k("nan", V::nan()); }
  for (std::size_t i = 0; i + 1 <= S; ++i) { Ev e("slice", p); e.k("a", a).i("i", i); e.k("r", vm::slice<1>(a, i)); }
  if constexpr (S >= 2) for (std::size_t i = 0; i + 2 <= S; ++i) { Ev e("slice", p); e.k("a", a).i("i", i); e.k("r", vm::slice<2>(a, i)); }
  if constexpr (S >= 3) for (std::size_t i = 0; i + 3 <= S; ++i) { Ev e("slice", p); e.k("a", a).i("i", i); e.k("r", vm::slice<3>(a, i)); }
  if constexpr (S == 3) for (std::size_t i = 0; i < 3; ++i) {
    Ev e("swizzle", p); e.k("a", a).i("i", i);
    const auto w = vm::swizzle(a, i);
    e.k("r", w).k("un", vm::unswizzle(w, i)).k("us", vm::unswizzle(a, i));
  }
  std::vector<vm::vec<T, S>> l;
  for (int i = r.coin(12) ? r.range(5, 40) : r.coin(60) ? r.range(200, 1100) : r.below(5); i > 0; --i)
    l.push_back(!l.empty() && r.coin(5) ? l[r.below(int(l.size()))] : vec<T, S>(r));
  const T t = r.coin(3) ? T(r.range(-1, 1)) : s;      // factors zero, one and minus one among others
  { Ev e("ladd", p); e.k("a", l).k("b", b); e.k("r", l + b).k("r2", b + l); }
  { Ev e("lmul", p); e.k("a", l).k("s", t); e.k("r", l * t).k("r2", t * l); }
  const std::array<vm::vec<T, S>, 3> ar{{a, b, a}};
  { Ev e("ladd", p); e.k("a", ar).k("b", b); e.k("r", ar + b).k("r2", b + ar); }
  { Ev e("lmul", p); e.k("a", ar).k("s", t); e.k("r", ar * t).k("r2", t * ar); }
  if (r.coin(4)) {
    std::array<vm::vec<T, S>, 9> big; for (auto& x : big) x = vec<T, S>(r);
    { Ev e("ladd", p); e.k("a", big).k("b", b); e.k("r", big + b).k("r2", b + big); }
    { Ev e("lmul", p); e.k("a", big).k("s", t); e.k("r", big * t).k("r2", t * big); } }
  { Ev e("smul", p); e.k("a", a).k("s", t); e.k("r", a * t).k("r2", t * a); }
  { Ev e("vertices", p); e.k("a", l); std::vector<vm::vec<T, S>> o; vm::vec<T, S>::get_vertices(l.begin(), l.end(), std::back_inserter(o)); e.k("r", o); }
  if constexpr (std::is_floating_point<T>::value) {
    l.push_back(a);
    { Ev e("average", p); e.k("a", l); e.k("r", vm::average(l.begin(), l.end())); }
    if constexpr (std::is_same<T, double>::value && S == 3) {
      std::vector<Holder> h; for (auto& x : l) h.push_back({7, x});
      Ev e("average", p); e.k("a", l); e.k("r", vm::average(h.begin(), h.end(), [](const Holder& x) { return x.pos; }));
    }
  }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) {
    sample<double, 3>(c.r); sample<float, 3>(c.r); sample<double, 1>(c.r); sample<float, 2>(c.r);
    sample<double, 2>(c.r); sample<double, 4>(c.r); sample<float, 4>(c.r); sample<int, 3>(c.r); sample<int, 2>(c.r); if (i % 3 == 1) { sample<double, 5>(c.r); sample<float, 1>(c.r); sample<int, 4>(c.r); sample<float, 6>(c.r); sample<int, 1>(c.r); }
  }
  return done();
}
