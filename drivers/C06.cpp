#include "vt.h"
#include <vecmath/scalar.h>
using namespace vt;
template <typename T> T val(Rng& r) {
  if constexpr (std::is_floating_point<T>::value) {
    if (r.coin(12)) return std::numeric_limits<T>::infinity() * T(r.sgn());
    if (r.coin(12)) return std::numeric_limits<T>::denorm_min() * T(r.range(-3, 3));
    if (r.coin(12)) return std::numeric_limits<T>::max() * T(r.sgn());
  }
  return scalar<T>(r, 9);
}
template <typename T> void sel(Rng& r) {
  const char* p = P<T>::name;
  const T a = val<T>(r), b = r.coin(4) ? T(-a) : val<T>(r), c = r.coin(4) ? a : val<T>(r), d = val<T>(r);
  using L = std::vector<T>;
  { Ev e("min", p); e.k("a", L{a}); e.k("r", vm::min(a)); }
  { Ev e("min", p); e.k("a", L{a, b}); e.k("r", vm::min(a, b)); }
  { Ev e("min", p); e.k("a", L{a, b, c}); e.k("r", vm::min(a, b, c)); }
  { Ev e("min", p); e.k("a", L{a, b, c, d}); e.k("r", vm::min(a, b, c, d)); }
  { Ev e("max", p); e.k("a", L{a}); e.k("r", vm::max(a)); }
  { Ev e("max", p); e.k("a", L{a, b}); e.k("r", vm::max(a, b)); }
  { Ev e("max", p); e.k("a", L{a, b, c}); e.k("r", vm::max(a, b, c)); }
  { Ev e("max", p); e.k("a", L{a, b, c, d}); e.k("r", vm::max(a, b, c, d)); }
  { Ev e("absmin", p); e.k("a", L{a, b}); e.k("r", vm::abs_min(a, b)); }
  { Ev e("absmin", p); e.k("a", L{a, b, c}); e.k("r", vm::abs_min(a, b, c)); }
  { Ev e("absmin", p); e.k("a", L{a, b, c, d}); e.k("r", vm::abs_min(a, b, c, d)); }
  { Ev e("absmax", p); e.k("a", L{a, b}); e.k("r", vm::abs_max(a, b)); }
  { Ev e("absmax", p); e.k("a", L{a, b, c}); e.k("r", vm::abs_max(a, b, c)); }
  { Ev e("absmax", p); e.k("a", L{a, b, c, d}); e.k("r", vm::abs_max(a, b, c, d)); }
  const T lo = std::min(a, b), hi = std::max(a, b);
  { Ev e("clamp", p); e.k("a", c).k("lo", lo).k("hi", hi); e.k("r", vm::clamp(c, lo, hi)); }
  { Ev e("clamp01", p); e.k("a", c); e.k("r", vm::clamp(c)); }
  { Ev e("abs", p); e.k("a", a); e.k("r", vm::abs(a)); }
  { Ev e("sign", p); e.k("a", a); e.k("r", vm::sign(a)); }
  { Ev e("step", p); e.k("a", a).k("b", c); e.k("r", vm::step(c, a)); }
  { Ev e("contains", p); e.k("a", a).k("s", c).k("t", d); e.b("r", vm::contains(a, c, d)); }
  { Ev e("contains", p); e.k("a", a).k("s", d).k("t", c); e.b("r", vm::contains(a, d, c)); }
  { const T x = T(r.real(0, 50)), y = r.coin(3) ? x : T(r.real(0, 50)), s = T(r.sgn());
    Ev e("absdiff", p); e.k("a", T(s * x)).k("b", T(s * y)); e.k("r", vm::abs_difference(T(s * x), T(s * y))); }
  if constexpr (std::is_same<T, int>::value) {
    const unsigned x = r.below(100), y = r.below(100);
    Ev e("absdiff", p); e.k("a", x).k("b", y); e.k("r", vm::abs_difference(x, y));
  }
}
template <typename T> void flt(Rng& r) {
  const char* p = P<T>::name;
  using L = std::vector<T>;
  const T q = std::numeric_limits<T>::quiet_NaN();
  auto mb = [&] { return r.coin(3) ? q : val<T>(r); };
  for (int i = 0; i < 3; ++i) {
    const T a = mb(), b = mb(), c = mb(), d = mb();
    { Ev e("safemin", p); e.k("a", L{a, b}); e.k("r", vm::safe_min(a, b)); }
    { Ev e("safemax", p); e.k("a", L{a, b}); e.k("r", vm::safe_max(a, b)); }
    { Ev e("safemin", p); e.k("a", L{a, b, c}); e.k("r", vm::safe_min(a, b, c)); }
    { Ev e("safemax", p); e.k("a", L{a, b, c}); e.k("r", vm::safe_max(a, b, c)); }
    { Ev e("safemin", p); e.k("a", L{a, b, c, d}); e.k("r", vm::safe_min(a, b, c, d)); }
    { Ev e("safemax", p); e.k("a", L{a, b, c, d}); e.k("r", vm::safe_max(a, b, c, d)); }
    { Ev e("class", p); e.k("a", a); e.b("nan", vm::is_nan(a)).b("inf", vm::is_inf(a)); }
  }
  { Ev e("class", p); e.k("a", vm::nan<T>()); e.b("nan", vm::is_nan(vm::nan<T>())).b("inf", vm::is_inf(vm::nan<T>())); }
  const T a = scalar<T>(r), b = scalar<T>(r), f = r.coin(3) ? T(r.range(0, 1)) : T(r.real(-0.5, 1.5));
  { Ev e("mix", p); e.k("a", a).k("b", b).k("f", f); e.k("r", vm::mix(a, b, f)); }
  { T lo = scalar<T>(r), hi = lo + T(r.real(0.1, 10)); const T x = r.coin(3) ? (r.coin() ? lo : hi) : lo + (hi - lo) * T(r.real(-0.3, 1.3));
    if (r.coin(4)) std::swap(lo, hi);
    Ev e("smooth", p); e.k("a", x).k("lo", lo).k("hi", hi); e.k("r", vm::smoothstep(lo, hi, x)); }
  { const T eps = r.coin(4) ? T(0) : T(std::pow(10.0, -r.range(0, 5)));
    const T y = r.coin() ? a + eps * T(r.real(-2, 2)) : r.coin() ? a : b;
    { Ev e("isequal", p); e.k("a", a).k("b", y).k("eps", eps); e.b("r", vm::is_equal(a, y, eps)); }
    { const T c = r.coin(3) ? std::numeric_limits<T>::min() * T(r.range(1, 9)) : a, n = std::nextafter(c, T(r.sgn()) * T(1e30)); Ev e("isequal", p); e.k("a", c).k("b", n).k("eps", T(0)); e.b("r", vm::is_equal(c, n, T(0))); }
    const T z = r.coin(4) ? T(0) : r.coin() ? eps * T(r.sgn()) : r.coin() ? std::nextafter(eps, T(r.below(2))) : eps * T(r.real(-2, 2));
    { Ev e("iszero", p); e.k("a", z).k("eps", eps); e.b("r", vm::is_zero(z, eps)); } }
  { T x = val<T>(r); if (r.coin(4)) x = std::ldexp(T(r.sgn()), r.range(-20, 20)); if (x != std::numeric_limits<T>::max() && x != -std::numeric_limits<T>::infinity()) { Ev e("next", p); e.k("a", x); e.k("r", vm::nextgreater(x)); } }
}
template <typename T> void idx(Rng& r) {
  const int n = r.range(1, 9), s = r.range(0, 12);
  for (int i = 0; i < n; ++i) {
    { Ev e("succ"); e.i("a", i).i("n", n).i("s", s); e.i("r", vm::succ(T(i), T(n), T(s))); }
    { Ev e("pred"); e.i("a", i).i("n", n).i("s", s); e.i("r", vm::pred(T(i), T(n), T(s))); }
    { Ev e("succ"); e.i("a", i).i("n", n).i("s", 1); e.i("r", vm::succ(T(i), n)); }
    { Ev e("pred"); e.i("a", i).i("n", n).i("s", 1); e.i("r", vm::pred(T(i), n)); }
  }
}
template <typename T, std::size_t S> void many(Rng& r) {
  vm::vec<T, S> a, b, c, f, lo, hi;
  for (std::size_t i = 0; i < S; ++i) {
    a[i] = val<T>(r); b[i] = r.coin(4) ? -a[i] : val<T>(r); c[i] = val<T>(r);
    if constexpr (std::is_floating_point<T>::value) {
      if (!std::isfinite(a[i]) || std::fabs(a[i]) > 1e6) a[i] = T(r.range(-3, 3));
      if (!std::isfinite(b[i]) || std::fabs(b[i]) > 1e6) b[i] = T(r.range(-3, 3));
      f[i] = T(r.real(-0.5, 1.5)); lo[i] = T(r.real(-5, 5)); hi[i] = lo[i] + T(r.real(0.5, 5));
    }
  }
  Ev e("vec", P<T>::name);
  e.k("a", a).k("b", b).k("c", c).k("f", f).k("lo", lo).k("hi", hi);
  e.k("min", vm::min(a, b)).k("max", vm::max(a, b)).k("min3", vm::min(a, b, c)).k("max3", vm::max(a, b, c));
  e.k("amin", vm::abs_min(a, b)).k("amax", vm::abs_max(a, b)).k("amin3", vm::abs_min(a, b, c)).k("amax3", vm::abs_max(a, b, c));
  vm::vec<T, S> l, h;
  for (std::size_t i = 0; i < S; ++i) { l[i] = std::min(a[i], b[i]); h[i] = std::max(a[i], b[i]); }
  e.k("clamp", vm::clamp(c, l, h)).k("abs", vm::abs(a)).k("sign", vm::sign(a)).k("step", vm::step(b, a));
  if constexpr (std::is_floating_point<T>::value) e.k("mix", vm::mix(a, b, f)).k("smooth", vm::smoothstep(lo, hi, a));
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) {
    sel<double>(c.r); sel<float>(c.r); sel<int>(c.r); flt<double>(c.r); flt<float>(c.r);
    if (i % 4 == 0) { idx<std::size_t>(c.r); idx<int>(c.r); idx<unsigned>(c.r); }
    many<double, 3>(c.r); many<float, 2>(c.r); many<int, 3>(c.r); many<double, 4>(c.r); if (i % 3 == 1) { many<double, 2>(c.r); many<float, 3>(c.r); many<float, 4>(c.r); many<int, 2>(c.r); many<double, 1>(c.r); many<double, 6>(c.r); }
  }
  return done();
}
