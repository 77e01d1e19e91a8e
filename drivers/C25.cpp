#include "vt.h"
#include <vecmath/scalar.h>
#include <vecmath/line.h>
#include <vecmath/ray.h>
#include <vecmath/plane.h>
#include <vecmath/segment.h>
using namespace vt;
template <typename T> void root(T a) { Ev e("sqrt", P<T>::name); e.k("a", a); e.k("r", vm::sqrt_c(a)).k("r2", vm::sqrt(a)); }
template <typename T> T wide(Rng& r) {
  const int lo = std::numeric_limits<T>::min_exponent - 1, hi = std::numeric_limits<T>::max_exponent - 1;
  T m = T(1) + T(r.unit());
  switch (r.below(5)) { case 0: m = T(1); break; case 1: m = std::nextafter(T(1), T(2)); break; case 2: m = std::nextafter(T(2), T(1)); break; default:; }
  return std::ldexp(m, r.coin(3) ? r.range(lo, hi) : r.range(-20, 20));
}
// the constexpr variants and their run-time counterparts on the same arguments
template <typename T, std::size_t S> vm::vec<T, S> rv(Rng& r) {
  const double w = std::is_same<T, double>::value ? 9 : 4;
  switch (r.below(4)) { case 0: return dir<T, S>(r) * T(std::pow(10.0, r.real(-w, w)));
    case 1: return dir<T, S>(r) * (T(1) + T(r.real(-1, 1) * std::pow(10.0, r.range(-w, -1))));   // almost unit vectors
    default: return vec<T, S>(r); }
}
template <typename T, std::size_t S> void variants(Rng& r) {
  using V = vm::vec<T, S>; const char* p = P<T>::name;
  const V v = rv<T, S>(r);
  if (vm::squared_length(v) > T(1e-25)) { Ev e("length", p); e.k("a", v); e.k("r", vm::length_c(v)).k("r2", vm::length(v)).k("n", vm::normalize_c(v)).k("n2", vm::normalize(v)); }
  { const V off = r.coin() ? V::zero() : rv<T, S>(r), a = v + off, b = off; if (vm::squared_distance(a, b) > T(1e-25)) {
    Ev e("dist", p); e.k("a", a).k("b", b); const vm::segment<T, S> s(a, b); e.k("r", vm::distance_c(a, b)).k("r2", vm::distance(a, b)).k("s", s.length_c()).k("s2", s.length()); } }
  { const T eps = r.coin() ? vm::constants<T>::almost_zero() : T(std::pow(10.0, r.real(-6, -1))); V w = rv<T, S>(r); if (r.coin()) w = dir<T, S>(r) * (T(1) + eps * T(r.range(-3, 3)) / T(2));
    Ev e("isunit", p); e.k("a", w).k("eps", eps); e.b("r", vm::is_unit_c(w, eps)).b("r2", vm::is_unit(w, eps)); }
  { const T eps = r.coin() ? vm::constants<T>::colinear_epsilon() : T(std::pow(10.0, r.real(-5, -1))); V a = rv<T, S>(r), b = rv<T, S>(r); if (r.coin()) b = (a * T(r.sgn()) + dir<T, S>(r) * vm::length(a) * T(r.coin() ? 0 : r.real(0, 0.02))) * T(std::pow(2.0, r.range(-6, 6)));
    if (vm::squared_length(a) > T(1e-12) && vm::squared_length(b) > T(1e-12)) { Ev e("parallel", p); e.k("a", a).k("b", b).k("eps", eps); e.b("r", vm::is_parallel_c(a, b, eps)).b("r2", vm::is_parallel(a, b, eps)); } }
  { const V a = ivec<T, S>(r, 30), d = ivec<T, S>(r, 4); const V q = a + d * T(r.range(-3, 3)), b = a + d * T(r.range(-3, 3));
    Ev e("between", p); e.k("q", q).k("a", a).k("b", b); e.b("r", vm::is_between_c(q, a, b)).b("r2", vm::is_between(q, a, b)); }
  { // a well-conditioned linear map with a small or large translation
    vm::mat<T, S + 1, S + 1> m = vm::mat<T, S + 1, S + 1>::identity(); const V d = dir<T, S>(r), o = r.coin(4) ? rv<T, S>(r) : vec<T, S>(r); double len;
    const double big = r.coin() ? 1 : std::pow(10.0, r.range(1, std::is_same<T, double>::value ? 12 : 6));
    do { for (std::size_t c = 0; c <= S; ++c) for (std::size_t k = 0; k < S; ++k) m.v[c][k] = T((r.coin(3) ? r.range(-2, 2) : r.real(-2, 2)) * (c == S ? big : 1));
      double x2 = 0; for (std::size_t k = 0; k < S; ++k) { double x = 0; for (std::size_t c = 0; c < S; ++c) x += double(m.v[c][k]) * d[c]; x2 += x * x; } len = std::sqrt(x2); } while (len < 0.2);
    { Ev e("xf", p); e.str("kind", "line").k("m", m).k("o", o).k("d", d); const vm::line<T, S> l(o, d); const auto a = l.transform_c(m), b = l.transform(m); e.k("rp", a.point).k("rd", a.direction).k("rp2", b.point).k("rd2", b.direction); }
    { Ev e("xf", p); e.str("kind", "ray").k("m", m).k("o", o).k("d", d); const vm::ray<T, S> l(o, d); const auto a = l.transform_c(m), b = l.transform(m); e.k("rp", a.origin).k("rd", a.direction).k("rp2", b.origin).k("rd2", b.direction); }
    { const T dist = scalar<T>(r); Ev e("xplane", p); e.k("m", m).k("n", d).k("dist", dist); const vm::plane<T, S> l(dist, d); const auto a = l.transform_c(m), b = l.transform(m); e.k("rd", a.normal).k("rd2", b.normal).k("h", a.distance).k("h2", b.distance); }
  }
}
template <typename T> void rnd(Rng& r) {
  if (r.coin(4)) { variants<T, 3>(r); if (r.coin()) variants<T, 2>(r); else variants<T, 4>(r); }
  root<T>(wide<T>(r)); root<T>(T(r.range(0, 100000)));
  { const T x = T(r.range(1, 4000)) * std::ldexp(T(1), r.range(-6, 2)); root<T>(x * x); root<T>(std::nextafter(T(x * x), T(0))); root<T>(std::nextafter(T(x * x), T(1e9))); }   // around squares
  switch (r.below(10)) {
    case 0: root<T>(-wide<T>(r)); break; case 1: root<T>(std::numeric_limits<T>::infinity()); break; case 2: root<T>(std::numeric_limits<T>::quiet_NaN()); break;
    case 3: root<T>(T(0)); break; case 4: root<T>(-T(0)); break; case 5: root<T>(std::numeric_limits<T>::max()); break; case 6: root<T>(std::numeric_limits<T>::min()); break; case 7: root<T>(-std::numeric_limits<T>::infinity()); break; default:;
  }
  const auto v = vec<T, 3>(r);
  if (vm::squared_length(v) > T(1e-12)) { Ev e("length", P<T>::name); e.k("a", v); e.k("r", vm::length_c(v)).k("r2", vm::length(v)).k("n", vm::normalize_c(v)).k("n2", vm::normalize(v)); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  std::ifstream f(c.beh);
  for (std::string s; f >> s;) { const auto k = s.find('/'); const double x = k == s.npos ? std::stod(s) : std::stod(s.substr(0, k)) / std::stod(s.substr(k + 1)); root<double>(x); root<float>(float(x)); }
  for (long i = 0; i < c.n; ++i) { rnd<double>(c.r); rnd<float>(c.r); }
  return done();
}
