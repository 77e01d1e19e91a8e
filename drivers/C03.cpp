#include "vt.h"
using namespace vt;
template <typename T, std::size_t S> vm::vec<T, S> some(Rng& r) {
  auto v = vec<T, S>(r);
  if (r.coin(6)) for (std::size_t i = 0; i < S; ++i) v[i] = T(v[i] * T(std::pow(10.0, r.range(-6, 6))));
  return v;
}
template <typename T, std::size_t S> vm::vec<T, S> nonzero(Rng& r) {
  vm::vec<T, S> v;
  bool z;
  do { v = some<T, S>(r); z = true; for (std::size_t i = 0; i < S; ++i) if (std::fabs(v[i]) > 1e-8) z = false; } while (z);
  return v;
}
/** a threshold close to the value a predicate compares with it */
template <typename T> T around(Rng& r, double x) {
  x = std::fabs(x);
  switch (r.below(5)) {
    case 0: return T(x * 1.01 + 1e-30);
    case 1: return T(x * 0.99);
    case 2: return T(x * 4);
    case 3: return T(x / 4);
    default: return T(0.01);
  }
}
template <typename T, std::size_t S> void sample(Rng& r) {
  const char* p = P<T>::name;
  const auto a = some<T, S>(r), b = some<T, S>(r), u = nonzero<T, S>(r), v = nonzero<T, S>(r);
  { Ev e("dot", p); e.k("a", a).k("b", b); e.k("r", vm::dot(a, b)).k("r2", vm::dot(b, a)); }
  if constexpr (S == 3) { Ev e("cross", p); e.k("a", a).k("b", b); e.k("r", vm::cross(a, b)); }
  { Ev e("sqlen", p); e.k("a", a); e.k("r", vm::squared_length(a)); }
  { Ev e("len", p); e.k("a", a); e.k("r", vm::length(a)); }
  { Ev e("len", p); e.k("a", a); e.k("r", vm::length_c(a)); }
  { Ev e("norm", p); e.k("a", u); e.k("r", vm::normalize(u)); }
  { Ev e("norm", p); e.k("a", u); e.k("r", vm::normalize_c(u)); }
  { Ev e("sqdist", p); e.k("a", a).k("b", b); e.k("r", vm::squared_distance(a, b)); }
  { Ev e("dist", p); e.k("a", a).k("b", b); e.k("r", vm::distance(a, b)); }
  { Ev e("dist", p); e.k("a", a).k("b", b); e.k("r", vm::distance_c(a, b)); }
  { Ev e("hom", p); e.k("a", a); e.k("r", vm::to_homogeneous_coords(a)); }
  { Ev e("homcart", p); e.k("a", a); e.k("r", vm::to_cartesian_coords(vm::to_homogeneous_coords(a))); }
  if constexpr (S > 1) { auto h = a; if (h[S - 1] == T(0)) h[S - 1] = T(2); Ev e("cart", p); e.k("a", h); e.k("r", vm::to_cartesian_coords(h)); }
  { auto w = vm::normalize(u) * T(r.coin(3) ? 1.0 : r.real(0.9, 1.1));
    const T eps = around<T>(r, double(vm::length(w)) - 1.0);
    { Ev e("isunit", p); e.k("a", w).k("eps", eps); e.b("r", vm::is_unit(w, eps)); }
    { Ev e("isunit", p); e.k("a", w).k("eps", eps); e.b("r", vm::is_unit_c(w, eps)); } }
  { auto w = some<T, S>(r); if (r.coin()) w = w * T(0.0001);
    T m = 0; for (std::size_t i = 0; i < S; ++i) m = std::max(m, T(std::fabs(w[i])));
    const T eps = r.coin(3) ? m : r.coin(4) ? T(0) : around<T>(r, m);
    if (r.coin(5)) w[r.below(S)] = r.coin(3) ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::infinity() * T(r.sgn());
    Ev e("iszero", p); e.k("a", w).k("eps", eps); e.b("r", vm::is_zero(w, eps)); }
  { auto w = a; if (r.coin()) w[r.below(S)] = std::numeric_limits<T>::quiet_NaN(); if (r.coin(3)) w[r.below(S)] = std::numeric_limits<T>::infinity();
    Ev e("isnan", p); e.k("a", w); e.b("r", vm::is_nan(w)); }
  { auto w = ivec<T, S>(r, 20); const T d = T(r.coin() ? 0 : r.coin() ? 0.25 : 0.125) * T(r.sgn()); if (r.coin(3)) w = w * T(std::ldexp(1.0, r.range(4, std::is_same<T, float>::value ? 14 : 44))); w[r.below(S)] += d;
    const T eps = r.coin(3) ? T(0) : r.coin() ? T(0.2) : T(0.125);
    { Ev e("isint", p); e.k("a", w).k("eps", eps); e.b("r", vm::is_integral(w, eps)); }
    { Ev e("isint", p); e.k("a", w).k("eps", T(0)); e.b("r", vm::is_integral(w)); } }
  { // three points that are colinear up to a small offset
    vm::vec<T, S> c = u + (v - u) * T(r.real(-2, 3));
    if (r.coin()) c = c + vec<T, S>(r) * T(std::pow(10.0, -r.range(1, 6)));
    if (r.coin(5)) c = r.coin() ? u : v;
    double j = 0, k = 0, l = 0;
    for (std::size_t i = 0; i < S; ++i) { double ac = u[i] - c[i], ba = v[i] - u[i]; j += ac * ba; k += ac * ac; l += ba * ba; }
    const T eps = around<T>(r, j * j - k * l);
    { Ev e("colinear", p); e.k("a", u).k("b", v).k("c", c).k("eps", eps); e.b("r", vm::is_colinear(u, v, c, eps)); }
    { Ev e("colinear", p); e.k("a", u).k("b", v).k("c", c).k("eps", vm::constants<T>::colinear_epsilon()); e.b("r", vm::is_colinear(u, v, c)); } }
  { auto w = u * T(r.real(-2, 2)) + v * T(r.coin() ? 0 : std::pow(10.0, -r.range(1, 6)));
    bool z = true; for (std::size_t i = 0; i < S; ++i) if (std::fabs(w[i]) > 1e-8) z = false;
    if (!z) {
      double d = 0, uu = 0, ww = 0; for (std::size_t i = 0; i < S; ++i) { d += double(u[i]) * w[i]; uu += double(u[i]) * u[i]; ww += double(w[i]) * w[i]; }
      const T eps = around<T>(r, 1.0 - std::fabs(d) / std::sqrt(uu * ww));
      { Ev e("parallel", p); e.k("a", u).k("b", w).k("eps", eps); e.b("r", vm::is_parallel(u, w, eps)); }
      { Ev e("parallel", p); e.k("a", u).k("b", w).k("eps", eps); e.b("r", vm::is_parallel_c(u, w, eps)); }
      { Ev e("parallel", p); e.k("a", u).k("b", w).k("eps", vm::constants<T>::colinear_epsilon()); e.b("r", vm::is_parallel(u, w)); }
    } }
  { // exactly colinear points: base + k * step with integers
    const auto base = ivec<T, S>(r, 20), st = ivec<T, S>(r, 3);
    auto q = base + st * T(r.range(-4, 4)), s = base + st * T(r.range(-4, 4)), t = base + st * T(r.range(-4, 4));
    if (r.coin(3)) { // barely before or behind an end, or a tiny segment
      const auto f = st * T(std::ldexp(double(r.sgn()), -r.range(1, std::is_same<T, float>::value ? 16 : 44)));
      switch (r.below(3)) { case 0: q = s + f; break; case 1: q = t + f; break; default: s = q + f; t = r.coin() ? q - f : s + f; } }
    { Ev e("between", p); e.k("a", q).k("b", s).k("c", t); e.b("r", vm::is_between(q, s, t)); }
    { Ev e("between", p); e.k("a", q).k("b", s).k("c", t); e.b("r", vm::is_between_c(q, s, t)); } }
}
template <typename T, std::size_t S> void ints(Rng& r) {
  const char* p = P<T>::name;
  const auto a = vec<T, S>(r), b = vec<T, S>(r);
  { Ev e("dot", p); e.k("a", a).k("b", b); e.k("r", vm::dot(a, b)).k("r2", vm::dot(b, a)); }
  if constexpr (S == 3) { Ev e("cross", p); e.k("a", a).k("b", b); e.k("r", vm::cross(a, b)); }
  { Ev e("sqlen", p); e.k("a", a); e.k("r", vm::squared_length(a)); }
  { Ev e("sqdist", p); e.k("a", a).k("b", b); e.k("r", vm::squared_distance(a, b)); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) {
    sample<double, 3>(c.r); sample<float, 3>(c.r); sample<double, 2>(c.r); sample<double, 4>(c.r); sample<float, 2>(c.r); sample<double, 1>(c.r);
    ints<int, 3>(c.r); ints<int, 2>(c.r); if (i % 3 == 1) { sample<float, 1>(c.r); sample<float, 4>(c.r); sample<double, 5>(c.r); sample<double, 7>(c.r); ints<int, 4>(c.r); }
  }
  return done();
}
