#include "vt.h"
#include <vecmath/scalar.h>
using namespace vt;
template <typename T> T value(Rng& r) {
  const T k = T(r.range(-9, 9));
  switch (r.below(15)) {
    case 12: case 13: {                                                              // an integer of any magnitude, barely missed
      const T z = T(std::trunc(std::ldexp(r.real(-1, 1), r.range(3, std::is_same<T, double>::value ? 56 : 26))));
      return z + T(r.sgn() * std::ldexp(r.real(0.5, 1), -r.range(0, std::is_same<T, double>::value ? 40 : 12))); }
    case 14: {                                                                       // a few units in the last place beside one
      T z = T(std::trunc(std::ldexp(r.real(-1, 1), r.range(3, std::is_same<T, double>::value ? 52 : 23)))) + (r.coin() ? T(0.5) : T(0));
      for (int i = r.below(4); i > 0; --i) z = std::nextafter(z, T(r.sgn()) * std::numeric_limits<T>::max());
      return z; }
    case 0: return k;
    case 1: return k + T(0.5);
    case 2: return std::nextafter(k, T(r.sgn()) * T(100));
    case 3: return std::nextafter(k + T(0.5), T(r.sgn()) * T(100));
    case 4: return std::nextafter(T(0.5), T(0)) * T(r.sgn());
    case 5: return T(r.real(-1e6, 1e6));
    case 6: return T(std::ldexp(r.real(-1, 1), r.range(-40, 70)));                 // beyond 2^53, 2^63
    case 7: return T(std::ldexp(double(r.range(1, 9)), std::is_same<T, double>::value ? 50 : 22)) + T(r.range(-4, 4)) / T(4);
    case 8: return k + T(0.001) * T(r.real(-2, 2));
    case 9: return T(r.real(-3, 3));
    default: return T(r.range(-400, 400)) / T(8);
  }
}
template <typename T> T grid(Rng& r) {
  switch (r.below(5)) {
    case 0: return T(1);
    case 1: return T(std::ldexp(1.0, r.range(-4, 6)));
    case 2: return T(3);
    case 3: return T(0.1);
    default: return T(r.real(0.05, 40));
  }
}
/** |v| small enough that the multiple of the grid is meaningful */
template <typename T> T moderate(Rng& r) { T v; do v = value<T>(r); while (std::fabs(v) > T(1e5) || (v != T(0) && std::fabs(v) < T(1e-30))); return v; }
template <typename T> void one(Rng& r) {
  const char* p = P<T>::name;
  T v = value<T>(r);
  if (r.coin(40)) v = std::numeric_limits<T>::quiet_NaN();
  else if (r.coin(40)) v = std::numeric_limits<T>::infinity() * T(r.sgn());
  { Ev e("trunc", p); e.k("a", v); e.k("r", vm::trunc(v)); }
  { Ev e("floor", p); e.k("a", v); e.k("r", vm::floor(v)); }
  { Ev e("ceil", p); e.k("a", v); e.k("r", vm::ceil(v)); }
  { Ev e("round", p); e.k("a", v); e.k("r", vm::round(v)); }
  { Ev e("roundup", p); e.k("a", v); e.k("r", vm::round_up(v)); }
  { Ev e("rounddown", p); e.k("a", v); e.k("r", vm::round_down(v)); }
  if (std::isfinite(v)) { Ev e("fract", p); e.k("a", v); e.k("r", vm::fract(v)); }
  T w = moderate<T>(r), g = grid<T>(r);
  if (r.coin(4)) { const T s = T(std::ldexp(1.0, r.range(-20, 30))); w *= s; g *= s; }   // grids and values of any magnitude
  { const T y = g * T(r.sgn()); Ev e("mod", p); e.k("a", w).k("g", y); e.k("r", vm::mod(w, y)); }
  { Ev e("snap", p); e.k("a", w).k("g", g); e.k("r", vm::snap(w, g)); }
  { Ev e("snapup", p); e.k("a", w).k("g", g); e.k("r", vm::snapUp(w, g)); }
  { Ev e("snapdown", p); e.k("a", w).k("g", g); e.k("r", vm::snapDown(w, g)); }
  { // thresholds that are exactly met, just met and just missed
    const T d = std::fabs(w - std::round(w));
    const T eps = r.coin(3) ? d : r.coin() ? std::nextafter(d, T(1)) : r.coin() ? T(0.25) : T(0.01);
    { Ev e("correct", p); e.k("a", w).i("dec", 0).k("eps", eps); e.k("r", vm::correct(w, 0, eps)); }
    { Ev e("correct", p); e.k("a", w).i("dec", 0).k("eps", vm::constants<T>::correct_epsilon()); e.k("r", vm::correct(w)); }
    const int dec = r.range(1, 10);
    { Ev e("correct", p); e.k("a", w).i("dec", dec).k("eps", eps); e.k("r", vm::correct(w, dec, eps)); } }
}
template <typename T, std::size_t S> void many(Rng& r) {
  vm::vec<T, S> v, g;
  for (std::size_t i = 0; i < S; ++i) { v[i] = moderate<T>(r); g[i] = grid<T>(r); }
  const T eps = T(r.real(0, 0.5)); const std::size_t dec = std::size_t(r.range(1, 10)); const T epsx = T(r.real(0, 4));
  if (r.coin(3)) { const T s = T(std::ldexp(1.0, r.range(-20, 30))); for (std::size_t i = 0; i < S; ++i) { v[i] *= s; g[i] *= s; } }
  vm::vec<T, S> each; for (std::size_t i = 0; i < S; ++i) each[i] = vm::correct(v[i], dec, epsx);
  Ev e("vec", P<T>::name);
  e.k("a", v).k("g", g).k("eps", eps).k("deps", vm::constants<T>::correct_epsilon());
  e.k("trunc", vm::trunc(v)).k("floor", vm::floor(v)).k("ceil", vm::ceil(v)).k("round", vm::round(v)).k("fract", vm::fract(v))
   .k("mod", vm::mod(v, g)).k("snap", vm::snap(v, g)).k("up", vm::snapUp(v, g)).k("down", vm::snapDown(v, g))
   .k("corr", vm::correct(v, 0, eps)).k("corrd", vm::correct(v)).i("dec", dec).k("each", each).k("corrx", vm::correct(v, dec, epsx));
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (int i = -40; i <= 40; ++i) {        // every quarter in a small range
    const double x = i / 4.0;
    { Ev e("round", "d"); e.k("a", x); e.k("r", vm::round(x)); }
    { Ev e("floor", "d"); e.k("a", x); e.k("r", vm::floor(x)); }
    { Ev e("ceil", "d"); e.k("a", x); e.k("r", vm::ceil(x)); }
    for (double g : {0.5, 1.0, 2.0, 3.0}) {
      { Ev e("snap", "d"); e.k("a", x).k("g", g); e.k("r", vm::snap(x, g)); }
      { Ev e("snapup", "d"); e.k("a", x).k("g", g); e.k("r", vm::snapUp(x, g)); }
      { Ev e("snapdown", "d"); e.k("a", x).k("g", g); e.k("r", vm::snapDown(x, g)); }
      for (double s : {1.0, -1.0}) { Ev e("mod", "d"); e.k("a", x).k("g", s * g); e.k("r", vm::mod(x, s * g)); }
    }
  }
  for (long i = 0; i < c.n; ++i) { one<double>(c.r); one<float>(c.r); if (i % 3 == 1) { many<float, 2>(c.r); many<float, 4>(c.r); many<double, 1>(c.r); many<double, 6>(c.r); } if (i % 4 == 0) { many<double, 3>(c.r); many<float, 3>(c.r); many<double, 2>(c.r); many<double, 4>(c.r); } }
  return done();
}
