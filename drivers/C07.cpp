#include "vt.h"
#include <vecmath/scalar.h>
using namespace vt;
template <typename T> T angle(Rng& r, double per) {
  switch (r.below(8)) {
    case 0: return T(per * r.range(-5, 5));
    case 1: return T(per * r.range(-20, 20) / 4.0);
    case 2: return std::nextafter(T(per * r.range(-5, 5)), T(r.sgn() * 1e9));
    case 3: return T(r.real(-per, per));
    case 4: return T(r.real(-1, 1) * std::pow(10.0, r.range(-20, 6)));
    case 5: return T(r.real(-1, 1) * std::pow(10.0, r.range(6, 30)));
    case 6: return T(r.sgn() * std::pow(10.0, -r.range(5, 25)));
    default: return T(r.real(-50 * per, 50 * per));
  }
}
template <typename T> void conv(Rng& r) {
  const char* p = P<T>::name;
  { const T a = angle<T>(r, 360); Ev e("rad", p); e.k("a", a); e.k("r", vm::to_radians(a)); }
  { const T a = angle<T>(r, 6.283185307179586); Ev e("deg", p); e.k("a", a); e.k("r", vm::to_degrees(a)); }
  { const T a = angle<T>(r, 360); Ev e("normdeg", p); e.k("a", a); e.k("r", vm::normalize_degrees(a)); }
  { const T a = angle<T>(r, 6.283185307179586); Ev e("normrad", p); e.k("a", a); e.k("r", vm::normalize_radians(a)); }
}
template <typename T> void measure(Rng& r) {
  // an orthonormal frame, and a vector in the plane of the first two
  double u[3], w[3], n[3];
  auto unit = [](double* x) { const double l = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); for (int i = 0; i < 3; ++i) x[i] /= l; return l; };
  for (;;) {
    const bool lat = r.coin(3);
    for (int i = 0; i < 3; ++i) { u[i] = lat ? r.range(-2, 2) : r.real(-1, 1); w[i] = lat ? r.range(-2, 2) : r.real(-1, 1); }
    n[0] = u[1] * w[2] - u[2] * w[1]; n[1] = u[2] * w[0] - u[0] * w[2]; n[2] = u[0] * w[1] - u[1] * w[0];
    if (n[0] * n[0] + n[1] * n[1] + n[2] * n[2] < 1e-3) continue;
    unit(n); unit(u);
    w[0] = n[1] * u[2] - n[2] * u[1]; w[1] = n[2] * u[0] - n[0] * u[2]; w[2] = n[0] * u[1] - n[1] * u[0];
    unit(w);
    break;
  }
  const double t = r.coin(3) ? r.range(0, 24) * 3.141592653589793 / 12 : r.coin(4) ? r.real(-1e-4, 1e-4) : r.real(0, 6.283185307179586);
  vm::vec<T, 3> a, axis, up;
  for (int i = 0; i < 3; ++i) { a[i] = T(std::cos(t) * u[i] + std::sin(t) * w[i]); axis[i] = T(u[i]); up[i] = T(n[i]); }
  Ev e("measure", P<T>::name); e.k("a", a).k("axis", axis).k("up", up); e.k("r", vm::measure_angle(a, axis, up));
}
template <typename T> void consts() {
  using c = vm::constants<T>;
  Ev e("consts", P<T>::name);
  e.k("pi", c::pi()).k("two", c::two_pi()).k("half", c::half_pi()).k("quarter", c::quarter_pi()).k("th", c::three_half_pi()).k("e", c::e())
   .k("az", c::almost_zero()).k("ps", c::point_status_epsilon()).k("ce", c::correct_epsilon()).k("co", c::colinear_epsilon()).k("an", c::angle_epsilon());
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  consts<double>(); consts<float>();
  for (int i = -1500; i <= 1500; ++i) { Ev e("normdeg", "d"); e.k("a", double(i)); e.k("r", vm::normalize_degrees(double(i))); }
  for (long i = 0; i < c.n; ++i) { conv<double>(c.r); conv<float>(c.r); measure<double>(c.r); if (i % 2) measure<float>(c.r); }
  return done();
}
