#include "vt.h"
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/plane.h>
using namespace vt;
template <typename T> void lp(Rng& r) {
  using V = vm::vec<T, 3>; const V o = r.coin() ? ivec<T, 3>(r, 8) : vec<T, 3>(r), n = dir<T, 3>(r); V d = dir<T, 3>(r); T dist = scalar<T>(r, 50);
  if (r.coin(4)) { V w = d - n * vm::dot(d, n); if (vm::length(w) > T(0.1)) { w = vm::normalize(w); d = vm::normalize(w + n * (T(r.range(-6, 6)) * T(0.0004))); } }
  if (r.coin(8)) dist = vm::dot(o, n);
  Ev e("lineplane", P<T>::name); e.k("o", o).k("d", d).k("n", n).k("dist", dist);
  e.k("r", vm::intersect_line_plane(vm::line<T, 3>(o, d), vm::plane<T, 3>(dist, n)));
}
template <typename T> void pp(Rng& r) {
  using V = vm::vec<T, 3>; const V n1 = dir<T, 3>(r); V n2 = dir<T, 3>(r); const T d1 = scalar<T>(r, 50), d2 = r.coin(6) ? d1 : scalar<T>(r, 50);
  switch (r.below(8)) {
    case 0: n2 = n1; break; case 1: n2 = -n1; break;
    case 2: { V w = n2 - n1 * vm::dot(n2, n1); if (vm::length(w) > T(0.1)) n2 = vm::normalize(n1 * T(r.sgn()) + vm::normalize(w) * (r.coin() ? T(r.range(-6, 6)) * T(0.0004) : T(r.real(-0.05, 0.05)))); break; }
    case 3: if (r.coin()) { n2 = r.coin() ? n1 : V(-n1); const int k = r.below(3); for (int j = r.range(1, 40); j > 0; --j) n2[k] = std::nextafter(n2[k], T(r.sgn() * 2)); } break;
    default: break;
  }
  Ev e("planeplane", P<T>::name); e.k("n1", n1).k("d1", d1).k("n2", n2).k("d2", d2);
  const auto l = vm::intersect_plane_plane(vm::plane<T, 3>(d1, n1), vm::plane<T, 3>(d2, n2));
  e.k("rp", l.point).k("rd", l.direction);
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) { lp<double>(c.r); lp<float>(c.r); pp<double>(c.r); pp<float>(c.r); }
  return done();
}
