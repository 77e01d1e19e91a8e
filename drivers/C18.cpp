#include "vt.h"
#include <vecmath/distance.h>
#include <vecmath/scalar.h>
using namespace vt;
template <typename T, std::size_t S> vm::vec<T, S> pt(Rng& r) { return r.coin() ? ivec<T, S>(r, 4) : vec<T, S>(r); }
template <typename T, typename D> void fin(Ev& e, const D& d, const D& q) {
  e.b("par", d.parallel).k("pos1", d.position1).k("sq", d.distance).k("pos2", d.position2).k("dist", q.distance);
  e.b("samepos", d.parallel == q.parallel && d.position1 == q.position1 && d.position2 == q.position2);
}
template <typename T, std::size_t S> void rnd(Rng& r) {
  using V = vm::vec<T, S>; const char* p = P<T>::name;
  const V o = pt<T, S>(r), d = dir<T, S>(r); const vm::ray<T, S> ray(o, d);
  V q = r.coin(4) ? V(o + d * T(r.range(-5, 5))) : pt<T, S>(r); if (r.coin(8)) q = o; if (r.coin(8)) { V w = pt<T, S>(r); q = o + (w - d * vm::dot(w, d)) + d * T(std::pow(10.0, -r.real(1, std::is_same<T, float>::value ? 4 : 9)) * r.sgn()); }
  { Ev e("ptray", p); e.k("o", o).k("d", d).k("q", q); const auto a = vm::squared_distance(ray, q), b = vm::distance(ray, q);
    e.k("pos", a.position).k("sq", a.distance).k("pos1", b.position).k("dist", b.distance); }
  // the second set: general, parallel, touching, degenerate
  const int shape = r.below(8);
  V a = pt<T, S>(r), dd = dir<T, S>(r);
  if (shape == 0) dd = d; if (shape == 1) dd = -d;
  if (shape == 2) { a = o + d * T(r.range(-6, 6)); }
  if (shape == 3) { a = o + d * T(r.range(-6, 6)); dd = r.coin() ? d : V(-d); }
  if (shape == 4) { // closest points behind the origins
    a = o - d * T(r.range(1, 9)) + dir<T, S>(r); }
  V b = a + dd * T(r.coin() ? r.range(1, 8) : r.real(0.01, 20));
  if (shape >= 6 && r.coin()) b = pt<T, S>(r);
  if (r.coin(20)) b = a;
  if (r.coin(20)) b = a + dd * T(0.02);
  if (r.coin(12)) { if (r.coin()) a = ivec<T, S>(r, 2); b = a + dd * T(std::pow(10.0, -r.real(1, std::is_same<T, float>::value ? 3 : 5))); }
  const vm::segment<T, S> sg(a, b);
  { V q2 = r.coin(4) ? V(a + (b - a) * T(r.range(-2, 6)) / T(4)) : q; if (r.coin(8)) q2 = r.coin() ? a : b;
    if (r.coin(6)) { const double z = std::pow(10.0, -r.real(1, std::is_same<T, float>::value ? 4 : 9)) * r.sgn(); q2 = (r.coin() ? V(a + (b - a) * T(z)) : V(b + (b - a) * T(z))); if (r.coin()) { V w = pt<T, S>(r); const T uu = vm::dot(b - a, b - a); if (uu > T(0)) q2 = q2 + (w - (b - a) * (vm::dot(w, b - a) / uu)); } }   // next to an end point
    Ev e("ptseg", p); e.k("a", sg.start()).k("b", sg.end()).k("q", q2); const auto x = vm::squared_distance(sg, q2), y = vm::distance(sg, q2);
    e.k("pos", x.position).k("sq", x.distance).k("pos1", y.position).k("dist", y.distance); }
  { Ev e("pair", p); e.str("kind", "segment").k("o", o).k("d", d).k("a", sg.start()).k("b", sg.end()); fin<T>(e, vm::squared_distance(ray, sg), vm::distance(ray, sg)); }
  { Ev e("pair", p); e.str("kind", "ray").k("o", o).k("d", d).k("o2", a).k("d2", dd); const vm::ray<T, S> r2(a, dd); fin<T>(e, vm::squared_distance(ray, r2), vm::distance(ray, r2)); }
  { Ev e("pair", p); e.str("kind", "line").k("o", o).k("d", d).k("o2", a).k("d2", dd); const vm::line<T, S> l2(a, dd); fin<T>(e, vm::squared_distance(ray, l2), vm::distance(ray, l2)); }
}
template <typename T> void rec(Rng& r) {
  const bool par = r.coin(4) ? false : true; const T a = T(r.range(-9, 9)), b = T(r.real(0, 1)), c = T(r.range(-9, 9));
  const auto l = par ? vm::line_distance<T>::Parallel(a, b, c) : vm::line_distance<T>::NonParallel(a, b, c);
  { Ev e("make", P<T>::name); e.b("ipar", par).k("i1", a).k("id", b).k("i2", c); e.b("par", l.parallel).k("pos1", l.position1).k("sq", l.distance).k("pos2", l.position2); }
  const T m = r.coin(3) ? b : T(r.real(0, 1));
  { Ev e("colinear", P<T>::name); e.b("par", par).k("sq", b).k("max", m).b("r", l.is_colinear(m)); }
  const auto z = par ? vm::line_distance<T>::Parallel(a, T(0.001) * T(r.range(0, 2)), c) : l;
  { Ev e("colinear", P<T>::name); e.b("par", par).k("sq", z.distance).k("max", T(0.001)).b("r", z.is_colinear()); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) { rnd<double, 3>(c.r); rnd<float, 3>(c.r); rnd<double, 2>(c.r); if (i % 3 == 1) { rnd<float, 4>(c.r); rnd<double, 5>(c.r); } if (i % 3 == 0) { rnd<double, 4>(c.r); rnd<float, 2>(c.r); } if (i % 8 == 0) { rec<double>(c.r); rec<float>(c.r); } }
  return done();
}
