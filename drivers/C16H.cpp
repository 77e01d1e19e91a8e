#include "vt.h"
#include <vecmath/quat.h>
using namespace vt;
using M = vm::mat<double, 4, 4>; using V = vm::vec<double, 3>;
struct H {
  M m = M::identity();
  V ax(int k) { V v = V::zero(); v[k - 1] = 1; return v; }
  void fin(Ev& e, const M& g) { m = g * m; e.k("img", std::vector<V>{m * V::zero(), m * ax(1), m * ax(2), m * ax(3)}); }
  void translate(const V& d) { Ev e("translate", "d", true); e.k("d", d); fin(e, vm::translation_matrix(d)); }
  void scale(const V& d) { Ev e("scale", "d", true); e.k("d", d); fin(e, vm::scaling_matrix(d)); }
  void mirror(int k) { Ev e("mirror", "d", true); e.i("k", k); fin(e, vm::mirror_matrix<double>(k - 1)); }
  void quarter(int k, int n, int how) {
    const M ccw[] = {M::rot_90_x_ccw(), M::rot_90_y_ccw(), M::rot_90_z_ccw()}, cw[] = {M::rot_90_x_cw(), M::rot_90_y_cw(), M::rot_90_z_cw()}, hf[] = {M::rot_180_x(), M::rot_180_y(), M::rot_180_z()};
    const double a = n * 3.14159265358979323846 / 2;
    Ev e(how == 0 ? "quarter" : how == 1 ? "quarterq" : how == 2 ? "quartera" : "quartere", "d", true); e.i("k", k).i("n", n);
    fin(e, how == 0 ? (n == 1 ? ccw : n == 2 ? hf : cw)[k - 1] : how == 1 ? vm::rotation_matrix(vm::quat<double>(ax(k), a)) : how == 2 ? vm::rotation_matrix(ax(k), a)
         : vm::rotation_matrix(k == 1 ? a : 0.0, k == 2 ? a : 0.0, k == 3 ? a : 0.0)); }
  void shear(int k, double s) { // component k gets s times the next one
    Ev e("shear", "d", true); e.i("k", k).k("s", s);
    fin(e, k == 1 ? vm::shear_matrix(0., 0., s, 0., 0., 0.) : k == 2 ? vm::shear_matrix(0., 0., 0., 0., 0., s) : vm::shear_matrix(0., s, 0., 0., 0., 0.)); }
  void undo() { Ev e("undo", "d", true); const auto [ok, i] = vm::invert(m); fin(e, ok ? i : M::fill(vm::nan<double>())); }
  void gen(int id) { if (id <= 3) quarter(id, 1, 0); else if (id <= 6) mirror(id - 3); else if (id <= 9) translate(ax(id - 6) * double(id - 6)); else if (id == 10) scale(V(2, 1, 3)); else shear(id - 10, 1); }
};
int main(int argc, char** argv) {
  auto c = init(argc, argv); auto& r = c.r;
  std::ifstream f(c.beh);
  for (std::string l; std::getline(f, l);) { std::istringstream in(l); int n, id; in >> n; H h; while (n-- > 0 && in >> id) h.gen(id); h.undo(); Ev::flush_hist(); }
  for (long i = 0; i < c.n; ++i) {
    H h;
    for (int n = r.range(2, 7); n > 0; --n) switch (r.below(6)) {
      case 0: h.translate(r.coin() ? ivec<double, 3>(r, 9) : vec<double, 3>(r, 10)); break;
      case 1: h.scale(V(r.sgn() * r.real(0.5, 2), r.sgn() * r.real(0.5, 2), r.coin() ? 1.0 : r.real(0.5, 2))); break;
      case 2: h.mirror(r.range(1, 3)); break;
      case 3: case 4: h.quarter(r.range(1, 3), r.range(1, 3), r.below(4)); break;
      default: h.shear(r.range(1, 3), r.real(-1, 1));
    }
    if (r.coin()) h.undo();
    Ev::flush_hist();
  }
  return done();
}
