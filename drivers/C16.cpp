#include "vt.h"
#include <vecmath/quat.h>
using namespace vt;
namespace vt { template <typename T> struct J<vm::quat<T>> { static std::string f(const vm::quat<T>& q) { return "{\"r\":" + js(q.r) + ",\"v\":" + js(q.v) + "}"; } }; }
static const double PI = 3.14159265358979323846;
template <typename T> T angle(Rng& r) { switch (r.below(4)) { case 0: return T(PI / 4 * r.range(-10, 10)); case 1: return T(r.real(-0.01, 0.01)); case 2: return T(r.real(-20, 20)); default: return T(r.real(-PI, PI)); } }
template <typename T> vm::bbox<T, 3> rbox(Rng& r) { vm::bbox<T, 3> b; b.min = r.coin() ? ivec<T, 3>(r, 20) : vec<T, 3>(r, 20); for (int i = 0; i < 3; ++i) b.max[i] = b.min[i] + (r.coin() ? T(r.range(1, 9)) : T(r.real(0.5, 20))); if (r.coin(5)) { const T k = T(std::ldexp(1.0, -r.range(4, 16))); const bool at = r.coin(); for (int i = 0; i < 3; ++i) { const T w = (b.max[i] - b.min[i]) * k; if (at) b.min[i] *= k; b.max[i] = b.min[i] + w; } for (int i = 0; i < 3; ++i) if (!(b.max[i] - b.min[i] > T(1e-4) * vm::abs(b.min[i]))) b.max[i] = b.min[i] + T(1); } return b; }
// vectors u, v, w whose determinant is not small compared to their lengths
template <typename T> void frame(Rng& r, vm::vec<T, 3>& u, vm::vec<T, 3>& v, vm::vec<T, 3>& w) {
  do { u = r.coin() ? ivec<T, 3>(r, 3) : vec<T, 3>(r, 5); v = r.coin() ? ivec<T, 3>(r, 3) : vec<T, 3>(r, 5); w = r.coin() ? ivec<T, 3>(r, 3) : vec<T, 3>(r, 5);
  } while (!(std::fabs(double(vm::dot(vm::cross(u, v), w))) > 0.3 * double(vm::length(u)) * double(vm::length(v)) * double(vm::length(w)) && double(vm::length(u)) > 0.5 && double(vm::length(v)) > 0.5 && double(vm::length(w)) > 0.5)); }
template <typename T> vm::mat<T, 4, 4> anyrot(Rng& r) {
  const auto k = dir<T, 3>(r);
  switch (r.below(4)) {
    case 0: return vm::rotation_matrix(k, angle<T>(r));
    case 1: { // around a pitch of +-90 degrees
      T pitch = T(r.sgn() * PI / 2); if (r.coin()) pitch += T(r.sgn() * std::pow(10.0, r.real(-9, -1)));
      using V = vm::vec<T, 3>;
      const auto a = angle<T>(r), b = angle<T>(r);
      if (r.coin()) return vm::rotation_matrix(vm::quat<T>(V(0, 0, 1), a) * vm::quat<T>(V(0, 1, 0), pitch) * vm::quat<T>(V(1, 0, 0), b));
      return vm::rotation_matrix(V(0, 0, 1), a) * vm::rotation_matrix(V(0, 1, 0), pitch) * vm::rotation_matrix(V(1, 0, 0), b); }
    case 2: { const vm::mat<T, 4, 4> q[] = {vm::mat<T, 4, 4>::rot_90_x_ccw(), vm::mat<T, 4, 4>::rot_90_y_ccw(), vm::mat<T, 4, 4>::rot_90_z_ccw()}; auto m = vm::mat<T, 4, 4>::identity(); for (int i = r.below(5); i > 0; --i) m = m * q[r.below(3)]; return m; }
    default: return vm::rotation_matrix(angle<T>(r), angle<T>(r), angle<T>(r));
  }
}
template <typename T, std::size_t S> void dims(Rng& r) {
  const char* p = P<T>::name; const auto d = vec<T, S>(r);
  { Ev e("translation", p); e.k("d", d); e.k("m", vm::translation_matrix(d)); }
  { Ev e("scaling", p); e.k("d", d); e.k("m", vm::scaling_matrix(d)); }
  vm::mat<T, S + 1, S + 1> a; for (std::size_t i = 0; i <= S; ++i) a[i] = vec<T, S + 1>(r); for (std::size_t i = 0; i <= S; ++i) a[i][S] = i == S ? T(1) : T(0);
  { Ev e("parts", p); e.k("a", a); e.k("strip", vm::strip_translation(a)).k("trans", vm::translation_matrix(a)); }
}
template <typename T> void rnd(Rng& r) {
  using V = vm::vec<T, 3>; const char* p = P<T>::name;
  { const V k = dir<T, 3>(r); const T a = angle<T>(r); Ev e("axisangle", p); e.k("k", k).k("a", a); e.k("m", vm::rotation_matrix(k, a)); }
  { const T a = angle<T>(r), b = angle<T>(r), c = angle<T>(r); Ev e("euler", p); e.k("roll", a).k("pitch", b).k("yaw", c); e.k("m", vm::rotation_matrix(a, b, c)); }
  { const auto m = anyrot<T>(r); Ev e("toeuler", p); e.k("m", m); e.k("a", vm::rotation_matrix_to_euler_angles(m)); }
  { const vm::quat<T> q(dir<T, 3>(r), angle<T>(r)); Ev e("quat", p); e.k("q", q); e.k("m", vm::rotation_matrix(q)); }
  { const V f = dir<T, 3>(r); V t = dir<T, 3>(r); if (r.coin(3)) { t = f * T(r.sgn()) + dir<T, 3>(r) * T(std::pow(10.0, r.real(-12, -0.5))); t = vm::normalize(t); } if (r.coin(8)) t = f * T(r.sgn());
    Ev e("fromto", p); e.k("f", f).k("t", t); e.k("m", vm::rotation_matrix(f, t)); }
  dims<T, 3>(r); dims<T, 2>(r); if (r.coin(3)) { dims<T, 1>(r); dims<T, 4>(r); dims<T, 5>(r); dims<T, 6>(r); }
  { const int k = r.below(4); Ev e("mirror", p); e.i("k", k == 3 ? 9 : k); e.k("m", vm::mirror_matrix<T>(k == 3 ? 9 : k)); }
  { V x, y, z; frame(r, x, y, z); const V o = vec<T, 3>(r, 20), w = ivec<T, 3>(r, 5); Ev e("coords", p); e.k("x", x).k("y", y).k("z", z).k("o", o).k("w", w); e.k("m", vm::coordinate_system_matrix(x, y, z, o)); }
  { const V n = dir<T, 3>(r), q = vec<T, 3>(r, 10); V d; bool plain = r.coin(); do d = dir<T, 3>(r); while (vm::abs(vm::dot(d, n)) < T(0.2)); if (plain) d = n; const T dist = scalar<T>(r, 20);
    Ev e("planeproj", p); e.k("n", n).k("d", dist).k("dir", d).k("q", q); e.k("m", plain ? vm::plane_projection_matrix(dist, n) : vm::plane_projection_matrix(dist, n, d)); }
  { T s[6]; for (auto& x : s) x = scalar<T>(r, 9); Ev e("shear", p); e.k("s", std::vector<T>(s, s + 6)); e.k("m", vm::shear_matrix(s[0], s[1], s[2], s[3], s[4], s[5])); }
  { const auto a = rbox<T>(r), b = rbox<T>(r); Ev e("scalebox", p); e.k("a", a).k("b", b); e.k("m", vm::scale_bbox_matrix(a, b)); }
  { const auto a = rbox<T>(r); V s = rbox<T>(r).size(); for (int i = 0; i < 3; ++i) if (r.coin(4)) s[i] = -s[i]; const V o = r.coin() ? a.min : vec<T, 3>(r, 20); Ev e("scaleanchor", p); e.k("a", a).k("size", s).k("o", o); e.k("m", vm::scale_bbox_matrix_with_anchor(a, s, o)); }
  { V u[3], v[3], o1 = vec<T, 3>(r, 10), o2 = vec<T, 3>(r, 10); frame(r, u[0], u[1], u[2]); frame(r, v[0], v[1], v[2]); const bool four = r.coin();
    std::vector<V> f{o1, o1 + u[0], o1 + u[1]}, t{o2, o2 + v[0], o2 + v[1]}; if (four) { f.push_back(o1 + u[2]); t.push_back(o2 + v[2]); }
    const bool sing = four && r.coin(6); if (sing) f[3] = f[r.below(3)];
    Ev e("points", p); e.k("f", f).k("t", t).b("singular", sing);
    e.k("m", four ? vm::points_transformation_matrix(f[0], f[1], f[2], f[3], t[0], t[1], t[2], t[3]) : vm::points_transformation_matrix(f[0], f[1], f[2], t[0], t[1], t[2])); }
  { const T fov = T(r.real(20, 150)), nr = r.coin(4) ? T(std::pow(10.0, r.real(-4, 2))) : T(r.real(0.5, 10)), fr = nr * T(r.coin(4) ? r.real(1.05, 2) : r.coin(4) ? r.real(1000, 1e5) : r.real(2, 1000)); const bool rev = r.coin(8); const int w = r.range(1, 4000), h = r.range(1, 4000);
    Ev e("perspective", p); e.k("fov", fov).k("near", rev ? fr : nr).k("far", rev ? nr : fr).i("w", w).i("h", h); e.k("m", vm::perspective_matrix(fov, rev ? fr : nr, rev ? nr : fr, w, h)); }
  { const T sz = r.coin(3) ? T(std::pow(10.0, r.real(-4, 0))) : T(1); const T nr = T(r.real(-5, 10)) * sz, fr = r.coin(8) ? nr - T(r.real(1, 50)) * sz : nr + T(r.real(1, 1000)) * sz, l = T(r.real(-500, 500)) * sz, rt = r.coin(8) ? l - T(r.real(1, 1000)) * sz : l + T(r.real(1, 1000)) * sz, bo = T(r.real(-500, 500)) * sz, to = r.coin(8) ? bo - T(r.real(1, 1000)) * sz : bo + T(r.real(1, 1000)) * sz;
    Ev e("ortho", p); e.k("near", nr).k("far", fr).k("left", l).k("top", to).k("right", rt).k("bottom", bo); e.k("m", vm::ortho_matrix(nr, fr, l, to, rt, bo)); }
  { const V d = dir<T, 3>(r); V u; do { u = dir<T, 3>(r); u = u - d * vm::dot(u, d); } while (vm::length(u) < T(0.3)); u = vm::normalize(u); Ev e("view", p); e.k("d", d).k("u", u); e.k("m", vm::view_matrix(d, u)); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) { rnd<double>(c.r); rnd<float>(c.r);
    for (int k = 0; k < 3; ++k) for (int s = -1; s <= 1; s += 2) if (i % 3 == 0) { const auto a = rbox<float>(c.r); auto side = vm::vec3f::zero(); side[k] = float(s); const auto d = vec<float, 3>(c.r, 10);
      Ev e("shearbox", "f"); e.k("a", a).i("k", k + 1).i("s", s).k("delta", d); e.k("m", vm::shear_bbox_matrix(a, side, d)); }
    for (int k = 0; k < 3; ++k) for (int s = -1; s <= 1; s += 2) { const auto a = rbox<double>(c.r); auto side = vm::vec3d::zero(); side[k] = s; const auto d = vec<double, 3>(c.r, 10);
      Ev e("shearbox", "d"); e.k("a", a).i("k", k + 1).i("s", s).k("delta", d); e.k("m", vm::shear_bbox_matrix(a, side, d)); } }
  return done();
}
