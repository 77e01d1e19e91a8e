#include "vt.h"
#include <vecmath/plane.h>
#include <list>
using namespace vt;
namespace vt {
template <typename T, std::size_t S> struct J<vm::plane<T, S>> {
  static std::string f(const vm::plane<T, S>& b) { return "{\"d\":" + js(b.distance) + ",\"n\":" + js(b.normal) + "}"; }
};
}
static const char* st(vm::plane_status s) { return s == vm::plane_status::above ? "above" : s == vm::plane_status::below ? "below" : "inside"; }
template <typename T, std::size_t S> vm::vec<T, S> pt(Rng& r) {
  if (r.coin(8)) return dir<T, S>(r) * T(std::pow(10.0, r.real(2, std::is_same<T, double>::value ? 8 : 4)));   // far away
  return r.coin() ? ivec<T, S>(r, 8) : vec<T, S>(r); }
template <typename T, std::size_t S> vm::vec<T, S> ndir(Rng& r) {   // may have components that are almost zero
  auto d = dir<T, S>(r);
  if (r.coin(4)) { vm::vec<T, S> w = vm::vec<T, S>::zero(); w[r.below(S)] = T(r.sgn()); int k = r.below(S); if (w[k] == T(0)) w[k] = T(r.real(-0.003, 0.003)); d = vm::normalize(w); }
  return d;
}
template <typename T, std::size_t S> void rnd(Rng& r) {
  using V = vm::vec<T, S>; using PL = vm::plane<T, S>; const char* p = P<T>::name;
  const V n = ndir<T, S>(r); const T d = scalar<T>(r); const PL pl(d, n);
  { const V a = pt<T, S>(r); Ev e("make", p); e.k("d", d).k("n", n).k("a", a);
    e.k("dn", pl).k("an", PL(a, n)).k("anchor", pl.anchor()).k("flip", pl.flip()).k("zero", PL()).k("conv", vm::plane<double, S>(vm::plane<float, S>(pl))); }
  for (int j = 0; j < 3; ++j) { V q = pt<T, S>(r); const T eps = r.coin(6) ? T(0) : r.coin() ? T(0.0001) : T(std::pow(10.0, r.real(-9, 0)));
    if (!r.coin(3)) q = q - n * (vm::dot(q, n) - d) + n * (eps == T(0) ? T(0.00001) : eps) * T(r.coin() ? r.range(-2, 2) * 0.75 : r.real(-2, 2));
    if (r.coin(4)) {   // no rounding, on the boundary
      V an = V::zero(); const int k = r.below(S); an[k] = T(r.sgn()); const T ad = r.coin() ? T(0) : T(r.range(-8, 8)), ae = r.coin(4) ? T(0) : T(r.range(1, 8)) / T(r.coin(3) ? 1 << r.range(2, 24) : 4); q = r.coin() ? V::zero() : ivec<T, S>(r, 8);
      q[k] = an[k] * (ad + T(r.sgn()) * (r.coin(3) ? std::nextafter(ae, T(r.range(0, 4))) : ae)); if (r.coin(3)) q = an * T(r.sgn()) * T(0.0001);
      const PL ap(ad, an); Ev e("point", p); e.k("d", ad).k("n", an).k("q", q).k("eps", ae); e.k("dist", ap.point_distance(q)).str("dflt", st(ap.point_status(q))).str("st", st(ap.point_status(q, ae))); continue; }
    Ev e("point", p); e.k("d", d).k("n", n).k("q", q).k("eps", eps); e.k("dist", pl.point_distance(q)).str("dflt", st(pl.point_status(q))).str("st", st(pl.point_status(q, eps))); }
  { const auto q = pt<T, S - 1>(r); for (std::size_t k = 0; k < S; ++k) { Ev e("at", p); e.k("d", d).k("n", n).k("q", q).i("k", k + 1);
      const T v = pl.at(q, k); e.k("r", v); if constexpr (S == 3) e.k("named", k == 0 ? pl.xAt(q) : k == 1 ? pl.yAt(q) : pl.zAt(q)); else e.k("named", v); } }
  { const V q = pt<T, S>(r); Ev e("project", p); e.k("d", d).k("n", n).k("q", q); e.k("r", pl.project_point(q)).k("v", pl.project_vector(q)); }
  { const V q = pt<T, S>(r); V dr = dir<T, S>(r);
    if (r.coin(4)) { dr = dr - n * vm::dot(dr, n); dr = dr + n * T(r.coin() ? 0.0 : r.real(-0.002, 0.002)); const T l = vm::length(dr); if (l > T(0.01)) dr = dr / l; else dr = n; }
    if (r.coin(4)) dr = n * T(r.sgn());
    Ev e("projectdir", p); e.k("d", d).k("n", n).k("q", q).k("dir", dr); e.k("r", pl.project_point(q, dr)).k("v", pl.project_vector(q, dr)); }
  { PL o = pl; const T eps = someeps<T>(r); for (int j = r.below(3); j > 0; --j) { const T x = abouteps<T>(r, eps); if (r.coin()) o.distance += x; else o.normal[r.below(S)] += x; }
    Ev e("equal", p); e.k("d", d).k("n", n).k("d2", o.distance).k("n2", o.normal).k("eps", eps); e.b("eq", pl == o).b("ne", pl != o).b("iseq", vm::is_equal(pl, o, eps)); }
}
template <typename T> vm::vec<T, 3> rp(Rng& r, int mode) { return mode == 0 ? ivec<T, 3>(r, 3) : mode == 1 ? vec<T, 3>(r) : ivec<T, 3>(r, 60); }
template <typename T> void rnd3(Rng& r) {
  using V = vm::vec<T, 3>; const char* p = P<T>::name;
  const int mode = r.below(3);
  auto tri = [&](V& a, V& b, V& c) { a = rp<T>(r, mode); b = rp<T>(r, mode); c = rp<T>(r, mode);
    if (r.coin(4)) { a = r.coin() ? V::zero() : ivec<T, 3>(r, 4);                    // edges of very different lengths
      const double w = std::is_same<T, double>::value ? 7 : 2;
      b = a + dir<T, 3>(r) * T(std::pow(10.0, r.real(-w, w))); c = a + dir<T, 3>(r) * T(std::pow(10.0, r.real(-w, w))); }
    if (r.coin(8)) { a = V::zero(); b = dir<T, 3>(r) * T(r.real(0.002, 0.05)); c = dir<T, 3>(r) * T(r.real(0.002, 0.05)); }   // short edges
    if (r.coin(6)) {   // almost colinear: on either side of the angle epsilon
      a = r.coin() ? V::zero() : ivec<T, 3>(r, 2); const V d = dir<T, 3>(r), w = dir<T, 3>(r); b = a + d * T(r.range(1, 4)); c = a + d * T(r.sgn() * r.range(1, 4)) + w * T((r.coin() ? 1e-8 : std::pow(10.0, r.real(-10, -4))) * r.real(0, 6)); }
    if (r.coin(4)) { a = ivec<T, 3>(r, 20); V d = ivec<T, 3>(r, 3); b = a + d * T(r.range(-3, 3)); c = a + d * T(r.range(-3, 3)); } };
  { V a, b, c; tri(a, b, c); Ev e("points", p); e.k("p1", a).k("p2", b).k("p3", c);
    const auto [ok, pl] = vm::from_points(a, b, c); const auto [nok, nn] = vm::plane_normal(a, b, c);
    e.b("ok", ok).k("r", pl).b("nok", nok).k("nn", nn); }
  { std::vector<V> l(r.below(6)); for (auto& x : l) x = rp<T>(r, mode); if (l.size() > 2 && r.coin()) tri(l[0], l[1], l[2]);
    Ev e("range", p); e.k("l", l);
    const auto [ok, pl] = vm::from_points(l.begin(), l.end());
    std::list<V> ll(l.begin(), l.end());
    const auto [gok, g] = vm::from_points(ll.begin(), ll.end(), [](const V& v) { return -v; });
    e.b("ok", ok).k("r", pl).b("gok", gok).k("g", g); }
  { const V q = pt<T, 3>(r); V dr = vec<T, 3>(r); if (vm::squared_length(dr) < T(0.01)) dr = V(1, 2, 3);
    Ev e("special", p); e.k("q", q).k("dir", dr); e.k("hor", vm::horizontal_plane(q)).k("orth", vm::orthogonal_plane(q, dr)).k("ali", vm::aligned_orthogonal_plane(q, dr)); }
  { // a similarity: rotation (possibly with a reflection), uniform scale and translation
    double a, b, c, d, l; do { a = r.real(-1, 1); b = r.real(-1, 1); c = r.real(-1, 1); d = r.real(-1, 1); l = a * a + b * b + c * c + d * d; } while (l < 0.1);
    if (r.coin(3)) { a = r.range(-1, 1); b = r.range(-1, 1); c = r.range(-1, 1); d = 1; l = a * a + b * b + c * c + d * d; }
    l = std::sqrt(l); a /= l; b /= l; c /= l; d /= l;
    const double s = (r.coin() ? 1.0 : r.real(0.2, 5)) * r.sgn();
    const double R[3][3] = {{1 - 2 * (b * b + c * c), 2 * (a * b - c * d), 2 * (a * c + b * d)}, {2 * (a * b + c * d), 1 - 2 * (a * a + c * c), 2 * (b * c - a * d)}, {2 * (a * c - b * d), 2 * (b * c + a * d), 1 - 2 * (a * a + b * b)}};
    auto m = vm::mat<T, 4, 4>::identity(); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m.v[j][i] = T(s * R[i][j]); m.v[3][i] = T(r.range(-20, 20)); }
    if (r.coin(4)) for (int i = 0; i < 3; ++i) m.v[3][i] *= T(std::pow(10.0, r.range(1, std::is_same<T, double>::value ? 9 : 4)));
    const V n = ndir<T, 3>(r); const T dist = scalar<T>(r); const V q = pt<T, 3>(r); const bool ce = r.coin();
    Ev e("transform", p); e.k("m", m).k("n", n).k("d", dist).k("q", q); const vm::plane<T, 3> pl(dist, n); e.k("r", ce ? pl.transform_c(m) : pl.transform(m)); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) { rnd<double, 3>(c.r); rnd<float, 3>(c.r); rnd<double, 2>(c.r); if (i % 3 == 0) { rnd<double, 4>(c.r); rnd<float, 2>(c.r); } rnd3<double>(c.r); rnd3<float>(c.r); if (i % 3 == 1) { rnd<float, 4>(c.r); rnd<double, 5>(c.r); } }
  return done();
}
