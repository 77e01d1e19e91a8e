#include "vt.h"
#include <vecmath/intersection.h>
#include <vecmath/plane.h>
#include <vecmath/ray.h>
#include <vecmath/scalar.h>
using namespace vt;
template <typename T, std::size_t S> vm::vec<T, S> pt(Rng& r) { return r.coin() ? ivec<T, S>(r, 6) : vec<T, S>(r, 20); }
template <typename T> vm::vec<T, 3> toward(const vm::vec<T, 3>& o, const vm::vec<T, 3>& q, Rng& r) {
  double w[3], l = 0; for (int i = 0; i < 3; ++i) { w[i] = double(q[i]) - double(o[i]); l += w[i] * w[i]; }
  if (l < 1e-4) return dir<T, 3>(r);
  l = std::sqrt(l); if (r.coin(12)) l = -l;
  return vm::vec<T, 3>(T(w[0] / l), T(w[1] / l), T(w[2] / l));
}
// a parameter close to zero, or a large one: rays that start at, barely off or far from a surface
template <typename T> T offs(Rng& r) {
  switch (r.below(4)) {
    case 0: return T(r.sgn()) * T(r.range(1, 40)) * T(0.0001);
    case 1: return T(r.sgn()) * T(std::ldexp(1.0, -r.range(4, std::is_same<T, float>::value ? 10 : 24)));
    case 2: return T(r.range(20, 4000));
    default: return T(r.real(0, 300)); }
}
template <typename T, std::size_t S> void plane(Rng& r) {
  auto o = pt<T, S>(r); const auto n = dir<T, S>(r); auto d = dir<T, S>(r); T dist = scalar<T>(r, 20);
  switch (r.below(6)) {
    case 0: dist = vm::dot(o, n); break;                                     // origin on the plane
    case 1: dist = vm::dot(o, n) + T(r.range(-4, 4)) * T(0.0005); break;     // around it
    case 2: { auto w = d - n * vm::dot(d, n); if (S > 1 && vm::length(w) > T(0.1)) { w = vm::normalize(w); const T s = T(r.range(-4, 4)) * T(0.0005); d = vm::normalize(w + n * s); } break; }
    case 3: o = n * dist - d * offs<T>(r); break;
    default: break;
  }
  Ev e("plane", P<T>::name); e.k("o", o).k("d", d).k("n", n).k("dist", dist);
  e.k("r", vm::intersect_ray_plane(vm::ray<T, S>(o, d), vm::plane<T, S>(dist, n)));
}
template <typename T> void triangle(Rng& r) {
  auto P3 = [&] { return r.coin() ? ivec<T, 3>(r, 5) : vm::vec<T, 3>(T(r.real(-8, 8)), T(r.real(-8, 8)), T(r.real(-8, 8))); };
  auto a = P3(), b = P3(), c = P3(), o = P3();
  if (r.coin(5)) { const T k = T(std::ldexp(1.0, r.range(-8, 6))); a = a * k; b = b * k; c = c * k; }
  double x = r.real(-0.3, 1.3), y = r.real(-0.3, 1.3); if (r.coin(6)) x = 0; if (r.coin(6)) y = 0; if (r.coin(8)) y = 1 - x; if (r.coin(5)) { const double h = r.sgn() * std::ldexp(1.0, -r.range(3, 20)); switch (r.below(3)) { case 0: x = h; break; case 1: y = h; break; default: y = 1 - x + h; } }
  const vm::vec<T, 3> q = a + (b - a) * T(x) + (c - a) * T(y);
  const auto d = r.coin(5) ? dir<T, 3>(r) : toward<T>(o, q, r);
  if (r.coin(4)) o = q - d * offs<T>(r);
  Ev e("triangle", P<T>::name); e.k("o", o).k("d", d).k("a", a).k("b", b).k("c", c);
  e.k("r", vm::intersect_ray_triangle(vm::ray<T, 3>(o, d), a, b, c));
}
// few-bit triangles whose projection along the ray has an area that is a power of two; the ray passes
// through the inside, edges, corners and the outside and starts before, on or behind the triangle
template <typename T> void triangleX(Rng& r) {
  using V = vm::vec<T, 3>; const int ax = r.below(3), i = (ax + 1) % 3, j = (ax + 2) % 3;
  const double s = std::ldexp(1.0, r.range(0, 2)), u = std::ldexp(1.0, r.range(0, 2)), x1 = r.sgn() * s, y2 = r.sgn() * u, x2 = r.range(-2, 2), h1 = r.coin(3) ? 0 : r.range(-2, 2), h2 = r.coin(3) ? 0 : r.range(-2, 2);
  const double ox = r.range(-3, 3), oy = r.range(-3, 3), oh = r.range(-3, 3);
  auto mk = [&](double x, double y, double h) { V w; w[i] = T(ox + x); w[j] = T(oy + y); w[ax] = T(oh + h); return w; };
  V t[3] = {mk(0, 0, 0), mk(x1, 0, h1), mk(x2, y2, h2)}; if (r.coin()) std::swap(t[1], t[2]); std::rotate(t, t + r.below(3), t + 3);
  static const double A[10][2] = {{0, 0}, {1, 0}, {0, 1}, {0.5, 0}, {0, 0.5}, {0.5, 0.5}, {0.25, 0.25}, {0.25, 0.75}, {0.75, 0.5}, {-0.25, 0.5}};
  const double* q = A[r.below(10)]; const double px = q[0] * x1 + q[1] * x2, py = q[1] * y2, ph = q[0] * h1 + q[1] * h2;
  static const double off[7] = {0, 0, 0.25, -0.25, 3, -3, 1};
  const V o = mk(px, py, ph + off[r.below(7)]); V d = V::zero(); d[ax] = T(r.sgn());
  Ev e("triangle", P<T>::name); e.k("o", o).k("d", d).k("a", t[0]).k("b", t[1]).k("c", t[2]);
  e.k("r", vm::intersect_ray_triangle(vm::ray<T, 3>(o, d), t[0], t[1], t[2]));
}
template <typename T, std::size_t S> void sphereX(Rng& r) {
  using V = vm::vec<T, S>; const V c = ivec<T, S>(r, 4); const T rad = T(r.range(1, 12)) / T(2); const int ax = r.below(S);
  V o = c, d = V::zero(); d[ax] = T(r.sgn());
  for (std::size_t i = 0; i < S; ++i) o[i] += T(r.range(-4, 4)) / T(2);
  if (r.coin()) { for (std::size_t i = 0; i < S; ++i) if (int(i) != ax) o[i] = c[i]; if (S > 1 && r.coin()) { int k = r.below(S); if (k == ax) k = (k + 1) % int(S); o[k] = c[k] + rad * T(r.sgn()); } }   // through the centre or tangent
  if (r.coin(3)) o[ax] = c[ax] + (r.coin() ? rad * T(r.sgn()) : T(0));
  if (r.coin(5) && S > 2) { const T k = T(r.range(1, 2)); const int a = r.below(S), b = (a + 1) % int(S); o = c; o[a] += T(3 * r.sgn()) * k; o[b] += T(4 * r.sgn()) * k; Ev e("sphere", P<T>::name); e.k("o", o).k("d", d).k("c", c).k("rad", T(5) * k); e.k("r", vm::intersect_ray_sphere(vm::ray<T, S>(o, d), c, T(5) * k)); return; }
  Ev e("sphere", P<T>::name); e.k("o", o).k("d", d).k("c", c).k("rad", rad);
  e.k("r", vm::intersect_ray_sphere(vm::ray<T, S>(o, d), c, rad));
}
struct Elem { int id; vm::vec<double, 3> p; };
template <typename T> void polygon(Rng& r) {
  using V = vm::vec<T, 3>;
  // a star shaped polygon in a random plane
  const V n = dir<T, 3>(r); const T dist = T(r.range(-5, 5));
  V u = vm::cross(n, std::abs(double(n[0])) < 0.6 ? V(1, 0, 0) : V(0, 1, 0)); u = vm::normalize(u); const V v = vm::cross(n, u);
  const V c = n * dist + u * T(r.range(-4, 4)) + v * T(r.range(-4, 4));
  const int k = r.range(3, 7); std::vector<V> vs; std::vector<double> ang;
  const double a0 = r.real(0, 6.28), big = r.coin(5) ? std::ldexp(1.0, r.range(-4, 6)) : 1; const bool cw = r.coin();
  for (int i = 0; i < k; ++i) { const double a = a0 + (cw ? -1 : 1) * 6.283185307179586 * (i + r.real(-0.2, 0.2)) / k, rad = big * (r.coin() ? 3 : r.real(2, 4)); vs.push_back(c + u * T(rad * std::cos(a)) + v * T(rad * std::sin(a))); }
  V o = pt<T, 3>(r);
  V q = c + u * T(big * r.real(-4, 4)) + v * T(big * r.real(-4, 4)); if (r.coin(5)) q = vs[r.below(k)]; if (r.coin(5)) { const int i = r.below(k); q = (vs[i] + vs[(i + 1) % k]) / T(2); }
  if (r.coin(6)) q = c;
  const V d = toward<T>(o, q, r); if (r.coin(4)) o = q - d * offs<T>(r); const vm::ray<T, 3> ray(o, d);
  Ev e("polygon", P<T>::name); e.k("o", o).k("d", d).k("n", n).k("dist", dist).k("vs", vs);
  const T a = vm::intersect_ray_polygon(ray, vm::plane<T, 3>(dist, n), std::begin(vs), std::end(vs));
  e.k("r", a);
  // with a vertex accessor, and with the plane found from the vertices
  std::vector<std::pair<int, V>> ps; for (auto& x : vs) ps.push_back({int(ps.size()), x});
  const T b = vm::intersect_ray_polygon(ray, vm::plane<T, 3>(dist, n), std::begin(ps), std::end(ps), [](const std::pair<int, V>& x) { return x.second; });
  e.b("same", a == b || (vm::is_nan(a) && vm::is_nan(b)));
}
template <typename T> void polygon2(Rng& r) {   // plane from the points: exact lattice planes
  using V = vm::vec<T, 3>;
  const int ax = r.below(3); const T h = T(r.range(-3, 3));
  auto mk = [&](T x, T y) { V w; w[ax] = h; w[(ax + 1) % 3] = x; w[(ax + 2) % 3] = y; return w; };
  std::vector<V> vs; 
  static const int shapes[4][12] = {{-2, -2, 2, -2, 2, 2, -2, 2, 99}, {0, -3, 3, 0, 0, 3, -3, 0, 99}, {-3, -2, 3, -2, 0, 3, 99}, {-2, -3, 2, -3, 4, 0, 2, 3, -2, 3, 99}};
  const int* s = shapes[r.below(4)]; for (; *s != 99; s += 2) vs.push_back(mk(T(s[0]), T(s[1])));
  std::rotate(vs.begin(), vs.begin() + r.below(int(vs.size())), vs.end()); if (r.coin()) std::reverse(vs.begin(), vs.end());
  const V q = mk(T(r.range(-4, 4)), T(r.range(-4, 4))); V o = q; o[ax] += T(r.range(-4, 4)); V d = V::zero(); d[ax] = T(r.sgn());
  if (r.coin(3)) { o = pt<T, 3>(r); d = toward<T>(o, q, r); }
  V n = V::zero(); n[ax] = T(1);
  const vm::ray<T, 3> ray(o, d);
  Ev e("polygon", P<T>::name); e.k("o", o).k("d", d).k("n", n).k("dist", h).k("vs", vs);
  const T a = vm::intersect_ray_polygon(ray, std::begin(vs), std::end(vs));
  e.k("r", a);
  std::vector<std::pair<int, V>> ps; for (auto& x : vs) ps.push_back({int(ps.size()), x});
  const T b = vm::intersect_ray_polygon(ray, std::begin(ps), std::end(ps), [](const std::pair<int, V>& x) { return x.second; });
  e.b("same", a == b || (vm::is_nan(a) && vm::is_nan(b)));
}
template <typename T, std::size_t S> void box1(const vm::vec<T, S>& o, const vm::vec<T, S>& d, const vm::bbox<T, S>& b) {
  Ev e("bbox", P<T>::name); e.k("o", o).k("d", d).k("min", b.min).k("max", b.max);
  e.k("r", vm::intersect_ray_bbox(vm::ray<T, S>(o, d), b));
}
template <typename T, std::size_t S> void box(Rng& r) {
  using V = vm::vec<T, S>; V lo, hi, o, q;
  for (std::size_t i = 0; i < S; ++i) { lo[i] = r.coin() ? T(r.range(-5, 3)) : T(r.real(-9, 9)); hi[i] = lo[i] + (r.coin() ? T(r.range(r.coin(6) ? 0 : 1, 6)) : T(r.real(0.1, 6)));
    o[i] = r.coin(3) ? T(r.range(-8, 8)) : T(r.real(-12, 12)); if (r.coin(3)) o[i] = lo[i] + (hi[i] - lo[i]) * T(r.range(0, 4)) / T(4);
    q[i] = lo[i] + (hi[i] - lo[i]) * (r.coin(3) ? T(r.range(0, 2)) / T(2) : T(r.real(-0.2, 1.2))); }
  V d = dir<T, S>(r);
  if (r.coin()) { double w[S], l = 0; for (std::size_t i = 0; i < S; ++i) { w[i] = double(q[i]) - double(o[i]); l += w[i] * w[i]; } if (l > 1e-4) { l = std::sqrt(l); if (r.coin(8)) l = -l; for (std::size_t i = 0; i < S; ++i) d[i] = T(w[i] / l); } }
  if (r.coin(4)) { const T k = offs<T>(r); for (std::size_t i = 0; i < S; ++i) o[i] = q[i] - d[i] * k; }
  if (r.coin(6)) { const std::size_t i = r.below(S); d[i] = T(0); double l = 0; for (std::size_t j = 0; j < S; ++j) l += double(d[j]) * d[j]; if (l < 0.01) return; for (std::size_t j = 0; j < S; ++j) d[j] = T(d[j] / std::sqrt(l)); }
  box1<T, S>(o, d, vm::bbox<T, S>(lo, hi));
}
template <typename T, std::size_t S> vm::vec<T, S> towardS(const vm::vec<T, S>& o, const vm::vec<T, S>& q, Rng& r) {
  double w[S], l = 0; for (std::size_t i = 0; i < S; ++i) { w[i] = double(q[i]) - double(o[i]); l += w[i] * w[i]; }
  if (l < 1e-4) return dir<T, S>(r);
  l = std::sqrt(l); if (r.coin(12)) l = -l; vm::vec<T, S> d; for (std::size_t i = 0; i < S; ++i) d[i] = T(w[i] / l); return d;
}
template <typename T, std::size_t S> void sphere(Rng& r) {
  using V = vm::vec<T, S>; V c = pt<T, S>(r), o = r.coin(4) ? V(c + dir<T, S>(r) * T(r.real(0, 3))) : pt<T, S>(r); T rad = r.coin() ? T(r.range(1, 6)) : T(r.real(0.2, 8));
  if (r.coin(6)) rad = rad * T(std::ldexp(1.0, r.range(-6, 8)));
  V d = r.coin(3) ? dir<T, S>(r) : towardS<T, S>(o, c + dir<T, S>(r) * T(r.real(0, 1.2)) * rad, r);
  if (r.coin(3)) { const V q = c + dir<T, S>(r) * rad; if (r.coin()) d = dir<T, S>(r); else d = towardS<T, S>(q, c + dir<T, S>(r) * T(r.real(0, 0.9)) * rad, r); o = q - d * offs<T>(r); }   // from close to the surface
  Ev e("sphere", P<T>::name); e.k("o", o).k("d", d).k("c", c).k("rad", rad);
  e.k("r", vm::intersect_ray_sphere(vm::ray<T, S>(o, d), c, rad));
}
static void torus(Rng& r) {
  using V = vm::vec<double, 3>; const double M = r.coin() ? r.range(1, 8) : r.real(1, 8), m = M * (r.coin() ? r.range(2, 6) / 8.0 : r.real(0.2, 0.8));
  const V c = r.coin() ? V::zero() : ivec<double, 3>(r, 5);
  V o(r.real(-2, 2) * M, r.real(-2, 2) * M, r.real(-2, 2) * M); if (r.coin(3)) o = V(r.range(-8, 8), r.range(-8, 8), r.range(-4, 4));
  if (r.coin(4)) { const double a = r.real(0, 6.28); o = V(M * std::cos(a), M * std::sin(a), 0) + dir<double, 3>(r) * (m * r.real(0, 0.9)); }   // inside the ring
  const double a = r.real(0, 6.28); const V q = V(M * std::cos(a), M * std::sin(a), 0) + dir<double, 3>(r) * (m * r.real(0, 1.3));
  V d = r.coin(3) ? dir<double, 3>(r) : toward<double>(o, q, r); if (r.coin(8)) { d[2] = r.sgn() * std::pow(10.0, -r.real(1, 6)); d = d / std::sqrt(vm::dot(d, d)); }
  if (r.coin(4)) { const V f(M * std::cos(a), M * std::sin(a), 0), g(std::cos(a), std::sin(a), 0); const double b = r.real(0, 6.28); o = f + (g * std::cos(b) + V(0, 0, 1) * std::sin(b)) * m - d * (r.sgn() * r.real(0.003, 0.1)); }   // barely off the surface
  // general position of the quartic: away from the solver's epsilon
  const double oo = vm::dot(o, o), od = vm::dot(o, d), om = oo - m * m - M * M;
  const double A4 = 4 * od, B4 = 2 * om + 4 * (od * od + M * M * d.z() * d.z()), C4 = 4 * od * om + 8 * M * M * o.z() * d.z(), D4 = om * om - 4 * M * M * (m * m - o.z() * o.z());
  auto F = [&](double t) { return (((t + A4) * t + B4) * t + C4) * t + D4; };
  const double p = -3. / 8 * A4 * A4 + B4, q4 = A4 * A4 * A4 / 8 - A4 * B4 / 2 + C4, r4 = -3. / 256 * A4 * A4 * A4 * A4 + A4 * A4 * B4 / 16 - A4 * C4 / 4 + D4;
  const double A = -p / 2, B = -r4, C = r4 * p / 2 - q4 * q4 / 8, pp = (-A * A / 3 + B) / 3, qq = (2. / 27 * A * A * A - A * B / 3 + C) / 2, Dc = qq * qq + pp * pp * pp;
  if (std::fabs(r4) < 0.05 || std::fabs(Dc) < 0.05 * (1 + M * M) || std::fabs(q4) < 0.5 * M) return;
  {
    const double z = (Dc < 0 ? 2 * std::sqrt(-pp) * std::cos(std::acos(std::max(-1.0, std::min(1.0, -qq / std::sqrt(-pp * pp * pp)))) / 3) : std::cbrt(std::sqrt(Dc) - qq) - std::cbrt(std::sqrt(Dc) + qq)) - A / 3;
    const double u = z * z - r4, v = 2 * z - p; if (u < 0.02 || v < 0.02) return;
    const double su = std::sqrt(u); if (std::fabs(v / 4 - (z - su)) < 0.02 || std::fabs(v / 4 - (z + su)) < 0.02) return;
  }
  // real roots apart from each other and from zero
  std::vector<double> z{0}; const double L = 16 * M; double pf = F(-L);
  for (int k = -400; k < 400; ++k) { const double t = L * (k + 1) / 400, f = F(t); if ((f < 0) != (pf < 0)) z.push_back(t); pf = f; }
  std::sort(z.begin(), z.end()); for (std::size_t i = 1; i < z.size(); ++i) if (z[i] - z[i - 1] < 0.15 * M && z[i] != 0 && z[i - 1] != 0) return;
  { Ev e("torus", "d"); e.k("o", V(o + c)).k("d", d).k("c", c).k("M", M).k("m", m).k("delta", 1e-3);
    e.k("r", vm::intersect_ray_torus(vm::ray<double, 3>(o + c, d), c, M, m)); }
  if (!r.coin(4) || M > 4 || std::fabs(r4) < 0.5 || std::fabs(Dc) < 1 + M * M || std::fabs(q4) < 2 * M) return;
  { using W = vm::vec<float, 3>; const W fo(o + c), fd(d), fc(c); const float fM = float(M), fm = float(m); Ev e("torus", "f"); e.k("o", fo).k("d", fd).k("c", fc).k("M", fM).k("m", fm).k("delta", 0.02);
    e.k("r", vm::intersect_ray_torus(vm::ray<float, 3>(fo, fd), fc, fM, fm)); }
}
static void torus_axis(Rng& r) {   // axis parallel rays on a lattice: the symmetric quartics
  using V = vm::vec<double, 3>; const double M = r.range(2, 8), m = r.range(1, int(M) - 1);
  const V c = ivec<double, 3>(r, 3); V o(r.range(-20, 20) / 2.0, r.range(-20, 20) / 2.0, r.range(-8, 8) / 2.0); if (r.coin(3)) o[r.below(3)] = 0; if (r.coin(8)) o = V::zero();
  V d = V::zero(); d[r.below(3)] = r.sgn();
  auto F = [&](double t) { const V q = o + d * t; const double xy = q.x() * q.x() + q.y() * q.y(), g = xy + q.z() * q.z() + M * M - m * m; return g * g - 4 * M * M * xy; };
  std::vector<double> z{0}; const double L = 40; double pf = F(-L);
  for (int k = -4000; k < 4000; ++k) { const double t = L * (k + 1) / 4000, f = F(t); if ((f < 0) != (pf < 0)) z.push_back(t); pf = f; }
  std::sort(z.begin(), z.end()); for (std::size_t i = 1; i < z.size(); ++i) if (z[i] - z[i - 1] < 0.2) return;
  Ev e("torus", "d"); e.k("o", V(o + c)).k("d", d).k("c", c).k("M", M).k("m", m).k("delta", 0.05);
  e.k("r", vm::intersect_ray_torus(vm::ray<double, 3>(o + c, d), c, M, m));
}
template <typename T> void flat(Rng& r) {   // no plane: fewer than three points, or the first three in a line
  using V = vm::vec<T, 3>; std::vector<V> l; const V a = ivec<T, 3>(r, 4), d = ivec<T, 3>(r, 3); const int n = r.range(0, 6);
  for (int i = 0; i < n; ++i) l.push_back(i < 3 ? V(a + d * T(r.range(-3, 3))) : ivec<T, 3>(r, 4));
  const V o = ivec<T, 3>(r, 6), k = dir<T, 3>(r);
  Ev e("flat", P<T>::name); e.k("o", o).k("d", k).k("l", l);
  e.k("r", vm::intersect_ray_polygon(vm::ray<T, 3>(o, k), l.begin(), l.end())).k("g", vm::intersect_ray_polygon(vm::ray<T, 3>(o, k), l.begin(), l.end(), [](const V& v) { return -v; }));
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  if (!c.beh.empty()) { std::ifstream f(c.beh); double a, b, x, y; while (f >> a >> b >> x >> y) {
    vm::vec<double, 2> d(x, y); if (x != 0 && y != 0) { const double l = std::sqrt(x * x + y * y); d = vm::vec<double, 2>(x / l, y / l); } else d = vm::vec<double, 2>(x / (std::fabs(x) + std::fabs(y)), y / (std::fabs(x) + std::fabs(y)));
    box1<double, 2>(vm::vec<double, 2>(a, b), d, vm::bbox<double, 2>(vm::vec<double, 2>(0, 0), vm::vec<double, 2>(2, 2)));
    box1<float, 3>(vm::vec<float, 3>(a, 1, b), vm::vec<float, 3>(d.x(), 0, d.y()), vm::bbox<float, 3>(vm::vec<float, 3>(0, 0, 0), vm::vec<float, 3>(2, 2, 2))); } }
  for (long i = 0; i < c.n; ++i) {
    plane<double, 3>(c.r); plane<float, 3>(c.r); if (i % 4 == 0) { plane<double, 2>(c.r); plane<double, 4>(c.r); sphere<double, 2>(c.r); sphere<double, 4>(c.r); box<double, 4>(c.r); box<double, 1>(c.r); } triangle<double>(c.r); triangle<float>(c.r); triangleX<double>(c.r); triangleX<float>(c.r); sphereX<double, 3>(c.r); sphereX<float, 3>(c.r); sphereX<double, 2>(c.r); polygon<double>(c.r); polygon<float>(c.r); polygon2<double>(c.r); polygon2<float>(c.r);
    if (i % 4 == 0) { flat<double>(c.r); flat<float>(c.r); } if (i % 3 == 1) { plane<float, 2>(c.r); sphere<float, 2>(c.r); box<float, 2>(c.r); box<float, 4>(c.r); sphere<float, 4>(c.r); plane<float, 4>(c.r); }
    for (int j = 0; j < 2; ++j) { box<double, 3>(c.r); box<float, 3>(c.r); box<double, 2>(c.r); }
    sphere<double, 3>(c.r); sphere<double, 3>(c.r); sphere<float, 3>(c.r); torus(c.r); torus_axis(c.r);
  }
  return done();
}
