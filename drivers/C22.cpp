#include "vt.h"
#include <vecmath/convex_hull.h>
using namespace vt;
using P2 = std::pair<double, double>;
/** embeds the plane lattice into space, exactly */
template <typename T> vm::vec<T, 3> embed(int m, const P2& p) {
  const T x = T(p.first), y = T(p.second);
  using V = vm::vec<T, 3>;
  switch (m) {
    case 0: return V(x, y, T(2)); case 1: return V(T(-1), x, y); case 2: return V(y, T(3), x);
    case 3: return V(x, y, x + y); case 4: return V(x, T(2) * x - y, y); case 5: return V(T(1) - x - T(2) * y, x, y);
    case 6: return V(-x, y, T(0)); case 7: return V(T(0), y, x); default: return V(x, T(0), y);
  }
}
template <typename T> vm::vec<T, 3> normal(int m) {
  using V = vm::vec<T, 3>;
  switch (m) {
    case 0: case 6: return V(0, 0, 1); case 1: case 7: return V(1, 0, 0); case 2: case 8: return V(0, 1, 0);
    case 3: return V(-0.5, -0.5, 0.5); case 4: return V(2, -1, -1); default: return V(0.5, 0.5, 1);
  }
}
template <typename T> void exact(Rng& r, const std::vector<P2>& l, int m, double s, double dx) {
  std::vector<vm::vec<T, 3>> ps; for (auto& p : l) ps.push_back(embed<T>(m, {p.first * s + dx, p.second * s - dx}));
  Ev e("hull", P<T>::name); e.k("pts", ps).k("n", normal<T>(m));
  e.k("r", vm::convex_hull(ps));
  std::shuffle(ps.begin(), ps.end(), r.g);
  e.k("rs", vm::convex_hull(ps));
}
template <typename T> void rounded(Rng& r, double tol) {
  using V = vm::vec<double, 3>; using W = vm::vec<T, 3>;
  const V n = dir<double, 3>(r); const V u = vm::normalize(vm::cross(n, std::fabs(n[0]) < 0.6 ? V(1, 0, 0) : V(0, 1, 0))); const V w = vm::cross(n, u);
  const double size = std::pow(10.0, r.range(-1, 4));
  std::vector<W> ps; const int k = r.coin(6) ? r.range(15, 40) : r.range(3, 14), kind = r.below(3);
  for (int i = 0; i < k; ++i) {
    double x = r.real(-1, 1), y = r.real(-1, 1);
    if (kind == 1) { x = r.range(-3, 3) / 3.0; y = r.range(-3, 3) / 3.0; }
    if (kind == 2) { const double a = r.real(0, 6.2831853); x = std::cos(a); y = std::sin(a); }   // all of them corners
    ps.push_back(W(V(n * (size * 0.5) + u * (x * size) + w * (y * size))));
  }
  if (r.coin()) ps.push_back(ps[r.below(k)]);
  if (r.coin()) ps.insert(ps.begin(), ps[0]);
  // not (almost) on a line
  double area = 0; for (auto& a : ps) for (auto& b : ps) area = std::max(area, double(vm::length(vm::cross(a - ps[0], b - ps[0]))));
  if (area < 0.5 * size * size) return;
  Ev e("rounded", P<T>::name); e.k("pts", ps).k("n", n).k("tol", tol * size * size);
  e.k("r", vm::convex_hull(ps));
}
template <typename T> void colinear(Rng& r) {
  using W = vm::vec<T, 3>; const W p = ivec<T, 3>(r, 4), d = ivec<T, 3>(r, 3); std::vector<W> ps; const int k = r.below(9);
  const int kind = r.below(4);
  if (kind == 3) { for (int i = 0; i < std::min(k, 2); ++i) ps.push_back(ivec<T, 3>(r, 4)); }   // at most two points, maybe repeated
  for (int i = int(ps.size()); i < k; ++i) {
    if (kind == 3 && !ps.empty()) ps.push_back(ps[r.below(int(std::min<size_t>(ps.size(), 2)))]);
    else ps.push_back(p + d * T(kind ? r.range(-4, 4) : 0));
  }
  Ev e("colinear", P<T>::name); e.k("pts", ps);
  e.k("r", vm::convex_hull(ps));
}
int main(int argc, char** argv) {
  auto c = init(argc, argv); Rng& r = c.r;
  if (!c.beh.empty()) {
    std::ifstream f(c.beh); int k;
    while (f >> k) {
      std::vector<P2> v(k); for (auto& p : v) f >> p.first >> p.second;
      if (r.coin()) exact<double>(r, v, r.below(9), r.coin() ? 1 : 2, r.range(-2, 2)); else exact<float>(r, v, r.below(9), 1, r.range(-2, 2));
    }
  }
  for (long i = 0; i < c.n; ++i) {
    std::vector<P2> v; const int k = r.coin(8) ? r.range(13, 50) : r.range(0, 12), g = r.coin(4) ? r.range(8, 60) : r.range(1, 7);
    for (int j = 0; j < k; ++j) v.push_back({double(r.range(0, g)), double(r.range(0, g))});
    if (k && r.coin(3)) for (int j = r.below(3); j >= 0; --j) v.push_back(v[r.below(k)]);
    if (r.coin(4)) for (int j = 0; j < 4; ++j) v.push_back({double(g), double(r.range(0, g))});   // a run along one edge
    const double s = r.coin() ? 1 : std::ldexp(1.0, r.range(-9, 10));
    if (s < 0.0625) { v.push_back({double(g), 256}); v.push_back({256, double(g)}); v.push_back({0, 0}); }   // fine detail in a large set
    std::shuffle(v.begin(), v.end(), r.g);
    const double off = s * r.range(-3, 3);   // also far away from the origin
    if (r.coin()) exact<double>(r, v, r.below(9), s, r.coin(3) ? off * std::ldexp(1.0, r.range(1, 40)) : off); else exact<float>(r, v, r.below(9), s, r.coin(3) ? off * std::ldexp(1.0, r.range(1, 15)) : off);
    if (r.coin(3)) { if (r.coin(3)) rounded<float>(r, 1e-3); else rounded<double>(r, 1e-10); }
    if (r.coin(6)) { if (r.coin()) colinear<double>(r); else colinear<float>(r); }
  }
  return done();
}
