#include "vt.h"
#include <list>
#include <vecmath/intersection.h>
#include <vecmath/plane.h>
using namespace vt;
struct Vertex { int id; double x, y, z; };
template <typename T> void probe(const std::vector<vm::vec<T, 3>>& vs, const vm::vec<T, 3>& q, const vm::vec<T, 3>& n, bool exact) {
  using V = vm::vec<T, 3>;
  Ev e("contains", P<T>::name); e.k("vs", vs).k("q", q).k("n", n).b("exact", exact);
  e.b("rn", vm::polygon_contains_point(q, n, std::begin(vs), std::end(vs)));
  // an axis that is not degenerate
  int k = 0; for (int i = 1; i < 3; ++i) if (std::fabs(double(n[i])) > std::fabs(double(n[k]))) k = i;
  e.b("ra", vm::polygon_contains_point(q, vm::axis::type(k), std::begin(vs), std::end(vs)));
  std::list<Vertex> l; for (auto& v : vs) l.push_back({int(l.size()), double(v[0]), double(v[1]), double(v[2])});
  auto get = [](const Vertex& v) { return V(T(v.x), T(v.y), T(v.z)); };
  e.b("rg", vm::polygon_contains_point(q, n, std::begin(l), std::end(l), get));
  // the variant that finds the normal from the first three vertices
  const auto nn = std::get<0>(vm::plane_normal(vs[0], vs[1], vs[2]));
  bool rp;
  if (nn) { rp = vm::polygon_contains_point(q, std::begin(vs), std::end(vs)); bool g = vm::polygon_contains_point(q, std::begin(l), std::end(l), get); if (g != rp) { e.str("differs", "accessor"); rp = !vm::polygon_contains_point(q, n, std::begin(vs), std::end(vs)); } }
  else rp = vm::polygon_contains_point(q, n, std::begin(vs), std::end(vs));
  e.b("rp", rp);
}
using P2 = std::pair<double, double>;
/** embeds the plane lattice into space, exactly */
template <typename T> vm::vec<T, 3> embed(int m, const P2& p) {
  const T x = T(p.first), y = T(p.second);
  using V = vm::vec<T, 3>;
  switch (m) {
    case 0: return V(x, y, T(2)); case 1: return V(T(-1), x, y); case 2: return V(y, T(3), x);
    case 3: return V(x, y, x + y); case 4: return V(x, T(2) * x - y, y); default: return V(T(1) - x - T(2) * y, x, y);
  }
}
template <typename T> vm::vec<T, 3> normal(int m) {
  using V = vm::vec<T, 3>;
  switch (m) {
    case 0: return V(0, 0, 1); case 1: return V(1, 0, 0); case 2: return V(0, 1, 0);
    case 3: return V(-0.5, -0.5, 0.5); case 4: return V(2, -1, -1); default: return V(0.5, 0.5, 1);
  }
}
template <typename T> void all(const std::vector<P2>& poly, const P2& q, int m, double s, double dx) {
  std::vector<vm::vec<T, 3>> vs; for (auto& p : poly) vs.push_back(embed<T>(m, {p.first * s + dx, p.second * s - dx}));
  probe<T>(vs, embed<T>(m, {q.first * s + dx, q.second * s - dx}), ((int(q.first + q.second + poly[1].first) & 1) ? -normal<T>(m) : normal<T>(m)), true);
}
static bool simple(const std::vector<P2>& v) {
  auto cr = [](P2 a, P2 b, P2 c) { return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first); };
  const int n = int(v.size());
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
    const P2 a = v[i], b = v[(i + 1) % n], c = v[j], d = v[(j + 1) % n];
    if (a == c) return false;
    const double p = cr(a, b, c), q = cr(a, b, d), r = cr(c, d, a), s = cr(c, d, b);
    const bool adj = j == i + 1 || (i == 0 && j == n - 1);
    if (adj) { const P2 x = j == i + 1 ? a : c, y = j == i + 1 ? b : a, z = j == i + 1 ? d : b; if (cr(x, y, z) == 0 && (y.first - x.first) * (z.first - y.first) + (y.second - x.second) * (z.second - y.second) <= 0) return false; continue; }
    if (p * q <= 0 && r * s <= 0) return false;   // touching counts as not simple
  }
  return true;
}
int main(int argc, char** argv) {
  auto c = init(argc, argv); Rng& r = c.r;
  if (!c.beh.empty()) {   // every polygon of the model with every point around it
    std::ifstream f(c.beh); int k;
    while (f >> k) {
      std::vector<P2> v(k); int mx = 2; for (auto& p : v) { f >> p.first >> p.second; mx = std::max(mx, int(std::max(p.first, p.second))); }
      for (int x = -1; x <= 2 * mx + 1; ++x) for (int y = -1; y <= 2 * mx + 1; ++y) if (r.coin(c.thorough ? 2 : 3)) all<double>(v, {x / 2.0, y / 2.0}, r.below(6), r.coin() ? 1 : 2, r.range(-2, 2));
    }
  }
  for (long i = 0; i < c.n; ++i) {
    // lattice polygons with many corners, points on the lattice
    std::vector<P2> v; const int k = r.range(3, 8), g = r.range(3, 6);
    do { v.clear(); for (int j = 0; j < k; ++j) v.push_back({double(r.range(0, g)), double(r.range(0, g))}); } while (!simple(v) && v.size() < 6 && !v.empty() && (v.size() <= 5 || r.coin(50)));
    if (!simple(v)) {   // star shaped around a centre
      v.clear(); double a = r.real(0, 6.28); for (int j = 0; j < k; ++j) { const double rad = r.real(1.5, 5); P2 p(std::round(6 + rad * std::cos(a)), std::round(6 + rad * std::sin(a))); v.push_back(p); a += 6.283185307179586 / k; }
      if (r.coin()) std::reverse(v.begin(), v.end());
      std::rotate(v.begin(), v.begin() + r.below(k), v.end());
      if (!simple(v)) continue;
    }
    const int m = r.below(6); const double s = r.coin() ? 1 : r.coin() ? 2 : 0.5, dx = r.range(-3, 3);
    for (int j = 0; j < 6; ++j) {
      P2 q(r.range(-1, 26) / 2.0, r.range(-1, 26) / 2.0); if (r.coin()) { const P2 w = v[r.below(k)]; q.second = w.second; if (r.coin(3)) q = w; }
      if (r.coin(4)) { const int b = r.below(k); q = P2((v[b].first + v[(b + 1) % k].first) / 2, (v[b].second + v[(b + 1) % k].second) / 2); }
      if (r.coin()) all<double>(v, q, m, s, dx); else all<float>(v, q, m, s, dx);
    }
    // full precision coordinates and a point that is exactly on an edge
    { auto w = [&](int bits, int frac) { return std::ldexp(double(r.range(1 - (1 << 15), (1 << 15) - 1)) * std::ldexp(1.0, bits - 16) + r.range(0, (1 << (bits - 16)) - 1), -frac); };
      const int mm = r.below(3); const bool f = r.coin(); const int bits = f ? 20 : 30, frac = f ? 17 : 27; const P2 q(w(bits, frac), w(bits, frac)), u(w(bits, frac), w(bits, frac)); const double a = r.range(1, 3), b = r.range(1, 3);
      std::vector<P2> t{{q.first + a * u.first, q.second + a * u.second}, {q.first - b * u.first, q.second - b * u.second}, {w(bits, frac), w(bits, frac)}};
      if (r.coin()) std::swap(t[1], t[2]); std::rotate(t.begin(), t.begin() + r.below(3), t.end());
      std::vector<vm::vec<double, 3>> td; std::vector<vm::vec<float, 3>> tf; for (auto& x : t) { td.push_back(embed<double>(mm, x)); tf.push_back(embed<float>(mm, x)); }
      if (simple(t)) { if (f) probe<float>(tf, embed<float>(mm, q), normal<float>(mm), true); else probe<double>(td, embed<double>(mm, q), normal<double>(mm), true); } }
    // real coordinates in a tilted plane
    using V = vm::vec<double, 3>; const V n = dir<double, 3>(r); V u = vm::normalize(vm::cross(n, std::fabs(n[0]) < 0.6 ? V(1, 0, 0) : V(0, 1, 0))); const V w = vm::cross(n, u);
    auto E3 = [&](double x, double y) { return V(n * 3.0 + u * x + w * y); };
    std::vector<V> vs; for (auto& p : v) vs.push_back(E3(p.first, p.second));
    for (int j = 0; j < 2; ++j) probe<double>(vs, E3(r.real(-1, 12), r.real(-1, 12)), r.coin() ? n : V(-n), false);
  }
  return done();
}
