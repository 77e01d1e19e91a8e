#include "vt.h"
using namespace vt;
template <typename T, std::size_t S> vm::bbox<T, S> rbox(Rng& r, bool flat) {
  auto p = r.coin() ? ivec<T, S>(r, 50) : vec<T, S>(r, 50); vm::bbox<T, S> b; b.min = p;
  for (std::size_t i = 0; i < S; ++i) b.max[i] = p[i] + (flat && r.coin() ? T(0) : r.coin() ? T(r.range(1, 30)) : T(r.real(0.5, 30)));
  for (std::size_t i = 0; i < S; ++i) if (b.max[i] != b.min[i] && b.max[i] - b.min[i] < std::abs(p[i]) / T(512)) b.max[i] = p[i] + std::abs(p[i]) * T(r.real(0.01, 2));   // no axis along which the corners cannot be told apart
  return b;
}
template <typename T> void rnd3(Rng& r) {
  using V = vm::vec<T, 3>; const char* p = P<T>::name;
  const auto a = rbox<T, 3>(r, r.coin(5));
  { Ev e("vertices", p); e.k("a", a); std::vector<V> each; a.for_each_vertex([&](const V& v) { each.push_back(v); });
    const auto arr = a.vertices(); e.k("v", std::vector<V>(arr.begin(), arr.end())).k("each", each); }
  { Ev e("edges", p); e.k("a", a); std::vector<std::vector<V>> l; a.for_each_edge([&](const V& x, const V& y) { l.push_back({x, y}); }); e.k("l", l); }
  { Ev e("faces", p); e.k("a", a); std::vector<std::vector<V>> l;
    a.for_each_face([&](const V& w, const V& x, const V& y, const V& z, const V& n) { l.push_back({w, x, y, z, n}); }); e.k("l", l); }
  vm::mat<T, 4, 4> m = vm::mat<T, 4, 4>::identity();
  for (int rr = 0; rr < 3; ++rr) for (int c = 0; c < 4; ++c) m.v[c][rr] = r.coin(3) ? T(r.range(-2, 2)) : T(r.real(-3, 3));
  if (r.coin(4)) { for (int c = 0; c < 3; ++c) for (int rr = 0; rr < 3; ++rr) m.v[c][rr] = T(0); int k = r.below(3); for (int c = 0; c < 3; ++c) m.v[c][(c + k) % 3] = T(r.sgn()); }
  if (r.coin(8)) { m.v[3][3] = T(2); }   // homogeneous scale
  if (r.coin(5)) { T big = 1; for (int i = 0; i < 3; ++i) big += std::max(std::abs(a.min[i]), std::abs(a.max[i])); for (int c = 0; c < 3; ++c) m.v[c][3] = T(r.real(-0.5, 0.5)) / big; }   // perspective
  { Ev e("transform", p); e.k("a", a).k("m", m); e.k("r", a.transform(m)); }
}
template <typename T, std::size_t S> void rnd(Rng& r) {
  using B = vm::bbox<T, S>; const char* p = P<T>::name;
  const auto a = rbox<T, S>(r, r.coin(5));
  for (int bits = 0; bits < (1 << S); ++bits) {
    typename B::Corner c[S]; std::string s = "[";
    for (std::size_t i = 0; i < S; ++i) { const bool mx = bits >> i & 1; c[i] = mx ? B::Corner::max : B::Corner::min; if (i) s += ','; s += mx ? "1" : "0"; }
    Ev e("corner", p); e.k("a", a).raw("c", s + "]"); e.k("r", a.corner(c));
    if constexpr (S == 3) e.k("r3", a.corner(c[0], c[1], c[2]));
    if (!r.coin(3)) break;
  }
  { Ev e("measure", p); e.k("a", a); e.k("center", a.center()).k("size", a.size()).k("volume", a.volume()); }
  { T f = r.coin(3) ? T(r.real(-0.24, 0)) : scalar<T>(r); if (f < T(0)) { bool ok = true; for (std::size_t i = 0; i < S; ++i) ok = ok && a.max[i] - a.min[i] > T(-2.01) * f; if (!ok) f = -f; }
    Ev e("expand", p); e.k("a", a).k("f", f); e.k("r", a.expand(f)); }
  { auto d = vec<T, S>(r); Ev e("translate", p); e.k("a", a).k("d", d); e.k("r", a.translate(d)); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) { rnd3<double>(c.r); rnd3<float>(c.r); rnd<double, 3>(c.r); rnd<float, 3>(c.r); rnd<double, 2>(c.r); rnd<float, 1>(c.r); rnd<double, 4>(c.r); if (i % 3 == 1) { rnd<float, 2>(c.r); rnd<float, 4>(c.r); rnd<double, 1>(c.r); rnd<double, 5>(c.r); } }
  return done();
}
