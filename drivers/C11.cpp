#include "vt.h"
#include <vecmath/segment.h>
using namespace vt;
template <typename T, std::size_t S> void shape(Rng&, vm::vec<T, S>, vm::vec<T, S>);
template <typename T, std::size_t S> void rnd(Rng& r) {
  using V = vm::vec<T, S>;
  const V a = vec<T, S>(r); V b = vec<T, S>(r);
  if (r.coin(3)) for (std::size_t i = 0; i + 1 < S; ++i) if (r.coin()) b[i] = a[i];
  if (r.coin(5)) { const V d = dir<T, S>(r) * T(std::pow(10.0, r.real(-2, 1)));      // short and far away
    for (std::size_t i = 0; i < S; ++i) b[i] = a[i]; const V far = dir<T, S>(r) * T(std::pow(10.0, r.real(2, std::is_same<T, double>::value ? 8 : 3)));
    return shape<T, S>(r, far, far + d); }
  shape<T, S>(r, a, b);
}
template <typename T, std::size_t S> void shape(Rng& r, vm::vec<T, S> a, vm::vec<T, S> b) {
  using V = vm::vec<T, S>; using G = vm::segment<T, S>; const char* p = P<T>::name;
  const G s(a, b);
  { Ev e("measure", p); e.k("s", s.start()).k("t", s.end());
    e.k("center", s.center()).k("len2", s.squared_length()).k("len", s.length()).k("lenc", s.length_c()).k("dir", s.direction()).k("gdir", s.get_direction()).k("orig", s.get_origin()); }
  for (int j = 0; j < 2; ++j) {
    V c = a, d = b; V& o = r.coin() ? c : d; const int k = r.below(S);
    if (r.coin()) o[k] = r.coin() ? std::nextafter(o[k], T(r.sgn()) * T(1e30)) : o[k] + T(r.sgn()) * T(std::pow(10.0, r.real(-6, 0)));
    if (r.coin(8)) (r.coin() ? c : d) = r.coin() ? a : b;
    if (r.coin()) std::swap(c, d);
    Ev e("equal", p); e.k("a", a).k("b", b).k("c", c).k("d", d); e.b("eq", G(a, b) == G(c, d)).b("ne", G(a, b) != G(c, d)); }
  // points around the segment, with maximal distances around the actual distance
  for (int j = 0; j < 6; ++j) {
    const double f = r.coin(4) ? double(r.range(0, 1)) : r.coin(3) ? r.real(-0.1, 1.1) : r.real(-1, 2);
    V q = a; for (std::size_t i = 0; i < S; ++i) q[i] = T(a[i] + (b[i] - a[i]) * f);
    const V d = dir<T, S>(r); const T m = r.coin(3) ? T(0.001) : T(std::pow(10.0, r.real(-3, 1.5)));
    if (!r.coin(4)) q = q + d * (m * T(r.coin() ? r.real(0, 3) : r.real(0.9, 1.1)));
    if (r.coin(6)) q = vec<T, S>(r);
    if (r.coin()) { const auto l = vm::length(b - a); if (l > T(0.01)) q = (r.coin() ? b + (b - a) / l * m * T(r.real(0.5, 1.3)) : a - (b - a) / l * m * T(r.real(0.5, 1.3))); if (r.coin()) q = q + dir<T, S>(r) * m * T(r.real(0, 1)); }
    Ev e("contains", p); e.k("s", s.start()).k("t", s.end()).k("q", q).k("m", m); e.b("r", s.contains(q, m));
  }
  { // no rounding: the point is next to the start, the middle or the end, at exactly the distance or not
    V sa = ivec<T, S>(r, 3), sb = sa; sb[r.below(S)] += T(r.range(0, 4)); V q = r.coin(3) ? V((sa + sb) / T(2)) : r.coin() ? sa : sb; const int k = r.below(S); const T m = T(r.range(1, 8)) / T(4);
    const T w = m + (r.coin() ? T(0) : T(r.range(-1, 1)) / T(16)); q[k] += w * T(r.sgn());
    const G g(sa, sb); Ev e("contains", p); e.k("s", g.start()).k("t", g.end()).k("q", q).k("m", m); e.b("r", g.contains(q, m)); }
  if (r.coin(4)) { const G g(a, a); V q = a + dir<T, S>(r) * T(r.real(0, 2)); const T m = T(r.real(0.1, 1.9));   // a point
    Ev e("contains", p); e.k("s", g.start()).k("t", g.end()).k("q", q).k("m", m); e.b("r", g.contains(q, m)); }
  { std::vector<G> l; std::vector<V> ex, got; for (int j = r.below(4); j > 0; --j) { l.push_back(G(vec<T, S>(r), vec<T, S>(r))); ex.push_back(l.back().start()); ex.push_back(l.back().end()); }
    Ev e("vertices", p); e.k("l", ex); G::get_vertices(l.begin(), l.end(), std::back_inserter(got)); e.k("r", got); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) { rnd<double, 3>(c.r); rnd<float, 3>(c.r); rnd<double, 2>(c.r); rnd<float, 2>(c.r); if (i % 3 == 1) { rnd<float, 4>(c.r); rnd<double, 5>(c.r); } if (i % 3 == 0) rnd<double, 4>(c.r); }
  return done();
}
