#include "vt.h"
#include <vecmath/line.h>
#include <vecmath/ray.h>
#include <vecmath/segment.h>
using namespace vt;
template <typename L> auto& org(L& l) { return l.point; }
template <typename T, std::size_t S> auto& org(vm::ray<T, S>& l) { return l.origin; }
template <typename T, std::size_t S> auto& org(const vm::ray<T, S>& l) { return l.origin; }
template <typename T, std::size_t S> vm::vec<T, S> pt(Rng& r) {
  if (r.coin(6)) return dir<T, S>(r) * T(std::pow(10.0, r.real(2, std::is_same<T, double>::value ? 9 : 5)));   // far away
  return r.coin() ? ivec<T, S>(r, 8) : vec<T, S>(r);
}
template <typename AL, typename T, std::size_t S> void proj(Rng& r, const AL& l, const char* kind, T) {
  const auto q = pt<T, S>(r); const T t = scalar<T>(r);
  Ev e("proj", P<T>::name); e.str("kind", kind).k("o", l.get_origin()).k("d", l.get_direction()).k("q", q).k("t", t);
  e.k("at", vm::point_at_distance(l, t)).k("dist", vm::distance_to_projected_point(l, q)).k("proj", vm::project_point(l, q));
}
template <typename L, typename T, std::size_t S> void both(Rng& r) {
  using V = vm::vec<T, S>; const char* p = P<T>::name;
  const V o = pt<T, S>(r), d = dir<T, S>(r);
  const L l(o, d);
  proj<L, T, S>(r, l, "al", T(0));
  { L l2 = l;
    const T eps = someeps<T>(r);
    for (int j = r.below(3); j > 0; --j) { (r.coin() ? org(l2) : l2.direction)[r.below(S)] += abouteps<T>(r, eps); }
    Ev e("eqeps", p); e.k("o", org(l)).k("d", l.direction).k("o2", org(l2)).k("d2", l2.direction).k("eps", eps); e.b("r", vm::is_equal(l, l2, eps)); }
  { vm::mat<T, S + 1, S + 1> m = vm::mat<T, S + 1, S + 1>::identity(); double len;
    do {
      for (std::size_t c = 0; c <= S; ++c) for (std::size_t k = 0; k < S; ++k) m.v[c][k] = r.coin(3) ? T(r.range(-2, 2)) : T(r.real(-2, 2));
      double v = 0; for (std::size_t k = 0; k < S; ++k) { double x = 0; for (std::size_t c = 0; c < S; ++c) x += double(m.v[c][k]) * d[c]; v += x * x; } len = std::sqrt(v);
    } while (len < 0.2);
    if (r.coin(4)) for (std::size_t k = 0; k < S; ++k) m.v[S][k] *= T(std::pow(10.0, r.range(2, std::is_same<T, double>::value ? 12 : 6)));   // a large translation
    const bool ce = r.coin();
    Ev e("transform", p); e.k("m", m).k("o", o).k("d", d); const L t = ce ? l.transform_c(m) : l.transform(m); e.k("rp", org(t)).k("rd", t.direction); }
  { const V io = ivec<T, S>(r, 100), id = ivec<T, S>(r, 100); L a(io, id); vm::vec<T, S> gp = a.get_origin(), gd = a.get_direction(); L z;
    Ev e("ctor", p); e.k("o", io).k("d", id); e.k("zp", org(z)).k("zd", z.direction).k("gp", gp).k("gd", gd);
    if constexpr (std::is_same<L, vm::line<T, S>>::value) { vm::line<float, S> f(a); vm::line<double, S> g(f); e.k("cp", org(g)).k("cd", g.direction); }
    else { vm::ray<float, S> f(a); vm::ray<double, S> g(f); e.k("cp", org(g)).k("cd", g.direction); } }
}
template <typename T, std::size_t S> void rnd(Rng& r) {
  using V = vm::vec<T, S>; const char* p = P<T>::name;
  both<vm::line<T, S>, T, S>(r); both<vm::ray<T, S>, T, S>(r);
  { V a = pt<T, S>(r), b = pt<T, S>(r); if (vm::squared_length(b - a) > T(0.5)) proj<vm::segment<T, S>, T, S>(r, vm::segment<T, S>(a, b), "segment", T(0)); }
  { const V o = pt<T, S>(r); V d = dir<T, S>(r); const T t = T(r.range(-20, 20)); const V o2 = o + d * t;
    Ev e("canon", p); e.k("o", o).k("d", d).k("o2", o2);
    const auto c = vm::line<T, S>(o, d).make_canonical(), c2 = vm::line<T, S>(o2, -d).make_canonical();
    e.k("rp", c.point).k("rd", c.direction).k("rp2", c2.point).k("rd2", c2.direction); }
  { V d = V::zero(), d2 = V::zero(); const int k = r.below(S), k2 = r.coin(4) ? r.below(S) : k; d[k] = T(r.sgn()); d2[k2] = T(r.sgn());
    const V o = ivec<T, S>(r, 4); V o2 = o; o2[k] += T(r.range(-5, 5)); if (r.coin(3)) o2[r.below(S)] += T(r.range(-1, 1));
    if (r.coin(4)) o2[r.below(S)] += T(r.sgn()) / T(1 << r.range(2, 16));                  // barely different
    if (r.coin(4)) { T& x = d2[r.below(S)]; x = x == T(0) ? T(r.sgn()) / T(1 << r.range(2, 20)) : r.coin() ? std::nextafter(x, T(0)) : x - x / T(1 << r.range(2, 16)); }
    { Ev e("lineeq", p); e.k("o", o).k("d", d).k("o2", o2).k("d2", d2); const vm::line<T, S> a(o, d), b(o2, d2); e.b("eq", a == b).b("ne", a != b); }
    { if (r.coin()) o2 = o; if (r.coin()) d2 = d; Ev e("rayeq", p); e.k("o", o).k("d", d).k("o2", o2).k("d2", d2); const vm::ray<T, S> a(o, d), b(o2, d2); e.b("eq", a == b).b("ne", a != b); } }
  for (int j = 0; j < 4; ++j) { const V o = pt<T, S>(r), d = dir<T, S>(r); V q = pt<T, S>(r);
    if (r.coin()) { q = V::zero(); const int k = r.below(S); for (int i = 0; i < int(S); ++i) q[i] = i == k ? T(0) : T(r.real(-2, 2)); V w = q - d * vm::dot(q, d); q = o + w + d * T(r.real(-0.0003, 0.0003)); }
    if (r.coin(4)) q = o + d * T(r.range(-2, 2)) * T(0.00005);
    V so = o, sd = d;
    if (r.coin(5)) { so = sd = V::zero(); sd[r.below(S)] = T(r.sgn()); T x = T(r.sgn()) * T(0.0001); if (r.coin()) x = std::nextafter(x, T(r.sgn())); q = sd * x; }
    Ev e("status", p); e.k("o", so).k("d", sd).k("q", q); const auto s = vm::ray<T, S>(so, sd).point_status(q);
    e.str("r", s == vm::plane_status::above ? "above" : s == vm::plane_status::below ? "below" : "inside"); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) { rnd<double, 3>(c.r); rnd<float, 3>(c.r); rnd<double, 2>(c.r); if (i % 3 == 1) { rnd<float, 4>(c.r); rnd<double, 5>(c.r); } if (i % 3 == 0) { rnd<double, 4>(c.r); rnd<float, 2>(c.r); } }
  return done();
}
