#include "vt.h"
#include <vecmath/polygon.h>
#include <iterator>
using namespace vt;
template <typename T, std::size_t S> using L = std::vector<vm::vec<T, S>>;
template <typename T, std::size_t S> void pair_(const L<T, S>& la, const L<T, S>& lb) {
  const vm::polygon<T, S> a(la), b(lb);
  Ev e("pair", P<T>::name); e.k("la", la).k("lb", lb).k("a", a.vertices()).k("b", b.vertices());
  e.i("cmp", vm::compare(a, b)).b("eq", a == b).b("ne", a != b).b("lt", a < b).b("le", a <= b).b("gt", a > b).b("ge", a >= b);
  e.i("un", vm::compareUnoriented(a, b)).i("nu", vm::compareUnoriented(b, a));
}
template <typename T, std::size_t S> void pairEps(const L<T, S>& la, const L<T, S>& lb, T eps) {
  const vm::polygon<T, S> a(la), b(lb);
  Ev e("pairEps", P<T>::name); e.k("a", a.vertices()).k("b", b.vertices()).k("eps", eps);
  e.i("cmp", vm::compare(a, b, eps)).b("eq", vm::isEqual(a, b, eps)).i("un", vm::compareUnoriented(a, b, eps));
}
/** distinct vertices */
template <typename T, std::size_t S> L<T, S> list(Rng& r, int k, bool lattice, double m) {
  L<T, S> l;
  while (int(l.size()) < k) {
    auto v = lattice ? ivec<T, S>(r, 2) : vec<T, S>(r, m);
    bool dup = false; for (auto& w : l) dup = dup || w == v;
    if (!dup) l.push_back(v);
  }
  return l;
}
template <typename T, std::size_t S> void rnd(Rng& r) {
  const bool lat = r.coin(); const int k = r.coin(4) ? r.range(7, 14) : r.range(0, 6);
  const double m = r.coin(3) ? std::pow(10.0, r.range(-3, 6)) : 20;
  const auto a = list<T, S>(r, k, lat, m);
  auto b = a;
  if (k) {
    if (r.coin()) std::reverse(b.begin(), b.end());
    std::rotate(b.begin(), b.begin() + r.below(k), b.end());
    switch (r.below(5)) {
      case 0: break;
      case 1: { const int i = r.below(k); b[i] = lat ? ivec<T, S>(r, 2) : vec<T, S>(r, m); break; }   // one vertex differs
      case 2: { const int i = r.below(k), j = r.below(k); std::swap(b[i], b[j]); break; }
      case 3: { const int i = r.below(k); auto& x = b[i][r.below(S)]; x = std::nextafter(x, T(r.sgn() * 1e6)); break; }   // by one bit
      default: if (r.coin()) b.pop_back(); else b = list<T, S>(r, r.below(6), lat, 20);
    }
    bool dup = false; for (std::size_t i = 0; i < b.size(); ++i) for (std::size_t j = 0; j < i; ++j) dup = dup || b[i] == b[j];
    if (dup) b = a;
  }
  pair_<T, S>(a, b);
  // epsilons: vertices far apart from each other, jittered by about epsilon
  if (k) {
    const T eps = T(r.coin() ? 0.25 : r.real(0.01, 0.4));
    auto c = list<T, S>(r, k, true, 2); for (auto& v : c) v = v * T(4);
    auto d = c; if (r.coin()) { std::reverse(d.begin(), d.end()); }
    for (auto& v : d) for (std::size_t i = 0; i < S; ++i) { switch (r.below(8)) { case 0: v[i] += eps; break; case 1: v[i] -= eps; break; case 2: v[i] += T(r.real(-0.9, 0.9)) * eps; break; case 3: if (r.coin(4)) v[i] += eps * T(r.real(-1.5, 1.5)); break; default:; } }
    pairEps<T, S>(c, d, eps);
    // queries
    auto al = a; if (r.coin(3)) for (int n = r.range(1, 3); n > 0; --n) { const auto v = al[r.below(int(al.size()))]; al.insert(al.begin() + r.below(int(al.size()) + 1), v); }   // vertices may repeat
    if (r.coin(3)) { const auto off = vec<T, S>(r, m) * T(r.range(1, 30)); for (auto& v : al) v = v + off; }
    const vm::polygon<T, S> p(al);
    Ev e("query", P<T>::name); e.k("a", p.vertices());
    auto q = r.coin(3) ? vec<T, S>(r, m) : al[r.below(int(al.size()))]; if (r.coin(3)) { auto& x = q[r.below(S)]; x = std::nextafter(x, T(r.sgn() * 1e6)); }
    e.k("q", q).b("has", p.hasVertex(q)).k("center", p.center());
  }
}
template <typename T> void misc(Rng& r) {
  std::vector<vm::polygon<T, 3>> ps; L<T, 3> want; for (int i = r.below(4); i > 0; --i) { ps.emplace_back(list<T, 3>(r, r.below(5), true, 2)); for (auto& v : ps.back().vertices()) want.push_back(v); }
  { Ev e("getVertices", P<T>::name); e.k("want", want); L<T, 3> got; vm::polygon<T, 3>::get_vertices(ps.begin(), ps.end(), std::back_inserter(got)); e.k("r", got); }
  { const vm::polygon<T, 3> p; Ev e("empty", P<T>::name); e.k("r", p.vertices()).i("count", p.vertexCount()).k("inv", p.invert().vertices()).b("has", p.hasVertex(vec<T, 3>(r, 2))); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv); Rng& r = c.r;
  std::ifstream f(c.beh);
  for (int k; f >> k;) {
    std::vector<int> a(k), b(k); for (auto& x : a) f >> x; for (auto& x : b) f >> x;
    const int ax = r.below(3);
    auto mk = [&](const std::vector<int>& s) { L<double, 3> l; for (int x : s) { vm::vec<double, 3> v; v[ax] = x; l.push_back(v); } return l; };
    pair_<double, 3>(mk(a), mk(b));
  }
  for (long i = 0; i < c.n; ++i) { rnd<double, 3>(r); rnd<float, 3>(r); rnd<double, 2>(r); rnd<float, 2>(r); if (i % 3 == 1) { rnd<float, 4>(r); rnd<double, 5>(r); } if (i % 3 == 0) rnd<double, 4>(r); if (r.coin(10)) { misc<double>(r); misc<float>(r); } }
  return done();
}
