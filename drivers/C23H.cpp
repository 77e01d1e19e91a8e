#include "vt.h"
#include <vecmath/polygon.h>
using namespace vt;
template <std::size_t S> struct H {
  using D = vm::polygon<double, S>; using F = vm::polygon<float, S>;
  D d; F f; bool isd = true;
  template <typename Q> void show(Ev& e, const Q& p) {
    e.k("r", p.vertices()).i("count", p.vertexCount());
    using W = std::decay_t<decltype(p.vertices())>;
    W it; for (auto i = p.begin(); i != p.end(); ++i) it.push_back(*i);
    W rr; for (auto i = p.rbegin(); i != p.rend(); ++i) rr.push_back(*i);
    e.k("it", it).k("rr", rr);
  }
  void fin(Ev& e) { if (isd) show(e, d); else show(e, f); }
  const char* p() const { return isd ? "d" : "f"; }
  void make(const std::vector<vm::vec<double, S>>& l, int how) {
    Ev e("new", p(), true);
    if (isd) {
      e.k("l", l);
      if (how == 0) d = D(l); else if (how == 1) { auto c = l; d = D(std::move(c)); }
      else { switch (l.size()) { case 3: d = D{l[0], l[1], l[2]}; break; case 4: d = D{l[0], l[1], l[2], l[3]}; break; default: d = D(l); } }
    } else {
      std::vector<vm::vec<float, S>> g; for (auto& v : l) g.push_back(vm::vec<float, S>(v));
      e.k("l", g);
      if (how == 1) { auto c = g; f = F(std::move(c)); } else f = F(g);
    }
    fin(e);
  }
  void invert() { Ev e("invert", p(), true); if (isd) d = d.invert(); else f = f.invert(); fin(e); }
  void copy(Rng& r) {
    Ev e("copy", p(), true);
    if (isd) { D x(d); if (r.coin()) { D y; y = x; d = std::move(y); } else d = D(std::move(x)); } else { F x(f); if (r.coin()) { F y; y = x; f = std::move(y); } else f = x; }
    fin(e);
  }
  void convert() { isd = !isd; Ev e(isd ? "todouble" : "tofloat", p(), true); if (isd) d = D(f); else f = F(d); fin(e); }
  void translate(const vm::vec<double, S>& v, bool exact) {
    Ev e("translate", p(), true); e.b("exact", exact);
    if (isd) { e.k("d", v); d = d.translate(v); } else { vm::vec<float, S> w(v); e.k("d", w); f = f.translate(w); }
    fin(e);
  }
  void transform(const vm::mat<double, S + 1, S + 1>& m, bool exact) {
    Ev e("transform", p(), true); e.b("exact", exact);
    if (isd) { e.k("m", m); d = d.transform(m); } else { vm::mat<float, S + 1, S + 1> g(m); e.k("m", g); f = f.transform(g); }
    fin(e);
  }
  double big() const { double x = 0; if (isd) for (auto& v : d.vertices()) x = std::max(x, double(vm::length(v))); else for (auto& v : f.vertices()) x = std::max(x, double(vm::length(v))); return x; }
};
template <std::size_t S> vm::mat<double, S + 1, S + 1> rmat(Rng& r, bool lattice) {
  auto m = vm::mat<double, S + 1, S + 1>::identity();
  for (std::size_t c = 0; c <= S; ++c) for (std::size_t k = 0; k < S; ++k) m.v[c][k] = lattice || r.coin(3) ? r.range(-1, 1) : r.real(-1.5, 1.5);
  if (r.coin(3)) for (std::size_t c = 0; c < S; ++c) for (std::size_t k = 0; k < S; ++k) m.v[c][k] = c == k ? r.sgn() : 0.0;   // mirrors change the smallest vertex
  return m;
}
template <std::size_t S> void hist(Rng& r) {
  H<S> h; h.isd = r.coin(); const bool lat = r.coin(), tie = r.coin(4);
  std::vector<vm::vec<double, S>> l; const int k = r.coin(4) ? r.range(8, 16) : r.range(1, 7);
  for (int i = 0; i < k; ++i) {
    vm::vec<double, S> v = lat ? ivec<double, S>(r, 3) : vec<double, S>(r, 20);
    // vertices that become equal in some components when they are rounded to float
    if (!lat && i && r.coin(3)) { const auto& o = l[r.below(i)]; for (std::size_t c = 0; c < S; ++c) if (r.coin()) v[c] = o[c] * (1 + r.real(-1, 1) * 1e-9); }
    if (!lat && tie && i) v[0] = l[0][0] * (1 + r.range(-3, 3) * 1e-9);   // the smallest vertex is another one in single precision
    l.push_back(v);
  }
  h.make(l, r.below(3));
  for (int n = r.range(1, 7); n > 0; --n) {
    switch (tie && r.coin() ? 2 : r.below(6)) {
      case 0: h.invert(); break;
      case 1: h.copy(r); break;
      case 2: h.convert(); break;
      case 3: h.translate(lat ? ivec<double, S>(r, 5) : vec<double, S>(r, 20), lat); break;
      default: { auto m = rmat<S>(r, lat); if (!lat && r.coin(4)) { const double big = 1 + h.big(); for (std::size_t c = 0; c < S; ++c) m.v[c][S] = r.real(-0.5, 0.5) / (big * S); } h.transform(m, lat); }
    }
    if (h.big() > (lat ? 1e4 : 1e3)) break;
  }
  Ev::flush_hist();
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  std::ifstream f(c.beh);
  for (int k; f >> k;) {   // the polygons of the model, each inverted and mirrored in all orders
    std::vector<int> a(k), b(k); for (auto& x : a) f >> x; for (auto& x : b) f >> x;
    if (!c.r.coin(4)) continue;
    H<3> h; h.isd = c.r.coin();
    const int ax = c.r.below(3);
    std::vector<vm::vec<double, 3>> l; for (int x : a) { vm::vec<double, 3> v; v[ax] = x; if (ax < 2) v[2] = (x * 7) % 5; l.push_back(v); }
    h.make(l, 0);
    for (int n = 0; n < 3; ++n) { if (c.r.coin()) h.invert(); else { auto m = vm::mat<double, 4, 4>::identity(); m.v[ax][ax] = -1; h.transform(m, true); } }
    Ev::flush_hist();
  }
  for (long i = 0; i < c.n; ++i) { hist<3>(c.r); hist<2>(c.r); if (i % 3 == 1) { hist<4>(c.r); } }
  return done();
}
