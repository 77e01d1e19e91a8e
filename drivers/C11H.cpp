#include "vt.h"
#include <vecmath/segment.h>
using namespace vt;
template <std::size_t S> void hist(Rng& r) {
  vm::segment<double, S> d; vm::segment<float, S> f; bool isd = r.coin();
  auto fin = [&](Ev& e) { if (isd) e.k("s", d.start()).k("t", d.end()); else e.k("s", f.start()).k("t", f.end()); };
  auto P_ = [&] { return isd ? "d" : "f"; };
  { Ev e("new", P_(), true);
    auto a = vec<double, S>(r), b = vec<double, S>(r);
    for (std::size_t i = 0; i < S; ++i) if (r.coin(3)) b[i] = a[i]; else if (a[i] != 0.0 && r.coin(3)) b[i] = std::nextafter(a[i], r.sgn() * 1e9); else if (r.coin(6)) b[i] = a[i] * (1 + r.real(-1, 1) * 1e-9);
    if (isd) { e.k("a", a).k("b", b); d = vm::segment<double, S>(a, b); } else { vm::vec<float, S> x(a), y(b); e.k("a", x).k("b", y); f = vm::segment<float, S>(x, y); }
    fin(e); }
  for (int n = r.range(1, 6); n > 0; --n) {
    switch (r.below(4)) {
      case 0: { isd = !isd; Ev e(isd ? "todouble" : "tofloat", P_(), true); if (isd) d = vm::segment<double, S>(f); else f = vm::segment<float, S>(d); fin(e); break; }
      case 1: { Ev e("copy", P_(), true); if (isd) { auto x = d; d = vm::segment<double, S>(x); } else { auto x = f; f = x; } fin(e); break; }
      case 2: { Ev e("translate", P_(), true); const bool free = r.coin();
        if (isd) { auto v = vec<double, S>(r); e.k("d", v); d = free ? vm::translate(d, v) : d.translate(v); } else { auto v = vec<float, S>(r); e.k("d", v); f = free ? vm::translate(f, v) : f.translate(v); } fin(e); break; }
      default: {
        Ev e("transform", P_(), true);
        auto m = vm::mat<double, S + 1, S + 1>::identity();
        for (std::size_t c = 0; c <= S; ++c) for (std::size_t k = 0; k < S; ++k) m.v[c][k] = r.coin(3) ? r.range(-1, 1) : r.real(-1.5, 1.5);
        if (r.coin(3)) for (std::size_t c = 0; c < S; ++c) for (std::size_t k = 0; k < S; ++k) m.v[c][k] = c == k ? r.sgn() : 0.0;   // mirrors swap the order
        if (r.coin(5)) { const double big = 1 + (isd ? vm::length(d.start()) + vm::length(d.end()) : vm::length(f.start()) + vm::length(f.end())); for (std::size_t c = 0; c < S; ++c) m.v[c][S] = r.real(-0.5, 0.5) / (big * S); }   // perspective
        if (isd) { e.k("m", m); d = d.transform(m); } else { vm::mat<float, S + 1, S + 1> g(m); e.k("m", g); f = f.transform(g); } fin(e); }
    }
    // keep the magnitudes where the tolerances are meaningful
    if (isd ? vm::length(d.start()) + vm::length(d.end()) > 1e5 : vm::length(f.start()) + vm::length(f.end()) > 1e4f) break;
  }
  Ev::flush_hist();
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  for (long i = 0; i < c.n; ++i) { hist<3>(c.r); hist<2>(c.r); if (i % 3 == 1) { hist<4>(c.r); } }
  return done();
}
