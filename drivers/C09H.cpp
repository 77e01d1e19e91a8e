#include "vt.h"
using namespace vt;
template <typename T, std::size_t S> struct H {
  using V = vm::vec<T, S>; using B = vm::bbox<T, S>;
  typename B::builder bld;
  void fin(Ev& e) { e.i("n", S).b("init", bld.initialized()).k("r", bld.bounds()); }
  void look() { Ev e("look", P<T>::name, true); fin(e); }
  void addp(const V& q) { Ev e("addp", P<T>::name, true); e.k("q", q); bld.add(q); fin(e); }
  void addb(const B& b) { Ev e("addb", P<T>::name, true); e.k("b", b); bld.add(b); fin(e); }
  void addr(const std::vector<V>& l) { Ev e("addr", P<T>::name, true); e.k("l", l); bld.add(l.begin(), l.end()); fin(e); }
  void addg(const std::vector<V>& l) { Ev e("addg", P<T>::name, true); e.k("l", l); bld.add(l.begin(), l.end(), [](const V& v) { return -v; }); fin(e); }
  void addbs(const std::vector<B>& l) { Ev e("addbs", P<T>::name, true); e.k("l", l); bld.add(l.begin(), l.end()); fin(e); }
};
template <typename T, std::size_t S> vm::bbox<T, S> rbox(Rng& r, double M) {
  auto p = vec<T, S>(r, M), q = vec<T, S>(r, M); vm::bbox<T, S> b;
  for (std::size_t i = 0; i < S; ++i) { b.min[i] = p[i] < q[i] ? p[i] : q[i]; b.max[i] = p[i] < q[i] ? q[i] : p[i]; }
  return b;
}
template <typename T, std::size_t S> void rnd(Rng& r) {
  H<T, S> h; h.look(); const double M = r.coin(4) ? std::pow(10.0, r.range(3, 6)) : 20;
  auto pts = [&](int n) { std::vector<vm::vec<T, S>> l; for (int i = 0; i < n; ++i) l.push_back(vec<T, S>(r, M)); return l; };
  auto near = [&](vm::vec<T, S> v) { if (h.bld.initialized()) { const auto b = h.bld.bounds(); const auto k = r.below(S);
      v = r.coin() ? b.min : b.max; v[k] = r.coin() ? b.min[k] : b.max[k]; if (r.coin()) v[k] += T(r.range(-1, 1)); } return v; };
  for (int n = r.range(1, 8); n > 0; --n) {
    switch (r.below(7)) {
      case 0: h.addp(vec<T, S>(r, M)); break;
      case 1: h.addp(near(vec<T, S>(r, M))); break;
      case 2: { auto b = rbox<T, S>(r, M); if (r.coin(4)) b.max = b.min; h.addb(b); break; }
      case 3: h.addr(pts(r.below(4))); break;
      case 4: h.addg(pts(r.below(4))); break;
      case 5: { std::vector<vm::bbox<T, S>> l; for (int i = r.below(3); i > 0; --i) l.push_back(rbox<T, S>(r, M)); h.addbs(l); break; }
      default: h.look();
    }
  }
  Ev::flush_hist();
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  std::ifstream f(c.beh);
  for (std::string l; std::getline(f, l);) {
    std::istringstream in(l);
    int n; in >> n;
    H<double, 2> h;
    for (int i = 0; i < n; ++i) { vm::bbox<double, 2> x; in >> x.min[0] >> x.min[1] >> x.max[0] >> x.max[1]; if (x.min == x.max) h.addp(x.min); else h.addb(x); }
    Ev::flush_hist();
  }
  for (long i = 0; i < c.n; ++i) { rnd<double, 3>(c.r); rnd<float, 3>(c.r); rnd<double, 2>(c.r); rnd<float, 1>(c.r); if (i % 3 == 1) { rnd<float, 2>(c.r); rnd<double, 4>(c.r); rnd<double, 1>(c.r); } }
  return done();
}
