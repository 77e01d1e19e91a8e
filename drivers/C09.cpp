#include "vt.h"
using namespace vt;
template <typename T, std::size_t S> vm::bbox<T, S> box(const vm::vec<T, S>& p, const vm::vec<T, S>& q) {
  vm::bbox<T, S> b;
  for (std::size_t i = 0; i < S; ++i) { b.min[i] = p[i] < q[i] ? p[i] : q[i]; b.max[i] = p[i] < q[i] ? q[i] : p[i]; }
  return b;
}
template <typename T, std::size_t S> void pair(const vm::bbox<T, S>& a, const vm::bbox<T, S>& b) {
  Ev e("pair", P<T>::name); e.k("a", a).k("b", b);
  e.b("contains", a.contains(b)).b("encloses", a.encloses(b)).b("intersects", a.intersects(b));
  e.k("merge", vm::merge(a, b)).k("cut", vm::intersect(a, b)).b("eq", a == b).b("ne", a != b);
}
template <typename T, std::size_t S> void point(const vm::bbox<T, S>& a, const vm::vec<T, S>& q) {
  using B = vm::bbox<T, S>;
  { Ev e("point", P<T>::name); e.k("a", a).k("q", q);
    e.b("contains", a.contains(q)).k("merge", vm::merge(a, q)).k("clamp", a.constrain(q));
    const auto rp = a.relative_position(q);
    std::string s = "[";
    for (std::size_t i = 0; i < S; ++i) { if (i) s += ','; s += rp[i] == B::Range::less ? "-1" : rp[i] == B::Range::within ? "0" : "1"; }
    e.raw("pos", s + "]"); }
  { Ev e("box", P<T>::name); e.k("a", a); e.b("valid", a.is_valid()).b("empty", a.is_empty()); }
}
template <typename T, std::size_t S> void corners(const vm::vec<T, S>& lo, const vm::vec<T, S>& hi) {
  using B = vm::bbox<T, S>;
  Ev e("corners", P<T>::name); e.k("lo", lo).k("hi", hi);
  B raw; raw.min = lo; raw.max = hi;
  bool ok = true; for (std::size_t i = 0; i < S; ++i) ok = ok && lo[i] <= hi[i];
  e.b("valid", B::is_valid(lo, hi)).b("mvalid", raw.is_valid()).k("repair", vm::repair(raw)).k("made", ok ? B(lo, hi) : B());
}
template <typename T, std::size_t S> vm::vec<T, S> vary(Rng& r, const vm::vec<T, S>& v) {   // shares some components
  auto w = vec<T, S>(r, 20);
  for (std::size_t i = 0; i < S; ++i) if (r.coin()) w[i] = v[i];
  return w;
}
template <typename T> T step(Rng& r, T x) { return std::nextafter(x, r.coin() ? T(1e30) : T(-1e30)); }
template <typename T, std::size_t S> void rnd(Rng& r) {
  using B = vm::bbox<T, S>;
  auto p = vec<T, S>(r, 20), q = vary(r, p), s = vary(r, q), t = vary(r, p), x = r.coin() ? vary(r, q) : vec<T, S>(r, 20);
  if (r.coin(4)) { const auto k = r.below(S); s[k] = step(r, p[k]); x[k] = step(r, r.coin() ? p[k] : q[k]); }
  pair(box(p, q), box(s, t)); pair(box(s, t), box(p, q)); pair(box(p, q), box(p, q));
  if (r.coin()) { auto a = box(p, q); auto b = box(s, t); b.min = vm::max(a.min, vm::min(b.min, a.max)); b.max = vm::max(b.min, vm::min(b.max, a.max)); pair(a, b); pair(b, a); }
  if (r.coin()) { auto a = box(p, q); auto b = a; const auto k = r.below(S); b.max[k] = step(r, b.max[k]); if (b.is_valid()) { pair(a, b); pair(b, a); } }
  point(box(p, q), x); point(box(s, t), p); point(box(p, q), r.coin() ? p : q);
  corners(p, q); corners(q, p); corners(p, p); corners(box(p, q).min, box(p, q).max);
  { T lo = scalar<T>(r), hi = scalar<T>(r); if (hi < lo) std::swap(lo, hi); if (r.coin(4)) hi = lo;
    Ev e("ctor", P<T>::name); e.i("n", S).k("lo", lo).k("hi", hi);
    e.k("dflt", B()).k("fill", B(lo, hi)).k("sym", B(lo < T(0) ? -lo : lo)); }
  { auto a = box(ivec<T, S>(r, 1000), ivec<T, S>(r, 1000));
    { Ev e("conv", "f"); e.k("a", a); e.k("r", vm::bbox<float, S>(a)); }
    { Ev e("conv", "d"); e.k("a", a); e.k("r", vm::bbox<double, S>(a)); }
    { Ev e("conv", "i"); e.k("a", a); e.k("r", vm::bbox<int, S>(a)); } }
  { auto a = box(p, q); auto b = a; const T eps = someeps<T>(r);
    for (int j = r.below(3); j > 0; --j) { auto& w = r.coin() ? b.min : b.max; w[r.below(S)] += abouteps<T>(r, eps); }
    for (std::size_t j = 0; j < S; ++j) if (b.min[j] > b.max[j]) std::swap(b.min[j], b.max[j]);   // stays a valid box
    Ev e("eqeps", P<T>::name); e.k("a", a).k("b", b).k("eps", eps); e.b("r", vm::is_equal(a, b, eps)); }
  { std::vector<vm::vec<T, S>> l; for (int j = r.range(1, 7); j > 0; --j) l.push_back(l.empty() ? vec<T, S>(r, 20) : vary(r, l[0]));
    Ev e("mergeall", P<T>::name); e.k("l", l);
    e.k("r", B::merge_all(l.begin(), l.end())).k("got", B::merge_all(l.begin(), l.end(), [](const vm::vec<T, S>& v) { return -v; })); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  std::ifstream f(c.beh);
  for (std::string l; std::getline(f, l);) {
    std::istringstream in(l);
    int n; in >> n;
    std::vector<vm::bbox<double, 2>> b(n);
    for (auto& x : b) in >> x.min[0] >> x.min[1] >> x.max[0] >> x.max[1];
    pair(b[0], b[1]); point(b[0], b[1].min); corners(b[0].max, b[1].min);
  }
  for (long i = 0; i < c.n; ++i) { rnd<double, 3>(c.r); rnd<float, 3>(c.r); rnd<double, 2>(c.r); rnd<float, 1>(c.r); rnd<double, 4>(c.r); if (i % 3 == 1) { rnd<float, 2>(c.r); rnd<float, 4>(c.r); rnd<double, 1>(c.r); rnd<double, 5>(c.r); } }
  return done();
}
