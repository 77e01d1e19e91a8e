#include "vt.h"
#include <vecmath/quat.h>
using namespace vt;
namespace vt { template <typename T> struct J<vm::quat<T>> { static std::string f(const vm::quat<T>& q) { return "{\"r\":" + js(q.r) + ",\"v\":" + js(q.v) + "}"; } }; }
static const double PI = 3.14159265358979323846;
template <typename T> T angle(Rng& r) { switch (r.below(5)) { case 0: return T(PI / 4 * r.range(-10, 10)); case 1: return T(r.sgn() * std::pow(10.0, r.real(-6, -1))); case 2: return T(r.real(-20, 20)); default: return T(r.real(-PI, PI)); } }
template <typename T> void product(const vm::quat<T>& a, const vm::quat<T>& b, const vm::vec<T, 3>& x, bool unit) {
  Ev e("product", P<T>::name); e.k("a", a).k("b", b).k("x", x).b("unit", unit); e.k("r", a * b).k("y", (a * b) * x).k("y2", a * (b * x)); }
template <typename T> void act(const vm::quat<T>& q, const vm::vec<T, 3>& x) { Ev e("act", P<T>::name); e.k("q", q).k("x", x); e.k("y", q * x); }
template <typename T> void rnd(Rng& r) {
  using V = vm::vec<T, 3>; using Q = vm::quat<T>; const char* p = P<T>::name;
  const V k = dir<T, 3>(r); const T a = angle<T>(r); const V x = vec<T, 3>(r, 5);
  const Q q(k, a);
  { Ev e("axisangle", p); e.k("k", k).k("a", a).k("x", x); e.k("q", q).k("y", q * x).k("m", vm::rotation_matrix(q)); }
  { Ev e("report", p); e.k("q", q); e.k("angle", q.angle()).k("axis", q.axis()); }
  { const V f = dir<T, 3>(r); V t = dir<T, 3>(r); if (r.coin()) { t = f * T(r.sgn()) + dir<T, 3>(r) * T(std::pow(10.0, r.real(-12, -0.3))); t = vm::normalize(t); } if (r.coin(8)) t = f * T(r.sgn());
    Ev e("fromto", p); e.k("f", f).k("t", t); const Q g(f, t); e.k("q", g).k("y", g * f); }
  product(q, Q(dir<T, 3>(r), angle<T>(r)), x, true); product(Q(scalar<T>(r, 9), vec<T, 3>(r, 9)), Q(scalar<T>(r, 9), vec<T, 3>(r, 9)), V::zero(), false);
  { Ev e("conjugate", p); e.k("q", q).k("x", x); e.k("r", q.conjugate()).k("back", q.conjugate() * (q * x)); }
  act(Q(scalar<T>(r, 9), vec<T, 3>(r, 9)), x);
  { const T s = scalar<T>(r); const V v = vec<T, 3>(r); Ev e("make", p); e.k("s", s).k("v", v); const Q m(s, v); e.k("q", m).k("zero", Q()).k("conv", vm::quat<double>(vm::quat<float>(m))).k("pos", +m).k("neg", -m); const T f = T(r.range(-64, 64)) / T(8); e.k("f", f).k("mul", m * f).k("lmul", f * m); }
  { const Q g(scalar<T>(r, 5), vec<T, 3>(r, 5)); Q h = g; const T eps = someeps<T>(r); if (r.coin(4)) h.r = -h.r; for (int j = r.below(3); j > 0; --j) { const T y = abouteps<T>(r, eps); if (r.coin()) h.r += y; else h.v[r.below(3)] += y; } if (r.coin(6)) h.v = -h.v;
    Ev e("equal", p); e.k("a", g).k("b", h).k("eps", eps); e.b("eq", g == h).b("ne", g != h).b("iseq", vm::is_equal(g, h, eps)); }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv); using V = vm::vec<double, 3>; using Q = vm::quat<double>;
  const Q gen[] = {Q(0, V(1, 0, 0)), Q(0, V(0, 1, 0)), Q(0.5, V(0.5, 0.5, 0.5)), Q(0.6, V(0, 0, 0.8)), Q(0.8, V(-0.6, 0, 0))};
  std::ifstream f(c.beh);
  for (std::string l; std::getline(f, l);) { std::istringstream in(l); int n, id; in >> n; Q q(1, V::zero()); while (n-- > 0 && in >> id) { product(gen[id - 1], q, V(1, 2, -3), true); q = gen[id - 1] * q; } act(q, V(1, 0, 0)); }
  for (long i = 0; i < c.n; ++i) { rnd<double>(c.r); rnd<float>(c.r); }
  return done();
}
