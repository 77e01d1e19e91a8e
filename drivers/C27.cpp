#include "vt.h"
#include <vecmath/line.h>
#include <vecmath/vec_io.h>
#include <vecmath/mat_io.h>
#include <vecmath/line_io.h>
#include <vecmath/approx.h>
using namespace vt;
template <typename X, typename A> void eqs(Ev& e, const X& x, const A& a) { e.b("eq", x == a).b("eq2", a == x).b("ne", x != a).b("ne2", a != x); }
template <typename X, typename A> void ords(Ev& e, const X& x, const A& a) {
  e.b("lt", x < a).b("le", x <= a).b("gt", x > a).b("ge", x >= a).b("lt2", a < x).b("le2", a <= x).b("gt2", a > x).b("ge2", a >= x);
}
template <typename A, typename V> void text(const A& a, const V& v) {
  std::ostringstream s, t; Ev e("text"); s << a; t << v; e.str("s", s.str()).str("t", t.str());
}
template <typename T> void num(T x, T v, T eps) {
  { Ev e("num", P<T>::name); e.k("x", x).k("v", v).k("eps", eps); const vm::approx<T> a(v, eps); eqs(e, x, a); ords(e, x, a); }
}
template <typename T> void deflt(T x, T v) {
  Ev e("default", P<T>::name); e.k("x", x).k("v", v).k("eps", vm::constants<T>::almost_zero()); const vm::approx<T> a(v); eqs(e, x, a); ords(e, x, a);
}
template <typename T, std::size_t S> void vecs(const vm::vec<T, S>& x, const vm::vec<T, S>& v, T eps, bool d) {
  Ev e("vec", P<T>::name); e.k("x", x).k("v", v).k("eps", eps);
  const vm::approx<vm::vec<T, S>> a = d ? vm::approx<vm::vec<T, S>>(v) : vm::approx<vm::vec<T, S>>(v, eps); eqs(e, x, a); ords(e, x, a);
}
template <typename T> T near(Rng& r, T v, T eps) {
  switch (r.below(9)) {
    case 0: return v; case 1: return v + eps; case 2: return v - eps; case 3: return v + eps * T(0.99); case 4: return v - eps * T(1.01);
    case 5: return v + eps * T(1.01); case 6: return v - eps * T(0.99); case 7: return std::nextafter(v + eps, T(1e30)); default: return scalar<T>(r);
  }
}
template <typename T> T epsv(Rng& r) { switch (r.below(6)) { case 0: return T(0); case 1: return T(r.range(0, 8)) / 8; case 2: return vm::constants<T>::almost_zero(); case 3: return T(r.real(0, 2)); case 4: return std::ldexp(T(1), -r.range(0, 20)); default: return T(r.real(0, 0.01)); } }
template <typename T, std::size_t R, std::size_t C> void mats(Rng& r) {
  vm::mat<T, R, C> m, k; const bool d = r.coin(4); const T eps = d ? vm::constants<T>::almost_zero() : epsv<T>(r);
  for (std::size_t c = 0; c < C; ++c) m.v[c] = vec<T, R>(r);
  k = m;
  if (r.coin()) { for (std::size_t c = 0; c < C; ++c) for (std::size_t i = 0; i < R; ++i) k.v[c][i] = near<T>(r, m.v[c][i], eps * T(0.5)); }
  for (int n = r.below(3); n > 0; --n) { const int c = r.below(C), i = r.below(R); k.v[c][i] = near<T>(r, m.v[c][i], eps); }
  { Ev e("mat", P<T>::name); e.k("x", k).k("v", m).k("eps", eps);
    const vm::approx<vm::mat<T, R, C>> a = d ? vm::approx<vm::mat<T, R, C>>(m) : vm::approx<vm::mat<T, R, C>>(m, eps); eqs(e, k, a); }
  if (r.coin(20)) text(vm::approx<vm::mat<T, R, C>>(m), m);
}
template <typename T, std::size_t S> void rv(Rng& r) {
  const bool d = r.coin(4); const T eps = d ? vm::constants<T>::almost_zero() : epsv<T>(r);
  auto v = vec<T, S>(r); auto x = v;
  for (std::size_t i = 0; i < S; ++i) if (r.coin()) x[i] = near<T>(r, v[i], eps);
  vecs<T, S>(x, v, eps, d);
  if (r.coin(20)) text(vm::approx<vm::vec<T, S>>(v), v);
  vm::line<T, S> l(v, dir<T, S>(r)), k = l;
  for (std::size_t i = 0; i < S; ++i) { if (r.coin(3)) k.point[i] = near<T>(r, l.point[i], eps); if (r.coin(4)) k.direction[i] = near<T>(r, l.direction[i], eps); }
  {
    Ev e("line", P<T>::name);
    std::vector<T> a, b; for (std::size_t i = 0; i < S; ++i) { a.push_back(k.point[i]); b.push_back(l.point[i]); } for (std::size_t i = 0; i < S; ++i) { a.push_back(k.direction[i]); b.push_back(l.direction[i]); }
    e.k("x", a).k("v", b).k("eps", eps);
    const auto q = d ? vm::approx<vm::line<T, S>>(l) : vm::approx<vm::line<T, S>>(l, eps);
    const bool eq = k == q, eq2 = q == k; e.b("eq", eq).b("eq2", eq2).b("ne", !eq).b("ne2", !eq2);
  }
  if (r.coin(20)) text(vm::approx<vm::line<T, S>>(l), l);
}
template <typename T> void lists(Rng& r) {
  const T eps = epsv<T>(r);
  std::vector<T> x, v; const int n = r.coin(3) ? r.range(5, 40) : r.below(5); const int mode = r.below(3);
  for (int i = 0; i < n; ++i) { v.push_back(scalar<T>(r)); x.push_back(r.coin(3) && !mode ? near<T>(r, v[i], eps) : r.coin() ? v[i] : v[i] + eps / 2); }
  if (mode == 1 && n) { const int i = r.coin() ? r.below(n) : r.coin() ? n - 1 : 0; x[i] = near<T>(r, v[i], eps); }   // only one element may differ
  if (mode == 2 && n) { const int i = r.coin() ? n - 1 : r.below(n); x[i] = v[i] + T(r.sgn()) * (eps + T(r.real(0.1, 2))); }
  if (r.coin(5)) x.push_back(T(0)); else if (r.coin(6) && !x.empty()) x.pop_back();
  std::vector<vm::approx<T>> a; for (T w : v) a.emplace_back(w, eps);
  Ev e("list", P<T>::name); e.k("x", x).k("v", v).k("eps", eps); eqs(e, x, a);
}
template <typename T> void rnd(Rng& r) {
  const T eps = epsv<T>(r), v = scalar<T>(r);
  num<T>(near<T>(r, v, eps), v, eps);
  deflt<T>(near<T>(r, v, vm::constants<T>::almost_zero()), v);
  if (r.coin(10)) num<T>(r.coin() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(), v, eps);
  if (r.coin(20)) text(vm::approx<T>(v), v);
  lists<T>(r);
  rv<T, 1>(r); rv<T, 2>(r); if (r.coin(3)) { rv<T, 5>(r); mats<T, 1, 4>(r); mats<T, 4, 1>(r); mats<T, 3, 3>(r); } rv<T, 3>(r); rv<T, 4>(r);
  mats<T, 2, 2>(r); mats<T, 4, 4>(r); mats<T, 3, 2>(r);
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  std::ifstream f(c.beh);
  auto rat = [](const std::string& s) { const auto k = s.find('/'); return k == s.npos ? std::stod(s) : std::stod(s.substr(0, k)) / std::stod(s.substr(k + 1)); };
  for (std::string a, b, d; f >> a >> b >> d;) {
    const double x = rat(a), v = rat(b), e = rat(d);
    num<double>(x, v, e); num<float>(float(x), float(v), float(e));
    vecs<double, 2>(vm::vec<double, 2>(x, v), vm::vec<double, 2>(v, x), e, false);
    vecs<float, 3>(vm::vec<float, 3>(0, x, 1), vm::vec<float, 3>(0, v, 1), float(e), false);
  }
  for (long i = 0; i < c.n; ++i) { rnd<double>(c.r); rnd<float>(c.r); }
  return done();
}
