#include "vt.h"
#include <algorithm>
#include <vecmath/segment.h>
using namespace vt;

template <typename T> T comp(Rng& r) {
  if constexpr (std::is_floating_point<T>::value) {
    switch (r.below(12)) {
      case 0: return std::numeric_limits<T>::quiet_NaN();
      case 1: return std::numeric_limits<T>::infinity() * T(r.sgn());
      case 2: return T(-0.0);
      case 3: return std::numeric_limits<T>::denorm_min() * T(r.range(-2, 2));
      case 4: return std::numeric_limits<T>::max() * T(r.sgn());
      default: break;
    }
  }
  return scalar<T>(r, 5);
}
/** a vector that shares a random prefix with another one and differs by about d in one component */
template <typename T, std::size_t S> vm::vec<T, S> near(Rng& r, const vm::vec<T, S>& a, T d) {
  auto b = a;
  const int k = r.below(int(S));
  switch (r.below(8)) {
    case 0: return b;
    case 1: b[k] = a[k] + T(d * T(2)); break;
    case 2: b[k] = a[k] - T(d * T(2)); break;
    case 3: b[k] = a[k] + T(d * T(1.001)); break;
    case 4: b[k] = a[k] - T(d * T(1.001)); break;
    case 5: b[k] = a[k] + T(d * T(0.999)); break;
    case 6: b[k] = a[k] - T(d * T(0.999)); break;
    default: b[k] = comp<T>(r); break;
  }
  if (r.coin(3)) { const int j = r.below(int(S)); b[j] = comp<T>(r); }
  else if (r.coin(2)) { const int j = r.below(int(S)); b[j] = a[j] + T(d * T(0.5)) * T(r.sgn()); }
  return b;
}
template <typename T, std::size_t S> void pair(const vm::vec<T, S>& a, const vm::vec<T, S>& b, T eps) {
  const char* p = P<T>::name;
  { Ev e("cmp", p); e.k("a", a).k("b", b).k("eps", eps); e.i("r", vm::compare(a, b, eps)); }
  { Ev e("iseq", p); e.k("a", a).k("b", b).k("eps", eps); e.b("r", vm::is_equal(a, b, eps)); }
  { Ev e("ops", p); e.k("a", a).k("b", b);
    e.i("dflt", vm::compare(a, b)).b("eq", a == b).b("ne", a != b).b("lt", a < b).b("le", a <= b).b("gt", a > b).b("ge", a >= b); }
}
template <typename T> T epsilon(Rng& r) {
  switch (r.below(4)) {
    case 0: return T(0);
    case 1: return std::is_integral<T>::value ? T(1) : T(0.5);
    case 2: return std::is_integral<T>::value ? T(2) : T(0.001);
    default: return std::is_integral<T>::value ? T(0) : T(r.real(0, 2));
  }
}
template <typename T, std::size_t S> void sample(Rng& r) {
  vm::vec<T, S> a;
  for (std::size_t i = 0; i < S; ++i) a[i] = comp<T>(r);
  const T eps = epsilon<T>(r);
  const auto b = near<T, S>(r, a, eps);
  pair<T, S>(a, b, eps);
  if (!r.coin(4)) return;
  const char* p = P<T>::name;
  // ranges
  std::vector<vm::vec<T, S>> x, y;
  const int n = r.below(4);
  for (int i = 0; i < n; ++i) { x.push_back(near<T, S>(r, a, T(1))); y.push_back(r.coin(3) ? near<T, S>(r, x.back(), eps) : x.back()); }
  if (r.coin(3)) y.push_back(a);
  if (r.coin(3)) x.push_back(b);
  { Ev e("range", p); e.k("a", x).k("b", y).k("eps", eps);
    e.i("r", vm::compare<T>(x.begin(), x.end(), y.begin(), y.end(), eps)); }
  // segments (read back through start/end)
  const auto s = vm::segment<T, S>(a, near<T, S>(r, a, T(1)));
  auto t = vm::segment<T, S>(near<T, S>(r, s.start(), eps), near<T, S>(r, s.end(), eps));
  if (r.coin(3)) t = vm::segment<T, S>(s.start(), near<T, S>(r, s.end(), eps));
  const std::vector<vm::vec<T, S>> sa{s.start(), s.end()}, ta{t.start(), t.end()};
  { Ev e("segcmp", p); e.k("a", sa).k("b", ta).k("eps", eps); e.i("r", vm::compare(s, t, eps)); }
  { Ev e("segeq", p); e.k("a", sa).k("b", ta).k("eps", eps); e.b("r", vm::is_equal(s, t, eps)); }
  { Ev e("segops", p); e.k("a", sa).k("b", ta);
    e.b("eq", s == t).b("ne", s != t).b("lt", s < t).b("le", s <= t).b("gt", s > t).b("ge", s >= t); }
  // matrices
  vm::mat<T, S, 3> m, q;
  for (int c = 0; c < 3; ++c) { m[c] = near<T, S>(r, a, T(1)); q[c] = r.coin(3) ? near<T, S>(r, m[c], eps) : m[c]; }
  { Ev e("matcmp", p); e.k("a", m).k("b", q).k("eps", eps); e.i("r", vm::compare(m, q, eps)); }
  { Ev e("mateq", p); e.k("a", m).k("b", q).k("eps", eps); e.b("r", vm::is_equal(m, q, eps)); }
  { Ev e("matops", p); e.k("a", m).k("b", q); e.b("eq", m == q).b("ne", m != q); }
  // a sort with the order
  if (r.coin(3)) {
    std::vector<vm::vec<T, S>> l;
    for (int i = r.below(7); i >= 0; --i) l.push_back(near<T, S>(r, a, T(1)));
    Ev e("sort", p); e.k("a", l);
    std::sort(l.begin(), l.end());
    e.k("r", l);
  }
}
template <typename T, std::size_t S> void replay(std::istream& in) {
  vm::vec<T, S> v[2];
  for (auto& x : v) for (std::size_t i = 0; i < S; ++i) {
    std::string s; in >> s;
    x[i] = s == "nan" ? std::numeric_limits<T>::quiet_NaN() : s == "inf" ? std::numeric_limits<T>::infinity() : T(std::stoi(s));
  }
  for (T eps : {T(0), T(0.5), T(1)}) pair<T, S>(v[0], v[1], eps);
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  std::ifstream f(c.beh);
  for (std::string l; std::getline(f, l);) {
    for (int k = 0; k < 2; ++k) {
      std::istringstream in(l);
      int d; in >> d;
      if (d == 1) { if (k) replay<float, 1>(in); else replay<double, 1>(in); }
      if (d == 2) { if (k) replay<float, 2>(in); else replay<double, 2>(in); }
      if (d == 3) { if (k) replay<float, 3>(in); else replay<double, 3>(in); }
    }
  }
  for (long i = 0; i < c.n; ++i) {
    sample<double, 3>(c.r); sample<float, 3>(c.r); sample<double, 1>(c.r); sample<float, 2>(c.r);
    sample<double, 4>(c.r); sample<int, 3>(c.r); sample<int, 2>(c.r); if (i % 3 == 1) { sample<float, 1>(c.r); sample<double, 2>(c.r); sample<float, 4>(c.r); sample<int, 4>(c.r); sample<double, 6>(c.r); sample<long, 3>(c.r); }
  }
  return done();
}
