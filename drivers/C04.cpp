#include "vt.h"
using namespace vt;
template <typename T, std::size_t S> void all(const vm::vec<T, S>& a) {
  const char* p = P<T>::name;
  auto ints = [](const std::vector<long>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); } return s + "]"; };
  { Ev e("find", p); e.k("a", a); std::vector<long> l; for (std::size_t k = 0; k < S; ++k) l.push_back(long(vm::find_max_component(a, k))); e.raw("r", ints(l)); }
  { Ev e("findabs", p); e.k("a", a); std::vector<long> l; for (std::size_t k = 0; k < S; ++k) l.push_back(long(vm::find_abs_max_component(a, k))); e.raw("r", ints(l)); }
  { Ev e("get", p); e.k("a", a); std::vector<T> l; for (std::size_t k = 0; k < S; ++k) l.push_back(vm::get_max_component(a, k)); e.k("r", l); }
  { Ev e("getabs", p); e.k("a", a); std::vector<T> l; for (std::size_t k = 0; k < S; ++k) l.push_back(vm::get_abs_max_component(a, k)); e.k("r", l); }
  { Ev e("axis", p); e.k("a", a); std::vector<vm::vec<T, S>> l; for (std::size_t k = 0; k < S; ++k) l.push_back(vm::get_abs_max_component_axis(a, k)); e.k("r", l); }
  { Ev e("dflt", p); e.k("a", a);
    e.i("fm", vm::find_max_component(a)).i("fa", vm::find_abs_max_component(a)).k("gm", vm::get_max_component(a)).k("ga", vm::get_abs_max_component(a)).k("ax", vm::get_abs_max_component_axis(a)); }
}
template <typename T, std::size_t S> void rnd(Rng& r) {
  auto a = vec<T, S>(r);
  if (r.coin(4)) a[r.below(S)] = T(0) - a[r.below(S)];                 // equal magnitudes
  if constexpr (std::is_floating_point<T>::value) {
    if (r.coin(4)) a[r.below(S)] = std::nextafter(a[0], T(1e9));        // almost equal
    if (r.coin(6)) for (std::size_t i = 0; i < S; ++i) a[i] = T(r.real(-1, 1) * std::pow(10.0, r.range(-30, 30)));
    if (r.coin(6)) for (std::size_t i = 0; i < S; ++i) a[i] = std::ldexp(T(r.range(-3, 3)), std::is_same<T, float>::value ? r.range(-149, -120) : r.range(-1074, -1000));   // denormal
  }
  all(a);
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  std::ifstream f(c.beh);
  for (std::string l; std::getline(f, l);) {
    std::istringstream in(l);
    int n; in >> n;
    std::vector<int> v(n); for (auto& x : v) in >> x;
    if (n == 4) { all(vm::vec<double, 4>(v[0], v[1], v[2], v[3])); }
    if (n == 5) { vm::vec<double, 5> w; for (int i = 0; i < 5; ++i) w[i] = v[i]; all(w); }
    if (n == 4 && v[3] == 0) { all(vm::vec<float, 3>(v[0], v[1], v[2])); all(vm::vec<int, 3>(v[0], v[1], v[2])); }
    if (n == 4 && v[3] == 0 && v[2] == 0) { all(vm::vec<double, 2>(v[0], v[1])); all(vm::vec<double, 3>(v[0], v[1], v[2])); }
  }
  for (long i = 0; i < c.n; ++i) { rnd<double, 3>(c.r); rnd<float, 3>(c.r); rnd<double, 2>(c.r); rnd<double, 4>(c.r); rnd<float, 1>(c.r); rnd<int, 4>(c.r); rnd<double, 7>(c.r); }
  return done();
}
