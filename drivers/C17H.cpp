#include "vt.h"
#include <vecmath/quat.h>
using namespace vt;
namespace vt { template <typename T> struct J<vm::quat<T>> { static std::string f(const vm::quat<T>& q) { return "{\"r\":" + js(q.r) + ",\"v\":" + js(q.v) + "}"; } }; }
template <typename T> void hist(Rng& r) {
  using V = vm::vec<T, 3>; using Q = vm::quat<T>; const char* p = P<T>::name; Q q(T(1), V::zero());
  auto fin = [&](Ev& e) { e.k("q", q).k("img", std::vector<V>{q * V::pos_x(), q * V::pos_y(), q * V::pos_z()}); };
  for (int n = r.range(1, 6); n > 0; --n) switch (r.below(8)) {
    case 0: { Ev e("inverse", p, true); q = q.conjugate(); fin(e); break; }
    case 1: { Ev e("identity", p, true); q = q * q.conjugate(); fin(e); break; }
    default: { const V k = dir<T, 3>(r); const T a = T(r.real(-7, 7)); Ev e("spin", p, true); e.k("k", k).k("a", a); q = Q(k, a) * q; fin(e); }
  }
  Ev::flush_hist();
}
int main(int argc, char** argv) { auto c = init(argc, argv); for (long i = 0; i < c.n; ++i) { hist<double>(c.r); hist<float>(c.r); } return done(); }
