#include "vt.h"
using namespace vt;
template <typename T, std::size_t S> void both(const vm::mat<T, S, S>& a, const vm::vec<T, S>& b) {
  { Ev e("invert", P<T>::name); e.k("a", a); const auto [ok, x] = vm::invert(a); e.b("ok", ok).k("x", x); }
  { Ev e("solve", P<T>::name); e.k("a", a).k("b", b); const auto [ok, x] = vm::lup_solve(a, b); e.b("ok", ok).k("x", x); }
}
template <typename T, std::size_t S> void rnd(Rng& r) {
  vm::mat<T, S, S> a; const int kind = r.below(10); const int lim = r.range(1, 9);
  const auto b = r.coin() ? ivec<T, S>(r, 9) : vec<T, S>(r);
  for (std::size_t c = 0; c < S; ++c) for (std::size_t k = 0; k < S; ++k)
    a.v[c][k] = kind < 4 ? T(r.range(-lim, lim)) : kind < 6 ? T(r.real(-1, 1)) : scalar<T>(r, 30);
  if (kind == 6) { // a scaled permutation plus a small part
    int pi[S]; for (std::size_t i = 0; i < S; ++i) pi[i] = int(i); std::shuffle(pi, pi + S, r.g);
    for (std::size_t c = 0; c < S; ++c) for (std::size_t k = 0; k < S; ++k) a.v[c][k] = pi[c] == int(k) ? T(r.sgn() * r.real(0.5, 4)) : T(r.coin() ? 0 : r.real(-0.01, 0.01)); }
  if (kind == 7) { const int i = r.below(S); int j = r.below(S); if (i == j) j = (j + 1) % S; for (std::size_t c = 0; c < S; ++c) a.v[c][i] = a.v[c][j]; }     // two equal rows
  if (kind == 8) { const int i = r.below(S); if (r.coin()) for (std::size_t c = 0; c < S; ++c) a.v[c][i] = T(0); else for (std::size_t k = 0; k < S; ++k) a.v[i][k] = T(0); }
  if (kind == 9) { const T s = T(r.range(1, 8)); for (std::size_t c = 0; c < S; ++c) for (std::size_t k = 0; k < S; ++k) a.v[c][k] = s * T(r.range(-1, 1)); }
  if (kind == 3) a.v[0][0] = T(r.coin() ? 0.0 : 1e-7);          // pivoting is needed at once
  if (kind == 5) for (std::size_t k = 0; k + 1 < S; ++k) a.v[k][k] = T(0);
  if (kind == 4) { const T s = T(std::pow(10.0, r.coin(3) ? r.range(-12, 8) : r.range(-2, 3))); a = a * s; }
  if (kind == 6 && r.coin(3)) for (std::size_t c = 0; c < S; ++c) { const T s = T(std::pow(10.0, r.range(-12, 8))); for (std::size_t k = 0; k < S; ++k) a.v[c][k] = std::fabs(a.v[c][k]) < 0.1 ? T(0) : a.v[c][k] * s; }
  both(a, b);
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  std::ifstream f(c.beh); long k = 0;
  for (std::string l; std::getline(f, l); ++k) {
    std::istringstream in(l); int n; in >> n;
    if (n == 3) { vm::mat<double, 3, 3> m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) in >> m.v[j][i]; both(m, vm::vec<double, 3>(1, 2, 3)); if (k % 4 == 0) both(vm::mat<float, 3, 3>(m), vm::vec<float, 3>(1, 2, 3)); }
    if (n == 2) { vm::mat<double, 2, 2> m; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) in >> m.v[j][i]; both(m, vm::vec<double, 2>(1, 2)); both(vm::mat<float, 2, 2>(m), vm::vec<float, 2>(1, 2)); }
  }
  for (long i = 0; i < c.n; ++i) { rnd<double, 4>(c.r); rnd<double, 3>(c.r); rnd<float, 4>(c.r); rnd<double, 2>(c.r); if (i % 3 == 1) { rnd<float, 2>(c.r); rnd<float, 5>(c.r); rnd<double, 6>(c.r); rnd<float, 1>(c.r); } if (i % 4 == 0) { rnd<double, 5>(c.r); rnd<double, 1>(c.r); rnd<float, 3>(c.r); } }
  return done();
}
