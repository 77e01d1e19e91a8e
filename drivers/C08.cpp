#include "vt.h"
#include <complex>
#include <vecmath/scalar.h>
using namespace vt;
using cd = std::complex<double>;
struct Poly { std::vector<std::vector<double>> z; std::vector<cd> roots; };
static void add(Poly& p, double x) { p.z.push_back({x}); p.roots.push_back(x); }
static void add(Poly& p, double x, double y) { p.z.push_back({x, y}); p.roots.push_back(cd(x, y)); p.roots.push_back(cd(x, -y)); }
static std::vector<double> coeffs(const Poly& p, double lead) {
  std::vector<double> c{lead};
  for (auto& f : p.z) {
    if (f.size() == 1) { c.push_back(0); for (size_t k = c.size() - 1; k > 0; --k) c[k] -= f[0] * c[k - 1]; }
    else {
      const double b = -2 * f[0], q = f[0] * f[0] + f[1] * f[1];
      std::vector<double> n(c.size() + 2, 0.0);
      for (size_t k = 0; k < c.size(); ++k) { n[k] += c[k]; n[k + 1] += b * c[k]; n[k + 2] += q * c[k]; }
      c = n;
    }
  }
  return c;
}
static double sep(const Poly& p) {
  double m = 1e9;
  for (size_t i = 0; i < p.roots.size(); ++i) for (size_t j = 0; j < i; ++j) m = std::min(m, std::abs(p.roots[i] - p.roots[j]));
  return m;
}
template <typename T> void log(const char* op, const Poly& p, double lead, T eps, double delta) {
  const auto cf = coeffs(p, lead);
  std::vector<T> c(cf.begin(), cf.end());
  Ev e(op, P<T>::name);
  e.k("c", c).k("z", p.z).k("eps", eps).k("delta", delta);
  if (c.size() == 3) { auto [n, a, b] = vm::solve_quadratic(c[0], c[1], c[2], eps); e.i("n", n).k("x", std::vector<T>{a, b}); }
  if (c.size() == 4) { auto [n, x, y, z] = vm::solve_cubic(c[0], c[1], c[2], c[3], eps); e.i("n", n).k("x", std::vector<T>{x, y, z}); }
  if (c.size() == 5) { auto [n, x, y, z, w] = vm::solve_quartic(c[0], c[1], c[2], c[3], c[4], eps); e.i("n", n).k("x", std::vector<T>{x, y, z, w}); }
}
template <typename T> void quad(Rng& r) {
  T a, b, c;
  do a = scalar<T>(r, 8); while (std::fabs(a) < T(0.01));
  b = scalar<T>(r, 8); c = scalar<T>(r, 8);
  if (r.coin(3)) { const T x = T(r.range(-5, 5)), y = r.coin(3) ? x : T(r.range(-5, 5)); b = -a * (x + y); c = a * x * y; }
  T eps = r.coin(3) ? T(0.001) : T(std::pow(10.0, -r.range(1, 9)));
  if (r.coin(3)) { const double p = double(b) / (2 * double(a)), D = p * p - double(c) / double(a); eps = T(std::fabs(D) * (r.coin() ? 1.05 : r.coin() ? 0.95 : r.coin() ? 3 : 0.3)) + T(1e-12); }
  Ev e("quadratic", P<T>::name);
  e.k("c", std::vector<T>{a, b, c}).k("eps", eps);
  auto [n, x, y] = vm::solve_quadratic(a, b, c, eps);
  e.i("n", n).k("x", std::vector<T>{x, y});
}
// roots on a coarser or finer lattice far from or around zero, with a coarse epsilon
static void lattice(Rng& r, int degree) {
  const double step = r.coin() ? 1.0 : r.coin() ? 2.0 : 10.0, off = r.coin(3) ? 0.0 : r.range(-15, 15);
  std::vector<int> k;
  while (int(k.size()) < degree) { const int x = r.range(-6, 6); if (std::find(k.begin(), k.end(), x) == k.end()) k.push_back(x); }
  if (degree == 4 && r.coin(3)) k[3] = 3 * k[0] - k[1] - k[2];                  // one root is the mean of all
  if (degree == 4 && r.coin(4)) { k[2] = -k[0]; k[3] = -k[1]; }                // biquadratic
  Poly p;
  for (int i = 0; i < degree; ++i) for (int j = 0; j < i; ++j) if (k[i] == k[j]) return;
  for (int i = 0; i < degree; ++i) {
    if (i + 2 <= degree && r.coin(4)) { add(p, k[i] * step + off, step * r.range(1, 3)); ++i; }
    else add(p, k[i] * step + off);
  }
  log<double>("apart", p, r.coin(3) ? double(r.range(2, 5)) * r.sgn() : 1.0, r.coin() ? 1e-3 : 1e-6, 1e-5);
}
static double root(Rng& r, bool lat) { return lat ? r.range(-10, 10) / 2.0 : r.real(-5, 5); }
static Poly apart(Rng& r, int degree, double minsep) {
  for (;;) {
    Poly p;
    int left = degree;
    while (left > 0) {
      const bool lat = r.coin();
      if (left >= 2 && r.coin(3)) { double y = std::fabs(root(r, lat)); if (y == 0) y = 1; add(p, root(r, lat), y); left -= 2; }
      else { add(p, root(r, lat)); --left; }
    }
    if (sep(p) >= minsep) return p;
  }
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  // all lattice polynomials of real roots with a repeated root
  for (int a = -3; a <= 3; ++a) for (int b = a; b <= 3; ++b) {
    { Poly p; add(p, a); add(p, b); log<double>(a == b ? "distinct" : "apart", p, 1, 1e-6, 1e-5); }
    for (int d = b; d <= 3; ++d) {
      { Poly p; add(p, a); add(p, b); add(p, d); const bool rep = a == b || b == d; for (double eps : {1e-3, 1e-6, 1e-9}) log<double>(rep ? "distinct" : "apart", p, 1, eps, 1e-2); }
      for (int g = d; g <= 3; ++g) { Poly p; add(p, a); add(p, b); add(p, d); add(p, g); const bool rep = a == b || b == d || d == g;
        for (double eps : {1e-6, 1e-9}) log<double>(rep ? "multiple" : "apart", p, 1, eps, 2e-2); }
      // a double root and a complex pair
      if (d == b) for (int y = 1; y <= 2; ++y) { Poly p; add(p, a); add(p, a); add(p, b, y); log<double>("multiple", p, 1, 1e-7, 2e-2); }
      if (a == b) for (int y = 1; y <= 3; ++y) { Poly p; add(p, a); add(p, d, y); log<double>("apart", p, 1, 1e-9, 1e-4); }
    }
  }
  for (long i = 0; i < c.n; ++i) {
    quad<double>(c.r); quad<float>(c.r);
    lattice(c.r, 2); lattice(c.r, 3); lattice(c.r, 4); lattice(c.r, 4);
    const double lead = c.r.coin(3) ? 1.0 : c.r.real(0.5, 3) * c.r.sgn();
    log<double>("apart", apart(c.r, 2, 0.1), lead, 1e-9, 1e-6);
    log<double>("apart", apart(c.r, 3, 0.3), lead, c.r.coin() ? 1e-9 : 1e-12, 1e-4);
    log<double>("apart", apart(c.r, 4, 0.5), lead, c.r.coin() ? 1e-9 : 1e-11, 1e-3);
    log<double>("apart", apart(c.r, 4, 0.5), lead, c.r.coin() ? 1e-9 : 1e-11, 1e-3);
    log<float>("apart", apart(c.r, 2, 0.5), lead, 1e-3f, 1e-2);
    log<float>("apart", apart(c.r, 3, 1.0), lead, 1e-3f, 5e-2);
    { const Poly p = apart(c.r, 4, 1.5); const auto k = coeffs(p, 1); if (c.r.coin(3) && std::fabs(k[1] * k[1] * k[1] / 8 - k[1] * k[2] / 2 + k[3]) > 5) log<float>("apart", p, lead, 1e-3f, 1e-1); }
    { const double sc = std::ldexp(1.0, c.r.range(0, 12)); const int deg = c.r.range(2, 4);      // roots of any magnitude
      Poly p, q = apart(c.r, deg, 0.5); for (auto& z : q.z) { if (z.size() == 1) add(p, z[0] * sc); else add(p, z[0] * sc, z[1] * sc); }
      const auto k = coeffs(q, 1);
      if (deg < 4 || std::fabs(k[1] * k[1] * k[1] / 8 - k[1] * k[2] / 2 + k[3]) > 1)      // not symmetric: rounding would hide it from epsilon
        log<double>("apart", p, lead * std::ldexp(1.0, c.r.range(-8, 20)), 1e-9, 1e-3 * sc); }
  }
  return done();
}
