#include "vt.h"
#include <vecmath/bezier_surface.h>
using namespace vt;
template <typename T, std::size_t C> using Grid = std::array<std::array<vm::vec<T, C>, 3>, 3>;
template <typename T, std::size_t C> void patch(const Grid<T, C>& g, T u, T v) {
  Ev e("patch", P<T>::name); e.k("cp", g).k("u", u).k("v", v); e.k("r", vm::evaluate_quadratic_bezier_surface(g, u, v));
}
template <typename T, std::size_t C> void rnd(Rng& r) {
  Grid<T, C> g;
  const int shape = r.below(6);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    g[i][j] = shape == 0 ? ivec<T, C>(r, 8) : shape == 1 ? vec<T, C>(r, 4096) : vec<T, C>(r);
    if (shape == 2) g[i][j] = vm::vec<T, C>{};
  }
  if (shape == 2) g[r.below(3)][r.below(3)] = vec<T, C>(r);   // one control point alone
  auto par = [&]() { switch (r.below(6)) { case 0: return T(0); case 1: return T(1); case 2: return T(r.range(0, 16)) / T(16); case 3: return T(r.real(-1, 2)); case 4: return T(r.real(0, 1e-3)); default: return T(r.unit()); } };
  for (int k = 0; k < 4; ++k) patch<T, C>(g, par(), par());
}
static double rat(const std::string& s) { const auto k = s.find('/'); return k == s.npos ? std::stod(s) : std::stod(s.substr(0, k)) / std::stod(s.substr(k + 1)); }
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  std::ifstream f(c.beh);
  for (std::string l; std::getline(f, l);) {
    std::istringstream s(l); std::string w; std::vector<double> x; while (s >> w) x.push_back(rat(w));
    if (x.size() != 11) { std::fprintf(stderr, "bad behaviour\n"); return 2; }
    Grid<double, 3> g; Grid<float, 1> h;
    for (int i = 0; i < 9; ++i) { g[i / 3][i % 3] = vm::vec<double, 3>(x[i], i, -x[8 - i]); h[i / 3][i % 3][0] = float(x[i]); }
    patch<double, 3>(g, x[9], x[10]); patch<float, 1>(h, float(x[9]), float(x[10]));
  }
  for (long i = 0; i < c.n; ++i) { rnd<double, 3>(c.r); rnd<float, 3>(c.r); rnd<double, 2>(c.r); rnd<float, 4>(c.r); if (i % 3 == 1) { rnd<float, 2>(c.r); rnd<double, 1>(c.r); rnd<double, 4>(c.r); } }
  return done();
}
