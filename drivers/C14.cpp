#include "vt.h"
using namespace vt;
template <typename T, std::size_t R, std::size_t C> vm::mat<T, R, C> rmat(Rng& r, bool in, int lim = 6) {
  vm::mat<T, R, C> m;
  for (std::size_t c = 0; c < C; ++c) for (std::size_t k = 0; k < R; ++k) m.v[c][k] = in ? T(r.range(-lim, lim)) : scalar<T>(r, 20);
  return m;
}
// rows and columns scaled by very different factors
template <typename T, std::size_t R, std::size_t C> void grade(Rng& r, vm::mat<T, R, C>& m) {
  const double w = std::is_same<T, double>::value ? 12 : 4;
  if (r.coin()) for (std::size_t c = 0; c < C; ++c) { const T f = T(std::pow(10.0, r.real(-w, w))); for (std::size_t k = 0; k < R; ++k) m.v[c][k] *= f; }
  if (r.coin()) for (std::size_t k = 0; k < R; ++k) { const T f = T(std::pow(10.0, r.real(-w, w))); for (std::size_t c = 0; c < C; ++c) m.v[c][k] *= f; }
}
template <typename T, std::size_t S> vm::vec<T, S> rvec(Rng& r, bool in) { return in ? ivec<T, S>(r, 6) : vec<T, S>(r, 20); }
template <typename T, std::size_t R, std::size_t C, std::size_t... I> vm::mat<T, R, C> mk(const T* a, std::index_sequence<I...>) { return vm::mat<T, R, C>(a[I]...); }
template <typename T, std::size_t R, std::size_t C, std::size_t... I> vm::mat<T, R, C> mkl(const T* a, std::index_sequence<I...>) { return vm::mat<T, R, C>{a[I]...}; }
#define EV(n) Ev e(n, P<T>::name); e.b("int", in)
template <typename T, std::size_t R, std::size_t C> void rect(Rng& r) {
  using M = vm::mat<T, R, C>; bool in = r.coin();
  M a = rmat<T, R, C>(r, in), b = rmat<T, R, C>(r, in);
  if (!in && r.coin(4)) { grade(r, a); grade(r, b); }
  { T l[R * C]; const int sh = r.coin(3) ? r.range(-60, 60) : 0; for (auto& x : l) x = T(std::ldexp(double(r.range(-999, 999)), sh)); using Is = std::make_index_sequence<R * C>;
    EV("ctor"); e.i("rows", R).i("cols", C).k("l", std::vector<T>(l, l + R * C));
    const M ar = mk<T, R, C>(l, Is{}); std::vector<std::vector<T>> ix(R, std::vector<T>(C)); for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) ix[i][j] = ar[j][i];
    e.k("args", ar).k("list", mkl<T, R, C>(l, Is{})).k("index", ix).k("conv", M(vm::mat<float, R, C>(ar))).k("fill", M::fill(l[0])).k("zero", M::zero()).k("id", M::identity()).k("dflt", M()); }
  { T s = scalar<T>(r); if (vm::abs(s) < T(0.001)) s = T(3); const std::size_t i = r.below(R), j = r.below(C);
    const T w = r.coin(3) ? T(0) : s;
    EV("linear"); e.k("w", w).k("a", a).k("b", b).k("s", s).i("i", i).i("j", j);
    e.k("pos", +a).k("neg", -a).k("add", a + b).k("sub", a - b).k("mul", a * s).k("lmul", s * a).k("div", a / s).k("set", vm::set(a, i, j, w)); }
  { M z = M::zero(); const T eps = someeps<T>(r); for (int k = r.below(3); k > 0; --k) z.v[r.below(C)][r.below(R)] = abouteps<T>(r, eps);
    EV("iszero"); e.k("a", z).k("eps", eps); e.b("r", vm::is_zero(z, eps)); }
  { const auto v = rvec<T, C>(r, in); EV("matvec"); e.k("a", a).k("v", v); e.k("r", a * v); }
  { const auto v = rvec<T, R>(r, in); EV("vecmat"); e.k("a", a).k("v", v); e.k("r", v * a); }
  { EV("transpose"); e.k("a", a); e.k("r", vm::transpose(a)); }
  { const std::size_t i = r.below(R), j = r.below(C); EV("minor"); e.k("a", a).i("i", i).i("j", j); e.k("r", vm::extract_minor(a, i, j)); }
  { const std::size_t i = r.below(R), j = r.below(C - 1); EV("slice"); e.k("a", a).i("i", i).i("j", j).i("nr", 1).i("nc", 2); e.k("r", vm::slice<1, 2>(a, i, j)); }
  { const std::size_t i = r.below(2), j = r.below(2); EV("slice"); e.k("a", a).i("i", i).i("j", j).i("nr", R - 1).i("nc", C - 1); e.k("r", vm::slice<R - 1, C - 1>(a, i, j)); }
}
template <typename T, std::size_t A, std::size_t B, std::size_t C> void prod(Rng& r) {
  const bool in = r.coin(); auto a = rmat<T, A, B>(r, in); auto b = rmat<T, B, C>(r, in); if (!in && r.coin(3)) { grade(r, a); grade(r, b); }
  EV("product"); e.k("a", a).k("b", b); e.k("r", a * b);
}
template <typename T, std::size_t S> void square(Rng& r) {
  const bool in = r.coin(); auto a = rmat<T, S, S>(r, in, S > 4 ? 3 : 6);
  if (r.coin(4)) a[r.below(S)] = a[r.below(S)];
  if (!in && r.coin(3)) grade(r, a);
  { EV("det"); e.k("a", a); e.k("r", vm::compute_determinant(a)); }
  { EV("adj"); e.k("a", a); e.k("r", vm::compute_adjugate(a)); }
  // a matrix with a last row and column that keep the homogeneous coordinate away from zero
  auto m = rmat<T, S, S>(r, in, 3); for (std::size_t k = 0; k + 1 < S; ++k) { m.v[k][S - 1] = r.coin() ? T(0) : T(r.range(-4, 4)) / T(64); m.v[S - 1][k] = r.coin(3) ? T(0) : T(r.range(-4, 4)) / T(64); }
  m.v[S - 1][S - 1] = r.coin() ? T(1) : T(2 * r.sgn());
  const auto q = ivec<T, S - 1>(r, 4);
  { EV("point"); e.k("a", m).k("v", q); e.k("r", m * q).k("l", q * m); }
  { std::vector<vm::vec<T, S>> v; std::vector<vm::vec<T, S - 1>> qs; for (int n = r.below(4); n > 0; --n) { v.push_back(rvec<T, S>(r, in)); qs.push_back(ivec<T, S - 1>(r, 4)); }
    { EV("lists"); e.k("a", m).k("v", v).k("q", qs); e.k("mv", m * v).k("vm", v * m).k("mp", m * qs).k("pm", qs * m); }
    std::array<vm::vec<T, S>, 3> av; std::array<vm::vec<T, S - 1>, 3> aq; for (int i = 0; i < 3; ++i) { av[i] = rvec<T, S>(r, in); aq[i] = ivec<T, S - 1>(r, 4); }
    { EV("lists"); e.k("a", m).k("v", av).k("q", aq); e.k("mv", m * av).k("vm", av * m).k("mp", m * aq).k("pm", aq * m); } }
}
template <typename T> void named() {
  using M = vm::mat<T, 4, 4>; const bool in = true;
  EV("named");
  e.k("ccw", std::vector<M>{M::rot_90_x_ccw(), M::rot_90_y_ccw(), M::rot_90_z_ccw()}).k("cw", std::vector<M>{M::rot_90_x_cw(), M::rot_90_y_cw(), M::rot_90_z_cw()});
  e.k("half", std::vector<M>{M::rot_180_x(), M::rot_180_y(), M::rot_180_z()}).k("mirror", std::vector<M>{M::mirror_x(), M::mirror_y(), M::mirror_z()});
  e.k("zo", std::vector<M>{M::template zero_out<0>(), M::template zero_out<1>(), M::template zero_out<2>(), M::template zero_out<3>()});
}
int main(int argc, char** argv) {
  auto c = init(argc, argv);
  named<double>(); named<float>();
  for (long i = 0; i < c.n; ++i) {
    auto& r = c.r;
    rect<double, 4, 4>(r); rect<float, 3, 3>(r); rect<double, 2, 2>(r); rect<double, 2, 4>(r); rect<float, 4, 2>(r); rect<double, 3, 4>(r);
    prod<double, 4, 4, 4>(r); prod<float, 4, 4, 4>(r); prod<double, 3, 3, 3>(r); prod<double, 2, 2, 2>(r); prod<double, 2, 3, 4>(r); prod<float, 4, 2, 3>(r); prod<double, 1, 4, 1>(r);
    square<double, 4>(r); square<float, 4>(r); square<double, 3>(r); square<float, 2>(r); if (i % 3 == 1) { square<double, 2>(r); square<float, 3>(r); square<float, 5>(r); rect<float, 3, 4>(r); rect<double, 4, 3>(r); rect<float, 4, 4>(r); rect<double, 3, 3>(r); prod<float, 3, 3, 3>(r); prod<float, 2, 2, 2>(r); prod<double, 4, 1, 4>(r); prod<float, 3, 4, 2>(r); } if (i % 12 == 0) { square<double, 6>(r); square<float, 6>(r); } if (i % 4 == 0) { square<double, 5>(r); rect<double, 5, 5>(r); rect<float, 2, 6>(r); rect<double, 6, 3>(r); rect<double, 3, 7>(r); prod<double, 5, 5, 5>(r); prod<float, 2, 6, 5>(r); }
  }
  return done();
}
