// Every function that can be evaluated in a constant expression, evaluated in one and again at run
// time with arguments the compiler knows nothing about. That this file compiles is part of the
// observation.
#include "vt.h"
#include <tuple>
#include <vecmath/approx.h>
#include <vecmath/distance.h>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/plane.h>
#include <vecmath/quat.h>
#include <vecmath/ray.h>
#include <vecmath/segment.h>
using namespace vt;
using L = std::vector<double>;
// ---- results as lists of numbers
template <typename T> std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value> flat(L& l, const T& x) { l.push_back(double(x)); }
template <typename T, std::size_t S> void flat(L& l, const vm::vec<T, S>& v) { for (std::size_t i = 0; i < S; ++i) l.push_back(double(v[i])); }
template <typename T, std::size_t R, std::size_t C> void flat(L& l, const vm::mat<T, R, C>& m) { for (std::size_t i = 0; i < C; ++i) flat(l, m[i]); }
template <typename T, std::size_t S> void flat(L& l, const vm::bbox<T, S>& b) { flat(l, b.min); flat(l, b.max); }
template <typename T, std::size_t S> void flat(L& l, const vm::line<T, S>& x) { flat(l, x.point); flat(l, x.direction); }
template <typename T, std::size_t S> void flat(L& l, const vm::ray<T, S>& x) { flat(l, x.origin); flat(l, x.direction); }
template <typename T, std::size_t S> void flat(L& l, const vm::segment<T, S>& x) { flat(l, x.start()); flat(l, x.end()); }
template <typename T, std::size_t S> void flat(L& l, const vm::plane<T, S>& x) { flat(l, x.normal); flat(l, x.distance); }
template <typename T> void flat(L& l, const vm::quat<T>& x) { flat(l, x.v); flat(l, x.r); }
template <typename T> void flat(L& l, const vm::point_distance<T>& x) { flat(l, x.position); flat(l, x.distance); }
template <typename T> void flat(L& l, const vm::line_distance<T>& x) { flat(l, x.parallel); flat(l, x.position1); flat(l, x.position2); flat(l, x.distance); }
template <typename T, std::size_t N> void flat(L& l, const std::array<T, N>& a) { for (const auto& x : a) flat(l, x); }
template <typename... A> void flat(L& l, const std::tuple<A...>& t) { std::apply([&](const auto&... x) { (flat(l, x), ...); }, t); }
template <typename R> void emit(const char* name, const char* p, const R& ce, const R& rt, bool near_) {
  L a, b; flat(a, ce); flat(b, rt);
  Ev e(near_ ? "near" : "same", p); e.str("f", name).k("ce", a).k("rt", b);
}
// ---- arguments
constexpr std::uint64_t mixb(std::uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
struct G {
  std::uint64_t s;
  constexpr std::uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mixb(s); }
  constexpr int range(int a, int b) { return a + int(next() % std::uint64_t(b - a + 1)); }
  template <typename T> constexpr T num() {
    switch (next() % 4) { case 0: return T(range(-4, 4)); case 1: return T(range(-9, 9)) / T(2); case 2: return T(double(range(-1000000, 1000000)) / 100003.0); default: return T(double(range(-1000000, 1000000)) / 7919.0); }
  }
  template <typename T, std::size_t S> constexpr vm::vec<T, S> v() { vm::vec<T, S> r; for (std::size_t i = 0; i < S; ++i) r[i] = num<T>(); return r; }
  template <typename T, std::size_t S> constexpr vm::vec<T, S> nz() { auto r = v<T, S>(); if (r[0] == T(0)) r[0] = T(2.5); return r; }
  template <typename T, std::size_t S> constexpr vm::mat<T, S, S> m() { vm::mat<T, S, S> r; for (std::size_t i = 0; i < S; ++i) { r[i] = v<T, S>(); r[i][i] += T(range(0, 1) * 20); } return r; }
  // an exact unit vector
  template <typename T> constexpr vm::vec<T, 3> unit() {
    const T s = range(0, 1) ? T(1) : T(-1);
    switch (next() % 5) { case 0: return vm::vec<T, 3>(s, 0, 0); case 1: return vm::vec<T, 3>(0, s, 0); case 2: return vm::vec<T, 3>(0, 0, s); case 3: return vm::vec<T, 3>(T(0.6) * s, T(-0.8), 0); default: return vm::vec<T, 3>(T(2.0 / 3), s * T(1.0 / 3), T(2.0 / 3)); }
  }
  template <typename T> constexpr vm::bbox<T, 3> box() { const auto a = v<T, 3>(), b = v<T, 3>(); vm::bbox<T, 3> r; for (std::size_t i = 0; i < 3; ++i) { r.min[i] = a[i] < b[i] ? a[i] : b[i]; r.max[i] = a[i] < b[i] ? b[i] : a[i]; } for (std::size_t i = 0; i < 3; ++i) if (r.min[i] == r.max[i]) r.max[i] += T(1); return r; }
};
template <typename T> struct Inp {
  T a{}, b{}, c{}, pos{}, eps{};
  vm::vec<T, 3> u, v, w, n, n2; vm::vec<T, 2> p, q; vm::vec<T, 4> h;
  vm::mat<T, 3, 3> m3, k3; vm::mat<T, 4, 4> m4, k4; vm::mat<T, 2, 2> m2; vm::mat<T, 4, 4> aff;
  vm::bbox<T, 3> B, C; vm::quat<T> q1, q2;
  std::size_t idx{};
};
template <typename T> constexpr Inp<T> make(std::uint64_t seed) {
  G g{seed}; Inp<T> i;
  i.a = g.num<T>(); i.b = g.num<T>(); i.c = g.num<T>(); i.pos = T(g.range(1, 40)) / T(8); i.eps = T(g.range(1, 8)) / T(16);
  i.u = g.nz<T, 3>(); i.v = g.nz<T, 3>(); i.w = g.v<T, 3>(); i.n = g.unit<T>(); i.n2 = g.unit<T>(); i.p = g.v<T, 2>(); i.q = g.nz<T, 2>(); i.h = g.v<T, 4>(); if (i.h[3] == T(0)) i.h[3] = T(2);
  i.m3 = g.m<T, 3>(); i.k3 = g.m<T, 3>(); i.m4 = g.m<T, 4>(); i.k4 = g.m<T, 4>(); i.m2 = g.m<T, 2>();
  i.aff = vm::mat<T, 4, 4>::identity(); { const auto s = g.m<T, 3>(); for (std::size_t c = 0; c < 3; ++c) for (std::size_t r = 0; r < 3; ++r) i.aff[c][r] = s[c][r]; i.aff[3][0] = i.a; i.aff[3][1] = i.b; i.aff[3][2] = i.c; }
  i.B = g.box<T>(); i.C = g.box<T>(); i.q1 = vm::quat<T>(T(0.6), i.n * T(0.8)); i.q2 = vm::quat<T>(i.a, i.u); i.idx = std::size_t(g.range(0, 2));
  return i;
}
template <typename T, std::size_t I> constexpr Inp<T> in = make<T>(I * 7919 + (sizeof(T) == 4 ? 17 : 3));
template <typename T> Inp<T> __attribute__((noinline)) hide(const Inp<T>& x) { Inp<T> r = x; asm volatile("" : : "r"(&r) : "memory"); return r; }

#define SAME(NAME, ...) { constexpr auto f = [](const auto& i) { (void)i; return __VA_ARGS__; }; constexpr auto ce = f(in<T, I>); const auto rt = f(hide(in<T, I>)); emit(NAME, P<T>::name, ce, rt, false); }
#define NEAR(NAME, CE, RT) { constexpr auto f = [](const auto& i) { return CE; }; constexpr auto ce = f(in<T, I>); const auto g = [](const auto& i) { return RT; }; const auto rt = g(hide(in<T, I>)); emit(NAME, P<T>::name, ce, rt, true); }

template <typename T, std::size_t I> void scalars() {
  SAME("min", vm::min(i.a, i.b, i.c)) SAME("max", vm::max(i.a, i.b, i.c)) SAME("abs_min", vm::abs_min(i.a, i.b)) SAME("abs_max", vm::abs_max(i.a, i.b, i.c))
  SAME("safe_min", vm::safe_min(i.a, i.b)) SAME("safe_max", vm::safe_max(i.a, i.b)) SAME("clamp", vm::clamp(i.a, vm::min(i.b, i.c), vm::max(i.b, i.c))) SAME("abs", vm::abs(i.a)) SAME("sign", vm::sign(i.a))
  SAME("step", vm::step(i.a, i.b)) SAME("trunc", vm::trunc(i.a)) SAME("floor", vm::floor(i.a)) SAME("ceil", vm::ceil(i.a)) SAME("round", vm::round(i.a)) SAME("round_up", vm::round_up(i.a)) SAME("round_down", vm::round_down(i.a)) SAME("fract", vm::fract(i.a))
  SAME("mod", vm::mod(i.a, i.pos)) SAME("mix", vm::mix(i.a, i.b, i.eps)) SAME("smoothstep", vm::smoothstep(T(-4), T(4), i.a)) SAME("snap", vm::snap(i.a, i.pos)) SAME("snapUp", vm::snapUp(i.a, i.pos)) SAME("snapDown", vm::snapDown(i.a, i.pos)) SAME("correct", vm::correct(i.a))
  SAME("is_equal", vm::is_equal(i.a, i.b, i.eps)) SAME("is_zero", vm::is_zero(i.a, i.eps)) SAME("contains", vm::contains(i.a, i.b, i.c)) SAME("to_radians", vm::to_radians(i.a)) SAME("to_degrees", vm::to_degrees(i.a))
  SAME("normalize_radians", vm::normalize_radians(i.a)) SAME("normalize_degrees", vm::normalize_degrees(T(i.a * T(90)))) SAME("succ", vm::succ(i.idx, std::size_t(3))) SAME("pred", vm::pred(i.idx, std::size_t(3))) SAME("is_nan", vm::is_nan(i.a)) SAME("is_inf", vm::is_inf(i.a))
  SAME("sqrt_c", vm::sqrt_c(vm::abs(i.a))) NEAR("sqrt", vm::sqrt_c(vm::abs(i.a)), vm::sqrt(vm::abs(i.a)))
}
template <typename T, std::size_t I> void vectors() {
  SAME("v+", i.u + i.v) SAME("v-", i.u - i.v) SAME("v*", i.u * i.v) SAME("v*s", i.u * i.a) SAME("s*v", i.a * i.u) SAME("v/s", i.u / i.pos) SAME("-v", -i.u) SAME("v==", i.u == i.v) SAME("v<", i.u < i.v) SAME("compare", vm::compare(i.u, i.v, i.eps))
  SAME("dot", vm::dot(i.u, i.v)) SAME("cross", vm::cross(i.u, i.v)) SAME("sqlen", vm::squared_length(i.u)) SAME("sqdist", vm::squared_distance(i.u, i.v)) SAME("vmin", vm::min(i.u, i.v, i.w)) SAME("vmax", vm::max(i.u, i.v)) SAME("vabsmin", vm::abs_min(i.u, i.v)) SAME("vabsmax", vm::abs_max(i.u, i.v))
  SAME("vabs", vm::abs(i.u)) SAME("vsign", vm::sign(i.u)) SAME("vstep", vm::step(i.u, i.v)) SAME("vmix", vm::mix(i.u, i.v, i.w)) SAME("vfract", vm::fract(i.u)) SAME("vfloor", vm::floor(i.u)) SAME("vceil", vm::ceil(i.u)) SAME("vtrunc", vm::trunc(i.u)) SAME("vround", vm::round(i.u))
  SAME("vmod", vm::mod(i.u, vm::abs(i.v) + vm::vec<T, 3>::one())) SAME("vsnap", vm::snap(i.u, vm::abs(i.v) + vm::vec<T, 3>::one())) SAME("vsnapUp", vm::snapUp(i.u, vm::abs(i.v) + vm::vec<T, 3>::one())) SAME("vsnapDown", vm::snapDown(i.u, vm::abs(i.v) + vm::vec<T, 3>::one())) SAME("vcorrect", vm::correct(i.u)) SAME("vis_integral", vm::is_integral(i.u, i.eps))
  SAME("maxcomp", vm::find_max_component(i.u, i.idx)) SAME("absmaxcomp", vm::find_abs_max_component(i.u, i.idx)) SAME("absmaxaxis", vm::get_abs_max_component_axis(i.u, i.idx)) SAME("getmax", vm::get_max_component(i.u, i.idx)) SAME("getabsmax", vm::get_abs_max_component(i.u, i.idx))
  SAME("swizzle", vm::swizzle(i.u, i.idx)) SAME("unswizzle", vm::unswizzle(i.u, i.idx)) SAME("homog", vm::to_homogeneous_coords(i.u)) SAME("cart", vm::to_cartesian_coords(i.h)) SAME("slice", vm::slice<2>(i.u, 1)) SAME("xyz", i.h.xyz()) SAME("colinear", vm::is_colinear(i.u, i.v, i.w)) SAME("vis_equal", vm::is_equal(i.u, i.v, i.eps))
  NEAR("length", vm::length_c(i.u), vm::length(i.u)) NEAR("normalize", vm::normalize_c(i.u), vm::normalize(i.u)) NEAR("distance", vm::distance_c(i.u, i.w), vm::distance(i.u, i.w)) NEAR("is_unit", vm::is_unit_c(i.n, T(0.01)), vm::is_unit(i.n, T(0.01))) NEAR("is_unit2", vm::is_unit_c(i.u, T(0.01)), vm::is_unit(i.u, T(0.01)))
  NEAR("parallel", vm::is_parallel_c(i.u, i.v), vm::is_parallel(i.u, i.v)) NEAR("parallel2", vm::is_parallel_c(i.u, i.u * T(-3)), vm::is_parallel(i.u, i.u * T(-3)))
  NEAR("between", (vm::is_between_c(vm::vec<T, 3>(i.eps, 0, 0), vm::vec<T, 3>(0, 0, 0), vm::vec<T, 3>(i.pos, 0, 0))), (vm::is_between(vm::vec<T, 3>(i.eps, 0, 0), vm::vec<T, 3>(0, 0, 0), vm::vec<T, 3>(i.pos, 0, 0))))
}
template <typename T, std::size_t I> void matrices() {
  SAME("m+", i.m3 + i.k3) SAME("m-", i.m3 - i.k3) SAME("m*", i.m3 * i.k3) SAME("m4*", i.m4 * i.k4) SAME("m*s", i.m3 * i.a) SAME("m/s", i.m3 / i.pos) SAME("m*v", i.m3 * i.u) SAME("v*m", i.u * i.m3) SAME("aff*v", i.aff * i.u) SAME("v*m4", i.h * i.m4) SAME("transpose", vm::transpose(i.m4)) SAME("mcompare", vm::compare(i.m3, i.k3))
  SAME("minor", vm::extract_minor(i.m4, i.idx, 1)) SAME("mslice", vm::slice<2, 2>(i.m4, i.idx, 1)) SAME("det", vm::compute_determinant(i.m4)) SAME("det3", vm::compute_determinant(i.m3)) SAME("det2", vm::compute_determinant(i.m2)) SAME("adj", vm::compute_adjugate(i.m3)) SAME("invert", vm::invert(i.m3)) SAME("invert4", vm::invert(i.m4)) SAME("lup", vm::lup_solve(i.m3, i.u))
  SAME("translation", vm::translation_matrix(i.u)) SAME("translationOf", vm::translation_matrix(i.aff)) SAME("strip", vm::strip_translation(i.aff)) SAME("scaling", vm::scaling_matrix(i.u)) SAME("shear", vm::shear_matrix(i.a, i.b, i.c, i.a, i.b, i.c)) SAME("coordsys", vm::coordinate_system_matrix(i.u, i.v, i.w, i.n)) SAME("rotq", vm::rotation_matrix(i.q1)) SAME("scalebox", vm::scale_bbox_matrix(i.B, i.C)) SAME("ortho", vm::ortho_matrix(T(1), T(100), T(-10), T(10), T(10), T(-8)))
  SAME("rot90", vm::mat<T, 4, 4>::rot_90_x_cw() * vm::mat<T, 4, 4>::rot_90_y_ccw() * vm::mat<T, 4, 4>::mirror_z()) SAME("mzero", vm::is_zero(i.m3, i.pos)) SAME("mequal", vm::is_equal(i.m3, i.k3, i.pos)) SAME("mirror", vm::mirror_matrix<T>(vm::axis::type(i.idx)))
}
template <typename T, std::size_t I> void shapes() {
  SAME("center", i.B.center()) SAME("size", i.B.size()) SAME("volume", i.B.volume()) SAME("containsP", i.B.contains(i.u)) SAME("containsB", i.B.contains(i.C)) SAME("encloses", i.B.encloses(i.C)) SAME("intersects", i.B.intersects(i.C)) SAME("constrain", i.B.constrain(i.u)) SAME("expand", i.B.expand(i.eps)) SAME("btranslate", i.B.translate(i.u)) SAME("btransform", i.B.transform(i.aff)) SAME("vertices", i.B.vertices()) SAME("merge", vm::merge(i.B, i.C)) SAME("mergep", vm::merge(i.B, i.u)) SAME("cut", vm::intersect(i.B, i.C)) SAME("repair", vm::repair(i.B)) SAME("relpos", i.B.relative_position(i.u)) SAME("builder", [](const auto& j) { typename vm::bbox<T, 3>::builder b; b.add(j.u); b.add(j.B); return b.bounds(); }(i))
  SAME("lproject", vm::project_point(vm::line<T, 3>(i.u, i.n), i.v)) SAME("lat", vm::point_at_distance(vm::line<T, 3>(i.u, i.n), i.a)) SAME("canonical", vm::line<T, 3>(i.u, i.n).make_canonical()) SAME("rstatus", vm::ray<T, 3>(i.u, i.n).point_status(i.v)) NEAR("ltransform", (vm::line<T, 3>(i.u, i.n).transform_c(i.aff)), (vm::line<T, 3>(i.u, i.n).transform(i.aff))) NEAR("rtransform", (vm::ray<T, 3>(i.u, i.n).transform_c(i.aff)), (vm::ray<T, 3>(i.u, i.n).transform(i.aff)))
  SAME("segment", vm::segment<T, 3>(i.u, i.v)) SAME("scenter", vm::segment<T, 3>(i.u, i.v).center()) SAME("strans", vm::segment<T, 3>(i.u, i.v).transform(i.aff)) SAME("smove", vm::segment<T, 3>(i.u, i.v).translate(i.w)) NEAR("slength", (vm::segment<T, 3>(i.u, i.v).length_c()), (vm::segment<T, 3>(i.u, i.v).length())) SAME("scompare", vm::compare(vm::segment<T, 3>(i.u, i.v), vm::segment<T, 3>(i.u, i.w)))
  SAME("anchor", vm::plane<T, 3>(i.a, i.n).anchor()) SAME("pat", vm::plane<T, 3>(i.a, i.n).at(i.p, vm::axis::type(i.idx))) SAME("pdist", vm::plane<T, 3>(i.u, i.n).point_distance(i.v)) SAME("pstatus", vm::plane<T, 3>(i.u, i.n).point_status(i.v)) SAME("flip", vm::plane<T, 3>(i.u, i.n).flip()) SAME("pproject", vm::plane<T, 3>(i.u, i.n).project_point(i.v)) SAME("pprojectv", vm::plane<T, 3>(i.u, i.n).project_vector(i.v)) SAME("horizontal", vm::horizontal_plane(i.u)) SAME("aligned", vm::aligned_orthogonal_plane(i.u, i.v)) NEAR("ptransform", (vm::plane<T, 3>(i.u, i.n).transform_c(vm::translation_matrix(i.w))), (vm::plane<T, 3>(i.u, i.n).transform(vm::translation_matrix(i.w))))
  SAME("q*q", i.q1 * i.q2) SAME("q*v", i.q1 * i.u) SAME("conj", i.q2.conjugate()) SAME("q*s", i.q2 * i.a)
  SAME("rp", vm::squared_distance(vm::ray<T, 3>(i.u, i.n), i.v)) SAME("rr", vm::squared_distance(vm::ray<T, 3>(i.u, i.n), vm::ray<T, 3>(i.v, i.n2))) SAME("rl", vm::squared_distance(vm::ray<T, 3>(i.u, i.n), vm::line<T, 3>(i.v, i.n2)))
  SAME("irp", vm::safe_max(vm::intersect_ray_plane(vm::ray<T, 3>(i.u, i.n), vm::plane<T, 3>(i.v, i.n2)), T(-77))) SAME("irt", vm::safe_max(vm::intersect_ray_triangle(vm::ray<T, 3>(i.u - i.n * T(50), i.n), i.u + i.v * T(9), i.u - i.v + i.w * T(5), i.u - i.w * T(9)), T(-77))) SAME("irb", vm::safe_max(vm::intersect_ray_bbox(vm::ray<T, 3>(i.u, i.n), i.B), T(-77))) SAME("ilp", vm::safe_max(vm::intersect_line_plane(vm::line<T, 3>(i.u, i.n), vm::plane<T, 3>(i.v, i.n2)), T(-77)))
  SAME("approx", (i.a == vm::approx<T>(i.b, i.pos))) SAME("approxv", (i.u == vm::approx<vm::vec<T, 3>>(i.v, i.pos)))
}
template <typename T, std::size_t I> void one() { scalars<T, I>(); vectors<T, I>(); matrices<T, I>(); shapes<T, I>(); }
template <std::size_t... I> void all(std::index_sequence<I...>) { (one<double, I>(), ...); (one<float, I>(), ...); }
int main(int argc, char** argv) {
  init(argc, argv);
  all(std::make_index_sequence<16>());
  return done();
}
