#include "vt.h"
#include <memory>
#include <iterator>
#include <vecmath/vec_io.h>
#include <vecmath/mat_io.h>
#include <vecmath/bbox_io.h>
#include <vecmath/line_io.h>
#include <vecmath/ray_io.h>
#include <vecmath/plane_io.h>
using namespace vt;
static std::string chars(std::string_view s) {
  std::string r = "["; for (std::size_t i = 0; i < s.size(); ++i) { if (i) r += ','; r += quote(std::string(1, s[i])); } return r + "]";
}
template <typename O> std::string opt(const O& o) { return o ? "[" + js(*o) + "]" : "[]"; }
/** calls f with the text as a view: whole, or inside of a longer text */
template <typename F> void view(Rng& r, const std::string& t, F&& f) {
  static const char* tails[] = {"7", ".5", "e3", "25 8", "1)", "0000", " 7 7 7 7 7 7 7", ",1 2 3", "-1"};
  static const char* heads[] = {"", "9", "-", "1 ", "4 5 6 "};
  if (r.coin(4)) { f(std::string_view(t)); return; }
  if (r.coin(3)) { std::unique_ptr<char[]> b(new char[t.size() ? t.size() : 1]); std::copy(t.begin(), t.end(), b.get()); f(std::string_view(b.get(), t.size())); return; }   // nothing behind the end
  const std::string h = heads[r.below(5)], s = h + t + tails[r.below(9)];
  f(std::string_view(s).substr(h.size(), t.size()));
}
template <typename T> void parse_(Rng& r, const std::string& t) {
  view(r, t, [&](std::string_view v) {
    Ev e("parse", P<T>::name); e.raw("t", chars(t));
    e.raw("r1", opt(vm::parse<T, 1>(v))).raw("r2", opt(vm::parse<T, 2>(v))).raw("r3", opt(vm::parse<T, 3>(v))).raw("r4", opt(vm::parse<T, 4>(v)));
    e.raw("m22", opt(vm::parse<T, 2, 2>(v))).raw("m23", opt(vm::parse<T, 2, 3>(v))).raw("m32", opt(vm::parse<T, 3, 2>(v)));
    e.raw("r5", opt(vm::parse<T, 5>(v))).raw("m11", opt(vm::parse<T, 1, 1>(v))).raw("m13", opt(vm::parse<T, 1, 3>(v))).raw("m31", opt(vm::parse<T, 3, 1>(v))).raw("m33", opt(vm::parse<T, 3, 3>(v))).raw("m44", opt(vm::parse<T, 4, 4>(v)));
  });
}
static std::string number(Rng& r) {
  std::string s; if (r.coin(3)) s += r.coin(4) ? '+' : '-';
  const int i = r.coin(20) ? r.range(6, 25) : r.below(6), f = r.coin(20) ? r.range(6, 25) : r.below(6);
  for (int k = 0; k < i; ++k) s += char('0' + r.below(10));
  if (f || r.coin(8) || !i) { s += '.'; for (int k = 0; k < (i ? f : std::max(f, 1)); ++k) s += char('0' + r.below(10)); }
  if (r.coin(4)) { s += r.coin() ? 'e' : 'E'; if (r.coin()) s += r.coin() ? '-' : '+'; s += std::to_string(r.below(r.coin(4) ? 20 : 5)); }
  if (r.coin(40)) s += "zq";   // trailing garbage
  if (r.coin(60)) s = "qz";
  return s;
}
static std::string ws(Rng& r, int most) { std::string s; static const char* c = " \t\n\r()"; for (int k = r.range(1, most); k > 0; --k) s += r.coin(3) ? ' ' : c[r.below(6)]; return s; }
template <typename T, std::size_t S> void all(Rng& r, const std::string& t) {
  view(r, t, [&](std::string_view v) {
    Ev e("all", P<T>::name); e.raw("t", chars(t)).i("n", S);
    std::vector<vm::vec<T, S>> got; vm::parse_all<T, S>(v, std::back_inserter(got)); e.k("r", got);
  });
}
/** a list of vectors: separated by blanks, commas or semicolons, maybe in parentheses, maybe with an incomplete last one */
template <typename T, std::size_t S> void lists(Rng& r) {
  std::string t; const bool par = r.coin(); const int n = r.coin(6) ? r.range(5, 14) : r.below(5); const int style = r.below(5);
  auto vec1 = [&](std::size_t k) { std::string s; if (par) s += r.coin(3) ? "( " : "("; for (std::size_t i = 0; i < k; ++i) { if (i) s += r.coin(4) ? ws(r, 2) : " "; s += number(r); } if (par) s += r.coin(3) ? " )" : ")"; return s; };
  auto sep = [&] { std::string s; static const char* c = ",; \t\n\r"; switch (style) { case 0: s = " "; break; case 1: s = ","; break; case 2: s = "; "; break; case 3: s = c[r.below(6)]; break; default: for (int k = r.range(1, 3); k > 0; --k) s += c[r.below(6)]; } return s; };
  if (r.coin(5)) t += " ";
  for (int i = 0; i < n; ++i) { if (i) t += sep(); t += vec1(S); }
  if (r.coin(5)) { if (n) t += style ? " " : sep(); if (S > 1) t += vec1(r.range(1, int(S) - 1)); }
  if (r.coin(5)) t += " ";
  all<T, S>(r, t);
}
template <typename T> T any(Rng& r) {
  switch (r.below(6)) { case 0: return T(r.range(-3, 3)); case 1: return T(r.real(-1, 1) * std::pow(10.0, r.range(-30, 30))); case 2: return T(r.range(-1000000, 1000000)) / T(1000); case 3: return T(r.range(99990, 1000010)); default: return T(r.real(-100, 100)); }
}
template <typename T> std::string text(const T& x, int digits) { std::ostringstream o; if (digits) o.precision(digits); o << x; return o.str(); }
template <typename T, std::size_t S> void write_(Rng& r, int digits) {
  vm::vec<T, S> v; for (std::size_t i = 0; i < S; ++i) v[i] = any<T>(r);
  Ev e("write", P<T>::name); e.k("v", v).i("digits", digits ? digits : 6).i("full", std::numeric_limits<T>::max_digits10);
  std::string l = "["; for (std::size_t i = 0; i < S; ++i) { if (i) l += ','; l += quote(text(v[i], digits)); } e.raw("ct", l + "]");
  const std::string t = text(v, digits); e.str("vt", t).raw("back", opt(vm::parse<T, S>(t)));
}
template <typename T, std::size_t R, std::size_t C> void writeMat(Rng& r, int digits) {
  vm::mat<T, R, C> m; for (std::size_t c = 0; c < C; ++c) for (std::size_t k = 0; k < R; ++k) m[c][k] = any<T>(r);
  Ev e("writeMat", P<T>::name); e.k("m", m).i("digits", digits ? digits : 6).i("full", std::numeric_limits<T>::max_digits10);
  std::string l = "["; for (std::size_t k = 0; k < R; ++k) for (std::size_t c = 0; c < C; ++c) { if (c + k) l += ','; l += quote(text(m[c][k], digits)); } e.raw("ct", l + "]");
  const std::string t = text(m, digits); e.str("mt", t).raw("back", opt(vm::parse<T, R, C>(t)));
}
template <typename T, std::size_t S> void shapes(Rng& r, int digits) {
  vm::vec<T, S> a, b; for (std::size_t i = 0; i < S; ++i) { a[i] = any<T>(r); b[i] = any<T>(r); }
  const T d = any<T>(r);
  Ev e("shapes", P<T>::name); e.str("a", text(a, digits)).str("b", text(b, digits)).str("s", text(d, digits));
  vm::bbox<T, S> box; box.min = a; box.max = b;
  e.str("box", text(box, digits)).str("line", text(vm::line<T, S>(a, b), digits)).str("ray", text(vm::ray<T, S>(a, b), digits)).str("plane", text(vm::plane<T, S>(d, a), digits));
}
int main(int argc, char** argv) {
  auto c = init(argc, argv); Rng& r = c.r;
  static const char alphabet[] = "10.-e (";
  std::ifstream f(c.beh);
  for (int k; f >> k;) { std::string t; for (int i = 0, x; i < k; ++i) { f >> x; t += alphabet[x - 1]; } if (r.coin()) parse_<double>(r, t); else parse_<float>(r, t); }
  for (long i = 0; i < c.n; ++i) {
    std::string t; if (r.coin()) t += ws(r, 3); for (int k = r.coin(5) ? r.range(8, 18) : r.below(8); k > 0; --k) { t += number(r); t += ws(r, 3); } if (r.coin() && !t.empty()) t.pop_back();
    if (r.coin()) parse_<double>(r, t); else parse_<float>(r, t);
    switch (r.below(6)) { case 4: lists<double, 1>(r); break; case 5: lists<double, 5>(r); break; case 0: lists<double, 3>(r); break; case 1: lists<float, 3>(r); break; case 2: lists<double, 2>(r); break; default: lists<float, 4>(r); }
    static const int ds[] = {0, 0, 9, 17, 3}; const int d = ds[r.below(5)];
    switch (r.below(6)) { case 4: write_<float, 1>(r, d); break; case 5: write_<double, 6>(r, d); break; case 0: write_<double, 3>(r, d); break; case 1: write_<float, 3>(r, d); break; case 2: write_<float, 2>(r, d); break; default: write_<double, 4>(r, d); }
    switch (r.below(8)) { case 0: writeMat<double, 4, 4>(r, d); break; case 1: writeMat<float, 3, 3>(r, d); break; case 2: writeMat<double, 2, 3>(r, d); break; case 3: writeMat<float, 3, 2>(r, d); break; case 4: writeMat<double, 1, 3>(r, d); break; case 5: writeMat<double, 3, 1>(r, d); break; case 6: writeMat<double, 1, 1>(r, d); break; default:; }
    if (r.coin(4)) { switch (r.below(4)) { case 0: shapes<double, 3>(r, d); break; case 1: shapes<float, 3>(r, d); break; case 2: shapes<double, 2>(r, d); break; default: shapes<float, 4>(r, d); } }
  }
  return done();
}
