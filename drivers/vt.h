// Recording of calls on the real library as specification events.
//
// One event is one JSON line: numbers of the modelled domain are written exactly ("#<hex float>"
// or "#<integer>"), vectors as arrays, matrices as arrays of rows. Arguments are logged before the
// call is made and results after it, so that a call which crashes, aborts or does not return is
// reported with its arguments (exit status 77, partial event on stderr).
#pragma once
#include <algorithm>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <cmath>
#include <random>
#include <sstream>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <vector>

#include <vecmath/forward.h>
#include <vecmath/vec.h>
#include <vecmath/vec_ext.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/bbox.h>

namespace vt {

inline std::string num(double d) {
  if (std::isnan(d)) return "\"#nan\"";
  if (std::isinf(d)) return d > 0 ? "\"#inf\"" : "\"#-inf\"";
  char b[64];
  if (d == std::floor(d) && std::fabs(d) < 1e9) std::snprintf(b, sizeof b, "\"#%lld\"", (long long)d);
  else std::snprintf(b, sizeof b, "\"#%a\"", d);
  return b;
}

template <typename T> struct P { static constexpr const char* name = "i"; };
template <> struct P<float> { static constexpr const char* name = "f"; };
template <> struct P<double> { static constexpr const char* name = "d"; };

template <typename T> std::string js(const T& x);
template <typename T, std::size_t S> std::string jv(const vm::vec<T, S>& v) {
  std::string r = "[";
  for (std::size_t i = 0; i < S; ++i) { if (i) r += ','; r += js(v[i]); }
  return r + "]";
}
template <typename T> struct J {
  static std::string f(const T& x) {
    static_assert(std::is_arithmetic<T>::value, "no JSON form");
    return num(static_cast<double>(x));
  }
};
template <> struct J<std::int64_t> {
  static std::string f(const std::int64_t& x) { return "\"#" + std::to_string(x) + "\""; }
};
template <> struct J<bool> { static std::string f(const bool& x) { return x ? "true" : "false"; } };
template <typename T, std::size_t S> struct J<vm::vec<T, S>> {
  static std::string f(const vm::vec<T, S>& v) { return jv(v); }
};
template <typename T> struct J<std::vector<T>> {
  static std::string f(const std::vector<T>& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += js(T(v[i])); }
    return r + "]";
  }
};
template <typename T, std::size_t N> struct J<std::array<T, N>> {
  static std::string f(const std::array<T, N>& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < N; ++i) { if (i) r += ','; r += js(T(v[i])); }
    return r + "]";
  }
};
template <typename T, std::size_t R, std::size_t C> struct J<vm::mat<T, R, C>> {
  static std::string f(const vm::mat<T, R, C>& m) {
    std::string s = "[";
    for (std::size_t r = 0; r < R; ++r) {
      s += r ? ",[" : "[";
      for (std::size_t c = 0; c < C; ++c) { if (c) s += ','; s += js(m.v[c][r]); }
      s += "]";
    }
    return s + "]";
  }
};
template <typename T, std::size_t S> struct J<vm::bbox<T, S>> {
  static std::string f(const vm::bbox<T, S>& b) { return "{\"min\":" + js(b.min) + ",\"max\":" + js(b.max) + "}"; }
};
template <typename T> std::string js(const T& x) { return J<T>::f(x); }

inline std::string quote(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\r') r += "\\r";
    else r += c;
  }
  return r + "\"";
}

struct Out {
  FILE* f = nullptr;
  long count = 0;
};
inline Out& out() { static Out o; return o; }
inline std::string*& current() { static std::string* p = nullptr; return p; }

inline void on_signal(int sig) {
  const char* n = sig == SIGALRM ? "hang" : "crash";
  char b[64];
  int l = std::snprintf(b, sizeof b, "\nDRIVER-%s signal=%d event=", n, sig);
  if (write(2, b, l)) {}
  if (current() && write(2, current()->data(), current()->size())) {}
  if (write(2, "\n", 1)) {}
  if (out().f) fflush(out().f);
  _exit(77);
}

class Ev {
  std::string s;
  bool inHist;
public:
  explicit Ev(const char* op, const char* p = nullptr, bool hist = false) : inHist(hist) {
    s.reserve(256);
    s = "{\"op\":\""; s += op; s += '"';
    if (p) { s += ",\"p\":\""; s += p; s += '"'; }
    current() = &s;
    alarm(20);
  }
  template <typename T> Ev& k(const char* key, const T& v) { return raw(key, js(v)); }
  template <typename T> Ev& i(const char* key, T v) {   // clipped to the integers of the checker
    return raw(key, std::to_string(std::max(-1000000000L, std::min(1000000000L, static_cast<long>(v))))); }
  Ev& b(const char* key, bool v) { return raw(key, v ? "true" : "false"); }
  Ev& str(const char* key, const std::string& v) { return raw(key, quote(v)); }
  Ev& raw(const char* key, const std::string& v) {
    s += ",\""; s += key; s += "\":"; s += v;
    return *this;
  }
  const std::string& text() const { return s; }
  ~Ev() {
    current() = nullptr;
    alarm(0);
    s += '}';
    if (!inHist) { s += '\n'; fwrite(s.data(), 1, s.size(), out().f); out().count++; }
    else { hist().push_back(s); }
  }
  static std::vector<std::string>& hist() { static std::vector<std::string> h; return h; }
  static void flush_hist() {
    std::string l = "[";
    for (std::size_t i = 0; i < hist().size(); ++i) { if (i) l += ','; l += hist()[i]; }
    l += "]\n";
    fwrite(l.data(), 1, l.size(), out().f);
    out().count++;
    hist().clear();
  }
};

// ------------------------------------------------------------------------------- input generators
struct Rng {
  std::mt19937_64 g;
  explicit Rng(std::uint64_t s) : g(s) {}
  std::uint64_t u() { return g(); }
  int below(int n) { return int(g() % std::uint64_t(n)); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool coin(int n = 2) { return below(n) == 0; }
  double unit() { return double(g() >> 11) * 0x1p-53; }
  double real(double a, double b) { return a + (b - a) * unit(); }
  double sgn() { return coin() ? 1.0 : -1.0; }
};

/** A number of one of several shapes: small integers (ties), halves, reals, and wide magnitudes. */
template <typename T> T scalar(Rng& r, double m = 100.0) {
  if (!std::is_integral<T>::value && r.coin(10)) return T(r.real(-1, 1) * m * std::pow(10.0, r.range(-7, 4)));
  switch (r.below(8)) {
    case 0: case 1: return T(r.range(-3, 3));
    case 2: return T(r.range(-int(m), int(m)));
    case 3: return T(r.range(-2 * int(m), 2 * int(m))) / T(std::is_integral<T>::value ? 1 : 2);
    case 4: return T(r.real(-1, 1));
    case 5: return T(r.real(-1, 1) * std::pow(10.0, r.range(-3, 2)));
    default: return T(r.real(-m, m));
  }
}
template <typename T, std::size_t S> vm::vec<T, S> vec(Rng& r, double m = 100.0) {
  vm::vec<T, S> v;
  if (!std::is_integral<T>::value && r.coin(5)) {
    const double k = m * std::pow(10.0, r.range(-6, 3)); const int one = r.below(int(S)), kind = r.below(4);
    for (std::size_t i = 0; i < S; ++i) {
      switch (kind) {
        case 0: v[i] = int(i) == one ? T(r.real(-k, k)) : T(0); break;             // parallel to an axis
        case 1: v[i] = i ? T(r.sgn()) * v[0] : T(r.real(-k, k)); break;           // components of equal magnitude
        default: v[i] = T(r.real(-k, k));                                          // large or small as a whole
      }
    }
    return v;
  }
  if (r.coin(3)) { for (std::size_t i = 0; i < S; ++i) v[i] = T(r.range(-4, 4)); }
  else { for (std::size_t i = 0; i < S; ++i) v[i] = scalar<T>(r, m); }
  return v;
}
template <typename T, std::size_t S> vm::vec<T, S> ivec(Rng& r, int m) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) v[i] = T(r.range(-m, m));
  return v;
}
/** A direction of unit length (up to rounding), with a bias towards axis parallel ones. */
template <typename T, std::size_t S> vm::vec<T, S> dir(Rng& r) {
  double w[S]; double l;
  if (r.coin(4)) {
    int k = r.below(int(S));
    for (std::size_t i = 0; i < S; ++i) w[i] = int(i) == k ? r.sgn() : 0.0;
    l = 1;
    if (r.coin(4)) {   // almost parallel to an axis
      const double e = std::pow(10.0, -r.range(1, std::is_same<T, float>::value ? 4 : 9)); l = 0;
      for (std::size_t i = 0; i < S; ++i) { if (int(i) != k && r.coin()) w[i] = e * r.real(-1, 1); l += w[i] * w[i]; }
      l = std::sqrt(l);
    }
  } else {
    do {
      l = 0;
      const bool lat = r.coin(3);
      for (std::size_t i = 0; i < S; ++i) { w[i] = lat ? r.range(-3, 3) : r.real(-1, 1); l += w[i] * w[i]; }
    } while (l < 1e-3);
    l = std::sqrt(l);
  }
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) v[i] = T(w[i] / l);
  return v;
}

struct Ctx {
  Rng r{1};
  long n = 1000;       // size of the random part
  bool thorough = false;
  std::string beh;     // file of behaviours generated from the specification
};

inline Ctx init(int argc, char** argv) {
  Ctx c;
  if (argc < 4) { std::fprintf(stderr, "usage: driver OUT SEED N [thorough] [beh=FILE]\n"); std::exit(2); }
  out().f = std::fopen(argv[1], "w");
  if (!out().f) { std::perror(argv[1]); std::exit(2); }
  static char buf[1 << 20];
  setvbuf(out().f, buf, _IOFBF, sizeof buf);
  c.r = Rng(std::strtoull(argv[2], nullptr, 10) * 0x9E3779B97F4A7C15ull + 12345);
  c.n = std::atol(argv[3]);
  for (int i = 4; i < argc; ++i) {
    if (!std::strcmp(argv[i], "thorough")) c.thorough = true;
    if (!std::strncmp(argv[i], "beh=", 4)) c.beh = argv[i] + 4;
  }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) std::signal(s, on_signal);
  return c;
}
inline int done() { std::fclose(out().f); std::printf("events %ld\n", out().count); return 0; }

// an epsilon, often zero or small
template <typename T> T someeps(Rng& r) { return r.coin(6) ? T(0) : r.coin(3) ? T(0.125) : r.coin() ? T(std::ldexp(1.0, -r.range(1, 24))) : T(std::pow(10.0, r.real(-8, -0.3))); }
// a difference of about that epsilon
template <typename T> T abouteps(Rng& r, T eps) { const T u = eps == T(0) ? T(std::ldexp(1.0, -r.range(2, 30))) : eps; return u * T(r.range(-5, 5)) / T(4); }

} // namespace vt
