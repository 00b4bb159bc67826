// C25: instances against the difference equation of their design, exactly in
// a commutative ring with unrelated coefficients, in integers and (to within
// rounding) in floating point.
#include <embedded/signal/filter.h>

#include <cmath>
#include <limits>
#include <new>

#include "vharness.h"

namespace es = embedded::signal;
namespace cm = embedded::cmath;

// Z/2^64 with coefficients scrambled so that every coefficient is an unrelated
// ring element; trivially default constructible: garbage unless initialised.
struct Ring {
  uint64_t v;
  Ring() = default;
  constexpr Ring(double d) : v(scramble(d)) {}
  static constexpr Ring raw(uint64_t x) { return Ring(x, 0); }
  static constexpr uint64_t scramble(double d) {
    return d == 0 ? 0 : d == 1 ? 1 : d == -1 ? ~uint64_t(0) : mixup(bits(d));
  }
  static constexpr uint64_t mixup(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  static uint64_t bits(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
  }

 private:
  constexpr Ring(uint64_t x, int) : v(x) {}
};
inline bool operator==(Ring a, Ring b) { return a.v == b.v; }
inline bool operator!=(Ring a, Ring b) { return a.v != b.v; }
inline bool operator<(Ring a, Ring b) { return a.v < b.v; }
inline bool operator>(Ring a, Ring b) { return a.v > b.v; }
inline bool operator<=(Ring a, Ring b) { return a.v <= b.v; }
inline bool operator>=(Ring a, Ring b) { return a.v >= b.v; }
static constexpr Ring operator+(Ring a, Ring b) { return Ring::raw(a.v + b.v); }
static constexpr Ring operator-(Ring a, Ring b) { return Ring::raw(a.v - b.v); }
static constexpr Ring operator*(Ring a, Ring b) { return Ring::raw(a.v * b.v); }
static constexpr Ring operator-(Ring a) { return Ring::raw(0 - a.v); }
static Ring& operator+=(Ring& a, Ring b) { return a = a + b; }
static Ring& operator-=(Ring& a, Ring b) { return a = a - b; }
static Ring& operator*=(Ring& a, Ring b) { return a = a * b; }

template <typename F>
struct Ops;
template <>
struct Ops<Ring> {
  typedef Ring Wide;
  static Ring input(v::Rng& g) { return Ring::raw(g.chance(1, 6) ? 0 : g.chance(1, 4) ? g.below(5) : g.next()); }
  static bool same(Ring got, Ring want, double) { return got == want; }
  static double show(Ring r) { return static_cast<double>(r.v); }
  static double mag(Ring) { return 0; }
  static uint64_t hash(Ring r) { return r.v; }
};
#define INTEGER(T)                                                                   \
  template <>                                                                        \
  struct Ops<T> {                                                                    \
    typedef T Wide;                                                                  \
    static T input(v::Rng& g) { return static_cast<T>(g.range(-3, 3)); }             \
    static bool same(T got, T want, double) { return got == want; }                  \
    static double show(T r) { return static_cast<double>(r); }                       \
    static double mag(T) { return 0; }                                               \
    static uint64_t hash(T r) { return static_cast<uint64_t>(r); }                   \
  };
INTEGER(int32_t)
INTEGER(int64_t)
#define FLOATING(T, EPS)                                                             \
  template <>                                                                        \
  struct Ops<T> {                                                                    \
    typedef long double Wide;                                                        \
    static T input(v::Rng& g) { return static_cast<T>(g.chance(1, 6) ? 0 : g.chance(1, 8) ? 1 : g.uniform(-1, 1)); } \
    static bool same(T got, Wide want, double scale) { return std::fabs(got - want) <= EPS * scale; } \
    static double show(Wide r) { return static_cast<double>(r); }                    \
    static double mag(Wide r) { return std::fabs(static_cast<double>(r)); }          \
    static uint64_t hash(T r) { uint64_t u = 0; memcpy(&u, &r, sizeof(T) < 8 ? sizeof(T) : 8); return u; } \
  };
FLOATING(float, 1.2e-7)
FLOATING(double, 2.3e-16)
FLOATING(long double, 1.1e-19)

// direct form I: the published difference equation, nothing else
template <typename W>
struct Equation {
  std::vector<W> b, a, x, y;
  double scale;  // bound on the magnitude of everything that was ever added up
  Equation() : scale(0) {}
  W step(W in, double (*mag)(W)) {
    x.push_back(in);
    size_t n = x.size() - 1;
    W s = W(0.0);
    double m = 0;
    for (size_t k = 0; k < b.size() && k <= n; ++k) {
      s += b[k] * x[n - k];
      m += mag(b[k] * x[n - k]);
    }
    for (size_t k = 1; k < a.size() && k <= n; ++k) {
      s -= a[k] * y[n - k];
      m += mag(a[k] * y[n - k]);
    }
    if (m > scale) scale = m;
    y.push_back(s);
    return s;
  }
};

template <typename F, std::size_t N>
static es::detail::zpk_value<N, N, double> make_zpk(v::Rng& g, int style) {
  double zr[N], zi[N], pr[N], pi[N];
  for (std::size_t i = 0; i < N; ++i) {
    if (style == 0) {  // small integer roots: integer coefficients
      zr[i] = static_cast<double>(g.range(-1, 1));
      pr[i] = static_cast<double>(g.range(-1, 1));
      if (N > 4 && g.chance(1, 2)) pr[i] = 0;
      zi[i] = pi[i] = 0;
    } else {
      zr[i] = g.uniform(-1, 1);
      pr[i] = g.uniform(-0.8, 0.8);
      zi[i] = pi[i] = 0;
    }
  }
  if (style == 1)
    for (std::size_t i = 0; i + 1 < N; i += 2) {
      zi[i] = g.uniform(0.1, 1); zr[i + 1] = zr[i]; zi[i + 1] = -zi[i];
      pi[i] = g.uniform(0.1, 0.5); pr[i + 1] = pr[i]; pi[i + 1] = -pi[i];
    }
  double gain = style == 0 ? (g.chance(1, 2) ? 1 : 2) : g.uniform(0.1, 2);
  return es::detail::zpk_value<N, N, double>(
      cm::vector<cm::complex<double>, N>::create([&](std::size_t i) { return cm::complex<double>(zr[i], zi[i]); }),
      cm::vector<cm::complex<double>, N>::create([&](std::size_t i) { return cm::complex<double>(pr[i], pi[i]); }), gain);
}

template <typename D, typename F, std::size_t N>
struct Form;
template <typename F, std::size_t N>
struct Form<es::poly_design<F, N>, F, N> {
  static char const* name() { return "poly"; }
  typedef typename Ops<F>::Wide W;
  static std::vector<Equation<W>> equations(es::poly_design<F, N> const& d) {
    Equation<W> e;
    auto b = d.b();
    auto a = d.a();
    for (std::size_t i = 0; i <= N; ++i) {
      e.b.push_back(static_cast<W>(b[i]));
      e.a.push_back(static_cast<W>(a[i]));
    }
    return std::vector<Equation<W>>(1, e);
  }
};
template <typename F, std::size_t N>
struct Form<es::sos_design<F, N>, F, N> {
  static char const* name() { return "sos"; }
  typedef typename Ops<F>::Wide W;
  static std::vector<Equation<W>> equations(es::sos_design<F, N> const& d) {
    std::vector<Equation<W>> es;
    for (std::size_t i = 0; i < d.size(); ++i) {
      Equation<W> e;
      auto b = d.sos()[i].b();
      auto a = d.sos()[i].a();
      for (std::size_t j = 0; j < 3; ++j) {
        e.b.push_back(static_cast<W>(b[j]));
        e.a.push_back(static_cast<W>(a[j]));
      }
      es.push_back(e);
    }
    return es;
  }
};

template <typename F, std::size_t N, typename D>
static void check(v::Rng& g, D const& d, std::size_t len) {
  typedef Form<D, F, N> Fm;
  typedef typename Ops<F>::Wide W;
  typedef decltype(d.instance()) Inst;
  std::vector<Equation<W>> eq = Fm::equations(d);
  // dirty memory: the initial state must not depend on what was there before
  alignas(64) unsigned char mem[3][sizeof(Inst) + 64];
  for (int i = 0; i < 3; ++i) memset(mem[i], static_cast<int>(g.below(256)), sizeof mem[i]);
  Inst* inst = ::new (static_cast<void*>(mem[0])) Inst(d.instance());
  Inst* twin = nullptr;
  std::vector<F> twin_in, twin_want;
  std::size_t copy_at = g.below(len), mode = g.below(3);
  uint64_t h = 0;
  std::size_t lead = g.chance(1, 3) ? g.below(4) : 0;  // leading zeros (time invariance)
  bool impulse = g.chance(1, 4);
  double scale = 0;
  for (std::size_t n = 0; n < len; ++n) {
    F x = n < lead ? F(0.0) : impulse ? (n == lead ? F(1.0) : F(0.0)) : Ops<F>::input(g);
    if (n == copy_at) {  // a copy continues from the state it was taken with
      if (mode == 0) {
        twin = ::new (static_cast<void*>(mem[1])) Inst(*inst);
      } else {
        twin = ::new (static_cast<void*>(mem[1])) Inst(d.instance());
        for (std::size_t i = 0; i < n % 7; ++i) (*twin)(Ops<F>::input(g));
        if (mode == 1) *twin = *inst;
        else { Inst tmp = *inst; *twin = static_cast<Inst&&>(tmp); }
      }
      V_COUNT("copies");
    }
    F y = (*inst)(x);
    h = v::mix(h, Ops<F>::hash(y));
    W w = static_cast<W>(x);
    for (auto& e : eq) {
      w = e.step(w, [](W q) { return Ops<F>::mag(q); });
      if (e.scale > scale) scale = e.scale;
    }
    V_COUNT("samples");
    if (!Ops<F>::same(y, w, 64.0 * (N + 2) * static_cast<double>(n + 4) * (scale + 1e-30))) {
      v::fail(Fm::name(), "order %zu, %zu byte values: output %zu is %.17g, the difference equation gives %.17g", N, sizeof(F), n, Ops<F>::show(y), Ops<F>::show(w));
      return;
    }
    if (twin) {
      F y2 = (*twin)(x);
      if (!(y2 == y) && !(Ops<F>::mag(y) != Ops<F>::mag(y))) {
        v::fail("copy", "order %zu %s: copy taken after %zu samples (mode %zu) yields %.17g, the original %.17g at sample %zu", N, Fm::name(), copy_at, mode, Ops<F>::show(y2), Ops<F>::show(y), n);
        return;
      }
    }
  }
  // the copied-from instance was not disturbed: its own outputs matched above
  v::evaluated();
  v::distinct(v::mix(h, N * 2 + (Fm::name()[0] == 'p')));
}

template <typename F, std::size_t N, bool Implicit>
struct Poly {
  template <typename Z>
  static void go(v::Rng& g, Z const& z, std::size_t len) {
    es::poly_design<F, N> d(z);
    V_CHECK(d.order() == N, "order", "order");
    check<F, N>(g, d, len);
    V_COUNT("poly_runs");
  }
};

template <typename F, std::size_t N>
static void order(char const* type, int style, int64_t cases, std::size_t len) {
  char* sec = strdup(v::fmt("%s-%d-order-%zu", type, style, N).c_str());
  v::Cases cs(sec, cases);
  while (cs.next()) {
    v::at("%s order %zu", type, N);
    v::Rng& g = cs.rng;
    auto z = make_zpk<F, N>(g, style);
    Poly<F, N, true>::go(g, z, len);
    es::sos_design<F, N> s(z, es::sos_gain::first_section);
    check<F, N>(g, s, len);
    if (style != 0) {
      es::sos_design<F, N> s2(z, es::sos_gain::distribute);
      check<F, N>(g, s2, len);
    }
    V_COUNT("sos_runs");
  }
}

template <std::size_t N>
static void all_types() {
  int64_t k = v::scale(30, 1500);
  order<Ring, N>("ring", 1, k * 2, 60 + 3 * N);
#ifndef LIGHT
  order<Ring, N>("ring", 2, k, 60 + 3 * N);
  order<int64_t, N>("int64", 0, k, N > 8 ? 12 : 20);
  if (N <= 8) order<int32_t, N>("int32", 0, k, 8);
  order<float, N>("float", 1, k, 60 + 3 * N);
  order<double, N>("double", 1, k, 60 + 3 * N);
  order<double, N>("double", 2, k, 60 + 3 * N);
  order<long double, N>("longdouble", 1, k, 60 + 3 * N);
#else
  order<double, N>("double", 1, k, 60 + 3 * N);
#endif
}

// causality, linearity, time invariance in the ring, stated directly
template <std::size_t N, typename D>
static void lti(v::Rng& g, D const& d) {
  auto i1 = d.instance(), i2 = d.instance(), i3 = d.instance(), i4 = d.instance(), i5 = d.instance();
  std::size_t len = 30 + N, shift = 1 + g.below(5), change = g.below(len);
  Ring al = Ring::raw(g.next()), be = Ring::raw(g.next());
  std::vector<Ring> y1, y4;
  for (std::size_t k = 0; k < shift; ++k) y4.push_back(i4(Ring::raw(0)));
  for (std::size_t k = 0; k < len; ++k) {
    Ring a = Ring::raw(g.next()), b = Ring::raw(g.next());
    Ring ya = i1(a), yb = i2(b), yc = i3(al * a + be * b);
    V_CHECK(yc == al * ya + be * yb, "linear", "order %zu: not linear at sample %zu", N, k);
    y1.push_back(ya);
    y4.push_back(i4(a));
    Ring z = i5(k >= change ? b : a);
    V_CHECK(k >= change || z == ya, "causal", "order %zu: output %zu depends on inputs after it", N, k);
  }
  for (std::size_t k = 0; k < len; ++k) V_CHECK(y4[k + shift] == y1[k], "time-invariant", "order %zu: a delay of %zu changes output %zu", N, shift, k);
  for (std::size_t k = 0; k < shift; ++k) V_CHECK(y4[k].v == 0, "silence", "order %zu: output before any input", N);
  V_COUNT("lti_runs");
}
template <std::size_t N>
static void lti_order() {
  char* sec = strdup(v::fmt("lti-order-%zu", N).c_str());
  v::Cases cs(sec, v::scale(20, 800));
  while (cs.next()) {
    auto z = make_zpk<Ring, N>(cs.rng, 1);
    lti<N>(cs.rng, es::poly_design<Ring, N>(z));
    lti<N>(cs.rng, es::sos_design<Ring, N>(z, es::sos_gain::first_section));
  }
}

// what is not a number does not disappear: once in, it stays in the recursion
template <typename F, std::size_t N, typename D>
static void poison(v::Rng& g, D const& d, char const* form) {
  auto i = d.instance();
  std::size_t at = g.below(20);
  F bad = g.chance(1, 2) ? std::numeric_limits<F>::quiet_NaN() : g.chance(1, 2) ? std::numeric_limits<F>::infinity() : -std::numeric_limits<F>::infinity();
  for (std::size_t n = 0; n < at + 60; ++n) {
    F y = i(n == at ? bad : static_cast<F>(g.uniform(-1, 1)));
    if (std::isfinite(y) != (n < at)) {
      v::fail("not-a-number", "order %zu %s, %zu byte values: input %zu is %g, output %zu is %g", N, form, sizeof(F), at, static_cast<double>(bad), n, static_cast<double>(y));
      return;
    }
  }
  V_COUNT("poisoned_runs");
}
// many more samples than any small counter can count, exact in the ring
template <std::size_t N, typename D>
static void long_run(v::Rng& g, D const& d, char const* form) {
  std::vector<Equation<Ring>> eq = Form<D, Ring, N>::equations(d);
  auto inst = d.instance();
  for (std::size_t n = 0; n < 70000; ++n) {
    Ring x = Ring::raw(g.chance(1, 6) ? 0 : g.next());
    Ring y = inst(x), w = x;
    for (auto& e : eq) w = e.step(w, [](Ring) { return 0.0; });
    if (!(y == w)) {
      v::fail("long-run", "order %zu %s: output %zu differs from the difference equation", N, form, n);
      return;
    }
  }
  v::evaluated();
  V_COUNT("long_runs");
}
template <std::size_t N>
static void long_order() {
  char* sec = strdup(v::fmt("long-order-%zu", N).c_str());
  v::Cases cs(sec, v::scale(1, 20));
  while (cs.next()) {
    auto z = make_zpk<Ring, N>(cs.rng, 1);
    v::at("order %zu", N);
    long_run<N>(cs.rng, es::poly_design<Ring, N>(z), "poly");
    long_run<N>(cs.rng, es::sos_design<Ring, N>(z, es::sos_gain::first_section), "sos");
  }
}

// homogeneity: scaling the input by a power of two scales every output by it,
// exactly; a signal may fall silent or be of any loudness
template <typename F> struct Range;
template <> struct Range<float> { static constexpr int up = 60, down = -40; static constexpr long double lo = 1e-20L, hi = 1e28L; static constexpr long double eps = 1.2e-7L; };
template <> struct Range<double> { static constexpr int up = 600, down = -500; static constexpr long double lo = 1e-250L, hi = 1e250L; static constexpr long double eps = 2.3e-16L; };
template <> struct Range<long double> { static constexpr int up = 8000, down = -8000; static constexpr long double lo = 1e-4000L, hi = 1e4000L; static constexpr long double eps = 1.1e-19L; };

template <typename F, std::size_t N, typename D>
static void loudness(v::Rng& g, D const& d, char const* form) {
  typedef Range<F> R;
  int k = static_cast<int>(g.chance(1, 2) ? g.range(R::down, R::up) : g.chance(1, 2) ? g.range(-20, 40) : R::up);
  auto soft = d.instance(), loud = d.instance();
  std::size_t const len = g.chance(1, 3) ? 600 : 250, win = 2 * N + 6;
  std::size_t burst = 1 + g.below(30), again = g.chance(1, 2) ? burst + g.below(len) : len;
  F tiny = std::ldexp(F(1), -static_cast<int>(g.below(g.chance(1, 2) ? 60 : 20)));
  std::vector<long double> mag;
  long double quietest = 1e300L;
  for (std::size_t n = 0; n < len; ++n) {
    F x = n < burst ? static_cast<F>(g.uniform(-1, 1)) : n >= again && n < again + 20 ? static_cast<F>(g.uniform(-1, 1)) * tiny : F(0);
    F a = soft(x), b = loud(std::ldexp(x, k));
    long double want = std::ldexp(static_cast<long double>(a), k), m = 0;
    mag.push_back(std::fabs(static_cast<long double>(a)));
    for (std::size_t i = mag.size() > win ? mag.size() - win : 0; i < mag.size(); ++i) m = std::max(m, mag[i]);
    if (n >= win && (m < R::lo || std::ldexp(m, k) < R::lo)) break;  // the type ends here
    if (m > R::hi || std::ldexp(m, k) > R::hi) break;
    if (n < win && m == 0) continue;
    if (n >= win) quietest = std::min(quietest, m);
    V_COUNT("loudness_samples");
    if (n >= win && m < 1e-12L) V_COUNT("loudness_samples_below_1e-12");
    if (std::ldexp(m, k) > 1e10L) V_COUNT("loudness_samples_above_1e10");
    if (!(std::fabs(static_cast<long double>(b) - want) <= 16 * R::eps * std::ldexp(m, k))) {
      v::fail("loudness", "order %zu %s, %zu byte values: input scaled by 2^%d: output %zu is %.17Lg, not %.17Lg", N, form, sizeof(F), k, n, static_cast<long double>(b), want);
      return;
    }
  }
  v::evaluated();
}
template <typename F, std::size_t N>
static void loudness_order(char const* type) {
  char* sec = strdup(v::fmt("loudness-%s-order-%zu", type, N).c_str());
  v::Cases cs(sec, v::scale(24, 1000));
  while (cs.next()) {
    v::at("%s order %zu", type, N);
    auto z = make_zpk<F, N>(cs.rng, 1 + static_cast<int>(cs.rng.below(2)));
    loudness<F, N>(cs.rng, es::poly_design<F, N>(z), "poly");
    loudness<F, N>(cs.rng, es::sos_design<F, N>(z, cs.rng.chance(1, 2) ? es::sos_gain::first_section : es::sos_gain::distribute), "sos");
    poison<F, N>(cs.rng, es::poly_design<F, N>(z), "poly");
    poison<F, N>(cs.rng, es::sos_design<F, N>(z, es::sos_gain::first_section), "sos");
    V_COUNT("loudness_runs");
  }
}
template <std::size_t N>
static void loud_all() {
  loudness_order<float, N>("float");
  loudness_order<double, N>("double");
#ifndef LIGHT
  loudness_order<long double, N>("longdouble");
#endif
}

int main(int argc, char** argv) {
  v::init(argc, argv);
#if PART == 0
  all_types<1>(); all_types<2>(); all_types<3>(); all_types<4>(); all_types<5>(); all_types<6>(); all_types<7>();
  loud_all<1>(); loud_all<2>(); loud_all<3>(); loud_all<4>(); loud_all<6>();
  long_order<1>(); long_order<2>(); long_order<3>(); long_order<4>(); long_order<5>();
  lti_order<1>(); lti_order<2>(); lti_order<3>(); lti_order<4>(); lti_order<5>();
#else
  all_types<8>(); all_types<9>(); all_types<10>(); all_types<11>(); all_types<13>(); all_types<16>(); all_types<20>();
  loud_all<8>(); loud_all<13>();
  long_order<8>();
  lti_order<8>(); lti_order<9>(); lti_order<16>(); lti_order<20>();
#endif
  v::require("samples", 50000);
  v::require("copies", 1000);
  v::require("lti_runs", 100);
  v::require("loudness_runs", 40);
  v::require("poisoned_runs", 80);
  v::require("long_runs", 2);
  v::require("loudness_samples", 5000);
  v::require("loudness_samples_below_1e-12", 200);
  v::require("loudness_samples_above_1e10", 200);
  v::sample("ring outputs compared exactly with the direct form recurrence");
  return v::finish();
}
