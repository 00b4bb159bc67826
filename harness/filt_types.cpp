// C28: value types and design types.
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>

#include <limits>

#include "filt_oracle.h"
#include "vharness.h"

namespace es = embedded::signal;

// Fixed point with rounding products and exact sums.  Explicit: like most fixed
// point classes only explicitly constructible (sections); Implicit: also usable
// for polynomial form.  Conversions and products are counted: filtering must
// happen in this type alone.
static unsigned long long conversions, products;
static bool filtering;
template <int Frac, bool Imp>
struct Fixed {
  int64_t raw;
  Fixed() = default;
  template <bool I = Imp, typename std::enable_if<I, int>::type = 0>
  Fixed(double d) : raw(conv(d)) {}
  template <bool I = Imp, typename std::enable_if<!I, int>::type = 0, typename = void>
  explicit Fixed(double d) : raw(conv(d)) {}
  explicit Fixed(int i) : raw(static_cast<int64_t>(i) * (int64_t(1) << Frac)) {}
  static int64_t conv(double d) {
    if (filtering) ++conversions;
    return static_cast<int64_t>(std::llround(std::ldexp(d, Frac)));
  }
  static Fixed from_raw(int64_t r) {
    Fixed f;
    f.raw = r;
    return f;
  }
  friend Fixed operator+(Fixed a, Fixed b) { return from_raw(a.raw + b.raw); }
  friend Fixed operator-(Fixed a, Fixed b) { return from_raw(a.raw - b.raw); }
  friend Fixed operator-(Fixed a) { return from_raw(-a.raw); }
  friend Fixed operator*(Fixed a, Fixed b) {
    ++products;
    __int128 p = static_cast<__int128>(a.raw) * b.raw;
    return from_raw(static_cast<int64_t>((p + (static_cast<__int128>(1) << (Frac - 1))) >> Frac));
  }
  Fixed& operator+=(Fixed b) { return *this = *this + b; }
  Fixed& operator-=(Fixed b) { return *this = *this - b; }
  Fixed& operator*=(Fixed b) { return *this = *this * b; }
  friend bool operator==(Fixed a, Fixed b) { return a.raw == b.raw; }
  friend bool operator!=(Fixed a, Fixed b) { return a.raw != b.raw; }
  friend bool operator<(Fixed a, Fixed b) { return a.raw < b.raw; }
  friend bool operator>(Fixed a, Fixed b) { return a.raw > b.raw; }
  friend bool operator<=(Fixed a, Fixed b) { return a.raw <= b.raw; }
  friend bool operator>=(Fixed a, Fixed b) { return a.raw >= b.raw; }
};

template <typename F>
struct Cast {
  static bool same(F got, long double want) {
    F w = static_cast<F>(want);
    return got == w || std::fabs(static_cast<long double>(got) - static_cast<long double>(w)) <= std::numeric_limits<F>::epsilon() * std::fabs(static_cast<long double>(w));
  }
  static long double show(F v) { return v; }
};
template <int Frac, bool Imp>
struct Cast<Fixed<Frac, Imp>> {
  static bool same(Fixed<Frac, Imp> got, long double want) { return std::llabs(got.raw - Fixed<Frac, Imp>(static_cast<double>(want)).raw) <= 0; }
  static long double show(Fixed<Frac, Imp> v) { return std::ldexp(static_cast<long double>(v.raw), -Frac); }
};

template <typename F, typename D>
static void coefs_sos(D const& des, char const* type) {
  for (int m = 0; m < 2; ++m) {
    auto mode = m ? es::sos_gain::distribute : es::sos_gain::first_section;
    auto d = des.template sos<double>(mode);
    auto f = des.template sos<F>(mode);
    V_CHECK(d.size() == f.size(), "sections", "%s: section counts differ", type);
    for (std::size_t i = 0; i < f.size(); ++i)
      for (std::size_t j = 0; j < 3; ++j) {
        auto fb = f.sos()[i].b()[j];
        auto fa = f.sos()[i].a()[j];
        V_CHECK(Cast<F>::same(fb, d.sos()[i].b()[j]), "converted", "%s section %zu b%zu is %.17Lg, the design's is %.17g: %s", type, i, j, Cast<F>::show(fb), d.sos()[i].b()[j], v::st().where);
        V_CHECK(Cast<F>::same(fa, d.sos()[i].a()[j]), "converted", "%s section %zu a%zu is %.17Lg, the design's is %.17g: %s", type, i, j, Cast<F>::show(fa), d.sos()[i].a()[j], v::st().where);
        V_COUNT("coefficients");
      }
  }
}
template <typename F, typename D>
static void coefs_poly(D const& des, std::size_t n, char const* type) {
  auto d = des.template poly<double>();
  auto f = des.template poly<F>();
  for (std::size_t i = 0; i <= n; ++i) {
    auto fb = f.b()[i];
    auto fa = f.a()[i];
    V_CHECK(Cast<F>::same(fb, d.b()[i]), "converted", "%s poly b%zu is %.17Lg, the design's is %.17g: %s", type, i, Cast<F>::show(fb), d.b()[i], v::st().where);
    V_CHECK(Cast<F>::same(fa, d.a()[i]), "converted", "%s poly a%zu is %.17Lg, the design's is %.17g: %s", type, i, Cast<F>::show(fa), d.a()[i], v::st().where);
    V_COUNT("coefficients");
  }
}

// exact: sums of rounded products do not depend on the structure
template <typename Fx>
struct Recur {
  std::vector<Fx> b, a, x, y;
  Fx step(Fx in) {
    x.push_back(in);
    std::size_t n = x.size() - 1;
    Fx s = Fx::from_raw(0);
    for (std::size_t k = 0; k < b.size() && k <= n; ++k) s = s + b[k] * x[n - k];
    for (std::size_t k = 1; k < a.size() && k <= n; ++k) s = s - a[k] * y[n - k];
    y.push_back(s);
    return s;
  }
};
template <typename Fx, typename D>
static void run_fixed(v::Rng& g, D const& d, std::vector<Recur<Fx>> eq, char const* type) {
  auto inst = d.instance();
  for (int n = 0; n < 60; ++n) {
    Fx x = Fx::from_raw(g.range(-(1 << 20), 1 << 20));
    unsigned long long c0 = conversions, p0 = products;
    filtering = true;
    Fx y = inst(x);
    filtering = false;
    V_CHECK(conversions == c0, "left-the-type", "%s: %llu conversions from double while filtering: %s", type, conversions - c0, v::st().where);
    V_CHECK(products > p0, "left-the-type", "%s: no product was computed in the value type", type);
    Fx w = x;
    for (auto& e : eq) w = e.step(w);
    if (!(w == y)) {
      v::fail("fixed-output", "%s: output %d is raw %lld, its coefficients give raw %lld: %s", type, n, static_cast<long long>(y.raw), static_cast<long long>(w.raw), v::st().where);
      return;
    }
    V_COUNT("fixed_samples");
  }
}
template <typename Fx, typename D>
static void fixed_sos(v::Rng& g, D const& des, char const* type) {
  coefs_sos<Fx>(des, type);
  auto f = des.template sos<Fx>(es::sos_gain::distribute);
  std::vector<Recur<Fx>> eq;
  for (std::size_t i = 0; i < f.size(); ++i) {
    Recur<Fx> e;
    for (std::size_t j = 0; j < 3; ++j) {
      e.b.push_back(f.sos()[i].b()[j]);
      e.a.push_back(f.sos()[i].a()[j]);
    }
    eq.push_back(e);
  }
  run_fixed<Fx>(g, f, eq, type);
}
template <typename Fx, typename D>
static void fixed_poly(v::Rng& g, D const& des, std::size_t n, char const* type) {
  coefs_poly<Fx>(des, n, type);
  auto f = des.template poly<Fx>();
  Recur<Fx> e;
  for (std::size_t j = 0; j <= n; ++j) {
    e.b.push_back(f.b()[j]);
    e.a.push_back(f.a()[j]);
  }
  run_fixed<Fx>(g, f, std::vector<Recur<Fx>>(1, e), type);
}

// A user type wider than any built-in one (double double would be an example):
// nothing of a long double design may be lost on the way into it.
struct Wide {
  __float128 v;
  Wide() = default;
  Wide(long double x) : v(x) {}
  friend Wide operator+(Wide a, Wide b) { return from(a.v + b.v); }
  friend Wide operator-(Wide a, Wide b) { return from(a.v - b.v); }
  friend bool operator==(Wide a, Wide b) { return a.v == b.v; }
  friend bool operator!=(Wide a, Wide b) { return a.v != b.v; }
  friend bool operator<(Wide a, Wide b) { return a.v < b.v; }
  friend bool operator>(Wide a, Wide b) { return a.v > b.v; }
  friend bool operator<=(Wide a, Wide b) { return a.v <= b.v; }
  friend bool operator>=(Wide a, Wide b) { return a.v >= b.v; }
  friend Wide operator-(Wide a) { return from(-a.v); }
  friend Wide operator*(Wide a, Wide b) { ++products; return from(a.v * b.v); }
  Wide& operator+=(Wide b) { return *this = *this + b; }
  Wide& operator-=(Wide b) { return *this = *this - b; }
  Wide& operator*=(Wide b) { return *this = *this * b; }
  static Wide from(__float128 x) {
    Wide w;
    w.v = x;
    return w;
  }
};
struct WideRec {
  __float128 x1 = 0, x2 = 0, y1 = 0, y2 = 0;
  __float128 step(__float128 b0, __float128 b1, __float128 b2, __float128 a1, __float128 a2, __float128 x) {
    __float128 y = b0 * x + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2;
    x2 = x1; x1 = x; y2 = y1; y1 = y;
    return y;
  }
};
template <std::size_t N, typename Pr>
static void wide(v::Rng& g, Pr const& pr, char const* name) {
  long double ratio = static_cast<long double>(g.uniform(0.05, 0.42));
  bool high = g.chance(1, 2);
  v::at("long double design into a wider type, %s order %zu %s pass fc/fs=%.21Lg", name, N, high ? "high" : "low", ratio);
  es::iirfilter<long double> f(1.0L);
  auto d = high ? f.highpass(pr, ratio) : f.lowpass(pr, ratio);
  std::size_t fraction = 0;  // coefficients that need more than double precision
#define WIDE_SAME(W, X, WHAT)                                                                     \
  {                                                                                               \
    long double want = X;                                                                         \
    V_CHECK((W).v == static_cast<__float128>(want), "converted", "%s became %.25Lg, the design's is %.25Lg: %s", WHAT, static_cast<long double>((W).v), want, v::st().where); \
    fraction += static_cast<long double>(static_cast<double>(want)) != want;                      \
    V_COUNT("wide_coefficients");                                                                 \
  }
  for (int m = 0; m < 2; ++m) {
    auto mode = m ? es::sos_gain::distribute : es::sos_gain::first_section;
    auto l = d.template sos<long double>(mode);
    auto w = d.template sos<Wide>(mode);
    for (std::size_t i = 0; i < l.size(); ++i)
      for (std::size_t j = 0; j < 3; ++j) {
        WIDE_SAME(w.sos()[i].b()[j], l.sos()[i].b()[j], "b")
        WIDE_SAME(w.sos()[i].a()[j], l.sos()[i].a()[j], "a")
      }
    if (m == 0) {
      auto inst = w.instance();
      WideRec rec[(N + 1) / 2];
      for (int n = 0; n < 40; ++n) {
        __float128 x = static_cast<long double>(g.uniform(-1, 1)), y = x, peak = 0;
        x += static_cast<__float128>(g.uniform(-1, 1)) / 1e25;
        y = x;
        for (std::size_t i = 0; i < l.size(); ++i) {
          auto b = l.sos()[i].b();
          auto a = l.sos()[i].a();
          y = rec[i].step(b[0], b[1], b[2], a[1], a[2], y);
          peak = std::max(peak, y < 0 ? -y : y);
        }
        __float128 got = inst(Wide::from(x)).v, e = got - y;
        if (e < 0) e = -e;
        V_CHECK(e <= 1e-30L * (peak + 1), "narrowed", "filtering in a type wider than long double is off by %.3Lg: %s", static_cast<long double>(e), v::st().where);
        V_COUNT("wide_samples");
      }
    }
  }
  auto l = d.template poly<long double>();
  auto w = d.template poly<Wide>();
  for (std::size_t i = 0; i <= N; ++i) {
    WIDE_SAME(w.b()[i], l.b()[i], "b")
    WIDE_SAME(w.a()[i], l.a()[i], "a")
  }
  if (fraction) V_COUNT("designs_using_more_than_double");
  v::evaluated();
}

template <std::size_t N, typename Pr>
static void values(v::Rng& g, Pr const& pr, char const* name) {
  double ratio = g.uniform(0.05, 0.42);
  bool high = g.chance(1, 2);
  v::at("%s order %zu %s pass fc/fs=%.17g", name, N, high ? "high" : "low", ratio);
  es::iirfilter<double> f(1.0);
  auto d = high ? f.highpass(pr, ratio) : f.lowpass(pr, ratio);
  coefs_sos<float>(d, "float");
  coefs_poly<float>(d, N, "float");
  coefs_sos<long double>(d, "long double");
  coefs_poly<long double>(d, N, "long double");
  fixed_sos<Fixed<16, false>>(g, d, "Q16 explicit");
  fixed_sos<Fixed<24, true>>(g, d, "Q24 implicit");
  if (N <= 6) fixed_poly<Fixed<24, true>>(g, d, N, "Q24 implicit");
  v::evaluated();
  v::distinct(v::mix(v::hash_str(name) + N * 2 + high, v::hash_bytes(&ratio, 8)));
}

// long double is never narrowed: filtering in long double is more precise than
// double, in float it is not double
template <std::size_t N>
static void precision(v::Rng& g) {
  double ratio = g.uniform(0.05, 0.42);
  es::iirfilter<long double> f(1.0L);
  auto d = f.lowpass(es::butterworth<N>(), static_cast<long double>(ratio));
  auto s = d.template sos<long double>();
  auto i = s.instance();
  std::vector<Recur<Fixed<16, false>>> unused;
  // cascade in long double
  struct Sec3 { L b[3], a[3], x1 = 0, x2 = 0, y1 = 0, y2 = 0; };
  std::vector<Sec3> c(s.size());
  for (std::size_t k = 0; k < s.size(); ++k)
    for (std::size_t j = 0; j < 3; ++j) { c[k].b[j] = s.sos()[k].b()[j]; c[k].a[j] = s.sos()[k].a()[j]; }
  L peak = 0;
  for (int n = 0; n < 50; ++n) {
    L x = g.uniform(-1, 1), w = x;
    for (auto& q : c) {
      L y = q.b[0] * w + q.b[1] * q.x1 + q.b[2] * q.x2 - q.a[1] * q.y1 - q.a[2] * q.y2;
      q.x2 = q.x1; q.x1 = w; q.y2 = q.y1; q.y1 = y;
      w = y;
      peak = std::max(peak, std::abs(w));
    }
    L y = i(x);
    V_CHECK(std::abs(y - w) <= 2e-17L * N * (peak + 1e-6L) * 3, "narrowed", "long double filtering of order %zu is off by %.3Lg at sample %d (peak %.3Lg)", N, std::abs(y - w), n, peak);
    V_COUNT("long_double_samples");
  }
}

// what a section instance remembers is of the value type too (where it shows)
template <typename F, typename I>
static auto remembers(I const& i, int) -> decltype(i.state()[0].y1, i.state()[0].y2, void()) {
  typedef typename std::decay<decltype(i.state()[0].y1)>::type A;
  typedef typename std::decay<decltype(i.state()[0].y2)>::type B;
  V_CHECK((std::is_same<A, F>::value && std::is_same<B, F>::value), "state-type", "an instance of %zu byte values keeps its state in %zu and %zu byte values of another type", sizeof(F), sizeof(A), sizeof(B));
  V_COUNT("state_types");
}
template <typename F, typename I>
static void remembers(I const&, long) {}
template <typename F>
static void state_type() {
  es::iirfilter<double> f(1000);
  auto s = f.lowpass(es::butterworth<5>(), 100).template sos<F>();
  remembers<F>(s.instance(), 0);
}

static L worst[3] = {0, 0, 0};
// designs computed in DT against the oracle, to the precision of DT
template <typename DT, int Fam, std::size_t N, typename Pr>
static void design_type(v::Rng& g, Pr const& pr, L ripple, char const* type, L eps) {
  bool high = g.chance(1, 2);
  DT fs = static_cast<DT>(g.chance(1, 2) ? 1.0 : g.uniform(10, 100000));
  DT fc = fs * static_cast<DT>(g.uniform(0.04, 0.44));
  v::at("design type %s family %d order %zu %s fc/fs=%.21Lg", type, Fam, N, high ? "high" : "low", static_cast<L>(fc) / static_cast<L>(fs));
  es::iirfilter<DT> f(fs);
  auto d = high ? f.highpass(pr, fc) : f.lowpass(pr, fc);
  auto s = d.template sos<long double>();
  std::vector<Sec> sec;
  for (std::size_t i = 0; i < s.size(); ++i) {
    auto b = s.sos()[i].b();
    auto a = s.sos()[i].a();
    sec.push_back(Sec{{b[0], b[1], b[2], a[0], a[1], a[2]}});
  }
  L c = static_cast<L>(fc) / static_cast<L>(fs), unit = (N + 4) * 8 * eps;
  for (int k = 0; k < 16; ++k) {
    L x = k == 0 ? 0 : k == 1 ? 0.5L : k == 2 ? c : k < 9 ? std::min(0.5L, c * std::exp(L(g.uniform(-0.3, 0.3)))) : L(g.uniform(0, 0.5));
    C want = oracle(Fam, N, high, ripple, c, x), w2 = oracle(Fam, N, high, ripple, c * (1 + 4 * eps), x);
    Meas got = measure(sec, x, unit);
    // uncertainty of the ripple parameter
    C w3 = Fam == CHEB1 || Fam == CHEB2 ? oracle(Fam, N, high, ripple * (1 + 16 * eps), c, x) : want;
    L tol = 0.2L * (got.bound + 8 * std::abs(w2 - want) + 8 * std::abs(w3 - want) + 20 * N * eps * std::abs(want)) + 2e-19L * N;
    if (!(tol < 5e-2L * (1 + std::abs(want)))) { V_COUNT("ill_conditioned"); continue; }
    V_CHECK(std::abs(got.h - want) <= tol, "design-type", "response at %.6Lg of fs is (%.20Lg,%.20Lg), ideal (%.20Lg,%.20Lg), error %.3Lg > %.3Lg: %s", x, got.h.real(), got.h.imag(), want.real(), want.imag(), std::abs(got.h - want), tol, v::st().where);
    if (tol > 0) worst[eps < 1e-17L ? 2 : eps < 1e-12L ? 1 : 0] = std::max(worst[eps < 1e-17L ? 2 : eps < 1e-12L ? 1 : 0], std::abs(got.h - want) / tol);
    V_COUNT("design_points");
    if (eps < 1e-17L && tol < 2e-16L) V_COUNT("beyond_double_points");
  }
  v::evaluated();
  v::distinct(v::mix(v::hash_str(type) + N * 8 + Fam, v::hash_bytes(&c, 8)));
}

template <std::size_t N>
static void order() {
  {
    char* sec = strdup(v::fmt("values-%zu", N).c_str());
    v::Cases cs(sec, v::scale(12, 500));
    while (cs.next()) {
      v::Rng& g = cs.rng;
      values<N>(g, es::butterworth<N>(), "butterworth");
      values<N>(g, es::chebyshev1<N>(g.uniform(0.1, 3)), "chebyshev1");
      values<N>(g, es::chebyshev2<N>(g.uniform(20, 60)), "chebyshev2");
      values<N>(g, es::bessel<N>(), "bessel");
      precision<N>(g);
      wide<N>(g, es::butterworth<N>(), "butterworth");
      wide<N>(g, es::chebyshev1<N, long double>(g.uniform(0.1, 3)), "chebyshev1");
      wide<N>(g, es::chebyshev2<N, long double>(g.uniform(20, 60)), "chebyshev2");
    }
  }
  {
    char* sec = strdup(v::fmt("design-types-%zu", N).c_str());
    v::Cases cs(sec, v::scale(40, 1500));
    while (cs.next()) {
      v::Rng& g = cs.rng;
      const L ef = 1.2e-7L, ed = 2.3e-16L, el = 1.5e-19L;
      float rf = static_cast<float>(g.uniform(0.2, 3)), sf = static_cast<float>(g.uniform(20, 60));
      design_type<float, BUTTER, N>(g, es::butterworth<N>(), 0, "float", ef);
      design_type<float, CHEB1, N>(g, es::chebyshev1<N, float>(rf), rf, "float (float ripple)", ef);
      design_type<float, CHEB1, N>(g, es::chebyshev1<N>(rf), rf, "float", ef);
      design_type<float, CHEB2, N>(g, es::chebyshev2<N, float>(sf), sf, "float (float ripple)", ef);
      design_type<float, CHEB2, N>(g, es::chebyshev2<N>(sf), sf, "float", ef);
      design_type<float, BESSEL, N>(g, es::bessel<N>(), 0, "float", ef);
      design_type<double, BUTTER, N>(g, es::butterworth<N>(), 0, "double", ed);
      design_type<double, CHEB1, N>(g, es::chebyshev1<N, long double>(rf), rf, "double (long double ripple)", ed);
      design_type<double, CHEB2, N>(g, es::chebyshev2<N, long double>(sf), sf, "double (long double ripple)", ed);
      design_type<long double, BUTTER, N>(g, es::butterworth<N>(), 0, "long double", el);
      design_type<long double, CHEB1, N>(g, es::chebyshev1<N, long double>(rf), rf, "long double", el);
      design_type<long double, CHEB1, N>(g, es::chebyshev1<N>(rf), rf, "long double (double ripple)", ed);
      design_type<long double, CHEB2, N>(g, es::chebyshev2<N, long double>(sf), sf, "long double", el);
      design_type<long double, BESSEL, N>(g, es::bessel<N>(), 0, "long double", ed);
    }
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  state_type<float>();
  state_type<double>();
  state_type<long double>();
  state_type<Fixed<16, false>>();
#if PART == 0
  order<1>(); order<2>(); order<3>();
#elif PART == 1
  order<4>(); order<5>();
#elif PART == 2
  order<6>(); order<7>();
#else
  order<8>(); order<10>();
#endif
  v::require("coefficients", 5000);
  v::require("fixed_samples", 9000);
  v::require("wide_coefficients", 1000);
  v::require("wide_samples", 1000);
  v::require("designs_using_more_than_double", 50);
  v::require("design_points", 10000);
  v::require("beyond_double_points", 500);
  v::sample(v::fmt("largest error/bound: %.3Lg in float, %.3Lg in double, %.3Lg in long double designs", worst[0], worst[1], worst[2]));
  v::sample("coefficients equal to the converted design coefficients; fixed point outputs exact");
  return v::finish();
}
