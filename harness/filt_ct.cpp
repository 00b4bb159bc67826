// C27: the same design evaluated in a constant expression and at run time.
// -DSEED=n selects the constants; they are drawn by a constexpr generator, the
// run-time copies pass through volatile objects.
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#include <embedded/varint.h>

#include <cmath>
#include <limits>

#include "vharness.h"

#ifndef SEED
#define SEED 1
#endif

namespace es = embedded::signal;
namespace cm = embedded::cmath;

constexpr uint64_t r1(uint64_t z) { return (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; }
constexpr uint64_t r2(uint64_t z) { return (z ^ (z >> 27)) * 0x94d049bb133111ebull; }
constexpr uint64_t r3(uint64_t z) { return z ^ (z >> 31); }
constexpr uint64_t draw(uint64_t id, uint64_t k) { return r3(r2(r1(SEED * 0x9e3779b97f4a7c15ull + id * 0xd1342543de82ef95ull + k * 0x2545F4914F6CDD1Dull + 12345))); }
constexpr double unit(uint64_t id, uint64_t k) { return (draw(id, k) >> 11) * (1.0 / 9007199254740992.0); }

template <typename T>
static T launder(T v) {
  volatile T x = v;
  return x;
}

static long double worst = 0;
template <typename A, typename B>
static void close(A ct, B rt, long double scale, double eps, char const* what, std::size_t i) {
  long double d = std::fabs(static_cast<long double>(ct) - static_cast<long double>(rt));
  if (scale > 0 && d / (scale * eps) > worst) worst = d / (scale * eps);
  V_CHECK(d <= scale * eps * 48, "coefficient", "%s: coefficient %zu is %.21Lg at compile time, %.21Lg at run time", what, i, static_cast<long double>(ct), static_cast<long double>(rt));
  V_COUNT("coefficients");
}

template <typename D>
static void same_sos(D const& ct, D const& rt, double eps, char const* what) {
  for (std::size_t i = 0; i < D::size(); ++i) {
    auto b1 = ct.sos()[i].b(), b2 = rt.sos()[i].b();
    auto a1 = ct.sos()[i].a(), a2 = rt.sos()[i].a();
    long double s = std::fabs(static_cast<long double>(b1[0])) + std::fabs(static_cast<long double>(b1[1])) + std::fabs(static_cast<long double>(b1[2]));
    for (std::size_t j = 0; j < 3; ++j) {
      close(b1[j], b2[j], s, eps, what, i * 6 + j);
      close(a1[j], a2[j], 2, eps, what, i * 6 + 3 + j);
    }
  }
}
template <typename D>
static void same_poly(D const& ct, D const& rt, double eps, char const* what) {
  long double sb = 0, sa = 0;
  for (std::size_t i = 0; i <= D::order(); ++i) {
    sb += std::fabs(static_cast<long double>(ct.b()[i]));
    sa += std::fabs(static_cast<long double>(ct.a()[i]));
  }
  for (std::size_t i = 0; i <= D::order(); ++i) {
    close(ct.b()[i], rt.b()[i], sb, eps, what, i * 2);
    close(ct.a()[i], rt.a()[i], sa, eps, what, i * 2 + 1);
  }
}

template <std::size_t N, int Fam>
struct Make;
template <std::size_t N>
struct Make<N, 0> {
  static constexpr es::butterworth<N> get(double) { return es::butterworth<N>(); }
  static char const* name() { return "butterworth"; }
};
template <std::size_t N>
struct Make<N, 1> {
  static constexpr es::chebyshev1<N> get(double u) { return es::chebyshev1<N>(u < 0 ? 0.002 : u > 1 ? 25 : 0.1 + 4 * u); }
  static char const* name() { return "chebyshev1"; }
};
template <std::size_t N>
struct Make<N, 2> {
  static constexpr es::chebyshev2<N> get(double u) { return es::chebyshev2<N>(u < 0 ? 0.8 : u > 1 ? 140 : 15 + 60 * u); }
  static char const* name() { return "chebyshev2"; }
};
template <std::size_t N>
struct Make<N, 3> {
  static constexpr es::bessel<N> get(double) { return es::bessel<N>(); }
  static char const* name() { return "bessel"; }
};

template <typename DT, typename F, std::size_t N, int Fam, int K>
static void one() {
  constexpr uint64_t id = (((N * 4 + Fam) * 64 + K) * 32 + sizeof(DT)) * 32 + sizeof(F);
  // K % 4: usual cutoffs, low ones, near Nyquist, and round numbers
  constexpr double round[] = {0.25, 0.125, 1.0 / 3, 0.1, 0.01, 0.001, 1.0 / 6, 0.375, 0.2, 0.02, 0.05, 0.4};
  constexpr double w = unit(id, 1);
  constexpr double ratio = K % 4 == 0 ? 0.03 + 0.42 * w : K % 4 == 1 ? 0.06 * __builtin_exp2(-12 * w) : K % 4 == 2 ? 0.5 - 0.06 * __builtin_exp2(-10 * w) : round[draw(id, 5) % 12];
  constexpr double fs = K % 4 == 3 ? (draw(id, 6) % 2 ? 48000 : 1) : K % 4 == 0 ? 1000 + 90000 * unit(id, 2) : 1e-3 * __builtin_exp2(40 * unit(id, 2));
  constexpr double u = K % 4 == 3 && draw(id, 7) % 3 == 0 ? -1 : K % 4 == 3 && draw(id, 7) % 3 == 1 ? 2 : unit(id, 0);
  constexpr DT dfs = static_cast<DT>(fs), dfc = static_cast<DT>(fs * ratio);
  constexpr bool high = (draw(id, 3) & 1) != 0;
  constexpr es::sos_gain mode = (draw(id, 4) & 1) != 0 ? es::sos_gain::distribute : es::sos_gain::first_section;
  std::string what = v::fmt("%s order %zu %s fs=%.17g ratio=%.17g u=%.17g design type %zu value type %zu", Make<N, Fam>::name(), N, high ? "high" : "low", fs, ratio, u, sizeof(DT), sizeof(F));
  v::at("%s", what.c_str());
  // compile time
  constexpr auto d = high ? es::iirfilter<DT>(dfs).highpass(Make<N, Fam>::get(u), dfc) : es::iirfilter<DT>(dfs).lowpass(Make<N, Fam>::get(u), dfc);
  constexpr auto sos = d.template sos<F>(mode);
  constexpr auto poly = d.template poly<F>();
  // run time
  double ru = launder(u);
  es::iirfilter<DT> f(launder(dfs));
  auto rd = launder(high) ? f.highpass(Make<N, Fam>::get(ru), launder(dfc)) : f.lowpass(Make<N, Fam>::get(ru), launder(dfc));
  auto rsos = rd.template sos<F>(launder(mode));
  auto rpoly = rd.template poly<F>();
  double eps = static_cast<double>(std::max(static_cast<long double>(std::numeric_limits<DT>::epsilon()), static_cast<long double>(std::numeric_limits<F>::epsilon())));
  same_sos(sos, rsos, eps, what.c_str());
  same_poly(poly, rpoly, eps, what.c_str());
  // instances over the compile-time design behave like those over the run-time one
  static constexpr auto rom = sos;
  auto i1 = rom.instance();
  auto i2 = rsos.instance();
  long double peak = 0;
  for (int n = 0; n < 40; ++n) {
    long double y1 = static_cast<long double>(i1(F(n == 0))), y2 = static_cast<long double>(i2(F(n == 0)));
    peak = std::max(peak, std::fabs(y1));
    V_CHECK(std::fabs(y1 - y2) <= 1e5 * eps * (peak + 1e-3L), "response", "%s: impulse response differs at %d: %.17Lg vs %.17Lg", what.c_str(), n, y1, y2);
  }
  v::evaluated();
  V_COUNT("designs");
  v::distinct(v::mix(id, v::hash_bytes(&ratio, 8)));
}

template <typename DT, typename F, std::size_t N, int K>
static void families() {
  v::Cases cs("designs", 1);
  while (cs.next()) {
    one<DT, F, N, 0, K>();
    one<DT, F, N, 1, K>();
    one<DT, F, N, 2, K>();
    one<DT, F, N, 3, K>();
  }
}

// --- vector, complex, convolution, polynomial, varint ---------------------------
struct Pick {
  constexpr bool operator()(int a, int b) const { return a < b; }
};
struct Odd {
  constexpr bool operator()(int a) const { return a % 2 != 0; }
};
struct Gen {
  uint64_t id;
  constexpr explicit Gen(uint64_t i) : id(i) {}
  constexpr int operator()(std::size_t i) const { return static_cast<int>(draw(id, i) % 41) - 20; }
};
struct Fold {
  constexpr int operator()(int a, int b) const { return (a * 31 + b) % 100003; }
};
struct GenC {
  uint64_t id;
  constexpr explicit GenC(uint64_t i) : id(i) {}
  constexpr cm::complex<double> operator()(std::size_t i) const { return cm::complex<double>(unit(id, 2 * i) * 4 - 2, unit(id, 2 * i + 1) * 4 - 2); }
};
template <std::size_t N>
static void launder_into(cm::vector<int, N> const& s, cm::vector<int, N>& o) {
  o = cm::vector<int, N>::create([&](std::size_t i) { return launder(s[i]); });
}
template <int K, std::size_t N, std::size_t M>
static void vec() {
  constexpr auto a = cm::vector<int, N>::create(Gen(K * 100 + N));
  constexpr auto b = cm::vector<int, M>::create(Gen(K * 100 + M + 50));
  constexpr std::size_t p = draw(K, N) % N, q = draw(K, N + 77) % N;
  auto ra = cm::vector<int, N>::create([&](std::size_t i) { return launder(a[i]); });
  auto rb = cm::vector<int, M>::create([&](std::size_t i) { return launder(b[i]); });
  std::size_t rp = launder(p), rq = launder(q);
#define SAME(EXPR_CT, EXPR_RT)                                                                   \
  {                                                                                              \
    constexpr auto ct = EXPR_CT;                                                                 \
    auto rt = EXPR_RT;                                                                           \
    V_CHECK(ct == rt, "vector", "%s differs at compile time and run time (sizes %zu, %zu)", #EXPR_CT, N, M); \
    V_COUNT("expressions");                                                                      \
  }
  SAME(a.append(b), ra.append(rb))
  SAME(a.swap(p, q), ra.swap(rp, rq))
  SAME(a.swappop(p), ra.swappop(rp))
  SAME(a.sort(Pick()), ra.sort(Pick()))
  SAME(a.argmin(Pick()), ra.argmin(Pick()))
  SAME(a.count(Odd()), ra.count(Odd()))
  SAME(a.reduce(Fold(), 7), ra.reduce(Fold(), 7))
  SAME((a.template erase<N / 2>()), (ra.template erase<N / 2>()))
  SAME((a.template subvector<N / 3, N - N / 3>()), (ra.template subvector<N / 3, N - N / 3>()))
  SAME(3 * a, 3 * ra)
  SAME(3 + a, 3 + ra)
  SAME(-a, -ra)
  SAME(a / 3, ra / 3)
  SAME(cm::convolve_full(a, b), cm::convolve_full(ra, rb))
  SAME(cm::poly(a), cm::poly(ra))
  SAME((a == cm::vector<int, N>::create(Gen(K * 100 + N))), (ra == a))
  SAME((cm::vector<long, N>(a)), (cm::vector<long, N>(ra)))
  v::distinct(v::mix(K, N * 100 + M));
}
template <int K>
static void cplx() {
  constexpr cm::complex<double> x = GenC(K)(0), y = GenC(K)(1);
  cm::complex<double> rx(launder(x.real()), launder(x.imag())), ry(launder(y.real()), launder(y.imag()));
#define CLOSE(E_CT, E_RT)                                                                        \
  {                                                                                              \
    constexpr auto ct = E_CT;                                                                    \
    auto rt = E_RT;                                                                              \
    double d = std::hypot(ct.real() - rt.real(), ct.imag() - rt.imag());                         \
    V_CHECK(d <= 1e-13 * (1 + std::hypot(ct.real(), ct.imag())), "complex", "%s differs at compile time (%.17g,%.17g) and run time (%.17g,%.17g)", #E_CT, ct.real(), ct.imag(), rt.real(), rt.imag()); \
    V_COUNT("expressions");                                                                      \
  }
  CLOSE(x + y, rx + ry)
  CLOSE(x - y, rx - ry)
  CLOSE(x * y, rx * ry)
  CLOSE(x / y, rx / ry)
  CLOSE(2.5 * x, 2.5 * rx)
  CLOSE(x / 2.5, rx / 2.5)
  CLOSE(2.5 / x, 2.5 / rx)
  CLOSE(2.5 + x, 2.5 + rx)
  CLOSE(2.5 - x, 2.5 - rx)
  CLOSE(-x, -rx)
  CLOSE(exp(x), exp(rx))
  CLOSE(x.conj(), rx.conj())
  CLOSE(cm::complex<double>(x.abs(), x.norm()), cm::complex<double>(rx.abs(), rx.norm()))
  CLOSE(cm::complex<double>(x.distance(y), x.is_real()), cm::complex<double>(rx.distance(ry), rx.is_real()))
  constexpr auto pc = cm::poly(cm::vector<cm::complex<double>, 5>::create(GenC(K + 1000)));
  auto pr = cm::poly(cm::vector<cm::complex<double>, 5>::create([](std::size_t i) {
    auto c = GenC(K + 1000)(i);
    return cm::complex<double>(launder(c.real()), launder(c.imag()));
  }));
  for (std::size_t i = 0; i < 6; ++i) V_CHECK((pc[i] - pr[i]).abs() <= 1e-11, "complex", "poly differs at compile time and run time");
  v::distinct(v::mix(77, static_cast<uint64_t>(K)));
}
template <typename T, int K>
static void vsize() {
  constexpr T x = static_cast<T>(draw(K, sizeof(T)) >> (draw(K, 9) % 64));
  constexpr std::size_t s = embedded::varint::size(x);
  std::size_t r = embedded::varint::size(launder(x));
  V_CHECK(s == r, "varint", "varint::size(%lld) is %zu at compile time, %zu at run time", static_cast<long long>(x), s, r);
  V_COUNT("expressions");
  v::distinct(v::mix(static_cast<uint64_t>(x), sizeof(T)));
}
template <int K>
struct Small {
  static void go() {
    Small<K - 1>::go();
    vec<K, 1, 3>(); vec<K, 2, 2>(); vec<K, 3, 5>(); vec<K, 4, 1>(); vec<K, 5, 4>(); vec<K, 7, 2>();
    cplx<K>();
    vsize<uint8_t, K>(); vsize<int8_t, K>(); vsize<uint16_t, K>(); vsize<int16_t, K>();
    vsize<uint32_t, K>(); vsize<int32_t, K>(); vsize<uint64_t, K>(); vsize<int64_t, K>();
  }
};
template <>
struct Small<0> {
  static void go() {}
};

int main(int argc, char** argv) {
  v::init(argc, argv);
#if PART == 0
  families<double, double, 1, 0>(); families<double, double, 2, 0>(); families<double, double, 3, 0>();
  families<double, double, 4, 0>(); families<double, double, 5, 0>(); families<double, double, 6, 0>();
  families<double, double, 2, 4>(); families<double, double, 3, 4>(); families<double, double, 4, 4>();
  families<double, float, 1, 0>(); families<double, float, 5, 0>(); families<double, float, 6, 0>();
  families<double, double, 1, 5>(); families<double, double, 2, 5>(); families<double, double, 3, 5>(); families<double, double, 4, 5>();
  families<double, double, 1, 6>(); families<double, double, 2, 6>(); families<double, double, 3, 6>(); families<double, double, 4, 6>();
  families<double, double, 1, 7>(); families<double, double, 2, 7>(); families<double, double, 3, 7>(); families<double, double, 4, 7>();
  families<double, double, 5, 9>(); families<double, double, 6, 10>(); families<double, double, 5, 11>();
  families<double, double, 1, 9>(); families<double, double, 2, 13>(); families<double, double, 1, 17>(); families<double, double, 2, 17>();
  v::require("designs", 124);
#elif PART == 1
  families<double, double, 7, 0>(); families<double, double, 8, 0>(); families<double, double, 9, 0>();
  families<double, double, 10, 0>(); families<double, double, 12, 0>();
  families<long double, long double, 3, 0>(); families<long double, double, 4, 0>();
  families<float, float, 2, 0>(); families<float, float, 3, 0>(); families<float, double, 4, 0>(); families<double, long double, 5, 0>();
  families<long double, long double, 2, 1>(); families<long double, long double, 2, 2>(); families<float, float, 1, 1>(); families<float, float, 2, 2>();
  v::require("designs", 60);
#else
  v::Cases cs("small", 1);
  while (cs.next()) Small<12>::go();
  v::require("expressions", 1400);
#endif
  v::sample(v::fmt("largest difference between compile time and run time: %.3Lg epsilon", worst));
  return v::finish();
}
