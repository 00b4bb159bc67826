// C31: complex arithmetic against __float128, convolution and polynomial
// expansion against exact ring arithmetic.
#include <embedded/constexpr_math/complex.h>
#include <embedded/constexpr_math/constants.h>
#include <embedded/constexpr_math/convolve.h>
#include <embedded/constexpr_math/poly.h>

#include <quadmath.h>

#include <cmath>
#include <limits>

#include "vharness.h"

namespace cm = embedded::cmath;
using v::Rng;
typedef __float128 Q;

struct QC {
  Q re, im;
};
static QC operator*(QC a, QC b) { return QC{a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static QC operator+(QC a, QC b) { return QC{a.re + b.re, a.im + b.im}; }
static QC operator-(QC a, QC b) { return QC{a.re - b.re, a.im - b.im}; }
static QC operator/(QC a, QC b) {
  Q n = b.re * b.re + b.im * b.im;
  return QC{(a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n};
}
static Q mag(QC a) { return hypotq(a.re, a.im); }
template <typename T>
static QC q(cm::complex<T> const& z) {
  return QC{static_cast<Q>(z.real()), static_cast<Q>(z.imag())};
}

template <typename T>
struct Name;
template <>
struct Name<float> {
  static char const* get() { return "float"; }
};
template <>
struct Name<double> {
  static char const* get() { return "double"; }
};
template <>
struct Name<long double> {
  static char const* get() { return "long double"; }
};

static double worst = 0;

// normwise error of a complex result, in units of eps * scale
template <typename T>
static void near(cm::complex<T> const& got, QC want, Q scale, double ulps, char const* op, cm::complex<T> const& a, cm::complex<T> const& b) {
  Q e = mag(q(got) - want) / (scale * static_cast<Q>(std::numeric_limits<T>::epsilon()));
  v::evaluated();
  V_COUNT("complex results");
  if (scale == 0) {
    V_CHECK(got.real() == 0 && got.imag() == 0, op, "%s %s: zero expected", Name<T>::get(), op);
    return;
  }
  bool ok = e <= static_cast<Q>(ulps);
  if (ok && static_cast<double>(e) / ulps > worst) worst = static_cast<double>(e) / ulps;
  V_CHECK(ok, op, "%s (%.20Lg,%.20Lg) %s (%.20Lg,%.20Lg) = (%.20Lg,%.20Lg), error %.3g eps", Name<T>::get(), static_cast<long double>(a.real()), static_cast<long double>(a.imag()), op,
          static_cast<long double>(b.real()), static_cast<long double>(b.imag()), static_cast<long double>(got.real()), static_cast<long double>(got.imag()), static_cast<double>(e));
}
template <typename T>
static void nearr(T got, Q want, Q scale, double ulps, char const* op, cm::complex<T> const& a, cm::complex<T> const& b) {
  near(cm::complex<T>(got), QC{want, 0}, scale, ulps, op, a, b);
}

template <typename T>
static T component(Rng& r, int emin, int emax) {
  switch (r.below(16)) {
    case 0: return T{0};
    case 1: return r.chance(1, 2) ? T{1} : T{-1};
    case 2: return static_cast<T>(r.range(-9, 9));
    default: break;
  }
  long double m = 1 + static_cast<long double>(r.next() >> 1) / 9223372036854775808.0L;
  return static_cast<T>(std::ldexp(r.chance(1, 2) ? m : -m, static_cast<int>(r.range(emin, emax))));
}
template <typename T>
static cm::complex<T> any(Rng& r, int emin, int emax) {
  return cm::complex<T>(component<T>(r, emin, emax), component<T>(r, emin, emax));
}

template <typename T>
static void arithmetic(Rng& r) {
  // products of two such operands and their errors stay inside the range
  int const lim = r.chance(1, 2) ? 6 : std::numeric_limits<T>::max_exponent / 4 - std::numeric_limits<T>::digits / 4;
  cm::complex<T> a = any<T>(r, -lim, lim), b = any<T>(r, -lim, lim);
  if (r.chance(1, 6)) b = r.chance(1, 2) ? a : a.conj();
  if (r.chance(1, 6)) b = cm::complex<T>(a.real() * (1 + 8 * std::numeric_limits<T>::epsilon()), b.imag());
  cm::complex<T> const a0 = a, b0 = b;
  v::distinct(v::mix(v::hash_bytes(&a, 8), v::hash_bytes(&b, 8)));
  T x = component<T>(r, -lim, lim);
  QC qa = q(a), qb = q(b), qx = QC{static_cast<Q>(x), 0};
  near(a + b, qa + qb, mag(qa + qb), 1, "+", a, b);
  near(a - b, qa - qb, mag(qa - qb), 1, "-", a, b);
  near(a * b, qa * qb, mag(qa) * mag(qb), 3, "*", a, b);
  if (b.real() != 0 || b.imag() != 0) {
    near(a / b, qa / qb, mag(qa) / mag(qb), 12, "/", a, b);
    near(x / b, qx / qb, mag(qx) / mag(qb), 12, "real/complex", cm::complex<T>(x), b);
    V_COUNT("divisions");
  }
  if (x != 0) near(a / x, qa / qx, mag(qa) / mag(qx), 12, "complex/real", a, cm::complex<T>(x));
  near(x * b, qx * qb, mag(qx) * mag(qb), 3, "real*complex", cm::complex<T>(x), b);
  near(x + b, qx + qb, mag(qx + qb), 1, "real+complex", cm::complex<T>(x), b);
  near(x - b, qx - qb, mag(qx - qb), 1, "real-complex", cm::complex<T>(x), b);
  near(-a, QC{-qa.re, -qa.im}, mag(qa), 0.001, "negation", a, b);
  near(a.conj(), QC{qa.re, -qa.im}, mag(qa), 0.001, "conj", a, b);
  nearr(a.norm(), qa.re * qa.re + qa.im * qa.im, qa.re * qa.re + qa.im * qa.im, 3, "norm", a, b);
  nearr(a.abs(), mag(qa), mag(qa), 4, "abs", a, b);
  nearr(a.distance(b), mag(qa - qb), mag(qa - qb), 4, "distance", a, b);
  V_CHECK((a == b) == (a.real() == b.real() && a.imag() == b.imag()), "==", "equality of complex numbers");
  V_CHECK(a == a0 && b == b0, "operand", "an operand was modified");
  V_CHECK(a.is_real() == (a.imag() == 0), "is_real", "is_real");
  V_CHECK(cm::complex<T>(x) == cm::complex<T>(x, 0) && cm::complex<T>() == cm::complex<T>(0, 0) && cm::complex<T>(x).is_real(), "construction", "real to complex");
  V_CHECK(a.conj().conj() == a && -(-a) == a, "conj", "conj/negation are not involutions");
}

// Operands whose products overflow or underflow although the quotient does not.
template <typename T>
static void extreme_division(Rng& r) {
  int const top = std::numeric_limits<T>::max_exponent - 2, bottom = std::numeric_limits<T>::min_exponent + std::numeric_limits<T>::digits + 4;
  int e = r.chance(1, 2) ? static_cast<int>(r.range(top / 2 + 2, top - 4)) : static_cast<int>(r.range(bottom, bottom / 2 - 4));
  if (r.chance(1, 4)) e = top / 2 + static_cast<int>(r.range(-4, 4));  // where the squares begin to overflow
  int d = static_cast<int>(r.range(-3, 3));
  cm::complex<T> a = any<T>(r, e - 1, e + 1), b = any<T>(r, e + d - 1, e + d + 1);
  if (std::fabs(b.real()) < std::ldexp(T{1}, -8) && e > 0) b = cm::complex<T>(std::ldexp(T{1}, e), b.imag());
  // small integers drawn by component() would leave the range: scale them
  auto fix = [&](T c, int ex) { return c == 0 || std::ilogb(c) == ex || std::abs(std::ilogb(c) - ex) < 12 ? c : std::ldexp(c, ex - 2); };
  a = cm::complex<T>(fix(a.real(), e), fix(a.imag(), e));
  b = cm::complex<T>(fix(b.real(), e), fix(b.imag(), e));
  if (b.real() == 0 && b.imag() == 0) return;
  v::distinct(v::mix(v::hash_bytes(&a, 8), v::hash_bytes(&b, 8)));
  // the quotient does not change when both are scaled by a power of two
  QC qa{scalbnq(static_cast<Q>(a.real()), -e), scalbnq(static_cast<Q>(a.imag()), -e)}, qb{scalbnq(static_cast<Q>(b.real()), -e), scalbnq(static_cast<Q>(b.imag()), -e)};
  near(a / b, qa / qb, mag(qa) / mag(qb), 16, "extreme /", a, b);
  V_COUNT("extreme divisions");
}

template <typename T>
static void exact(Rng& r) {
  int64_t a = r.range(-1000, 1000), b = r.range(-1000, 1000), c = r.range(-1000, 1000), d = r.range(-1000, 1000);
  typedef cm::complex<T> C;
  C z(static_cast<T>(a), static_cast<T>(b)), w(static_cast<T>(c), static_cast<T>(d));
  auto is = [](C const& g, int64_t re, int64_t im) { return g.real() == static_cast<T>(re) && g.imag() == static_cast<T>(im); };
  T x = static_cast<T>(c);
  v::evaluated();
  V_COUNT("exact identities");
  V_CHECK(is(z + w, a + c, b + d) && is(z - w, a - c, b - d) && is(z * w, a * c - b * d, a * d + b * c) && is(w * z, a * c - b * d, a * d + b * c), "exact", "integer operands (%lld,%lld) (%lld,%lld)", (long long)a, (long long)b, (long long)c, (long long)d);
  V_CHECK(is(x * z, a * c, b * c) && is(x + z, a + c, b) && is(x - z, c - a, -b) && is(-z, -a, -b) && is(z.conj(), a, -b), "exact", "mixed integer operands");
  V_CHECK(z.norm() == static_cast<T>(a * a + b * b), "exact", "norm of integers");
  V_CHECK(C(3, 4).abs() == 5 && C(-5, 12).abs() == 13 && C(1, 1).distance(C(4, 5)) == 5, "exact", "pythagorean magnitudes");
}

template <typename T>
static void exponential(Rng& r) {
  T re = static_cast<T>(r.uniform(-30, 30)), im = static_cast<T>(r.chance(1, 4) ? r.uniform(-1e4, 1e4) : r.uniform(-7, 7));
  if (r.chance(1, 8)) re = 0;
  if (r.chance(1, 8)) im = 0;
  if (r.chance(1, 8)) im = cm::pi<T>() * static_cast<T>(r.range(-8, 8)) / 2;
  cm::complex<T> z(re, im);
  QC want{expq(static_cast<Q>(re)) * cosq(static_cast<Q>(im)), expq(static_cast<Q>(re)) * sinq(static_cast<Q>(im))};
  near(exp(z), want, mag(want), 6, "exp", z, z);
  V_COUNT("exponentials");
}
template <typename T>
static void pi_check() {
  near(cm::complex<T>(cm::pi<T>()), QC{M_PIq, 0}, M_PIq, 0.51, "pi", cm::complex<T>(), cm::complex<T>());
}

// --- vectors of complex numbers ------------------------------------------------
template <typename T, std::size_t N>
struct Draw {
  Rng* r;
  cm::complex<T> operator()(std::size_t) const { return any<T>(*r, -8, 8); }
};
template <typename T, std::size_t N>
static void vectors(Rng& r) {
  auto a = cm::vector<cm::complex<T>, N>::create(Draw<T, N>{&r});
  auto re = real(a);
  auto im = imag(a);
  auto no = norm(a);
  auto ab = abs(a);
  auto ex = exp(a.template transform<cm::complex<T>>([](cm::complex<T> const& z) { return z / cm::complex<T>(16); }));
  for (std::size_t i = 0; i < N; ++i) {
    QC z = q(a[i]);
    V_CHECK(re[i] == a[i].real() && im[i] == a[i].imag(), "real/imag", "vector real/imag, element %zu of %zu", i, N);
    nearr(no[i], z.re * z.re + z.im * z.im, z.re * z.re + z.im * z.im, 3, "vector norm", a[i], a[i]);
    nearr(ab[i], mag(z), mag(z), 4, "vector abs", a[i], a[i]);
    Q s = expq(z.re / 16);
    near(ex[i], QC{s * cosq(z.im / 16), s * sinq(z.im / 16)}, s, 40, "vector exp", a[i], a[i]);
    V_COUNT("vector elements");
  }
}

// --- convolution ---------------------------------------------------------------
template <typename T>
struct Ring;
template <>
struct Ring<uint64_t> {
  static uint64_t get(Rng& r) { return r.chance(1, 3) ? r.below(4) : r.next(); }
  static bool same(uint64_t a, uint64_t b) { return a == b; }
};
template <>
struct Ring<double> {  // integers: exact
  static double get(Rng& r) { return static_cast<double>(r.range(-1000, 1000)); }
  static bool same(double a, double b) { return a == b; }
};
template <>
struct Ring<cm::complex<double>> {
  static cm::complex<double> get(Rng& r) { return cm::complex<double>(Ring<double>::get(r), Ring<double>::get(r)); }
  static bool same(cm::complex<double> const& a, cm::complex<double> const& b) { return a == b; }
};
template <typename T>
struct Fill {
  std::vector<T> const* m;
  T operator()(std::size_t i) const { return (*m)[i]; }
};
template <typename T, std::size_t S1, std::size_t S2>
static void convolve(Rng& r) {
  std::vector<T> a, b, c(S1 + S2 - 1, T{});
  for (std::size_t i = 0; i < S1; ++i) a.push_back(Ring<T>::get(r));
  for (std::size_t i = 0; i < S2; ++i) b.push_back(Ring<T>::get(r));
  for (std::size_t i = 0; i < S1; ++i)
    for (std::size_t j = 0; j < S2; ++j) c[i + j] = c[i + j] + a[i] * b[j];
  auto va = cm::vector<T, S1>::create(Fill<T>{&a});
  auto vb = cm::vector<T, S2>::create(Fill<T>{&b});
  auto vc = convolve_full(va, vb);
  static_assert(decltype(vc)::size() == S1 + S2 - 1, "size of a convolution");
  v::evaluated();
  v::distinct(v::mix(v::mix(S1 * 100 + S2, sizeof(T)), r.next()));
  V_COUNT("convolutions");
  for (std::size_t i = 0; i < S1 + S2 - 1; ++i) V_CHECK(Ring<T>::same(vc[i], c[i]), "convolution", "sizes %zu and %zu: coefficient %zu wrong", S1, S2, i);
  auto vd = convolve_full(vb, va);
  for (std::size_t i = 0; i < S1 + S2 - 1; ++i) V_CHECK(Ring<T>::same(vd[i], c[i]), "convolution", "sizes %zu and %zu: coefficient %zu wrong", S2, S1, i);
}
template <typename T, std::size_t S1, std::size_t S2>
struct ConvAll {
  static void go(Rng& r) {
    convolve<T, S1, S2>(r);
    ConvAll<T, S1, S2 - 1>::go(r);
  }
};
template <typename T, std::size_t S1>
struct ConvAll<T, S1, 0> {
  static void go(Rng& r) { ConvAll<T, S1 - 1, S1 - 1>::go(r); }
};
template <typename T>
struct ConvAll<T, 0, 0> {
  static void go(Rng&) {}
};

// --- polynomial expansion ----------------------------------------------------------
template <typename T, std::size_t N>
static void expand_exact(Rng& r) {
  std::vector<T> roots, c(1, T{1});
  bool repeated = r.chance(1, 4);
  for (std::size_t i = 0; i < N; ++i) roots.push_back(repeated && i ? roots[0] : r.chance(1, 8) ? T{} : Ring<T>::get(r));
  // independent expansion: coefficient k is (-1)^k times the k-th elementary
  // symmetric polynomial, built by sums over subsets in increasing order
  std::vector<T> e(N + 1, T{});
  e[0] = T{1};
  for (std::size_t i = 0; i < N; ++i)
    for (std::size_t k = i + 1; k > 0; --k) e[k] = e[k] + e[k - 1] * roots[i];
  auto p = poly(cm::vector<T, N>::create(Fill<T>{&roots}));
  static_assert(decltype(p)::size() == N + 1, "degree");
  v::evaluated();
  v::distinct(v::mix(N * 7 + sizeof(T), r.next()));
  V_COUNT("expansions");
  V_CHECK(Ring<T>::same(p[0], T{1}), "poly", "expansion of %zu roots is not monic", N);
  for (std::size_t k = 0; k <= N; ++k) V_CHECK(Ring<T>::same(p[k], k % 2 ? T{} - e[k] : e[k]), "poly", "%zu roots: coefficient %zu wrong", N, k);
  if (sizeof(T) == 8) {
    for (std::size_t i = 0; i < N; ++i) {
      T acc = T{};
      for (std::size_t k = 0; k <= N; ++k) acc = acc * roots[i] + p[k];
      V_CHECK(Ring<T>::same(acc, T{}), "poly", "root %zu of %zu is not a root of the expansion", i, N);
    }
  }
}
struct Small {  // small Gaussian integers: exact in double up to high degree
  template <typename T>
  static T get(Rng& r) { return T{static_cast<double>(r.range(-2, 2)), static_cast<double>(r.range(-2, 2))}; }
};
template <std::size_t N>
static void expand_complex(Rng& r) {
  typedef cm::complex<double> C;
  std::vector<C> roots;
  bool integral = N <= 12 && r.chance(1, 2);
  for (std::size_t i = 0; i < N; ++i) roots.push_back(integral ? Small::get<C>(r) : C(r.uniform(-2, 2), r.uniform(-2, 2)));
  std::vector<QC> e(N + 1, QC{0, 0});
  std::vector<Q> s(N + 1, 0);
  e[0] = QC{1, 0};
  s[0] = 1;
  for (std::size_t i = 0; i < N; ++i)
    for (std::size_t k = i + 1; k > 0; --k) {
      e[k] = e[k] - e[k - 1] * q(roots[i]);
      s[k] = s[k] + s[k - 1] * mag(q(roots[i]));
    }
  auto p = poly(cm::vector<C, N>::create(Fill<C>{&roots}));
  V_COUNT("expansions");
  for (std::size_t k = 0; k <= N; ++k) {
    if (integral) {
      V_CHECK(q(p[k]).re == e[k].re && q(p[k]).im == e[k].im, "poly", "%zu Gaussian integer roots: coefficient %zu not exact", N, k);
      v::evaluated();
    } else
      near(p[k], e[k], s[k] + static_cast<Q>(1e-300), 6.0 * static_cast<double>(N + 1), "poly", C(static_cast<double>(k)), C(static_cast<double>(N)));
  }
}

template <typename T>
static void floats(Rng& r) {
  for (int i = 0; i < 40; ++i) arithmetic<T>(r);
  for (int i = 0; i < 10; ++i) extreme_division<T>(r);
  for (int i = 0; i < 10; ++i) exact<T>(r);
  for (int i = 0; i < 10; ++i) exponential<T>(r);
  vectors<T, 1>(r);
  vectors<T, 5>(r);
  vectors<T, 16>(r);
  pi_check<T>();
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  for (v::Cases c("complex", v::scale(1200, 60000)); c.next();) {
    v::at("complex arithmetic");
    switch (c.index() % 3) {
      case 0: floats<float>(c.rng); break;
      case 1: floats<double>(c.rng); break;
      default: floats<long double>(c.rng); break;
    }
  }
  for (v::Cases c("convolve", v::scale(60, 3000)); c.next();) {
    v::at("convolution");
    ConvAll<uint64_t, 8, 8>::go(c.rng);
    ConvAll<double, 5, 5>::go(c.rng);
    ConvAll<cm::complex<double>, 4, 4>::go(c.rng);
    convolve<uint64_t, 1, 20>(c.rng);
    convolve<uint64_t, 17, 16>(c.rng);
    convolve<uint64_t, 30, 3>(c.rng);
    convolve<double, 0, 3>(c.rng);
    convolve<uint64_t, 0, 1>(c.rng);
  }
  for (v::Cases c("poly", v::scale(400, 20000)); c.next();) {
    v::at("polynomial expansion");
    expand_exact<uint64_t, 0>(c.rng);
    expand_exact<uint64_t, 1>(c.rng);
    expand_exact<uint64_t, 2>(c.rng);
    expand_exact<uint64_t, 3>(c.rng);
    expand_exact<uint64_t, 4>(c.rng);
    expand_exact<uint64_t, 5>(c.rng);
    expand_exact<uint64_t, 8>(c.rng);
    expand_exact<uint64_t, 13>(c.rng);
    expand_exact<uint64_t, 20>(c.rng);
    expand_exact<double, 3>(c.rng);
    expand_exact<double, 4>(c.rng);
    expand_complex<0>(c.rng);
    expand_complex<1>(c.rng);
    expand_complex<2>(c.rng);
    expand_complex<3>(c.rng);
    expand_complex<6>(c.rng);
    expand_complex<12>(c.rng);
    expand_complex<20>(c.rng);
  }
  v::require("divisions", 30000);
  v::require("extreme divisions", 8000);
  v::require("exponentials", 10000);
  v::require("convolutions", 3000);
  v::require("expansions", 5000);
  v::sample(v::fmt("largest error is %.3f of its bound", worst));
  return v::finish();
}
