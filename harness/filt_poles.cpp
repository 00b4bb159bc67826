// C22: the Bessel prototype of every order 1..100 against the reverse Bessel
// polynomial of that order, in 120-digit arithmetic.
#include <embedded/signal/bessel.h>

#include "vharness.h"

#ifdef MATH
#include <boost/multiprecision/cpp_bin_float.hpp>

namespace mp = boost::multiprecision;
typedef mp::number<mp::cpp_bin_float<120>, mp::et_off> R;
struct Z {
  R re, im;
};
static Z operator*(Z const& a, Z const& b) { return Z{a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static Z operator+(Z const& a, Z const& b) { return Z{a.re + b.re, a.im + b.im}; }
static Z operator*(R const& k, Z const& a) { return Z{k * a.re, k * a.im}; }
static R norm(Z const& a) { return a.re * a.re + a.im * a.im; }

// theta_n and its derivative at s
static void theta(int n, Z const& s, Z& t, Z& d) {
  Z t0{1, 0}, d0{0, 0}, t1{s.re + 1, s.im}, d1{1, 0};
  if (n == 0) { t = t0; d = d0; return; }
  Z s2 = s * s, two_s = R(2) * s;
  for (int k = 2; k <= n; ++k) {
    Z t2 = R(2 * k - 1) * t1 + s2 * t0;
    Z d2 = R(2 * k - 1) * d1 + two_s * t0 + s2 * d0;
    t0 = t1; t1 = t2; d0 = d1; d1 = d2;
  }
  t = t1;
  d = d1;
}
#endif

struct Design {
  std::size_t n, poles, zeros, zpk_zeros, zpk_poles, order;
  long double re[128], im[128], gain;
  bool same_poles, same_gain;
};
void judge(Design const& d, char const* type, double eps);
double worst_seen();

#ifdef MATH
static double worst = 0;
double worst_seen() { return worst; }

void judge(Design const& g, char const* type, double eps) {
  std::size_t N = g.n;
  V_CHECK(g.order == N, "order", "order() of bessel<%zu> is %zu", N, g.order);
  V_CHECK(g.poles == N && g.zpk_poles == N && g.zpk_zeros == 0 && g.zeros == 0, "count", "order %zu: %zu poles, %zu zeros", N, g.poles, g.zpk_zeros);
  V_CHECK(g.same_poles, "zpk", "order %zu: zpk() and poles() differ", N);
  // scale: the roots of theta_N(c s), c = theta_N(0)^(1/N)
  R t0 = 1;
  for (unsigned k = 1; k <= N; ++k) t0 *= 2 * k - 1;
  R c = mp::exp(mp::log(t0) / R(N));
  R prod = 1;
  std::vector<Z> p;
  for (std::size_t i = 0; i < N; ++i) {
    Z q{R(g.re[i]), R(g.im[i])};
    p.push_back(q);
    prod *= mp::sqrt(norm(q));
    Z t, d;
    theta(static_cast<int>(N), c * q, t, d);
    // Newton correction relative to the pole
    R rel = mp::sqrt(norm(t) / norm(d)) / (c * mp::sqrt(norm(q)));
    double e = static_cast<double>(rel) / eps;
    if (e > worst) worst = e;
    V_CHECK(e < 16, "pole", "order %zu (%s) pole %zu = (%.17g,%.17g) is %.3g epsilon from a root of the reverse Bessel polynomial", N, type, i,
            double(g.re[i]), double(g.im[i]), e);
    V_CHECK(g.re[i] < 0, "half-plane", "order %zu pole %zu has real part %.17g", N, i, double(g.re[i]));
    v::evaluated();
    V_COUNT("poles");
  }
  for (std::size_t i = 0; i < N; ++i) {
    std::size_t conj = 0;
    for (std::size_t j = 0; j < N; ++j) {
      if (j != i && norm(p[i] + R(-1) * p[j]) < R(1e-12)) v::fail("duplicate", "order %zu: poles %zu and %zu coincide", N, i, j);
      if (g.re[j] == g.re[i] && g.im[j] == -g.im[i]) ++conj;
    }
    V_CHECK(conj == 1, "conjugate", "order %zu pole %zu has %zu exact conjugates", N, i, conj);
    V_COUNT("conjugate_checks");
  }
  double dp = static_cast<double>(mp::abs(prod - 1)) / eps;
  V_CHECK(dp < 16 * N, "normalisation", "order %zu: product of pole magnitudes is off by %.3g epsilon", N, dp);
  // gain / prod(-p) = 1: unity gain at DC
  double dg = static_cast<double>(mp::abs(R(g.gain) / prod - 1)) / eps;
  V_CHECK(dg < 16 * N, "dc-gain", "order %zu: DC gain is off by %.3g epsilon", N, dg);
  V_CHECK(g.same_gain, "zpk", "order %zu: gain", N);
  v::distinct(v::mix(N, v::hash_str(type)));
}
#else
template <typename F, std::size_t N>
static void one(char const* type, double eps) {
  namespace es = embedded::signal;
  auto spec = es::bessel<N>().template spec<F>();
  auto poles = spec.poles();
  auto zpk = spec.zpk();
  static Design d;
  d.n = N;
  d.order = es::bessel<N>::order();
  d.poles = poles.size();
  d.zeros = spec.zeros().size();
  d.zpk_zeros = zpk.zeros().size();
  d.zpk_poles = zpk.poles().size();
  d.same_poles = true;
  auto const zp = zpk.poles();
  for (std::size_t i = 0; i < N; ++i) {
    d.re[i] = poles[i].real();
    d.im[i] = poles[i].imag();
    if (!(zp[i].real() == poles[i].real() && zp[i].imag() == poles[i].imag())) d.same_poles = false;
  }
  d.gain = spec.gain();
  d.same_gain = zpk.gain() == spec.gain();
  judge(d, type, eps);
}

template <std::size_t N>
struct Each {
  static void go() {
    Each<N - 1>::go();
    v::at("order %zu", N);
    one<double, N>("double", 2.22e-16);
    one<float, N>("float", 1.2e-7);
    one<long double, N>("long double", 2.22e-16);  // the published table is double precision
  }
};
template <>
struct Each<0> {
  static void go() {}
};

int main(int argc, char** argv) {
  v::init(argc, argv);
  v::Cases cs("table", 1);
  while (cs.next()) Each<100>::go();
  v::require("poles", 3 * 5050);
  v::sample(v::fmt("worst Newton correction %.3g epsilon of its type", worst_seen()));
  return v::finish();
}
#endif
