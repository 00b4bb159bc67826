// Prototypes of every order 1..100.
//   FAMILY 0..2 (C19..C21): poles, zeros and DC gain against the closed forms
//   FAMILY 4 (C23): every family: finite, stable, realisable, over extreme ripples
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>

#include <limits>

#include "filt_oracle.h"
#include "vharness.h"

namespace es = embedded::signal;

struct Got {
  int family, n;
  L ripple, eps, gain;
  std::vector<C> p, z;
  char const* type;
};

static char const* const names[] = {"butterworth", "chebyshev1", "chebyshev2", "bessel"};
static L worst = 0;

// every wanted root has its own counterpart
static void match(char const* what, Got const& g, std::vector<C> const& want, std::vector<C> const& got, L tol) {
  if (want.size() != got.size()) {
    v::fail("count", "%s order %d: %zu %s, expected %zu", names[g.family], g.n, got.size(), what, want.size());
    return;
  }
  std::vector<char> used(got.size(), 0);
  for (C w : want) {
    std::size_t best = got.size();
    for (std::size_t i = 0; i < got.size(); ++i)
      if (!used[i] && (best == got.size() || std::abs(got[i] - w) < std::abs(got[best] - w))) best = i;
    used[best] = 1;
    L e = std::abs(got[best] - w) / std::abs(w);
    worst = std::max(worst, e / tol);
    V_CHECK(e <= tol, what, "%s (%s) order %d ripple %.17Lg: nothing at (%.17Lg,%.17Lg), closest is (%.17Lg,%.17Lg): off by %.3Lg > %.3Lg", names[g.family], g.type, g.n, g.ripple,
            w.real(), w.imag(), got[best].real(), got[best].imag(), e, tol);
    V_COUNT("roots");
  }
}

static void judge(Got const& g) {
  v::at("%s (%s) order %d ripple %.17Lg", names[g.family], g.type, g.n, g.ripple);
#if FAMILY == 4
  L lp = 0, lz = 0;
  V_CHECK(g.p.size() == static_cast<std::size_t>(g.n) && g.z.size() <= g.p.size(), "count", "%zu poles, %zu zeros: %s", g.p.size(), g.z.size(), v::st().where);
  for (std::vector<C> const* set : {&g.p, &g.z}) {
    bool poles = set == &g.p;
    for (C c : *set) {
      V_CHECK(std::isfinite(c.real()) && std::isfinite(c.imag()), "not-finite", "%s (%.17Lg,%.17Lg): %s", poles ? "pole" : "zero", c.real(), c.imag(), v::st().where);
      V_CHECK(!poles || c.real() < 0, "half-plane", "pole (%.17Lg,%.17Lg) is not in the left half plane: %s", c.real(), c.imag(), v::st().where);
      bool conj = false;
      for (C d : *set)
        if (std::abs(d - std::conj(c)) <= 64 * g.n * g.eps * std::abs(c)) conj = true;
      V_CHECK(conj, "realisable", "%s (%.17Lg,%.17Lg) without its conjugate: %s", poles ? "pole" : "zero", c.real(), c.imag(), v::st().where);
      (poles ? lp : lz) += std::log(std::abs(c));
      V_COUNT("roots");
    }
  }
  V_CHECK(std::isfinite(g.gain) && g.gain > 0, "not-finite", "gain %.17Lg: %s", g.gain, v::st().where);
  L dc = std::exp(std::log(g.gain) + lz - lp);
  V_CHECK(dc < 1 + 1e-3L && dc > 1e-4L, "dc-gain", "DC gain %.17Lg: %s", dc, v::st().where);
#else
  Analog a = analog(g.family, g.n, g.ripple);
  L sens = g.family == BUTTER ? 1 : 1 + 1 / (0.2303L * g.ripple) + g.ripple * 0.2303L;  // of the ripple factor
  match("poles", g, a.p, g.p, 64 * sens * g.eps);
  match("zeros", g, a.z, g.z, 64 * g.n * g.eps);  // 1/cos near its pole
  L l = std::log(g.gain) - std::log(a.h0);
  for (C c : g.z) l += std::log(std::abs(c));
  for (C c : g.p) l -= std::log(std::abs(c));
  V_CHECK(g.gain > 0 && std::abs(l) <= 64 * sens * (g.n + 4) * g.eps, "dc-gain", "%s (%s) order %d ripple %.17Lg: DC gain is off by %.3Lg", names[g.family], g.type, g.n, g.ripple, l);
#endif
  v::evaluated();
  v::distinct(v::mix(v::mix(v::hash_str(g.type), static_cast<uint64_t>(g.n) * 4 + static_cast<unsigned>(g.family)), v::hash_bytes(&g.ripple, 10)));
  V_COUNT("prototypes");
}

template <typename Spec>
static void collect(Got g, Spec const& s) {
  auto k = s.zpk();
  for (std::size_t i = 0; i < k.poles().size(); ++i) g.p.push_back(C(k.poles()[i].real(), k.poles()[i].imag()));
  for (std::size_t i = 0; i < k.zeros().size(); ++i) g.z.push_back(C(k.zeros()[i].real(), k.zeros()[i].imag()));
  g.gain = k.gain();
  judge(g);
}

template <typename F, std::size_t N>
static void one(v::Rng& r, char const* type) {
  Got g;
  g.n = N;
  g.type = type;
  g.eps = std::numeric_limits<F>::epsilon();
  g.ripple = 0;
  (void)r;
#if FAMILY == 0 || FAMILY == 4
  g.family = BUTTER;
  collect(g, es::butterworth<N>().template spec<F>());
#endif
#if FAMILY == 1 || FAMILY == 4
  for (int i = 0; i < 3; ++i) {
    F x = static_cast<F>(FAMILY == 4 ? std::exp(r.uniform(std::log(1e-3), std::log(40.0))) : r.uniform(0.05, 6));
    g.family = CHEB1;
    g.ripple = x;
    collect(g, es::chebyshev1<N, F>(x).template spec<F>());
  }
#endif
#if FAMILY == 2 || FAMILY == 4
  for (int i = 0; i < 3; ++i) {
    F x = static_cast<F>(FAMILY == 4 ? r.uniform(0.5, 160) : r.uniform(3, 120));
    g.family = CHEB2;
    g.ripple = x;
    collect(g, es::chebyshev2<N, F>(x).template spec<F>());
  }
#endif
#if FAMILY == 4
  g.family = BESSEL;
  g.ripple = 0;
  collect(g, es::bessel<N>().template spec<F>());
#endif
}

template <std::size_t N>
struct Each {
  static void go(v::Rng& r) {
    Each<N - 1>::go(r);
    one<double, N>(r, "double");
#if FAMILY != 4
    if (N % 7 == 1) one<long double, N>(r, "long double");
#endif
  }
};
template <>
struct Each<0> {
  static void go(v::Rng&) {}
};

int main(int argc, char** argv) {
  v::init(argc, argv);
  v::Cases cs("prototypes", v::scale(4, 200));
  while (cs.next()) Each<100>::go(cs.rng);
  v::require("prototypes", 400);
  v::require("roots", 20000);
  v::sample(v::fmt("worst root error %.3Lg of the bound", worst));
  return v::finish();
}
