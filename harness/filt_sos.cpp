// C24: sections as an exact factorisation of the designed filter, judged by
// explaining every section by one pair of the design's poles and zeros.
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>

#include <algorithm>
#include <cmath>
#include <complex>

#include "vharness.h"

namespace es = embedded::signal;
namespace cm = embedded::cmath;
typedef long double L;
typedef std::complex<L> C;

// a user-supplied prototype
template <std::size_t Zn, std::size_t Pn>
struct Proto {
  std::complex<double> z[Zn + 1], p[Pn];
  double k;
  static constexpr std::size_t order() { return Pn; }
  template <typename F>
  struct Spec {
    Proto const* d;
    es::detail::zpk_value<Zn, Pn, F> zpk() const noexcept {
      std::complex<double> const* zz = d->z;
      std::complex<double> const* pp = d->p;
      return es::detail::zpk_value<Zn, Pn, F>(
          cm::vector<cm::complex<F>, Zn>::create([zz](std::size_t i) { return cm::complex<F>(static_cast<F>(zz[i].real()), static_cast<F>(zz[i].imag())); }),
          cm::vector<cm::complex<F>, Pn>::create([pp](std::size_t i) { return cm::complex<F>(static_cast<F>(pp[i].real()), static_cast<F>(pp[i].imag())); }),
          static_cast<F>(d->k));
    }
  };
  template <typename F>
  Spec<F> spec() const noexcept { return Spec<F>{this}; }
};

struct Section { L b[3], a[3]; };

// explain every section's (c1, c2) by one pair of roots, each used exactly once
static bool explain(std::vector<std::pair<L, L>> const& secs, std::vector<C> const& roots, std::vector<char>& used, std::size_t i, L tol, int& budget) {
  if (i == secs.size()) return true;
  if (--budget < 0) return true;  // too ambiguous to decide: do not accuse
  for (std::size_t r = 0; r < roots.size(); ++r) {
    if (used[r]) continue;
    for (std::size_t q = r + 1; q < roots.size(); ++q) {
      if (used[q]) continue;
      C sum = roots[r] + roots[q], prod = roots[r] * roots[q];
      L mag = 1 + std::abs(roots[r]) + std::abs(roots[q]) + std::abs(prod);
      if (std::abs(sum.imag()) > tol * mag || std::abs(prod.imag()) > tol * mag) continue;  // not a real section
      if (std::abs(secs[i].first + sum.real()) > tol * mag || std::abs(secs[i].second - prod.real()) > tol * mag) continue;
      used[r] = used[q] = 1;
      if (explain(secs, roots, used, i + 1, tol, budget)) return true;
      used[r] = used[q] = 0;
    }
  }
  return false;
}

static std::string show(std::vector<C> const& v) {
  std::string s;
  for (C c : v) s += v::fmt(" (%.17Lg,%.17Lg)", c.real(), c.imag());
  return s;
}

static L wrap(double x) { return x; }

template <typename D>
static std::vector<Section> sections(D const& d) {
  std::vector<Section> o;
  for (std::size_t i = 0; i < D::size(); ++i) {
    auto b = d.sos()[i].b();
    auto a = d.sos()[i].a();
    o.push_back(Section{{wrap(b[0]), wrap(b[1]), wrap(b[2])}, {wrap(a[0]), wrap(a[1]), wrap(a[2])}});
  }
  return o;
}

static void judge(std::size_t order, std::vector<Section> const& s, std::vector<C> z, std::vector<C> p, L gain, bool distribute, L tol, std::string const& what) {
  std::size_t n = (order + 1) / 2;
  V_COUNT("designs_judged");
  v::evaluated();
  if (s.size() != n) { v::fail("count", "%zu sections for order %zu: %s", s.size(), order, what.c_str()); return; }
  if (order % 2) { z.push_back(0); p.push_back(0); }
  std::vector<std::pair<L, L>> num, den;
  L g = distribute ? std::pow(gain, L(1) / n) : gain;
  for (std::size_t i = 0; i < n; ++i) {
    V_COUNT("sections_judged");
    V_CHECK(s[i].a[0] == 1, "a0", "section %zu has a0 = %.17Lg: %s", i, s[i].a[0], what.c_str());
    L want = distribute ? g : i == 0 ? gain : 1;
    V_CHECK(std::abs(s[i].b[0] - want) <= 1e-12L * std::abs(want), "gain", "section %zu of %zu has leading numerator coefficient %.17Lg, expected %.17Lg (%s mode): %s", i, n, s[i].b[0], want, distribute ? "distribute" : "first-section", what.c_str());
    if (!std::isfinite(s[i].b[0]) || s[i].b[0] == 0) return;
    num.push_back(std::make_pair(s[i].b[1] / s[i].b[0], s[i].b[2] / s[i].b[0]));
    den.push_back(std::make_pair(s[i].a[1], s[i].a[2]));
  }
  std::vector<char> used(p.size(), 0);
  int budget = 200000;
  if (!explain(den, p, used, 0, tol, budget))
    v::fail("poles", "denominators of the sections are not made of the design's poles, conjugates together: poles%s: %s", show(p).c_str(), what.c_str());
  if (budget < 0) V_COUNT("undecided");
  used.assign(z.size(), 0);
  budget = 200000;
  if (!explain(num, z, used, 0, tol, budget))
    v::fail("zeros", "numerators of the sections are not made of the design's zeros, conjugates together: zeros%s: %s", show(z).c_str(), what.c_str());
  if (budget < 0) V_COUNT("undecided");
}

// random roots closed under conjugation; pos: where they may lie
static void random_roots(v::Rng& g, std::complex<double>* o, std::size_t n, bool s_plane, bool zero_allowed) {
  std::vector<std::complex<double>> v;
  int style = static_cast<int>(g.below(6));
  while (v.size() < n) {
    bool real = n - v.size() == 1 || (style == 0 ? true : style == 1 ? false : g.chance(1, 2));
    double re, im;
    if (s_plane) {
      re = -std::exp(g.uniform(-2, 1));
      im = std::exp(g.uniform(-2, 1));
      if (zero_allowed && g.chance(1, 3)) re = g.chance(1, 2) ? 0 : -re;
    } else {
      double r = style == 2 ? 1.0 : style == 3 ? g.uniform(0.9, 0.999) : g.uniform(0.05, 0.98), t = g.uniform(0.05, 3.1);
      re = r * std::cos(t);
      im = r * std::sin(t);
      if (real) {
        static const double sp[] = {-1, 1, 0, 0.5, -0.5};
        re = zero_allowed && g.chance(1, 3) ? sp[g.below(5)] : g.uniform(-0.98, 0.98);
      }
    }
    if (!v.empty() && g.chance(1, 6)) {  // repeat an earlier root
      std::complex<double> c = v[g.below(v.size())];
      re = c.real();
      im = std::fabs(c.imag());
      real = im == 0;
    }
    else if (!v.empty() && g.chance(1, 4)) {  // share one coordinate (exactly or nearly) with an earlier root
      std::complex<double> c = v[g.below(v.size())];
      double near = g.chance(1, 3) ? std::exp(g.uniform(std::log(1e-7), std::log(1e-2))) : 0;
      if (g.chance(2, 3)) {
        re = c.real() * (1 + near);
        if (g.chance(1, 3)) im = std::fabs(c.imag()) * (1 + std::exp(g.uniform(std::log(1e-6), std::log(0.5))));
        if (s_plane && im == 0) im = 0.5;
        V_COUNT("shared_real_parts");
      } else if (c.imag() != 0) {
        im = std::fabs(c.imag()) * (1 + near);
        V_COUNT("shared_imaginary_parts");
      }
    }
    if (real) {
      if (s_plane && re == 0) continue;
      v.push_back(std::complex<double>(re, 0));
    } else if (n - v.size() >= 2 && im != 0) {
      bool up = g.chance(1, 2);
      v.push_back(std::complex<double>(re, up ? im : -im));
      v.push_back(std::complex<double>(re, up ? -im : im));
    }
  }
  if (g.chance(2, 3))
    for (std::size_t i = n; i > 1; --i) std::swap(v[i - 1], v[g.below(i)]);
  std::copy(v.begin(), v.end(), o);
}

static std::vector<C> wide(std::complex<double> const* v, std::size_t n) {
  std::vector<C> o;
  for (std::size_t i = 0; i < n; ++i) o.push_back(C(v[i].real(), v[i].imag()));
  return o;
}

static const L PI = 3.14159265358979323846264338327950288L;

// digital poles/zeros/gain of a prototype, long double
static void digital(bool high, L ratio, std::vector<C> z, std::vector<C> p, L k, std::vector<C>& dz, std::vector<C>& dp, L& dk) {
  L f = 4 * std::tan(PI * ratio);
  C g = k;
  std::size_t extra = p.size() - z.size();
  std::vector<C> az, ap;
  if (!high) {
    for (C c : z) az.push_back(f * c);
    for (C c : p) ap.push_back(f * c);
    g *= std::pow(f, L(extra));
  } else {
    for (C c : z) { az.push_back(f / c); g *= -c; }
    for (C c : p) { ap.push_back(f / c); g /= -c; }
    for (std::size_t i = 0; i < extra; ++i) az.push_back(0);
  }
  for (C c : az) { dz.push_back((L(4) + c) / (L(4) - c)); g *= L(4) - c; }
  for (C c : ap) { dp.push_back((L(4) + c) / (L(4) - c)); g /= L(4) - c; }
  while (dz.size() < dp.size()) dz.push_back(-1);
  dk = g.real();
}

template <std::size_t Zn, std::size_t Pn>
static void custom() {
  char* sec = strdup(v::fmt("custom-%zu-%zu", Zn, Pn).c_str());
  v::Cases cs(sec, v::scale(500, 15000));
  while (cs.next()) {
    v::Rng& g = cs.rng;
    Proto<Zn, Pn> pr;
    bool high = g.chance(1, 2);
    random_roots(g, pr.z, Zn, true, !high);
    random_roots(g, pr.p, Pn, true, false);
    pr.k = std::exp(g.uniform(-3, 3));
    double ratio = g.uniform(0.02, 0.45), fs = std::exp(g.uniform(0, 10));
    std::vector<C> dz, dp;
    L dk;
    digital(high, L(fs * ratio) / L(fs), wide(pr.z, Zn), wide(pr.p, Pn), pr.k, dz, dp, dk);
    std::string what = v::fmt("custom %s, %zu zeros, %zu poles, fc/fs=%.17g, zeros", high ? "high pass" : "low pass", Zn, Pn, ratio) + show(wide(pr.z, Zn)) + " poles" + show(wide(pr.p, Pn));
    v::at("%.500s", what.c_str());
    es::iirfilter<double> f(fs);
    auto d = high ? f.highpass(pr, fs * ratio) : f.lowpass(pr, fs * ratio);
    if (std::fabs(static_cast<double>(dk)) < 1e-200) continue;
    // zeros of a low pass prototype may be in the right half plane close to the
    // bilinear pole s = 2 fs: keep to well conditioned ones
    bool ok = true;
    for (C c : dz) if (std::abs(c) > 50) ok = false;
    if (!ok) { V_COUNT("skipped_ill_conditioned"); continue; }
    judge(Pn, sections(d.template sos<double>()), dz, dp, dk, false, 1e-9L, what);
    if (dk > 0) judge(Pn, sections(d.template sos<double>(es::sos_gain::distribute)), dz, dp, dk, true, 1e-9L, what);
    else V_COUNT("negative_gain");
    std::size_t rp = 0, rz = 0;
    for (std::size_t i = 0; i < Pn; ++i) rp += pr.p[i].imag() == 0;
    for (std::size_t i = 0; i < Zn; ++i) rz += pr.z[i].imag() == 0;
    V_COUNT("custom_designs");
    if (rp && rp < Pn) V_COUNT("mixed_poles");
    if (rp >= 2 && rz < Zn) V_COUNT("real_poles_complex_zeros");
    v::distinct(v::mix(v::mix(Zn * 100 + Pn, rp * 64 + rz), v::hash_bytes(&pr, sizeof pr)));
  }
}

// digital zeros/poles given directly, as many zeros as poles
template <std::size_t N>
static void direct() {
  char* sec = strdup(v::fmt("direct-%zu", N).c_str());
  v::Cases cs(sec, v::scale(700, 25000));
  while (cs.next()) {
    v::Rng& g = cs.rng;
    Proto<N, N> pr;
    random_roots(g, pr.z, N, false, true);
    random_roots(g, pr.p, N, false, true);
    pr.k = std::exp(g.uniform(-6, 3));
    bool neg = g.chance(1, 6);
    if (neg) pr.k = -pr.k;
    std::string what = v::fmt("direct, order %zu, zeros", N) + show(wide(pr.z, N)) + " poles" + show(wide(pr.p, N));
    v::at("%.500s", what.c_str());
    auto zpk = pr.template spec<double>().zpk();
    es::sos_design<double, N> d(zpk, es::sos_gain::first_section);
    judge(N, sections(d), wide(pr.z, N), wide(pr.p, N), pr.k, false, 1e-13L, what);
    if (!neg) {
      es::sos_design<double, N> d2(zpk, es::sos_gain::distribute);
      judge(N, sections(d2), wide(pr.z, N), wide(pr.p, N), pr.k, true, 1e-13L, what);
    }
    V_COUNT("direct_designs");
    v::distinct(v::mix(N, v::hash_bytes(&pr, sizeof pr)));
  }
}

template <std::size_t N, typename Pr>
static void family_one(v::Rng& g, Pr const& pr, char const* name) {
  bool high = g.chance(1, 2);
  double ratio = g.uniform(0.02, 0.45), fs = 48000;
  auto zpk = pr.template spec<double>().zpk();
  std::vector<C> z, p, dz, dp;
  for (std::size_t i = 0; i < zpk.zeros().size(); ++i) z.push_back(C(zpk.zeros()[i].real(), zpk.zeros()[i].imag()));
  for (std::size_t i = 0; i < zpk.poles().size(); ++i) p.push_back(C(zpk.poles()[i].real(), zpk.poles()[i].imag()));
  L dk;
  digital(high, L(fs * ratio) / L(fs), z, p, zpk.gain(), dz, dp, dk);
  std::string what = v::fmt("%s order %zu %s pass fc/fs=%.17g", name, N, high ? "high" : "low", ratio);
  v::at("%s", what.c_str());
  es::iirfilter<double> f(fs);
  auto d = high ? f.highpass(pr, fs * ratio) : f.lowpass(pr, fs * ratio);
  judge(N, sections(d.template sos<double>()), dz, dp, dk, false, 1e-10L, what);
  judge(N, sections(d.template sos<double>(es::sos_gain::distribute)), dz, dp, dk, true, 1e-10L, what);
  V_COUNT("family_designs");
  v::distinct(v::mix(v::hash_str(name) + N * 2 + high, v::hash_bytes(&ratio, 8)));
}
template <std::size_t N>
static void family() {
  char* sec = strdup(v::fmt("family-%zu", N).c_str());
  v::Cases cs(sec, v::scale(60, 2000));
  while (cs.next()) {
    v::Rng& g = cs.rng;
    family_one<N>(g, es::butterworth<N>(), "butterworth");
    family_one<N>(g, es::chebyshev1<N>(g.uniform(0.1, 6)), "chebyshev1");
    family_one<N>(g, es::chebyshev2<N>(g.uniform(10, 80)), "chebyshev2");
    family_one<N>(g, es::bessel<N>(), "bessel");
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
#if PART == 0
  direct<1>(); direct<2>(); direct<3>(); direct<4>(); direct<5>(); direct<6>();
  direct<7>(); direct<8>(); direct<9>(); direct<10>(); direct<11>(); direct<12>();
  v::require("direct_designs", 12 * 600);
  v::require("shared_real_parts", 1000);
#elif PART == 1
  custom<0, 1>(); custom<0, 2>(); custom<0, 3>(); custom<0, 5>(); custom<0, 8>();
  custom<1, 1>(); custom<1, 2>(); custom<1, 3>(); custom<2, 2>(); custom<2, 3>();
  custom<2, 4>(); custom<2, 7>(); custom<3, 3>(); custom<3, 4>(); custom<3, 6>();
  custom<4, 4>(); custom<4, 5>(); custom<4, 6>(); custom<5, 6>(); custom<6, 6>();
  custom<6, 8>(); custom<7, 7>(); custom<7, 9>(); custom<8, 8>();
  v::require("custom_designs", 24 * 350);
  v::require("mixed_poles", 1000);
  v::require("real_poles_complex_zeros", 500);
#else
  family<1>(); family<2>(); family<3>(); family<4>(); family<5>(); family<6>(); family<7>();
  family<8>(); family<9>(); family<10>(); family<11>(); family<12>(); family<13>(); family<16>();
  v::require("family_designs", 14 * 200);
#endif
  v::sample("every section explained by one pair of poles and one pair of zeros");
  return v::finish();
}
