// C19..C22: frequency response (magnitude and phase) of designs against the
// ideal prototype mapped by the prewarped bilinear transform.  -DFAMILY=n
#include "filt_oracle.h"
#include "vharness.h"

#ifndef UNITK
#define UNITK 6
#endif

static L worst_sos = 0, worst_poly = 0, tightest = 1;

static Req random_req(v::Rng& g, int n) {
  Req q;
  q.family = FAMILY;
  q.high = g.chance(1, 2);
  static const double rates[] = {1, 2, 44100, 48000, 1000, 0.5, 1e6, 8000};
  q.fs = g.chance(1, 6) ? std::exp(g.uniform(-14, 22)) : g.chance(1, 3) ? std::exp(g.uniform(-3, 14)) : rates[g.below(8)];
  double ratio;
  switch (g.below(6)) {
  case 0: ratio = std::exp(g.uniform(std::log(g.chance(1, 3) ? 1e-6 : 1e-4), std::log(0.02))); break;
  case 1: ratio = 0.5 - std::exp(g.uniform(std::log(g.chance(1, 3) ? 1e-7 : 1e-3), std::log(0.05))); break;
  case 2: ratio = 0.25; break;
  default: ratio = g.uniform(0.02, 0.48); break;
  }
  (void)n;
  q.fc = q.fs * ratio;
  if (FAMILY == CHEB1) q.ripple = g.chance(1, 4) ? std::exp(g.uniform(std::log(0.01), std::log(0.2))) : g.chance(1, 4) ? g.uniform(3, 12) : g.uniform(0.1, 3);
  if (FAMILY == CHEB2) q.ripple = g.chance(1, 4) ? g.uniform(3, 15) : g.chance(1, 4) ? g.uniform(80, 130) : g.uniform(15, 80);
  if (FAMILY == CHEB1 && g.chance(1, 6)) q.ripple = std::exp(g.uniform(std::log(1e-6), std::log(40.0)));
  if (FAMILY == CHEB2 && g.chance(1, 6)) q.ripple = std::exp(g.uniform(std::log(0.1), std::log(250.0)));
  return q;
}

static void check_design(Req const& q, Res const& r, int n, v::Rng& g, int points) {
  L fs = q.fs, c = L(q.fc) / fs;
  L eps = 2.22e-16L;
  L unit = UNITK * (n + 4) * eps;
  // natural scale of the polynomial coefficients
  L asum = std::pow(2.0L, n), bsum = 0;
  if (!r.pb.empty()) {
    bsum = std::abs(r.pb[0]) * std::pow(2.0L, n);
    for (auto x : r.pb) if (!std::isfinite(x)) { v::fail("not-finite", "polynomial coefficient not finite"); return; }
  }
  for (int m = 0; m < 2; ++m)
    for (auto& s : r.sos[m])
      for (auto x : s)
        if (!std::isfinite(x)) {
          v::fail("not-finite", "section coefficient not finite");
          return;
        }
  for (int k = 0; k < points; ++k) {
    L x;
    switch (k) {
    case 0: x = 0; break;
    case 1: x = 0.5L; break;
    case 2: x = c; break;
    default:
      switch (g.below(4)) {
      case 0: x = c * std::exp(L(g.uniform(-0.1, 0.1))); break;
      case 1: x = c * L(g.unit()); break;
      case 2: x = c + (0.5L - c) * L(g.unit()); break;
      default: x = 0.5L * L(g.unit()); break;
      }
    }
    if (x > 0.5L) x = 0.5L;
    C want = oracle(FAMILY, n, q.high, q.ripple, c, x);
    L m2 = std::norm(want);
    if (FAMILY != BESSEL && x > 0 && x < 0.4999L) {  // the oracle must agree with the closed form
      L cf = closed_form(FAMILY, n, q.high, q.ripple, c, x);
      if (std::abs(std::sqrt(cf) - std::sqrt(m2)) > 1e-9L * (1 + n)) {
        fprintf(stderr, "oracle disagrees with itself: family %d n %d high %d c %Lg x %Lg: %Lg vs %Lg\n", FAMILY, n, q.high, c, x, cf, m2);
        _exit(96);
      }
      V_COUNT("oracle_cross_checks");
    }
    for (int form = 0; form < 3; ++form) {
      Meas got;
      if (form < 2) got = measure(r.sos[form], x, unit);
      else if (!r.pb.empty()) got = measure_poly(r.pb, r.pa, bsum, asum, x, unit);
      else continue;
      // the position of the cutoff itself is rounded: slope of the response
      C w2 = oracle(FAMILY, n, q.high, q.ripple, c * (1 + 4 * eps), x);
      L slope = std::abs(w2 - want) * 4;
      // 10^(ripple/10) - 1 cancels for small ripples
      if ((FAMILY == CHEB1 || FAMILY == CHEB2) && q.ripple < 0.1)
        slope += 4 * std::abs(oracle(FAMILY, n, q.high, q.ripple * (1 + 4 * eps / (0.23L * L(q.ripple))), c, x) - want);
      L tol = 0.25L * (got.bound + slope) + 2e-13L * std::abs(want) + 1e-18L;
      if (FAMILY == CHEB1 && q.ripple > 6) tol *= q.ripple / 3;  // poles approach the circle
      L err = std::abs(got.h - want);
      static const char* names[] = {"sos", "sos-distributed", "poly"};
      if (!(tol < 1e-3L * (1 + std::abs(want)))) {
        if (form == 2) V_COUNT("poly_points_too_ill_conditioned");
        else V_COUNT("sos_points_too_ill_conditioned");
        continue;
      }
      if (!(err <= tol)) {
        v::fail(names[form], "order %d %s fs=%.17g fc=%.17g ripple=%.17g at %.6Lg of fs: response (%.12Lg,%.12Lg), ideal (%.12Lg,%.12Lg), error %.3Lg > %.3Lg", n,
                q.high ? "high pass" : "low pass", q.fs, q.fc, q.ripple, x, got.h.real(), got.h.imag(), want.real(), want.imag(), err, tol);
        return;
      }
      L ratio = err / tol;
      if (form < 2) worst_sos = std::max(worst_sos, ratio);
      else worst_poly = std::max(worst_poly, ratio);
      tightest = std::min(tightest, tol);
      if (form == 2) V_COUNT("poly_points");
      else V_COUNT("sos_points");
      if (tol < 1e-8L) V_COUNT("points_checked_below_1e-8");
      if (k == 2) V_COUNT("cutoff_points");
    }
    v::evaluated();
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  std::vector<int> orders;
  for (int n = 1; n <= 100; ++n)
    if (Table::get().fn[n]) orders.push_back(n);
  for (int n : orders) {
    char* sec = strdup(v::fmt("order-%d", n).c_str());
    v::Cases cs(sec, v::scale(n <= 10 ? 150 : 80, n <= 10 ? 6000 : 2500));
    while (cs.next()) {
      Req q = random_req(cs.rng, n);
      v::at("order %d %s fs=%.17g fc=%.17g ripple=%.17g", n, q.high ? "high" : "low", q.fs, q.fc, q.ripple);
      Res r;
      Table::get().fn[n](q, r);
      if (r.order != static_cast<size_t>(n) || r.nsec != static_cast<size_t>((n + 1) / 2)) v::fail("order", "order() = %zu, %zu sections", r.order, r.nsec);
      check_design(q, r, n, cs.rng, 24);
      V_COUNT("designs");
      v::distinct(v::mix(v::mix(static_cast<uint64_t>(n) * 2 + q.high, v::hash_bytes(&q.fc, 8)), v::hash_bytes(&q.ripple, 8)));
    }
  }
  v::sample(v::fmt("orders 1..%d, largest error/bound: sections %.3Lg, polynomial %.3Lg; tightest bound %.3Lg", orders.back(), worst_sos, worst_poly, tightest));
  v::require("designs", 80 * orders.size());
  v::require("sos_points", 3000 * orders.size());
  v::require("poly_points", 700 * orders.size());
  v::require("points_checked_below_1e-8", 1800 * orders.size());
  return v::finish();
}
