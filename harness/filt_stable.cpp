// C23: stability, finiteness and ratio-only dependence of designs.
#include "filt_oracle.h"
#include "vharness.h"

static L closest = 1;

static bool finite_all(Res const& r) {
  for (int m = 0; m < 2; ++m)
    for (auto& s : r.sos[m])
      for (auto x : s)
        if (!std::isfinite(x)) return false;
  for (auto x : r.pb) if (!std::isfinite(x)) return false;
  for (auto x : r.pa) if (!std::isfinite(x)) return false;
  return true;
}

static L radius(Sec const& s) {  // largest pole radius of a section
  C disc = std::sqrt(C(s[4] * s[4] - 4 * s[5]));
  return std::max(std::abs((-s[4] + disc) / 2.0L), std::abs((-s[4] - disc) / 2.0L));
}

static double ratio_of(v::Rng& g) {
  switch (g.below(8)) {
  case 0: return std::exp(g.uniform(std::log(1e-6), std::log(1e-3)));
  case 1: return 0.5 - std::exp(g.uniform(std::log(1e-6), std::log(1e-3)));
  case 2: return std::exp(g.uniform(std::log(1e-3), std::log(0.1)));
  case 3: return 0.5 - std::exp(g.uniform(std::log(1e-3), std::log(0.1)));
  case 4: return 0.25;
  case 5: { static const double e[] = {1e-6, 0.499999, 1e-5, 0.49999, 0.125, 0.375}; return e[g.below(6)]; }
  default: return g.uniform(0.02, 0.48);
  }
}

// Are the ideal sections distinguishable from unstable ones in double precision?
static bool representable(Req const& q, int n, double ratio) {
  if (q.family == BESSEL) return true;  // pole magnitudes are all close to one
  Analog a = analog(q.family, n, q.ripple);
  L t = std::tan(PI * L(ratio));
  for (C p : a.p) {
    C s = q.high ? t / p : t * p;
    C z = (C(1) + s) / (C(1) - s);
    L margin = std::min(std::norm(C(2) * s / (C(1) - s)), std::norm(C(2) / (C(1) - s)));  // |1-z|^2, |1+z|^2
    margin = std::min(margin, -4 * s.real() / std::norm(C(1) - s));                       // 1-|z|^2
    (void)z;
    if (margin < 1e-13L) return false;
  }
  return true;
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  std::vector<int> orders;
  for (int n = 1; n <= 100; ++n)
    if (Table::get().fn[n]) orders.push_back(n);
  for (int n : orders) {
    char* sec = strdup(v::fmt("order-%d", n).c_str());
    v::Cases cs(sec, v::scale(n <= 12 ? 600 : 250, n <= 12 ? 4000 : 1500));
    while (cs.next()) {
      v::Rng& g = cs.rng;
      Req q;
      q.family = static_cast<int>(g.below(NFAMILIES));
      q.high = g.chance(1, 2);
      q.fs = g.chance(1, 2) ? std::exp(g.uniform(-10, 20)) : 48000;
      double ratio = ratio_of(g);
      q.fc = q.fs * ratio;
      if (!(q.fc > 0 && q.fc < q.fs / 2)) continue;
      q.ripple = q.family == CHEB2 ? g.uniform(1, 150) : std::exp(g.uniform(std::log(1e-3), std::log(20.0)));
      v::at("%s order %d %s fs=%.17g fc=%.17g ripple=%.17g", q.family == 0 ? "butterworth" : q.family == 1 ? "chebyshev1" : q.family == 2 ? "chebyshev2" : "bessel", n, q.high ? "high" : "low", q.fs, q.fc, q.ripple);
      Res r;
      Table::get().fn[n](q, r);
      bool sane = representable(q, n, ratio);
      if (!sane) V_COUNT("designs_beyond_double_precision");
      if (!finite_all(r)) {
        v::fail("not-finite", "a coefficient is not finite: %s", v::st().where);
        continue;
      }
      L rho = 0;
      bool ok = true;
      for (int m = 0; m < 2; ++m) {
        V_CHECK(r.sos[m].size() == static_cast<size_t>((n + 1) / 2), "sections", "%zu sections", r.sos[m].size());
        for (auto& s : r.sos[m]) {
          bool stable = s[3] == 1 && s[5] < 1 && s[5] > -1 && std::abs(s[4]) < 1 + s[5];
          V_COUNT("sections");
          if (!stable) ok = false;
          if (!stable && sane) {
            v::fail("unstable", "section a = (%.17Lg, %.17Lg, %.17Lg) has a pole on or outside the unit circle: %s", s[3], s[4], s[5], v::st().where);
          }
          if (s[0] == 0 && n < 60) v::fail("vanished", "section has no leading numerator coefficient: %s", v::st().where);
          closest = std::min(closest, 1 - s[5]);
          rho = std::max(rho, radius(s));
        }
      }
      v::evaluated();
      // the design depends on the ratio only
      if (ok && g.chance(1, 2)) {
        double k = g.chance(1, 2) ? std::ldexp(1.0, static_cast<int>(g.range(-30, 30))) : std::exp(g.uniform(-12, 12));
        Req q2 = q;
        q2.fs *= k;
        q2.fc *= k;
        q2.want_poly = false;
        Res r2;
        Table::get().fn[n](q2, r2);
        if (!finite_all(r2)) v::fail("not-finite", "scaled by %.17g a coefficient is not finite: %s", k, v::st().where);
        else
          for (int i = 0; i < 10; ++i) {
            L c = ratio, x = i == 0 ? 0 : i == 1 ? 0.5L : i < 6 ? std::min(0.5L, c * std::exp(L(g.uniform(-1, 1)))) : L(g.uniform(0, 0.5));
            // relative change of the ratio by scaling, amplified by the slope of the response
            L fr = 1e-15L * 4;
            for (int m = 0; m < 2; ++m) {
              Meas a = measure(r.sos[m], x, (n + 4) * 6 * 2.22e-16L), b = measure(r2.sos[m], x, (n + 4) * 6 * 2.22e-16L);
              C w1 = oracle(q.family, n, q.high, q.ripple, c, x), w2 = oracle(q.family, n, q.high, q.ripple, c * (1 + fr), x);
              L tol = a.bound + b.bound + 4 * std::abs(w1 - w2) + 1e-11L * std::abs(a.h) + 1e-18L;
              if (!(tol < 1e-3L * (1 + std::abs(a.h)))) continue;
              V_CHECK(std::abs(a.h - b.h) <= tol, "scaling", "scaling both frequencies by %.17g changes the response at %.6Lg of fs by %.3Lg > %.3Lg: %s", k, x, std::abs(a.h - b.h), tol, v::st().where);
              V_COUNT("scaling_points");
            }
          }
      }
      // impulse response of instances
      L need = rho < 1 ? 80 / -std::log(rho) : INFINITY;
      if (ok && need < v::scale(4000, 20000) && g.chance(1, 2)) {
        size_t len = static_cast<size_t>(need) + 20 * static_cast<size_t>(n) + 50;
        q.input.assign(len, 0.0);
        q.input[0] = 1;
        bool poly = n <= 6 && ratio > 0.05 && ratio < 0.45 && (q.family != CHEB1 || q.ripple > 0.05) && (q.family != CHEB2 || (q.ripple > 10 && q.ripple < 100));
        q.want_poly = n <= 6;
        Res r3;
        Table::get().fn[n](q, r3);
        for (int f = 0; f < (poly ? 3 : 2); ++f) {
          double peak = 0, tail = 0;
          bool fin = true;
          for (size_t i = 0; i < r3.out[f].size(); ++i) {
            double y = std::fabs(r3.out[f][i]);
            if (!(y <= 1e6)) fin = false;
            peak = std::max(peak, y);
            if (i + 20 >= r3.out[f].size()) tail = std::max(tail, y);
          }
          V_CHECK(r3.out[f].size() == len, "one-to-one", "%zu outputs for %zu inputs", r3.out[f].size(), len);
          V_CHECK(fin, "unbounded", "impulse response (form %d) is unbounded: %s", f, v::st().where);
          V_CHECK(tail <= 1e-9 * peak, "no-decay", "impulse response (form %d) is still %.3g of its peak after %zu samples: %s", f, tail / peak, len, v::st().where);
          V_COUNT("impulse_responses");
          if (f == 2) V_COUNT("poly_impulse_responses");
        }
      }
      V_COUNT("designs");
      v::distinct(v::mix(v::mix(static_cast<uint64_t>(n) * 8 + q.high * 4 + static_cast<unsigned>(q.family), v::hash_bytes(&q.fc, 8)), v::hash_bytes(&q.ripple, 8)));
    }
  }
  v::sample(v::fmt("orders 1..%d, pole product closest to one: 1 - %.3Lg", orders.back(), closest));
  v::require("designs", 200 * orders.size());
  v::require("scaling_points", 1500 * orders.size());
  v::require("impulse_responses", 30 * orders.size());
  v::require("poly_impulse_responses", 60);
  return v::finish();
}
