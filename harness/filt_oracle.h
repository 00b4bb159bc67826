// Independent long double oracle for the designed transfer functions.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <vector>

#include "filt.h"

typedef long double L;
typedef std::complex<L> C;
static const L PI = 3.14159265358979323846264338327950288L;

struct Analog {  // normalised low pass prototype, H(0) = k * prod(-z)/prod(-p)
  std::vector<C> z, p;
  L h0;  // gain at s = 0
};

static Analog analog(int family, int n, L ripple) {
  Analog a;
  a.h0 = 1;
  for (int k = 0; k < n; ++k) {
    L th = PI * (2 * k + 1) / (2 * n);
    L sn = std::sin(th), cs = (2 * k + 1 == n) ? 0.0L : std::cos(th);
    switch (family) {
    case BUTTER: a.p.push_back(C(-sn, cs)); break;
    case CHEB1: {
      L eps = std::sqrt(std::expm1(ripple * std::log(10.0L) / 10));
      L mu = std::asinh(1 / eps) / n;
      a.p.push_back(C(-std::sinh(mu) * sn, std::cosh(mu) * cs));
      if (n % 2 == 0) a.h0 = 1 / std::sqrt(1 + eps * eps);
      break;
    }
    case CHEB2: {
      L eps = 1 / std::sqrt(std::expm1(ripple * std::log(10.0L) / 10));
      L mu = std::asinh(1 / eps) / n;
      a.p.push_back(C(1) / C(-std::sinh(mu) * sn, std::cosh(mu) * cs));
      if (cs != 0) a.z.push_back(C(0, 1 / cs));
      break;
    }
    default: break;
    }
  }
  return a;
}

// The analog frequency s = X / Y that the digital frequency x (fraction of the
// sample rate) is mapped to by bilinear transform with prewarped cutoff c.
struct Map {
  C X, Y;
};
static Map map_frequency(bool high, L c, L x) {
  L sx = std::sin(PI * x), cx = std::cos(PI * x), sc = std::sin(PI * c), cc = std::cos(PI * c);
  if (x == 0.5L) { cx = 0; sx = 1; }
  Map m;
  if (!high) {
    m.X = C(0, sx * cc);
    m.Y = C(cx * sc, 0);
  } else {
    m.X = C(cx * sc, 0);
    m.Y = C(0, sx * cc);
  }
  L s = std::max(std::abs(m.X), std::abs(m.Y));
  m.X /= s;
  m.Y /= s;
  return m;
}
static C response(Analog const& a, Map const& m) {
  C num = a.h0, den = 1;
  size_t n = a.p.size(), nz = a.z.size();
  for (size_t i = 0; i < n; ++i) {
    num *= i < nz ? (m.X - a.z[i] * m.Y) / (-a.z[i]) : m.Y;
    den *= (m.X - a.p[i] * m.Y) / (-a.p[i]);
  }
  return num / den;
}
static C bessel_response(int n, Map const& m) {
  L t0 = 1;  // theta_n(0) = (2n-1)!!
  for (int k = 1; k <= n; ++k) t0 *= 2 * k - 1;
  L c = std::exp(std::log(t0) / n);
  C X = c * m.X, Y = m.Y;
  C a = 1, b = X + Y;  // T_0, T_1 ; scaled to stay finite
  C num = t0;
  for (int k = 0; k < n; ++k) num *= Y;
  for (int k = 2; k <= n; ++k) {
    C t = L(2 * k - 1) * Y * b + X * X * a;
    a = b;
    b = t;
  }
  return num / b;
}
static C oracle(int family, int n, bool high, L ripple, L c, L x) {
  Map m = map_frequency(high, c, x);
  if (family == BESSEL) return bessel_response(n, m);
  return response(analog(family, n, ripple), m);
}
// closed form of the squared magnitude, a second opinion on the oracle itself
static L closed_form(int family, int n, bool high, L ripple, L c, L x) {
  L w = std::tan(PI * x) / std::tan(PI * c);
  if (high) w = 1 / w;
  if (family == BUTTER) return 1 / (1 + std::pow(w, 2 * L(n)));
  auto T = [n](L u) { return u <= 1 ? std::cos(n * std::acos(u)) : std::cosh(n * std::acosh(u)); };
  if (family == CHEB1) {
    L e2 = std::expm1(ripple * std::log(10.0L) / 10);
    L t = T(w);
    return 1 / (1 + e2 * t * t);
  }
  L e2 = 1 / std::expm1(ripple * std::log(10.0L) / 10);
  L t = T(1 / w);
  L et = e2 * t * t;
  if (std::isinf(et)) return 1;
  return et / (1 + et);
}

// digital response of the design at frequency x, with a rounding error bound
struct Meas {
  C h;
  L bound;
};
static Meas measure(std::vector<Sec> const& s, L x, L unit) {
  C w = std::polar(1.0L, -2 * PI * x);
  if (x == 0.5L) w = C(-1, 0);
  C h = 1;
  L hi = 1, mag = 1;
  for (Sec const& q : s) {
    C num = q[0] + w * (q[1] + w * q[2]), den = q[3] + w * (q[4] + w * q[5]);
    L dn = unit * (std::abs(q[0]) + std::abs(q[1]) + std::abs(q[2]));
    L dd = unit * (std::abs(q[3]) + std::abs(q[4]) + std::abs(q[5]));
    h *= num / den;
    mag *= std::abs(num) / std::abs(den);
    hi *= (std::abs(num) + dn) / std::max(std::abs(den) - dd, 1e-300L);
    if (dd >= std::abs(den)) hi = INFINITY;
  }
  return Meas{h, hi - mag};
}
static Meas measure_poly(std::vector<long double> const& b, std::vector<long double> const& a, L bsum, L asum, L x, L unit) {
  C w = std::polar(1.0L, -2 * PI * x);
  if (x == 0.5L) w = C(-1, 0);
  C num = 0, den = 0;
  for (size_t i = b.size(); i-- > 0;) {
    num = num * w + b[i];
    den = den * w + a[i];
  }
  L dn = unit * bsum, dd = unit * asum;
  if (dd >= std::abs(den)) return Meas{num / den, INFINITY};
  return Meas{num / den, (std::abs(num) + dn) / (std::abs(den) - dd) - std::abs(num) / std::abs(den)};
}
