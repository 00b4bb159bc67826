// Interface between the per-order translation units and the filter monitors.
#pragma once
#include <array>
#include <cstddef>
#include <vector>

enum Family { BUTTER, CHEB1, CHEB2, BESSEL, NFAMILIES };

struct Req {
  int family = BUTTER;
  bool high = false;
  double fs = 1, fc = 0.1, ripple = 1;
  bool want_poly = true;
  std::vector<double> input;  // optional: run instances over this
};
typedef std::array<long double, 6> Sec;  // b0 b1 b2 a0 a1 a2
struct Res {
  std::size_t order = 0, nsec = 0;
  std::vector<Sec> sos[2];  // first_section, distribute
  std::vector<long double> pb, pa;
  std::vector<double> out[3];  // sos first, sos distribute, poly
};
typedef void (*DesignFn)(Req const&, Res&);
struct Table {
  DesignFn fn[101] = {};
  static Table& get() {
    static Table t;
    return t;
  }
};
