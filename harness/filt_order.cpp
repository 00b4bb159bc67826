// One order (ORDER): designs of every family through the public API.
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#include "filt.h"

namespace es = embedded::signal;
#ifndef FAMILIES
#define FAMILIES 15
#endif
#ifndef DT
#define DT double
#endif

namespace {
template <class D>
void sections(D const& d, std::vector<Sec>& o) {
  for (std::size_t i = 0; i < D::size(); ++i) {
    auto b = d.sos()[i].b();
    auto a = d.sos()[i].a();
    o.push_back(Sec{{b[0], b[1], b[2], a[0], a[1], a[2]}});
  }
}
template <class D>
void run(D const& d, std::vector<double> const& in, std::vector<double>& out) {
  auto inst = d.instance();
  for (double x : in) out.push_back(static_cast<double>(inst(x)));
}
template <class Des>
void all(Des const& des, Req const& q, Res& r) {
  auto s1 = des.template sos<double>();
  auto s2 = des.template sos<double>(es::sos_gain::distribute);
  r.order = s1.order();
  r.nsec = s1.size();
  sections(s1, r.sos[0]);
  sections(s2, r.sos[1]);
  if (!q.input.empty()) {
    run(s1, q.input, r.out[0]);
    run(s2, q.input, r.out[1]);
  }
#ifndef NO_POLY
  if (q.want_poly) {
    auto p = des.template poly<double>();
    auto b = p.b();
    auto a = p.a();
    for (std::size_t i = 0; i <= ORDER; ++i) {
      r.pb.push_back(b[i]);
      r.pa.push_back(a[i]);
    }
    if (!q.input.empty()) run(p, q.input, r.out[2]);
  }
#endif
}
template <class Proto>
void kind(Proto const& p, Req const& q, Res& r) {
  es::iirfilter<DT> f(static_cast<DT>(q.fs));
  if (q.high) all(f.highpass(p, static_cast<DT>(q.fc)), q, r);
  else all(f.lowpass(p, static_cast<DT>(q.fc)), q, r);
}
void design(Req const& q, Res& r) {
  switch (q.family) {
#if FAMILIES & 1
  case BUTTER: kind(es::butterworth<ORDER>(), q, r); break;
#endif
#if FAMILIES & 2
  case CHEB1: kind(es::chebyshev1<ORDER>(q.ripple), q, r); break;
#endif
#if FAMILIES & 4
  case CHEB2: kind(es::chebyshev2<ORDER>(q.ripple), q, r); break;
#endif
#if FAMILIES & 8
  case BESSEL: kind(es::bessel<ORDER>(), q, r); break;
#endif
  default: break;
  }
}
struct Reg {
  Reg() { Table::get().fn[ORDER] = design; }
} reg;
}  // namespace
