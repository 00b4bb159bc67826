// C33: everything ostream_ops.h prints is read back by an independent parser.
#include <sys/resource.h>
#include <cstdint>

// Stand-in for the bundled (absent) fixed point library: what ostream_ops.h
// uses of it is the conversion to double and the raw value.
namespace fpm {
template <typename T1, typename T2, unsigned B>
class fixed {
 public:
  constexpr fixed() : raw_(0) {}
  constexpr fixed(double d) : raw_(static_cast<T1>(static_cast<int64_t>(d * static_cast<double>(static_cast<int64_t>(1) << B)))) {}
  static fixed from_raw(T1 r) {
    fixed f;
    f.raw_ = r;
    return f;
  }
  explicit operator double() const { return static_cast<double>(raw_) / static_cast<double>(static_cast<int64_t>(1) << B); }
  T1 raw_value() const { return raw_; }

 private:
  T1 raw_;
};
} // namespace fpm

#include <embedded/ostream_ops.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/filter.h>
#include <embedded/signal/sos.h>

#include <cmath>
#include <iomanip>
#include <limits>
#include <sstream>

#include "vharness.h"

namespace cm = embedded::cmath;
namespace es = embedded::signal;
using v::Rng;

typedef fpm::fixed<int32_t, int64_t, 16> Fx;
typedef fpm::fixed<int16_t, int32_t, 8> Fs;
typedef fpm::fixed<int8_t, int16_t, 4> Fb;
typedef fpm::fixed<uint8_t, uint16_t, 6> Fu;
typedef fpm::fixed<int64_t, long double, 30> Fl;

// --- random values ------------------------------------------------------------
template <typename T>
static T number(Rng& r) {
  static double const sp[] = {0.0, -0.0, 1, -1, 0.5, 1e-300, 1e300, 3.14159265358979, 100, -1e-7};
  if (r.chance(1, 24)) return r.chance(1, 2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
  if (r.chance(1, 32)) return std::copysign(std::numeric_limits<T>::quiet_NaN(), r.chance(1, 2) ? T{1} : T{-1});
  if (r.chance(1, 3)) return static_cast<T>(sp[r.below(10)]);
  long double m = 1 + static_cast<long double>(r.next() >> 1) / 9223372036854775808.0L;
  int e = r.chance(1, 2) ? 6 : std::numeric_limits<T>::max_exponent - 2;
  return static_cast<T>(std::ldexp(r.chance(1, 2) ? m : -m, static_cast<int>(r.range(-e, e))));
}
template <typename T>
struct Val {  // random value; expected token; equality after parsing
  static T get(Rng& r) { return number<T>(r); }
};
template <typename T>
struct Val<cm::complex<T>> {
  static cm::complex<T> get(Rng& r) { return cm::complex<T>(number<T>(r), number<T>(r)); }
};
template <>
struct Val<int> {
  static int get(Rng& r) { return r.chance(1, 6) ? (r.chance(1, 2) ? INT32_MIN : INT32_MAX) : static_cast<int>(r.range(-100, 100)); }
};
template <>
struct Val<Fx> {
  static Fx get(Rng& r) { return Fx::from_raw(static_cast<int32_t>(r.chance(1, 3) ? r.next() : static_cast<uint64_t>(r.range(-70000, 70000)))); }
};
template <>
struct Val<Fs> {
  static Fs get(Rng& r) { return Fs::from_raw(static_cast<int16_t>(r.next())); }
};
template <>
struct Val<Fb> {
  static Fb get(Rng& r) { return Fb::from_raw(static_cast<int8_t>(r.next())); }
};
template <>
struct Val<Fu> {
  static Fu get(Rng& r) { return Fu::from_raw(static_cast<uint8_t>(r.next())); }
};
template <>
struct Val<Fl> {
  static Fl get(Rng& r) { return Fl::from_raw(static_cast<int64_t>(r.next()) >> r.below(64)); }
};
template <typename T, std::size_t N>
struct Val<std::array<T, N>> {
  static std::array<T, N> get(Rng& r) {
    std::array<T, N> a{};
    for (std::size_t i = 0; i < N; ++i) a[i] = Val<T>::get(r);
    return a;
  }
};
template <typename T>
struct Drawer {
  Rng* r;
  T operator()(std::size_t) const { return Val<T>::get(*r); }
};
template <typename T, std::size_t N>
struct Val<cm::vector<T, N>> {
  static cm::vector<T, N> get(Rng& r) { return cm::vector<T, N>::create(Drawer<T>{&r}); }
};
template <typename T>
struct Val<es::sos_section<T>> {
  static es::sos_section<T> get(Rng& r) {
    typedef cm::complex<double> C;
    C z(r.uniform(-1, 1), r.uniform(-1, 1)), p(r.uniform(-1, 1), r.uniform(-1, 1));
    if (r.chance(1, 4)) z = C(0, 0);
    return es::sos_section<T>(cm::vector<C, 2>{z, z.conj()}, cm::vector<C, 2>{p, p.conj()}, r.chance(1, 5) ? -0.0 : r.uniform(-2, 2));
  }
};
template <std::size_t Z, std::size_t P, typename F>
struct Val<es::detail::zpk_value<Z, P, F>> {
  static es::detail::zpk_value<Z, P, F> get(Rng& r) { return es::detail::zpk_value<Z, P, F>(Val<cm::vector<cm::complex<F>, Z>>::get(r), Val<cm::vector<cm::complex<F>, P>>::get(r), number<F>(r)); }
};

// --- parser ----------------------------------------------------------------------
struct Parser {
  std::string const& s;
  std::ios const& fmt;  // formatting the numbers were printed with
  std::size_t p;
  bool ok;
  bool exact;  // precision sufficient for the values to come back
  std::string why;

  Parser(std::string const& t, std::ios const& f, bool e) : s(t), fmt(f), p(0), ok(true), exact(e) {}

  void bad(std::string const& m) {
    if (ok) why = m + v::fmt(" at %zu of \"%s\"", p, s.substr(0, 400).c_str());
    ok = false;
  }
  void skip() {
    while (p < s.size() && s[p] == ' ') ++p;
  }
  void expect(char const* t) {
    skip();
    std::size_t n = strlen(t);
    if (s.compare(p, n, t) != 0) return bad(std::string("expected '") + t + "'");
    p += n;
  }
  // the number as the stream itself prints it, then its value
  template <typename T>
  void number_token(T x, bool sign_required) {
    if (!ok) return;
    if (!sign_required) skip();
    std::ostringstream o;
    o.copyfmt(fmt);
    o.width(0);
    if (sign_required) o << std::showpos;
    o << x;
    std::string const want = o.str();
    if (s.compare(p, want.size(), want) != 0) {
      // NaN has no showpos form in some libraries: accept an explicit sign
      return bad("expected the number '" + want + "'");
    }
    if (sign_required && p < s.size() && s[p] != '+' && s[p] != '-') return bad("imaginary part without sign");
    char* e;
    long double got = strtold(s.c_str() + p, &e);
    V_COUNT("numbers");
    if (static_cast<std::size_t>(e - s.c_str()) != p + want.size()) return bad("number runs on after '" + want + "'");
    p += want.size();
    value(x, got);
  }
  template <typename T>
  void value(T x, long double got) {
    long double lx = static_cast<long double>(x);
    if (std::isnan(lx)) {
      if (!std::isnan(got)) bad("NaN lost");
      return;
    }
    if (std::signbit(lx) != std::signbit(got)) return bad("sign lost");
    if (exact && static_cast<T>(got) != x) bad("value lost");
  }
  void item(float x) { number_token(x, false); }
  void item(double x) { number_token(x, false); }
  void item(long double x) { number_token(x, false); }
  void item(int x) {
    skip();
    char* e;
    long long g = strtoll(s.c_str() + p, &e, 10);
    p = static_cast<std::size_t>(e - s.c_str());
    V_COUNT("numbers");
    if (g != x) bad(v::fmt("expected %d", x));
  }
  template <typename T>
  void item(cm::complex<T> const& z) {
    number_token(z.real(), false);
    number_token(z.imag(), true);
    if (ok) {
      if (s.compare(p, 1, "j") != 0) return bad("expected 'j'");
      ++p;
    }
    if (std::signbit(z.imag())) V_COUNT("negative imaginary parts");
    V_COUNT("complex numbers");
  }
  template <typename A, typename B, unsigned F>
  void item(fpm::fixed<A, B, F> const& f) {
    number_token(static_cast<double>(f), false);
    expect("(");
    skip();
    char* e;
    long long g = strtoll(s.c_str() + p, &e, 10);
    p = static_cast<std::size_t>(e - s.c_str());
    if (g != f.raw_value()) bad(v::fmt("expected the raw value %lld", static_cast<long long>(f.raw_value())));
    expect(")");
    V_COUNT("fixed-point values");
  }
  template <typename C>
  void list(C const& c, std::size_t n) {
    expect("[");
    for (std::size_t i = 0; i < n && ok; ++i) {
      if (i) expect(",");
      item(c[i]);
    }
    expect("]");
    if (n == 0) V_COUNT("empty lists");
  }
  template <typename T, std::size_t N>
  void item(cm::vector<T, N> const& a) { list(a, N); }
  template <typename T, std::size_t N>
  void item(std::array<T, N> const& a) { list(a, N); }
  template <typename T>
  void item(es::sos_section<T> const& x) {
    expect("{");
    expect("b=");
    item(x.b());
    expect(",");
    expect("a=");
    item(x.a());
    expect("}");
    V_COUNT("sections");
  }
  template <std::size_t Z, std::size_t P, typename F>
  void item(es::detail::zpk_value<Z, P, F> const& x) {
    expect("{");
    expect("zeros=");
    item(x.zeros());
    expect(",");
    expect("poles=");
    item(x.poles());
    expect(",");
    expect("gain=");
    item(x.gain());
    expect("}");
    V_COUNT("zero/pole/gain sets");
  }
};

template <typename T>
static void stream(Rng& r, char const* type) {
  T const x = Val<T>::get(r);
  std::ostringstream o;
  bool exact = true;
  switch (r.below(6)) {
    case 0: o << std::setprecision(21); break;
    case 1: o << std::scientific << std::setprecision(21); break;
    case 2: o << std::setprecision(static_cast<int>(r.range(1, 12))); exact = false; break;
    case 3: o << std::fixed << std::setprecision(static_cast<int>(r.range(0, 9))); exact = false; break;
    case 4: o << std::hexfloat; break;
    default: exact = false; break;  // default precision
  }
  if (r.chance(1, 5)) o << std::showpos;
  if (r.chance(1, 5)) o << std::showpoint;
  if (r.chance(1, 8)) o << std::uppercase;
  std::ios::fmtflags const flags = o.flags();
  std::streamsize const prec = o.precision();
  std::string const before = r.chance(1, 2) ? "x: " : "";
  o << before;
  v::at("%s", type);
  std::ostream* ret = &(o << x << '|');
  std::string text = o.str();
  v::evaluated();
  v::distinct(v::hash_str(text.c_str()));
  V_CHECK(ret == &o, "stream", "operator<< returns another stream");
  V_CHECK(o.flags() == flags && o.precision() == prec && o.good(), "stream", "%s: stream state changed", type);
  V_CHECK(text.size() > before.size() && text[text.size() - 1] == '|' && text.compare(0, before.size(), before) == 0, "stream", "%s: text around the value damaged: \"%s\"", type, text.substr(0, 300).c_str());
  text = text.substr(before.size(), text.size() - before.size() - 1);
  Parser p(text, o, exact);
  p.item(x);
  if (p.ok && p.p != text.size()) p.bad("text after the value");
  V_CHECK(p.ok, type, "%s: %s", type, p.why.c_str());
  if (exact) V_COUNT("exact round trips");
  if (v::st().samples.size() < 5 && text.size() > 10 && text.size() < 90) v::sample(text);
}
#define S(...) stream<__VA_ARGS__>(c.rng, #__VA_ARGS__)

// output without end must not take the machine's memory with it
#if defined(__SANITIZE_ADDRESS__)
#define STREAMS_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define STREAMS_ASAN 1
#endif
#endif
#ifdef STREAMS_ASAN
extern "C" const char* __asan_default_options() { return "hard_rss_limit_mb=2500"; }
static void limit_memory() {}
#else
static void limit_memory() {
  rlimit r{2500ull << 20, 2500ull << 20};
  setrlimit(RLIMIT_AS, &r);
}
#endif

int main(int argc, char** argv) {
  limit_memory();
  v::init(argc, argv);
  for (v::Cases c("streams", v::scale(2500, 150000)); c.next();) {
    S(cm::complex<float>);
    S(cm::complex<double>);
    S(cm::complex<long double>);
    S(cm::vector<double, 0>);
    S(cm::vector<double, 1>);
    S(cm::vector<float, 2>);
    S(cm::vector<long double, 3>);
    S(cm::vector<int, 5>);
    S(cm::vector<cm::complex<double>, 0>);
    S(cm::vector<cm::complex<double>, 1>);
    S(cm::vector<cm::complex<float>, 2>);
    S(cm::vector<cm::complex<double>, 7>);
    S(cm::vector<cm::vector<double, 2>, 3>);
    S(std::array<double, 0>);
    S(std::array<int, 1>);
    S(std::array<float, 3>);
    S(std::array<cm::complex<double>, 4>);
    S(std::array<std::array<int, 2>, 2>);
    S(std::array<cm::vector<cm::complex<float>, 2>, 2>);
    S(cm::vector<std::array<double, 1>, 2>);
    S(es::sos_section<float>);
    S(es::sos_section<double>);
    S(cm::vector<es::sos_section<double>, 1>);
    S(cm::vector<es::sos_section<float>, 3>);
    S(es::detail::zpk_value<0, 0, double>);
    S(es::detail::zpk_value<1, 2, double>);
    S(es::detail::zpk_value<3, 3, float>);
    S(es::detail::zpk_value<2, 0, long double>);
    S(Fx);
    S(Fb);
    S(Fu);
    S(Fl);
    S(cm::vector<Fb, 4>);
    S(std::array<Fu, 3>);
    S(es::sos_section<Fu>);
    S(es::sos_section<Fl>);
    S(Fs);
    S(cm::vector<Fx, 3>);
    S(std::array<Fs, 2>);
    S(es::sos_section<Fx>);
    // long lists, at which a formatter might wrap, abbreviate or re-format
    if (c.index() % 4 == 0) {
      S(cm::vector<double, 16>);
      S(cm::vector<float, 33>);
      S(cm::vector<double, 65>);
      S(cm::vector<cm::complex<double>, 40>);
      S(cm::vector<int, 130>);
      S(cm::vector<Fx, 36>);
      S(cm::vector<es::sos_section<double>, 34>);
      S(std::array<double, 17>);
      S(std::array<double, 100>);
      S(std::array<int, 257>);
      S(std::array<cm::complex<float>, 40>);
      S(es::detail::zpk_value<33, 36, double>);
      S(cm::vector<cm::vector<double, 9>, 9>);
    }
  }
  // the order of streaming and what the caller set in between
  for (v::Cases c("longer", v::scale(6, 200)); c.next();) {
    S(cm::vector<double, 300>);
    S(std::array<double, 1500>);
  }
  v::require("complex numbers", 20000);
  v::require("negative imaginary parts", 8000);
  v::require("sections", 5000);
  v::require("zero/pole/gain sets", 5000);
  v::require("fixed-point values", 5000);
  v::require("empty lists", 3000);
  v::require("exact round trips", 10000);
  return v::finish();
}
