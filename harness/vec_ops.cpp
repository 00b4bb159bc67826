// C30: cmath::vector against a std::vector model, for every size of a list
// and all element positions.  Elements: int (duplicates), a free term type
// (every arithmetic result is a hash of the expression, so operand order is
// visible), double with NaN / signed zeros / infinities, complex, string.
#include <embedded/constexpr_math/complex.h>
#include <embedded/constexpr_math/vector.h>

#include <algorithm>
#include <cmath>
#include <limits>
#include <numeric>

#include "vharness.h"

namespace cm = embedded::cmath;
using v::Rng;

#ifndef PART
#define PART 0
#endif

struct Sym {
  uint64_t h;
  constexpr Sym() : h(0x5eed) {}
  constexpr Sym(int i) : h(0x1000 + static_cast<uint64_t>(i)) {}
  static Sym raw(uint64_t x) {
    Sym s;
    s.h = x;
    return s;
  }
  friend bool operator==(Sym a, Sym b) { return a.h == b.h; }
};
static Sym term(char op, Sym a, Sym b) { return Sym::raw(v::mix(v::mix(static_cast<uint64_t>(op) * 0x9e3779b1u, a.h), b.h ^ 0x77)); }
static Sym operator*(Sym a, Sym b) { return term('*', a, b); }
static Sym operator+(Sym a, Sym b) { return term('+', a, b); }
static Sym operator-(Sym a, Sym b) { return term('-', a, b); }
static Sym operator/(Sym a, Sym b) { return term('/', a, b); }
static Sym operator-(Sym a) { return term('n', a, Sym(0)); }
static Sym exp(Sym a) { return term('e', a, Sym(0)); }

// --- values --------------------------------------------------------------
template <typename T>
struct Gen;
template <>
struct Gen<int> {
  static int get(Rng& r) { return r.chance(1, 12) ? (r.chance(1, 2) ? INT32_MAX : INT32_MIN) : static_cast<int>(r.range(-4, 4)); }
  static bool same(int a, int b) { return a == b; }
  static char const* name() { return "int"; }
};
template <>
struct Gen<Sym> {
  static Sym get(Rng& r) { return Sym(static_cast<int>(r.below(6))); }
  static bool same(Sym a, Sym b) { return a.h == b.h; }
  static char const* name() { return "term"; }
};
template <>
struct Gen<double> {
  static double get(Rng& r) {
    static double const sp[] = {0.0, -0.0, 1.0, -1.0, 2.5, 1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min()};
    if (r.chance(1, 12)) return std::numeric_limits<double>::quiet_NaN();
    if (r.chance(2, 3)) return sp[r.below(9)];
    return r.uniform(-3, 3);
  }
  static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
  static char const* name() { return "double"; }
};
template <>
struct Gen<cm::complex<double>> {
  static cm::complex<double> get(Rng& r) { return cm::complex<double>(Gen<double>::get(r), Gen<double>::get(r)); }
  static bool same(cm::complex<double> const& a, cm::complex<double> const& b) { return memcmp(&a, &b, sizeof a) == 0; }
  static char const* name() { return "complex"; }
};
template <>
struct Gen<std::string> {
  static std::string get(Rng& r) { return std::string(r.below(40), static_cast<char>('a' + r.below(3))); }
  static bool same(std::string const& a, std::string const& b) { return a == b; }
  static char const* name() { return "string"; }
};
template <>
struct Gen<cm::vector<int, 2>> {
  static cm::vector<int, 2> get(Rng& r) { return cm::vector<int, 2>{Gen<int>::get(r), Gen<int>::get(r)}; }
  static bool same(cm::vector<int, 2> const& a, cm::vector<int, 2> const& b) { return memcmp(&a, &b, sizeof a) == 0; }
  static char const* name() { return "vector<int,2>"; }
};

template <typename T, std::size_t N>
using Model = std::array<T, N>;

template <typename T, std::size_t N>
struct Pick {  // draws an element per index, remembers it in the model
  T const* m;
  T operator()(std::size_t i) const { return m[i]; }
};
template <typename T>
static std::vector<T> model(Rng& r, std::size_t n) {
  std::vector<T> m;
  for (std::size_t i = 0; i < n; ++i) m.push_back(Gen<T>::get(r));
  return m;
}
template <std::size_t N, typename T>
static cm::vector<T, N> make(std::vector<T> const& m) {
  return cm::make_vector<T>(Pick<T, N>{m.data()}, embedded::make_index_sequence<N>{});
}
template <typename T, std::size_t N>
static void same(cm::vector<T, N> const& a, std::vector<T> const& m, char const* what) {
  v::evaluated();
  V_COUNT("results compared");
  if (m.size() != N) {
    v::fail(what, "%s of %s: model has %zu elements, result %zu", what, Gen<T>::name(), m.size(), N);
    return;
  }
  static_assert(cm::vector<T, N>::size() == N, "size");
  for (std::size_t i = 0; i < N; ++i) {
    V_COUNT("elements compared");
    if (!Gen<T>::same(a[i], m[i])) {
      v::fail(what, "%s of %s: element %zu of %zu differs", what, Gen<T>::name(), i, N);
      return;
    }
  }
}
// The operand must come out of every operation as it went in.
template <typename T, std::size_t N>
struct Watch {
  cm::vector<T, N> const& a;
  std::vector<T> m;
  ~Watch() { same(a, m, "operand"); }
};

// --- operations over all positions -----------------------------------------
template <typename T, std::size_t N, std::size_t Pos, std::size_t Count, bool Ok = (Pos + Count <= N)>
struct Sub {
  static void go(cm::vector<T, N> const& a, std::vector<T> const& m) {
    v::at("size %zu subvector/erase<%zu,%zu>", N, Pos, Count);
    auto p = m.begin() + static_cast<std::ptrdiff_t>(Pos);
    same(a.template subvector<Pos, Count>(), std::vector<T>(p, p + static_cast<std::ptrdiff_t>(Count)), "subvector");
    std::vector<T> e(m);
    e.erase(e.begin() + static_cast<std::ptrdiff_t>(Pos), e.begin() + static_cast<std::ptrdiff_t>(Pos + Count));
    same(a.template erase<Pos, Count>(), e, "erase");
    if (Count == 1) {
      same(a.template erase<Pos>(), e.size() == N - 1 ? e : m, "erase");
    }
    Sub<T, N, Pos, Count + 1>::go(a, m);
  }
};
template <typename T, std::size_t N, std::size_t Pos, std::size_t Count>
struct Sub<T, N, Pos, Count, false> {
  static void go(cm::vector<T, N> const&, std::vector<T> const&) {}
};
template <typename T, std::size_t N>
struct Sub<T, N, N, 0, true> {  // erase<N,0>: nothing at the end
  static void go(cm::vector<T, N> const& a, std::vector<T> const& m) {
    same(a.template subvector<N, 0>(), std::vector<T>(), "subvector");
    same(a.template erase<N, 0>(), m, "erase");
  }
};
template <typename T, std::size_t N, std::size_t Pos>
struct AllSub {
  static void go(cm::vector<T, N> const& a, std::vector<T> const& m) {
    Sub<T, N, Pos, 0>::go(a, m);
    AllSub<T, N, Pos - 1>::go(a, m);
  }
};
template <typename T, std::size_t N>
struct AllSub<T, N, 0> {
  static void go(cm::vector<T, N> const& a, std::vector<T> const& m) { Sub<T, N, 0, 0>::go(a, m); }
};

template <std::size_t S2, typename T, std::size_t N>
static void append(Rng& r, cm::vector<T, N> const& a, std::vector<T> m) {
  v::at("size %zu append %zu", N, S2);
  std::vector<T> o = model<T>(r, S2);
  auto b = make<S2>(o);
  Watch<T, S2> w{b, o};
  m.insert(m.end(), o.begin(), o.end());
  same(a.append(b), m, "append");
}

template <typename T, std::size_t N, bool = (N > 0)>
struct NonEmpty {
  static void go(cm::vector<T, N> const& a, std::vector<T> const& m) {
    for (std::size_t i = 0; i < N; ++i) {
      for (std::size_t j = N > 9 ? i % 3 : 0; j < N; j += N > 9 ? 3 : 1) {
        v::at("size %zu swap(%zu,%zu)", N, i, j);
        std::vector<T> s(m);
        std::swap(s[i], s[j]);
        same(a.swap(i, j), s, "swap");
      }
      v::at("size %zu swappop(%zu)", N, i);
      std::vector<T> s(m);
      std::swap(s[i], s[0]);
      s.erase(s.begin());
      same(a.swappop(i), s, "swappop");
    }
  }
};
template <typename T, std::size_t N>
struct NonEmpty<T, N, false> {
  static void go(cm::vector<T, N> const&, std::vector<T> const&) {}
};

struct Recording {  // element -> (element, position of the call)
  std::vector<unsigned>* calls;
  std::size_t operator()(std::size_t i) const {
    if (i < calls->size()) ++(*calls)[i];
    else v::fail("create", "create called its function with index %zu of %zu", i, calls->size());
    return i * 3 + 1;
  }
};
template <>
struct Gen<std::size_t> {
  static bool same(std::size_t a, std::size_t b) { return a == b; }
  static char const* name() { return "size_t"; }
};

template <typename T>
struct Tagger {
  mutable unsigned* calls;
  std::pair<T, int> operator()(T const& x) const {
    ++*calls;
    return std::pair<T, int>(x, 7);
  }
};
template <typename T>
struct Gen<std::pair<T, int>> {
  static bool same(std::pair<T, int> const& a, std::pair<T, int> const& b) { return Gen<T>::same(a.first, b.first) && a.second == b.second; }
  static char const* name() { return "pair"; }
};

template <std::size_t N, typename T>
static void structural(Rng& r) {
  std::vector<T> m = model<T>(r, N);
  auto const a = make<N>(m);
  Watch<T, N> w{a, m};
  v::distinct(v::mix(v::mix(v::hash_str(Gen<T>::name()), N), r.next()));
  same(a, m, "construction");
  {
    cm::vector<T, N> c(a);
    same(c, m, "copy");
    same(cm::vector<T, N>(std::move(c)), m, "copy");
  }
  AllSub<T, N, (N <= 6 ? N : 0)>::go(a, m);
  append<0>(r, a, m);
  append<1>(r, a, m);
  append<2>(r, a, m);
  append<7>(r, a, m);
  NonEmpty<T, N>::go(a, m);
  // create, transform, full
  {
    v::at("size %zu create", N);
    std::vector<unsigned> calls(N, 0);
    auto c = cm::vector<std::size_t, N>::create(Recording{&calls});
    std::vector<std::size_t> e;
    for (std::size_t i = 0; i < N; ++i) e.push_back(i * 3 + 1);
    same(c, e, "create");
    for (std::size_t i = 0; i < N; ++i) V_CHECK(calls[i] == 1, "create", "function called %u times for index %zu", calls[i], i);
    same(cm::vector<T, N>::create(Pick<T, N>{m.data()}), m, "create");
  }
  {
    v::at("size %zu transform", N);
    unsigned calls = 0;
    auto t = a.template transform<std::pair<T, int>>(Tagger<T>{&calls});
    std::vector<std::pair<T, int>> e;
    for (std::size_t i = 0; i < N; ++i) e.push_back(std::pair<T, int>(m[i], 7));
    same(t, e, "transform");
    V_CHECK(calls == N, "transform", "function called %u times for %zu elements", calls, N);
  }
  {
    T x = Gen<T>::get(r);
    same(cm::vector<T, N>::full(x), std::vector<T>(N, x), "full");
  }
  // conversion from the same type by the converting constructor path
}

// --- equality ----------------------------------------------------------------
template <std::size_t N, typename T>
static void equality(Rng& r) {
  std::vector<T> m = model<T>(r, N);
  if (r.chance(1, 2))  // mostly without elements that differ from themselves
    for (std::size_t i = 0; i < N; ++i)
      while (!(m[i] == m[i])) m[i] = Gen<T>::get(r);
  std::vector<T> o(m);
  unsigned changes = static_cast<unsigned>(r.below(3));
  for (unsigned i = 0; i < changes && N; ++i) o[r.below(N)] = Gen<T>::get(r);
  bool eq = true;
  for (std::size_t i = 0; i < N; ++i) eq = eq && m[i] == o[i];
  auto const a = make<N>(m), b = make<N>(o);
  v::at("size %zu of %s ==", N, Gen<T>::name());
  v::evaluated();
  V_CHECK((a == b) == eq, "equality", "a == b is %d, elements compare %d (size %zu of %s)", a == b, eq, N, Gen<T>::name());
  V_CHECK((b == a) == eq, "equality", "b == a is %d, elements compare %d", b == a, eq);
  if (eq) V_COUNT("equal pairs");
  else V_COUNT("unequal pairs");
  // a single differing position is always noticed
  for (std::size_t i = 0; i < N; ++i) {
    std::vector<T> p(m);
    p[i] = Gen<T>::get(r);
    bool e = true;
    for (std::size_t k = 0; k < N; ++k) e = e && m[k] == p[k];
    V_CHECK((a == make<N>(p)) == e, "equality", "difference at %zu of %zu (%s) not judged right", i, N, Gen<T>::name());
  }
}

// --- predicates --------------------------------------------------------------
struct Keyed {
  int key, id;
};
template <>
struct Gen<Keyed> {
  static Keyed get(Rng& r) { return Keyed{static_cast<int>(r.range(-3, 3)), static_cast<int>(r.below(1000000))}; }
  static bool same(Keyed a, Keyed b) { return a.key == b.key && a.id == b.id; }
  static char const* name() { return "keyed"; }
};
struct Less {
  bool desc, mag;
  unsigned long* calls;
  bool operator()(Keyed const& a, Keyed const& b) const {
    ++*calls;
    int x = mag ? std::abs(a.key) : a.key, y = mag ? std::abs(b.key) : b.key;
    return desc ? x > y : x < y;
  }
};
struct Below {
  int bound;
  std::vector<int>* seen;
  bool operator()(Keyed const& a) const {
    seen->push_back(a.id);
    return a.key < bound;
  }
};
template <std::size_t N>
static void predicates(Rng& r) {
  std::vector<Keyed> m = model<Keyed>(r, N);
  unsigned shape = static_cast<unsigned>(r.below(4));
  for (std::size_t i = 0; i < N; ++i) {
    m[i].id = static_cast<int>(i);
    if (shape == 1) m[i].key = static_cast<int>(i);
    if (shape == 2) m[i].key = -static_cast<int>(i);
    if (shape == 3) m[i].key = 5;
  }
  auto const a = make<N>(m);
  Watch<Keyed, N> w{a, m};
  unsigned long calls = 0;
  Less less{r.chance(1, 2), r.chance(1, 2), &calls};
  v::at("size %zu sort/argmin/count shape %u", N, shape);
  if (N > 0) {
    std::size_t i = a.argmin(less), e = 0;
    for (std::size_t k = 1; k < N; ++k)
      if (less(m[k], m[e])) e = k;
    V_CHECK(i == e, "argmin", "argmin %zu, first minimum at %zu of %zu", i, e, N);
  }
  {
    auto s = a.sort(less);
    v::evaluated();
    std::vector<int> ids;
    for (std::size_t i = 0; i < N; ++i) {
      ids.push_back(s[i].id);
      V_CHECK(s[i].id >= 0 && s[i].id < static_cast<int>(N) && Gen<Keyed>::same(m[static_cast<std::size_t>(s[i].id)], s[i]), "sort", "element %zu of the sorted vector is none of the original", i);
      if (i) V_CHECK(!less(s[i], s[i - 1]), "sort", "elements %zu and %zu out of order", i - 1, i);
    }
    std::sort(ids.begin(), ids.end());
    for (std::size_t i = 0; i < N; ++i) V_CHECK(ids[i] == static_cast<int>(i), "sort", "element %zu lost or duplicated", i);
    V_COUNT("sorts");
  }
  {
    std::vector<int> seen;
    Below p{static_cast<int>(r.range(-4, 5)), &seen};
    std::size_t c = a.count(p), e = 0;
    for (std::size_t i = 0; i < N; ++i) e += m[i].key < p.bound;
    V_CHECK(c == e, "count", "counted %zu of %zu", c, e);
    // predicates answer with anything that converts to bool
    int mask = static_cast<int>(r.range(1, 7));
    std::size_t k1 = a.count([mask](Keyed const& k) { return (k.key + 16) & mask; }), k2 = a.count([mask](Keyed const& k) -> void const* { return ((k.key + 16) & mask) ? &k : nullptr; }), ke = 0;
    for (std::size_t i = 0; i < N; ++i) ke += ((m[i].key + 16) & mask) != 0;
    V_CHECK(k1 == ke, "count", "a predicate returning bit masks holds for %zu of %zu elements, counted %zu", ke, N, k1);
    V_CHECK(k2 == ke, "count", "a predicate returning pointers holds for %zu of %zu elements, counted %zu", ke, N, k2);
    std::sort(seen.begin(), seen.end());
    V_CHECK(seen.size() == N && std::unique(seen.begin(), seen.end()) == seen.end(), "count", "predicate evaluated %zu times for %zu elements", seen.size(), N);
  }
}

// --- folds and scalar arithmetic ------------------------------------------------
struct Fold {
  std::vector<uint64_t>* seen;
  Sym operator()(Sym acc, Sym x) const {
    seen->push_back(x.h);
    return term('f', acc, x);
  }
};
struct Sum {
  template <typename T>
  T operator()(T const& a, T const& b) const { return a + b; }
};
template <std::size_t N>
static void folds(Rng& r) {
  std::vector<Sym> m;
  for (std::size_t i = 0; i < N; ++i) m.push_back(Sym(static_cast<int>(100 + i)));
  auto const a = make<N>(m);
  Watch<Sym, N> w{a, m};
  v::at("size %zu reduce", N);
  {
    std::vector<uint64_t> seen;
    Sym init(static_cast<int>(r.below(1000)) + 5000);
    Sym got = a.reduce(Fold{&seen}, init);
    // every element exactly once, starting from the initial value: in whatever
    // order the calls were made, the result is that fold
    Sym e = init;
    for (std::size_t i = 0; i < seen.size(); ++i) e = term('f', e, Sym::raw(seen[i]));
    V_CHECK(got == e, "reduce", "result is not the fold of the %zu elements passed", seen.size());
    std::vector<uint64_t> all;
    for (std::size_t i = 0; i < N; ++i) all.push_back(m[i].h);
    std::sort(all.begin(), all.end());
    std::sort(seen.begin(), seen.end());
    V_CHECK(seen == all, "reduce", "%zu calls for %zu elements, or not each once", seen.size(), N);
    if (N == 0) V_CHECK(got == init, "reduce", "empty reduce does not return the initial value");
    v::evaluated();
  }
  {
    std::vector<int> im;
    int sum = 3, product = 1;
    for (std::size_t i = 0; i < N; ++i) {
      im.push_back(static_cast<int>(r.range(-50, 50)));
      sum += im.back();
    }
    V_CHECK(make<N>(im).reduce(Sum(), 3) == sum, "reduce", "sum over %zu elements", N);
    for (std::size_t i = 0; i < N; ++i) {
      im[i] = static_cast<int>(r.range(-2, 2));
      if (i >= 20 && im[i] != 0) im[i] = im[i] > 0 ? 1 : -1;
      product *= im[i];
    }
    V_CHECK(cm::prod(make<N>(im)) == product, "prod", "product over %zu elements", N);
    std::vector<int> ones(N, 1), zeros(N, 0);
    bool okones = cm::vector<int, N>::ones() == make<N>(ones), okzeros = cm::vector<int, N>::zeros() == make<N>(zeros);
    V_CHECK(okones, "ones", "ones of size %zu", N);
    V_CHECK(okzeros, "zeros", "zeros of size %zu", N);
    same(cm::vector<Sym, N>::ones(), std::vector<Sym>(N, Sym(1)), "ones");
    same(cm::vector<Sym, N>::zeros(), std::vector<Sym>(N, Sym(0)), "zeros");
  }
  {
    v::at("size %zu scalar arithmetic", N);
    Sym x(static_cast<int>(r.below(1000)) + 7000);
    std::vector<Sym> e1, e2, e3, e4, e5, e6;
    for (std::size_t i = 0; i < N; ++i) {
      e1.push_back(x * m[i]);
      e2.push_back(x + m[i]);
      e3.push_back(x / m[i]);
      e4.push_back(m[i] / x);
      e5.push_back(-m[i]);
      e6.push_back(exp(m[i]));
    }
    same(x * a, e1, "scalar *");
    same(x + a, e2, "scalar +");
    same(x / a, e3, "scalar /");
    same(a / x, e4, "/ scalar");
    same(-a, e5, "negation");
    same(exp(a), e6, "exp");
  }
  {
    // operands of different type: double scalar and complex elements
    double x = r.uniform(-3, 3);
    std::vector<cm::complex<double>> c;
    for (std::size_t i = 0; i < N; ++i) c.push_back(cm::complex<double>(r.uniform(-3, 3), r.uniform(-3, 3)));
    auto cv = make<N>(c);
    auto p = x * cv;
    auto s = x + cv;
    auto q = cv / x;
    auto z = x / cv;
    for (std::size_t i = 0; i < N; ++i) {
      V_CHECK(std::fabs(p[i].real() - x * c[i].real()) < 1e-14 && std::fabs(p[i].imag() - x * c[i].imag()) < 1e-14, "scalar *", "real times complex vector, element %zu", i);
      V_CHECK(std::fabs(s[i].real() - x - c[i].real()) < 1e-14 && std::fabs(s[i].imag() - c[i].imag()) < 1e-14, "scalar +", "real plus complex vector, element %zu", i);
      V_CHECK(std::fabs(q[i].real() - c[i].real() / x) < 1e-14 * (1 + 1 / std::fabs(x)) && std::fabs(q[i].imag() - c[i].imag() / x) < 1e-14 * (1 + 1 / std::fabs(x)), "/ scalar", "complex vector by real, element %zu", i);
      double n = c[i].norm();
      V_CHECK(std::fabs(z[i].real() - x * c[i].real() / n) < 1e-13 * (1 + 1 / n) && std::fabs(z[i].imag() + x * c[i].imag() / n) < 1e-13 * (1 + 1 / n), "scalar /", "real by complex vector, element %zu", i);
    }
  }
}

// --- conversion -----------------------------------------------------------------
template <std::size_t N>
static void conversions(Rng& r) {
  v::at("size %zu conversion", N);
  std::vector<int> im;
  std::vector<double> dm, e1;
  std::vector<cm::complex<double>> cmx;
  std::vector<int> e2;
  for (std::size_t i = 0; i < N; ++i) {
    im.push_back(Gen<int>::get(r));
    dm.push_back(r.uniform(-1e6, 1e6));
    e1.push_back(im[i]);
    e2.push_back(static_cast<int>(dm[i]));
    cmx.push_back(cm::complex<double>(dm[i], 0));
  }
  auto iv = make<N>(im);
  auto dv = make<N>(dm);
  Watch<int, N> w{iv, im};
  Watch<double, N> w2{dv, dm};
  cm::vector<double, N> c1(iv);
  same(c1, e1, "conversion");
  cm::vector<double, N> c2 = iv;
  same(c2, e1, "conversion");
  cm::vector<int, N> c3(dv);
  same(c3, e2, "conversion");
  cm::vector<cm::complex<double>, N> c4(dv);
  same(c4, cmx, "conversion");
  cm::vector<double, N> c5(c3);
  cm::vector<int, N> c6(c5);
  same(c6, e2, "conversion");
  // construction from a list of convertible elements of mixed types is
  // covered by fixed sizes below
}

// every pair of arithmetic types: each element is what static_cast makes of it
template <typename T>
static T number(Rng& r, std::true_type /*integer*/) {
  switch (r.below(5)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::min();
    case 2: return static_cast<T>(r.next());
    case 3: return static_cast<T>(r.next() >> r.below(64));
    default: return static_cast<T>(r.range(-100, 100));
  }
}
template <typename T>
static T number(Rng& r, std::false_type) {
  T m = static_cast<T>(r.next() | 1) / static_cast<T>(1ull << 32);  // uses every bit of the type
  if (r.chance(1, 4)) {  // next to half way between two neighbours of a narrower type
    int b = r.chance(1, 2) ? 24 : 53;
    m = std::ldexp(static_cast<T>((r.next() >> (64 - b)) | 1), 0) + static_cast<T>(0.5L);
    m += std::ldexp(static_cast<T>(r.range(-1, 1)), b - 62);
    return r.chance(1, 2) ? m : -m;
  }
  m = std::ldexp(m, static_cast<int>(r.range(-60, 31)));
  return r.chance(1, 2) ? m : -m;
}
template <typename A, typename B>
static bool representable(A x, std::true_type /*floating to integer*/) {
  return static_cast<long double>(x) > static_cast<long double>(std::numeric_limits<B>::min()) - 1 && static_cast<long double>(x) < static_cast<long double>(std::numeric_limits<B>::max());
}
template <typename A, typename B>
static bool representable(A, std::false_type) { return true; }
template <typename A, typename B, std::size_t N>
static void convert(Rng& r, char const* what) {
  using F2I = std::integral_constant<bool, std::is_floating_point<A>::value && std::is_integral<B>::value>;
  A m[N + 1];
  for (std::size_t i = 0; i < N; ++i) {
    m[i] = number<A>(r, std::is_integral<A>());
    if (!representable<A, B>(m[i], F2I())) m[i] = A{1};
  }
  auto const a = cm::vector<A, N>::create(Pick<A, N>{m});
  cm::vector<B, N> b(a);
  v::evaluated();
  for (std::size_t i = 0; i < N; ++i) {
    B e = static_cast<B>(m[i]);
    V_COUNT("numbers converted");
    V_CHECK(b[i] == e, "conversion", "%s: element %zu of %zu is %.21Lg, the conversion of %.21Lg is %.21Lg", what, i, N, static_cast<long double>(b[i]), static_cast<long double>(m[i]), static_cast<long double>(e));
    V_CHECK(a[i] == m[i], "conversion", "%s: operand modified", what);
  }
}
// into class types that keep all of it
template <typename A>
struct Holder {
  A v{};
  constexpr Holder() = default;
  constexpr Holder(A x) : v(x) {}
};
template <typename A, std::size_t N>
static void convert_class(Rng& r, std::true_type) {
  A m[N + 1];
  for (std::size_t i = 0; i < N; ++i) m[i] = number<A>(r, std::is_integral<A>());
  auto const a = cm::vector<A, N>::create(Pick<A, N>{m});
  cm::vector<Holder<A>, N> h(a);
  cm::vector<cm::complex<A>, N> c(a);
  v::evaluated();
  for (std::size_t i = 0; i < N; ++i) {
    V_COUNT("numbers converted");
    V_CHECK(h[i].v == m[i], "conversion", "element %zu of %zu lost bits on the way into a class: %.21Lg became %.21Lg", i, N, static_cast<long double>(m[i]), static_cast<long double>(h[i].v));
    V_CHECK(c[i].real() == m[i] && c[i].imag() == A{0}, "conversion", "element %zu of %zu lost bits on the way into a complex number: %.21Lg became %.21Lg", i, N, static_cast<long double>(m[i]), static_cast<long double>(c[i].real()));
  }
}
template <typename A, std::size_t N>
static void convert_class(Rng&, std::false_type) {}
template <typename A, std::size_t N>
static void convert_from(Rng& r) {
  convert_class<A, N>(r, std::is_floating_point<A>());
#define CV(B) convert<A, B, N>(r, __PRETTY_FUNCTION__)
  CV(int8_t); CV(uint8_t); CV(int16_t); CV(uint16_t); CV(int32_t); CV(uint32_t);
  CV(int64_t); CV(uint64_t); CV(float); CV(double); CV(long double); CV(long); CV(unsigned long long);
}
// arithmetic on built-in types: integers exactly, floating point to rounding
template <typename T>
static bool near(T a, T b) {
  return a == b || (std::is_floating_point<T>::value && std::fabs(static_cast<long double>(a) - static_cast<long double>(b)) <= 4 * static_cast<long double>(std::numeric_limits<T>::epsilon()) * std::fabs(static_cast<long double>(b)));
}
template <typename T>
static T below(T x, T lim, std::true_type) { return lim == 0 ? x : static_cast<T>(x % lim); }  // no overflow
template <typename T>
static T below(T x, T, std::false_type) { return x; }
template <typename T, std::size_t N>
static void builtin(Rng& r, T lim, char const* what) {
  T m[N + 1];
  auto draw = [&]() -> T {
    for (;;) {
      T x = number<T>(r, std::is_integral<T>());
      x = below(x, lim, std::is_integral<T>());
      if (x != 0) return x;
    }
  };
  for (std::size_t i = 0; i < N; ++i) m[i] = draw();
  T x = draw();
  auto const a = cm::vector<T, N>::create(Pick<T, N>{m});
  auto p = x * a;
  auto s = x + a;
  auto q = a / x;
  auto d = x / a;
  auto n = -a;
  v::evaluated();
  for (std::size_t i = 0; i < N; ++i) {
    V_COUNT("numbers computed");
    long double lx = static_cast<long double>(x), lm = static_cast<long double>(m[i]);
    V_CHECK(near(p[i], static_cast<T>(x * m[i])), "scalar *", "%s: %.21Lg * %.21Lg is %.21Lg", what, lx, lm, static_cast<long double>(p[i]));
    V_CHECK(near(s[i], static_cast<T>(x + m[i])), "scalar +", "%s: %.21Lg + %.21Lg is %.21Lg", what, lx, lm, static_cast<long double>(s[i]));
    V_CHECK(near(q[i], static_cast<T>(m[i] / x)), "/ scalar", "%s: %.21Lg / %.21Lg is %.21Lg", what, lm, lx, static_cast<long double>(q[i]));
    V_CHECK(near(d[i], static_cast<T>(x / m[i])), "scalar /", "%s: %.21Lg / %.21Lg is %.21Lg", what, lx, lm, static_cast<long double>(d[i]));
    V_CHECK(near(n[i], static_cast<T>(-m[i])), "negation", "%s: -(%.21Lg) is %.21Lg", what, lm, static_cast<long double>(n[i]));
    V_CHECK(a[i] == m[i], "operand", "%s: operand modified", what);
  }
}
template <std::size_t N>
static void arithmetic(Rng& r) {
  v::at("size %zu conversions between arithmetic types", N);
  convert_from<int8_t, N>(r); convert_from<uint8_t, N>(r); convert_from<int32_t, N>(r); convert_from<uint32_t, N>(r);
  convert_from<int64_t, N>(r); convert_from<uint64_t, N>(r); convert_from<float, N>(r); convert_from<double, N>(r);
  convert_from<long double, N>(r);
  v::at("size %zu arithmetic on built-in types", N);
  builtin<int32_t, N>(r, 46340, "int32");
  builtin<uint32_t, N>(r, 0, "uint32");
  builtin<int64_t, N>(r, 3037000499, "int64");
  builtin<uint64_t, N>(r, 0, "uint64");
  builtin<float, N>(r, 0, "float");
  builtin<double, N>(r, 0, "double");
  builtin<long double, N>(r, 0, "long double");
}
static void lists() {
  float f = 2.5f, s = 3;
  double u = 200;
  cm::vector<double, 4> a{s, u, f, -1.0f};
  V_CHECK(a[0] == 3 && a[1] == 200 && a[2] == 2.5 && a[3] == -1, "construction", "mixed list");
  cm::vector<double, 1> b{f};
  V_CHECK(b[0] == 2.5, "construction", "single element list");
  cm::vector<cm::complex<double>, 2> c{1.5, cm::complex<double>(0, 2)};
  V_CHECK(c[0] == cm::complex<double>(1.5) && c[1] == cm::complex<double>(0, 2), "construction", "real and complex");
  cm::vector<cm::vector<int, 2>, 2> d{cm::vector<int, 2>{1, 2}, cm::vector<int, 2>{3, 4}};
  V_CHECK(d[0][0] == 1 && d[0][1] == 2 && d[1][0] == 3 && d[1][1] == 4, "construction", "nested");
  cm::vector<cm::vector<int, 2>, 1> e{cm::vector<int, 2>{1, 2}}, e2(e);
  V_CHECK(e2[0][1] == 2 && e == e2, "construction", "nested single");
  cm::vector<int, 3> z{};
  V_CHECK(z[0] == 0 && z[1] == 0 && z[2] == 0, "construction", "empty list must leave zeros");
  v::evaluated(7);
}

struct AbsLess {
  bool operator()(double a, double b) const { return a < b; }
};

template <std::size_t N>
static void all(Rng& r, int what) {
#if PART < 2
  switch (what) {
    case 0: structural<N, int>(r); break;
    case 1: structural<N, std::string>(r); break;
    case 2: structural<N, cm::vector<int, 2>>(r); break;
    case 3: equality<N, double>(r); break;
    case 4: equality<N, cm::complex<double>>(r); break;
    case 5: equality<N, std::string>(r); break;
    case 6: predicates<N>(r); break;
    case 7: folds<N>(r); break;
    case 8: conversions<N>(r); break;
    default: structural<N, double>(r); break;
  }
#else
  switch (what % 5) {
    case 0: structural<N, int>(r); break;
    case 1: equality<N, double>(r); break;
    case 2: predicates<N>(r); break;
    case 3: folds<N>(r); break;
    default: conversions<N>(r); break;
  }
#endif
}

// sizes beyond what a byte counts, operation by operation
#if PART == 3
struct FirstLess {
  constexpr bool operator()(int a, int b) const { return a < b; }
};
template <std::size_t N>
static void large(Rng& r) {
  std::vector<int> m(N);
  for (auto& x : m) x = static_cast<int>(r.range(-1000000, 1000000));
  cm::vector<int, N> const base = cm::vector<int, N>::create([&](std::size_t i) { return m[i]; });
  v::at("size %zu", N);
  for (std::size_t i = 0; i < N; ++i) V_CHECK(base[i] == m[i], "large", "create: element %zu", i);
  std::size_t lo = static_cast<std::size_t>(r.below(N)), hi = static_cast<std::size_t>(r.below(N));
  auto const a = cm::vector<int, N>::create([&](std::size_t i) { return i == lo ? -2000000 : m[i]; });
  V_CHECK(a.argmin(FirstLess{}) == lo, "large", "argmin %zu, the minimum is element %zu of %zu", a.argmin(FirstLess{}), lo, N);
  std::size_t c = 0;
  for (std::size_t i = 0; i < N; ++i) c += a[i] > -1500000;
  V_CHECK(a.count([](int x) { return x > -1500000; }) == c, "large", "count %zu of %zu", a.count([](int x) { return x > -1500000; }), c);
  V_CHECK(a.size() == N, "large", "size");
  auto const s = base.swap(lo, hi);
  for (std::size_t i = 0; i < N; ++i) V_CHECK(s[i] == m[i == lo ? hi : i == hi ? lo : i], "large", "swap(%zu, %zu): element %zu of %zu", lo, hi, i, N);
  auto const d = base.swappop(lo);
  for (std::size_t i = 0; i + 1 < N; ++i) V_CHECK(d[i] == m[i + 1 == lo ? 0 : i + 1], "large", "swappop(%zu): element %zu of %zu", lo, i, N);
  auto const e = base.template erase<N - 3, 2>();
  V_CHECK(e.size() == N - 2 && e[N - 3] == m[N - 1] && e[N - 4] == m[N - 4] && e[0] == m[0], "large", "erase near the end");
  auto const e2 = base.template erase<1, N - 2>();
  V_CHECK(e2.size() == 2 && e2[0] == m[0] && e2[1] == m[N - 1], "large", "erase all but the ends");
  auto const sub = base.template subvector<N - 2, 2>();
  V_CHECK(sub[0] == m[N - 2] && sub[1] == m[N - 1], "large", "subvector at the end");
  auto const ap = base.append(base);
  for (std::size_t i = 0; i < 2 * N; ++i) V_CHECK(ap[i] == m[i % N], "large", "append: element %zu", i);
  auto const t = base.template transform<long>([](int x) { return 3l * x; });
  long sum = 0, want = 0;
  for (std::size_t i = 0; i < N; ++i) { want += m[i]; V_CHECK(t[i] == 3l * m[i], "large", "transform: element %zu", i); }
  sum = base.template transform<long>([](int x) { return static_cast<long>(x); }).reduce([](long x, long y) { return x + y; }, 5l);
  V_CHECK(sum == want + 5, "large", "reduce: %ld, expected %ld", sum, want + 5);
  cm::vector<int, N> const copy = base;
  V_CHECK(copy == base, "large", "a copy is not equal");
  V_CHECK(lo == hi || m[lo] == m[hi] || !(s == base), "large", "different vectors are equal (elements %zu and %zu)", lo, hi);
  v::evaluated();
  v::distinct(v::mix(N, v::mix(lo, hi)));
  V_COUNT("large_vectors");
}
#endif

int main(int argc, char** argv) {
  v::init(argc, argv);
#if PART == 3
  for (v::Cases c("large", v::scale(200, 5000)); c.next();) { large<257>(c.rng); large<300>(c.rng); }
  v::require("large_vectors", 300);
  v::sample("sizes 257 and 300 against a std::vector model");
  return v::finish();
#else
  using Fn = void (*)(Rng&, int);
#if PART == 0
  static Fn const fns[] = {all<0>, all<1>, all<2>, all<3>};
#elif PART == 1
  static Fn const fns[] = {all<4>, all<5>, all<6>, all<7>};
#else
  static Fn const fns[] = {all<12>, all<17>, all<33>};
#endif
  unsigned const nf = sizeof fns / sizeof *fns;
#if PART == 2
  unsigned rounds = v::st().thorough ? 4000 : 150;
#else
  unsigned rounds = v::st().thorough ? 20000 : 800;
#endif
  for (v::Cases c("lists", 1); c.next();) lists();
  for (v::Cases c("ops", static_cast<int64_t>(nf * 10 * rounds)); c.next();)
    fns[static_cast<unsigned>(c.index()) % nf](c.rng, static_cast<int>(static_cast<unsigned>(c.index()) / nf % 10));
  for (v::Cases c("arithmetic", v::scale(60, 2000)); c.next();) {
#if PART == 0
    arithmetic<0>(c.rng); arithmetic<1>(c.rng); arithmetic<2>(c.rng);
#elif PART == 1
    arithmetic<5>(c.rng);
#else
    arithmetic<18>(c.rng);
#endif
  }
  v::require("numbers converted", 5000);
  v::require("numbers computed", 1000);
  v::require("results compared", 1000);
  v::require("equal pairs", 20);
  v::require("unequal pairs", 50);
  v::require("sorts", 50);
  v::sample("every size 0..7, 12, 17, 33 against a std::vector model");
  return v::finish();
#endif
}
