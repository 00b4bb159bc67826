// C35: separate objects need no synchronisation.  The same workloads run alone,
// in several threads at once (TSan), interrupted by a timer signal whose handler
// uses the library too, and nested inside of user code the library calls.
#include <cstdint>

// stand-in for the absent fixed point library that ostream_ops.h expects
namespace fpm {
template <typename T1, typename T2, unsigned B>
class fixed {
 public:
  constexpr fixed() : raw_(0) {}
  constexpr fixed(double d) : raw_(static_cast<T1>(static_cast<int64_t>(d * static_cast<double>(static_cast<int64_t>(1) << B)))) {}
  static fixed from_raw(T1 r) {
    fixed f;
    f.raw_ = r;
    return f;
  }
  explicit operator double() const { return static_cast<double>(raw_) / static_cast<double>(static_cast<int64_t>(1) << B); }
  T1 raw_value() const { return raw_; }

 private:
  T1 raw_;
};
} // namespace fpm

#include <embedded/circular_buffer_adapter.h>
#include <embedded/constexpr_math/complex.h>
#include <embedded/constexpr_math/convolve.h>
#include <embedded/constexpr_math/poly.h>
#include <embedded/constexpr_math/vector.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#include <embedded/ostream_ops.h>
#include <embedded/varint.h>

#include <errno.h>
#include <signal.h>
#include <sys/time.h>

#include <atomic>
#include <sstream>
#include <thread>

#include "vharness.h"

namespace em = embedded;
namespace cm = embedded::cmath;
namespace es = embedded::signal;

// ---- hooks: user code the library calls, in which other work may be nested
static thread_local void (*nested)() = nullptr;
static thread_local int countdown = 0;
static void hook() {
  if (nested && --countdown == 0) {
    void (*f)() = nested;
    nested = nullptr;
    f();
  }
}

static uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}

// ---- workloads: deterministic in the seed, no heap, result is a digest
struct Elem {
  int v;
  Elem(int x = 0) : v(x) { hook(); }
  Elem(Elem const& o) : v(o.v) { hook(); }
  Elem& operator=(Elem const& o) { v = o.v; hook(); return *this; }
  ~Elem() { hook(); v = -1; }
};
template <class T>
static void bulk(em::circular_buffer_adapter<T>&, v::Rng&, uint64_t&, std::false_type) {}
template <class T>
static void bulk(em::circular_buffer_adapter<T>& b, v::Rng& g, uint64_t& h, std::true_type) {
  T ext[40];
  size_t n = g.below(std::min<size_t>(40, b.remaining()) + 1);
  for (auto& x : ext) x = static_cast<T>(g.below(100));
  if (g.chance(1, 2)) b.copy_in_back(ext, n); else b.copy_in_front(ext, n);
  size_t m = g.below(std::min<size_t>(40, b.size()) + 1);
  if (g.chance(1, 2)) b.copy_out_back(ext, m); else b.copy_out_front(ext, m);
  for (size_t i = 0; i < m; ++i) h = v::mix(h, static_cast<uint64_t>(ext[i]));
}
static uint64_t value(Elem const& e) { return static_cast<uint64_t>(e.v); }
static uint64_t value(uint16_t x) { return x; }
template <class T>
static uint64_t buffer(uint64_t seed) {
  v::Rng g(seed);
  alignas(T) unsigned char mem[37 * sizeof(T)];
  size_t cap = 1 + g.below(37);
  em::circular_buffer_adapter<T> b(reinterpret_cast<T*>(mem), cap);
  uint64_t h = cap;
  for (int i = 0; i < 60; ++i) {
    switch (g.below(7)) {
    case 0: if (!b.full()) b.push_back(T(i)); break;
    case 1: if (!b.full()) b.push_front(T(i)); break;
    case 2: if (!b.full()) { T t(i); b.push_back(t); } break;
    case 3: if (!b.empty()) b.pop_back(); break;
    case 4: if (!b.empty()) b.pop_front(g.below(b.size() + 1)); break;
    case 5: bulk<T>(b, g, h, std::is_trivial<T>()); break;
    default: for (auto const& x : b) h = v::mix(h, value(x)); break;
    }
    h = v::mix(h, b.size());
    if (!b.empty()) h = v::mix(h, value(b.back()) + value(b[b.size() / 2]) * 7 + b.raw_index(b.begin()));
  }
  b.clear();
  return h;
}

struct HookIt {
  using iterator_category = std::forward_iterator_tag;
  using value_type = uint8_t;
  using difference_type = std::ptrdiff_t;
  using pointer = uint8_t*;
  using reference = uint8_t&;
  uint8_t* p;
  uint8_t& operator*() const { hook(); return *p; }
  HookIt& operator++() { hook(); ++p; return *this; }
  HookIt operator++(int) { HookIt t = *this; ++*this; return t; }
  bool operator==(HookIt o) const { return p == o.p; }
  bool operator!=(HookIt o) const { return p != o.p; }
};
template <class T>
static void varint_one(v::Rng& g, uint64_t& h) {
  uint8_t buf[24] = {};
  T x = static_cast<T>(g.next() >> g.below(64)), y{};
  HookIt first{buf}, last{buf + g.below(24)};
  HookIt e = em::varint::encode(x, first, last);
  h = v::mix(h, static_cast<uint64_t>(e.p - buf) + em::varint::size(x) * 64);
  e = em::varint::encode(x, first);
  HookIt d = em::varint::decode(y, first, HookIt{buf + 24});
  h = v::mix(h, static_cast<uint64_t>(y) + static_cast<uint64_t>(d.p - e.p) + (x == y));
  for (auto c : buf) h = v::mix(h, c);
}
static uint64_t varints(uint64_t seed) {
  v::Rng g(seed);
  uint64_t h = seed;
  for (int i = 0; i < 12; ++i) {
    varint_one<uint64_t>(g, h);
    varint_one<int64_t>(g, h);
    varint_one<uint16_t>(g, h);
    varint_one<int32_t>(g, h);
    varint_one<int8_t>(g, h);
  }
  return h;
}

struct Target {
  uint64_t k;
  explicit Target(uint64_t x) : k(x) {}
  Target(Target&& o) noexcept : k(o.k) { hook(); o.k = 0; }
  ~Target() { hook(); k = 1; }
  uint64_t operator()(uint64_t x, Elem e) { hook(); return k = k * 31 + x + static_cast<uint64_t>(e.v); }
  uint64_t member(uint64_t x, Elem e) { hook(); return k + x * static_cast<uint64_t>(e.v); }
};
static uint64_t plain(uint64_t x, Elem e) { hook(); return x * 3 + static_cast<uint64_t>(e.v); }
static uint64_t functions(uint64_t seed) {
  v::Rng g(seed);
  uint64_t h = seed;
  using F = em::function<uint64_t(uint64_t, Elem), 64>;
  F f[4];
  for (int i = 0; i < 40; ++i) {
    F& a = f[g.below(4)];
    switch (g.below(6)) {
    case 0: a = Target(g.next()); break;
    case 1: a = &plain; break;
    case 2: a = F(std::move(f[g.below(4)])); break;
    case 3: a = nullptr; break;
    case 4: a = [k = g.next(), l = g.next()](uint64_t x, Elem e) { hook(); return (k ^ x) + l * static_cast<uint64_t>(e.v); }; break;
    default: break;
    }
    for (auto& x : f) h = v::mix(h, x ? x(static_cast<uint64_t>(i), Elem(i + 3)) : 7);
  }
  em::function<uint64_t(Target&, uint64_t, Elem), 64> m = &Target::member;
  Target t(g.next());
  return v::mix(h, m(t, 5, Elem(9)));
}

struct Mutex {
  uint64_t* log;
  void lock() { hook(); *log = *log * 5 + 1; }
  void unlock() { hook(); *log = *log * 5 + 2; }
};
static uint64_t utilities(uint64_t seed) {
  v::Rng g(seed);
  uint64_t log = seed;
  Mutex a{&log}, b{&log};
  for (int i = 0; i < 20; ++i) {
    em::lock_guard<Mutex> l(a);
    em::lock_guard<Mutex> k(b);
    em::move_wrapper<Target> w{Target(g.next())};
    auto w2 = w;
    log = v::mix(log, w2->member(static_cast<uint64_t>(i), Elem(2)));
  }
  return log;
}

static uint64_t mathematics(uint64_t seed) {
  v::Rng g(seed);
  uint64_t h = seed;
  for (int i = 0; i < 6; ++i) {
    double d[8];
    for (auto& x : d) x = g.uniform(-2, 2);
    auto v8 = cm::vector<double, 8>::create([&](std::size_t k) { hook(); return d[k]; });
    auto w = v8.transform([](double x) { hook(); return x * 3 - 1; });
    auto c = cm::convolve_full(v8, w);
    for (std::size_t k = 0; k < 15; ++k) h = v::mix(h, bits(c[k]));
    auto p = cm::poly(v8);
    for (std::size_t k = 0; k < 9; ++k) h = v::mix(h, bits(p[k]));
    h = v::mix(h, v8.argmin([](double x, double y) { hook(); return x < y; }));
    auto s = v8.sort([](double x, double y) { hook(); return x < y; });
    for (std::size_t k = 0; k < 8; ++k) h = v::mix(h, bits(s[k]));
    auto z = cm::complex<double>(d[0], d[1]) / cm::complex<double>(d[2], d[3]) * exp(cm::complex<double>(d[4], d[5]));
    h = v::mix(h, bits(z.real()) + bits(z.imag()) * 3);
  }
  return h;
}

struct Num {  // value type with hooks
  double v;
  Num() = default;
  Num(double d) : v(d) {}
  friend Num operator+(Num a, Num b) { hook(); return a.v + b.v; }
  friend Num operator-(Num a, Num b) { hook(); return a.v - b.v; }
  friend Num operator-(Num a) { return -a.v; }
  friend Num operator*(Num a, Num b) { hook(); return a.v * b.v; }
  Num& operator+=(Num b) { return *this = *this + b; }
  Num& operator-=(Num b) { return *this = *this - b; }
  Num& operator*=(Num b) { return *this = *this * b; }
  friend bool operator==(Num a, Num b) { return a.v == b.v; }
  friend bool operator!=(Num a, Num b) { return a.v != b.v; }
  friend bool operator<(Num a, Num b) { return a.v < b.v; }
  friend bool operator>(Num a, Num b) { return a.v > b.v; }
};
static double plainv(Num n) { return n.v; }
static double plainv(double n) { return n; }
static double plainv(float n) { return n; }
template <class F, class D>
static void run(D const& d, v::Rng& g, uint64_t& h) {
  auto i = d.instance(), j = d.instance();
  for (int n = 0; n < 12; ++n) {
    double x = g.uniform(-1, 1);
    h = v::mix(h, bits(plainv(i(static_cast<F>(x)))));
    h = v::mix(h, bits(plainv(j(static_cast<F>(1 - x)))));
  }
}
static uint64_t filters(uint64_t seed) {
  v::Rng g(seed);
  uint64_t h = seed;
  es::iirfilter<double> f(48000);
  double fc = g.uniform(500, 20000);
  switch (g.below(4)) {
  case 0: run<Num>(f.lowpass(es::butterworth<3>(), fc).template sos<Num>(), g, h); break;
  case 1: run<double>(f.highpass(es::chebyshev1<4>(1.0), fc).template poly<double>(), g, h); break;
  case 2: run<float>(f.lowpass(es::chebyshev2<3>(40.0), fc).template sos<float>(es::sos_gain::distribute), g, h); break;
  default: run<Num>(f.highpass(es::bessel<4>(), fc).template poly<Num>(), g, h); break;
  }
  return h;
}

using Work = uint64_t (*)(uint64_t);
static Work const works[] = {buffer<uint16_t>, buffer<Elem>, varints, functions, utilities, mathematics, filters};
static char const* const names[] = {"buffer", "buffer of objects", "varint", "function", "utilities", "mathematics", "filters"};
enum { NW = 7, NSEED = 24 };
static uint64_t want[NW][NSEED];

static void alone() {
  for (int w = 0; w < NW; ++w)
    for (uint64_t s = 0; s < NSEED; ++s) {
      want[w][s] = works[w](s + 1);
      V_CHECK(works[w](s + 1) == want[w][s], "alone", "%s: the second run of a workload gives another result than the first", names[w]);
    }
}

// ---- nested in user code that the library calls
static int inner_w, inner_bad;
static uint64_t inner_s;
static int inner_runs;
static void inner() {
  ++inner_runs;
  if (works[inner_w](inner_s + 1) != want[inner_w][inner_s]) inner_bad = 1;
}
static void nesting() {
  v::Cases c("nested", NW * NW * v::scale(300, 6000));
  while (c.next()) {
    v::Rng& g = c.rng;
    int w = static_cast<int>(c.index() % NW);
    uint64_t s = g.below(NSEED);
    inner_w = static_cast<int>(c.index() / NW % NW);
    inner_s = g.below(NSEED);
    inner_bad = inner_runs = 0;
    v::at("%s within %s", names[inner_w], names[w]);
    countdown = 1 + static_cast<int>(g.below(g.chance(1, 2) ? 12 : 250));
    nested = inner;
    uint64_t h = works[w](s + 1);
    nested = nullptr;
    V_CHECK(h == want[w][s], "outer", "%s gives another result when %s runs inside of user code it calls", names[w], names[inner_w]);
    V_CHECK(!inner_bad, "inner", "%s gives another result inside of user code called by %s", names[inner_w], names[w]);
    if (inner_runs) {
      V_COUNT("nested_runs");
      v::distinct(v::mix(static_cast<uint64_t>(w * NW + inner_w), s * 1000 + inner_s));
    }
    v::evaluated();
  }
}

// ---- interrupted at any instruction
#ifndef NO_SIGNALS
static volatile sig_atomic_t sig_bad = -1, sig_runs, current;
static volatile sig_atomic_t pairs[NW][NW];
static volatile sig_atomic_t sig_last;
static void arm() {  // one shot: what was interrupted always gets on
  static unsigned n = 0;
  struct itimerval t = {{0, 0}, {0, 60 + static_cast<long>(n++ * 37 % 251)}};
  setitimer(ITIMER_REAL, &t, nullptr);
}
static void handler(int) {
  int saved = errno;
  void (*n)() = nested;
  int cd = countdown;
  nested = nullptr;
  unsigned k = static_cast<unsigned>(sig_runs);
  int w = static_cast<int>(k % NW);
  uint64_t s = k / NW % NSEED;
  if (works[w](s + 1) != want[w][s]) sig_bad = w;
  pairs[current][w] = pairs[current][w] + 1;
  sig_runs = sig_runs + 1;
  nested = n;
  countdown = cd;
  if (sig_runs < sig_last) arm();
  errno = saved;
}
static void interrupts() {
  v::Cases c("interrupts", NW);
  while (c.next()) {
    int w = static_cast<int>(c.index());
    current = w;
    struct sigaction sa, old;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = handler;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, &old);
    struct itimerval off = {{0, 0}, {0, 0}};
    int start = sig_runs, need = static_cast<int>(v::scale(1500, 20000));
    sig_last = start + need;
    int bad = -1;
    arm();
    for (long k = 0; sig_runs - start < need && k < 400000L; ++k) {
      uint64_t s = static_cast<uint64_t>(k) % NSEED;
      if (works[w](s + 1) != want[w][s]) { bad = static_cast<int>(sig_runs - start); break; }
    }
    setitimer(ITIMER_REAL, &off, nullptr);
    sigaction(SIGALRM, &old, nullptr);
    V_CHECK(bad < 0, "interrupted", "%s gives another result when interrupted by a handler that uses the library (after %d interruptions)", names[w], bad);
    V_CHECK(sig_bad < 0, "handler", "%s gives another result in a handler that interrupted %s", names[sig_bad < 0 ? 0 : sig_bad], names[w]);
    v::count("interruptions", static_cast<unsigned long long>(sig_runs - start));
    v::evaluated();
  }
  for (int a = 0; a < NW; ++a)
    for (int b = 0; b < NW; ++b)
      if (pairs[a][b]) V_COUNT("interrupted_pairs");
}
#endif

// ---- threads
static uint64_t streaming(uint64_t seed) {  // allocates: not for handlers
  v::Rng g(seed);
  std::ostringstream o;
  auto v4 = cm::vector<double, 4>::create([&](std::size_t) { return g.uniform(-9, 9); });
  o << v4 << ' ' << cm::complex<double>(v4[0], v4[1]) << ' ' << es::iirfilter<double>(48000).lowpass(es::butterworth<2>(), 1000 + 100 * std::fabs(v4[0])).template sos<double>().sos();
  std::vector<uint8_t> out;
  em::varint::encode(g.next(), std::back_inserter(out));
  return v::mix(v::hash_bytes(out.data(), out.size()), v::hash_bytes(o.str().data(), o.str().size()));
}
static void threads() {
  uint64_t swant[NSEED];
  for (uint64_t s = 0; s < NSEED; ++s) swant[s] = streaming(s + 1);
  v::Cases c("threads", v::scale(80, 1500));
  while (c.next()) {
    v::Rng& g = c.rng;
    unsigned const T = 2 + static_cast<unsigned>(g.below(5)), rounds = 60;
    int only = g.chance(1, 2) ? static_cast<int>(c.index() % (NW + 1)) : -1;  // all threads in one component, or mixed
    std::atomic<unsigned> ready(0);
    std::atomic<int> bad(-1);
    std::vector<std::thread> ts;
    uint64_t seed = g.next();
    for (unsigned t = 0; t < T; ++t)
      ts.emplace_back([&, t] {
        v::Rng r(v::mix(seed, t));
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < T) {}
        for (unsigned i = 0; i < rounds; ++i) {
          int w = only >= 0 ? only : static_cast<int>(r.below(NW + 1));
          uint64_t s = r.below(NSEED);
          if ((w == NW ? streaming(s + 1) : works[w](s + 1)) != (w == NW ? swant[s] : want[w][s])) bad.store(w, std::memory_order_relaxed);
        }
      });
    for (auto& t : ts) t.join();
    int b = bad.load();
    V_CHECK(b < 0, "threads", "%s gives another result while other threads use other objects", b == NW ? "streaming" : names[b < 0 ? 0 : b]);
    v::count("threaded_workloads", static_cast<unsigned long long>(T) * rounds);
    v::distinct(v::mix(seed, T));
    v::evaluated();
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  alone();
  nesting();
#ifndef NO_SIGNALS
  interrupts();
  v::require("interruptions", 200);
  v::require("interrupted_pairs", 20);
#endif
  threads();
  v::require("nested_runs", 2000);
  v::require("threaded_workloads", 2000);
  v::sample("workloads of every component alone, nested, interrupted and threaded");
  return v::finish();
}
