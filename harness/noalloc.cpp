// C17: no operation of the library touches the heap.
#include <array>
#include <deque>
#include <iterator>
#include <list>
#include <vector>
#include <cstddef>
#include <cstdlib>
#include <new>
#include <utility>

#include <embedded/circular_buffer_adapter.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#include <embedded/varint.h>
#include "vharness.h"

namespace es = embedded::signal;
namespace cm = embedded::cmath;

// --- the monitor: every allocation function of the process -----------------------
static bool armed = false;
static unsigned long alloc_calls = 0, free_calls = 0, total_allocs = 0;
static const char* armed_for = "";
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
static void note() {
  ++total_allocs;
  if (armed) ++alloc_calls;
}
void* malloc(size_t n) { note(); return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { note(); return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { note(); return __libc_realloc(p, n); }
void free(void* p) {
  if (armed && p) ++free_calls;
  __libc_free(p);
}
void* memalign(size_t a, size_t n) { note(); return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { note(); return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) {
  note();
  *p = __libc_memalign(a, n);
  return 0;
}
}

template <class Body>
static void quiet(const char* what, Body body) {
  armed_for = what;
  alloc_calls = free_calls = 0;
  armed = true;
  body();
  armed = false;
  if (alloc_calls || free_calls) v::fail("heap-used", "%s: %lu allocations, %lu frees", what, alloc_calls, free_calls);
  v::evaluated();
  V_COUNT("armed_sections");
}

struct Elem {  // non-trivial, but heap-free itself
  int v;
  long pad[3];
  Elem(int x = 0) : v(x), pad{x, x, x} {}
  Elem(Elem const& o) : v(o.v), pad{o.pad[0], o.pad[1], o.pad[2]} {}
  Elem(Elem&& o) noexcept : v(o.v), pad{o.pad[0], o.pad[1], o.pad[2]} { o.v = -1; }
  Elem& operator=(Elem const&) = default;
  ~Elem() { v = -2; }
  bool operator==(Elem const& o) const { return v == o.v; }
};

template <class T, class It>
static void bulk(embedded::circular_buffer_adapter<T>& b, It mk, v::Rng& g, std::true_type) {
  T ext[64];
  size_t n = static_cast<size_t>(g.below(64));
  for (auto& x : ext) x = mk(static_cast<int>(g.below(100)));
  if (n > b.remaining()) n = b.remaining();
  if (g.chance(1, 2)) b.copy_in_back(ext, n);
  else b.copy_in_front(ext, n);
  size_t k = b.size() > 64 ? 64 : b.size();
  b.copy_out(b.begin(), b.begin() + static_cast<long>(k), ext);
  b.copy_in(b.begin(), b.begin() + static_cast<long>(k), ext);
  size_t m = static_cast<size_t>(g.below(k + 1));
  if (g.chance(1, 2)) b.copy_out_front(ext, m);
  else b.copy_out_back(ext, m);
}
template <class T, class It>
static void bulk(embedded::circular_buffer_adapter<T>&, It, v::Rng&, std::false_type) {}

template <class T, class MK>
static void buffer(const char* sec, MK mk) {
  v::Cases c(sec, v::scale(60, 2000));
  while (c.next()) {
    v::Rng g = c.rng;
    static typename std::aligned_storage<sizeof(T), alignof(T)>::type mem[300];
    size_t cap = 1 + static_cast<size_t>(g.below(300));
    quiet(sec, [&]() {
      embedded::circular_buffer_adapter<T> b(reinterpret_cast<T*>(mem), cap, static_cast<size_t>(g.below(cap + 1)), 0);
      unsigned long sum = 0;
      for (int i = 0; i < 300; ++i) {
        switch (g.below(10)) {
        case 0: if (!b.full()) b.push_back(mk(i)); break;
        case 1: if (!b.full()) b.push_front(mk(i)); break;
        case 2: if (!b.full()) b.emplace_back(i); break;
        case 3: if (!b.full()) { T x = mk(i); b.push_back(x); } break;
        case 4: if (!b.empty()) b.pop_back(); break;
        case 5: if (!b.empty()) b.pop_front(static_cast<size_t>(g.below(b.size()))); break;
        case 6: for (auto it = b.begin(); it != b.end(); ++it) sum += reinterpret_cast<size_t>(&*it) & 1; break;
        case 7: for (auto it = b.crbegin(); it != b.crend(); ++it) sum += 1; break;
        case 8: bulk<T>(b, mk, g, std::is_trivial<T>()); break;
        case 9: {
          embedded::circular_buffer_adapter<T> o(std::move(b));
          if (!o.empty()) sum += b.size() + o.raw_index(o.begin()) + static_cast<size_t>(&o.at(0) - &o[0]);
          b = std::move(o);
          break;
        }
        }
      }
      b.clear();
      volatile unsigned long sink = sum;
      (void)sink;
    });
    V_COUNT("buffer_histories");
    v::distinct(v::mix(v::hash_str(sec), cap));
  }
}

// bulk operations from a few bytes to hundreds of kilobytes at once
template <class T>
static void big_bulk(const char* sec) {
  static T mem[70000], ext[70000];
  v::Cases c(sec, v::scale(40, 500));
  while (c.next()) {
    v::Rng g = c.rng;
    size_t cap = g.chance(1, 2) ? 70000 : 1 + static_cast<size_t>(g.below(70000));
    quiet(sec, [&]() {
      embedded::circular_buffer_adapter<T> b(mem, cap, static_cast<size_t>(g.below(cap + 1)), 0);
      for (int i = 0; i < 40; ++i) {
        size_t room = b.remaining(), n = b.size();
        size_t in = g.chance(1, 2) ? room : static_cast<size_t>(g.below(room + 1)), out = g.chance(1, 2) ? n : static_cast<size_t>(g.below(n + 1));
        switch (g.below(8)) {
        case 0: b.copy_in_back(ext, in); break;
        case 1: b.copy_in_front(ext, in); break;
        case 2: b.copy_out_back(ext, out); break;
        case 3: b.copy_out_front(ext, out); break;
        case 4: b.copy_in(b.begin(), b.begin() + static_cast<long>(out), ext); break;
        case 5: b.copy_out(b.cbegin(), b.cbegin() + static_cast<long>(out), ext); break;
        case 6: b.pop_front(out); break;
        default: b.pop_back(out); break;
        }
      }
    });
    V_COUNT("big_bulk_histories");
    v::distinct(v::mix(v::hash_str(sec), cap));
  }
}

struct Fat { char c[100]; int operator()(int x) { return x + c[5]++; } };
static int plain(int x) { return x * 2; }
struct Host { int n; int get(int x) { return n + x; } };
static void functions() {
  v::Cases c("function", v::scale(200, 5000));
  while (c.next()) {
    v::Rng g = c.rng;
    quiet("function", [&]() {
      using F = embedded::function<int(int), 128, 16>;
      F f[4];
      long sum = 0;
      for (int i = 0; i < 200; ++i) {
        size_t a = static_cast<size_t>(g.below(4)), b = static_cast<size_t>(g.below(4));
        switch (g.below(9)) {
        case 0: f[a] = Fat(); break;
        case 1: f[a] = plain; break;
        case 2: f[a] = [i, &sum](int x) { return x + i + static_cast<int>(sum & 1); }; break;
        case 3: if (a != b) f[a] = std::move(f[b]); break;
        case 4: std::swap(f[a], f[b]); break;
        case 5: f[a] = nullptr; break;
        case 6: { F t(std::move(f[a])); f[b] = std::move(t); break; }
        case 7: { embedded::function<int(Host&, int), 24> m = &Host::get; Host h{i}; sum += m(h, 1); break; }
        default: if (f[a]) sum += f[a](i); break;
        }
      }
      volatile long sink = sum;
      (void)sink;
    });
    v::distinct(v::mix(20, c.rng.next()));
    V_COUNT("function_histories");
  }
}

// --- varints through every kind of iterator ------------------------------------
// a forward iterator of 96 bytes, which no small-object optimisation can hold
struct FatIt {
  using iterator_category = std::forward_iterator_tag;
  using value_type = uint8_t;
  using difference_type = std::ptrdiff_t;
  using pointer = uint8_t*;
  using reference = uint8_t&;
  uint8_t* p;
  uint64_t ballast[11];
  uint8_t& operator*() const { return *p; }
  FatIt& operator++() { ++p; return *this; }
  FatIt operator++(int) { FatIt r = *this; ++p; return r; }
  bool operator==(FatIt const& o) const { return p == o.p; }
  bool operator!=(FatIt const& o) const { return p != o.p; }
};
template <class T, class It>
static void varint_over(It first, It last, v::Rng& g) {
  for (int i = 0; i < 20; ++i) {
    T x = static_cast<T>(g.next() >> g.below(64)), y = 0;
    It e = embedded::varint::encode(x, first, last);
    It d = embedded::varint::decode(y, first, e);
    It u = embedded::varint::encode(static_cast<T>(~x), first);
    volatile bool sink = d == e && u != first && y == x && embedded::varint::size(x) > 0;
    (void)sink;
  }
}
template <class It>
static void varint_widths(It first, It last, v::Rng& g) {
  varint_over<uint8_t>(first, last, g);
  varint_over<int8_t>(first, last, g);
  varint_over<uint16_t>(first, last, g);
  varint_over<int32_t>(first, last, g);
  varint_over<uint32_t>(first, last, g);
  varint_over<int64_t>(first, last, g);
  varint_over<uint64_t>(first, last, g);
  varint_over<long long>(first, last, g);
}
static void varints() {
  v::Cases c("varint-iterators", v::scale(60, 2000));
  while (c.next()) {
    v::Rng g = c.rng;
    uint8_t mem[16];
    std::vector<uint8_t> vec(16), out;
    std::deque<uint8_t> deq(16);
    std::list<uint8_t> lst(16);
    out.reserve(4096);
    quiet("varint iterators", [&]() {
      varint_widths(mem, mem + 16, g);
      varint_widths(vec.begin(), vec.end(), g);
      varint_widths(deq.begin(), deq.end(), g);
      varint_widths(lst.begin(), lst.end(), g);
      varint_widths(vec.rbegin(), vec.rend(), g);
      varint_widths(FatIt{mem, {}}, FatIt{mem + 16, {}}, g);
      uint8_t ring_mem[16];
      embedded::circular_buffer_adapter<uint8_t> ring(ring_mem, 16);
      for (int i = 0; i < 16; ++i) ring.push_back(0);
      varint_widths(ring.begin(), ring.end(), g);
      for (int i = 0; i < 60; ++i) {
        uint64_t x = g.next() >> g.below(64);
        embedded::varint::encode(x, std::back_inserter(out));
        embedded::varint::encode(static_cast<int64_t>(x), std::back_inserter(out));
        embedded::varint::encode(static_cast<int16_t>(x), std::back_inserter(out));
        embedded::varint::encode(static_cast<uint32_t>(x), std::back_inserter(out));
        if (out.size() > 4000) out.clear();
      }
    });
    v::distinct(v::mix(25, c.rng.next()));
    V_COUNT("varint_iterator_rounds");
  }
}

// --- functions of every capacity and target size ---------------------------------
template <size_t N>
struct Sized {
  unsigned char c[N];
  explicit Sized(int k) { memset(c, k & 0x7f, N); }
  int operator()(int x) { return x + c[N - 1] + c[0]; }
};
template <size_t Cap, size_t Al>
static void function_of(v::Rng& g) {
  using F = embedded::function<int(int), Cap, Al>;
  using P = embedded::function<Elem(Elem, int&), Cap, Al>;
  F f, h;
  long sum = 0;
  for (int i = 0; i < 12; ++i) {
    f = Sized<1>(i);
    sum += f(1);
    h = std::move(f);
    f = Sized<Cap / 2>(i);
    sum += f(2) + h(2);
    std::swap(f, h);
    f = Sized<Cap>(i);
    sum += f(3);
    F t(std::move(f));
    h = std::move(t);
    sum += h(static_cast<int>(g.below(9)));
    int n = i;
    P p([](Elem e, int& k) { return ++k, Elem(e.v + k); });
    sum += p(Elem(i), n).v;
    p = nullptr;
    if (!f) f = F(nullptr);
  }
  volatile long sink = sum;
  (void)sink;
}
static void function_capacities() {
  v::Cases c("function-capacities", v::scale(60, 2000));
  while (c.next()) {
    v::Rng g = c.rng;
    quiet("function capacities", [&]() {
      function_of<8, 8>(g);
      function_of<24, 8>(g);
      function_of<64, 64>(g);
      function_of<256, 16>(g);
      function_of<1024, 32>(g);
      function_of<5000, 8>(g);
    });
    v::distinct(v::mix(26, c.rng.next()));
    V_COUNT("function_capacity_rounds");
  }
}

struct FakeMutex { int d = 0; void lock() { ++d; } void unlock() { --d; } };
static void small_utilities() {
  v::Cases c("utilities", v::scale(200, 5000));
  while (c.next()) {
    v::Rng g = c.rng;
    quiet("varint", [&]() {
      uint8_t buf[64];
      for (int i = 0; i < 100; ++i) {
        uint64_t x = g.next() >> g.below(64);
        auto e = embedded::varint::encode(x, buf, buf + sizeof buf);
        auto e2 = embedded::varint::encode(static_cast<int32_t>(x), e, buf + g.below(64));
        uint64_t y;
        embedded::varint::decode(y, buf, e);
        int16_t z;
        embedded::varint::decode(z, buf, e2);
        volatile size_t n = embedded::varint::size(static_cast<int64_t>(x));
        (void)n;
      }
    });
    quiet("move_wrapper", [&]() {
      for (int i = 0; i < 50; ++i) {
        embedded::move_wrapper<Elem> w(Elem(static_cast<int>(i)));
        auto w2 = w;
        auto w3 = std::move(w2);
        volatile int x = w3->v + (*w3).v;
        (void)x;
      }
    });
    quiet("lock_guard", [&]() {
      FakeMutex m;
      for (int i = 0; i < 50; ++i) {
        embedded::lock_guard<FakeMutex> a(m);
        embedded::lock_guard<FakeMutex> b(m);
      }
    });
    quiet("vector/complex", [&]() {
      using C = cm::complex<double>;
      double x = g.uniform(0.1, 2.0);
      cm::vector<C, 7> a{C{x}, C{1, x}, C{x, 2}, C{x, x}, C{-x, 1}, C{3}, C{x, -x}};
      auto b = exp(x * a) / x;
      auto d = a.append(b).swap(2, 9).erase<3, 2>().swappop(4).sort([](C const& p, C const& q) { return p.real() < q.real(); });
      auto p = poly(b);
      auto q = convolve_full(p, d);
      volatile double r = real(q)[3] + abs(q)[4] + norm(-q)[2] + prod(a).imag() + static_cast<double>(q.argmin([](C const& u, C const& w) { return u.norm() < w.norm(); }));
      (void)r;
      (void)(x / a);
    });
    V_COUNT("utility_rounds");
    v::distinct(v::mix(30, c.rng.next()));
  }
}

template <class T, class Proto>
static void design(const char* what, Proto const& p, v::Rng& g) {
  T fs = static_cast<T>(g.uniform(1.0, 1e5));
  T f = fs * static_cast<T>(g.uniform(0.02, 0.45));
  quiet(what, [&]() {
    es::iirfilter<T> flt(fs);
    auto lp = flt.lowpass(p, f);
    auto hp = flt.highpass(p, f);
    auto s1 = lp.template sos<T>();
    auto s2 = hp.template sos<T>(es::sos_gain::distribute);
    auto p1 = lp.template poly<T>();
    auto p2 = hp.template poly<float>();
    auto i1 = s1.instance();
    auto i2 = s2.instance();
    auto i3 = p1.instance();
    auto i4 = p2.instance();
    auto copy = i1;
    T acc = 0;
    for (int i = 0; i < 50; ++i) {
      T x = static_cast<T>(i % 7);
      acc += i1(x) + i2(x) + i3(x) + copy(x) + static_cast<T>(i4(static_cast<float>(x)));
    }
    volatile T sink = acc + s1.sos()[0].b()[1] + p1.a()[1] + i1.state()[0].y1;
    (void)sink;
  });
  V_COUNT("filter_designs");
  v::distinct(v::mix(v::hash_str(what), g.next()));
}
static void filters() {
  v::Cases c("filters", v::scale(15, 400));
  while (c.next()) {
    v::Rng& g = c.rng;
    double r = g.uniform(0.1, 3.0), s = g.uniform(20, 80);
    design<double>("butterworth<1>", es::butterworth<1>(), g);
    design<double>("butterworth<5>", es::butterworth<5>(), g);
    design<double>("chebyshev1<4>", es::chebyshev1<4>(r), g);
    design<double>("chebyshev2<5>", es::chebyshev2<5>(s), g);
    design<double>("bessel<6>", es::bessel<6>(), g);
    design<float>("butterworth<4> float", es::butterworth<4>(), g);
    design<long double>("chebyshev2<3> long double", es::chebyshev2<3>(s), g);
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  {  // the monitor itself works
    unsigned long before = total_allocs;
    void* volatile p = malloc(10);
    free(p);
    int* volatile q = new int(3);
    delete q;
    V_CHECK(total_allocs == before + 2, "monitor", "allocation monitor does not see allocations");
    if (total_allocs == before + 2) V_COUNT("monitor_sees_allocations");
  }
  buffer<int>("buffer-int", [](int i) { return i; });
  buffer<Elem>("buffer-object", [](int i) { return Elem(i); });
  buffer<unsigned char>("buffer-byte", [](int i) { return static_cast<unsigned char>(i); });
  big_bulk<uint8_t>("bulk-u8");
  big_bulk<uint64_t>("bulk-u64");
  functions();
  varints();
  function_capacities();
  small_utilities();
  filters();
  v::sample(v::fmt("%llu armed sections (buffers, functions, varints, filters...) during which every allocator entry point was watched", v::st().counters["armed_sections"]));
  v::require("big_bulk_histories", 60);
  v::require("armed_sections", 800);
  v::require("varint_iterator_rounds", 50);
  v::require("function_capacity_rounds", 50);
  v::require("filter_designs", 90);
  v::require("monitor_sees_allocations", 1);
  return v::finish();
}
