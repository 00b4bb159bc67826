// C18: one deterministic program over all components; its output must not
// depend on the build configuration.  C++11, no exceptions or RTTI needed.
//   I key values    exact       (all configurations)
//   X key values    exact       (configurations with exceptions)
//   F key eps scale values      floating point, to within rounding
// Compiled twice (second time with -DTU2) to check several translation units.
#include <embedded/circular_buffer_adapter.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/type_traits.h>
#include <embedded/typelist.h>
#include <embedded/utility/integer_sequence.h>
#include <embedded/varint.h>
#ifndef NO_MATH
#include <embedded/constexpr_math.h>
#include <embedded/constexpr_math/complex.h>
#include <embedded/constexpr_math/constants.h>
#include <embedded/constexpr_math/convolve.h>
#include <embedded/constexpr_math/poly.h>
#include <embedded/constexpr_math/vector.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/debug_filter_coefs.h>
#include <embedded/signal/filter.h>
#include <embedded/signal/poly.h>
#include <embedded/signal/sos.h>
namespace fpm {
template <typename T1, typename T2, unsigned B>
class fixed;
}
#include <embedded/ostream_ops.h>
#include <sstream>
#endif

#include <algorithm>
#include <deque>
#include <iterator>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include "vharness.h"

#ifdef TU2
#define ENTRY second_unit
#else
#define ENTRY first_unit
void second_unit(uint64_t seed);
#endif

using v::Rng;

static void I(std::string const& key, uint64_t h) { printf("I %s %016llx\n", key.c_str(), static_cast<unsigned long long>(h)); }

// --- circular buffer -------------------------------------------------------------
struct Pod {
  int a;
  char c;
  bool operator==(Pod const& o) const { return a == o.a && c == o.c; }
  bool operator<(Pod const& o) const { return a < o.a || (a == o.a && c < o.c); }
};
template <class T>
struct Mk;
template <>
struct Mk<int> {
  static int get(Rng& r) { return static_cast<int>(r.range(-1000, 1000)); }
  static uint64_t hash(int x) { return static_cast<uint64_t>(x); }
};
template <>
struct Mk<unsigned char> {
  static unsigned char get(Rng& r) { return static_cast<unsigned char>(r.below(256)); }
  static uint64_t hash(unsigned char x) { return x; }
};
template <>
struct Mk<Pod> {
  static Pod get(Rng& r) { return Pod{static_cast<int>(r.range(-9, 9)), static_cast<char>('a' + r.below(4))}; }
  static uint64_t hash(Pod const& p) { return static_cast<uint64_t>(p.a) * 256 + static_cast<unsigned char>(p.c); }
};
template <>
struct Mk<std::string> {
  static std::string get(Rng& r) {
    std::size_t n = static_cast<std::size_t>(r.below(40));
    return std::string(n, static_cast<char>('a' + r.below(26)));
  }
  static uint64_t hash(std::string const& s) { return v::hash_str(s.c_str()); }
};

template <class T>
static uint64_t bulk(embedded::circular_buffer_adapter<T>& b, Rng& r, std::true_type) {
  T ext[16];
  std::size_t n = static_cast<std::size_t>(r.below(16));
  uint64_t h = n;
  for (T& x : ext) x = Mk<T>::get(r);
  switch (r.below(5)) {
    case 0: n = std::min(n, b.remaining()); b.copy_in_front(ext, n); break;
    case 1: n = std::min(n, b.remaining()); b.copy_in_back(ext, n); break;
    case 2: n = std::min(n, b.size()); b.copy_out_front(ext, n); break;
    case 3: n = std::min(n, b.size()); b.copy_out_back(ext, n); break;
    default: {
      n = std::min(n, b.size());
      std::size_t f = static_cast<std::size_t>(r.below(b.size() - n + 1));
      auto first = b.begin() + static_cast<std::ptrdiff_t>(f);
      if (r.chance(1, 2)) b.copy_in(first, first + static_cast<std::ptrdiff_t>(n), ext);
      else b.copy_out(first, first + static_cast<std::ptrdiff_t>(n), ext);
    }
  }
  for (T& x : ext) h = v::mix(h, Mk<T>::hash(x));
  return h;
}
template <class T>
static uint64_t bulk(embedded::circular_buffer_adapter<T>&, Rng&, std::false_type) { return 0; }

template <class T>
static void buffer(char const* name, uint64_t seed) {
  for (std::size_t cap : {std::size_t{1}, std::size_t{2}, std::size_t{3}, std::size_t{5}, std::size_t{16}}) {
    Rng r(v::mix(seed, cap));
    std::unique_ptr<typename std::aligned_storage<sizeof(T), alignof(T)>::type[]> mem(new typename std::aligned_storage<sizeof(T), alignof(T)>::type[cap]());
    T* p = reinterpret_cast<T*>(mem.get());
    embedded::circular_buffer_adapter<T> b(p, cap, static_cast<std::size_t>(r.below(cap)), 0);
    uint64_t h = cap;
    for (int step = 0; step < 400; ++step) {
      switch (r.below(12)) {
        case 0: if (!b.full()) b.push_back(Mk<T>::get(r)); break;
        case 1: if (!b.full()) b.push_front(Mk<T>::get(r)); break;
        case 2: if (!b.full()) b.emplace_back(Mk<T>::get(r)); break;
        case 3: if (!b.full()) b.emplace_front(Mk<T>::get(r)); break;
        case 4: if (!b.empty()) b.pop_front(); break;
        case 5: if (!b.empty()) b.pop_back(); break;
        case 6: b.pop_front(static_cast<std::size_t>(r.below(b.size() + 1))); break;
        case 7: b.pop_back(static_cast<std::size_t>(r.below(b.size() + 1))); break;
        case 8:
          if (!b.empty()) {
            std::size_t i = static_cast<std::size_t>(r.below(b.size()));
            b[i] = Mk<T>::get(r);
          }
          break;
        case 9: if (r.chance(1, 3)) b.clear(); break;
        case 10: std::sort(b.begin(), b.end()); break;
        default: h = v::mix(h, bulk(b, r, std::is_trivial<T>())); break;
      }
      h = v::mix(h, b.size() * 4 + b.empty() * 2 + b.full());
      h = v::mix(h, b.remaining() + b.capacity() * 64);
      h = v::mix(h, static_cast<uint64_t>(b.raw_index(b.begin())));
      for (T const& x : b) h = v::mix(h, Mk<T>::hash(x));
      embedded::circular_buffer_adapter<T> const& c = b;
      for (auto i = c.rbegin(); i != c.rend(); ++i) h = v::mix(h, Mk<T>::hash(*i));
      if (!b.empty()) {
        h = v::mix(h, Mk<T>::hash(c.front()) ^ Mk<T>::hash(c.back()) * 3);
        h = v::mix(h, Mk<T>::hash(c.at(b.size() - 1)) ^ Mk<T>::hash(c[0]) * 5);
        auto i = b.begin() + static_cast<std::ptrdiff_t>(r.below(b.size()));
        auto j = c.cbegin() + static_cast<std::ptrdiff_t>(r.below(b.size()));
        typename embedded::circular_buffer_adapter<T>::const_iterator ci(i);
        h = v::mix(h, static_cast<uint64_t>((ci < j) + (ci <= j) * 2 + (ci == j) * 4 + (ci != j) * 8 + (ci > j) * 16 + (ci >= j) * 32));
        h = v::mix(h, static_cast<uint64_t>(j - ci));
        h = v::mix(h, b.raw_index(i));
      }
      if (r.chance(1, 20)) {
        embedded::circular_buffer_adapter<T> m(std::move(b));
        b = std::move(m);
      }
    }
    b.clear();
    I(std::string("buffer/") + name + "/" + std::to_string(cap), h);
  }
}

// every state of small buffers, every constructor, every valid argument
static uint64_t bulk_edges(embedded::circular_buffer_adapter<std::string>&) { return 0; }
template <class T>
static uint64_t bulk_edges(embedded::circular_buffer_adapter<T>& b) {
  T ext[8] = {};
  uint64_t h = 0;
  std::size_t n = b.size();
  for (std::size_t i = 0; i <= n; ++i)
    for (std::size_t j = i; j <= n; ++j) {
      auto f = b.begin() + static_cast<std::ptrdiff_t>(i), l = b.begin() + static_cast<std::ptrdiff_t>(j);
      b.copy_out(f, l, ext);
      b.copy_in(f, l, ext);
      for (T& x : ext) h = v::mix(h, Mk<T>::hash(x));
    }
  for (std::size_t k = 0; k <= n; ++k) {
    b.copy_out_front(ext, k);
    if (b.remaining() >= k) b.copy_in_back(ext, k);
    else b.copy_in_back(ext, b.remaining());
    std::size_t extra = b.size() - n;
    b.copy_out_back(ext, 0);
    b.copy_in_front(ext, 0);
    b.copy_in_back(ext, 0);
    b.copy_out_front(ext, 0);
    b.pop_back(extra);
    std::size_t m = std::min(k, b.remaining());
    b.copy_in_front(ext, m);
    b.pop_front(m);
    b.copy_out_back(ext, k);
    for (T& x : ext) h = v::mix(h, Mk<T>::hash(x));
    if (k && b.size()) {  // the refilled window again
      b.copy_out_back(ext, b.size());
      b.copy_out_front(ext, b.size());
    }
    // both ends still hold n elements
    if (b.size() != n) h = v::mix(h, b.size());
    while (b.size() < n) b.push_back(ext[0]);
  }
  return h;
}
template <class B, class It>
static uint64_t walk(B& b, It const first, It const last) {
  uint64_t h = 0;
  typedef std::ptrdiff_t D;
  D n = static_cast<D>(b.size());
  for (D i = 0; i <= n; ++i)
    for (D j = 0; j <= n; ++j) {
      It a = first + i, c = last - (n - j), d = a;
      h = v::mix(h, static_cast<uint64_t>((a < c) + (a <= c) * 2 + (a > c) * 4 + (a >= c) * 8 + (a == c) * 16 + (a != c) * 32));
      h = v::mix(h, static_cast<uint64_t>(c - a));
      d += j - i;
      h = v::mix(h, d == c);
      d -= j - i;
      h = v::mix(h, d == a);
      d = a + (j - i);
      h = v::mix(h, d == c);
      d = a - (i - j);
      h = v::mix(h, d == c);
      d = (j - i) + a;
      h = v::mix(h, d == c);
      if (j < n) h = v::mix(h, a[j - i] == *c);
    }
  for (It i = first; i != last;) {
    It o = i++;
    h = v::mix(h, &*o == o.operator->());
    It p = i;
    --p;
    h = v::mix(h, p == o);
    p++;
    p--;
    h = v::mix(h, p - first);
  }
  for (It i = last; i != first; i--) h = v::mix(h, static_cast<uint64_t>(i - first));
  return h;
}
template <class T>
static void edges(char const* name, uint64_t seed) {
  typedef embedded::circular_buffer_adapter<T> B;
  Rng r(seed);
  uint64_t h = 0;
  for (std::size_t cap = 0; cap <= 4; ++cap)
    for (std::size_t first = 0; first <= cap; ++first)
      for (std::size_t n = 0; n <= cap; ++n)
        for (int ctor = 0; ctor < 4; ++ctor) {
          std::unique_ptr<typename std::aligned_storage<sizeof(T), alignof(T)>::type[]> mem(new typename std::aligned_storage<sizeof(T), alignof(T)>::type[cap + 1]());
          T* p = reinterpret_cast<T*>(mem.get());
          if (ctor >= 2 && (first || n)) continue;
          for (std::size_t i = 0; i < n; ++i) new (static_cast<void*>(p + (first + i) % cap)) T(Mk<T>::get(r));
          B made = ctor == 0 ? B(p, cap, first, n) : ctor == 1 ? B(p, p + cap, p + first, n) : ctor == 2 ? B(p, cap) : B(p, p + cap);
          B b;
          b = std::move(made);
          B const& c = b;
          h = v::mix(h, b.size() * 64 + b.capacity() * 8 + b.remaining() + b.empty() * 1024 + b.full() * 2048);
          h = v::mix(h, walk(b, b.begin(), b.end()));
          h = v::mix(h, walk(b, c.cbegin(), c.cend()));
          h = v::mix(h, walk(c, c.rbegin(), c.rend()));
          h = v::mix(h, walk(c, c.crbegin(), c.crend()));
          h = v::mix(h, bulk_edges(b));
          for (std::size_t i = 0; i < n; ++i) {
            h = v::mix(h, Mk<T>::hash(b[i]) + Mk<T>::hash(b.at(i)) * 3);
            h = v::mix(h, b.raw_index(b.begin() + static_cast<std::ptrdiff_t>(i)));
          }
          std::sort(b.begin(), b.end());
          std::reverse(b.begin(), b.end());
          std::rotate(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(n / 2), b.end());
          for (T const& x : c) h = v::mix(h, Mk<T>::hash(x));
          b.pop_front(0);
          b.pop_back(0);
          if (n && ctor == 0) b.pop_front(n);
          else if (n && ctor == 1) b.pop_back(n);
          b.clear();
          b.clear();
          h = v::mix(h, b.size());
        }
  B none;
  B other(std::move(none));
  h = v::mix(h, other.size() + other.capacity());
  I(std::string("edges/") + name, h);
}

// --- varint --------------------------------------------------------------------------
template <class T>
static void varint(char const* name, Rng& r) {
  uint64_t h = 0;
  for (int i = 0; i < 3000; ++i) {
    uint64_t bits = r.next();
    T x = static_cast<T>(bits >> r.below(64));
    if (r.chance(1, 10)) x = r.chance(1, 2) ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
    uint8_t buf[12] = {0};
    std::size_t room = static_cast<std::size_t>(r.below(12));
    uint8_t* e = embedded::varint::encode(x, buf, buf + room);
    h = v::mix(h, static_cast<uint64_t>(e - buf) + embedded::varint::size(x) * 16);
    h = v::hash_bytes(buf, sizeof buf, h);
    e = embedded::varint::encode(x, buf);
    h = v::hash_bytes(buf, static_cast<std::size_t>(e - buf), h);
    std::vector<uint8_t> bv;
    embedded::varint::encode(x, std::back_inserter(bv));
    h = v::hash_bytes(bv.data(), bv.size(), h);
    T y = 0;
    uint8_t const* d = embedded::varint::decode(y, buf, e);
    h = v::mix(h, static_cast<uint64_t>(d - buf) * 2 + (x == y));
    for (uint8_t& c : buf) {
      c = static_cast<uint8_t>(r.next());
      if (r.chance(3, 4)) c = static_cast<uint8_t>(c | 0x80);
    }
    y = 0;
    d = embedded::varint::decode(y, buf, buf + room);
    h = v::mix(h, static_cast<uint64_t>(d - buf));
    if (d != buf) h = v::mix(h, static_cast<uint64_t>(y));
  }
  I(std::string("varint/") + name, h);
}

// --- function, move_wrapper, lock_guard ---------------------------------------------------
static int twice(int x) { return 2 * x; }
struct Acc {
  int sum;
  int operator()(int x) { return sum += x; }
  int add(int x) { return sum += 10 * x; }
  int get(int x) const { return sum - x; }
};
struct Which {
  int operator()(int x) { return x + 1; }
  int operator()(int x) const { return x + 2; }
};
struct MoveOnly {
  std::unique_ptr<int> p;
  int operator()(int x) const { return *p + x; }
};
static void functions(Rng& r) {
  typedef embedded::function<int(int), 4 * sizeof(void*)> Fn;
  uint64_t h = 0;
  Fn f[4];
  for (int step = 0; step < 3000; ++step) {
    unsigned i = static_cast<unsigned>(r.below(4)), j = static_cast<unsigned>(r.below(4));
    int k = static_cast<int>(r.range(-50, 50));
    switch (r.below(10)) {
      case 0: f[i] = Fn(twice); break;
      case 1: f[i] = Fn(Acc{k}); break;
      case 2: f[i] = Fn(Which()); break;
      case 3: f[i] = Fn(MoveOnly{std::unique_ptr<int>(new int(k))}); break;
      case 4: f[i] = nullptr; break;
      case 5: if (i != j) f[i] = std::move(f[j]); break;
      case 6: std::swap(f[i], f[j]); break;
      case 7: f[i] = Fn([k](int x) mutable { return k += x; }); break;
      case 8: {
        Fn t(std::move(f[i]));
        f[j] = std::move(t);
        break;
      }
      default: break;
    }
    for (Fn& g : f) {
      h = v::mix(h, g ? 1 : 0);
      if (g) h = v::mix(h, static_cast<uint64_t>(g(static_cast<int>(r.range(-9, 9)))));
    }
  }
  I("function/history", h);
  Acc a{5};
  embedded::function<int(Acc&, int)> m(&Acc::add);
  embedded::function<int(Acc const&, int)> c(&Acc::get);
  embedded::function<int(int) const> w{Which()};
  embedded::function<void(int)> dis{Acc{1}};
  dis(3);
  embedded::function<std::string(std::string&&, int&)> s([](std::string&& t, int& n) {
    ++n;
    return std::move(t) + "!";
  });
  int n = 3;
  std::string res = s(std::string("abc"), n);
  int m1 = m(a, 3), c1 = c(a, 1), w1 = w(4);
  I("function/members", v::mix(static_cast<uint64_t>(m1 * 1000 + c1 * 10 + w1), v::hash_str(res.c_str()) + static_cast<uint64_t>(n)));
  embedded::move_wrapper<std::unique_ptr<int>> mw(std::unique_ptr<int>(new int(42)));
  auto l = [mw]() { return **mw; };
  auto l2 = l;
  I("move_wrapper", static_cast<uint64_t>(l2()));
}
struct Mutex {
  std::string* log;
  char id;
  void lock() { *log += id; }
  void unlock() { *log += static_cast<char>(id - 32); }
};
static int guarded(Mutex& a, Mutex& b, int n) {
  for (int i = 0; i < n; ++i) {
    embedded::lock_guard<Mutex> g(a);
    if (i == 2) continue;
    embedded::lock_guard<Mutex> g2(b);
    if (i == 5) return i;
  }
  return -1;
}
static void locks() {
  std::string log;
  Mutex a{&log, 'a'}, b{&log, 'b'};
  int x = guarded(a, b, 4);
  x += guarded(a, b, 9);
  I("lock_guard", v::hash_str(log.c_str()) + static_cast<uint64_t>(x));
}

#ifdef __cpp_exceptions
static void exceptions() {
  std::string log;
  int mem[4];
  embedded::circular_buffer_adapter<int> b(mem, 4);
  b.push_back(1);
  for (std::size_t i : {std::size_t{0}, std::size_t{1}, std::size_t{4}, static_cast<std::size_t>(-1)}) {
    try {
      log += std::to_string(b.at(i));
    } catch (std::out_of_range const&) {
      log += "R";
    }
  }
  embedded::function<int(int)> f;
  for (int i = 0; i < 3; ++i) {
    try {
      log += std::to_string(f(i));
    } catch (std::bad_function_call const&) {
      log += "B";
      if (i == 0) f = nullptr;
      if (i == 1) f = twice;
    }
  }
  f = [](int x) -> int {
    if (x) throw x;
    return 7;
  };
  for (int i = 0; i < 2; ++i) {
    try {
      log += std::to_string(f(i));
    } catch (int x) {
      log += "I" + std::to_string(x);
    }
  }
  Mutex a{&log, 'a'};
  try {
    embedded::lock_guard<Mutex> g(a);
    throw 1;
  } catch (int) {
    log += "C";
  }
  printf("X exceptions %s\n", log.c_str());
}
#endif

#ifndef NO_MATH
namespace cm = embedded::cmath;
namespace es = embedded::signal;
typedef cm::complex<double> C;

static void F(std::string const& key, double eps, double scale, std::vector<double> const& x) {
  printf("F %s %a %a", key.c_str(), eps, scale);
  for (double d : x) printf(" %a", d);
  printf("\n");
}
struct Ri {
  Rng* r;
  int operator()(std::size_t) const { return static_cast<int>(r->range(-20, 20)); }
};
struct Rc {
  Rng* r;
  C operator()(std::size_t) const {
    double re = r->uniform(-2, 2);
    return C(re, r->uniform(-2, 2));
  }
};
struct Lt {
  template <class T>
  bool operator()(T const& a, T const& b) const { return a < b; }
};
struct Neg {
  bool operator()(int a) const { return a < 0; }
};
struct Add {
  int operator()(int a, int b) const { return a * 3 + b; }
};
template <std::size_t N>
static void vectors(Rng& r) {
  auto a = cm::vector<int, N>::create(Ri{&r});
  auto b = cm::vector<int, N>::create(Ri{&r});
  uint64_t h = N;
  auto put = [&h](cm::vector<int, N> const& x) {
    for (std::size_t i = 0; i < N; ++i) h = v::mix(h, static_cast<uint64_t>(x[i]));
  };
  put(a.sort(Lt()));
  put(2 * a);
  put(3 + a);
  put(-a);
  put(b / 3);
  put(a.swap(0, N - 1));
  h = v::mix(h, a.argmin(Lt()) * 100 + a.count(Neg()) * 10 + (a == b));
  h = v::mix(h, static_cast<uint64_t>(cm::vector<int, (N < 5 ? N : 5)>(a.template subvector<0, (N < 5 ? N : 5)>()).reduce(Add(), 1)));
  auto c = convolve_full(a, b);
  for (std::size_t i = 0; i < c.size(); ++i) h = v::mix(h, static_cast<uint64_t>(c[i]));
  auto e = a.append(b).template erase<1, N - 1>();
  for (std::size_t i = 0; i < e.size(); ++i) h = v::mix(h, static_cast<uint64_t>(e[i]));
  auto p = poly(a.template subvector<0, (N < 5 ? N : 5)>());
  for (std::size_t i = 0; i < p.size(); ++i) h = v::mix(h, static_cast<uint64_t>(p[i]));
  I("vector/" + std::to_string(N), h);
  auto z = cm::vector<C, N>::create(Rc{&r});
  auto q = poly(z);
  std::vector<double> out;
  double scale = 1;
  for (std::size_t i = 0; i < q.size(); ++i) {
    out.push_back(q[i].real());
    out.push_back(q[i].imag());
    scale = std::max(scale, q[i].abs());
  }
  F("poly/" + std::to_string(N), 1e-13, scale, out);
}
static void complexes(Rng& r) {
  std::vector<double> o;
  for (int i = 0; i < 200; ++i) {
    C a = Rc{&r}(0), b = Rc{&r}(0);
    double x = r.uniform(-3, 3);
    for (C z : {a + b, a - b, a * b, a / (C(3, 1) + b * b.conj()), x * a, x + a, x - a, x / (C(4, 0) + a), a / (x + 4), exp(a), -a, a.conj()}) {
      o.push_back(z.real());
      o.push_back(z.imag());
    }
    o.push_back(a.norm());
    o.push_back(a.abs());
    o.push_back(a.distance(b));
  }
  F("complex", 1e-13, 10, o);
}

template <class D>
static void sos_out(std::string const& key, D const& d, double eps) {
  typedef typename std::decay<decltype(d.sos()[0].b()[0])>::type T;
  std::vector<double> o;
  double scale = 1;
  for (std::size_t i = 0; i < d.size(); ++i)
    for (std::size_t k = 0; k < 3; ++k) {
      o.push_back(static_cast<double>(d.sos()[i].b()[k]));
      o.push_back(static_cast<double>(d.sos()[i].a()[k]));
      scale = std::max(scale, std::fabs(o[o.size() - 2]));
    }
  F(key + "/sos", eps, scale, o);
  auto inst = d.instance();
  auto inst2 = d.instance();
  o.clear();
  for (int i = 0; i < 40; ++i) {
    o.push_back(static_cast<double>(inst(static_cast<T>(i % 7 == 0))));
    inst2(static_cast<T>(i));
  }
  F(key + "/sos/out", eps * 50, 1, o);
}
template <class D>
static void poly_out(std::string const& key, D const& d, double eps) {
  std::vector<double> o;
  double scale = 1;
  for (std::size_t i = 0; i <= d.order(); ++i) {
    o.push_back(static_cast<double>(d.b()[i]));
    o.push_back(static_cast<double>(d.a()[i]));
    scale = std::max(scale, std::fabs(o[o.size() - 1]));
  }
  F(key + "/poly", eps, scale, o);
  typedef typename D::value_type T;
  auto inst = d.instance();
  o.clear();
  for (int i = 0; i < 40; ++i) o.push_back(static_cast<double>(inst(static_cast<T>(i % 7 == 0))));
  F(key + "/poly/out", eps * 1000, 1, o);
}
template <class Proto>
static void design(std::string const& key, Proto const& proto, Rng& r, bool polys) {
  double fs = r.uniform(1, 1e5), fc = fs * r.uniform(0.08, 0.42);
  es::iirfilter<double> f(fs);
  auto lo = f.lowpass(proto, fc);
  auto hi = f.highpass(proto, fc);
  auto s1 = lo.template sos<double>();
  auto s2 = hi.template sos<double>(es::sos_gain::distribute);
  auto s3 = hi.template sos<float>();
  sos_out(key + "/lo", s1, 1e-11);
  sos_out(key + "/hi", s2, 1e-11);
  sos_out(key + "/hi/float", s3, 1e-5);
  if (polys) {
    auto p1 = lo.template poly<double>();
    auto p2 = hi.template poly<double>();
    poly_out(key + "/lo", p1, 1e-11);
    poly_out(key + "/hi", p2, 1e-11);
  }
}
template <std::size_t N>
static void designs(Rng& r) {
  std::string n = std::to_string(N);
  design("butterworth/" + n, es::butterworth<N>(), r, N < 7);
  design("chebyshev1/" + n, es::chebyshev1<N>(r.uniform(0.1, 3)), r, N < 7);
  design("chebyshev2/" + n, es::chebyshev2<N>(r.uniform(20, 60)), r, N < 7);
  design("bessel/" + n, es::bessel<N>(), r, N < 7);
}
static void streams() {
  std::ostringstream o;
  o << C(1.5, -0.25) << ' ' << C(-2, 0.0) << ' ' << C(0, -0.0) << ' ' << cm::vector<int, 3>{1, -2, 3} << ' ' << std::array<float, 2>{{0.5f, -0.125f}} << ' ' << cm::vector<C, 2>{C(1, 2), C(3, -4)};
  es::sos_section<double> s(cm::vector<C, 2>{C(1, 1), C(1, -1)}, cm::vector<C, 2>{C(0.5, 0), C(0.25, 0)}, 2.0);
  o << ' ' << s << ' ' << es::detail::zpk_value<1, 2, double>(cm::vector<C, 1>{C(1, 0)}, cm::vector<C, 2>{C(0.5, 0.5), C(0.5, -0.5)}, 4);
  printf("I stream %s\n", o.str().c_str());
}
static void math() {
  uint64_t h = 0;
  int a = 3, b = 7;
  h = v::mix(h, static_cast<uint64_t>(cm::min(a, b) * 100 + cm::max(a, b)));
  h = v::mix(h, static_cast<uint64_t>(cm::min(b, a) * 100 + cm::max(b, a)));
  I("math/minmax", h);
  std::vector<double> o;
  for (int i = 1; i < 60; ++i) {
    double x = i / 16.0;
    o.push_back(cm::sqrt(x));
    o.push_back(cm::exp(-x));
    o.push_back(cm::log(x));
    o.push_back(cm::sin(x));
    o.push_back(cm::cos(x));
    o.push_back(cm::atan(x));
    o.push_back(cm::tan(x / 4));
    o.push_back(cm::pow(x, 0.3));
    o.push_back(cm::sinh(x / 4));
    o.push_back(cm::cosh(x / 4));
    o.push_back(cm::asinh(x));
    o.push_back(cm::abs(-x));
    o.push_back(cm::floor(x) + cm::ceil(x) + cm::round(x) + cm::trunc(-x));
    o.push_back(cm::copysign(x, -1.0));
  }
  o.push_back(cm::pi<double>());
  o.push_back(cm::pi<float>() * 0 + 1);
  F("math", 1e-14, 8, o);
}
#endif

template <class T, T... Is>
static uint64_t seq(embedded::integer_sequence<T, Is...>) {
  uint64_t v[] = {0, static_cast<uint64_t>(Is)...};
  uint64_t h = sizeof...(Is);
  for (uint64_t x : v) h = v::mix(h, x);
  return h;
}

void ENTRY(uint64_t seed) {
  buffer<int>("int", seed + 1);
  buffer<unsigned char>("byte", seed + 2);
  buffer<Pod>("pod", seed + 3);
  buffer<std::string>("string", seed + 4);
  edges<int>("int", seed + 21);
  edges<Pod>("pod", seed + 22);
  edges<std::string>("string", seed + 23);
  {
    Rng r(seed + 5);
    varint<int8_t>("int8", r);
    varint<uint8_t>("uint8", r);
    varint<int16_t>("int16", r);
    varint<uint16_t>("uint16", r);
    varint<int32_t>("int32", r);
    varint<uint32_t>("uint32", r);
    varint<int64_t>("int64", r);
    varint<uint64_t>("uint64", r);
    varint<long>("long", r);
    varint<unsigned long long>("ull", r);
  }
  Rng r(seed + 6);
  functions(r);
  locks();
  I("sequences", seq(embedded::make_index_sequence<7>{}) + seq(embedded::make_integer_range<int, -3, 4>{}) * 3);
  I("conjunction", static_cast<uint64_t>(embedded::conjunction<std::true_type, std::integral_constant<int, 5>>::value) + embedded::conjunction<>::value * 10u);
  I("invocable", static_cast<uint64_t>(embedded::is_invocable_r<void, Acc, int>::value + embedded::is_invocable_r<std::string, Acc, int>::value * 2 + embedded::is_invocable_r<long, MoveOnly const&, short>::value * 4 + embedded::is_invocable_r<int, int>::value * 8));
#ifdef __cpp_exceptions
  exceptions();
#endif
#ifndef NO_MATH
  vectors<2>(r);
  vectors<3>(r);
  vectors<7>(r);
  complexes(r);
  math();
  streams();
  designs<1>(r);
  designs<2>(r);
  designs<3>(r);
  designs<4>(r);
  designs<5>(r);
  designs<8>(r);
#endif
}

#ifndef TU2
int main(int argc, char** argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
  first_unit(seed);
  printf("second unit\n");
  second_unit(seed);
}
#endif
