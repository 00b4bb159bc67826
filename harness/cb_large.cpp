// C02..C07 on large buffers: positions and counts on both sides of 2^8, 2^15,
// 2^16, 2^24 and, on sparse memory, 2^31 and 2^32.  PART selects the property.
#include <sys/mman.h>
#include <unistd.h>

#include <chrono>
#include <map>

#include "cb_rig.h"

#ifndef PART
#error PART
#endif

struct W3 {
  unsigned char b[3];
  bool operator==(W3 const& o) const { return b[0] == o.b[0] && b[1] == o.b[1] && b[2] == o.b[2]; }
};
struct W40 {
  uint64_t w[5];
  bool operator==(W40 const& o) const { return w[0] == o.w[0] && w[4] == o.w[4]; }
};
template <class T>
static T val(uint64_t id) {
  T t;
  unsigned char raw[sizeof(T)];
  uint64_t h = id * 0x9E3779B97F4A7C15ull + 0x1234567;
  for (size_t i = 0; i < sizeof raw; ++i) {
    raw[i] = static_cast<unsigned char>(h >> 32);
    h = h * 6364136223846793005ull + 1442695040888963407ull;
  }
  std::memcpy(&t, raw, sizeof t);
  return t;
}
template <class T>
static bool same(T const& a, T const& b) { return std::memcmp(&a, &b, sizeof a) == 0; }

// an interesting number up to max
static uint64_t around(v::Rng& g, uint64_t max) {
  static const uint64_t at[] = {127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072, 16777215, 16777216};
  for (int i = 0; i < 4; ++i) {
    uint64_t x = at[g.below(sizeof at / sizeof *at)] + g.below(3) - 1;
    if (x <= max) {
      int k = static_cast<int>(g.below(4));
      return k == 0 ? max - x : x;
    }
  }
  return g.below(max + 1);
}
static uint64_t pick(v::Rng& g, uint64_t max) {
  switch (g.below(5)) {
  case 0: return max - (g.below(4) <= max ? g.below(4) % (max + 1) : 0);
  case 1: return g.below(4) % (max + 1);
  case 2: return g.below(max + 1);
  default: return around(g, max);
  }
}

static size_t cap_of(v::Rng& g, uint64_t index, size_t elem) {
  static const size_t caps[] = {200, 255, 256, 257, 300, 1000, 32769, 40000, 65535, 65536, 65537, 70000, 131073, 200000};
  size_t n = sizeof caps / sizeof *caps;
  size_t c = index % 80 == 79 && elem <= 3 ? (size_t{1} << 24) + 5 : caps[g.below(n)];
  return c;
}

// ---------------------------------------------------------------- C07, C02
// arena: guard | memory | guard, all bytes known
template <class T>
static void bulk_ops(char const* name, int64_t cases) {
  v::Cases c(name, cases);
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = cap_of(g, c.index(), sizeof(T));
    size_t guard = 64 + 65536 / sizeof(T);
    std::vector<T> arena(cap + 2 * guard);
    for (size_t i = 0; i < arena.size(); ++i) arena[i] = val<T>(i ^ 0x5555);
    T* mem = arena.data() + guard;
    size_t fs = pick(g, cap - 1), size = pick(g, cap);
    circular_buffer_adapter<T> b(mem, cap, fs, size);
    std::vector<T> image = arena;  // what every byte should be
    for (int step = 0; step < 6; ++step) {
      size_t op = g.below(6);
      size_t room = op < 2 ? cap - size : size;
      size_t n = pick(g, room), at = op >= 4 ? pick(g, size - n) : 0;
      v::at("%s cap=%zu first=%zu size=%zu op=%zu n=%zu at=%zu", name, cap, fs, size, op, n, at);
      std::vector<T> ext(n + 2);
      uint64_t base = g.next();
      for (size_t i = 0; i < n + 2; ++i) ext[i] = val<T>(base + i);
      std::vector<T> before = ext;
      T* e = ext.data() + 1;
      auto slot = [&](size_t i) -> T& { return image[guard + (fs + i) % cap]; };
      switch (op) {
      case 0: b.copy_in_back(e, n); for (size_t i = 0; i < n; ++i) slot(size + i) = before[i + 1]; size += n; break;
      case 1: b.copy_in_front(e, n); fs = (fs + cap - n) % cap; size += n; for (size_t i = 0; i < n; ++i) slot(i) = before[i + 1]; break;
      case 2: b.copy_out_front(e, n); for (size_t i = 0; i < n; ++i) before[i + 1] = slot(i); fs = (fs + n) % cap; size -= n; break;
      case 3: b.copy_out_back(e, n); for (size_t i = 0; i < n; ++i) before[i + 1] = slot(size - n + i); size -= n; break;
      case 4: b.copy_in(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + n), e); for (size_t i = 0; i < n; ++i) slot(at + i) = before[i + 1]; break;
      default: b.copy_out(b.cbegin() + static_cast<long>(at), b.cbegin() + static_cast<long>(at + n), e); for (size_t i = 0; i < n; ++i) before[i + 1] = slot(at + i); break;
      }
      V_CHECK(b.size() == size && b.remaining() == cap - size, "size", "size %zu, expected %zu", (size_t)b.size(), size);
      if (std::memcmp(ext.data(), before.data(), ext.size() * sizeof(T)) != 0) {
        size_t i = 0;
        while (same(ext[i], before[i])) ++i;
        v::fail("external", "element %lld of %zu of the external array is wrong", (long long)i - 1, n);
      }
      if (std::memcmp(arena.data(), image.data(), arena.size() * sizeof(T)) != 0) {
        size_t i = 0;
        while (same(arena[i], image[i])) ++i;
        v::fail("memory", "slot %lld of %zu is wrong", (long long)i - (long long)guard, cap);
        image = arena;
      }
      if (size) {
        V_CHECK(&b.front() == mem + fs && &b.back() == mem + (fs + size - 1) % cap, "ends", "front/back in a wrong slot");
        size_t q = pick(g, size - 1);
        V_CHECK(&b[q] == mem + (fs + q) % cap, "slot", "element %zu in a wrong slot", q);
      }
      V_COUNT("large_bulk_ops");
      if (n > 255) V_COUNT("large_bulk_over_255");
      if (n > 65535) V_COUNT("large_bulk_over_65535");
      v::evaluated();
      v::distinct(v::mix(v::mix(v::mix(cap, fs), v::mix(size, op)), n));
    }
  }
}

// every kind of operation on a large buffer, judged by the slots it may write
template <class T>
static void writes(char const* name, int64_t cases) {
  v::Cases c(name, cases);
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = cap_of(g, 0, sizeof(T)), guard = 300;
    std::vector<T> arena(cap + 2 * guard);
    for (size_t i = 0; i < arena.size(); ++i) arena[i] = val<T>(i ^ 0x5555);
    T* mem = arena.data() + guard;
    size_t fs = pick(g, cap - 1), size = pick(g, cap);
    circular_buffer_adapter<T> b(mem, cap, fs, size);
    std::vector<T> image = arena;
    for (int step = 0; step < 12; ++step) {
      size_t op = g.below(12);
      uint64_t id = g.next();
      size_t n = pick(g, size);
      v::at("%s cap=%zu first=%zu size=%zu op=%zu n=%zu", name, cap, fs, size, op, n);
      auto slot = [&](size_t i) -> T& { return image[guard + (fs + i) % cap]; };
      bool keep_start = true;
      switch (op) {
      case 0: if (size < cap) { b.push_back(val<T>(id)); slot(size++) = val<T>(id); } break;
      case 1: if (size < cap) { b.push_front(val<T>(id)); fs = (fs + cap - 1) % cap; ++size; slot(0) = val<T>(id); } break;
      case 2: if (size < cap) { T const x = val<T>(id); b.emplace_back(x); slot(size++) = x; } break;
      case 3: if (size < cap) { T const x = val<T>(id); b.emplace_front(x); fs = (fs + cap - 1) % cap; ++size; slot(0) = x; } break;
      case 4: b.pop_front(n); fs = (fs + n) % cap; size -= n; break;
      case 5: b.pop_back(n); size -= n; break;
      case 6: if (size) { b.pop_front(); fs = (fs + 1) % cap; --size; } break;
      case 7: if (size) { b.pop_back(); --size; } break;
      case 8: { uint64_t x = 0; for (auto const& e : b) x += reinterpret_cast<unsigned char const&>(e); volatile uint64_t sink = x; (void)sink; break; }
      case 9: if (size) { b[n % size] = val<T>(id); slot(n % size) = val<T>(id); } break;
      case 10: { size_t k = size - n > 70000 ? 70000 : size - n; std::vector<T> out(k); b.copy_out(b.begin() + static_cast<long>(n), b.begin() + static_cast<long>(n + k), out.data()); break; }
      default: if (g.chance(1, 4)) { b.clear(); size = 0; keep_start = false; } break;
      }
      V_CHECK(b.size() == size, "size", "size %zu, expected %zu", (size_t)b.size(), size);
      if (std::memcmp(arena.data(), image.data(), arena.size() * sizeof(T)) != 0) {
        size_t i = 0;
        while (same(arena[i], image[i])) ++i;
        v::fail("write", "operation %zu changed slot %lld of %zu", op, (long long)i - (long long)guard, cap);
        image = arena;
      }
      if (!keep_start) {  // where an emptied buffer goes on is its own business
        b = circular_buffer_adapter<T>(mem, cap, fs, 0);
      }
      if (size) V_CHECK(&b[size - 1] == mem + (fs + size - 1) % cap && &b[size / 2] == mem + (fs + size / 2) % cap, "slot", "element in a wrong slot");
      V_COUNT("large_write_ops");
      v::evaluated();
      v::distinct(v::mix(v::mix(v::mix(cap, fs), v::mix(size, op)), n));
    }
  }
}

// copies of more than 2^31 and 2^32 elements, on memory that only exists where written
struct Map {
  void* p;
  size_t n;
  explicit Map(size_t n) : n(n) {
    p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) p = nullptr;
    else madvise(p, n, MADV_HUGEPAGE);
  }
  ~Map() { if (p) munmap(p, n); }
  uint8_t* b() { return static_cast<uint8_t*>(p); }
};
static bool room_for(uint64_t bytes) {
  FILE* f = fopen("/proc/meminfo", "r");
  if (!f) return false;
  char line[200];
  unsigned long long kb = 0;
  while (fgets(line, sizeof line, f))
    if (sscanf(line, "MemAvailable: %llu", &kb) == 1) break;
  fclose(f);
  return kb * 1024 > bytes * 2 + (4ull << 30);
}
static void huge_bulk() {
  v::Cases c("huge-bulk", v::scale(6, 24));
  while (c.next()) {
    v::Rng& g = c.rng;
    unsigned op = static_cast<unsigned>(c.index() % 6), variant = static_cast<unsigned>(c.index() / 6);
    uint64_t n = (variant & 1 ? 1ull << 31 : 1ull << 32) + 1000 + g.below(1000);
    bool in = op == 0 || op == 2 || op == 5;
    if (!room_for(n)) { v::count("huge_bulk_skipped_for_memory"); continue; }
    uint64_t cap = n + 5000, fs = 3000 + g.below(1000);
    if (variant & 2) fs = cap - 3000 - g.below(1000);
    Map buf(cap), ext(n);
    if (!buf.p || !ext.p) { v::count("huge_bulk_skipped_for_memory"); continue; }
    // marked places of the source; everything else is zero
    std::vector<uint64_t> marks = {0, 1, n - 1, n - 2, cap - fs - 1, cap - fs, cap - fs + 1, (1ull << 31) - 1, 1ull << 31, n / 2};
    for (int i = 0; i < 10; ++i) marks.push_back(g.below(n));
    circular_buffer_adapter<uint8_t> b(buf.b(), cap, op == 2 ? (fs + n) % cap : fs, op == 0 || op == 2 ? 0 : n);
    v::at("huge op=%u cap=%llu first=%llu n=%llu", op, (unsigned long long)cap, (unsigned long long)fs, (unsigned long long)n);
    for (auto& m : marks) {
      if (m >= n) m %= n;
      (in ? ext.b()[m] : buf.b()[(fs + m) % cap]) = static_cast<uint8_t>(1 + m % 251);
    }
    switch (op) {
    case 0: b.copy_in_back(ext.b(), size_t{n}); break;
    case 1: b.copy_out(b.begin(), b.end(), ext.b()); break;
    case 2: b.copy_in_front(ext.b(), size_t{n}); break;
    case 3: b.copy_out_front(ext.b(), size_t{n}); break;
    case 4: b.copy_out_back(ext.b(), size_t{n}); break;
    default: b.copy_in(b.begin(), b.end(), ext.b()); break;
    }
    for (auto m : marks) {
      uint8_t got = in ? buf.b()[(fs + m) % cap] : ext.b()[m];
      V_CHECK(got == 1 + m % 251, "huge-bulk", "op %u: element %llu of %llu was not copied", op, (unsigned long long)m, (unsigned long long)n);
    }
    uint64_t left = op == 3 || op == 4 ? 0 : n;
    V_CHECK(b.size() == left && b.remaining() == cap - left, "huge-size", "op %u: size %zu", op, (size_t)b.size());
    if (left) V_CHECK(&b.front() == buf.b() + fs && &b.back() == buf.b() + (fs + n - 1) % cap, "huge-ends", "op %u: front or back in a wrong slot", op);
    for (uint64_t i = n; i < cap; ++i)
      if (buf.b()[(fs + i) % cap] != 0) { v::fail("huge-stray", "op %u: unused slot written", op); break; }
    V_COUNT("huge_bulk_copies");
    v::evaluated();
    v::distinct(v::mix(v::mix(cap, fs), v::mix(n, op)));
  }
}

// Popping many trivial elements may take constant or linear time: go on with
// huge counts as long as they can be afforded.
static double huge_left = 12, per_element = 0;
static uint64_t affordable(uint64_t count) {
  if (count < 100000 || static_cast<double>(count) * per_element <= huge_left) return count;
  v::count("huge_pops_limited");
  return count % 100000;
}
template <class F>
static void timed(uint64_t count, F f) {
  auto t0 = std::chrono::steady_clock::now();
  f();
  double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (count >= 100000) {
    huge_left -= s;
    per_element = s / static_cast<double>(count);
  }
}

// ---------------------------------------------------------------- C03, C06
// iterators and re-attachment, small elements, sparse memory
template <class T>
static void iterators(char const* name, int64_t cases) {
  static const uint64_t caps[] = {200, 255, 256, 257, 40000, 65535, 65536, 65537, 131073, (1ull << 24) + 3, (1ull << 31) - 1, (1ull << 31) + 3, 1ull << 32, (1ull << 32) + 7};
  v::Cases c(name, cases);
  while (c.next()) {
    v::Rng& g = c.rng;
    uint64_t cap = caps[c.index() % (sizeof(T) > 8 ? 10 : 14)];
    Map m(cap * sizeof(T));
    if (!m.p) { v::count("mmap_failed"); continue; }
    T* mem = static_cast<T*>(m.p);
    for (int k = 0; k < 30; ++k) {
      uint64_t fs = pick(g, cap - 1), n = pick(g, cap);
      circular_buffer_adapter<T> b(mem, cap, fs, n);
      v::at("%s cap=%llu first=%llu size=%llu", name, (unsigned long long)cap, (unsigned long long)fs, (unsigned long long)n);
      typedef long long D;
      auto const beg = b.begin();
      auto const cend = b.cend();
      V_CHECK(cend - b.cbegin() == (D)n && b.end() - beg == (D)n, "difference", "end - begin is not the size");
      V_CHECK(b.raw_index(b.begin()) == fs % cap, "raw_index", "raw index of begin is %zu", (size_t)b.raw_index(b.begin()));
      uint64_t i = pick(g, n), j = pick(g, n);
      auto x = beg + (D)i, y = b.end() - (D)(n - j);
      typename circular_buffer_adapter<T>::const_iterator cx = x, cy = y;
      V_CHECK(x - beg == (D)i && y - beg == (D)j && y - x == (D)j - (D)i && cx - cy == (D)i - (D)j, "difference", "differences at %llu and %llu", (unsigned long long)i, (unsigned long long)j);
      V_CHECK((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), "order", "comparison of %llu and %llu", (unsigned long long)i, (unsigned long long)j);
      V_CHECK((x < cy) == (i < j) && (cx >= y) == (i >= j) && (cx == y) == (i == j), "mixed-order", "mixed comparison of %llu and %llu", (unsigned long long)i, (unsigned long long)j);
      auto w = x;
      w += (D)j - (D)i;
      V_CHECK(w == y, "plus", "+= %lld from %llu", (D)j - (D)i, (unsigned long long)i);
      w -= (D)j - (D)i;
      V_CHECK(w == x, "minus", "-= %lld from %llu", (D)j - (D)i, (unsigned long long)j);
      if (i < n) {
        T* want = mem + (fs + i) % cap;
        V_CHECK(&*x == want && x.operator->() == want && &*cx == want && &b[i] == want && &b.at(i) == want, "slot", "element %llu in a wrong slot", (unsigned long long)i);
        V_CHECK(b.raw_index(x) == (fs + i) % cap && b.raw_index(cx) == (fs + i) % cap, "raw_index", "raw index of element %llu is %zu, expected %llu", (unsigned long long)i, (size_t)b.raw_index(x), (unsigned long long)((fs + i) % cap));
        V_CHECK(&y[(D)i - (D)j] == want, "subscript", "subscript %lld of %llu", (D)i - (D)j, (unsigned long long)j);
        auto z = x;
        ++z;
        V_CHECK(z - beg == (D)i + 1 && z > x, "increment", "++ at %llu", (unsigned long long)i);
        --z;
        V_CHECK(z == x, "decrement", "-- at %llu", (unsigned long long)i + 1);
        auto r = b.rbegin() + (D)(n - 1 - i);
        V_CHECK(&*r == want, "reverse", "reverse iterator to element %llu", (unsigned long long)i);
      }
      // lose the adapter, attach another one by what it would have persisted
      size_t raw = b.raw_index(b.begin()), cnt = b.size();
      circular_buffer_adapter<T> d(mem, cap, raw, cnt), e(mem, mem + cap, mem + raw, cnt);
      V_CHECK(d.size() == n && e.size() == n && d.full() == b.full() && d.empty() == b.empty(), "attach-size", "re-attached buffer has size %zu", (size_t)d.size());
      if (n) {
        uint64_t q = pick(g, n - 1);
        T* want = mem + (fs + q) % cap;
        V_CHECK(&d[q] == want && &e[q] == want, "attach-slot", "element %llu of the re-attached buffer is in a wrong slot", (unsigned long long)q);
        V_CHECK(&d.front() == &b.front() && &e.front() == &b.front() && &d.back() == &b.back() && &e.back() == &b.back(), "attach-ends", "ends of the re-attached buffer");
        uint64_t p = affordable(pick(g, n));
        timed(2 * p, [&] {
          d.pop_front(p);
          e.pop_back(p);
        });
        if (p < n) {
          V_CHECK(&d.front() == mem + (fs + p) % cap && &e.back() == mem + (fs + n - p - 1) % cap, "attach-pop", "after popping %llu", (unsigned long long)p);
          circular_buffer_adapter<T> f(mem, cap, d.raw_index(d.begin()), d.size());
          V_CHECK(&f.front() == &d.front() && &f.back() == &d.back() && f.size() == n - p, "attach-again", "after popping %llu", (unsigned long long)p);
          bool thrown = false;
          try { (void)d.at(n - p + pick(g, ~uint64_t{0} - (n - p))); } catch (std::out_of_range const&) { thrown = true; }
          V_CHECK(thrown, "at", "at() of a position beyond the end did not throw");
        }
      }
      V_COUNT("large_states");
      if (cap > 65536) V_COUNT("large_states_over_65536");
      if (cap > (1ull << 31)) V_COUNT("large_states_over_2_31");
      v::evaluated();
      v::distinct(v::mix(v::mix(cap, fs), v::mix(n, i)));
    }
  }
}

// algorithms over a large wrapped buffer
static void algorithms() {
  v::Cases c("large-algorithms", v::scale(8, 60));
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = 60000 + g.below(20000), fs = pick(g, cap - 1), n = cap - g.below(3) * g.below(20000);
    std::vector<uint32_t> mem(cap), ref;
    for (auto& x : mem) x = static_cast<uint32_t>(g.next());
    circular_buffer_adapter<uint32_t> b(mem.data(), cap, fs, n);
    ref.assign(b.begin(), b.end());
    std::vector<uint32_t> rev(b.rbegin(), b.rend());
    std::reverse(rev.begin(), rev.end());
    V_CHECK(ref.size() == n && rev == ref, "iterate", "forward and reverse iteration differ");
    v::at("algorithms cap=%zu first=%zu size=%zu", cap, fs, n);
    size_t k = g.below(n);
    std::rotate(b.begin(), b.begin() + static_cast<long>(k), b.end());
    std::rotate(ref.begin(), ref.begin() + static_cast<long>(k), ref.end());
    V_CHECK(std::equal(ref.begin(), ref.end(), b.begin()), "rotate", "rotate by %zu", k);
    std::reverse(b.begin(), b.end());
    std::reverse(ref.begin(), ref.end());
    V_CHECK(std::equal(ref.begin(), ref.end(), b.cbegin()), "reverse", "reverse");
    std::sort(b.begin(), b.end());
    std::sort(ref.begin(), ref.end());
    V_CHECK(std::equal(ref.begin(), ref.end(), b.begin()), "sort", "sort");
    for (int i = 0; i < 50; ++i) {
      uint32_t x = i & 1 ? ref[g.below(n)] : static_cast<uint32_t>(g.next());
      auto lo = std::lower_bound(b.begin(), b.end(), x) - b.begin();
      V_CHECK(lo == std::lower_bound(ref.begin(), ref.end(), x) - ref.begin(), "lower_bound", "lower_bound");
    }
    V_COUNT("large_algorithms");
    v::evaluated();
    v::distinct(v::mix(v::mix(cap, fs), n));
  }
}

// ---------------------------------------------------------------- C04, C05
struct Counted {
  static std::vector<unsigned char>* alive;  // one flag per slot
  static Counted* base;
  static uint64_t ctor, copy, move, dtor, bad;
  static int throw_in;
  uint32_t id;
  uint64_t slot() const { return static_cast<uint64_t>(this - base); }
  void in() {
    auto s = slot();
    if (s >= alive->size()) { if (outside()) return; ++bad; return; }
    if ((*alive)[s]) ++bad;
    (*alive)[s] = 1;
  }
  bool outside() const { return this < base || this >= base + alive->size(); }
  explicit Counted(uint32_t i) : id(i) { boom(); ++ctor; if (!outside()) in(); }
  Counted(Counted const& o) : id(o.id) { boom(); ++copy; if (!outside()) in(); }
  Counted(Counted&& o) : id(o.id) { boom(); ++move; o.id = ~0u; if (!outside()) in(); }
  Counted& operator=(Counted const&) { ++bad; return *this; }
  ~Counted() {
    ++dtor;
    if (outside()) return;
    if (!(*alive)[slot()]) ++bad;
    (*alive)[slot()] = 0;
  }
  static void boom() {
    if (throw_in > 0 && --throw_in == 0) throw 42;
  }
};
std::vector<unsigned char>* Counted::alive;
Counted* Counted::base;
uint64_t Counted::ctor, Counted::copy, Counted::move, Counted::dtor, Counted::bad;
int Counted::throw_in;

static void lifetimes(bool faults) {
  v::Cases c(faults ? "large-faults" : "large-lifetime", v::scale(300, 3000));
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = cap_of(g, 0, 4), fs = pick(g, cap - 1), size = pick(g, cap);
    std::vector<unsigned char> alive(cap, 0), raw(cap * sizeof(Counted));
    Counted* mem = reinterpret_cast<Counted*>(raw.data());
    Counted::alive = &alive;
    Counted::base = mem;
    for (size_t i = 0; i < size; ++i) new (mem + (fs + i) % cap) Counted(static_cast<uint32_t>(i));
    std::vector<unsigned char> want = alive;
    {
      circular_buffer_adapter<Counted> b(mem, cap, fs, size);
      for (int step = 0; step < 10; ++step) {
        size_t op = g.below(9), n = pick(g, size);
        if (op < 5 && size == cap) op = 5 + g.below(4);
        if (op > 5 && size == 0) op = g.below(5);
        if (op == 8 && !g.chance(1, 4)) op = 6;
        v::at("lifetime cap=%zu first=%zu size=%zu op=%zu n=%zu", cap, fs, size, op, n);
        uint64_t c0 = Counted::ctor, y0 = Counted::copy, m0 = Counted::move, d0 = Counted::dtor;
        uint64_t xc = 0, xy = 0, xm = 0, xd = 0;
        auto flag = [&](size_t i) -> unsigned char& { return want[(fs + i) % cap]; };
        uint32_t id = static_cast<uint32_t>(g.next());
        bool thrown = false, fail = faults && op < 5 && g.chance(1, 2);
        uint32_t front = size ? b.front().id : 0, back = size ? b.back().id : 0;
        if (op < 5) {
          Counted x(id);
          c0 = Counted::ctor;
          if (fail) Counted::throw_in = 1;
          try {
            switch (op) {
            case 0: b.push_back(x); xy = 1; break;
            case 1: b.push_front(x); xy = 1; break;
            case 2: b.push_back(std::move(x)); xm = 1; break;
            case 3: b.push_front(std::move(x)); xm = 1; break;
            default: if (id & 1) b.emplace_back(id); else b.emplace_front(id); xc = 1; break;
            }
          } catch (int) {
            thrown = true;
            xc = xy = xm = 0;
          }
          Counted::throw_in = 0;
          d0 = Counted::dtor;
          xd = 0;
          V_CHECK(Counted::ctor - c0 == xc && Counted::copy - y0 == xy && Counted::move - m0 == xm, "events", "operation %zu: constructed/copied/moved %llu/%llu/%llu", op, (unsigned long long)(Counted::ctor - c0), (unsigned long long)(Counted::copy - y0), (unsigned long long)(Counted::move - m0));
          V_CHECK(thrown == fail, "throw", "exception was %s", thrown ? "thrown" : "lost");
          if (!thrown) {
            bool at_front = op == 1 || op == 3 || (op == 4 && !(id & 1));
            if (at_front) { fs = (fs + cap - 1) % cap; ++size; flag(0) = 1; }
            else flag(size++) = 1;
            uint32_t got = at_front ? b.front().id : b.back().id;
            V_CHECK(got == id, "value", "pushed element has another value");
          } else {
            V_COUNT("large_throws");
            if (size) V_CHECK(b.front().id == front && b.back().id == back, "unchanged", "ends changed by a failed push");
          }
        } else {
          switch (op) {
          case 5: b.pop_front(n); for (size_t i = 0; i < n; ++i) flag(i) = 0; fs = (fs + n) % cap; size -= n; xd = n; break;
          case 6: b.pop_back(n); for (size_t i = size - n; i < size; ++i) flag(i) = 0; size -= n; xd = n; break;
          case 7: if (g.chance(1, 2)) { b.pop_front(); flag(0) = 0; fs = (fs + 1) % cap; } else { b.pop_back(); flag(size - 1) = 0; } --size; xd = 1; break;
          default: b.clear(); for (size_t i = 0; i < size; ++i) flag(i) = 0; xd = size; size = 0; b = circular_buffer_adapter<Counted>(mem, cap, fs, 0); break;
          }
          V_CHECK(Counted::ctor == c0 && Counted::copy == y0 && Counted::move == m0, "events", "popping constructed elements");
          V_CHECK(Counted::dtor - d0 == xd, "destroyed", "%llu elements destroyed, expected %llu", (unsigned long long)(Counted::dtor - d0), (unsigned long long)xd);
        }
        V_CHECK(b.size() == size, "size", "size %zu, expected %zu", (size_t)b.size(), size);
        if (want != alive) {
          size_t i = 0;
          while (want[i] == alive[i]) ++i;
          v::fail("alive", "slot %zu of %zu is %s", i, cap, alive[i] ? "alive" : "dead");
          want = alive;
        }
        V_CHECK(Counted::bad == 0, "registry", "assignment, double construction or destruction");
        Counted::bad = 0;
        V_COUNT("large_lifetime_ops");
        if (xd > 65535) V_COUNT("large_pops_over_65535");
        v::evaluated();
        v::distinct(v::mix(v::mix(v::mix(cap, fs), v::mix(size, op)), n));
      }
    }
    V_CHECK(want == alive, "adapter-end", "destroying the adapter touched elements");
    for (size_t i = 0; i < cap; ++i)
      if (alive[i]) mem[i].~Counted();
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
#if PART == 2
  writes<uint8_t>("writes-u8", v::scale(300, 3000));
  writes<W3>("writes-3", v::scale(300, 3000));
  writes<W40>("writes-40", v::scale(150, 1500));
  v::require("large_write_ops", 1000);
#elif PART == 3
  iterators<uint8_t>("attach-u8", v::scale(280, 2800));
  iterators<uint32_t>("attach-u32", v::scale(140, 1400));
  iterators<W40>("attach-40", v::scale(100, 1000));
  v::require("large_states_over_65536", 500);
#elif PART == 4
  lifetimes(false);
  v::require("large_lifetime_ops", 2000);
  v::require("large_pops_over_65535", 3);
#elif PART == 5
  lifetimes(true);
  iterators<uint16_t>("at-u16", v::scale(140, 1400));
  v::require("large_throws", 20);
#elif PART == 6
  iterators<uint8_t>("iter-u8", v::scale(280, 2800));
  iterators<uint64_t>("iter-u64", v::scale(140, 1400));
  iterators<W40>("iter-40", v::scale(100, 1000));
  algorithms();
  v::require("large_states_over_65536", 500);
  v::require("large_algorithms", 3);
#elif PART == 7
  bulk_ops<uint8_t>("bulk-u8", v::scale(160, 3000));
  bulk_ops<W3>("bulk-3", v::scale(80, 2000));
  bulk_ops<uint64_t>("bulk-u64", v::scale(80, 2000));
  bulk_ops<W40>("bulk-40", v::scale(30, 600));
#ifdef HUGE_BULK
  huge_bulk();
#endif
  v::require("large_bulk_over_65535", 40);
#endif
  return v::finish();
}
