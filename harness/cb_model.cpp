// C01: circular_buffer_adapter against a bounded deque model.
#include "cb_rig.h"
#include <stdexcept>
#include <sys/mman.h>

// Every (capacity, first, count) state x every operation with every argument,
// followed by every other operation with a sampled argument.
template <class T>
static void enumerate(size_t maxcap, const char* section) {
  v::Cases c(section, static_cast<int64_t>(maxcap));
  while (c.next()) {
    size_t cap = static_cast<size_t>(c.index()) + 1;
    for (size_t first = 0; first <= cap; ++first)
      for (size_t count = 0; count <= cap; ++count)
        for (int o1 = 0; o1 < static_cast<int>(Op::n_ops); ++o1) {
          Op op1 = static_cast<Op>(o1);
          size_t max1;
          {
            Mem<T> m(cap);
            Rig<T> r(m.p, cap, first, count, static_cast<int>(first + count) & 7);
            if (o1 == 0) r.observe("initial");
            if (!r.possible(op1)) continue;
            max1 = r.max_arg(op1);
          }
          for (size_t a1 = 0; a1 <= max1; ++a1)
            for (int o2 = 0; o2 < static_cast<int>(Op::n_ops); ++o2) {
              Op op2 = static_cast<Op>(o2);
              Mem<T> m(cap);
              Rig<T> r(m.p, cap, first, count, static_cast<int>(c.rng.below(8)));
              v::at("%s cap=%zu first=%zu count=%zu %s(%zu) %s", type_name<T>(), cap, first, count, op_name(op1), a1, op_name(op2));
              r.apply(op1, a1, c.rng.below(100));
              if (o2 == 0) r.observe("after op1");
              if (!r.possible(op2)) continue;
              r.apply(op2, c.rng.below(r.max_arg(op2) + 1), c.rng.below(100));
              r.observe("after op2");
              V_COUNT("state_op_op_transitions");
              v::evaluated();
              v::distinct(v::mix(v::mix(v::mix(v::mix(cap * 1000 + first, count), static_cast<uint64_t>(o1) * 64 + a1), static_cast<uint64_t>(o2)), sizeof(T)));
            }
        }
  }
}

template <class T>
static void histories(int64_t n, size_t maxcap, int len, const char* section) {
  v::Cases c(section, n);
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap;
    switch (g.below(4)) {
    case 0: cap = 1 + g.below(4); break;
    case 1: cap = 1 + g.below(16); break;
    case 2: cap = size_t{1} << g.below(7); break;
    default: cap = 1 + g.below(maxcap); break;
    }
    size_t first = g.below(cap + 1), count = g.below(cap + 1);
    Mem<T> m(cap);
    Rig<T> r(m.p, cap, first, count, static_cast<int>(g.below(8)));
    int phase = 0;
    std::string hist;
    for (int i = 0; i < len; ++i) {
      if (i % 12 == 0) phase = static_cast<int>(g.below(6));
      Op o = random_op(g, phase);
      if (!r.possible(o)) continue;
      if (o == Op::clear && !g.chance(1, 4)) continue;
      size_t a = r.max_arg(o);
      a = g.chance(1, 3) ? (g.chance(1, 2) ? a : 0) : g.below(a + 1);
      v::at("%s cap=%zu first=%zu size=%zu step %d %s(%zu)", type_name<T>(), cap, r.fs, r.size(), i, op_name(o), a);
      if (hist.size() < 300) hist += v::fmt("%s(%zu) ", op_name(o), a);
      r.apply(o, a, g.below(1000));
      r.observe(op_name(o));
      V_COUNT("history_operations");
      v::evaluated();
      if (r.size() == cap) V_COUNT("times_full");
      if (r.size() == 0) V_COUNT("times_empty");
      if (r.size() && r.fs + r.size() > cap) V_COUNT("times_wrapped");
      v::distinct(v::mix(r.state_hash(), static_cast<uint64_t>(o)));
      if (g.chance(1, 40)) {  // move the adapter in mid-history
        circular_buffer_adapter<T> tmp(std::move(*r.buf));
        r.observe_buf(tmp, "moved adapter");
        *r.buf = std::move(tmp);
        r.observe("moved back");
        V_COUNT("adapter_moves");
      }
    }
    if (c.index() < 2) v::sample(v::fmt("%s cap=%zu first=%zu count=%zu: ", type_name<T>(), cap, first, count) + hist);
  }
}

// Large capacities, checked at the window borders only.
template <class T>
static void large(const char* section) {
  static const size_t caps[] = {255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 100003, 1u << 20};
  const int64_t ncaps = sizeof caps / sizeof caps[0];
  v::Cases c(section, ncaps * v::scale(2, 6));
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = caps[c.index() % ncaps];
    Mem<T> m(cap);
    size_t first = g.chance(1, 2) ? cap - g.below(5) : g.below(cap + 1);
    size_t count = g.chance(1, 2) ? cap - g.below(3) : g.below(cap + 1);
    Rig<T> r(m.p, cap, first, count, static_cast<int>(g.below(8)));
    for (int i = 0; i < 60; ++i) {
      Op o = random_op(g, static_cast<int>(g.below(6)));
      if (!r.possible(o) || (o == Op::clear && i % 7)) continue;
      size_t a = r.max_arg(o);
      a = g.chance(1, 3) ? a - (a ? g.below(2) : 0) : g.below(a + 1);
      v::at("%s cap=%zu first=%zu size=%zu step %d %s(%zu)", type_name<T>(), cap, r.fs, r.size(), i, op_name(o), a);
      r.apply(o, a, g.next() >> 8);
      auto& b = *r.buf;
      size_t n = r.size();
      V_CHECK(b.size() == n && b.remaining() == cap - n && b.capacity() == cap && b.empty() == (n == 0) && b.full() == (n == cap), "large-size", "size %zu expected %zu of %zu", (size_t)b.size(), n, cap);
      if (b.size() == n && n) {
        V_CHECK(Tr<T>::id(b.front()) == r.model.front(), "large-front", "front wrong");
        V_CHECK(Tr<T>::id(b.back()) == r.model.back(), "large-back", "back wrong");
        for (int k = 0; k < 40; ++k) {
          size_t p = k < 4 ? (k < 2 ? k % n : n - 1 - (k - 2) % n) : g.below(n);
          V_CHECK(Tr<T>::id(b[p]) == r.model[p], "large-index", "[%zu] wrong", p);
          V_CHECK(Tr<T>::id(*(b.begin() + (long)p)) == r.model[p], "large-iter", "begin()+%zu wrong", p);
          V_CHECK(Tr<T>::id(*(b.end() - (long)(n - p))) == r.model[p], "large-iter-back", "end()-%zu wrong", n - p);
        }
        V_CHECK((size_t)(b.end() - b.begin()) == n, "large-distance", "end-begin wrong");
      }
      V_COUNT("large_operations");
      v::evaluated();
      v::distinct(v::mix(r.state_hash(), static_cast<uint64_t>(o)));
    }
    if (c.index() % 5 == 0 && cap <= 65537) r.observe("large full observation");
  }
}

// Capacities beyond 2^31 and 2^32 on sparse memory; model kept symbolically.
static void huge() {
  static const uint64_t caps[] = {(1ull << 31) - 1, (1ull << 31) + 3, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 7, (1ull << 33) + 12345};
  v::Cases c("huge", 6 * v::scale(1, 4));
  while (c.next()) {
    v::Rng& g = c.rng;
    uint64_t cap = caps[c.index() % 6];
    void* p = mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      v::count("huge_mmap_failed");
      continue;
    }
    uint8_t* mem = static_cast<uint8_t*>(p);
    uint64_t first = g.chance(1, 2) ? cap - g.below(6) : g.below(cap);
    uint64_t n = g.chance(1, 2) ? cap - g.below(4) - 1 : g.below(cap);
    circular_buffer_adapter<uint8_t> b(mem, cap, first, n);
    uint64_t fs = first % cap;
    {  // the constructors agree
      circular_buffer_adapter<uint8_t> e(mem, cap), r2(mem, mem + cap), r4(mem, mem + cap, mem + first, n);
      V_CHECK(e.capacity() == cap && e.remaining() == cap && e.size() == 0 && r2.capacity() == cap && r2.remaining() == cap && r2.size() == 0,
              "huge-size", "an empty buffer over %llu elements has capacity %zu or %zu", (unsigned long long)cap, (size_t)e.capacity(), (size_t)r2.capacity());
      V_CHECK(r4.size() == n && r4.capacity() == cap && (!n || (&r4.front() == mem + fs && &r4.back() == mem + (fs + n - 1) % cap)), "huge-ends", "range constructor: front/back at wrong slot");
      V_CHECK(b.size() == n && (!n || (&b.front() == mem + fs && &b.back() == mem + (fs + n - 1) % cap)), "huge-ends", "constructor: front/back at wrong slot");
    }
    // values live only in slots we touched; expectation recorded per slot
    std::map<uint64_t, uint8_t> slots;
    for (int i = 0; i < 200; ++i) {
      v::at("huge cap=%llu fs=%llu n=%llu step %d", (unsigned long long)cap, (unsigned long long)fs, (unsigned long long)n, i);
      uint8_t val = static_cast<uint8_t>(1 + g.below(255));
      switch (g.below(7)) {
      case 0: if (n < cap) { b.push_back(val); slots[(fs + n) % cap] = val; ++n; } break;
      case 1: if (n < cap) { b.push_front(val); fs = (fs + cap - 1) % cap; slots[fs] = val; ++n; } break;
      case 2: if (n) { b.pop_back(); --n; } break;
      case 3: if (n) { b.pop_front(); --n; fs = (fs + 1) % cap; } break;
      case 4: { uint64_t k = g.chance(1, 2) ? g.below(n + 1) : (n > 5 ? n - g.below(5) : n); b.pop_front(k); n -= k; fs = (fs + k) % cap; break; }
      case 5: if (n + 300 < cap) { uint8_t x[300]; for (int k = 0; k < 300; ++k) { x[k] = static_cast<uint8_t>(g.next()); slots[(fs + n + k) % cap] = x[k]; } b.copy_in_back(x, size_t{300}); n += 300; } break;
      default:
        if (n + 1 < cap && g.chance(1, 4)) {  // re-attach to a bigger window
          n = cap - g.below(9);
          b = circular_buffer_adapter<uint8_t>(mem, cap, fs, n);
        }
        break;
      }
      V_CHECK(b.size() == n && b.capacity() == cap && b.remaining() == cap - n, "huge-size", "size %zu expected %llu", (size_t)b.size(), (unsigned long long)n);
      if (b.size() != n || !n) continue;
      for (int k = 0; k < 6; ++k) {
        uint64_t q = k == 0 ? 0 : k == 1 ? n - 1 : g.below(n);
        uint64_t s = (fs + q) % cap;
        V_CHECK(&b[q] == mem + s, "huge-index", "element %llu at slot %lld, expected %llu", (unsigned long long)q, (long long)(&b[q] - mem), (unsigned long long)s);
        V_CHECK(&*(b.begin() + (long)q) == mem + s, "huge-iter", "iterator to element %llu at wrong slot", (unsigned long long)q);
        V_CHECK((b.begin() + (long)q) - b.begin() == (long)q, "huge-diff", "iterator difference wrong");
        V_CHECK(&b.at(q) == mem + s && &*(b.end() - (long)(n - q)) == mem + s && &b.rbegin()[(long)(n - 1 - q)] == mem + s && &b.cbegin()[(long)q] == mem + s, "huge-iter",
                "element %llu reached by another way is at a wrong slot", (unsigned long long)q);
      }
      V_CHECK(b.end() - b.begin() == (long)n && b.cend() - b.cbegin() == (long)n, "huge-diff", "end() - begin() is %lld with %llu elements", (long long)(b.end() - b.begin()), (unsigned long long)n);
#if LIBEMB_HAS_EXCEPTIONS
      for (uint64_t q : {n, n + (uint64_t{1} << 31), n + (uint64_t{1} << 32), ~uint64_t{0}}) {
        bool threw = false;
        try { (void)b.at(q); } catch (std::out_of_range const&) { threw = true; }
        V_CHECK(threw, "huge-at", "at(%llu) of %llu elements did not throw", (unsigned long long)q, (unsigned long long)n);
      }
#endif
      V_CHECK(&b.front() == mem + fs && &b.back() == mem + (fs + n - 1) % cap, "huge-ends", "front/back at wrong slot");
      for (auto& kv : slots) {
        uint64_t rel = (kv.first + cap - fs) % cap;
        if (rel < n) V_CHECK(b[rel] == kv.second, "huge-value", "element %llu has a wrong value", (unsigned long long)rel);
      }
      V_COUNT("huge_operations");
      v::evaluated();
      v::distinct(v::mix(v::mix(cap, fs), n));
    }
    munmap(p, cap);
  }
}

// One adapter over hundreds of thousands of operations without ever being
// cleared: what is counted inside must not run out.
template <class T>
static void marathon(const char* section, int64_t len) {
  static const size_t caps[] = {1, 2, 3, 5, 7, 24, 64, 1000};
  v::Cases c(section, 8 * 3 * v::scale(1, 4));
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = caps[c.index() % 8];
    int drift = static_cast<int>(c.index() / 8 % 3);  // to the back, to the front, both
    Mem<T> m(cap);
    Rig<T> r(m.p, cap, g.below(cap + 1), g.below(cap + 1), static_cast<int>(g.below(8)));
    auto& b = *r.buf;
    for (int64_t i = 0; i < len; ++i) {
      bool grow = r.size() == 0 || (r.size() < cap && g.chance(1, 2));
      bool back = drift == 0 ? grow : drift == 1 ? !grow : g.chance(1, 2);
      Op o = grow ? (back ? Op::emplace_back : Op::emplace_front) : (back ? Op::pop_back : Op::pop_front);
      if ((i & 1023) == 0) v::at("%s cap=%zu drift %d step %lld", type_name<T>(), cap, drift, static_cast<long long>(i));
      r.apply(o, 0, 0);
      size_t n = r.size();
      if (!(b.size() == n && b.remaining() == cap - n && b.empty() == (n == 0) && b.full() == (n == cap) &&
            (n == 0 || (Tr<T>::id(b.front()) == r.model.front() && Tr<T>::id(b.back()) == r.model.back() && b.raw_index(b.begin()) == r.fs)))) {
        v::fail("marathon", "capacity %zu, drift %d: wrong size or ends after %lld operations", cap, drift, static_cast<long long>(i + 1));
        return;
      }
      if (i % 4999 == 0 && cap <= 64) r.observe("marathon");
    }
    r.observe("marathon end");
    v::count("marathon_operations", static_cast<uint64_t>(len));
    v::evaluated();
  }
}

// more than 2^32 elements through a buffer of three
#ifndef NO_HUGE
static void stream32() {
  v::Cases c("stream32", 1);
  while (c.next()) {
    uint8_t mem[3];
    circular_buffer_adapter<uint8_t> b(mem, 3);
    uint64_t const n = (uint64_t{1} << 32) + 1000;
    b.push_back(0);
    b.push_back(1);
    uint64_t wrong = 0;
    for (uint64_t i = 2; i < n; ++i) {
      b.push_back(static_cast<uint8_t>(i));
      wrong += b.front() != static_cast<uint8_t>(i - 2) || b.size() != 3;
      b.pop_front();
    }
    V_CHECK(wrong == 0, "stream32", "%llu of %llu elements came out wrong", static_cast<unsigned long long>(wrong), static_cast<unsigned long long>(n));
    V_CHECK(b.size() == 2 && b.front() == static_cast<uint8_t>(n - 2) && b.back() == static_cast<uint8_t>(n - 1), "stream32", "wrong contents after 2^32 elements");
    v::count("streamed_elements", n);
    v::evaluated();
  }
}
#endif

// read-only element types and default construction
static void misc() {
  v::Cases c("misc", v::scale(200, 1000));
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = 1 + g.below(9), first = g.below(cap + 1), count = g.below(cap + 1);
    std::vector<int> mem(cap);
    std::vector<int> expect;
    for (auto& x : mem) x = static_cast<int>(g.below(1000));
    for (size_t i = 0; i < count; ++i) expect.push_back(mem[(first + i) % cap]);
    circular_buffer_adapter<int const> b(mem.data(), cap, first, count);
    V_CHECK(b.size() == count && b.capacity() == cap, "const-size", "read-only view has size %zu", (size_t)b.size());
    std::vector<int> got(b.begin(), b.end()), rgot(b.rbegin(), b.rend());
    std::reverse(rgot.begin(), rgot.end());
    V_CHECK(got == expect && rgot == expect, "const-iterate", "read-only view iterates wrongly");
    for (size_t i = 0; i < count; ++i) V_CHECK(b[i] == expect[i] && b.at(i) == expect[i], "const-index", "read-only view [%zu]", i);
    if (count) {
      V_CHECK(b.front() == expect.front() && b.back() == expect.back(), "const-ends", "read-only view front/back");
    }
    std::vector<int> out(count);
    if (count) {
      b.copy_out(b.cbegin(), b.cend(), out.data());
      V_CHECK(out == expect, "const-copy_out", "read-only view copy_out");
    }
    circular_buffer_adapter<int> d;
    V_CHECK(d.size() == 0 && d.empty() && d.capacity() == 0 && d.full() && d.remaining() == 0, "default", "default constructed adapter is not an empty buffer of capacity 0");
    v::count("misc_views");
    v::distinct(v::mix(v::mix(cap, first), count));
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  const bool th = v::thorough();
  enumerate<int>(th ? 7 : 4, "enum-int");
  enumerate<B3>(th ? 6 : 3, "enum-B3");
  enumerate<std::string>(th ? 6 : 4, "enum-string");
  enumerate<std::unique_ptr<uint64_t>>(th ? 5 : 3, "enum-unique_ptr");
  histories<uint8_t>(v::scale(150, 3000), 300, 150, "hist-u8");
  histories<int16_t>(v::scale(100, 3000), 60, 150, "hist-i16");
  histories<int>(v::scale(200, 4000), 60, 200, "hist-int");
  histories<uint64_t>(v::scale(150, 3000), 70, 150, "hist-u64");
  histories<B3>(v::scale(150, 3000), 40, 150, "hist-B3");
  histories<B24>(v::scale(150, 3000), 40, 150, "hist-B24");
  histories<B100>(v::scale(60, 1000), 30, 150, "hist-B100");
  histories<Over64>(v::scale(100, 2000), 30, 150, "hist-Over64");
  histories<std::string>(v::scale(150, 3000), 40, 200, "hist-string");
  histories<std::unique_ptr<uint64_t>>(v::scale(150, 3000), 40, 200, "hist-unique_ptr");
  large<uint8_t>("large-u8");
  large<B24>("large-B24");
  large<int>("large-int");
  large<std::string>("large-string");
#ifndef NO_HUGE
  huge();
  v::require("huge_operations", 300);
#endif
  marathon<int>("marathon-int", 150000);
  marathon<B24>("marathon-B24", 70000);
  marathon<std::string>("marathon-string", 70000);
#ifndef NO_HUGE
  stream32();
#endif
  v::require("marathon_operations", 300000);
  misc();
  v::require("state_op_op_transitions", 20000);
  v::require("history_operations", 50000);
  v::require("times_full", 500);
  v::require("times_empty", 500);
  v::require("times_wrapped", 5000);
  v::require("large_operations", 1000);
  return v::finish();
}
