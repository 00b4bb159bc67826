// C05: fault enumeration - a throwing element construction at every state and
// operation leaves the buffer exactly as it was; at() range checks.
#include <cstdint>
#include <deque>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include <embedded/circular_buffer_adapter.h>
#include "vharness.h"

using embedded::circular_buffer_adapter;

struct Boom {
  int tag;
};
static std::set<const void*> live;
static bool armed = false;
static int tag = 0;

struct Faulty {
  uint64_t id;
  char* heap;  // owned, so that leaks and double destruction are visible to ASan
  static void maybe() {
    if (armed) {
      armed = false;
      throw Boom{tag};
    }
  }
  explicit Faulty(uint64_t i) : id(i), heap(nullptr) { maybe(); heap = new char[8]; live.insert(this); }
  Faulty(uint64_t i, std::unique_ptr<int> p) : id(i), heap(nullptr) { maybe(); V_CHECK(p && *p == 5, "arg", "argument lost"); heap = new char[8]; live.insert(this); }
  Faulty(Faulty const& o) : id(o.id), heap(nullptr) { maybe(); heap = new char[8]; live.insert(this); }
  Faulty(Faulty&& o) : id(o.id), heap(nullptr) { maybe(); heap = new char[8]; live.insert(this); o.id = ~0ull; }
  Faulty& operator=(Faulty const&) = delete;
  ~Faulty() {
    if (!live.erase(this)) v::fail("destroy-dead", "destructor run where no object lives");
    delete[] heap;
  }
};

template <class E>
static size_t fill_expect(std::vector<uint64_t>& ids, std::vector<const void*>& addr, E& b) {
  ids.clear();
  addr.clear();
  for (auto& x : b) {
    ids.push_back(x.id);
    addr.push_back(&x);
  }
  return ids.size();
}

static void faults(size_t maxcap, int rounds) {
  v::Cases c("throwing-construction", static_cast<int64_t>(maxcap) * rounds);
  while (c.next()) {
    size_t cap = static_cast<size_t>(c.index()) % maxcap + 1;
    for (size_t first = 0; first <= cap; ++first)
      for (size_t count = 0; count < cap; ++count)
        for (int op = 0; op < 8; ++op) {
          v::at("cap=%zu first=%zu count=%zu op=%d", cap, first, count, op);
          Faulty* mem = static_cast<Faulty*>(::operator new(cap * sizeof(Faulty)));
          memset(static_cast<void*>(mem), 0x5A, cap * sizeof(Faulty));
          uint64_t next = 100;
          for (size_t i = 0; i < count; ++i) new (mem + (first + i) % cap) Faulty(next++);
          circular_buffer_adapter<Faulty> b(mem, cap, first, count);
          std::deque<uint64_t> model;
          for (size_t i = 0; i < count; ++i) model.push_back(100 + i);
          // a few random successful operations first, so that the state is a reached one
          size_t warm = c.index() < static_cast<int64_t>(maxcap) ? 0 : c.rng.below(8);
          for (size_t k = 0; k < warm; ++k) {
            switch (c.rng.below(4)) {
            case 0: if (model.size() < cap) { b.emplace_back(next); model.push_back(next++); } break;
            case 1: if (model.size() < cap) { b.emplace_front(next); model.push_front(next++); } break;
            case 2: if (!model.empty()) { b.pop_front(); model.pop_front(); } break;
            default: if (!model.empty()) { b.pop_back(); model.pop_back(); } break;
            }
          }
          if (model.size() == cap) { b.pop_back(); model.pop_back(); }
          int repeats = 1 + static_cast<int>(c.rng.below(3));
          for (int rep = 0; rep < repeats; ++rep) {
            std::vector<uint64_t> ids, ids2;
            std::vector<const void*> ad, ad2;
            fill_expect(ids, ad, b);
            size_t raw = b.raw_index(b.begin()), sz = b.size(), rem = b.remaining();
            std::set<const void*> live0 = live;
            std::vector<unsigned char> bytes(reinterpret_cast<unsigned char*>(mem), reinterpret_cast<unsigned char*>(mem + cap));
            Faulty src(7777);
            auto up = std::make_unique<int>(5);
            live0.insert(&src);
            tag = static_cast<int>(c.rng.below(1000000));
            armed = true;
            bool threw = false;
            int got = -1;
            try {
              switch (op) {
              case 0: b.push_back(src); break;
              case 1: b.push_front(src); break;
              case 2: b.push_back(std::move(src)); break;
              case 3: b.push_front(std::move(src)); break;
              case 4: b.emplace_back(uint64_t{1}); break;
              case 5: b.emplace_front(uint64_t{1}); break;
              case 6: b.emplace_back(uint64_t{1}, std::move(up)); break;
              default: b.emplace_front(uint64_t{1}, std::move(up)); break;
              }
            } catch (Boom const& x) {
              threw = true;
              got = x.tag;
            } catch (...) {
              v::fail("exception-type", "a different exception arrived");
              threw = true;
            }
            armed = false;
            V_CHECK(threw && got == tag, "propagates", "op %d: exception did not propagate unchanged", op);
            V_CHECK(src.id == 7777, "source", "op %d: source changed although construction failed", op);
            V_CHECK(b.size() == sz && b.remaining() == rem && b.empty() == (sz == 0) && b.capacity() == cap && !b.full(), "size-after-throw", "op %d: size %zu, was %zu", op, (size_t)b.size(), sz);
            V_CHECK(live == live0, "live-after-throw", "op %d: %zu live objects, were %zu", op, live.size(), live0.size());
            if (b.size() == sz) {
              fill_expect(ids2, ad2, b);
              V_CHECK(ids2 == ids, "elements-after-throw", "op %d at cap=%zu first=%zu size=%zu: elements changed", op, cap, raw, sz);
              V_CHECK(ad2 == ad, "addresses-after-throw", "op %d: element addresses changed", op);
              if (sz) {
                V_CHECK(b.raw_index(b.begin()) == raw, "raw-after-throw", "op %d: first slot moved from %zu to %zu", op, raw, (size_t)b.raw_index(b.begin()));
                V_CHECK(b.front().id == ids.front() && b.back().id == ids.back(), "ends-after-throw", "op %d: front/back changed", op);
              }
              for (size_t i = 0; i < sz; ++i) {
                size_t off = static_cast<size_t>(static_cast<const char*>(ad[i]) - reinterpret_cast<char*>(mem));
                V_CHECK(memcmp(&bytes[off], ad[i], sizeof(Faulty)) == 0, "bytes-after-throw", "op %d: element %zu bytes changed", op, i);
              }
            }
            V_COUNT("faults_injected");
            v::evaluated();
            v::distinct(v::mix(v::mix(cap * 64 + raw, sz), static_cast<uint64_t>(op)));
            // usable: the same operation succeeds now
            if (rep + 1 == repeats || b.size() + 1 < cap) {
              switch (op) {
              case 0: b.push_back(src); model.push_back(7777); break;
              case 1: b.push_front(src); model.push_front(7777); break;
              case 2: b.push_back(std::move(src)); model.push_back(7777); break;
              case 3: b.push_front(std::move(src)); model.push_front(7777); break;
              case 4: b.emplace_back(next); model.push_back(next++); break;
              case 5: b.emplace_front(next); model.push_front(next++); break;
              case 6: b.emplace_back(next, std::make_unique<int>(5)); model.push_back(next++); break;
              default: b.emplace_front(next, std::make_unique<int>(5)); model.push_front(next++); break;
              }
            }
            std::vector<uint64_t> now, rev;
            for (auto& x : b) now.push_back(x.id);
            for (auto it = b.rbegin(); it != b.rend(); ++it) rev.insert(rev.begin(), it->id);
            std::vector<uint64_t> want(model.begin(), model.end());
            V_CHECK(now == want && rev == want, "usable-after-throw", "op %d: contents wrong after retry", op);
            if (b.full()) break;
          }
          // order of removal
          while (!b.empty() && !model.empty()) {
            V_CHECK(b.front().id == model.front(), "drain", "op %d: wrong order when draining", op);
            b.pop_front();
            model.pop_front();
          }
          b.clear();
          if (!live.empty()) {
            v::fail("leak", "%zu objects alive after draining", live.size());
            live.clear();
          }
          ::operator delete(mem);
        }
  }
}

template <class T>
static void at_checks(const char* section, size_t maxcap) {
  v::Cases c(section, static_cast<int64_t>(maxcap));
  while (c.next()) {
    size_t cap = static_cast<size_t>(c.index()) + 1;
    for (size_t first = 0; first <= cap; ++first)
      for (size_t count = 0; count <= cap; ++count) {
        std::vector<T> mem(cap);
        for (size_t i = 0; i < cap; ++i) mem[i] = static_cast<T>(i + 1);
        circular_buffer_adapter<T> b(mem.data(), cap, first, count);
        const size_t M = std::numeric_limits<size_t>::max();
        std::vector<size_t> pos;
        for (size_t p = 0; p < 2 * cap + 3; ++p) pos.push_back(p);
        size_t far[] = {M, M - 1, M - cap, M - first, M / 2, M / 2 + 1, size_t{1} << 63, (size_t{1} << 63) - 1, size_t{1} << 32, (size_t{1} << 32) + first, (size_t{1} << 32) - 1, size_t{1} << 31, 0 - first, 0 - cap, M - 7, 256, 65536, 65536 + 1};
        for (size_t p : far) pos.push_back(p);
        for (int k = 0; k < 10; ++k) pos.push_back(c.rng.next());
        for (size_t p : pos) {
          v::at("cap=%zu first=%zu count=%zu at(%zu)", cap, first, count, p);
          bool threw = false, other = false;
          T* res = nullptr;
          auto const& cb = b;
          try {
            res = &cb.at(p);
          } catch (std::out_of_range const&) {
            threw = true;
          } catch (...) {
            other = true;
          }
          V_CHECK(!other, "at-exception-type", "at(%zu) threw something other than std::out_of_range", p);
          V_CHECK(threw == (p >= count), "at-range", "at(%zu) of %zu elements %s", p, count, threw ? "threw" : "did not throw");
          if (!threw && p < count) V_CHECK(res == &mem[(first + p) % cap], "at-element", "at(%zu) gives the wrong element", p);
          V_COUNT("at_calls");
          if (threw) V_COUNT("out_of_range_seen");
          v::evaluated();
        }
        V_CHECK(b.size() == count, "at-size", "at() changed the size");
        v::distinct(v::mix(v::mix(cap * 64 + first, count), 999));
      }
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  faults(v::thorough() ? 10 : 6, v::thorough() ? 20 : 4);
  at_checks<int>("at-int", v::thorough() ? 20 : 9);
  at_checks<uint8_t>("at-u8", v::thorough() ? 20 : 9);
  v::sample("all (capacity, first, size) states x {push copy/move, emplace} x {front, back}: construction throws, state compared, operation retried");
  v::require("faults_injected", 2000);
  v::require("at_calls", 10000);
  v::require("out_of_range_seen", 5000);
  return v::finish();
}
