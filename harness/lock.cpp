// C16: lock_guard.
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <stdexcept>
#include <thread>
#include <vector>

#include <embedded/mutex.h>
#include "vharness.h"

using embedded::lock_guard;

struct Event { int mutex; bool lock; };
static std::vector<Event> trace;
struct Rec {
  int id;
  int depth = 0;
  bool throws = false;
  explicit Rec(int i) : id(i) {}
  Rec(Rec const&) = delete;
  Rec& operator=(Rec const&) = delete;
  void lock() {
    if (throws) {
      throws = false;
      throw std::runtime_error("lock");
    }
    ++depth;
    trace.push_back({id, true});
  }
  void unlock() {
    --depth;
    trace.push_back({id, false});
  }
  bool try_lock() { v::fail("other-operation", "try_lock called"); return false; }
};
// a mutex with awkward operators
struct Weird : Rec {
  explicit Weird(int i) : Rec(i) {}
  Weird* operator&() { return nullptr; }
};
struct Base {
  virtual ~Base() {}
  virtual void lock() = 0;
  virtual void unlock() = 0;
};
struct Virt : Base {
  Rec r;
  explicit Virt(int i) : r(i) {}
  void lock() override { r.lock(); }
  void unlock() override { r.unlock(); }
};

static int ret_path(Rec& m, int k) {
  lock_guard<Rec> g(m);
  if (k % 2) return k;
  for (int i = 0; i < k; ++i) {
    lock_guard<Rec> h(m);
    if (i == 1) break;
    if (i == 0) continue;
  }
  return -k;
}
static void goto_path(Rec& m, int k) {
  {
    lock_guard<Rec> g(m);
    if (k % 2) goto out;
    trace.push_back({99, true});
  }
out:
  trace.push_back({98, true});
}
// trace must be well nested, one unlock per lock
static bool nested() {
  std::vector<int> st;
  for (auto& e : trace) {
    if (e.mutex >= 90) continue;
    if (e.lock) st.push_back(e.mutex);
    else {
      if (st.empty() || st.back() != e.mutex) return false;
      st.pop_back();
    }
  }
  return st.empty();
}
static void sequential() {
  v::Cases c("scopes", v::scale(2000, 40000));
  while (c.next()) {
    v::Rng& g = c.rng;
    Rec a(1), b(2), d(3);
    trace.clear();
    {
      lock_guard<Rec> x(a);
      V_CHECK(a.depth == 1 && b.depth == 0 && trace.size() == 1, "not-locked", "lock not held inside the scope");
      {
        lock_guard<Rec> y(b);
        V_CHECK(a.depth == 1 && b.depth == 1 && trace.size() == 2, "not-locked", "lock not held inside the nested scope");
      }
      V_CHECK(b.depth == 0 && a.depth == 1, "not-unlocked", "inner lock not released at the end of its scope");
    }
    V_CHECK(a.depth == 0 && nested() && trace.size() == 4, "trace", "lock/unlock trace of %zu events is wrong", trace.size());
    trace.clear();
    int k = static_cast<int>(g.below(8));
    int r = ret_path(a, k);
    V_CHECK(r == (k % 2 ? k : -k) && a.depth == 0 && nested(), "return", "lock not released on return/break/continue");
    trace.clear();
    goto_path(a, k);
    V_CHECK(a.depth == 0 && nested() && trace.size() >= 3 && !trace[1 + (k % 2 == 0)].lock, "goto", "lock not released when leaving the scope");
    // exception out of k nested scopes
    trace.clear();
    int thrown = 0;
    try {
      lock_guard<Rec> x(a);
      lock_guard<Rec> y(b);
      lock_guard<Rec> z(d);
      if (k >= 0) throw k;
    } catch (int e) {
      thrown = e + 1;
      V_CHECK(a.depth == 0 && b.depth == 0 && d.depth == 0, "exception", "lock not released before the handler runs");
    }
    V_CHECK(thrown == k + 1 && nested() && trace.size() == 6, "exception", "wrong unlock order on exception");
    // lock itself throws: no unlock
    trace.clear();
    bool caught = false;
    try {
      lock_guard<Rec> x(a);
      b.throws = true;
      lock_guard<Rec> y(b);
      v::fail("throwing-lock", "scope entered although lock threw");
    } catch (std::runtime_error const&) {
      caught = true;
    }
    V_CHECK(caught && a.depth == 0 && b.depth == 0 && trace.size() == 2 && nested(), "throwing-lock", "unlock without lock, depth %d", b.depth);
    // heap-allocated guard, explicit lifetime
    trace.clear();
    {
      std::unique_ptr<lock_guard<Rec>> p(new lock_guard<Rec>(a));
      V_CHECK(a.depth == 1, "not-locked", "not locked by a guard on the heap");
      p.reset();
      V_CHECK(a.depth == 0, "not-unlocked", "not unlocked by destroying a guard on the heap");
    }
    // exactly the given mutex
    trace.clear();
    Weird w1(11), w2(12);
    Virt vm(21);
    {
      lock_guard<Weird> x(w1);
      lock_guard<Base> y(vm);
      V_CHECK(w1.depth == 1 && w2.depth == 0 && vm.r.depth == 1, "wrong-mutex", "another mutex was locked");
    }
    V_CHECK(w1.depth == 0 && vm.r.depth == 0 && nested() && trace.size() == 4, "wrong-mutex", "another mutex was unlocked");
    // random nesting program
    trace.clear();
    std::vector<std::unique_ptr<Rec>> ms;
    for (int i = 0; i < 4; ++i) ms.emplace_back(new Rec(i));
    struct Recur {
      std::vector<std::unique_ptr<Rec>>& ms;
      v::Rng& g;
      unsigned max = 0;
      void go(unsigned depth) {
        if (depth > max) max = depth;
        if (depth > 6) {
          if (g.chance(1, 2)) throw 1;
          return;
        }
        lock_guard<Rec> x(*ms[g.below(4)]);
        for (uint64_t i = g.below(3); i; --i) {
          if (g.chance(1, 3)) {
            try {
              go(depth + 1);
            } catch (int) {
            }
          } else {
            go(depth + 1);
          }
        }
      }
    } rec{ms, g};
    try {
      rec.go(0);
    } catch (int) {
    }
    V_CHECK(nested(), "nesting", "lock/unlock trace of %zu events is not well nested", trace.size());
    for (auto& m : ms) V_CHECK(m->depth == 0, "not-unlocked", "mutex left locked");
    v::count("lock_events", trace.size());
    uint64_t h = 1;
    for (auto& e : trace) h = v::mix(h, static_cast<uint64_t>(e.mutex * 2 + e.lock));
    v::distinct(h);
    v::evaluated(8);
  }
  static_assert(!std::is_copy_constructible<lock_guard<Rec>>::value && !std::is_move_constructible<lock_guard<Rec>>::value, "guards must not be duplicated");
  static_assert(!std::is_convertible<Rec&, lock_guard<Rec>>::value, "guards must be explicit");
}

// --- threads ----------------------------------------------------------------------
struct Spin {  // holder identity is tracked to see who unlocks
  std::atomic<int> holder{0};
  std::atomic<int> contended{0};
  void lock() {
    int me = id(), e = 0;
    bool first = true;
    while (!holder.compare_exchange_weak(e, me, std::memory_order_acquire)) {
      if (first && e != 0) {
        contended.fetch_add(1, std::memory_order_relaxed);
        first = false;
      }
      e = 0;
      std::this_thread::yield();
    }
  }
  void unlock() {
    if (holder.load(std::memory_order_relaxed) != id()) bad.fetch_add(1);
    holder.store(0, std::memory_order_release);
  }
  std::atomic<int> bad{0};
  static int id() {
    static std::atomic<int> next{1};
    static thread_local int me = next.fetch_add(1);
    return me;
  }
};

template <class M>
struct Shared {
  M m;
  long plain = 0;                // unprotected but for the guard: TSan watches it
  std::vector<int> log;
  int inside = 0;
};
template <class M>
static void threads(const char* sec, int64_t rounds) {
  v::Cases c(sec, rounds);
  while (c.next()) {
    Shared<M> s[2];
    const int T = 4, N = 150;
    std::atomic<int> overlaps{0}, ready{0};
    std::vector<std::thread> th;
    uint64_t seed = c.rng.next();
    for (int t = 0; t < T; ++t)
      th.emplace_back([&, t]() {
        v::Rng g(seed + static_cast<uint64_t>(t));
        ready.fetch_add(1);
        while (ready.load() < T) std::this_thread::yield();
        for (int i = 0; i < N; ++i) {
          size_t k = g.below(2);
          unsigned how = static_cast<unsigned>(g.below(4));
          auto section = [&]() {
            lock_guard<M> x(s[k].m);
            if (s[k].inside++) overlaps.fetch_add(1);
            long v0 = s[k].plain;
            if (g.chance(1, 8)) std::this_thread::yield();
            s[k].log.push_back(t);
            s[k].plain = v0 + 1;
            --s[k].inside;
            if (how == 1) throw 1;
            if (how == 2) return;
            if (how == 3) {
              lock_guard<M>* p = nullptr;
              (void)p;
            }
          };
          try {
            section();
          } catch (int) {
          }
        }
      });
    for (auto& x : th) x.join();
    V_CHECK(overlaps.load() == 0, "not-exclusive", "%d times two threads were inside the same guarded scope", overlaps.load());
    V_CHECK(s[0].plain + s[1].plain == T * N, "lost-update", "%ld of %d increments survived", s[0].plain + s[1].plain, T * N);
    V_CHECK(s[0].log.size() + s[1].log.size() == static_cast<size_t>(T * N), "lost-update", "log has %zu of %d entries", s[0].log.size() + s[1].log.size(), T * N);
    size_t switches = 0;
    uint64_t h = 5;
    for (auto& x : s)
      for (size_t i = 1; i < x.log.size(); ++i) {
        if (x.log[i] != x.log[i - 1]) ++switches;
        h = v::mix(h, static_cast<uint64_t>(x.log[i]));
      }
    v::count("thread_switches_observed", switches);
    v::count("guarded_sections", static_cast<unsigned long long>(T * N));
    v::distinct(h);  // a distinct interleaving of critical sections
    v::evaluated(T * N);
  }
}
static void spin_owner() {
  v::Cases c("spin-owner", v::scale(40, 1000));
  while (c.next()) {
    Spin m;
    long n = 0;
    std::vector<std::thread> th;
    for (int t = 0; t < 4; ++t)
      th.emplace_back([&]() {
        for (int i = 0; i < 300; ++i) {
          lock_guard<Spin> g(m);
          ++n;
          if (i % 50 == 0) std::this_thread::yield();
        }
      });
    for (auto& x : th) x.join();
    V_CHECK(n == 1200 && m.bad.load() == 0, "not-exclusive", "%ld of 1200 increments, %d foreign unlocks", n, m.bad.load());
    v::count("contended_locks", static_cast<unsigned long long>(m.contended.load()));
    v::count("guarded_sections", 1200);
    v::evaluated(1200);
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  sequential();
  threads<std::mutex>("std-mutex", v::scale(60, 1500));
  threads<Spin>("spin-lock", v::scale(60, 1500));
  threads<std::shared_mutex>("shared-mutex", v::scale(30, 600));
  spin_owner();
  v::sample(v::fmt("%llu guarded sections from 4 threads, %llu observed thread switches between consecutive sections", v::st().counters["guarded_sections"], v::st().counters["thread_switches_observed"]));
  v::require("guarded_sections", 100000);
  v::require("thread_switches_observed", 200);
  v::require("lock_events", 10000);
  return v::finish();
}
