// C12: a function owns its target.  Online registry of live target objects
// while random and exhaustive operation histories run over a population of
// functions.
#include <algorithm>
#include <functional>
#include <memory>
#include <new>
#include <unordered_map>
#include <vector>

#include <embedded/function.h>
#include "vharness.h"

using embedded::function;

struct Rec {
  const void* addr;
  int calls;
};
static std::unordered_map<const void*, uint64_t> by_addr;
static struct Stats {
  uint64_t ctor, copy, move, dtor;
} st;
static uint64_t copies_of_id;

static void born(const void* p, uint64_t id) {
  if (by_addr.count(p)) v::fail("construct-over-live", "target constructed on top of live target %llu", static_cast<unsigned long long>(by_addr[p]));
  by_addr[p] = id;
}
static void dies(const void* p, uint64_t id) {
  auto it = by_addr.find(p);
  if (it == by_addr.end()) {
    v::fail("destroy-dead", "destructor run where no target is alive");
    return;
  }
  if (it->second != id) v::fail("destroy-corrupt", "destroyed target has id %llu, registered as %llu", static_cast<unsigned long long>(id), static_cast<unsigned long long>(it->second));
  by_addr.erase(it);
}
static void used(const void* p, const char* what) {
  if (!by_addr.count(p)) v::fail("use-dead", "%s of a target that is not alive", what);
}
static const uint64_t kMovedFrom = 1ull << 63;

// Kind: payload size; a hash over the payload proves it travelled intact
template <size_t N, size_t Al, bool Copyable>
struct alignas(Al) Target {
  uint64_t id;
  uint32_t calls = 0;
  unsigned char pad[N];
  explicit Target(uint64_t i) : id(i) {
    ++st.ctor;
    fill();
    born(this, id);
  }
  void fill() {
    for (size_t i = 0; i < N; ++i) pad[i] = static_cast<unsigned char>(id * 7 + i);
  }
  void verify(const char* what) const {
    for (size_t i = 0; i < N; ++i)
      if (pad[i] != static_cast<unsigned char>((id & ~kMovedFrom) * 7 + i)) {
        v::fail("target-corrupted", "%s: byte %zu of target %llu changed", what, i, static_cast<unsigned long long>(id));
        return;
      }
  }
  Target(Target const& o) : id(o.id), calls(o.calls) {
    static_assert(Copyable, "copying a move-only target");
    ++st.copy;
    used(&o, "copy");
    memcpy(pad, o.pad, N);
    born(this, id);
  }
  Target(Target&& o) noexcept : id(o.id), calls(o.calls) {
    ++st.move;
    used(&o, "move");
    if (o.id & kMovedFrom) v::fail("moved-twice", "moved from target %llu a second time", static_cast<unsigned long long>(o.id & ~kMovedFrom));
    memcpy(pad, o.pad, N);
    o.id |= kMovedFrom;
    by_addr[&o] = o.id;
    born(this, id);
  }
  Target& operator=(Target const&) = delete;
  ~Target() {
    ++st.dtor;
    verify("destruction");
    dies(this, id);
  }
  uint64_t operator()(uint64_t x) {
    used(this, "call");
    verify("call");
    ++calls;
    return id * 1000003 + calls * 17 + x;
  }
};
template <size_t N, size_t Al>
struct MoveOnlyTarget : Target<N, Al, true> {
  explicit MoveOnlyTarget(uint64_t i) : Target<N, Al, true>(i) {}
  MoveOnlyTarget(MoveOnlyTarget&&) = default;
  MoveOnlyTarget(MoveOnlyTarget const&) = delete;
};

template <size_t C, size_t A>
struct Pop {
  using F = function<uint64_t(uint64_t), C, A>;
  using T0 = Target<1, alignof(uint64_t), true>;
  using T1 = Target<20, A, true>;
  using T2 = MoveOnlyTarget<8, alignof(uint64_t)>;
  using T3 = Target<C - 16, alignof(uint64_t), true>;
  enum { N = 4 };
  struct Slot {
    alignas(F) unsigned char mem[sizeof(F)];
    bool alive;
    bool full;
    uint64_t id;
    uint32_t calls;
    bool plain;  // target without instrumentation
    F& f() { return *std::launder(reinterpret_cast<F*>(mem)); }
  } s[N];
  uint64_t next = 1;
  Pop() {
    for (auto& x : s) {
      x.alive = x.full = x.plain = false;
    }
  }
  ~Pop() {
    for (auto& x : s)
      if (x.alive) {
        x.f().~F();
        x.alive = false;
      }
    if (!by_addr.empty()) {
      v::fail("leak", "%zu targets still alive after all functions died", by_addr.size());
      by_addr.clear();
    }
  }
  void check(const char* op) {
    size_t expect = 0;
    for (size_t i = 0; i < N; ++i) {
      Slot& x = s[i];
      if (!x.alive) continue;
      if (static_cast<bool>(x.f()) != x.full) v::fail("emptiness", "%s: function %zu is %s", op, i, x.full ? "empty but should hold a target" : "not empty");
      if (x.full && !x.plain) {
        ++expect;
        size_t found = 0;
        for (auto& kv : by_addr) {
          auto a = static_cast<const unsigned char*>(kv.first);
          if (a >= x.mem && a < x.mem + sizeof x.mem) {
            ++found;
            if (kv.second != x.id) v::fail("wrong-target", "%s: function %zu holds target %llu, expected %llu", op, i, static_cast<unsigned long long>(kv.second), static_cast<unsigned long long>(x.id));
          }
        }
        if (found != 1) v::fail("target-count", "%s: %zu targets alive inside function %zu", op, found, i);
      }
    }
    if (by_addr.size() != expect) v::fail("live-count", "%s: %zu targets alive, expected %zu", op, by_addr.size(), expect);
  }
  void call(size_t i, uint64_t x) {
    Slot& t = s[i];
    if (!t.alive || !t.full) return;
    uint64_t got = t.f()(x);
    if (t.plain) {
      V_CHECK(got == x + 1, "wrong-result", "plain target returned %llu", static_cast<unsigned long long>(got));
      return;
    }
    ++t.calls;
    uint64_t want = t.id * 1000003 + t.calls * 17 + x;
    if (got != want) v::fail("wrong-result", "function %zu returned %llu, expected %llu (state lost or another target)", i, static_cast<unsigned long long>(got), static_cast<unsigned long long>(want));
    V_COUNT("calls");
  }
  void set_empty(size_t i) {
    s[i].alive = true;
    s[i].full = false;
    s[i].plain = false;
  }
  void take(size_t d, size_t src) {
    s[d].alive = true;
    s[d].full = s[src].full;
    s[d].id = s[src].id;
    s[d].calls = s[src].calls;
    s[d].plain = s[src].plain;
    s[src].full = false;
  }
  // a new instrumented target for slot i; how: 0 construct 1 assign; kind 0..3
  template <class T, bool Copy>
  void put(size_t i, bool assign, bool lvalue) {
    uint64_t id = next++;
    if (assign && !s[i].alive) assign = false;
    if (!assign && s[i].alive) {
      s[i].f().~F();
    }
    T src(id);
    Stats b = st;
    if constexpr (Copy) {
      if (lvalue) {
        if (assign) s[i].f() = src;
        else new (s[i].mem) F(src);
        V_CHECK(st.copy - b.copy == 1, "copies", "storing an lvalue target copied it %llu times", static_cast<unsigned long long>(st.copy - b.copy));
        V_CHECK(src.id == id, "source-changed", "storing an lvalue target moved from it");
      }
    }
    if (!Copy || !lvalue) {
      if (assign) s[i].f() = std::move(src);
      else new (s[i].mem) F(std::move(src));
      V_CHECK(st.copy == b.copy, "copies", "storing an rvalue target copied it");
      V_CHECK(src.id == (id | kMovedFrom), "not-moved", "storing an rvalue target did not move from it");
    }
    V_CHECK(st.ctor == b.ctor, "constructions", "storing a target constructed another one");
    s[i].alive = s[i].full = true;
    s[i].plain = false;
    s[i].id = id;
    s[i].calls = 0;
    V_COUNT("targets_stored");
    // src dies at the end of this scope
  }
  void put_any(size_t i, bool assign, unsigned kind, bool lvalue) {
    switch (kind % 4) {
    case 0: put<T0, true>(i, assign, lvalue); break;
    case 1: put<T1, true>(i, assign, lvalue); break;
    case 2: put<T2, false>(i, assign, false); break;
    default: put<T3, true>(i, assign, lvalue); break;
    }
  }
  void step(unsigned op, size_t i, size_t j, unsigned kind) {
    Slot& x = s[i];
    Slot& y = s[j];
    Stats b = st;
    bool pure_move = false;
    switch (op) {
    case 0:  // default / nullptr construction
      if (x.alive) x.f().~F();
      if (kind & 1) new (x.mem) F();
      else new (x.mem) F(nullptr);
      set_empty(i);
      pure_move = true;
      break;
    case 1: put_any(i, false, kind, kind & 4); break;
    case 2: put_any(i, true, kind, kind & 4); break;
    case 3:  // move construction
      if (i == j || !y.alive) return;
      if (x.alive) x.f().~F();
      new (x.mem) F(std::move(y.f()));
      take(i, j);
      pure_move = true;
      V_COUNT("move_constructions");
      break;
    case 4:  // move assignment
      if (!x.alive || !y.alive) return;
      if (i == j) {
        F& self = y.f();
        x.f() = std::move(self);
        // either outcome is fine, but it must be a consistent one
        if (!static_cast<bool>(x.f())) x.full = false;
        V_COUNT("self_moves");
      } else {
        F& r = (x.f() = std::move(y.f()));
        V_CHECK(&r == &x.f(), "assign-result", "assignment does not return the assigned function");
        take(i, j);
      }
      pure_move = true;
      V_COUNT("move_assignments");
      break;
    case 5:  // nullptr / empty assignment
      if (!x.alive) return;
      if (kind % 3 == 0) x.f() = nullptr;
      else if (kind % 3 == 1) x.f() = F();
      else x.f() = F(nullptr);
      set_empty(i);
      pure_move = true;
      V_COUNT("resets");
      break;
    case 6:  // destruction
      if (!x.alive) return;
      x.f().~F();
      x.alive = x.full = false;
      pure_move = true;
      break;
    case 7: {  // swap
      if (!x.alive || !y.alive || i == j) return;
      using std::swap;
      swap(x.f(), y.f());
      std::swap(x.full, y.full);
      std::swap(x.id, y.id);
      std::swap(x.calls, y.calls);
      std::swap(x.plain, y.plain);
      pure_move = true;
      V_COUNT("swaps");
      break;
    }
    case 8: call(i, kind); pure_move = true; break;
    case 9: {  // through containers and algorithms
      std::vector<F> vec;
      for (size_t k = 0; k < N; ++k)
        if (s[k].alive) vec.push_back(std::move(s[k].f()));
      std::rotate(vec.begin(), vec.begin() + static_cast<long>(kind % (vec.size() + 1)) % static_cast<long>(vec.size() ? vec.size() : 1), vec.end());
      std::reverse(vec.begin(), vec.end());
      std::reverse(vec.begin(), vec.end());
      size_t rot = vec.size() ? kind % (vec.size() + 1) % vec.size() : 0;
      std::rotate(vec.begin(), vec.end() - static_cast<long>(rot), vec.end());
      size_t at = 0;
      for (size_t k = 0; k < N; ++k)
        if (s[k].alive) s[k].f() = std::move(vec[at++]);
      pure_move = true;
      V_COUNT("container_round_trips");
      break;
    }
    case 10:  // plain targets: lambda, assigned or constructed
      if (!x.alive) {
        new (x.mem) F([](uint64_t q) { return q + 1; });
      } else {
        x.f() = [](uint64_t q) { return q + 1; };
      }
      x.alive = x.full = x.plain = true;
      pure_move = true;
      break;
    case 11: {  // returned from / passed through functions by value
      if (!x.alive || !y.alive || i == j) return;
      auto pass = [](F f) { return f; };
      y.f() = pass(std::move(x.f()));
      take(j, i);
      pure_move = true;
      break;
    }
    }
    if (pure_move) {
      V_CHECK(st.copy == b.copy, "copied-after-construction", "operation %u copied a target", op);
      V_CHECK(st.ctor == b.ctor, "constructions", "operation %u constructed a target from scratch", op);
    }
    check("after operation");
    v::evaluated();
    V_COUNT("operations");
  }
};

template <size_t C, size_t A>
static void random_histories(const char* sec) {
  v::Cases c(sec, v::scale(400, 10000));
  while (c.next()) {
    v::Rng& g = c.rng;
    {
      Pop<C, A> p;
      for (int k = 0; k < 120; ++k) {
        unsigned op = static_cast<unsigned>(g.below(12));
        if (op == 6 && g.chance(1, 2)) op = 8;
        if (op == 0 && g.chance(1, 2)) op = 4;
        size_t i = g.below(4), j = g.below(4);
        unsigned kind = static_cast<unsigned>(g.below(64));
        v::at("%s op=%u i=%zu j=%zu kind=%u", sec, op, i, j, kind);
        p.step(op, i, j, kind);
        unsigned mask = 0;
        for (int q = 0; q < 4; ++q) mask = mask * 3 + (p.s[q].alive ? 1 + p.s[q].full : 0);
        v::distinct(v::mix(v::mix(mask, op * 16 + i * 4 + j), v::hash_str(sec)));
        if (v::st().total_violations > 50) return;
      }
      for (size_t i = 0; i < 4; ++i) p.call(i, 5);
    }
    by_addr.clear();
  }
}
// every sequence of three operations over two functions
static void exhaustive() {
  const unsigned ops[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
  struct Op { unsigned op; size_t i, j; unsigned kind; };
  std::vector<Op> all;
  for (unsigned op : ops) {
    for (size_t i = 0; i < 2; ++i) {
      bool two = op == 3 || op == 4 || op == 7 || op == 11;
      for (size_t j = 0; j < (two ? 2u : 1u); ++j) {
        unsigned kinds = (op == 1 || op == 2) ? 8 : op == 5 ? 3 : op == 0 ? 2 : 1;
        for (unsigned k = 0; k < kinds; ++k) {
          if ((op == 1 || op == 2) && !v::thorough() && k != 0 && k != 2 && k != 5) continue;
          all.push_back({op, i, j, k});
        }
      }
    }
  }
  v::Cases c("all-sequences", static_cast<int64_t>(all.size()));
  while (c.next()) {
    for (auto& o2 : all)
      for (auto& o3 : all) {
        {
          Pop<40, 16> p;
          const Op& o1 = all[static_cast<size_t>(c.index())];
          v::at("ops %u(%zu,%zu,%u) %u(%zu,%zu,%u) %u(%zu,%zu,%u)", o1.op, o1.i, o1.j, o1.kind, o2.op, o2.i, o2.j, o2.kind, o3.op, o3.i, o3.j, o3.kind);
          p.step(1, 0, 0, 1);
          p.step(o1.op, o1.i, o1.j, o1.kind);
          p.step(o2.op, o2.i, o2.j, o2.kind);
          p.step(o3.op, o3.i, o3.j, o3.kind);
          p.call(0, 1);
          p.call(1, 2);
          V_COUNT("sequences");
        }
        by_addr.clear();
      }
  }
}
// --- ownership chains: a function owned by the target of another one -------------
template <class F>
struct ChainNode {
  std::unique_ptr<F> next;
  std::shared_ptr<int> token;
  uint64_t operator()(uint64_t x) { return next && *next ? (*next)(x) + 1 : x; }
};
static void chains() {
  using F = function<uint64_t(uint64_t), 40, 16>;
  v::Cases c("ownership-chains", v::scale(300, 10000));
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t n = 1 + g.below(6);
    std::vector<F*> raw;
    std::vector<std::weak_ptr<int>> tokens;
    F head;
    for (size_t i = 0; i < n; ++i) {
      std::unique_ptr<F> owned(new F(std::move(head)));
      raw.push_back(owned.get());
      auto t = std::make_shared<int>(static_cast<int>(i));
      tokens.push_back(t);
      head = ChainNode<F>{std::move(owned), std::move(t)};
    }
    V_CHECK(head(10) == 10 + n - 1 + 0 || head(10) == 10 + n, "chain", "chain of %zu returned %llu", n, static_cast<unsigned long long>(head(10)));
    uint64_t depth = head(0);
    size_t drop = 0;
    // replace the head by a function its own target (transitively) owns
    for (size_t k = n; k-- > 0;) {
      if (!raw[k]) continue;
      bool was = static_cast<bool>(*raw[k]);
      head = std::move(*raw[k]);
      ++drop;
      V_CHECK(static_cast<bool>(head) == was, "chain-state", "function taken over from the own target is %s", was ? "empty" : "not empty");
      if (was) {
        uint64_t r = head(0);
        V_CHECK(r + drop == depth, "chain-result", "after %zu hops the chain returns %llu of %llu", drop, static_cast<unsigned long long>(r), static_cast<unsigned long long>(depth));
      }
      V_CHECK(tokens[k].expired(), "chain-destroyed", "the replaced target was not destroyed");
      V_COUNT("chain_hops");
      v::evaluated();
      if (g.chance(1, 6)) break;
    }
    head = nullptr;
    for (auto& t : tokens) V_CHECK(t.expired(), "chain-leak", "a target outlived its function");
    v::distinct(v::mix(n, drop));
  }
}
// --- resources observed from outside ------------------------------------------
static void member_pointers_and_resources() {
  v::Cases c("resources", v::scale(300, 10000));
  struct S { int v0; int get(int x) { return v0 + x; } };
  while (c.next()) {
    v::Rng& g = c.rng;
    using F = function<int(S&, int), 32>;
    S s{5};
    std::vector<std::weak_ptr<int>> w;
    {
      F f[3];
      for (int k = 0; k < 40; ++k) {
        size_t i = g.below(3), j = g.below(3);
        size_t alive_before = 0;
        for (auto& x : w) alive_before += !x.expired();
        switch (g.below(6)) {
        case 0: {
          auto p = std::make_shared<int>(k);
          w.push_back(p);
          f[i] = [p](S& q, int x) { return q.v0 + x + *p * 0; };
          break;
        }
        case 1: f[i] = &S::get; break;
        case 2: f[i] = static_cast<int (S::*)(int)>(nullptr); V_CHECK(!f[i], "null-member-pointer", "not empty after assigning a null member pointer"); break;
        case 3: f[i] = nullptr; break;
        case 4: if (i != j) f[i] = std::move(f[j]); break;
        default: if (f[i]) V_CHECK(f[i](s, k) == 5 + k, "wrong-result", "wrong result"); break;
        }
        // exactly one owner: each live token is held by one function
        size_t alive = 0;
        for (auto& x : w) {
          if (x.expired()) continue;
          ++alive;
          V_CHECK(x.use_count() == 1, "owners", "a captured resource has %ld owners", x.use_count());
        }
        V_CHECK(alive <= 3, "owners", "%zu captured resources alive in 3 functions", alive);
        (void)alive_before;
        V_COUNT("resource_steps");
        v::evaluated();
      }
    }
    for (auto& x : w) V_CHECK(x.expired(), "resource-leak", "a captured resource outlived all functions");
    v::distinct(v::mix(9, c.rng.next()));
  }
}

// --- every category of target: the storage must never be taken for plain bytes ----
// Counters live outside of the objects, so even an empty target is counted.
struct Tally {
  long live = 0;
  uint64_t ctor = 0, copy = 0, move = 0, dtor = 0;
};
template <int Id>
struct Counted {
  static Tally t;
  Counted() { ++t.ctor, ++t.live; }
  Counted(Counted const&) { ++t.copy, ++t.live; }
  Counted(Counted&&) noexcept { ++t.move, ++t.live; }
  Counted& operator=(Counted const&) = default;
  ~Counted() { ++t.dtor, --t.live; }
};
template <int Id>
Tally Counted<Id>::t;

struct EmptyTarget : Counted<1> {
  int operator()(int x) const { return x + 1; }
};
struct EmptyMoveOnly : Counted<2> {
  EmptyMoveOnly() = default;
  EmptyMoveOnly(EmptyMoveOnly&&) = default;
  EmptyMoveOnly(EmptyMoveOnly const&) = delete;
  int operator()(int x) const { return x + 1; }
};
struct EmptyFinal final : Counted<3> {
  int operator()(int x) const { return x + 1; }
};
struct HostileOperators : Counted<4> {
  int pad = 77;
  HostileOperators* operator&() const { return nullptr; }
  template <class T>
  void operator,(T&&) const { std::abort(); }
  static void* operator new(size_t) { std::abort(); }
  static void* operator new(size_t, void*) { std::abort(); }
  static void operator delete(void*) { std::abort(); }
  int operator()(int x) const { return x + (pad == 77 ? 1 : 0); }
};
struct PolyBase : Counted<5> {
  virtual int go(int) const { return -1; }
  virtual ~PolyBase() = default;
  PolyBase() = default;
  PolyBase(PolyBase const&) = default;
  PolyBase(PolyBase&&) = default;
};
struct PolyTarget : PolyBase {
  int go(int x) const override { return x + 1; }
  int operator()(int x) const { return go(x); }
};
// trivially destructible but address dependent
struct SelfAware {
  SelfAware const* self;
  int tag = 31;
  SelfAware() : self(this) {}
  SelfAware(SelfAware const& o) : self(this), tag(o.tag) {}
  SelfAware(SelfAware&& o) noexcept : self(this), tag(o.tag) { o.tag = 0; }
  int operator()(int x) const { return self == this && tag == 31 ? x + 1 : -1000; }
};
// trivially copyable except for the destructor
struct OnlyDtor {
  static long live_objects;
  int k = 1;
  bool counted = true;
  OnlyDtor() { ++live_objects; }
  OnlyDtor(OnlyDtor const& o) : k(o.k) { ++live_objects; }
  OnlyDtor(OnlyDtor&& o) noexcept : k(o.k) { ++live_objects; }
  ~OnlyDtor() {
    --live_objects;
    k = -1;
  }
  int operator()(int x) const { return x + k; }
};
long OnlyDtor::live_objects;
template <int Id>
struct InLambda {
  static auto make() {
    return [c = Counted<Id>()](int x) { return (void)c, x + 1; };
  }
};
// one-byte target that is copied in part only when it is moved by bytes
struct Refcount {
  int* n;
  explicit Refcount(int* p) : n(p) { ++*n; }
  Refcount(Refcount const& o) : n(o.n) { ++*n; }
  Refcount(Refcount&& o) noexcept : n(o.n) { ++*n; }
  ~Refcount() { --*n; }
  int operator()(int x) const { return x + 1; }
};

static long no_live() { return 0; }
template <class F, class T, bool Copyable, class Make>
static void category(const char* name, Make make, long (*live)(), bool counted) {
  v::Cases c(name, v::scale(60, 3000));
  while (c.next()) {
    v::Rng& g = c.rng;
    long base = live();
    {
      enum { N = 3 };
      alignas(F) unsigned char mem[N][sizeof(F)];
      bool alive[N] = {}, full[N] = {};
      auto f = [&](size_t i) -> F& { return *std::launder(reinterpret_cast<F*>(mem[i])); };
      for (int step = 0; step < 60; ++step) {
        size_t i = g.below(N), j = g.below(N);
        unsigned op = static_cast<unsigned>(g.below(11));
        v::at("%s step %d op %u i=%zu j=%zu", name, step, op, i, j);
        switch (op) {
        case 0:
        case 1: {
          T src(make());
          if (!alive[i]) {
            if constexpr (Copyable) {
              if (op == 0) new (mem[i]) F(src);
              else new (mem[i]) F(std::move(src));
            } else new (mem[i]) F(std::move(src));
          } else {
            if constexpr (Copyable) {
              if (op == 0) f(i) = src;
              else f(i) = std::move(src);
            } else f(i) = std::move(src);
          }
          alive[i] = full[i] = true;
          break;
        }
        case 2: if (!alive[i]) { new (mem[i]) F(make()); alive[i] = full[i] = true; } break;
        case 3: if (i != j && !alive[i] && alive[j]) { new (mem[i]) F(std::move(f(j))); alive[i] = true; full[i] = full[j]; full[j] = false; } break;
        case 4: if (i != j && alive[i] && alive[j]) { f(i) = std::move(f(j)); full[i] = full[j]; full[j] = false; } break;
        case 5: if (alive[i]) { f(i) = nullptr; full[i] = false; } break;
        case 6: if (alive[i]) { f(i).~F(); alive[i] = full[i] = false; } break;
        case 7: if (i != j && alive[i] && alive[j]) { std::swap(f(i), f(j)); std::swap(full[i], full[j]); } break;
        case 8: if (alive[i]) { F t(std::move(f(i))); F u(std::move(t)); f(i) = std::move(u); } break;
        case 9: if (alive[i]) { F& r = f(i); r = std::move(f(i)); full[i] = static_cast<bool>(r); } break;
        default: if (alive[i] && full[i]) {
          int r = f(i)(step);
          V_CHECK(r == step + 1, "wrong-result", "%s target returned %d instead of %d", name, r, step + 1);
        }
        }
        long expect = 0;
        for (size_t k = 0; k < N; ++k) {
          if (!alive[k]) continue;
          V_CHECK(static_cast<bool>(f(k)) == full[k], "emptiness", "%s: function %zu is %s", name, k, full[k] ? "empty" : "not empty");
          expect += full[k];
        }
        if (counted) {
          long now = live() - base;
          if (now != expect) {
            v::fail("live-count", "%s target: %ld alive after operation %u, %ld functions hold one", name, now, op, expect);
            base += now - expect;
          }
        }
        V_COUNT("category_steps");
        v::evaluated();
      }
      for (size_t k = 0; k < N; ++k)
        if (alive[k]) f(k).~F();
    }
    V_CHECK(!counted || live() == base, "leak", "%s target: %ld alive after all functions died", name, live() - base);
    v::distinct(v::mix(v::hash_str(name), g.next()));
  }
}
static int ref_total;
static int plain_function(int x) { return x + 1; }
static void categories() {
  using F = function<int(int), 48, 16>;
  using K = function<int(int) const, 24, 8>;
  category<F, EmptyTarget, true>("empty", [] { return EmptyTarget(); }, [] { return Counted<1>::t.live; }, true);
  category<K, EmptyTarget, true>("empty-const", [] { return EmptyTarget(); }, [] { return Counted<1>::t.live; }, true);
  category<F, EmptyMoveOnly, false>("empty-move-only", [] { return EmptyMoveOnly(); }, [] { return Counted<2>::t.live; }, true);
  category<K, EmptyMoveOnly, false>("empty-move-only-const", [] { return EmptyMoveOnly(); }, [] { return Counted<2>::t.live; }, true);
  category<F, EmptyFinal, true>("empty-final", [] { return EmptyFinal(); }, [] { return Counted<3>::t.live; }, true);
  category<F, HostileOperators, true>("hostile-operators", [] { return HostileOperators(); }, [] { return Counted<4>::t.live; }, true);
  category<K, HostileOperators, true>("hostile-operators-const", [] { return HostileOperators(); }, [] { return Counted<4>::t.live; }, true);
  category<F, PolyTarget, true>("polymorphic", [] { return PolyTarget(); }, [] { return Counted<5>::t.live; }, true);
  category<F, SelfAware, true>("address-dependent", [] { return SelfAware(); }, no_live, false);
  category<K, SelfAware, true>("address-dependent-const", [] { return SelfAware(); }, no_live, false);
  category<F, OnlyDtor, true>("destructor-only", [] { return OnlyDtor(); }, [] { return OnlyDtor::live_objects; }, true);
  using L = decltype(InLambda<6>::make());
  category<F, L, true>("lambda-capture", [] { return InLambda<6>::make(); }, [] { return Counted<6>::t.live; }, true);
  category<F, Refcount, true>("reference-counted", [] { return Refcount(&ref_total); }, [] { return static_cast<long>(ref_total); }, true);
  category<F, int (*)(int), true>("function-pointer", [] { return &plain_function; }, no_live, false);
  category<F, std::reference_wrapper<int(int)>, true>("reference-wrapper", [] { return std::ref(plain_function); }, no_live, false);
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  random_histories<40, 16>("histories-40-16");
  random_histories<48, 32>("histories-48-32");
  random_histories<64, 8>("histories-64-8");
  exhaustive();
  chains();
  member_pointers_and_resources();
  categories();
  v::count("target_constructions", st.ctor + st.copy + st.move);
  v::count("target_destructions", st.dtor);
  V_CHECK(st.ctor + st.copy + st.move == st.dtor, "conservation", "%llu target constructions, %llu destructions", static_cast<unsigned long long>(st.ctor + st.copy + st.move), static_cast<unsigned long long>(st.dtor));
  v::sample(v::fmt("%llu target constructions (%llu copies, %llu moves) and as many destructions, registry consistent after each of %llu operations", static_cast<unsigned long long>(st.ctor + st.copy + st.move), static_cast<unsigned long long>(st.copy), static_cast<unsigned long long>(st.move), v::st().counters["operations"]));
  v::require("operations", 200000);
  v::require("sequences", 20000);
  v::require("self_moves", 1000);
  v::require("swaps", 3000);
  v::require("chain_hops", 300);
  v::require("resource_steps", 10000);
  v::require("category_steps", 40000);
  return v::finish();
}
