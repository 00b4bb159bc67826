// C04: every element constructed and destroyed exactly once, where it lives.
#include <algorithm>
#include <deque>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>

#include <embedded/circular_buffer_adapter.h>
#include "vharness.h"

using embedded::circular_buffer_adapter;

// life registry: address -> id of the object living there
static std::unordered_map<const void*, uint64_t>& reg() {
  static auto* r = new std::unordered_map<const void*, uint64_t>;
  return *r;
}
struct Events {
  unsigned ctor = 0, copy = 0, move = 0, dtor = 0, assign = 0;
  bool operator==(Events const& o) const {
    return ctor == o.ctor && copy == o.copy && move == o.move && dtor == o.dtor && assign == o.assign;
  }
};
static Events ev;
static void born(const void* p, uint64_t id) {
  if (reg().count(p)) v::fail("construct-over-live", "object constructed on top of live object %llu", (unsigned long long)reg()[p]);
  reg()[p] = id;
}
static void dies(const void* p, uint64_t id) {
  auto it = reg().find(p);
  if (it == reg().end()) {
    v::fail("destroy-dead", "destructor run on storage holding no live object");
    return;
  }
  if (it->second != id) v::fail("destroy-corrupt", "destroyed object has id %llu, registered %llu", (unsigned long long)id, (unsigned long long)it->second);
  reg().erase(it);
}
static void used(const void* p) {
  if (!reg().count(p)) v::fail("use-dead", "source of a copy or move is not a live object");
}

struct Arg {  // argument whose category is recorded
  int copies = 0, moves = 0;
};
struct MoveOnlyArg {
  int v;
  explicit MoveOnlyArg(int x) : v(x) {}
  MoveOnlyArg(MoveOnlyArg&& o) : v(o.v) { o.v = -1; }
  MoveOnlyArg(MoveOnlyArg const&) = delete;
};

static int last_cat;

struct NoBase {};
struct VirtBase {  // puts the vptr at the start, so that all addresses agree
  virtual ~VirtBase() {}
  virtual uint64_t vid() const = 0;
};
template <bool Copy, class Base = NoBase>
struct Tracked : Base {
  uint64_t id;
  explicit Tracked(uint64_t i) : id(i) { ++ev.ctor; born(this, id); }
  // emplace with forwarded arguments: &, const&, && are told apart
  Tracked(uint64_t i, std::string& s) : id(i) { ++ev.ctor; last_cat = 1; s += "!"; born(this, id); }
  Tracked(uint64_t i, std::string const&) : id(i) { ++ev.ctor; last_cat = 2; born(this, id); }
  Tracked(uint64_t i, std::string&& s) : id(i) { ++ev.ctor; last_cat = 3; std::string t(std::move(s)); s.clear(); born(this, id); }
  Tracked(uint64_t i, MoveOnlyArg&& a, int& out) : id(i) { ++ev.ctor; last_cat = 4; out = a.v; MoveOnlyArg t(std::move(a)); born(this, id); }
  Tracked(Tracked const& o) : Base(), id(o.id) { ++ev.copy; used(&o); born(this, id); }
  Tracked(Tracked&& o) noexcept : Base(), id(o.id) { ++ev.move; used(&o); o.id |= 1ull << 63; reg()[&o] = o.id; born(this, id); }
  Tracked& operator=(Tracked const& o) { ++ev.assign; used(&o); used(this); id = o.id; reg()[this] = id; return *this; }
  Tracked& operator=(Tracked&& o) { ++ev.assign; used(&o); used(this); id = o.id; reg()[this] = id; return *this; }
  ~Tracked() { ++ev.dtor; dies(this, id); }
};
// move-only
template <>
struct Tracked<false, NoBase> {
  uint64_t id;
  explicit Tracked(uint64_t i) : id(i) { ++ev.ctor; born(this, id); }
  Tracked(uint64_t i, std::string& s) : id(i) { ++ev.ctor; last_cat = 1; s += "!"; born(this, id); }
  Tracked(uint64_t i, std::string const&) : id(i) { ++ev.ctor; last_cat = 2; born(this, id); }
  Tracked(uint64_t i, std::string&& s) : id(i) { ++ev.ctor; last_cat = 3; std::string t(std::move(s)); s.clear(); born(this, id); }
  Tracked(uint64_t i, MoveOnlyArg&& a, int& out) : id(i) { ++ev.ctor; last_cat = 4; out = a.v; MoveOnlyArg t(std::move(a)); born(this, id); }
  Tracked(Tracked&& o) : id(o.id) { ++ev.move; used(&o); o.id |= 1ull << 63; reg()[&o] = o.id; born(this, id); }
  Tracked(Tracked const&) = delete;
  Tracked& operator=(Tracked&& o) = delete;
  ~Tracked() { ++ev.dtor; dies(this, id); }
};
// big, polymorphic, with padding to several cache lines
struct Poly : Tracked<true, VirtBase> {
  using Up = Tracked<true, VirtBase>;
  char pad[77];
  explicit Poly(uint64_t i) : Up(i) { memset(pad, static_cast<int>(i), sizeof pad); }
  template <class A>
  Poly(uint64_t i, A&& a) : Up(i, std::forward<A>(a)) {}
  Poly(uint64_t i, MoveOnlyArg&& a, int& o) : Up(i, std::move(a), o) {}
  Poly(Poly const&) = default;
  Poly(Poly&&) = default;
  uint64_t vid() const override { return id; }
};
// trivially copyable and destructor-observable, but not trivial
struct DtorOnly {
  uint64_t id;
  explicit DtorOnly(uint64_t i) : id(i) { ++ev.ctor; born(this, id); }
  template <class A>
  DtorOnly(uint64_t i, A&&) : DtorOnly(i) { last_cat = std::is_lvalue_reference<A>::value ? (std::is_const<typename std::remove_reference<A>::type>::value ? 2 : 1) : 3; }
  DtorOnly(uint64_t i, MoveOnlyArg&& a, int& o) : DtorOnly(i) { last_cat = 4; o = a.v; a.v = -1; }
  DtorOnly(DtorOnly const& o) : id(o.id) { ++ev.copy; used(&o); born(this, id); }
  DtorOnly(DtorOnly&& o) : id(o.id) { ++ev.move; used(&o); o.id |= 1ull << 63; reg()[&o] = o.id; born(this, id); }
  ~DtorOnly() { ++ev.dtor; dies(this, id); }
};

template <class T>
struct Rig {
  using Buf = circular_buffer_adapter<T>;
  size_t cap;
  T* mem;
  std::optional<Buf> b;
  std::deque<uint64_t> model;
  size_t fs = 0;
  uint64_t next = 1;
  Rig(size_t c, size_t first, size_t count, bool ptr) : cap(c) {
    mem = static_cast<T*>(::operator new(c * sizeof(T), std::align_val_t(64)));
    for (size_t i = 0; i < count; ++i) {
      new (static_cast<void*>(mem + (first + i) % cap)) T(next);
      model.push_back(next++);
    }
    fs = first % cap;
    Events e0 = ev;
    if (ptr) b.emplace(mem, mem + cap, mem + first, count);
    else b.emplace(mem, cap, first, count);
    V_CHECK(ev == e0, "attach-events", "attaching constructs or destroys elements");
  }
  ~Rig() {
    Events e0 = ev;
    b.reset();
    V_CHECK(ev == e0, "adapter-destruction", "destroying the adapter constructs or destroys elements (dtors %u)", ev.dtor - e0.dtor);
    check("after adapter destruction");
    for (size_t i = 0; i < model.size(); ++i)
      if (reg().count(mem + (fs + i) % cap)) (mem + (fs + i) % cap)->~T();
    if (!reg().empty()) {
      v::fail("leak", "%zu objects still alive at the end", reg().size());
      reg().clear();
    }
    ::operator delete(mem, std::align_val_t(64));
  }
  void check(const char* w) {
    for (size_t i = 0; i < model.size(); ++i) {
      const void* p = mem + (fs + i) % cap;
      auto it = reg().find(p);
      if (it == reg().end()) {
        v::fail("missing-object", "%s: no live object in slot of element %zu of %zu", w, i, model.size());
      } else if (it->second != model[i]) {
        v::fail("wrong-object", "%s: slot of element %zu holds object %llu, expected %llu", w, i, (unsigned long long)it->second, (unsigned long long)model[i]);
      }
    }
    size_t inside = 0;
    for (auto& kv : reg()) {
      auto a = static_cast<const char*>(kv.first);
      if (a >= reinterpret_cast<char*>(mem) && a < reinterpret_cast<char*>(mem + cap)) ++inside;
      else v::fail("stray-object", "%s: object %llu alive outside the buffer", w, (unsigned long long)kv.second);
    }
    V_CHECK(inside == model.size(), "live-count", "%s: %zu live objects for %zu elements", w, inside, model.size());
  }
  void expect(Events const& e0, unsigned ctor, unsigned copy, unsigned move, unsigned dtor, const char* op) {
    unsigned a = ev.ctor - e0.ctor, b2 = ev.copy - e0.copy, c = ev.move - e0.move, d = ev.dtor - e0.dtor, e = ev.assign - e0.assign;
    if (a != ctor || b2 != copy || c != move || d != dtor || e)
      v::fail("events", "%s: ctor/copy/move/dtor/assign = %u/%u/%u/%u/%u, expected %u/%u/%u/%u/0", op, a, b2, c, d, e, ctor, copy, move, dtor);
  }
  void front_in() {
    if (model.size() == 1) fs = static_cast<size_t>(reinterpret_cast<char*>(std::addressof(b->front())) - reinterpret_cast<char*>(mem)) / sizeof(T);
    else fs = (fs + cap - 1) % cap;
  }
  void back_in() {
    if (model.size() == 1) fs = static_cast<size_t>(reinterpret_cast<char*>(std::addressof(b->front())) - reinterpret_cast<char*>(mem)) / sizeof(T);
  }
};

template <class T, class R>
static void step(R& r, unsigned op, size_t arg, v::Rng& g) {
  auto& b = *r.b;
  bool room = r.model.size() < r.cap;
  uint64_t id = r.next++;
  switch (op) {
  case 0:
  case 1:
    if constexpr (std::is_copy_constructible_v<T>) {
      if (!room) return;
      T const src(id);
      Events e0 = ev;
      if (op == 0) b.push_back(src);
      else b.push_front(src);
      r.expect(e0, 0, 1, 0, 0, op ? "push_front(const&)" : "push_back(const&)");
      if (op == 0) { r.model.push_back(id); r.back_in(); }
      else { r.model.push_front(id); r.front_in(); }
      V_CHECK(src.id == id, "source-changed", "copying push changed its source");
    }
    break;
  case 2:
  case 3: {
    if (!room) return;
    T src(id);
    Events e0 = ev;
    if (op == 2) b.push_back(std::move(src));
    else b.push_front(std::move(src));
    r.expect(e0, 0, 0, 1, 0, op == 3 ? "push_front(&&)" : "push_back(&&)");
    if (op == 2) { r.model.push_back(id); r.back_in(); }
    else { r.model.push_front(id); r.front_in(); }
    break;
  }
  case 4:
  case 5: {
    if (!room) return;
    std::string s = "argument with some length to it", cs = s;
    MoveOnlyArg mo(static_cast<int>(id));
    int out = 0;
    last_cat = 0;
    Events e0 = ev;
    T* res = nullptr;
    unsigned k = static_cast<unsigned>(arg % 5);
    if (op == 4) {
      switch (k) {
      case 0: res = &b.emplace_back(id); break;
      case 1: res = &b.emplace_back(id, s); break;
      case 2: res = &b.emplace_back(id, const_cast<std::string const&>(s)); break;
      case 3: res = &b.emplace_back(id, std::move(s)); break;
      default: res = &b.emplace_back(id, std::move(mo), out); break;
      }
    } else {
      switch (k) {
      case 0: res = &b.emplace_front(id); break;
      case 1: res = &b.emplace_front(id, s); break;
      case 2: res = &b.emplace_front(id, const_cast<std::string const&>(s)); break;
      case 3: res = &b.emplace_front(id, std::move(s)); break;
      default: res = &b.emplace_front(id, std::move(mo), out); break;
      }
    }
    r.expect(e0, 1, 0, 0, 0, op == 4 ? "emplace_back" : "emplace_front");
    V_CHECK(static_cast<unsigned>(last_cat) == k, "emplace-forwarding", "emplace argument category %u arrived as %d", k, last_cat);
    if (k == 4) V_CHECK(out == static_cast<int>(id), "emplace-moveonly", "move-only argument not forwarded");
    if (op == 4) { r.model.push_back(id); r.back_in(); V_CHECK(res == &b.back(), "emplace-ref", "emplace_back returned another element"); }
    else { r.model.push_front(id); r.front_in(); V_CHECK(res == &b.front(), "emplace-ref", "emplace_front returned another element"); }
    V_COUNT("emplacements");
    break;
  }
  case 6: {
    if (r.model.empty()) return;
    Events e0 = ev;
    b.pop_front();
    r.expect(e0, 0, 0, 0, 1, "pop_front()");
    r.model.pop_front();
    r.fs = (r.fs + 1) % r.cap;
    break;
  }
  case 7: {
    if (r.model.empty()) return;
    Events e0 = ev;
    b.pop_back();
    r.expect(e0, 0, 0, 0, 1, "pop_back()");
    r.model.pop_back();
    break;
  }
  case 8: {
    size_t n = arg % (r.model.size() + 1);
    Events e0 = ev;
    b.pop_front(n);
    r.expect(e0, 0, 0, 0, static_cast<unsigned>(n), "pop_front(n)");
    r.model.erase(r.model.begin(), r.model.begin() + static_cast<long>(n));
    r.fs = (r.fs + n) % r.cap;
    V_COUNT("counted_pops");
    break;
  }
  case 9: {
    size_t n = arg % (r.model.size() + 1);
    Events e0 = ev;
    b.pop_back(n);
    r.expect(e0, 0, 0, 0, static_cast<unsigned>(n), "pop_back(n)");
    r.model.erase(r.model.end() - static_cast<long>(n), r.model.end());
    V_COUNT("counted_pops");
    break;
  }
  case 10: {
    Events e0 = ev;
    size_t n = r.model.size();
    b.clear();
    r.expect(e0, 0, 0, 0, static_cast<unsigned>(n), "clear");
    r.model.clear();
    V_COUNT("clears");
    break;
  }
  case 11: {  // observers and iteration touch no object
    Events e0 = ev;
    uint64_t sum = 0;
    for (auto& x : b) sum += x.id;
    for (auto it = b.crbegin(); it != b.crend(); ++it) sum += it->id;
    for (size_t i = 0; i < b.size(); ++i) sum += b[i].id + b.at(i).id;
    if (!b.empty()) sum += b.front().id + b.back().id;
    v::count("observed_sum_low_bits", sum & 1);
    r.expect(e0, 0, 0, 0, 0, "observers");
    break;
  }
  case 12: {  // moving the adapter
    Events e0 = ev;
    circular_buffer_adapter<T> t(std::move(b));
    circular_buffer_adapter<T> t2;
    t2 = std::move(t);
    b = std::move(t2);
    r.expect(e0, 0, 0, 0, 0, "moving the adapter");
    break;
  }
  case 13: {  // drop the adapter and re-attach
    size_t idx = r.b->raw_index(r.b->begin()), n = r.b->size();
    Events e0 = ev;
    r.b.reset();
    r.b.emplace(r.mem, r.cap, idx, n);
    r.expect(e0, 0, 0, 0, 0, "re-attaching");
    break;
  }
  case 14:  // push a copy of an element of the buffer itself
    if constexpr (std::is_copy_constructible_v<T>) {
      if (!room || r.model.empty()) return;
      size_t i = arg % r.model.size();
      Events e0 = ev;
      bool fr = g.chance(1, 2);
      uint64_t eid = r.model[i];
      if (fr) b.push_front(b[i]);
      else b.push_back(b[i]);
      r.expect(e0, 0, 1, 0, 0, "push of an own element");
      if (fr) { r.model.push_front(eid); r.front_in(); }
      else { r.model.push_back(eid); r.back_in(); }
      V_COUNT("self_pushes");
    }
    break;
  }
}

template <class T>
static void histories(const char* section, int64_t n) {
  v::Cases c(section, n);
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = g.chance(1, 2) ? 1 + g.below(4) : 1 + g.below(24);
    Rig<T> r(cap, g.below(cap + 1), g.below(cap + 1), g.chance(1, 2));
    r.check("initial");
    unsigned bias = 0;
    for (int i = 0; i < 150; ++i) {
      if (i % 15 == 0) bias = static_cast<unsigned>(g.below(3));
      unsigned op = static_cast<unsigned>(g.below(15));
      if (bias == 1 && op >= 6 && op <= 10 && g.chance(2, 3)) op = static_cast<unsigned>(g.below(6));
      if (bias == 2 && op < 6 && g.chance(2, 3)) op = 6 + static_cast<unsigned>(g.below(4));
      if (op == 10 && g.chance(2, 3)) op = 2;
      v::at("%s cap=%zu fs=%zu size=%zu op=%u", section, cap, r.fs, r.model.size(), op);
      size_t before = r.model.size();
      step<T>(r, op, g.next() >> 3, g);
      r.check("after operation");
      V_COUNT("lifetime_operations");
      v::evaluated();
      v::distinct(v::mix(v::mix(v::mix(cap * 64 + r.fs, before), op), v::hash_str(section)));
      if (v::st().total_violations > 30) break;
    }
  }
}

template <class T>
static void states(const char* section, size_t maxcap) {
  v::Cases c(section, static_cast<int64_t>(maxcap));
  while (c.next()) {
    size_t cap = static_cast<size_t>(c.index()) + 1;
    for (size_t first = 0; first <= cap; ++first)
      for (size_t count = 0; count <= cap; ++count)
        for (unsigned op = 0; op < 15; ++op) {
          size_t args = (op == 8 || op == 9) ? count + 1 : (op == 4 || op == 5) ? 5 : op == 14 ? count : 1;
          for (size_t a = 0; a < args; ++a) {
            v::at("%s cap=%zu first=%zu count=%zu op=%u arg=%zu", section, cap, first, count, op, a);
            Rig<T> r(cap, first, count, a & 1);
            step<T>(r, op, a, c.rng);
            r.check("after operation");
            // then drain completely one way or another
            if (op & 1) {
              step<T>(r, 10, 0, c.rng);
            } else {
              step<T>(r, 8, r.model.size(), c.rng);
            }
            r.check("drained");
            V_COUNT("states_exercised");
            v::evaluated();
            v::distinct(v::mix(v::mix(cap * 64 + first, count), v::mix(op * 100 + a, v::hash_str(section))));
          }
        }
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  size_t m = v::thorough() ? 9 : 5;
  states<Tracked<true>>("states-copyable", m);
  states<Tracked<false>>("states-move-only", m);
  states<Poly>("states-polymorphic", v::thorough() ? 6 : 3);
  states<DtorOnly>("states-no-assign", m);
  histories<Tracked<true>>("copyable", v::scale(200, 5000));
  histories<Tracked<false>>("move-only", v::scale(200, 5000));
  histories<Poly>("polymorphic", v::scale(100, 2500));
  histories<DtorOnly>("no-assign", v::scale(100, 2500));
  v::count("constructions", ev.ctor);
  v::count("copies", ev.copy);
  v::count("moves", ev.move);
  v::count("destructions", ev.dtor);
  V_CHECK(ev.ctor + ev.copy + ev.move == ev.dtor, "conservation", "%u constructions of any kind, %u destructions", ev.ctor + ev.copy + ev.move, ev.dtor);
  v::sample(v::fmt("registry of live objects by address over %u constructions, %u copies, %u moves, %u destructions", ev.ctor, ev.copy, ev.move, ev.dtor));
  v::require("lifetime_operations", 30000);
  v::require("states_exercised", 3000);
  v::require("counted_pops", 3000);
  v::require("clears", 500);
  v::require("emplacements", 3000);
  v::require("self_pushes", 300);
  return v::finish();
}
