// C15: move_wrapper hands its value along.
#include <algorithm>
#include <any>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include "vharness.h"

using embedded::function;
using embedded::move_wrapper;

static std::unordered_map<const void*, uint64_t> live;
static struct Ev { uint64_t ctor, copy, move, dtor, thrown; } ev;
static int throw_in = -1;

template <bool Copyable, bool Nothrow>
struct Val {
  uint64_t id;
  bool owns = true;
  std::string text;
  explicit Val(uint64_t i) : id(i), text("a long string describing value " + std::to_string(i)) {
    ++ev.ctor;
    born();
  }
  Val(Val const& o) : id(o.id), owns(o.owns), text(o.text) {
    static_assert(Copyable, "move-only value was copied");
    ++ev.copy;
    born();
  }
  Val(Val&& o) noexcept(Nothrow) : id(o.id) {
    if (!Nothrow && throw_in == 0) {
      throw_in = -1;
      ++ev.thrown;
      throw std::runtime_error("move");
    }
    if (!Nothrow && throw_in > 0) --throw_in;
    if (!live.count(&o)) v::fail("move-from-dead", "moved from a value that is not alive");
    ++ev.move;
    owns = o.owns;
    text = std::move(o.text);
    o.text.clear();
    o.owns = false;
    born();
  }
  Val& operator=(Val const&) = delete;
  ~Val() {
    ++ev.dtor;
    if (!live.erase(this)) v::fail("destroy-dead", "destroyed a value that is not alive");
  }
  void born() {
    if (live.count(this)) v::fail("construct-over-live", "constructed over a live value");
    live[this] = id;
  }
  bool intact() const { return owns && text == "a long string describing value " + std::to_string(id); }
};
using Plain = Val<true, true>;
using Thrower = Val<true, false>;
struct MoveOnly : Val<true, true> {
  explicit MoveOnly(uint64_t i) : Val<true, true>(i) {}
  MoveOnly(MoveOnly&&) = default;
  MoveOnly(MoveOnly const&) = delete;
};
struct MoveOnlyThrower : Val<true, false> {
  explicit MoveOnlyThrower(uint64_t i) : Val<true, false>(i) {}
  MoveOnlyThrower(MoveOnlyThrower&&) = default;
  MoveOnlyThrower(MoveOnlyThrower const&) = delete;
};

// a population of wrappers placed in slots; exactly one of a lineage owns
template <class T>
static void chains(const char* sec, bool throwing) {
  v::Cases c(sec, v::scale(300, 10000));
  while (c.next()) {
    v::Rng& g = c.rng;
    {
      std::vector<std::unique_ptr<move_wrapper<T>>> w;
      uint64_t id = g.next();
      T src(id);
      Ev b = ev;
      w.emplace_back(new move_wrapper<T>(std::move(src)));
      V_CHECK(ev.move - b.move == 1 && ev.copy == b.copy && ev.ctor == b.ctor, "moves-on-wrap", "wrapping moved %llu and copied %llu times", (unsigned long long)(ev.move - b.move), (unsigned long long)(ev.copy - b.copy));
      V_CHECK(!src.owns && (**w[0]).intact(), "value-lost", "wrapped value is not the original one");
      size_t owner = 0;
      for (int k = 0; k < 30; ++k) {
        size_t i = g.below(w.size());
        bool copy = g.chance(1, 2);
        bool fails = throwing && g.chance(1, 3);
        v::at("%s step %d copy %d throws %d", sec, k, copy, fails);
        bool had = (**w[i]).owns;
        std::string text = (**w[i]).text;
        Ev e0 = ev;
        size_t alive = live.size();
        bool caught = false;
        if (fails) throw_in = 0;
        try {
          std::unique_ptr<move_wrapper<T>> n;
          if (copy) n.reset(new move_wrapper<T>(static_cast<move_wrapper<T> const&>(*w[i])));
          else n.reset(new move_wrapper<T>(std::move(*w[i])));
          w.push_back(std::move(n));
        } catch (std::runtime_error const&) {
          caught = true;
        }
        throw_in = -1;
        V_CHECK(caught == fails, "exception", "throwing move: exception %s", caught ? "unexpected" : "did not reach the caller");
        if (caught) {
          V_CHECK((**w[i]).owns == had && (**w[i]).text == text, "source-changed", "source lost its value although the move threw");
          V_CHECK(live.size() == alive && ev.dtor == e0.dtor, "leak", "failed construction left a value behind");
          V_COUNT("throwing_moves");
        } else {
          V_CHECK(ev.move - e0.move == 1, "moves", "%s moved the value %llu times", copy ? "copying" : "moving", (unsigned long long)(ev.move - e0.move));
          V_CHECK(ev.copy == e0.copy && ev.ctor == e0.ctor && ev.dtor == e0.dtor, "copies", "%s copied the value", copy ? "copying" : "moving");
          V_CHECK((**w.back()).owns == had && (!had || (**w.back()).intact()), "value-lost", "%s: value did not arrive", copy ? "copying" : "moving");
          V_CHECK(!(**w[i]).owns, "value-duplicated", "source still owns its value");
          V_CHECK((**w.back()).id == id, "value-lost", "another value arrived");
          if (had) owner = w.size() - 1;
          V_COUNT("transfers");
        }
        // access paths agree
        move_wrapper<T>& nw = *w[owner];
        move_wrapper<T> const& cw = nw;
        V_CHECK(&*nw == &*cw && nw.operator->() == &*nw && cw.operator->() == &*cw, "access", "dereferencing paths disagree");
        V_CHECK(nw->id == id && cw->id == id, "access", "-> reaches another value");
        V_CHECK(static_cast<const void*>(&*nw) >= static_cast<const void*>(&nw) && static_cast<const void*>(&*nw) < static_cast<const void*>(&nw + 1), "access", "value lives outside the wrapper");
        static_assert(std::is_same<decltype(*nw), T&>::value && std::is_same<decltype(*cw), T const&>::value, "constness of *");
        static_assert(std::is_same<decltype(nw.operator->()), T*>::value && std::is_same<decltype(cw.operator->()), T const*>::value, "constness of ->");
        size_t owners = 0;
        for (auto& x : w) owners += (**x).owns;
        V_CHECK(owners == 1, "owners", "%zu wrappers own the value", owners);
        v::evaluated();
        v::distinct(v::mix(v::mix(w.size(), i), static_cast<uint64_t>(copy * 4 + fails * 2 + had)));
        if (g.chance(1, 8) && w.size() > 1) {
          size_t r = g.below(w.size());
          if (r != owner) {
            w.erase(w.begin() + static_cast<long>(r));
            if (owner > r) --owner;
          }
        }
      }
      // mutate through the wrapper, take the value out
      (*w[owner]).operator*().text += "!";
      (**w[owner]).text.pop_back();
      T out(std::move(**w[owner]));
      V_CHECK(out.intact() && out.id == id, "value-lost", "value taken out is not the original one");
    }
    V_CHECK(live.empty(), "leak", "%zu values alive at the end", live.size());
    live.clear();
  }
}

static void lambdas() {
  v::Cases c("lambdas", v::scale(300, 10000));
  while (c.next()) {
    v::Rng& g = c.rng;
    uint64_t id = g.next();
    {
      // a copyable lambda carrying a move-only value (std::function demands copyability)
      move_wrapper<std::unique_ptr<uint64_t>> w(std::unique_ptr<uint64_t>(new uint64_t(id)));
      const uint64_t* raw = (*w).get();
      auto lam = [w]() mutable { return *w ? **w : 0; };
      V_CHECK(!*w, "value-duplicated", "capturing left the pointer behind");
      std::function<uint64_t()> f = lam;
      V_CHECK(f() == id, "value-lost", "std::function does not reach the value");
      std::function<uint64_t()> f2 = f;
      V_CHECK(f2() == id, "value-lost", "copied std::function does not hold the value");
      V_CHECK(f() == 0, "value-duplicated", "copied-from std::function still holds the value");
      auto lam2 = [x = w]() { return x->get(); };
      (void)lam2;
      auto keep = [raw, w2 = move_wrapper<std::unique_ptr<uint64_t>>(std::unique_ptr<uint64_t>(new uint64_t(id + 1)))]() { return **w2 + (raw ? 0 : 1); };
      auto keep2 = keep;
      V_CHECK(keep2() == id + 1, "value-lost", "copied lambda does not hold the value");
      function<uint64_t(), 64> ef = std::move(keep2);
      function<uint64_t(), 64> ef2 = std::move(ef);
      V_CHECK(ef2() == id + 1, "value-lost", "embedded function does not reach the value");
    }
    {  // containers arrive as they are, not wrapped into themselves
      std::vector<int> vi;
      for (uint64_t i = 0; i < g.below(40); ++i) vi.push_back(static_cast<int>(i));
      std::vector<int> want = vi;
      const int* data = vi.data();
      move_wrapper<std::vector<int>> w(std::move(vi));
      V_CHECK(*w == want && (want.empty() || w->data() == data) && vi.empty(), "container", "vector did not arrive");
      move_wrapper<std::vector<int>> w2(w);
      V_CHECK(*w2 == want && (want.empty() || w2->data() == data) && w->empty(), "container", "vector did not move along");
      std::vector<std::any> va;
      for (size_t i = 0; i < want.size(); ++i) va.push_back(std::any(static_cast<int>(i)));
      move_wrapper<std::vector<std::any>> wa(std::move(va));
      move_wrapper<std::vector<std::any>> wb(wa);
      V_CHECK(wb->size() == want.size() && wa->empty(), "container", "vector<any> wrapped %zu elements instead of %zu", wb->size(), want.size());
      std::map<std::string, std::unique_ptr<int>> m;
      m["k"].reset(new int(3));
      move_wrapper<std::map<std::string, std::unique_ptr<int>>> wm(std::move(m));
      auto wm2 = wm;
      V_CHECK(wm2->size() == 1 && *wm2->at("k") == 3 && wm->empty(), "container", "map did not arrive");
      move_wrapper<std::string> ws(std::string(100, 'x'));
      auto ws2 = std::move(ws);
      V_CHECK(ws2->size() == 100, "container", "string did not arrive");
      move_wrapper<int> wi(5);
      auto wi2 = wi;
      V_CHECK(*wi2 == 5 && *wi == 5, "scalar", "int did not arrive");
      std::unique_ptr<int> parr[1];
      (void)parr;
    }
    v::evaluated(12);
    V_COUNT("lambda_rounds");
    v::distinct(v::mix(77, id));
  }
}
// sorting / storing wrappers in containers moves values around, never duplicates
static void algorithms() {
  v::Cases c("algorithms", v::scale(200, 5000));
  while (c.next()) {
    v::Rng& g = c.rng;
    {
      std::vector<move_wrapper<MoveOnly>> vec;
      size_t n = 1 + g.below(20);
      uint64_t copies = ev.copy;
      for (size_t i = 0; i < n; ++i) vec.push_back(move_wrapper<MoveOnly>(MoveOnly(i)));
      std::vector<move_wrapper<MoveOnly>> other(vec.begin(), vec.end());  // "copies"
      for (size_t i = 0; i < n; ++i) {
        V_CHECK(other[i]->intact() && other[i]->id == i, "value-lost", "element %zu did not arrive", i);
        V_CHECK(!vec[i]->owns, "value-duplicated", "element %zu still in the source", i);
      }
      V_CHECK(ev.copy == copies, "copies", "values copied");
    }
    V_CHECK(live.empty(), "leak", "%zu values alive at the end", live.size());
    V_COUNT("container_rounds");
    v::evaluated();
  }
}
static void nothrow() {
  v::Cases c("noexcept", 1);
  while (c.next()) {
    V_CHECK((std::is_nothrow_move_constructible<move_wrapper<Plain>>::value && std::is_nothrow_copy_constructible<move_wrapper<Plain>>::value), "noexcept", "wrapper of a nothrow movable value may throw");
    V_CHECK((!std::is_nothrow_move_constructible<move_wrapper<Thrower>>::value), "noexcept", "wrapper of a throwing value claims not to throw");
    V_CHECK((std::is_copy_constructible<move_wrapper<MoveOnly>>::value), "copyable", "wrapper of a move-only value is not copyable");
    V_CHECK((!std::is_convertible<Plain&&, move_wrapper<Plain>>::value), "explicit", "implicit wrapping");
    V_CHECK((!std::is_constructible<move_wrapper<Plain>, Plain const&>::value), "lvalue", "wrapping an lvalue would copy");
    v::distinct(3);
  }
}

// value types whose operators have meanings of their own
struct Handle {
  int* p;
  int which;
  explicit Handle(int w) : p(new int(w)), which(w) {}
  Handle(Handle&& o) noexcept : p(o.p), which(o.which) { o.p = nullptr; }
  Handle(Handle const&) = delete;
  ~Handle() { delete p; }
  int** operator&() { return &p; }  // as resource handles do for output parameters
  int* const* operator&() const { return &p; }
  int& operator*() { return *p; }
  Handle* operator->() { return nullptr; }
  template <class T>
  void operator,(T&&) const {}
};
static void operators() {
  for (int i = 0; i < 50; ++i) {
    move_wrapper<Handle> a{Handle(i)};
    move_wrapper<Handle> b(a), c(std::move(b));
    move_wrapper<Handle> const& k = c;
    V_CHECK(c->which == i && k->which == i, "access", "-> does not reach a value with operators of its own");
    V_CHECK(c.operator->() == std::addressof(*c) && k.operator->() == std::addressof(*k), "access", "-> and * disagree on a value with operators of its own");
    V_CHECK(c->p != nullptr && *c->p == i && a->p == nullptr && b->p == nullptr, "value-lost", "a handle was lost");
    V_COUNT("handles");
    v::evaluated();
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  chains<Plain>("copyable", false);
  chains<MoveOnly>("move-only", false);
  chains<Thrower>("throwing", true);
  chains<MoveOnlyThrower>("move-only-throwing", true);
  lambdas();
  algorithms();
  nothrow();
  operators();
  V_CHECK(ev.ctor + ev.copy + ev.move == ev.dtor, "conservation", "%llu constructions, %llu destructions", (unsigned long long)(ev.ctor + ev.copy + ev.move), (unsigned long long)ev.dtor);
  V_CHECK(ev.copy == 0, "copies", "%llu copies in total", (unsigned long long)ev.copy);
  v::count("moves_observed", ev.move);
  v::sample(v::fmt("%llu transfers with exactly one move each, %llu throwing moves with the source intact, %llu moves in total, no copy", v::st().counters["transfers"], v::st().counters["throwing_moves"], (unsigned long long)ev.move));
  v::require("transfers", 20000);
  v::require("throwing_moves", 3000);
  v::require("lambda_rounds", 200);
  v::require("container_rounds", 100);
  return v::finish();
}
