// C11: calling an embedded::function is calling its target.
#include <array>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

#include <embedded/function.h>
#include "vharness.h"

using embedded::function;

struct Arg {
  int id;
  static int copies, moves, live;
  explicit Arg(int i) : id(i) { ++live; }
  Arg(Arg const& o) : id(o.id) { ++copies; ++live; }
  Arg(Arg&& o) noexcept : id(o.id) { ++moves; ++live; o.id = -o.id; }
  Arg& operator=(Arg const&) = delete;
  ~Arg() { --live; }
};
int Arg::copies, Arg::moves, Arg::live;
struct MoveOnly {
  int id;
  explicit MoveOnly(int i) : id(i) {}
  MoveOnly(MoveOnly&& o) noexcept : id(o.id) { o.id = -1; }
  MoveOnly(MoveOnly const&) = delete;
};
struct Pinned {  // neither copyable nor movable: only by reference
  int id;
  explicit Pinned(int i) : id(i) {}
  Pinned(Pinned const&) = delete;
};
struct Base {
  int b;
  virtual ~Base() {}
};
struct Derived : Base {
  int d = 4;
};

static void reset() { Arg::copies = Arg::moves = 0; }

#define EXPECT(c, key) V_CHECK((c), key, "%s (line %d)", #c, __LINE__)

// --- argument categories ------------------------------------------------------
static void arguments() {
  v::Cases c("arguments", v::scale(50, 500));
  while (c.next()) {
    int k = static_cast<int>(c.rng.below(100000)) + 1;
    v::at("arguments %d", k);
    int calls = 0;
    {  // by value
      function<int(Arg), 64> f = [&calls](Arg a) { ++calls; return a.id; };
      Arg l(k);
      reset();
      EXPECT(f(l) == k && l.id == k && calls == 1, "by-value-lvalue");
      EXPECT(Arg::copies == 1, "by-value-copies");
      reset();
      EXPECT(f(std::move(l)) == k && l.id == -k && calls == 2, "by-value-rvalue");
      EXPECT(Arg::copies == 0, "by-value-copies");
      reset();
      EXPECT(f(Arg(k)) == k && Arg::copies == 0 && calls == 3, "by-value-prvalue");
      function<int(Arg, Arg, Arg) const, 64> g = [](Arg a, Arg b, Arg d) { return a.id * 3 + b.id * 5 + d.id * 7; };
      Arg x(k), y(k + 1);
      reset();
      EXPECT(g(x, Arg(k + 2), std::move(y)) == k * 3 + (k + 2) * 5 + (k + 1) * 7, "by-value-order");
      EXPECT(Arg::copies == 1 && x.id == k && y.id == -(k + 1), "by-value-copies");
      // target takes a by-value argument by reference
      function<int(Arg), 64> h = [k](Arg const& a) { return a.id + k; };
      reset();
      EXPECT(h(x) == 2 * k && Arg::copies == 1, "by-value-as-cref");
      function<int(Arg), 64> h2 = [k](Arg&& a) { int r = a.id; Arg t(std::move(a)); return r + t.id + k; };
      EXPECT(h2(Arg(k)) == 3 * k, "by-value-as-rref");
    }
    {  // lvalue reference: identity and non-const
      Arg* seen = nullptr;
      function<void(Arg&), 64> f = [&](Arg& a) { seen = &a; a.id += 1; };
      Arg a(k);
      reset();
      f(a);
      EXPECT(seen == &a && a.id == k + 1 && Arg::copies + Arg::moves == 0, "lvalue-ref");
      const Arg* cs = nullptr;
      function<void(Arg const&), 64> g = [&](Arg const& x) { cs = &x; };
      g(a);
      EXPECT(cs == &a && Arg::copies + Arg::moves == 0, "const-ref");
      Pinned p(k);
      const Pinned* ps = nullptr;
      function<int(Pinned&, Pinned const&), 64> h = [&](Pinned& x, Pinned const& y) { ps = &y; return &x == &y ? x.id : 0; };
      EXPECT(h(p, p) == k && ps == &p, "pinned-ref");
      // an overloaded target sees the declared category
      struct Cat {
        int operator()(Arg&) const { return 1; }
        int operator()(Arg const&) const { return 2; }
        int operator()(Arg&&) const { return 3; }
        int operator()(Arg const&&) const { return 4; }
      };
      function<int(Arg&)> c1 = Cat();
      function<int(Arg const&)> c2 = Cat();
      function<int(Arg&&)> c3 = Cat();
      function<int(Arg const&&)> c4 = Cat();
      function<int(Arg)> c5 = Cat();
      function<int(Arg const)> c6 = Cat();
      const Arg ca(1);
      EXPECT(c1(a) == 1, "category-lvalue");
      EXPECT(c2(a) == 2 && c2(Arg(1)) == 2, "category-const-lvalue");
      EXPECT(c3(Arg(1)) == 3 && c3(std::move(a)) == 3, "category-rvalue");
      EXPECT(c4(std::move(ca)) == 4, "category-const-rvalue");
      EXPECT(c5(a) == 3 && c5(Arg(2)) == 3, "category-value");
      EXPECT(c6(a) == 3, "category-const-value");
      function<int(Arg&) const> d1 = Cat();
      function<int(Arg const&) const> d2 = Cat();
      function<int(Arg&&) const> d3 = Cat();
      function<int(Arg) const> d5 = Cat();
      EXPECT(d1(a) == 1 && d2(a) == 2 && d3(Arg(1)) == 3 && d5(a) == 3, "category-const-signature");
    }
    {  // rvalue reference: identity, not moved by the wrapper
      Arg* seen = nullptr;
      function<void(Arg&&), 64> f = [&](Arg&& a) { seen = &a; };
      Arg a(k);
      reset();
      f(std::move(a));
      EXPECT(seen == &a && a.id == k && Arg::moves + Arg::copies == 0, "rvalue-ref");
    }
    {  // move-only arguments and results
      function<MoveOnly(MoveOnly), 64> f = [](MoveOnly m) { return MoveOnly(m.id + 1); };
      EXPECT(f(MoveOnly(k)).id == k + 1, "move-only");
      function<std::unique_ptr<int>(std::unique_ptr<int>, int), 64> g = [](std::unique_ptr<int> p, int n) { *p += n; return p; };
      std::unique_ptr<int> p(new int(k));
      int* raw = p.get();
      auto q = g(std::move(p), 3);
      EXPECT(!p && q.get() == raw && *q == k + 3, "unique-ptr");
      function<std::unique_ptr<int>(std::unique_ptr<int>&&) const, 64> h = [](std::unique_ptr<int>&& x) { return std::move(x); };
      auto r = h(std::move(q));
      EXPECT(!q && r.get() == raw, "unique-ptr");
      function<void(std::unique_ptr<int>&&), 64> ignore = [](std::unique_ptr<int>&&) {};
      ignore(std::move(r));
      EXPECT(r.get() == raw, "rvalue-ref-not-consumed");
    }
    {  // many mixed arguments arrive in order
      function<std::string(int, long, double, std::string, char const*, std::string&, std::string const&, unsigned char, bool, std::array<int, 5>), 32> f =
          [](int a, long b, double d, std::string s, char const* p, std::string& m, std::string const& q, unsigned char u, bool t, std::array<int, 5> ar) {
            m += "+";
            return std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(d) + "," + s + "," + p + "," + m + "," + q + "," + std::to_string(u) + "," + (t ? "t" : "f") + "," + std::to_string(ar[4]);
          };
      std::string m = "mut", q = "a rather long constant string for the heap";
      std::string want = std::to_string(k) + "," + std::to_string(-k) + "," + std::to_string(k / 3.0) + ",val,ptr,mut+," + q + "," + std::to_string(k % 256) + ",t,9";
      EXPECT(f(k, -k, k / 3.0, "val", "ptr", m, q, static_cast<unsigned char>(k), true, {{1, 2, 3, 4, 9}}) == want && m == "mut+", "many-arguments");
    }
    {  // argument conversions happen at the signature, then again at the target
      function<long(short)> f = [](long x) { return x * 2; };
      EXPECT(f(static_cast<short>(70000)) == 2L * static_cast<short>(70000), "argument-conversion");
      function<int(Derived&)> g = [](Base& b) { return b.b; };
      Derived d;
      d.b = k;
      EXPECT(g(d) == k, "derived-to-base");
    }
    v::evaluated(20);
    v::distinct(v::mix(1, static_cast<uint64_t>(k)));
    EXPECT(Arg::live == 0, "leaked-arguments");
  }
}

// --- results --------------------------------------------------------------------
static int g_sink;
static void results() {
  v::Cases c("results", v::scale(50, 500));
  while (c.next()) {
    int k = static_cast<int>(c.rng.below(100000)) + 1;
    v::at("results %d", k);
    int calls = 0;
    {
      Arg a(k);
      reset();
      function<Arg&()> f = [&a]() -> Arg& { return a; };
      function<Arg const&() const> g = [&a]() -> Arg const& { return a; };
      function<Arg&&()> h = [&a]() -> Arg&& { return std::move(a); };
      function<Arg const&()> m = [&a]() -> Arg& { return a; };
      EXPECT(&f() == &a && &g() == &a && &m() == &a, "reference-result");
      Arg&& rr = h();
      EXPECT(&rr == &a && a.id == k && Arg::copies + Arg::moves == 0, "rvalue-reference-result");
      function<Arg()> by = [k]() { return Arg(k); };
      reset();
      EXPECT(by().id == k && Arg::copies == 0, "value-result");
      // value result from a reference-returning target: a copy, the source stays
      function<Arg()> cp = [&a]() -> Arg& { return a; };
      EXPECT(cp().id == k && a.id == k, "copy-of-reference-result");
      EXPECT(Arg::copies == 1, "copy-of-reference-result-copies");
    }
    {  // conversions
      function<long long()> f = [k]() { return static_cast<unsigned>(-k); };
      EXPECT(f() == static_cast<long long>(static_cast<unsigned>(-k)), "converted-result");
      function<signed char()> n = [k]() { return k; };
      EXPECT(n() == static_cast<signed char>(k), "converted-result");
      function<std::string()> s = []() { return "text"; };
      EXPECT(s() == "text", "converted-result");
      function<double(int) const> d = [](int x) { return x; };
      EXPECT(d(k) == k, "converted-result");
      function<bool()> b = [k]() { return k; };
      EXPECT(b() == true, "converted-result");
      Derived dv;
      dv.b = k;
      function<Base*()> p = [&dv]() { return &dv; };
      function<Base&()> r = [&dv]() -> Derived& { return dv; };
      EXPECT(p() == &dv && &r() == static_cast<Base*>(&dv), "derived-result");
      function<std::unique_ptr<Base>()> u = [k]() { std::unique_ptr<Derived> x(new Derived); x->b = k; return x; };
      EXPECT(u()->b == k, "derived-result");
    }
    {  // void discards, but still runs the target exactly once
      function<void(int)> f = [&calls](int x) { calls += 1; return x * 2; };
      f(k);
      EXPECT(calls == 1, "void-discard");
      function<void() const> g = [&calls]() { calls += 10; return std::string("discarded result with a heap buffer ........"); };
      g();
      EXPECT(calls == 11, "void-discard");
      function<void()> h = [&calls]() -> int& { calls += 100; return calls; };
      h();
      EXPECT(calls == 111, "void-discard");
      function<void()> m = [&calls]() { calls += 1000; return MoveOnly(1); };
      m();
      EXPECT(calls == 1111, "void-discard");
      function<void()> pl = [&calls]() { calls = 0; };
      pl();
      EXPECT(calls == 0, "void-result");
      g_sink += calls;
    }
    v::evaluated(15);
    v::distinct(v::mix(2, static_cast<uint64_t>(k)));
    EXPECT(Arg::live == 0, "leaked-results");
  }
}

// --- targets ----------------------------------------------------------------------
static int twice(int x) { return 2 * x; }
static int negate(int x) { return -x; }
static void bump(int& x) { ++x; }
struct Obj {
  int val;
  int data = 17;
  int add(int x) { val += x; return val; }
  int get() const { return val; }
  int reff() & { return 1; }
  int noex(int x) const noexcept { return val - x; }
  virtual int virt() const { return 100; }
  explicit Obj(int v0) : val(v0) {}
  Obj(Obj const&) = default;
  virtual ~Obj() {}
};
struct Obj2 : Obj {
  explicit Obj2(int v0) : Obj(v0) {}
  int virt() const override { return 200; }
};
struct Overloaded {
  int n = 0;
  int operator()() & { ++n; return 1; }
  int operator()() const& { return 2; }
  int operator()() && { return 3; }
};
struct Overloaded2 {
  int operator()() { return 1; }
  int operator()() const { return 2; }
  int operator()() volatile { return 5; }
  std::string operator()(int x) { return "i" + std::to_string(x); }
  std::string operator()(std::string const& x) const { return "s" + x; }
};
struct Generic {
  template <class... A>
  size_t operator()(A&&...) const { return sizeof...(A); }
};
struct ConvertsToFnPtr {
  using P = int (*)(int);
  operator P() const { return &twice; }
};
static std::string pick(function<void(int), 64>) { return "int"; }
static std::string pick(function<void(std::string), 64>) { return "string"; }
struct InitList {  // constructible from anything: brace-init would wrap it
  std::vector<int> v;
  InitList(std::vector<int> x) : v(std::move(x)) {}
  InitList(std::initializer_list<InitList> l) : v(1000 + l.size()) {}
  int operator()() const { return static_cast<int>(v.size()); }
};

static void targets() {
  v::Cases c("targets", v::scale(50, 500));
  while (c.next()) {
    int k = static_cast<int>(c.rng.below(100000)) + 1;
    v::at("targets %d", k);
    {  // function pointers and references
      function<int(int)> f = &twice;
      function<int(int)> g = twice;
      function<int(int) const> h(negate);
      int (&ref)(int) = negate;
      function<int(int)> r(ref);
      EXPECT(f(k) == 2 * k && g(k) == 2 * k && h(k) == -k && r(k) == -k, "function-pointer");
      f = &negate;
      EXPECT(f(k) == -k, "function-pointer-assign");
      function<void(int&)> b = bump;
      int x = k;
      b(x);
      EXPECT(x == k + 1, "function-pointer-ref");
      function<int(int)> cv = ConvertsToFnPtr();
      EXPECT(cv(k) == 2 * k, "surrogate-call");
    }
    {  // member pointers
      Obj o(k);
      Obj2 o2(k);
      function<int(Obj&, int)> f = &Obj::add;
      EXPECT(f(o, 5) == k + 5 && o.val == k + 5, "member-function-ref");
      function<int(Obj*, int)> fp = &Obj::add;
      EXPECT(fp(&o, 5) == k + 10 && o.val == k + 10, "member-function-ptr");
      function<int(Obj const&)> g = &Obj::get;
      EXPECT(g(o) == k + 10, "const-member-function");
      function<int(Obj const&) const> gc = &Obj::get;
      EXPECT(gc(o) == k + 10, "const-member-function");
      function<int&(Obj&)> d = &Obj::data;
      d(o) = k;
      EXPECT(o.data == k && &d(o) == &o.data, "data-member");
      function<int(Obj const*)> dc = &Obj::data;
      EXPECT(dc(&o) == k, "data-member");
      function<int(Obj const&)> vf = &Obj::virt;
      EXPECT(vf(o) == 100 && vf(o2) == 200, "virtual-member");
      function<int(Obj)> by = &Obj::get;
      EXPECT(by(o) == k + 10, "member-by-value");
      function<int(std::unique_ptr<Obj>&, int)> up = &Obj::add;
      std::unique_ptr<Obj> uo(new Obj(k));
      EXPECT(up(uo, 1) == k + 1, "member-smart-pointer");
      function<int(std::reference_wrapper<Obj>, int)> rw = &Obj::add;
      EXPECT(rw(std::ref(o), 1) == k + 11, "member-reference-wrapper");
      function<int(Obj&)> rf = &Obj::reff;
      EXPECT(rf(o) == 1, "ref-qualified-member");
      function<int(Obj&, int)> nx = &Obj::noex;
      EXPECT(nx(o, 1) == o.val - 1, "noexcept-member");
      nx = &Obj::add;
      EXPECT(nx(o, 1) == k + 12, "member-assign");
    }
    {  // function objects called as (const) lvalues
      function<int()> f = Overloaded();
      function<int() const> g = Overloaded();
      EXPECT(f() == 1 && f() == 1, "nonconst-overload");
      EXPECT(g() == 2, "const-overload");
      const function<int() const> cg = Overloaded();
      EXPECT(cg() == 2, "const-overload");
      function<int()> f2 = Overloaded2();
      function<int() const> g2 = Overloaded2();
      EXPECT(f2() == 1 && g2() == 2, "overload-constness");
      function<std::string(int)> si = Overloaded2();
      function<std::string(std::string const&) const> ss = Overloaded2();
      EXPECT(si(k) == "i" + std::to_string(k) && ss("x") == "sx", "overload-set");
      function<size_t(int, std::string&&, double const&)> ge = Generic();
      EXPECT(ge(1, "a", 2.0) == 3, "generic");
      const Overloaded cst{};
      function<int()> fc(cst);
      EXPECT(fc() == 1, "const-source");
      function<int()> il = InitList(std::vector<int>(3));
      EXPECT(il() == 3, "initializer-list-type");
    }
    {  // standard wrappers
      int x = k;
      auto inc = [&x](int d) { return x += d; };
      function<int(int), 16> r = std::ref(inc);
      EXPECT(r(4) == k + 4 && x == k + 4, "reference-wrapper");
      function<int(int), 64> b = std::bind(twice, std::placeholders::_1);
      EXPECT(b(k) == 2 * k, "bind");
      function<int(int), 64> sf = std::function<int(int)>(negate);
      EXPECT(sf(k) == -k, "std-function");
      function<int(int), 64> nested = [f = function<int(int), 24>(inc)](int d) mutable { return f(d) + 1; };
      EXPECT(nested(1) == k + 6, "nested");
    }
    {  // in place: state persists, also across moves
      function<int(int), 64> f = [n = k](int d) mutable { return n += d; };
      EXPECT(f(1) == k + 1 && f(1) == k + 2, "state-persists");
      function<int(int), 64> g = std::move(f);
      EXPECT(g(1) == k + 3, "state-persists");
      f = std::move(g);
      EXPECT(f(1) == k + 4, "state-persists");
      std::vector<int> order;
      function<int(int), 64> rec;
      rec = [&](int n) { order.push_back(n); return n <= 0 ? 0 : n + rec(n - 1); };
      EXPECT(rec(6) == 21 && order.size() == 7, "reentrant");
    }
    {  // overload resolution on the signature
      EXPECT(pick([](int) {}) == "int", "overload-resolution");
      EXPECT(pick([](std::string const&) {}) == "string", "overload-resolution");
    }
    v::evaluated(35);
    v::distinct(v::mix(3, static_cast<uint64_t>(k)));
  }
}

// --- exceptions ---------------------------------------------------------------------
struct Tagged : std::runtime_error {
  int tag;
  explicit Tagged(int t) : std::runtime_error("tagged"), tag(t) {}
};
static void exceptions() {
  v::Cases c("exceptions", v::scale(100, 2000));
  while (c.next()) {
    int k = static_cast<int>(c.rng.below(1000)) + 1;
    v::at("exceptions %d", k);
    std::exception_ptr stored = std::make_exception_ptr(Tagged(k));
    int calls = 0;
    function<int(int, Arg, std::unique_ptr<int>&), 64> f = [&](int how, Arg a, std::unique_ptr<int>& p) -> int {
      ++calls;
      switch (how) {
      case 0: throw Tagged(k + a.id);
      case 1: throw k;
      case 2: std::rethrow_exception(stored);
      case 3: throw std::bad_function_call();
      default: return *p + a.id;
      }
    };
    std::unique_ptr<int> p(new int(k));
    for (int round = 0; round < 6; ++round) {
      int how = static_cast<int>(c.rng.below(5));
      int got = -1;
      int before = calls;
      try {
        int r = f(how, Arg(7), p);
        got = 4;
        EXPECT(r == k + 7, "result-after-exception");
      } catch (Tagged const& e) {
        got = how == 2 ? 2 : 0;
        EXPECT(e.tag == (how == 2 ? k : k + 7), "exception-changed");
        if (how == 2) {
          try {
            std::rethrow_exception(stored);
          } catch (Tagged const& e2) {
            EXPECT(&e2 == &e, "exception-identity");
          }
        }
      } catch (int i) {
        got = 1;
        EXPECT(i == k, "exception-changed");
      } catch (std::bad_function_call const&) {
        got = 3;
      }
      EXPECT(got == how, "exception-type");
      EXPECT(calls == before + 1, "called-once");
      EXPECT(static_cast<bool>(f), "empty-after-exception");
      EXPECT(p && *p == k, "argument-after-exception");
      EXPECT(Arg::live == 0, "leaked-argument");
      V_COUNT("exceptions_checked");
    }
    function<void() const> v0 = [k]() -> void { throw Tagged(k); };
    bool thrown = false;
    try {
      v0();
    } catch (Tagged const& e) {
      thrown = e.tag == k;
    }
    EXPECT(thrown && v0, "void-exception");
    v::evaluated(7);
    v::distinct(v::mix(4, static_cast<uint64_t>(k)));
  }
}

// --- histories: a wrapped machine next to a directly called twin ------------------
struct Machine {
  uint64_t h;
  uint32_t n = 0;
  explicit Machine(uint64_t s) : h(s) {}
  uint64_t operator()(uint64_t a, uint32_t b) {
    h = v::mix(h, a + b);
    ++n;
    if (h % 13 == 0) throw static_cast<int>(h % 1000);
    return h + n;
  }
};
template <size_t C, size_t A>
static void twin(const char* sec) {
  v::Cases c(sec, v::scale(200, 5000));
  while (c.next()) {
    v::Rng& g = c.rng;
    uint64_t s = g.next();
    Machine direct(s);
    using F = function<uint64_t(uint64_t, uint32_t), C, A>;
    F f[3];
    size_t cur = 0;
    f[0] = Machine(s);
    for (int i = 0; i < 100; ++i) {
      uint64_t a = g.next();
      uint32_t b = static_cast<uint32_t>(g.next());
      if (g.chance(1, 5)) {
        size_t to = g.below(3);
        if (to != cur) {
          if (g.chance(1, 2)) f[to] = std::move(f[cur]);
          else std::swap(f[to], f[cur]);
          cur = to;
        }
      }
      uint64_t r1 = 0, r2 = 0;
      int e1 = -1, e2 = -1;
      try { r1 = direct(a, b); } catch (int e) { e1 = e; }
      try { r2 = f[cur](a, b); } catch (int e) { e2 = e; }
      v::at("%s step %d", sec, i);
      if (r1 != r2 || e1 != e2) v::fail("twin", "call %d through the function gave %llu/%d, the direct call %llu/%d", i, static_cast<unsigned long long>(r2), e2, static_cast<unsigned long long>(r1), e1);
      V_COUNT("twin_calls");
      if (e1 >= 0) V_COUNT("twin_exceptions");
      v::evaluated();
    }
    v::distinct(v::mix(s, C * 100 + A));
  }
}

// --- compile-time guarantees --------------------------------------------------------
static void constness() {
  v::Cases c("constness", 1);
  while (c.next()) {
    using F = function<int(int)>;
    using FC = function<int(int) const>;
    auto mut = [n = 0](int x) mutable { return n += x; };
    auto str = [](std::string const& s) { return s.size(); };
    (void)mut;
    (void)str;
    EXPECT((std::is_invocable_r<int, F&, int>::value), "callable");
    EXPECT((!std::is_invocable<F const&, int>::value), "const-correct");
    EXPECT((std::is_invocable_r<int, FC const&, int>::value && std::is_invocable_r<int, FC&, int>::value), "callable");
    EXPECT((std::is_constructible<F, decltype(mut)>::value), "accepts");
    EXPECT((!std::is_constructible<FC, decltype(mut)>::value), "const-correct");
    EXPECT((!std::is_constructible<F, decltype(str)>::value), "sfinae");
    EXPECT((!std::is_constructible<F, int>::value && !std::is_constructible<F, Obj>::value), "sfinae");
    EXPECT((!std::is_copy_constructible<F>::value && !std::is_copy_assignable<F>::value), "move-only");
    EXPECT((std::is_nothrow_move_constructible<F>::value && std::is_nothrow_move_assignable<F>::value && std::is_nothrow_default_constructible<F>::value), "nothrow");
    EXPECT((!std::is_convertible<F, bool>::value && std::is_constructible<bool, F>::value), "explicit-bool");
    v::distinct(5);
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  arguments();
  results();
  targets();
  exceptions();
  constness();
  twin<16, 8>("twin-16-8");
  twin<24, 8>("twin-24-8");
  twin<40, 16>("twin-40-16");
  twin<100, 64>("twin-100-64");
  v::sample("argument categories (value, &, const&, &&, const&&), result kinds, 30 kinds of targets, exceptions, const/non-const signatures");
  v::sample(v::fmt("%llu calls through a moved-around function next to a directly called twin, %llu of them throwing", v::st().counters["twin_calls"], v::st().counters["twin_exceptions"]));
  v::require("twin_calls", 70000);
  v::require("twin_exceptions", 2000);
  v::require("exceptions_checked", 500);
  return v::finish();
}
