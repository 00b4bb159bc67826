// C13: emptiness is visible and calling an empty function is detected.
// Built with and without exceptions.
#include <exception>
#include <functional>
#include <memory>
#include <string>
#include <utility>

#include <sys/wait.h>
#include <unistd.h>

#include <embedded/function.h>
#include "fn_empty.h"
#include "vharness.h"

using embedded::function;

#ifndef NOEX
#define NOEX 0
#endif

// Returns true when calling body is detected as a call of an empty function.
template <class Body>
static bool detected(Body body) {
#if !NOEX
  try {
    body();
  } catch (std::bad_function_call const&) {
    V_COUNT("bad_function_calls");
    return true;
  } catch (...) {
    v::fail("wrong-exception", "calling an empty function threw something else");
    return true;
  }
  return false;
#else
  // terminate must end the program: watch a child doing it
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    std::set_terminate([]() { _exit(77); });
    body();
    _exit(0);
  }
  int status = 0;
  if (waitpid(p, &status, 0) != p) return false;
  V_COUNT("terminations");
  return WIFEXITED(status) && WEXITSTATUS(status) == 77;
#endif
}

struct Big { int a[20]; };
struct MoveOnly { int id; explicit MoveOnly(int i) : id(i) {} MoveOnly(MoveOnly&&) = default; };
struct NoDefault { int& r; explicit NoDefault(int& x) : r(x) {} };

#define EMPTY(f, call, what)                                                        \
  do {                                                                              \
    V_CHECK(!static_cast<bool>(f), "should-be-empty", "%s: converts to true", what); \
    V_CHECK(detected([&]() { call; }), "empty-call-undetected", "%s: calling it was not detected", what); \
    V_CHECK(!static_cast<bool>(f), "should-be-empty", "%s: no longer empty after the failed call", what); \
    v::evaluated();                                                                  \
    v::distinct(v::hash_str(#f #call what));                                         \
  } while (0)

static int plain(int x) { return x + 1; }

static void signatures() {
  v::Cases c("signatures", NOEX ? 1 : v::scale(20, 200));
  while (c.next()) {
    int n = 3;
    Big big = {};
    std::string s = "s";
    function<void()> f1;
    EMPTY(f1, f1(), "void()");
    function<void() const> f2;
    EMPTY(f2, f2(), "void() const");
    const function<void() const> f2c;
    EMPTY(f2c, f2c(), "const void() const");
    function<int(int)> f3;
    EMPTY(f3, (void)f3(1), "int(int)");
    function<int&(int&)> f4;
    EMPTY(f4, (void)f4(n), "int&(int&)");
    function<Big(Big, Big const&, Big&&)> f5;
    EMPTY(f5, (void)f5(big, big, std::move(big)), "Big(Big, Big const&, Big&&)");
    function<std::string(std::string, double, float, char, std::string const&) const> f6;
    EMPTY(f6, (void)f6(s, 1.0, 2.0f, 'c', s), "string(...) const");
    function<MoveOnly(MoveOnly)> f7;
    EMPTY(f7, (void)f7(MoveOnly(1)), "MoveOnly(MoveOnly)");
    function<NoDefault(std::unique_ptr<int>&&)> f8;
    std::unique_ptr<int> up(new int(4));
    EMPTY(f8, (void)f8(std::move(up)), "NoDefault(unique_ptr&&)");
    V_CHECK(up && *up == 4, "argument-consumed", "failed call consumed an rvalue reference argument");
    function<double(), 1, 1> f9;
    EMPTY(f9, (void)f9(), "capacity 1");
    function<long double(int), 200, 64> f10;
    EMPTY(f10, (void)f10(1), "alignment 64");
    function<int(int)> f11(nullptr);
    EMPTY(f11, (void)f11(1), "nullptr");
    function<int(Host&, int)> f12(static_cast<int (Host::*)(int)>(nullptr));
    Host h;
    EMPTY(f12, (void)f12(h, 1), "null member function pointer");
    struct D { int v; };
    function<int&(D&)> f13(static_cast<int D::*>(nullptr));
    D d{1};
    EMPTY(f13, (void)f13(d), "null data member pointer");
    f13 = &D::v;
    V_CHECK(f13 && &f13(d) == &d.v, "should-be-full", "data member pointer");
    f13 = static_cast<int D::*>(nullptr);
    EMPTY(f13, (void)f13(d), "assigned null data member pointer");
    f12 = &Host::get;
    V_CHECK(f12 && f12(h, 4) == 5, "should-be-full", "member function pointer");
    f12 = static_cast<int (Host::*)(int)>(nullptr);
    EMPTY(f12, (void)f12(h, 1), "assigned null member function pointer");
    // usable again afterwards
    f1 = [&n]() { n = 9; };
    f1();
    V_CHECK(f1 && n == 9, "unusable-after-failure", "assigning after a failed call does not work");
    f3 = plain;
    V_CHECK(f3 && f3(4) == 5, "unusable-after-failure", "assigning after a failed call does not work");
    f8 = [&n](std::unique_ptr<int>&&) { return NoDefault(n); };
    V_CHECK(f8 && &f8(std::move(up)).r == &n, "unusable-after-failure", "assigning after a failed call does not work");
    f5 = std::move(f5);
    EMPTY(f5, (void)f5(big, big, std::move(big)), "self-moved empty");
    V_COUNT("signature_rounds");
  }
}

template <class F>
struct World {
  F f[3];
  bool full[3] = {false, false, false};
  int add[3] = {0, 0, 0};
  void step(unsigned op, size_t i, size_t j, int k) {
    switch (op) {
    case 0: f[i] = F(); full[i] = false; break;
    case 1: f[i] = nullptr; full[i] = false; break;
    case 2: f[i] = [k](int x) { return x + k; }; full[i] = true; add[i] = k; break;
    case 3: f[i] = F([k](int x) { return x + k; }); full[i] = true; add[i] = k; break;
    case 4: f[i] = plain; full[i] = true; add[i] = 1; break;
    case 5:
      if (i == j) return;
      f[i] = std::move(f[j]);
      full[i] = full[j];
      add[i] = add[j];
      full[j] = false;
      break;
    case 6: {
      if (i == j) return;
      std::swap(f[i], f[j]);
      std::swap(full[i], full[j]);
      std::swap(add[i], add[j]);
      break;
    }
    case 7: {
      F t(std::move(f[i]));
      V_CHECK(static_cast<bool>(t) == full[i], "moved-to-state", "moved-to function is %s", full[i] ? "empty" : "not empty");
      V_CHECK(!f[i], "moved-from-state", "moved-from function is not empty");
      if (full[i]) V_CHECK(t(3) == 3 + add[i], "result", "wrong result after move");
      full[i] = false;
      if (k % 2) {
        f[i] = std::move(t);
        full[i] = static_cast<bool>(f[i]);
      }
      break;
    }
    case 8: tu2_make_any(f[i], k, i); break;
    case 9: {
      F t = tu2_move_any(f[i]);
      V_CHECK(static_cast<bool>(t) == full[i], "moved-to-state", "function moved in another translation unit");
      full[i] = false;
      break;
    }
    }
  }
  void tu2_make_any(FI& x, int k, size_t i) {
    tu2_make(x, k % 5);
    full[i] = (k % 5 == 2);
    add[i] = 1;
  }
  template <class O>
  void tu2_make_any(O&, int, size_t) {}
  FI tu2_move_any(FI& x) { return tu2_move(x); }
  template <class O>
  O tu2_move_any(O& x) { return O(std::move(x)); }
  static bool tu2_full_any(FI const& x) { return tu2_full(x); }
  template <class O>
  static bool tu2_full_any(O const& x) { return static_cast<bool>(x); }
  void check(bool call) {
    for (size_t i = 0; i < 3; ++i) {
      bool b = static_cast<bool>(f[i]);
      if (b != full[i]) {
        v::fail(full[i] ? "should-be-full" : "should-be-empty", "function %zu converts to %s", i, b ? "true" : "false");
        full[i] = b;
        continue;
      }
      V_CHECK(tu2_full_any(f[i]) == b, "translation-units-disagree", "emptiness differs between translation units");
      V_CHECK((f[i] ? true : false) == b && !f[i] == !b, "bool-contexts", "contexts disagree");
      if (full[i]) {
        V_CHECK(f[i](7) == 7 + add[i], "result", "wrong result from function %zu", i);
      } else if (call) {
        F& e = f[i];
        V_CHECK(detected([&]() { (void)e(1); }), "empty-call-undetected", "calling empty function %zu was not detected", i);
        V_COUNT("empty_calls");
      }
      v::evaluated();
    }
  }
};
template <class F>
static void histories(const char* sec) {
  v::Cases c(sec, NOEX ? v::scale(20, 200) : v::scale(400, 10000));
  while (c.next()) {
    World<F> w;
    v::Rng& g = c.rng;
    int steps = NOEX ? 20 : 80;
    for (int k = 0; k < steps; ++k) {
      unsigned op = static_cast<unsigned>(g.below(10));
      size_t i = g.below(3), j = g.below(3);
      v::at("%s op %u i %zu j %zu", sec, op, i, j);
      w.step(op, i, j, static_cast<int>(g.below(1000)));
      w.check(!NOEX || g.chance(1, 4));
      v::distinct(v::mix(v::mix(op * 9 + i * 3 + j, static_cast<uint64_t>(w.full[0] * 4 + w.full[1] * 2 + w.full[2])), v::hash_str(sec)));
      V_COUNT("history_steps");
    }
  }
}
static void exhaustive() {
  v::Cases c("all-sequences", 90);
  while (c.next()) {
    unsigned a = static_cast<unsigned>(c.index());
    for (unsigned b = 0; b < 90; ++b)
      for (unsigned d = 0; d < (NOEX ? 1u : 90u); ++d) {
        World<FI> w;
        v::at("ops %u %u %u", a, b, d);
        w.step(2, 0, 0, 11);
        w.step(a / 9, a % 9 / 3, a % 3, static_cast<int>(a));
        w.check(false);
        w.step(b / 9, b % 9 / 3, b % 3, static_cast<int>(b));
        w.check(false);
        if (!NOEX) w.step(d / 9, d % 9 / 3, d % 3, static_cast<int>(d));
        w.check(!NOEX && (a + b + d) % 16 == 0);
        V_COUNT("sequences");
      }
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  signatures();
  histories<FI>("histories");
  histories<function<int(int) const, 24>>("histories-other");
  histories<function<long(short), 16, 16>>("histories-aligned");
  exhaustive();
  v::sample(v::fmt("%llu calls of empty functions detected (exceptions %s); emptiness compared with the model after every one of %llu steps in two translation units", v::st().counters["bad_function_calls"] + v::st().counters["terminations"], NOEX ? "off: terminate observed in a child process" : "on: bad_function_call", v::st().counters["history_steps"]));
  v::require("history_steps", NOEX ? 1000 : 90000);
  v::require("empty_calls", NOEX ? 50 : 50000);
  v::require("sequences", NOEX ? 8000 : 700000);
  v::require(NOEX ? "terminations" : "bad_function_calls", NOEX ? 50 : 50000);
  return v::finish();
}
