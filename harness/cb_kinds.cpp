// C04: construction and destruction counts for element types of every shape:
// which special members are trivial, deleted, virtual, private to friends, and
// whether the type is empty, final, polymorphic or over-aligned.
// Liveness is followed by address through a log of the special members that
// can be observed at all.
#include <algorithm>
#include <deque>
#include <initializer_list>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>

#include <embedded/circular_buffer_adapter.h>
#include "vharness.h"

using embedded::circular_buffer_adapter;

enum What : unsigned { CTOR, COPY, MOVE, DTOR, OTHER };
struct Ev {
  unsigned what;
  const void* self;
  const void* src;
};
static std::vector<Ev> lg;
static void note(unsigned w, const volatile void* self, const volatile void* src = nullptr) {
  lg.push_back({w, const_cast<const void*>(self), const_cast<const void*>(src)});
}

// Every kind: make(id) through T(mk{}, id) or otherwise; value(T const&) is the
// id modulo something; the flags say which special members leave a trace.
template <class K>
struct Meta;
#define META(K, C, CP, M, D, IDS)                    \
  template <>                                        \
  struct Meta<K> {                                   \
    static constexpr bool ctor = C, copy = CP, move = M, dtor = D, ids = IDS; \
    static const char* name() { return #K; }         \
  };
#define IDFUNC(K) \
  static int value(K const& k) { return k.id; }

// --- empty classes
struct EmptyDtor {
  ~EmptyDtor() { note(DTOR, this); }
};
META(EmptyDtor, false, false, false, true, false)
struct EmptyFinal final {
  EmptyFinal() { note(CTOR, this); }
  EmptyFinal(EmptyFinal const& o) { note(COPY, this, &o); }
  EmptyFinal(EmptyFinal&& o) noexcept { note(MOVE, this, &o); }
  ~EmptyFinal() { note(DTOR, this); }
};
META(EmptyFinal, true, true, true, true, false)
struct EmptyCopyOnly {  // empty, copies observed, trivially destructible
  EmptyCopyOnly() = default;
  EmptyCopyOnly(EmptyCopyOnly const& o) { note(COPY, this, &o); }
};
META(EmptyCopyOnly, false, true, true, false, false)

// --- data, trivial default construction, destructor observed
struct TrivDefault {
  int id;
  ~TrivDefault() { note(DTOR, this); }
};
META(TrivDefault, false, false, false, true, true)
// --- no default constructor, everything else trivial but the destructor
struct NoDefault {
  int id;
  explicit NoDefault(int i) : id(i) { note(CTOR, this); }
  NoDefault(NoDefault const&) = default;
  NoDefault(NoDefault&&) = default;
  ~NoDefault() { note(DTOR, this); }
};
META(NoDefault, true, false, false, true, true)
// --- trivial default, no copying at all, moves observed
struct MoveOnlyTrivDefault {
  int id;
  MoveOnlyTrivDefault() = default;
  explicit MoveOnlyTrivDefault(int i) : id(i) { note(CTOR, this); }
  MoveOnlyTrivDefault(MoveOnlyTrivDefault&& o) noexcept : id(o.id) { o.id = -1; note(MOVE, this, &o); }
  MoveOnlyTrivDefault& operator=(MoveOnlyTrivDefault&&) = delete;
  ~MoveOnlyTrivDefault() { note(DTOR, this); }
};
META(MoveOnlyTrivDefault, true, false, true, true, true)
// --- trivially destructible, copies and moves observed and distinct
struct CopyMoveOnly {
  int id;
  explicit CopyMoveOnly(int i) : id(i) { note(CTOR, this); }
  CopyMoveOnly(CopyMoveOnly const& o) : id(o.id) { note(COPY, this, &o); }
  CopyMoveOnly(CopyMoveOnly&& o) noexcept : id(o.id) { o.id = -1; note(MOVE, this, &o); }
};
META(CopyMoveOnly, true, true, true, false, true)
// --- trivial copy construction, observed move
struct TrivCopyMove {
  int id;
  TrivCopyMove() = default;
  explicit TrivCopyMove(int i) : id(i) { note(CTOR, this); }
  TrivCopyMove(TrivCopyMove const&) = default;
  TrivCopyMove(TrivCopyMove&& o) noexcept : id(o.id) { o.id = -1; note(MOVE, this, &o); }
  TrivCopyMove& operator=(TrivCopyMove const&) { note(OTHER, this); return *this; }
};
META(TrivCopyMove, true, false, true, false, true)
// --- copying observed, no move constructor (moves copy)
struct CopyNoMove {
  int id;
  explicit CopyNoMove(int i) : id(i) { note(CTOR, this); }
  CopyNoMove(CopyNoMove const& o) : id(o.id) { note(COPY, this, &o); }
  CopyNoMove& operator=(CopyNoMove const&) = delete;
  ~CopyNoMove() { note(DTOR, this); }
};
META(CopyNoMove, true, true, true, true, true)
// --- assignment not trivial (and loud), rest trivial
struct LoudAssign {
  int id;
  LoudAssign() = default;
  explicit LoudAssign(int i) : id(i) { note(CTOR, this); }
  LoudAssign(LoudAssign const&) = default;
  LoudAssign& operator=(LoudAssign const&) { note(OTHER, this); return *this; }
  ~LoudAssign() { note(DTOR, this); }
};
META(LoudAssign, true, false, false, true, true)
// --- const and reference members: neither assignable nor default constructible
static int referee;
struct ConstMembers {
  int const id;
  int& ref;
  explicit ConstMembers(int i) : id(i), ref(referee) { note(CTOR, this); }
  ConstMembers(ConstMembers const&) = default;
  ~ConstMembers() { note(DTOR, this); }
};
META(ConstMembers, true, false, false, true, true)
// --- polymorphic
struct Base {
  virtual ~Base() { note(DTOR, this); }
  virtual int get() const { return 0; }
};
struct Virtual : Base {
  int id;
  explicit Virtual(int i) : id(i) { note(CTOR, this); }
  Virtual(Virtual const& o) : Base(), id(o.id) { note(COPY, this, &o); }
  int get() const override { return id; }
};
META(Virtual, true, true, true, true, true)
// --- overloaded comma
struct Tricky {
  int id;
  explicit Tricky(int i) : id(i) { note(CTOR, this); }
  Tricky(Tricky const& o) : id(o.id) { note(COPY, this, std::addressof(o)); }
  Tricky(Tricky&& o) noexcept : id(o.id) { o.id = -1; note(MOVE, this, std::addressof(o)); }
  ~Tricky() { note(DTOR, this); }
  template <class T>
  friend void operator,(Tricky const& t, T&&) { note(OTHER, std::addressof(t)); }
  template <class T>
  friend void operator,(T&&, Tricky const& t) { note(OTHER, std::addressof(t)); }
};
META(Tricky, true, true, true, true, true)
// --- constructors that braces and parentheses tell apart
struct Listy {
  int id;
  explicit Listy(int i) : id(i) { note(CTOR, this); }
  Listy(int a, int b) : id(a + b) { note(CTOR, this); }
  Listy(std::initializer_list<int> l) : id(-1000 - static_cast<int>(l.size())) { note(CTOR, this); }
  Listy(Listy const& o) : id(o.id) { note(COPY, this, &o); }
  Listy(Listy&& o) noexcept : id(o.id) { o.id = -1; note(MOVE, this, &o); }
  ~Listy() { note(DTOR, this); }
};
META(Listy, true, true, true, true, true)
// --- a greedy converting constructor
struct Greedy {
  int id;
  explicit Greedy(int i) : id(i) { note(CTOR, this); }
  template <class T, class = typename std::enable_if<!std::is_same<typename std::decay<T>::type, Greedy>::value>::type>
  Greedy(T&&) : id(-2000) { note(OTHER, this); }
  Greedy(Greedy const& o) : id(o.id) { note(COPY, this, &o); }
  Greedy(Greedy&& o) noexcept : id(o.id) { o.id = -1; note(MOVE, this, &o); }
  ~Greedy() { note(DTOR, this); }
};
META(Greedy, true, true, true, true, true)
// --- over-aligned, larger than a cache line
struct alignas(128) Wide {
  int id;
  char pad[150];
  explicit Wide(int i) : id(i) { note(CTOR, this); }
  Wide(Wide const&) = default;
  ~Wide() { note(DTOR, this); }
};
META(Wide, true, false, false, true, true)
// --- trivial throughout
struct Plain {
  int id;
  short more;
};
META(Plain, false, false, false, false, true)
// --- a move constructor that may throw, next to a copy constructor
struct ThrowingMove {
  int id;
  explicit ThrowingMove(int i) : id(i) { note(CTOR, this); }
  ThrowingMove(ThrowingMove const& o) : id(o.id) { note(COPY, this, &o); }
  ThrowingMove(ThrowingMove&& o) : id(o.id) { o.id = -1; note(MOVE, this, &o); }
  ~ThrowingMove() { note(DTOR, this); }
};
META(ThrowingMove, true, true, true, true, true)

template <class K, bool = std::is_constructible<K, int>::value>
struct Make {
  static void at(void* p, int id) { new (p) K(id); }
};
template <class K>
struct Make<K, false> {
  static void at(void* p, int id) {
    K* k = new (p) K();
    if constexpr (Meta<K>::ids) k->id = id;
    (void)id;
    (void)k;
  }
};
template <class K>
static int value(K const& k) {
  if constexpr (Meta<K>::ids) return k.id;
  else return 0;
}

template <class K>
[[maybe_unused]] static void kind(size_t maxcap) {
  using M = Meta<K>;
  using Buf = circular_buffer_adapter<K>;
  struct Slot {
    alignas(K) unsigned char b[sizeof(K)];
  };
  int next = 1;
  for (size_t cap = 1; cap <= maxcap; ++cap)
    for (size_t first = 0; first <= cap; ++first)
      for (size_t count = 0; count <= cap; ++count)
        for (unsigned op = 0; op < 12; ++op)
          for (size_t arg = 0; arg <= ((op == 8 || op == 9) ? count : op == 11 ? 1 : 0); ++arg) {
            v::at("%s cap=%zu first=%zu count=%zu op=%u arg=%zu", M::name(), cap, first, count, op, arg);
            std::vector<Slot> mem(cap);
            memset(static_cast<void*>(mem.data()), 0xA5, cap * sizeof(Slot));
            K* base = reinterpret_cast<K*>(mem.data());
            std::deque<std::pair<K*, int>> model;
            for (size_t i = 0; i < count; ++i) {
              K* p = base + (first + i) % cap;
              Make<K>::at(p, next);
              model.emplace_back(p, M::ids ? next : 0);
              ++next;
            }
            Slot outer;
            K* src = reinterpret_cast<K*>(&outer);
            int id = next++;
            bool have_src = false;
            auto make_src = [&] { Make<K>::at(src, id); have_src = true; };
            lg.clear();
            {
              Buf b(base, cap, first, count);
              V_CHECK(lg.empty(), "attach", "%s: attaching ran %zu special members", M::name(), lg.size());
              K* at = nullptr;      // where the new element lives
              unsigned how = OTHER; // how it came about
              std::vector<K*> gone;
              bool done = true, front = op & 1;
              auto expect_id = M::ids ? id : 0;
              if (op <= 7 && count == cap) done = false;
              else switch (op) {
              case 0:
              case 1:
                if constexpr (std::is_copy_constructible<K>::value) {
                  make_src();
                  lg.clear();
                  K const& c = *src;
                  if (front) b.push_front(c); else b.push_back(c);
                  how = COPY;
                } else done = false;
                break;
              case 2:
              case 3:
                make_src();
                lg.clear();
                if (front) b.push_front(std::move(*src)); else b.push_back(std::move(*src));
                how = MOVE;
                break;
              case 4:
              case 5:  // emplace with an int, or with nothing
                if constexpr (std::is_constructible<K, int>::value) {
                  K& r = front ? b.emplace_front(id) : b.emplace_back(id);
                  at = std::addressof(r);
                } else {
                  K& r = front ? b.emplace_front() : b.emplace_back();
                  at = std::addressof(r);
                  if constexpr (M::ids) V_CHECK(r.id == 0, "value-initialised", "%s: emplace with no arguments left %d, not a value-initialised element", M::name(), r.id);
                  expect_id = 0;
                }
                how = CTOR;
                break;
              case 6:
              case 7:
                if constexpr (std::is_same<K, Listy>::value) {
                  K& r = front ? b.emplace_front(id, 5) : b.emplace_back(id, 5);
                  at = std::addressof(r);
                  expect_id = id + 5;
                  how = CTOR;
                } else if constexpr (std::is_default_constructible<K>::value && std::is_trivially_default_constructible<Plain>::value && std::is_same<K, Plain>::value) {
                  K& r = front ? b.emplace_front() : b.emplace_back();
                  at = std::addressof(r);
                  expect_id = 0;
                  how = CTOR;
                } else done = false;
                break;
              case 8:
                for (size_t i = 0; i < arg; ++i) { gone.push_back(model.front().first); model.pop_front(); }
                b.pop_front(arg);
                break;
              case 9:
                for (size_t i = 0; i < arg; ++i) { gone.push_back(model.back().first); model.pop_back(); }
                b.pop_back(arg);
                break;
              case 10:
                for (auto& m : model) gone.push_back(m.first);
                model.clear();
                b.clear();
                break;
              default:  // single pops
                if (count == 0) { done = false; break; }
                if (arg) { gone.push_back(model.front().first); model.pop_front(); b.pop_front(); }
                else { gone.push_back(model.back().first); model.pop_back(); b.pop_back(); }
                break;
              }
              if (done) {
                std::vector<Ev> got;
                got.swap(lg);
                if (op <= 7) {
                  K* where = std::addressof(front ? b.front() : b.back());
                  if (!model.empty()) {
                    K* want = base + ((front ? static_cast<size_t>(model.front().first - base) + cap - 1 : static_cast<size_t>(model.back().first - base) + 1) % cap);
                    V_CHECK(where == want, "slot", "%s: new element in slot %zd, expected %zd", M::name(), where - base, want - base);
                  }
                  if (at) V_CHECK(at == where, "reference", "%s: emplace returned another element", M::name());
                  bool seen = how == COPY ? M::copy : how == MOVE ? M::move : M::ctor;
                  unsigned w = how == MOVE && std::is_copy_constructible<K>::value && !std::is_same<K, EmptyFinal>::value &&
                                       (std::is_same<K, EmptyCopyOnly>::value || std::is_same<K, CopyNoMove>::value || std::is_same<K, Virtual>::value)
                                   ? static_cast<unsigned>(COPY) : how;
                  if (!seen) V_CHECK(got.empty(), "events", "%s: %zu special members run by op %u, none expected (first %u)", M::name(), got.size(), op, got[0].what);
                  else {
                    V_CHECK(got.size() == 1 && got[0].what == w, "events", "%s: op %u ran %zu special members (first %d), expected exactly one %u", M::name(), op, got.size(), got.empty() ? -1 : static_cast<int>(got[0].what), w);
                    if (got.size() == 1) {
                      V_CHECK(got[0].self == where, "where", "%s: op %u constructed elsewhere", M::name(), op);
                      if (how != CTOR) V_CHECK(got[0].src == src, "source", "%s: op %u constructed from another object", M::name(), op);
                    }
                    V_COUNT("observed_constructions");
                  }
                  V_CHECK(value<K>(*where) == expect_id, "value", "%s: op %u left value %d, expected %d", M::name(), op, value<K>(*where), expect_id);
                  if (front) model.emplace_front(where, expect_id);
                  else model.emplace_back(where, expect_id);
                } else {
                  std::vector<const void*> dt, want;
                  for (auto& e : got) {
                    V_CHECK(e.what == DTOR, "events", "%s: op %u ran special member %u", M::name(), op, e.what);
                    dt.push_back(e.self);
                  }
                  if (M::dtor) for (auto* p : gone) want.push_back(p);
                  V_COUNT("observed_destructions");
                  std::sort(dt.begin(), dt.end());
                  std::sort(want.begin(), want.end());
                  V_CHECK(dt == want, "destroyed", "%s: op %u destroyed %zu objects, expected %zu (the removed elements, each once)", M::name(), op, dt.size(), want.size());
                }
                V_CHECK(b.size() == model.size(), "size", "%s: size %zu, expected %zu", M::name(), b.size(), model.size());
                for (size_t i = 0; i < model.size() && i < b.size(); ++i) {
                  V_CHECK(std::addressof(b[i]) == model[i].first, "address", "%s: element %zu lives elsewhere", M::name(), i);
                  V_CHECK(value<K>(b[i]) == model[i].second, "element", "%s: element %zu is %d, expected %d", M::name(), i, value<K>(b[i]), model[i].second);
                }
                V_COUNT("kind_operations");
                v::evaluated();
                v::distinct(v::mix(v::mix(v::hash_str(M::name()), cap * 64 + first), v::mix(count, op * 16 + arg)));
              }
              // what is left goes when the workload says so, not with the adapter
              lg.clear();
              if (arg % 2 == 0 && op % 3 == 0) {
                b.clear();
                size_t n = 0;
                for (auto& e : lg) n += e.what == DTOR;
                V_CHECK(n == (M::dtor ? model.size() : 0) && n == lg.size(), "cleared", "%s: clear() destroyed %zu of %zu", M::name(), n, model.size());
                model.clear();
                lg.clear();
              }
            }
            V_CHECK(lg.empty(), "adapter-destruction", "%s: dropping the adapter ran %zu special members", M::name(), lg.size());
            for (auto& m : model) m.first->~K();
            if (have_src) src->~K();
            lg.clear();
          }
}

// The bulk operations may refuse such types; where they accept one, its
// elements still enter and leave through their special members.
#define CALLABLE(NAME, EXPR)                                                               \
  template <class B, class K>                                                              \
  static auto NAME(B& b, K* in, K* out, size_t n, int) -> decltype(static_cast<void>(EXPR), true) { \
    (void)b; (void)in; (void)out; (void)n;                                                 \
    EXPR;                                                                                  \
    return true;                                                                           \
  }                                                                                        \
  template <class B, class K>                                                              \
  static bool NAME(B&, K*, K*, size_t, long) { return false; }
CALLABLE(in_back, b.copy_in_back(static_cast<K const*>(in), n))
CALLABLE(in_front, b.copy_in_front(static_cast<K const*>(in), n))
CALLABLE(in_range, b.copy_in(b.begin(), b.begin() + static_cast<typename B::difference_type>(n), static_cast<K const*>(in)))
CALLABLE(out_back, b.copy_out_back(out, n))
CALLABLE(out_front, b.copy_out_front(out, n))
CALLABLE(out_range, b.copy_out(b.cbegin(), b.cbegin() + static_cast<typename B::difference_type>(n), out))

template <class K>
static void bulk_kind() {
  using M = Meta<K>;
  using Buf = circular_buffer_adapter<K>;
  struct Slot {
    alignas(K) unsigned char b[sizeof(K)];
  };
  constexpr size_t cap = 5;
  for (unsigned op = 0; op < 6; ++op)
    for (size_t first = 0; first < cap; ++first) {
      v::at("bulk %s op=%u first=%zu", M::name(), op, first);
      std::vector<Slot> mem(cap), ext(2 * cap);
      memset(static_cast<void*>(mem.data()), 0xA5, cap * sizeof(Slot));
      memset(static_cast<void*>(ext.data()), 0x5A, ext.size() * sizeof(Slot));
      K* base = reinterpret_cast<K*>(mem.data());
      K* in = reinterpret_cast<K*>(ext.data());
      K* out = in + cap;
      size_t n = 2, count = op < 2 ? 2 : 3;
      for (size_t i = 0; i < count; ++i) Make<K>::at(base + (first + i) % cap, static_cast<int>(i));
      for (size_t i = 0; i < n; ++i) Make<K>::at(in + i, static_cast<int>(100 + i));
      if (op > 3) for (size_t i = 0; i < n; ++i) Make<K>::at(out + i, static_cast<int>(200 + i));
      Buf b(base, cap, first, count);
      lg.clear();
      bool did = op == 0 ? in_back<Buf, K>(b, in, out, n, 0) : op == 1 ? in_front<Buf, K>(b, in, out, n, 0) : op == 2 ? in_range<Buf, K>(b, in, out, n, 0)
               : op == 3 ? out_range<Buf, K>(b, in, out, n, 0) : op == 4 ? out_back<Buf, K>(b, in, out, n, 0) : out_front<Buf, K>(b, in, out, n, 0);
      if (!did) { V_COUNT("bulk_refused"); }
      else {
        size_t copies = 0, dtors = 0;
        for (auto& e : lg) {
          bool inside = e.self >= base && e.self < base + cap;
          copies += (e.what == COPY || e.what == MOVE) && inside;
          dtors += e.what == DTOR && inside;
        }
        if (op < 2 && M::copy) V_CHECK(copies == n, "bulk-copies", "%s: a bulk copy brought in %zu elements with %zu copy constructions", M::name(), n, copies);
        if (op == 2 && !std::is_trivially_copyable<K>::value && (M::copy || M::dtor)) V_CHECK(!lg.empty(), "bulk-copies", "%s: a bulk copy replaced %zu elements without any of their special members", M::name(), n);
        if (op >= 3 && M::copy) V_CHECK(!lg.empty(), "bulk-copies", "%s: a bulk copy wrote %zu elements out without any of their special members", M::name(), n);
        if (op > 3 && M::dtor) V_CHECK(dtors == n, "bulk-destroyed", "%s: a bulk copy took out %zu elements but destroyed %zu", M::name(), n, dtors);
        if (op < 2) V_CHECK(b.size() == count + n, "size", "%s: size after a bulk copy", M::name());
        V_COUNT("bulk_accepted");
      }
      lg.clear();
      v::evaluated();
    }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  lg.reserve(1024);
#ifndef BULK_ONLY
  size_t m = v::thorough() ? 8 : 4;
#endif
#ifndef BULK_ONLY
  kind<EmptyDtor>(m);
  kind<EmptyFinal>(m);
  kind<EmptyCopyOnly>(m);
  kind<TrivDefault>(m);
  kind<NoDefault>(m);
  kind<MoveOnlyTrivDefault>(m);
  kind<CopyMoveOnly>(m);
  kind<TrivCopyMove>(m);
  kind<CopyNoMove>(m);
  kind<LoudAssign>(m);
  kind<ConstMembers>(m);
  kind<Virtual>(m);
  kind<Tricky>(m);
  kind<Listy>(m);
  kind<Greedy>(m);
  kind<Wide>(m);
  kind<Plain>(m);
  kind<ThrowingMove>(m);
#endif
  bulk_kind<EmptyDtor>();
  bulk_kind<EmptyFinal>();
  bulk_kind<EmptyCopyOnly>();
  bulk_kind<TrivDefault>();
  bulk_kind<NoDefault>();
  bulk_kind<MoveOnlyTrivDefault>();
  bulk_kind<CopyMoveOnly>();
  bulk_kind<TrivCopyMove>();
  bulk_kind<CopyNoMove>();
  bulk_kind<LoudAssign>();
  bulk_kind<ConstMembers>();
  bulk_kind<Virtual>();
  bulk_kind<Tricky>();
  bulk_kind<Listy>();
  bulk_kind<Greedy>();
  bulk_kind<Wide>();
  bulk_kind<Plain>();
  bulk_kind<ThrowingMove>();
  v::require("bulk_accepted", 25);
#ifndef BULK_ONLY
  v::sample("eighteen element shapes: special members logged by address around every operation");
  v::require("kind_operations", 5000);
  v::require("observed_constructions", 1500);
  v::require("observed_destructions", 1500);
#endif
  return v::finish();
}
