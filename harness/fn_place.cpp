// C14: the target lives inside the function, aligned, for every capacity and
// alignment, and nothing outside the function object is touched.
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>

#include <sys/mman.h>
#include <unistd.h>

#include <embedded/function.h>
#include "vharness.h"

using embedded::function;

static const void* seen_ctor;
static const void* seen_move_dst;
static const void* seen_move_src;
static const void* seen_dtor;
static const void* seen_call;

template <size_t Size, size_t Align>
struct alignas(Align) Tgt {
  unsigned char b[Size];
  explicit Tgt(unsigned char s) {
    seen_ctor = this;
    aligned("construction");
    for (size_t i = 0; i < Size; ++i) b[i] = static_cast<unsigned char>(s + i * 3);
  }
  Tgt(Tgt const& o) {
    seen_ctor = this;
    aligned("copy");
    o.aligned("copy source");
    memcpy(b, o.b, Size);
  }
  Tgt(Tgt&& o) noexcept {
    seen_ctor = seen_move_dst = this;
    seen_move_src = &o;
    aligned("move");
    o.aligned("move source");
    memcpy(b, o.b, Size);
    memset(o.b, 0xEE, Size);
  }
  ~Tgt() {
    seen_dtor = this;
    aligned("destruction");
    memset(b, 0xDD, Size);
  }
  void aligned(const char* w) const {
    if (reinterpret_cast<uintptr_t>(this) % Align) v::fail("misaligned", "%s of a target of alignment %zu at an address that is %zu beyond a multiple of it", w, Align, static_cast<size_t>(reinterpret_cast<uintptr_t>(this) % Align));
  }
  int operator()(int s) {
    seen_call = this;
    aligned("call");
    for (size_t i = 0; i < Size; ++i)
      if (b[i] != static_cast<unsigned char>(s + static_cast<int>(i) * 3)) return static_cast<int>(i) + 1;
    for (size_t i = 0; i < Size; ++i) b[i] = static_cast<unsigned char>(b[i] + 1);  // scribble over all of itself
    return 0;
  }
  int operator()(int s) const {
    seen_call = this;
    aligned("call");
    for (size_t i = 0; i < Size; ++i)
      if (b[i] != static_cast<unsigned char>(s + static_cast<int>(i) * 3)) return static_cast<int>(i) + 1;
    return 0;
  }
};

static unsigned char* arena;  // page aligned, guard pages on both sides
static const size_t kArena = 8192;
static unsigned char* snap;

static void check_outside(const char* what, const void* p, size_t n, const void* q = nullptr, size_t m = 0) {
  auto a = static_cast<const unsigned char*>(p);
  auto b = static_cast<const unsigned char*>(q);
  for (size_t i = 0; i < kArena; ++i) {
    const unsigned char* x = arena + i;
    if ((x >= a && x < a + n) || (q && x >= b && x < b + m)) continue;
    if (arena[i] != snap[i]) {
      v::fail("outside-modified", "%s changed a byte %td relative to the function object of size %zu", what, x - a, n);
      return;
    }
  }
}
template <class F>
static bool inside(const F& f, const void* p, size_t size) {
  auto a = reinterpret_cast<const unsigned char*>(&f);
  auto x = static_cast<const unsigned char*>(p);
  return x >= a && x + size <= a + sizeof(F);
}

template <bool Const, size_t Cap, size_t Al, size_t Size, size_t TAl>
static void one(size_t place, v::Rng& g) {
  using F = typename std::conditional<Const, function<int(int) const, Cap, Al>, function<int(int), Cap, Al>>::type;
  using T = Tgt<Size, TAl>;
  static_assert(sizeof(T) == Size, "");
  v::at("capacity %zu alignment %zu target size %zu alignment %zu place %zu const %d", Cap, Al, Size, TAl, place, Const);
  V_CHECK(sizeof(F) >= Cap && alignof(F) >= Al, "layout", "sizeof %zu alignof %zu", sizeof(F), alignof(F));
  for (size_t i = 0; i < kArena; i += 8) {
    uint64_t r = g.next();
    memcpy(arena + i, &r, 8);
  }
  memcpy(snap, arena, kArena);
  // an address that is a multiple of alignof(F) but of no higher power of two,
  // or at either end of the arena
  size_t unit = alignof(F);
  unsigned char* at;
  unsigned char* at2;
  switch (place) {
  case 0: at = arena; at2 = arena + 2048 + unit; break;
  case 1: at = arena + kArena - sizeof(F); at2 = arena + unit; break;
  default: at = arena + 1024 + unit; at2 = arena + 4096; break;
  }
  unsigned char s = static_cast<unsigned char>(g.next());
  int cur = s;
  {
    T src(s);
    F* f = new (at) F(std::move(src));
    check_outside("construction", at, sizeof(F));
    const void* home = seen_move_dst;
    V_CHECK(inside(*f, home, Size), "target-outside", "target constructed outside the function");
    for (int k = 0; k < 3; ++k) {
      int bad = (*f)(cur);
      V_CHECK(bad == 0, "target-corrupted", "byte %d of the target changed", bad - 1);
      V_CHECK(seen_call == home, "different-storage", "called at a storage address different from where it was constructed");
      if (!Const) cur = static_cast<unsigned char>(cur + 1);
      V_CHECK(static_cast<bool>(*f), "bookkeeping", "function became empty");
      check_outside("call", at, sizeof(F));
    }
    // move construction
    F* h = new (at2) F(std::move(*f));
    check_outside("move construction", at, sizeof(F), at2, sizeof(F));
    V_CHECK(seen_move_src == home, "different-storage", "moved from a storage address different from where it was constructed");
    V_CHECK(seen_dtor == home, "different-storage", "moved-from target destroyed at another address");
    const void* home2 = seen_move_dst;
    V_CHECK(inside(*h, home2, Size), "target-outside", "target moved outside the function");
    V_CHECK(!*f && *h, "bookkeeping", "emptiness after move");
    int bad = (*h)(cur);
    V_CHECK(bad == 0, "target-corrupted", "byte %d of the moved target differs", bad - 1);
    V_CHECK(seen_call == home2, "different-storage", "called at another storage address after a move");
    if (!Const) cur = static_cast<unsigned char>(cur + 1);
    // move assignment back
    *f = std::move(*h);
    check_outside("move assignment", at, sizeof(F), at2, sizeof(F));
    bad = (*f)(cur);
    V_CHECK(bad == 0, "target-corrupted", "byte %d of the moved target differs", bad - 1);
    V_CHECK(inside(*f, seen_call, Size) && seen_call == home, "different-storage", "target is not where it was before");
    if (!Const) cur = static_cast<unsigned char>(cur + 1);
    // swap with another one, then destroy
    *h = T(static_cast<unsigned char>(s + 100));
    std::swap(*f, *h);
    bad = (*h)(cur);
    V_CHECK(bad == 0, "target-corrupted", "byte %d of the swapped target differs", bad - 1);
    bad = (*f)(static_cast<unsigned char>(s + 100));
    V_CHECK(bad == 0, "target-corrupted", "byte %d of the swapped target differs", bad - 1);
    check_outside("swap", at, sizeof(F), at2, sizeof(F));
    f->~F();
    V_CHECK(seen_dtor == home, "different-storage", "destroyed at another address");
    h->~F();
    V_CHECK(seen_dtor == home2, "different-storage", "destroyed at another address");
    check_outside("destruction", at, sizeof(F), at2, sizeof(F));
  }
  // arrays and members keep their distance
  {
    struct Host {
      unsigned char before[3];
      F f;
      unsigned char after[5];
    };
    unsigned char* p = arena + 4096 + alignof(Host);
    for (size_t i = 0; i < sizeof(Host) && p + i < arena + kArena; ++i) p[i] = 0x77;
    Host* hst = reinterpret_cast<Host*>(p);
    new (&hst->f) F(T(s));
    int bad = hst->f(s);
    V_CHECK(bad == 0, "target-corrupted", "member function object: byte %d differs", bad - 1);
    for (auto x : hst->before) V_CHECK(x == 0x77, "outside-modified", "member before the function changed");
    for (auto x : hst->after) V_CHECK(x == 0x77, "outside-modified", "member behind the function changed");
    hst->f.~F();
  }
  v::evaluated();
  V_COUNT("placements");
  v::distinct(v::mix(v::mix(Cap * 1000 + Al, Size * 1000 + TAl), place * 2 + Const));
}

template <size_t Cap, size_t Al, size_t Size, size_t TAl, bool Ok>
struct Go {
  static void run(v::Rng& g) {
    for (size_t place = 0; place < 3; ++place) one<(Size % 2 == 0), Cap, Al, Size, TAl>(place, g);
  }
};
template <size_t Cap, size_t Al, size_t Size, size_t TAl>
struct Go<Cap, Al, Size, TAl, false> {
  static void run(v::Rng&) {}
};
template <size_t Cap, size_t Al, size_t Size>
static void sizes(v::Rng& g) {
  Go<Cap, Al, Size, 1, (Size > 0 && Size <= Cap)>::run(g);
  Go<Cap, Al, Size / 2 * 2, 2, (Size >= 2 && Size <= Cap && Al % 2 == 0)>::run(g);
  Go<Cap, Al, Size / 8 * 8, 8, (Size >= 8 && Size <= Cap && Al % 8 == 0)>::run(g);
  Go<Cap, Al, Size / Al * Al, Al, (Size >= Al && Size <= Cap && Al > 8)>::run(g);
}
template <size_t Cap, size_t Al>
static void pair(v::Rng& g) {
  sizes<Cap, Al, 1>(g);
  sizes<Cap, Al, Cap>(g);
  sizes<Cap, Al, (Cap > 1 ? Cap - 1 : 1)>(g);
  sizes<Cap, Al, (Cap + 1) / 2>(g);
  V_COUNT("capacity_alignment_pairs");
}
template <size_t Al>
static void caps(v::Rng& g) {
  pair<1, Al>(g);
  pair<2, Al>(g);
  pair<4, Al>(g);
  pair<7, Al>(g);
  pair<8, Al>(g);
  pair<12, Al>(g);
  pair<16, Al>(g);
  pair<24, Al>(g);
  pair<33, Al>(g);
  pair<64, Al>(g);
  pair<100, Al>(g);
  pair<256, Al>(g);
}

// the defaults: three pointers, pointer alignment
static void defaults(v::Rng& g) {
  for (size_t place = 0; place < 3; ++place) one<false, 3 * sizeof(void*), alignof(void*), 24, 8>(place, g);
  int a = 1, b = 2, d = 3;
  function<int()> f = [&a, &b, &d]() { return a + b + d; };
  V_CHECK(f() == 6, "default-capacity", "three captured references do not fit");
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  size_t ps = static_cast<size_t>(sysconf(_SC_PAGESIZE));
  auto* m = static_cast<unsigned char*>(mmap(nullptr, kArena + 2 * ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(m, ps, PROT_NONE);
  mprotect(m + ps + kArena, ps, PROT_NONE);
  arena = m + ps;
  snap = new unsigned char[kArena];
  v::Cases c("matrix", v::scale(4, 200));
  while (c.next()) {
#ifdef PART0
    caps<1>(c.rng);
    pair<2, 2>(c.rng);
    pair<7, 2>(c.rng);
    pair<24, 2>(c.rng);
    pair<33, 2>(c.rng);
    pair<4, 4>(c.rng);
    pair<12, 4>(c.rng);
    pair<27, 4>(c.rng);
    pair<64, 4>(c.rng);
    defaults(c.rng);
#endif
#ifdef PART1
    caps<8>(c.rng);
    caps<16>(c.rng);
    pair<1000, 8>(c.rng);
#endif
#ifdef PART2
    caps<32>(c.rng);
    pair<33, 64>(c.rng);
    pair<64, 64>(c.rng);
    pair<100, 64>(c.rng);
    pair<128, 128>(c.rng);
    pair<200, 128>(c.rng);
#endif
  }
  v::sample(v::fmt("%llu placements over %llu capacity/alignment pairs (x repeats): construction, call, move, swap, destruction addresses equal and inside, all bytes outside unchanged", v::st().counters["placements"], v::st().counters["capacity_alignment_pairs"]));
  v::require("placements", 300);
  v::require("capacity_alignment_pairs", 17);
  return v::finish();
}
