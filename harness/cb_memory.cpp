// C02: memory containment monitor.  The adapter's memory sits flush against an
// inaccessible page on one side and canaries on the other; a byte snapshot
// around every operation decides which slots it wrote; operations that must not
// write run with the memory write-protected.
#include "cb_rig.h"
#include <sys/mman.h>

struct Arena {
  // [PROT_NONE page][rw pages][PROT_NONE page]
  size_t page = 4096, rw;
  unsigned char* base;
  explicit Arena(size_t bytes) {
    rw = (bytes + 512 + page - 1) / page * page;
    base = static_cast<unsigned char*>(mmap(nullptr, rw + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (base == MAP_FAILED) {
      perror("mmap");
      _exit(97);
    }
    mprotect(base + page, rw, PROT_READ | PROT_WRITE);
  }
  ~Arena() { munmap(base, rw + 2 * page); }
  unsigned char* begin() { return base + page; }
  unsigned char* end() { return base + page + rw; }
  void readonly(bool on) {
    mprotect(begin(), rw, on ? PROT_READ : PROT_READ | PROT_WRITE);
  }
};

template <class T>
static bool writes_nothing(Op o) {
  switch (o) {
  case Op::pop_front:
  case Op::pop_back:
  case Op::pop_front_n:
  case Op::pop_back_n:
  case Op::clear: return std::is_trivial_v<T>;
  case Op::bulk_out_front:
  case Op::bulk_out_back:
  case Op::iter_out: return true;
  default: return false;
  }
}

template <class T>
static void run(const char* section, int64_t n, size_t maxcap, int len) {
  v::Cases c(section, n);
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = g.chance(1, 2) ? 1 + g.below(6) : 1 + g.below(maxcap);
    Arena ar(cap * sizeof(T));
    for (unsigned char* p = ar.begin(); p < ar.end(); ++p) *p = static_cast<unsigned char>(g.next());
    bool flush_end = g.chance(1, 2);
    unsigned char* m = flush_end ? ar.end() - cap * sizeof(T) : ar.begin();
    if (reinterpret_cast<uintptr_t>(m) % alignof(T)) m -= reinterpret_cast<uintptr_t>(m) % alignof(T);
    T* mem = reinterpret_cast<T*>(m);
    size_t first = g.below(cap + 1), count = g.below(cap + 1);
    Rig<T> r(mem, cap, first, count, static_cast<int>(g.below(8)));
    std::vector<unsigned char> before(ar.begin(), ar.end());
    int phase = 0;
    for (int i = 0; i < len; ++i) {
      if (i % 10 == 0) phase = static_cast<int>(g.below(6));
      Op o = random_op(g, phase);
      if (!r.possible(o) || (o == Op::clear && !g.chance(1, 4))) continue;
      size_t a = r.max_arg(o);
      a = g.chance(1, 3) ? (g.chance(1, 2) ? a : 0) : g.below(a + 1);
      size_t off = g.below(1000);
      v::at("%s cap=%zu fs=%zu size=%zu %s(%zu)", type_name<T>(), cap, r.fs, r.size(), op_name(o), a);
      std::vector<bool> occ(cap, false);
      for (size_t k = 0; k < r.size(); ++k) occ[(r.fs + k) % cap] = true;
      size_t old_n = r.size(), old_fs = r.fs;
      bool ro = writes_nothing<T>(o) && i % 2 == 0;
      if (ro) ar.readonly(true);
      r.apply(o, a, off);
      if (ro) {
        V_COUNT("writeless_ops_on_protected_memory");
        ar.readonly(false);
      }
      // slots this operation may write
      std::vector<bool> may(cap, false);
      for (size_t k = 0; k < r.size(); ++k) {
        size_t s = (r.fs + k) % cap;
        if (!occ[s]) may[s] = true;
      }
      if (o == Op::assign_at) may[(r.fs + a) % cap] = true;
      if (o == Op::iter_in) {
        size_t at = r.size() - a ? off % (r.size() - a + 1) : 0;
        for (size_t k = 0; k < a; ++k) may[(r.fs + at + k) % cap] = true;
      }
      if (!std::is_trivial_v<T>) {  // destructors may scribble on their own slot
        std::vector<bool> now(cap, false);
        for (size_t k = 0; k < r.size(); ++k) now[(r.fs + k) % cap] = true;
        for (size_t s = 0; s < cap; ++s)
          if (occ[s] && !now[s]) may[s] = true;
      }
      size_t moff = static_cast<size_t>(m - ar.begin());
      size_t total = static_cast<size_t>(ar.end() - ar.begin());
      unsigned char* cur = ar.begin();
      for (size_t b = 0; b < total; ++b) {
        if (cur[b] == before[b]) continue;
        if (b < moff || b >= moff + cap * sizeof(T)) {
          v::fail("outside-write", "%s(%zu) at size %zu of %zu, first slot %zu wrote outside the buffer (offset %lld)", op_name(o), a, old_n, cap, old_fs, (long long)b - (long long)moff);
          break;
        }
        size_t s = (b - moff) / sizeof(T);
        if (!may[s]) {
          v::fail(occ[s] ? "element-write" : "unused-slot-write", "%s(%zu) at size %zu of %zu, first slot %zu modified slot %zu which it does not occupy newly", op_name(o), a, old_n, cap, old_fs, s);
          break;
        }
      }
      before.assign(ar.begin(), ar.end());
      // slot mapping and stable addresses
      bool ro2 = g.chance(1, 4);
      if (ro2) ar.readonly(true);
      auto& b = *r.buf;
      if (b.size() == r.size()) {
        for (size_t k = 0; k < r.size(); ++k) {
          V_CHECK(&b[k] == r.slot(k), "slot", "after %s(%zu) at size %zu of %zu, first slot %zu: element %zu lives in slot %lld, expected %zu", op_name(o), a, old_n, cap, old_fs, k, (long long)(&b[k] - mem), (r.fs + k) % cap);
          V_CHECK(&*(b.begin() + (long)k) == r.slot(k), "slot-iterator", "iterator to element %zu points at the wrong slot", k);
        }
        if (ro2) {
          r.observe("write-protected memory");
          V_COUNT("observations_on_protected_memory");
        }
      } else {
        v::fail("size", "size %zu expected %zu after %s(%zu)", (size_t)b.size(), r.size(), op_name(o), a);
      }
      if (ro2) ar.readonly(false);
      V_COUNT("operations_snapshotted");
      v::evaluated();
      v::distinct(v::mix(v::mix(r.state_hash(), static_cast<uint64_t>(o)), a));
      if (v::st().total_violations > 50) break;
    }
    if (c.index() == 0) v::sample(v::fmt("%s cap=%zu first=%zu count=%zu, %d operations snapshotted byte-wise, flush %s", type_name<T>(), cap, first, count, len, flush_end ? "end" : "begin"));
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  run<uint8_t>("u8", v::scale(120, 2000), 60, 150);
  run<int>("int", v::scale(120, 2000), 40, 150);
  run<uint64_t>("u64", v::scale(80, 2000), 40, 150);
  run<B3>("B3", v::scale(120, 2000), 40, 150);
  run<B24>("B24", v::scale(100, 2000), 40, 150);
  run<B100>("B100", v::scale(60, 1000), 20, 150);
  run<Over64>("Over64", v::scale(60, 1000), 20, 150);
  run<std::string>("string", v::scale(80, 2000), 20, 150);
  run<std::unique_ptr<uint64_t>>("unique_ptr", v::scale(80, 2000), 20, 150);
  v::require("operations_snapshotted", 50000);
  v::require("writeless_ops_on_protected_memory", 5000);
  v::require("observations_on_protected_memory", 5000);
  return v::finish();
}
