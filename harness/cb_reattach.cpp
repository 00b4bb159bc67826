// C03: at every point of a history the adapter object may be lost; a new one
// built from (memory, capacity, raw index of begin, size) must carry on.
#include "cb_rig.h"
#include <sys/mman.h>
#include <sys/wait.h>

template <class T>
static void run(const char* section, int64_t n, size_t maxcap, int len) {
  v::Cases c(section, n);
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = g.chance(1, 2) ? 1 + g.below(5) : 1 + g.below(maxcap);
    Mem<T> m(cap);
    size_t first = g.below(cap + 1), count = g.below(cap + 1);
    Rig<T> r(m.p, cap, first, count, static_cast<int>(g.below(8)));
    int phase = 0;
    for (int i = 0; i < len; ++i) {
      if (i % 10 == 0) phase = static_cast<int>(g.below(6));
      Op o = random_op(g, phase);
      if (!r.possible(o) || (o == Op::clear && !g.chance(1, 3))) continue;
      size_t a = r.max_arg(o);
      a = g.chance(1, 3) ? (g.chance(1, 2) ? a : 0) : g.below(a + 1);
      v::at("%s cap=%zu fs=%zu size=%zu %s(%zu)", type_name<T>(), cap, r.fs, r.size(), op_name(o), a);
      r.apply(o, a, g.below(1000));
      // crash point: what a client would have persisted
      size_t idx = g.chance(1, 2) ? r.buf->raw_index(r.buf->begin()) : r.buf->raw_index(r.buf->cbegin());
      size_t cnt = r.buf->size();
      V_CHECK(idx <= cap, "raw_index-range", "raw_index(begin()) is %zu with capacity %zu", idx, cap);
      if (idx > cap) break;
      V_CHECK(cnt == 0 || idx == r.fs, "raw_index", "raw_index(begin()) is %zu, first element lives in slot %zu", idx, r.fs);
      {
        circular_buffer_adapter<T> again(m.p, cap, idx, cnt);
        r.observe_buf(again, "re-attached by index");
        circular_buffer_adapter<T> again2(m.p, m.p + cap, m.p + idx, cnt);
        r.observe_buf(again2, "re-attached by pointer");
        V_COUNT("reattachments");
        v::evaluated();
        v::distinct(v::mix(v::mix(r.state_hash(), static_cast<uint64_t>(o)), idx));
      }
      if constexpr (std::is_trivial_v<T>) {
        // byte copy elsewhere: both continue with the same operations
        Mem<T> copy(cap);
        memcpy(static_cast<void*>(copy.p), m.p, cap * sizeof(T));
        Rig<T> r2(copy.p, cap, 0, 0, 0);
        r2.model = r.model;
        r2.fs = r.fs;
        r2.next_id = r.next_id;
        r2.attach(idx, cnt, static_cast<int>(g.below(8)) & ~2);
        r2.observe("byte copy re-attached");
        if (i % 4 == 0) {
          for (int k = 0; k < 6; ++k) {
            Op o2 = random_op(g, 0);
            if (!r2.possible(o2)) continue;
            r2.apply(o2, g.below(r2.max_arg(o2) + 1), g.below(100));
            r2.observe("byte copy continued");
          }
        }
        V_COUNT("image_copies");
      }
      if (g.chance(1, 2)) {  // lose the object, carry on with a new one
        r.attach(idx, cnt, static_cast<int>(g.below(8)) & ~2);
        V_COUNT("objects_lost");
      }
      r.observe("carried on");
      if (v::st().total_violations > 50) break;
    }
  }
}

// all states: attach, read back, attach again; then fill/drain
template <class T>
static void states(const char* section, size_t maxcap) {
  v::Cases c(section, static_cast<int64_t>(maxcap));
  while (c.next()) {
    size_t cap = static_cast<size_t>(c.index()) + 1;
    for (size_t first = 0; first <= cap; ++first)
      for (size_t count = 0; count <= cap; ++count)
        for (int ctor = 0; ctor < 8; ++ctor) {
          v::at("%s cap=%zu first=%zu count=%zu ctor=%d", type_name<T>(), cap, first, count, ctor);
          Mem<T> m(cap);
          Rig<T> r(m.p, cap, first, count, ctor);
          r.observe("attached");
          size_t idx = r.buf->raw_index(r.buf->begin());
          if (count) V_CHECK(idx == first % cap, "raw_index-attach", "attached at %zu, begin() is at %zu", first, idx);
          r.attach(idx, r.buf->size(), ctor & ~2);
          r.observe("attached again");
          // fill through the back, re-attach, drain through the front
          while (r.room()) r.apply(ctor & 1 ? Op::push_back_m : Op::push_front_m, 0, 0);
          idx = r.buf->raw_index(r.buf->begin());
          r.attach(idx, r.buf->size(), ctor & ~2);
          r.observe("filled");
          while (r.size()) {
            r.apply(ctor & 4 ? Op::pop_front : Op::pop_back, 0, 0);
            idx = r.buf->raw_index(r.buf->begin());
            r.attach(idx, r.buf->size(), ctor & ~2);
            r.observe("draining");
          }
          r.apply(ctor & 1 ? Op::emplace_back : Op::emplace_front, 0, 0);
          r.observe("first element after empty");
          V_COUNT("states_reattached");
          v::evaluated();
          v::distinct(v::mix(v::mix(cap * 100 + first, count * 8 + static_cast<size_t>(ctor)), sizeof(T)));
        }
  }
}

// a process that dies after k operations on shared memory
struct Shared {
  uint64_t first, count, ops, done;
  uint64_t slots[64];
};
static void processes() {
  v::Cases c("process-death", v::scale(60, 400));
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = 1 + g.below(20);
    int k = static_cast<int>(g.below(60));
    Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED) continue;
    uint64_t seed = g.next();
    memset(sh, 0, sizeof *sh);
    pid_t pid = fork();
    if (pid == 0) {
      v::Rng cg(seed);
      Rig<uint64_t> r(sh->slots, cap, 0, 0, 0);
      for (int i = 0; i < k; ++i) {
        Op o = random_op(cg, static_cast<int>(cg.below(6)));
        if (!r.possible(o)) continue;
        r.apply(o, cg.below(r.max_arg(o) + 1), cg.below(100));
        sh->first = r.buf->raw_index(r.buf->begin());
        sh->count = r.buf->size();
        sh->ops++;
      }
      sh->done = 1;
      _exit(0);
    }
    if (pid < 0) {
      munmap(sh, sizeof *sh);
      continue;
    }
    int status = 0;
    waitpid(pid, &status, 0);
    V_CHECK(sh->done == 1, "child", "the writing process failed (status %d)", status);
    // model of the dead process, recomputed without its memory
    std::vector<uint64_t> dummy(cap);
    v::Rng cg(seed);
    Rig<uint64_t> r(dummy.data(), cap, 0, 0, 0);
    for (int i = 0; i < k; ++i) {
      Op o = random_op(cg, static_cast<int>(cg.below(6)));
      if (!r.possible(o)) continue;
      r.apply(o, cg.below(r.max_arg(o) + 1), cg.below(100));
    }
    circular_buffer_adapter<uint64_t> b(sh->slots, cap, sh->first, sh->count);
    r.observe_buf(b, "after process death");
    V_COUNT("process_deaths");
    v::distinct(v::mix(v::mix(cap, static_cast<uint64_t>(k)), seed));
    munmap(sh, sizeof *sh);
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  states<int>("states-int", v::thorough() ? 12 : 6);
  states<std::string>("states-string", v::thorough() ? 8 : 5);
  states<uint8_t>("states-u8", v::thorough() ? 12 : 6);
  run<uint8_t>("u8", v::scale(60, 1500), 40, 120);
  run<int>("int", v::scale(60, 1500), 40, 120);
  run<B3>("B3", v::scale(60, 1500), 30, 120);
  run<B24>("B24", v::scale(60, 1500), 30, 120);
  run<std::string>("string", v::scale(60, 1500), 30, 120);
  run<std::unique_ptr<uint64_t>>("unique_ptr", v::scale(60, 1500), 30, 120);
  processes();
  v::require("reattachments", 15000);
  v::require("image_copies", 5000);
  v::require("objects_lost", 5000);
  v::require("states_reattached", 1000);
  v::require("process_deaths", 30);
  return v::finish();
}
