// C07: bulk copies equal element-wise operations for every wrap position.
#include "cb_rig.h"

// exhaustive over (capacity, first, size, op, count, range start)
template <class T>
static void enumerate(const char* section, size_t maxcap) {
  static const Op ops[] = {Op::bulk_in_front, Op::bulk_in_back, Op::bulk_out_front, Op::bulk_out_back, Op::iter_in, Op::iter_out};
  v::Cases c(section, static_cast<int64_t>(maxcap));
  while (c.next()) {
    size_t cap = static_cast<size_t>(c.index()) + 1;
    for (size_t first = 0; first <= cap; ++first)
      for (size_t count = 0; count <= cap; ++count)
        for (Op o : ops) {
          size_t max = (o == Op::bulk_in_front || o == Op::bulk_in_back) ? cap - count : count;
          for (size_t a = 0; a <= max; ++a) {
            size_t starts = (o == Op::iter_in || o == Op::iter_out) ? count - a + 1 : 1;
            for (size_t s = 0; s < starts; ++s) {
              Mem<T> m(cap);
              Rig<T> r(m.p, cap, first, count, static_cast<int>(c.rng.below(8)));
              v::at("%s cap=%zu first=%zu count=%zu %s(%zu)@%zu", type_name<T>(), cap, first, count, op_name(o), a, s);
              // element-wise twin on memory of its own
              Mem<T> m2(cap);
              Rig<T> e(m2.p, cap, first, count, 0);
              e.next_id = r.next_id;
              r.apply(o, a, s);
              switch (o) {
              case Op::bulk_in_back:
                for (size_t i = 0; i < a; ++i) e.buf->push_back(r.buf->begin()[(long)(count + i)]);
                break;
              case Op::bulk_in_front:
                for (size_t i = a; i > 0; --i) e.buf->push_front((*r.buf)[i - 1]);
                break;
              case Op::bulk_out_front:
                for (size_t i = 0; i < a; ++i) e.buf->pop_front();
                break;
              case Op::bulk_out_back:
                for (size_t i = 0; i < a; ++i) e.buf->pop_back();
                break;
              case Op::iter_in:
                for (size_t i = 0; i < a; ++i) (*e.buf)[s + i] = (*r.buf)[s + i];
                break;
              default: break;
              }
              e.own_cleanup = false;
              r.observe(op_name(o));
              V_CHECK(r.buf->size() == e.buf->size(), "twin-size", "bulk size %zu, element-wise %zu", (size_t)r.buf->size(), (size_t)e.buf->size());
              r.observe_buf(*e.buf, "element-wise twin");
              if (r.buf->size() && e.buf->size() && count)
                V_CHECK(r.buf->raw_index(r.buf->begin()) == e.buf->raw_index(e.buf->begin()), "twin-slot", "bulk and element-wise differ in the first slot");
              // still usable at both ends
              if (r.room()) r.apply(Op::push_back_c, 0, 0);
              if (r.room()) r.apply(Op::push_front_c, 0, 0);
              r.observe("after bulk + push");
              if (r.size()) r.apply(Op::pop_back, 0, 0);
              if (r.size()) r.apply(Op::pop_front, 0, 0);
              r.observe("after bulk + pop");
              V_COUNT("bulk_cases");
              if (a && first % cap + count > cap) V_COUNT("bulk_wrapped");
              if (a == 0) V_COUNT("bulk_empty");
              v::evaluated();
              v::distinct(v::mix(v::mix(v::mix(cap * 100 + first, count), static_cast<uint64_t>(o) * 100 + a), s * 1000 + sizeof(T)));
            }
          }
        }
  }
}

// long random bulk histories, guarded external arrays
template <class T>
static void histories(const char* section, int64_t n, size_t maxcap) {
  v::Cases c(section, n);
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = 1 + g.below(maxcap);
    Mem<T> m(cap);
    Rig<T> r(m.p, cap, g.below(cap + 1), g.below(cap + 1), static_cast<int>(g.below(8)));
    for (int i = 0; i < 80; ++i) {
      Op o = g.chance(1, 6) ? random_op(g, 0) : random_op(g, 5);
      if (!r.possible(o)) continue;
      size_t a = r.max_arg(o);
      a = g.chance(1, 4) ? a : g.below(a + 1);
      v::at("%s cap=%zu fs=%zu size=%zu %s(%zu)", type_name<T>(), cap, r.fs, r.size(), op_name(o), a);
      r.apply(o, a, g.next() >> 8);
      r.observe(op_name(o));
      V_COUNT("bulk_history_ops");
      v::evaluated();
      v::distinct(v::mix(v::mix(r.state_hash(), static_cast<uint64_t>(o)), a));
    }
    if (c.index() == 0) v::sample(v::fmt("%s capacity %zu: 80 random bulk operations", type_name<T>(), cap));
  }
}

// range copy over the std::copy equivalent with partially overlapping ranges of
// a larger array: exactly `count` elements of the array are accessed
static void exact() {
  v::Cases c("exact-access", v::scale(2000, 20000));
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = 1 + g.below(30);
    std::vector<uint16_t> mem(cap);
    circular_buffer_adapter<uint16_t> b(mem.data(), cap, g.below(cap + 1), 0);
    std::vector<uint16_t> src(cap + 20), dst(cap + 20, 0xBEEF);
    for (auto& x : src) x = static_cast<uint16_t>(g.next());
    size_t a = g.below(cap + 1);
    bool front_in = g.chance(1, 2);
    if (front_in) b.copy_in_front(src.data() + 10, a);
    else b.copy_in_back(src.data() + 10, a);
    size_t k = g.below(a + 1);
    bool front_out = g.chance(1, 2);
    if (front_out) b.copy_out_front(dst.data() + 10, k);
    else b.copy_out_back(dst.data() + 10, k);
    for (size_t i = 0; i < dst.size(); ++i) {
      bool in = i >= 10 && i < 10 + k;
      uint16_t want = in ? src[i + (front_out ? 0 : a - k)] : 0xBEEF;
      if (dst[i] != want) {
        v::fail("exact-access", "capacity %zu, in %s %zu, out %s %zu: destination element %lld is %x, expected %x", cap, front_in ? "front" : "back", a, front_out ? "front" : "back", k, (long long)i - 10, dst[i], want);
        break;
      }
    }
    V_CHECK(b.size() == a - k, "exact-size", "size %zu expected %zu", (size_t)b.size(), a - k);
    V_COUNT("exact_access_cases");
    v::distinct(v::mix(v::mix(cap, a), k * 4 + front_in * 2 + front_out));
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  const bool th = v::thorough();
  enumerate<uint8_t>("enum-u8", th ? 9 : 5);
  enumerate<int16_t>("enum-i16", th ? 8 : 4);
  enumerate<B3>("enum-B3", th ? 8 : 5);
  enumerate<uint64_t>("enum-u64", th ? 8 : 4);
  enumerate<B24>("enum-B24", th ? 8 : 4);
  enumerate<B100>("enum-B100", th ? 6 : 3);
  enumerate<Over64>("enum-Over64", th ? 6 : 3);
  histories<uint8_t>("hist-u8", v::scale(60, 1000), 600);
  histories<B3>("hist-B3", v::scale(60, 1000), 100);
  histories<uint64_t>("hist-u64", v::scale(60, 1000), 100);
  histories<B100>("hist-B100", v::scale(30, 500), 60);
  exact();
  v::require("bulk_cases", 5000);
  v::require("bulk_wrapped", 800);
  v::require("bulk_empty", 1000);
  v::require("bulk_history_ops", 10000);
  v::require("exact_access_cases", 1000);
  return v::finish();
}
