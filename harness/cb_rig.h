// Workload rig for circular_buffer_adapter: drives one adapter over guarded
// memory next to a std::deque model of value ids.  The monitors of C01..C07
// observe it between operations.
#pragma once
#include <algorithm>
#include <deque>
#include <memory>
#include <numeric>
#include <new>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <embedded/circular_buffer_adapter.h>

#include "vharness.h"

using embedded::circular_buffer_adapter;

struct B3 {
  unsigned char b[3];
};
struct B24 {
  uint64_t a, b, c;
};
struct B100 {
  uint64_t id;
  unsigned char pad[92];
};
struct alignas(64) Over64 {
  uint32_t id;
};

template <class T, class = void>
struct Tr;
template <class T>
struct Tr<T, std::enable_if_t<std::is_integral_v<T>>> {
  static T make(uint64_t id) { return static_cast<T>(id); }
  static uint64_t norm(uint64_t id) {
    return static_cast<uint64_t>(static_cast<std::make_unsigned_t<T>>(id));
  }
  static uint64_t id(T const& t) {
    return static_cast<uint64_t>(static_cast<std::make_unsigned_t<T>>(t));
  }
};
template <>
struct Tr<B3> {
  static B3 make(uint64_t id) {
    return B3{{static_cast<unsigned char>(id), static_cast<unsigned char>(id >> 8),
               static_cast<unsigned char>(id >> 16)}};
  }
  static uint64_t norm(uint64_t id) { return id & 0xffffff; }
  static uint64_t id(B3 const& t) {
    return t.b[0] | t.b[1] << 8 | static_cast<uint64_t>(t.b[2]) << 16;
  }
};
template <>
struct Tr<B24> {
  static B24 make(uint64_t id) { return B24{id, id * 31 + 7, ~id}; }
  static uint64_t norm(uint64_t id) { return id; }
  static uint64_t id(B24 const& t) {
    return t.b == t.a * 31 + 7 && t.c == ~t.a ? t.a : ~0ull;
  }
};
template <>
struct Tr<B100> {
  static B100 make(uint64_t id) {
    B100 b;
    b.id = id;
    for (size_t i = 0; i < sizeof b.pad; ++i)
      b.pad[i] = static_cast<unsigned char>(id * 7 + i);
    return b;
  }
  static uint64_t norm(uint64_t id) { return id; }
  static uint64_t id(B100 const& t) {
    for (size_t i = 0; i < sizeof t.pad; ++i)
      if (t.pad[i] != static_cast<unsigned char>(t.id * 7 + i)) return ~0ull;
    return t.id;
  }
};
template <>
struct Tr<Over64> {
  static Over64 make(uint64_t id) { return Over64{static_cast<uint32_t>(id)}; }
  static uint64_t norm(uint64_t id) { return static_cast<uint32_t>(id); }
  static uint64_t id(Over64 const& t) {
    return reinterpret_cast<uintptr_t>(&t) % 64 == 0 ? t.id : ~0ull;
  }
};
template <>
struct Tr<std::string> {
  static std::string make(uint64_t id) {
    return id % 3 ? std::to_string(id)
                  : "a rather long string to defeat small buffers " + std::to_string(id);
  }
  static uint64_t norm(uint64_t id) { return id; }
  static uint64_t id(std::string const& t) {
    size_t p = t.rfind(' ');
    return strtoull(t.c_str() + (p == std::string::npos ? 0 : p + 1), nullptr, 10);
  }
};
template <>
struct Tr<std::unique_ptr<uint64_t>> {
  static std::unique_ptr<uint64_t> make(uint64_t id) {
    return std::make_unique<uint64_t>(id);
  }
  static uint64_t norm(uint64_t id) { return id; }
  static uint64_t id(std::unique_ptr<uint64_t> const& t) { return t ? *t : ~0ull; }
};

enum class Op {
  push_back_c,
  push_back_m,
  push_front_c,
  push_front_m,
  emplace_back,
  emplace_front,
  pop_front,
  pop_back,
  pop_front_n,
  pop_back_n,
  clear,
  assign_at,    // buf[i] = v / at / front / back / iterator
  bulk_in_front, // trivial only
  bulk_in_back,
  bulk_out_front,
  bulk_out_back,
  iter_in,
  iter_out,
  n_ops
};
inline const char* op_name(Op o) {
  static const char* const n[] = {
      "push_back(const&)", "push_back(&&)",  "push_front(const&)", "push_front(&&)",
      "emplace_back",      "emplace_front",  "pop_front()",        "pop_back()",
      "pop_front(n)",      "pop_back(n)",    "clear",              "assign",
      "copy_in_front",     "copy_in_back",   "copy_out_front",     "copy_out_back",
      "copy_in(it,it)",    "copy_out(it,it)"};
  return n[static_cast<int>(o)];
}

template <class T>
inline constexpr bool copyable = std::is_copy_constructible_v<T>;
template <class T>
inline constexpr bool bulk = std::is_trivial_v<T>;

// raw memory for cap elements, exactly sized so that ASan sees any overrun
template <class T>
struct Mem {
  size_t cap;
  T* p;
  explicit Mem(size_t c) : cap(c) {
    p = static_cast<T*>(::operator new(c * sizeof(T) + (c == 0), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T))));
    memset(static_cast<void*>(p), 0xA5, c * sizeof(T));
  }
  ~Mem() {
    ::operator delete(p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
  }
  Mem(Mem const&) = delete;
  Mem& operator=(Mem const&) = delete;
};

template <class T>
struct Rig {
  using Buf = circular_buffer_adapter<T>;
  T* mem;
  size_t cap;
  std::optional<Buf> buf;
  std::deque<uint64_t> model;
  size_t fs = 0;  // slot of element 0 while non-empty
  uint64_t next_id = 1;
  bool own_cleanup = true;

  // constructs `count` elements at slots first.. and attaches an adapter
  Rig(T* m, size_t c, size_t first, size_t count, int ctor) : mem(m), cap(c) {
    for (size_t i = 0; i < count; ++i) {
      uint64_t id = fresh();
      new (static_cast<void*>(mem + (first + i) % cap)) T(Tr<T>::make(id));
      model.push_back(Tr<T>::norm(id));
    }
    fs = cap ? first % cap : 0;
    attach(first, count, ctor);
  }
  ~Rig() {
    if (own_cleanup && !std::is_trivially_destructible_v<T>) {
      for (size_t i = 0; i < model.size(); ++i) slot(i)->~T();
    }
  }
  void attach(size_t first, size_t count, int ctor) {
    buf.reset();
    if (first == 0 && count == 0 && (ctor & 2)) {
      if (ctor & 1) {
        buf.emplace(mem, cap);
      } else {
        buf.emplace(mem, mem + cap);
      }
    } else if (ctor & 1) {
      buf.emplace(mem, cap, first, count);
    } else {
      buf.emplace(mem, mem + cap, mem + first, count);
    }
    if (ctor & 4) {  // default + move assignment
      Buf tmp;
      tmp = std::move(*buf);
      buf.reset();
      buf.emplace(std::move(tmp));
    }
  }
  uint64_t fresh() { return next_id++; }
  T* slot(size_t i) const { return mem + (fs + i) % cap; }
  size_t size() const { return model.size(); }
  size_t room() const { return cap - model.size(); }

  bool possible(Op o) const {
    switch (o) {
    case Op::push_back_c:
    case Op::push_front_c: return copyable<T> && room() > 0;
    case Op::push_back_m:
    case Op::push_front_m:
    case Op::emplace_back:
    case Op::emplace_front: return room() > 0;
    case Op::pop_front:
    case Op::pop_back:
    case Op::assign_at: return size() > 0;
    case Op::pop_front_n:
    case Op::pop_back_n:
    case Op::clear: return true;
    default: return bulk<T>;
    }
  }
  // largest admissible argument of an op (number of elements)
  size_t max_arg(Op o) const {
    switch (o) {
    case Op::pop_front_n:
    case Op::pop_back_n:
    case Op::bulk_out_front:
    case Op::bulk_out_back:
    case Op::iter_in:
    case Op::iter_out: return size();
    case Op::bulk_in_front:
    case Op::bulk_in_back: return room();
    case Op::assign_at: return size() ? size() - 1 : 0;
    default: return 0;
    }
  }

  void placed_front() {
    if (model.size() == 1) {
      fs = static_cast<size_t>(&buf->front() - mem);
    } else {
      fs = (fs + cap - 1) % cap;
    }
  }
  void placed_back() {
    if (model.size() == 1) fs = static_cast<size_t>(&buf->front() - mem);
  }

  // arg: count (or index); off: offset of an iterator range or variant choice
  void apply(Op o, size_t arg, size_t off) {
    Buf& b = *buf;
    switch (o) {
    case Op::push_back_c:
      if constexpr (copyable<T>) {
        uint64_t id = fresh();
        T const v = Tr<T>::make(id);
        b.push_back(v);
        model.push_back(Tr<T>::norm(id));
        V_CHECK(Tr<T>::id(v) == Tr<T>::norm(id), "push_back-source", "push_back changed its const source");
        placed_back();
      }
      break;
    case Op::push_back_m: {
      uint64_t id = fresh();
      T v = Tr<T>::make(id);
      b.push_back(std::move(v));
      model.push_back(Tr<T>::norm(id));
      placed_back();
      break;
    }
    case Op::push_front_c:
      if constexpr (copyable<T>) {
        uint64_t id = fresh();
        T const v = Tr<T>::make(id);
        b.push_front(v);
        model.push_front(Tr<T>::norm(id));
        V_CHECK(Tr<T>::id(v) == Tr<T>::norm(id), "push_front-source", "push_front changed its const source");
        placed_front();
      }
      break;
    case Op::push_front_m: {
      uint64_t id = fresh();
      T v = Tr<T>::make(id);
      b.push_front(std::move(v));
      model.push_front(Tr<T>::norm(id));
      placed_front();
      break;
    }
    case Op::emplace_back: {
      uint64_t id = fresh();
      T& r = b.emplace_back(Tr<T>::make(id));
      model.push_back(Tr<T>::norm(id));
      V_CHECK(&r == &b.back(), "emplace_back-ref", "emplace_back returned %p, back is %p", (void*)&r, (void*)&b.back());
      V_CHECK(Tr<T>::id(r) == Tr<T>::norm(id), "emplace_back-value", "emplace_back reference has wrong value");
      placed_back();
      break;
    }
    case Op::emplace_front: {
      uint64_t id = fresh();
      T& r = b.emplace_front(Tr<T>::make(id));
      model.push_front(Tr<T>::norm(id));
      V_CHECK(&r == &b.front(), "emplace_front-ref", "emplace_front returned %p, front is %p", (void*)&r, (void*)&b.front());
      V_CHECK(Tr<T>::id(r) == Tr<T>::norm(id), "emplace_front-value", "emplace_front reference has wrong value");
      placed_front();
      break;
    }
    case Op::pop_front:
      b.pop_front();
      model.pop_front();
      fs = (fs + 1) % cap;
      break;
    case Op::pop_back:
      b.pop_back();
      model.pop_back();
      break;
    case Op::pop_front_n:
      b.pop_front(arg);
      model.erase(model.begin(), model.begin() + static_cast<long>(arg));
      fs = cap ? (fs + arg) % cap : 0;
      break;
    case Op::pop_back_n:
      b.pop_back(arg);
      model.erase(model.end() - static_cast<long>(arg), model.end());
      break;
    case Op::clear:
      b.clear();
      model.clear();
      break;
    case Op::assign_at: {
      uint64_t id = fresh();
      T v = Tr<T>::make(id);
      size_t i = arg;
      switch (off % 6) {
      case 0: b[i] = std::move(v); break;
      case 1: b.at(i) = std::move(v); break;
      case 2: *(b.begin() + static_cast<long>(i)) = std::move(v); break;
      case 3: b.rbegin()[static_cast<long>(size() - 1 - i)] = std::move(v); break;
      case 4:
        if (i == 0) {
          b.front() = std::move(v);
        } else {
          *(b.end() - static_cast<long>(size() - i)) = std::move(v);
        }
        break;
      default:
        if (i + 1 == size()) {
          b.back() = std::move(v);
        } else {
          b.begin()[static_cast<long>(i)] = std::move(v);
        }
        break;
      }
      model[i] = Tr<T>::norm(id);
      break;
    }
    default:
      if constexpr (bulk<T>) apply_bulk(o, arg, off);
      break;
    }
  }

  void apply_bulk(Op o, size_t arg, size_t off) {
    Buf& b = *buf;
    // exactly sized external array
    std::unique_ptr<T[]> ext(new T[arg]);
    switch (o) {
    case Op::bulk_in_front:
    case Op::bulk_in_back: {
      std::vector<uint64_t> ids;
      for (size_t i = 0; i < arg; ++i) {
        ids.push_back(Tr<T>::norm(next_id));
        ext[i] = Tr<T>::make(fresh());
      }
      bool was_empty = model.empty();
      if (o == Op::bulk_in_front) {
        b.copy_in_front(static_cast<T const*>(ext.get()), arg);
        model.insert(model.begin(), ids.begin(), ids.end());
        if (!was_empty && arg) fs = (fs + cap - arg) % cap;
      } else {
        b.copy_in_back(static_cast<T const*>(ext.get()), arg);
        model.insert(model.end(), ids.begin(), ids.end());
      }
      if (was_empty && arg) fs = static_cast<size_t>(&b.front() - mem);
      for (size_t i = 0; i < arg; ++i)
        V_CHECK(Tr<T>::id(ext[i]) == ids[i], "bulk-source", "copy_in changed its source at %zu", i);
      break;
    }
    case Op::bulk_out_front: {
      b.copy_out_front(ext.get(), arg);
      for (size_t i = 0; i < arg; ++i)
        V_CHECK(Tr<T>::id(ext[i]) == model[i], "copy_out_front", "copy_out_front(%zu) of %zu: element %zu is %llu, expected %llu", arg, model.size(), i, (unsigned long long)Tr<T>::id(ext[i]), (unsigned long long)model[i]);
      model.erase(model.begin(), model.begin() + static_cast<long>(arg));
      fs = cap ? (fs + arg) % cap : 0;
      break;
    }
    case Op::bulk_out_back: {
      b.copy_out_back(ext.get(), arg);
      size_t base = model.size() - arg;
      for (size_t i = 0; i < arg; ++i)
        V_CHECK(Tr<T>::id(ext[i]) == model[base + i], "copy_out_back", "copy_out_back(%zu) of %zu: element %zu is %llu, expected %llu", arg, model.size(), i, (unsigned long long)Tr<T>::id(ext[i]), (unsigned long long)model[base + i]);
      model.erase(model.begin() + static_cast<long>(base), model.end());
      break;
    }
    case Op::iter_in: {
      size_t at = model.size() - arg ? off % (model.size() - arg + 1) : 0;
      for (size_t i = 0; i < arg; ++i) {
        model[at + i] = Tr<T>::norm(next_id);
        ext[i] = Tr<T>::make(fresh());
      }
      auto first = b.begin() + static_cast<long>(at);
      auto last = first + static_cast<long>(arg);
      b.copy_in(first, last, static_cast<T const*>(ext.get()));
      break;
    }
    case Op::iter_out: {
      size_t at = model.size() - arg ? off % (model.size() - arg + 1) : 0;
      auto first = b.cbegin() + static_cast<long>(at);
      auto last = first + static_cast<long>(arg);
      if (off & 64) {
        b.copy_out(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + arg), ext.get());
      } else {
        b.copy_out(first, last, ext.get());
      }
      for (size_t i = 0; i < arg; ++i)
        V_CHECK(Tr<T>::id(ext[i]) == model[at + i], "copy_out-range", "copy_out of [%zu,%zu): element %zu is wrong", at, at + arg, i);
      break;
    }
    default: break;
    }
  }

  // full observation through the public interface
  void observe(const char* ctx) { observe_buf(*buf, ctx); }
  void observe_buf(Buf const& b, const char* ctx) {
    size_t n = model.size();
    V_CHECK(b.size() == n, "size", "%s: size %zu, expected %zu", ctx, (size_t)b.size(), n);
    V_CHECK(b.empty() == (n == 0), "empty", "%s: empty() wrong at size %zu", ctx, n);
    V_CHECK(b.full() == (n == cap), "full", "%s: full() wrong at size %zu of %zu", ctx, n, cap);
    V_CHECK(b.capacity() == cap, "capacity", "%s: capacity %zu, expected %zu", ctx, (size_t)b.capacity(), cap);
    V_CHECK(b.remaining() == cap - n, "remaining", "%s: remaining %zu, expected %zu", ctx, (size_t)b.remaining(), cap - n);
    if (b.size() != n) return;
    if (n) {
      V_CHECK(Tr<T>::id(b.front()) == model.front(), "front", "%s: front is %llu, expected %llu", ctx, (unsigned long long)Tr<T>::id(b.front()), (unsigned long long)model.front());
      V_CHECK(Tr<T>::id(b.back()) == model.back(), "back", "%s: back is %llu, expected %llu", ctx, (unsigned long long)Tr<T>::id(b.back()), (unsigned long long)model.back());
    }
    for (size_t i = 0; i < n; ++i) {
      V_CHECK(Tr<T>::id(b[i]) == model[i], "index", "%s: [%zu] is %llu, expected %llu", ctx, i, (unsigned long long)Tr<T>::id(b[i]), (unsigned long long)model[i]);
      V_CHECK(&b.at(i) == &b[i], "at", "%s: at(%zu) differs from [%zu]", ctx, i, i);
    }
    size_t k = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++k) {
      if (k >= n) {
        v::fail("iteration-length", "%s: forward iteration does not end after %zu elements", ctx, n);
        return;
      }
      V_CHECK(Tr<T>::id(*it) == model[k], "iteration", "%s: iteration element %zu wrong", ctx, k);
    }
    V_CHECK(k == n, "iteration-length", "%s: iteration visited %zu of %zu", ctx, k, n);
    k = 0;
    for (auto it = b.cbegin(); it != b.cend() && k <= n; ++it, ++k)
      if (k < n) V_CHECK(Tr<T>::id(*it) == model[k], "const-iteration", "%s: const iteration element %zu wrong", ctx, k);
    V_CHECK(k == n, "const-iteration-length", "%s: const iteration visited %zu of %zu", ctx, k, n);
    k = 0;
    for (auto it = b.rbegin(); it != b.rend() && k <= n; ++it, ++k)
      if (k < n) V_CHECK(Tr<T>::id(*it) == model[n - 1 - k], "reverse-iteration", "%s: reverse iteration element %zu wrong", ctx, k);
    V_CHECK(k == n, "reverse-iteration-length", "%s: reverse iteration visited %zu of %zu", ctx, k, n);
    k = 0;
    for (auto it = b.crbegin(); it != b.crend() && k <= n; ++it, ++k)
      if (k < n) V_CHECK(Tr<T>::id(*it) == model[n - 1 - k], "const-reverse-iteration", "%s: const reverse iteration element %zu wrong", ctx, k);
    V_CHECK(k == n, "const-reverse-iteration-length", "%s: const reverse iteration visited %zu of %zu", ctx, k, n);
  }

  uint64_t state_hash() const {
    return v::mix(v::mix(v::mix(cap, fs), model.size()), sizeof(T) * 8 + std::is_trivial_v<T>);
  }
};

template <class T>
constexpr const char* type_name() {
  if constexpr (std::is_same_v<T, uint8_t>) return "u8";
  else if constexpr (std::is_same_v<T, int16_t>) return "i16";
  else if constexpr (std::is_same_v<T, int>) return "int";
  else if constexpr (std::is_same_v<T, uint64_t>) return "u64";
  else if constexpr (std::is_same_v<T, B3>) return "B3";
  else if constexpr (std::is_same_v<T, B24>) return "B24";
  else if constexpr (std::is_same_v<T, B100>) return "B100";
  else if constexpr (std::is_same_v<T, Over64>) return "Over64";
  else if constexpr (std::is_same_v<T, std::string>) return "string";
  else if constexpr (std::is_same_v<T, std::unique_ptr<uint64_t>>) return "unique_ptr";
  else return "T";
}

inline Op random_op(v::Rng& r, int phase) {
  // phase 0 balanced, 1 filling, 2 draining, 3 FIFO, 4 reverse FIFO, 5 bulk
  static const std::vector<Op> all = [] {
    std::vector<Op> v;
    for (int i = 0; i < static_cast<int>(Op::n_ops); ++i) v.push_back(static_cast<Op>(i));
    return v;
  }();
  static const std::vector<Op> fill = {Op::push_back_c, Op::push_back_m, Op::push_front_c, Op::push_front_m, Op::emplace_back, Op::emplace_front, Op::bulk_in_back, Op::bulk_in_front, Op::assign_at, Op::pop_front};
  static const std::vector<Op> drain = {Op::pop_front, Op::pop_back, Op::pop_front_n, Op::pop_back_n, Op::bulk_out_back, Op::bulk_out_front, Op::push_back_m, Op::iter_out};
  static const std::vector<Op> fifo = {Op::push_back_c, Op::push_back_m, Op::emplace_back, Op::bulk_in_back, Op::pop_front, Op::pop_front, Op::bulk_out_front};
  static const std::vector<Op> rfifo = {Op::push_front_c, Op::push_front_m, Op::emplace_front, Op::bulk_in_front, Op::pop_back, Op::pop_back, Op::bulk_out_back};
  static const std::vector<Op> blk = {Op::bulk_in_front, Op::bulk_in_back, Op::bulk_out_back, Op::bulk_out_front, Op::iter_in, Op::iter_out};
  const std::vector<Op>* s = &all;
  switch (phase) {
  case 1: s = &fill; break;
  case 2: s = &drain; break;
  case 3: s = &fifo; break;
  case 4: s = &rfifo; break;
  case 5: s = &blk; break;
  default: break;
  }
  return (*s)[r.below(s->size())];
}
