// Shared by the varint monitors: independent reference codec, guarded memory,
// recording iterators.
#pragma once

#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <type_traits>
#include <vector>

#include <sys/mman.h>
#include <unistd.h>

#include <embedded/circular_buffer_adapter.h>
#include <embedded/varint.h>

#include "vharness.h"

using embedded::varint;
typedef unsigned __int128 u128;
typedef __int128 i128;

namespace vr {

template <class T>
constexpr int bits() { return static_cast<int>(sizeof(T)) * 8; }
template <class T>
constexpr size_t max_len() { return static_cast<size_t>((bits<T>() + 6) / 7); }

// the unsigned number that is transmitted for v
template <class T>
u128 wire(T v) {
  if (std::is_signed<T>::value) {
    i128 x = static_cast<i128>(v);
    return x >= 0 ? static_cast<u128>(x) * 2 : static_cast<u128>(-x) * 2 - 1;
  }
  return static_cast<u128>(v);
}
template <class T>
T unwire(u128 w) {
  if (std::is_signed<T>::value) {
    i128 x = (w % 2) ? -static_cast<i128>(w / 2) - 1 : static_cast<i128>(w / 2);
    return static_cast<T>(x);
  }
  return static_cast<T>(w);
}
inline std::vector<uint8_t> reference(u128 w) {
  std::vector<uint8_t> r;
  for (;;) {
    uint8_t low = static_cast<uint8_t>(w % 128);
    w /= 128;
    if (w == 0) {
      r.push_back(low);
      return r;
    }
    r.push_back(static_cast<uint8_t>(low + 128));
  }
}
inline unsigned long long show(u128 w) { return static_cast<unsigned long long>(w); }

// decode oracle
template <class T>
bool ref_decode(const uint8_t* p, size_t n, size_t& used, T& value) {
  size_t t = 0;
  while (t < n && (p[t] & 0x80)) ++t;
  if (t >= n || t >= max_len<T>()) return false;
  u128 w = 0;
  for (size_t i = 0; i <= t; ++i) w |= static_cast<u128>(p[i] & 0x7f) << (7 * i);
  if ((w >> bits<T>()) != 0) return false;
  used = t + 1;
  value = unwire<T>(w);
  return true;
}

// bytes that end (or begin) exactly at an inaccessible page
class Guarded {
 public:
  explicit Guarded(size_t n) {
    size_t ps = static_cast<size_t>(sysconf(_SC_PAGESIZE));
    pages_ = (n + ps - 1) / ps;
    len_ = (pages_ + 2) * ps;
    base_ = static_cast<uint8_t*>(mmap(nullptr, len_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (base_ == MAP_FAILED) _exit(97);
    mprotect(base_, ps, PROT_NONE);
    mprotect(base_ + (pages_ + 1) * ps, ps, PROT_NONE);
    lo_ = base_ + ps;
    hi_ = base_ + (pages_ + 1) * ps;
  }
  ~Guarded() { munmap(base_, len_); }
  Guarded(Guarded const&) = delete;
  uint8_t* end() { return hi_; }
  uint8_t* begin() { return lo_; }

 private:
  uint8_t *base_, *lo_, *hi_;
  size_t pages_, len_;
};

// forward iterator over bytes that records every access
struct Log {
  uint8_t* data;
  size_t limit;  // positions >= limit must never be accessed
  size_t max_access = 0;
  size_t accesses = 0;
  bool bad = false;
  void touch(size_t i) {
    ++accesses;
    if (i >= limit) bad = true;
    if (i + 1 > max_access) max_access = i + 1;
  }
};
struct RecIt {
  typedef std::forward_iterator_tag iterator_category;
  typedef uint8_t value_type;
  typedef std::ptrdiff_t difference_type;
  typedef uint8_t* pointer;
  typedef uint8_t& reference;
  Log* log = nullptr;
  size_t pos = 0;
  static uint8_t& dummy() {
    static uint8_t d;
    d = 0;
    return d;
  }
  uint8_t& operator*() const {
    log->touch(pos);
    return pos < log->limit ? log->data[pos] : dummy();
  }
  RecIt& operator++() {
    ++pos;
    return *this;
  }
  RecIt operator++(int) {
    RecIt t = *this;
    ++pos;
    return t;
  }
  bool operator==(RecIt const& o) const { return pos == o.pos; }
  bool operator!=(RecIt const& o) const { return pos != o.pos; }
};

template <class T>
T interesting(v::Rng& g) {
  typedef typename std::make_unsigned<T>::type U;
  u128 m;
  switch (g.below(6)) {
  case 0:  // around a power of two
    m = (static_cast<u128>(1) << g.below(static_cast<uint64_t>(bits<T>()))) + static_cast<u128>(g.range(-3, 3));
    break;
  case 1:  // around a seven bit boundary
    m = (static_cast<u128>(1) << (7 * g.below(max_len<T>() + 1))) + static_cast<u128>(g.range(-3, 3));
    break;
  case 2:  // few bits set
    m = (static_cast<u128>(1) << g.below(static_cast<uint64_t>(bits<T>()))) | (static_cast<u128>(1) << g.below(static_cast<uint64_t>(bits<T>())));
    break;
  case 3: m = static_cast<u128>(0) - g.below(1000); break;
  default: m = (static_cast<u128>(g.next()) >> g.below(static_cast<uint64_t>(bits<T>()))); break;
  }
  if (g.chance(1, 3)) m = ~m;
  return static_cast<T>(static_cast<U>(m));
}

template <class F>
struct ForTypes {
  static void all() {
    F::template run<uint8_t>("u8");
    F::template run<int8_t>("i8");
    F::template run<char>("char");
    F::template run<uint16_t>("u16");
    F::template run<int16_t>("i16");
    F::template run<char16_t>("char16");
    F::template run<uint32_t>("u32");
    F::template run<int32_t>("i32");
    F::template run<char32_t>("char32");
    F::template run<wchar_t>("wchar");
    F::template run<unsigned long>("ulong");
    F::template run<long>("long");
    F::template run<unsigned long long>("ullong");
    F::template run<long long>("llong");
  }
};
}  // namespace vr
