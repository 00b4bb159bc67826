// C08: the format is exactly the minimal base-128 / zig-zag format and
// round-trips, for every value, type, overload and iterator.
#include "varint_rig.h"
using namespace vr;

template <class T>
static bool constexpr_ok() {
  constexpr size_t a = varint::size(static_cast<T>(0));
  constexpr size_t b = varint::size(static_cast<T>(63));
  constexpr size_t c = varint::size(static_cast<T>(64));
  return a == 1 && b == 1 && c == (std::is_signed<T>::value ? 2u : 1u);
}

// fast check: pointer, bounded and unbounded
template <class T>
static void quick_value(T val) {
  u128 w = wire(val);
  uint8_t ref[20];
  size_t n = 0;
  for (u128 x = w;;) {
    uint8_t low = static_cast<uint8_t>(x % 128);
    x /= 128;
    ref[n++] = static_cast<uint8_t>(x ? low | 128 : low);
    if (!x) break;
  }
  uint8_t out[32];
  memset(out, 0xcd, sizeof out);
  if (varint::size(val) != n) v::fail("size", "size(%llx on the wire) = %zu, expected %zu", show(w), varint::size(val), n);
  uint8_t* e = varint::encode(val, out, out + max_len<T>());
  if (e != out + n || memcmp(out, ref, n)) v::fail("encode-bounded", "encoding of wire value %llx is wrong (length %td, expected %zu)", show(w), e - out, n);
  memset(out, 0xcd, sizeof out);
  e = varint::encode(val, static_cast<uint8_t*>(out));
  if (e != out + n || memcmp(out, ref, n)) v::fail("encode-unbounded", "encoding of wire value %llx is wrong (length %td, expected %zu)", show(w), e - out, n);
  T back = static_cast<T>(~val);
  const uint8_t* r = varint::decode(back, static_cast<const uint8_t*>(ref), static_cast<const uint8_t*>(ref + n));
  if (r != ref + n) v::fail("decode-position", "decoding wire value %llx stopped at %td of %zu", show(w), r - ref, n);
  if (back != val) v::fail("decode-value", "wire value %llx decoded to wire value %llx", show(w), show(wire(back)));
  v::evaluated();
  V_COUNT("round_trips");
}

template <class T, bool S>
struct Zig {
  static void check(T val) {
    typedef typename std::make_unsigned<T>::type U;
    U z = varint::zig_zag_encode(val);
    if (static_cast<u128>(z) != wire(val)) v::fail("zigzag-encode", "zig-zag of %lld is %llu", static_cast<long long>(val), static_cast<unsigned long long>(z));
    // the library maps back to the signed type of the unsigned representation
    if (static_cast<T>(varint::zig_zag_decode(z)) != val) v::fail("zigzag-decode", "zig-zag inverse of %llu is %lld", static_cast<unsigned long long>(z), static_cast<long long>(varint::zig_zag_decode(z)));
    V_COUNT("zigzag_inversions");
  }
};
template <class T>
struct Zig<T, false> {
  static void check(T val) {
    typedef typename std::make_signed<T>::type SS;
    SS s = varint::zig_zag_decode(val);
    if (wire(s) != static_cast<u128>(val)) v::fail("zigzag-decode", "zig-zag inverse of %llu is %lld", static_cast<unsigned long long>(val), static_cast<long long>(s));
    if (static_cast<u128>(varint::zig_zag_encode(s)) != static_cast<u128>(val)) v::fail("zigzag-bijection", "zig-zag of the inverse of %llu differs", static_cast<unsigned long long>(val));
    V_COUNT("zigzag_inversions");
  }
};
// char16_t etc.: zig_zag_decode of their own type only for ordinary integers
template <class T>
static void zig(T val) { Zig<T, std::is_signed<T>::value>::check(val); }

template <class C, class T>
static void via_container(const char* kind, T val, std::vector<uint8_t> const& ref) {
  C c(max_len<T>(), 0xab);
  auto e = varint::encode(val, c.begin(), c.end());
  auto n = std::distance(c.begin(), e);
  if (static_cast<size_t>(n) != ref.size() || !std::equal(ref.begin(), ref.end(), c.begin())) v::fail("iterator-kind", "%s: encoding of wire value %llx differs", kind, show(wire(val)));
  C d(max_len<T>(), 0xab);
  auto e2 = varint::encode(val, d.begin());
  if (static_cast<size_t>(std::distance(d.begin(), e2)) != ref.size() || d != c) v::fail("iterator-kind", "%s: unbounded encoding of wire value %llx differs", kind, show(wire(val)));
  T back = 0;
  const C& cc = c;
  auto r = varint::decode(back, cc.begin(), cc.end());
  if (back != val || static_cast<size_t>(std::distance(cc.begin(), r)) != ref.size()) v::fail("iterator-kind", "%s: decoding of wire value %llx differs", kind, show(wire(val)));
  V_COUNT("iterator_kinds");
}

// decoding with other types of the same signedness
template <class T, class D>
static void cross(T val, std::vector<uint8_t> const& ref) {
  if (std::is_signed<T>::value != std::is_signed<D>::value) return;
  bool fits = (wire(val) >> bits<D>()) == 0;
  D d = 0;
  auto r = varint::decode(d, ref.begin(), ref.end());
  if (fits) {
    if (r != ref.end() || wire(d) != wire(val)) v::fail("cross-type", "wire value %llx of a %d bit type does not decode as a %d bit type", show(wire(val)), bits<T>(), bits<D>());
    V_COUNT("cross_type_accepted");
  } else {
    if (r != ref.begin()) v::fail("cross-type", "wire value %llx of a %d bit type decodes as a %d bit type although too wide", show(wire(val)), bits<T>(), bits<D>());
    V_COUNT("cross_type_refused");
  }
}

template <class T>
static void full_value(T val, v::Rng& g) {
  quick_value(val);
  zig(val);
  std::vector<uint8_t> ref = reference(wire(val));
  {
    std::vector<uint8_t> o;
    varint::encode(val, std::back_inserter(o));
    if (o != ref) v::fail("back-insert", "back-inserting encoding of wire value %llx differs", show(wire(val)));
    std::deque<uint8_t> q(3, 1);
    varint::encode(val, std::back_inserter(q));
    if (q.size() != 3 + ref.size() || !std::equal(ref.begin(), ref.end(), q.begin() + 3)) v::fail("back-insert", "back-inserting encoding of wire value %llx into a deque differs", show(wire(val)));
  }
  via_container<std::vector<uint8_t>>("vector", val, ref);
  via_container<std::deque<uint8_t>>("deque", val, ref);
  via_container<std::list<uint8_t>>("list", val, ref);
  via_container<std::forward_list<uint8_t>>("forward_list", val, ref);
  {  // recording iterator
    uint8_t raw[24];
    Log l;
    l.data = raw;
    l.limit = max_len<T>();
    RecIt b, e;
    b.log = e.log = &l;
    e.pos = max_len<T>();
    RecIt r = varint::encode(val, b, e);
    if (l.bad || r.pos != ref.size() || l.max_access != ref.size() || memcmp(raw, ref.data(), ref.size())) v::fail("iterator-kind", "recording iterator: encoding of wire value %llx differs", show(wire(val)));
    T back = 0;
    r = varint::decode(back, b, e);
    if (l.bad || r.pos != ref.size() || back != val) v::fail("iterator-kind", "recording iterator: decoding of wire value %llx differs", show(wire(val)));
  }
  {  // through a circular buffer whose window wraps
    uint8_t mem[24];
    memset(mem, 0, sizeof mem);
    size_t first = g.below(24);
    embedded::circular_buffer_adapter<uint8_t> cb(mem, sizeof mem, first, max_len<T>());
    auto e = varint::encode(val, cb.begin(), cb.end());
    if (static_cast<size_t>(e - cb.begin()) != ref.size()) v::fail("iterator-kind", "circular buffer: encoded length differs");
    for (size_t i = 0; i < ref.size(); ++i)
      if (mem[(first + i) % 24] != ref[i]) v::fail("iterator-kind", "circular buffer: encoded bytes differ");
    T back = 0;
    auto r = varint::decode(back, cb.begin(), cb.end());
    if (back != val || static_cast<size_t>(r - cb.begin()) != ref.size()) v::fail("iterator-kind", "circular buffer: decoding differs");
    while (!cb.empty()) cb.pop_front();
    varint::encode(val, std::back_inserter(cb));
    if (cb.size() != ref.size() || !std::equal(ref.begin(), ref.end(), cb.begin())) v::fail("back-insert", "back-inserting into a circular buffer differs");
  }
  cross<T, uint8_t>(val, ref);
  cross<T, uint16_t>(val, ref);
  cross<T, uint32_t>(val, ref);
  cross<T, uint64_t>(val, ref);
  cross<T, int8_t>(val, ref);
  cross<T, int16_t>(val, ref);
  cross<T, int32_t>(val, ref);
  cross<T, int64_t>(val, ref);
  v::distinct(v::mix(static_cast<uint64_t>(wire(val)), static_cast<uint64_t>(bits<T>() * 2 + std::is_signed<T>::value)));
}

struct Exhaustive {
  template <class T>
  static void run(const char* name) {
    std::string sec = std::string("all-") + name;
    if (!constexpr_ok<T>()) v::fail("size-constexpr", "size() of small values wrong at compile time");
    if (bits<T>() > 16) return;
    int64_t n = static_cast<int64_t>(1) << bits<T>();
    int64_t block = 256;
    v::Cases c(strdup(sec.c_str()), n / block);
    while (c.next()) {
      for (int64_t i = 0; i < block; ++i) {
        T val = static_cast<T>(c.index() * block + i);
        v::at("%s value %lld", name, static_cast<long long>(val));
        if (bits<T>() == 8 || i % 16 == c.index() % 16) full_value(val, c.rng);
        else {
          quick_value(val);
          zig(val);
          v::distinct(v::mix(static_cast<uint64_t>(wire(val)), static_cast<uint64_t>(bits<T>() * 2 + std::is_signed<T>::value)));
        }
        V_COUNT("exhaustive_values");
      }
    }
  }
};
struct Sampled {
  template <class T>
  static void run(const char* name) {
    std::string sec = std::string("sampled-") + name;
    v::Cases c(strdup(sec.c_str()), v::scale(30, 600));
    while (c.next()) {
      for (int i = 0; i < 100; ++i) {
        T val = interesting<T>(c.rng);
        v::at("%s value %lld", name, static_cast<long long>(val));
        full_value(val, c.rng);
        V_COUNT("sampled_values");
      }
      // every power of two and its neighbours
      if (c.index() == 0)
        for (int b = 0; b < bits<T>(); ++b)
          for (int d = -2; d <= 2; ++d) {
            typedef typename std::make_unsigned<T>::type U;
            U u = static_cast<U>(static_cast<U>(static_cast<U>(1) << b) + static_cast<U>(d));
            full_value(static_cast<T>(u), c.rng);
            full_value(static_cast<T>(static_cast<U>(~u)), c.rng);
          }
    }
  }
};

struct Item {
  int type;
  uint64_t raw;
};
template <class T>
static void put(std::vector<uint8_t>& o, uint64_t raw) { varint::encode(static_cast<T>(raw), std::back_inserter(o)); }
template <class T, class It>
static It get(It b, It e, uint64_t raw, size_t i) {
  T val = 0;
  It r = varint::decode(val, b, e);
  if (r == b) v::fail("sequence", "item %zu of a concatenation does not decode", i);
  else if (val != static_cast<T>(raw)) v::fail("sequence", "item %zu of a concatenation decodes to %lld, expected %lld", i, static_cast<long long>(val), static_cast<long long>(static_cast<T>(raw)));
  V_COUNT("sequence_items");
  return r;
}
static void sequences() {
  v::Cases c("sequences", v::scale(300, 20000));
  while (c.next()) {
    v::Rng& g = c.rng;
    std::vector<Item> items;
    std::vector<uint8_t> buf;
    size_t n = 1 + g.below(60);
    for (size_t i = 0; i < n; ++i) {
      Item it;
      it.type = static_cast<int>(g.below(8));
      it.raw = static_cast<uint64_t>(interesting<uint64_t>(g));
      items.push_back(it);
      switch (it.type) {
      case 0: put<uint8_t>(buf, it.raw); break;
      case 1: put<int8_t>(buf, it.raw); break;
      case 2: put<uint16_t>(buf, it.raw); break;
      case 3: put<int16_t>(buf, it.raw); break;
      case 4: put<uint32_t>(buf, it.raw); break;
      case 5: put<int32_t>(buf, it.raw); break;
      case 6: put<uint64_t>(buf, it.raw); break;
      default: put<int64_t>(buf, it.raw); break;
      }
    }
    auto b = buf.cbegin(), e = buf.cend();
    for (size_t i = 0; i < n; ++i) {
      uint64_t raw = items[i].raw;
      auto before = b;
      switch (items[i].type) {
      case 0: b = get<uint8_t>(b, e, raw, i); break;
      case 1: b = get<int8_t>(b, e, raw, i); break;
      case 2: b = get<uint16_t>(b, e, raw, i); break;
      case 3: b = get<int16_t>(b, e, raw, i); break;
      case 4: b = get<uint32_t>(b, e, raw, i); break;
      case 5: b = get<int32_t>(b, e, raw, i); break;
      case 6: b = get<uint64_t>(b, e, raw, i); break;
      default: b = get<int64_t>(b, e, raw, i); break;
      }
      if (b == before) break;
    }
    if (b != e) v::fail("sequence", "concatenation of %zu items not consumed completely", n);
    v::distinct(v::hash_bytes(buf.data(), buf.size()));
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  ForTypes<Exhaustive>::all();
  ForTypes<Sampled>::all();
  sequences();
#ifdef FULL32
  if (v::thorough()) {
    v::Cases c("all-32-bit", 4096);
    while (c.next())
      for (uint64_t i = 0; i < (1u << 20); ++i) {
        uint32_t x = static_cast<uint32_t>(static_cast<uint64_t>(c.index()) << 20 | i);
        quick_value(x);
        quick_value(static_cast<int32_t>(x));
      }
  }
#endif
  v::sample("every value of the 8- and 16-bit types through size, bounded/unbounded/back-insert encode and decode; wider types around every power of two and 7-bit boundary");
  v::sample(v::fmt("%llu encode/decode round trips compared with a division-based reference codec", v::st().counters["round_trips"]));
  v::require("round_trips", 230000);
  v::require("exhaustive_values", 197000);
  v::require("zigzag_inversions", 100000);
  v::require("sequence_items", 5000);
  v::require("cross_type_accepted", 50000);
  v::require("cross_type_refused", 10000);
  return v::finish();
}
