// C09: decoding arbitrary bytes.
#include "varint_rig.h"
using namespace vr;

static const size_t kMax = 64;
struct Mem {
  Guarded g;
  uint8_t* at(size_t n) { return g.end() - n; }
  Mem() : g(kMax) {}
};
static Mem* mem;

template <class T>
static void one(const uint8_t* bytes, size_t n) {
  size_t used = 0;
  T want = 0;
  bool ok = ref_decode<T>(bytes, n, used, want);
  uint8_t* p = mem->at(n);  // flush against the inaccessible page
  memcpy(p, bytes, n);
  T got = static_cast<T>(0x55);
  const uint8_t* r = varint::decode(got, static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p + n));
  if (ok) {
    if (r != p + used) v::fail(r == p ? "refused-valid" : "wrong-position", "%d bit %s: valid input returned position %td, expected %zu", bits<T>(), std::is_signed<T>::value ? "signed" : "unsigned", r - p, used);
    else if (got != want) v::fail("wrong-value", "%d bit %s: decoded to wire value %llx, expected %llx", bits<T>(), std::is_signed<T>::value ? "signed" : "unsigned", show(wire(got)), show(wire(want)));
    V_COUNT("accepted");
  } else {
    if (r != p) v::fail("accepted-invalid", "%d bit %s: invalid input of %zu bytes accepted (returned position %td)", bits<T>(), std::is_signed<T>::value ? "signed" : "unsigned", n, r - p);
    V_COUNT("refused");
  }
  v::evaluated();
}
template <class T>
static void recorded(const uint8_t* bytes, size_t n) {
  size_t used = 0;
  T want = 0;
  bool ok = ref_decode<T>(bytes, n, used, want);
  size_t term = 0;
  while (term < n && (bytes[term] & 0x80)) ++term;
  uint8_t copy[kMax];
  memcpy(copy, bytes, n);
  Log l;
  l.data = copy;
  l.limit = n;
  RecIt b, e;
  b.log = e.log = &l;
  e.pos = n;
  T got = 0;
  RecIt r = varint::decode(got, b, e);
  if (l.bad) v::fail("read-past-end", "byte %zu of a %zu byte input was read", l.max_access - 1, n);
  if (l.max_access > term + 1) v::fail("read-past-terminator", "byte %zu was read although the encoding ends at %zu", l.max_access - 1, term);
  if (r.pos != (ok ? used : 0)) v::fail("wrong-position", "recording iterator: returned position %zu, expected %zu", r.pos, ok ? used : 0);
  if (ok && got != want) v::fail("wrong-value", "recording iterator: decoded wire value %llx, expected %llx", show(wire(got)), show(wire(want)));
  if (memcmp(copy, bytes, n)) v::fail("input-modified", "decoding modified its input");
  v::count("recorded_reads", l.accesses);
}
template <template <class> class F>
static void each(const uint8_t* p, size_t n) {
  F<uint8_t>::f(p, n);
  F<int8_t>::f(p, n);
  F<uint16_t>::f(p, n);
  F<int16_t>::f(p, n);
  F<uint32_t>::f(p, n);
  F<int32_t>::f(p, n);
  F<uint64_t>::f(p, n);
  F<int64_t>::f(p, n);
}
template <class T>
struct One { static void f(const uint8_t* p, size_t n) { one<T>(p, n); } };
template <class T>
struct Rec { static void f(const uint8_t* p, size_t n) { recorded<T>(p, n); } };
template <class T>
struct More {
  static void f(const uint8_t* p, size_t n) { one<T>(p, n); recorded<T>(p, n); }
};

static void exhaustive_short() {
  v::Cases c("all-short", 256);
  while (c.next()) {
    uint8_t b[3];
    b[0] = static_cast<uint8_t>(c.index());
    each<More>(b, 0);
    each<More>(b, 1);
    for (int i = 0; i < 256; ++i) {
      b[1] = static_cast<uint8_t>(i);
      v::at("bytes %02x %02x", b[0], b[1]);
      each<More>(b, 2);
      v::distinct(v::hash_bytes(b, 2));
      static const uint8_t third[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x07, 0x08, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0x83, 0x84, 0xff};
      if (v::thorough()) {
        for (int k = 0; k < 256; ++k) {
          b[2] = static_cast<uint8_t>(k);
          each<One>(b, 3);
        }
      } else {
        for (uint8_t t : third) {
          b[2] = t;
          one<uint16_t>(b, 3);
          one<int16_t>(b, 3);
          one<uint32_t>(b, 3);
        }
      }
    }
  }
}
// All-interesting-bytes at the width boundary of each type: every last byte,
// every prefix pattern, every truncation.
static void boundaries() {
  static const uint8_t fill[] = {0x80, 0x81, 0xff, 0xd5, 0xc0};
  v::Cases c("width-boundaries", 5 * 5);
  while (c.next()) {
    uint8_t f0 = fill[c.index() / 5], f1 = fill[c.index() % 5];
    for (size_t len = 1; len <= 12; ++len)
      for (int last = 0; last < 256; ++last) {
        uint8_t b[16];
        for (size_t i = 0; i < len; ++i) b[i] = (i % 2) ? f1 : f0;
        b[len - 1] = static_cast<uint8_t>(last);
        v::at("boundary len=%zu fill %02x %02x last %02x", len, f0, f1, last);
        each<More>(b, len);
        // second-to-last varied as well
        if (len >= 2) {
          b[len - 2] = static_cast<uint8_t>(last | 0x80);
          b[len - 1] = static_cast<uint8_t>(1 << (last % 8));
          each<More>(b, len);
        }
        v::distinct(v::hash_bytes(b, len));
        V_COUNT("boundary_inputs");
      }
  }
}
static void random_bytes() {
  v::Cases c("random", v::scale(400, 30000));
  while (c.next()) {
    v::Rng& g = c.rng;
    for (int k = 0; k < 60; ++k) {
      uint8_t b[40];
      size_t n = g.below(g.chance(1, 4) ? 40 : 13);
      unsigned pcont = static_cast<unsigned>(g.below(5));
      for (size_t i = 0; i < n; ++i) {
        b[i] = static_cast<uint8_t>(g.next());
        if (g.below(4) < pcont) b[i] |= 0x80;
        else b[i] &= 0x7f;
        if (g.chance(1, 6)) b[i] &= 0x80;
      }
      v::at("random n=%zu first %02x", n, n ? b[0] : 0);
      each<More>(b, n);
      v::distinct(v::hash_bytes(b, n, n));
    }
  }
}
// mutations of valid encodings, every truncation point
static void mutated() {
  v::Cases c("mutated", v::scale(1500, 60000));
  while (c.next()) {
    v::Rng& g = c.rng;
    std::vector<uint8_t> b;
    switch (g.below(4)) {
    case 0: b = reference(wire(interesting<uint64_t>(g))); break;
    case 1: b = reference(wire(interesting<int32_t>(g))); break;
    case 2: b = reference(wire(interesting<uint16_t>(g))); break;
    default: b = reference(static_cast<u128>(interesting<uint64_t>(g)) << g.below(20)); break;
    }
    switch (g.below(5)) {
    case 0: b[g.below(b.size())] ^= static_cast<uint8_t>(1u << g.below(8)); break;
    case 1:  // pad with non-minimal zero groups
      b.back() |= 0x80;
      for (uint64_t i = g.below(11); i; --i) b.push_back(0x80);
      b.push_back(0);
      break;
    case 2: b.insert(b.begin() + static_cast<long>(g.below(b.size())), static_cast<uint8_t>(g.next())); break;
    case 3: b.push_back(static_cast<uint8_t>(g.next())); break;
    default: break;
    }
    if (b.size() > 30) b.resize(30);
    for (size_t n = 0; n <= b.size(); ++n) {
      v::at("mutated n=%zu of %zu", n, b.size());
      each<More>(b.data(), n);
      V_COUNT("truncations");
    }
    v::distinct(v::hash_bytes(b.data(), b.size(), 5));
  }
}
// other iterator kinds, including decoding from a wrapped circular buffer
static void containers() {
  v::Cases c("containers", v::scale(1500, 40000));
  while (c.next()) {
    v::Rng& g = c.rng;
    uint8_t b[14];
    size_t n = g.below(14);
    for (size_t i = 0; i < n; ++i) b[i] = static_cast<uint8_t>(g.next() | (g.chance(2, 3) ? 0x80 : 0));
    size_t used = 0;
    uint32_t want = 0;
    bool ok = ref_decode<uint32_t>(b, n, used, want);
    std::forward_list<uint8_t> fl(b, b + n);
    uint32_t got = 0;
    auto r = varint::decode(got, fl.cbegin(), fl.cend());
    V_CHECK(static_cast<size_t>(std::distance(fl.cbegin(), r)) == (ok ? used : 0) && (!ok || got == want), "container", "forward_list input decoded differently");
    uint8_t ring[16];
    size_t first = g.below(16);
    for (size_t i = 0; i < 16; ++i) ring[i] = 0x80;
    for (size_t i = 0; i < n; ++i) ring[(first + i) % 16] = b[i];
    embedded::circular_buffer_adapter<uint8_t> cb(ring, 16, first, n);
    int64_t swant = 0, sgot = 0;
    ok = ref_decode<int64_t>(b, n, used, swant);
    auto q = varint::decode(sgot, cb.begin(), cb.end());
    V_CHECK(static_cast<size_t>(q - cb.begin()) == (ok ? used : 0) && (!ok || sgot == swant), "container", "circular buffer input decoded differently");
    V_COUNT("container_inputs");
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  mem = new Mem;
  exhaustive_short();
  boundaries();
  random_bytes();
  mutated();
  containers();
  v::sample(v::fmt("%llu inputs accepted and %llu refused, each as the bit-level oracle demands, flush against an inaccessible page", v::st().counters["accepted"], v::st().counters["refused"]));
  v::require("accepted", 300000);
  v::require("refused", 300000);
  v::require("boundary_inputs", 70000);
  v::require("truncations", 8000);
  v::require("recorded_reads", 300000);
  return v::finish();
}
