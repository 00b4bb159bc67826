// C10: encoding into bounded memory.
#include "varint_rig.h"
using namespace vr;

static Guarded* mem;

template <class T>
static void rooms(T val) {
  u128 w = wire(val);
  std::vector<uint8_t> ref = reference(w);
  size_t need = ref.size();
  for (size_t room = 0; room <= need + 3; ++room) {
    v::at("%d bit wire value %llx room %zu", bits<T>(), show(w), room);
    bool ok = room >= need;
    {  // flush against the inaccessible page
      uint8_t* e = mem->end();
      uint8_t* b = e - room;
      memset(e - 64, 0xA5, 64);
      uint8_t* r = varint::encode(val, b, e);
      if (r != (ok ? b + need : b)) v::fail(ok ? "refused-with-room" : "accepted-without-room", "room %zu for %zu bytes: returned position %td", room, need, r - b);
      for (uint8_t* p = e - 64; p < b; ++p)
        if (*p != 0xA5) v::fail("write-before", "byte before the buffer changed");
      if (ok) {
        for (uint8_t* p = b + need; p < e; ++p)
          if (*p != 0xA5) v::fail("write-beyond-result", "byte %td behind the returned position changed", p - (b + need));
        if (memcmp(b, ref.data(), need)) v::fail("wrong-bytes", "encoded bytes differ");
        V_COUNT("fitting");
      } else {
        V_COUNT("not_fitting");
      }
    }
    {  // in the middle of other data
      uint8_t buf[64];
      memset(buf, 0x5A, sizeof buf);
      uint8_t* b = buf + 20;
      uint8_t* e = b + room;
      uint8_t* r = varint::encode(val, b, e);
      if (r != (ok ? b + need : b)) v::fail("result", "room %zu for %zu bytes: returned position %td", room, need, r - b);
      for (uint8_t* p = buf; p < buf + sizeof buf; ++p) {
        bool may = p >= b && p < (ok ? b + need : e);
        if (!may && *p != 0x5A) v::fail("write-outside", "byte %td relative to the buffer of %zu changed", p - b, room);
      }
    }
    {  // every write recorded
      uint8_t raw[64];
      Log l;
      l.data = raw;
      l.limit = room;
      RecIt b, e;
      b.log = e.log = &l;
      e.pos = room;
      RecIt r = varint::encode(val, b, e);
      if (l.bad) v::fail("write-past-end", "recorded an access at %zu with room %zu", l.max_access - 1, room);
      if (r.pos != (ok ? need : 0)) v::fail("result", "recording iterator: returned position %zu", r.pos);
      if (ok && l.max_access != need) v::fail("write-count", "recorded accesses up to %zu for %zu bytes", l.max_access, need);
      v::count("recorded_writes", l.accesses);
    }
    v::evaluated();
    v::distinct(v::mix(v::mix(static_cast<uint64_t>(w), room), static_cast<uint64_t>(bits<T>() * 2 + std::is_signed<T>::value)));
  }
  {  // list: the sentinel follows directly
    std::list<uint8_t> li(need ? need - 1 : 0, 7);
    auto r = varint::encode(val, li.begin(), li.end());
    V_CHECK(r == li.begin(), "accepted-without-room", "list iterator: accepted %zu bytes in room %zu", need, need - 1);
    li.push_back(9);
    r = varint::encode(val, li.begin(), li.end());
    V_CHECK(r == li.end() && std::equal(ref.begin(), ref.end(), li.begin()), "result", "list iterator: exact room not used");
  }
  {  // wrapped circular buffer window: the slots outside stay
    uint8_t ring[16];
    memset(ring, 0x33, sizeof ring);
    size_t first = static_cast<size_t>(w) % 16, room = need - 1;
    embedded::circular_buffer_adapter<uint8_t> cb(ring, 16, first, room);
    auto r = varint::encode(val, cb.begin(), cb.end());
    V_CHECK(r == cb.begin(), "accepted-without-room", "circular buffer: accepted %zu bytes in room %zu", need, room);
    for (size_t i = room; i < 16; ++i)
      if (ring[(first + i) % 16] != 0x33) v::fail("write-outside", "circular buffer: slot outside the window changed");
  }
  {  // unbounded: exactly size(value) bytes
    uint8_t* b = mem->end() - need;
    memset(mem->end() - 64, 0xA5, 64);
    uint8_t* r = varint::encode(val, b);
    V_CHECK(r == mem->end() && !memcmp(b, ref.data(), need), "unbounded", "unbounded encoding wrote %td bytes, expected %zu", r - b, need);
    for (uint8_t* p = mem->end() - 64; p < b; ++p)
      if (*p != 0xA5) v::fail("write-before", "unbounded: byte before the buffer changed");
    V_CHECK(varint::size(val) == need, "size", "size() = %zu for %zu bytes", varint::size(val), need);
    std::vector<uint8_t> o(2, 1);
    varint::encode(val, std::back_inserter(o));
    V_CHECK(o.size() == need + 2, "unbounded", "back insertion wrote %zu bytes, expected %zu", o.size() - 2, need);
    V_COUNT("unbounded");
  }
}

struct Run {
  template <class T>
  static void run(const char* name) {
    std::string sec = std::string("rooms-") + name;
    v::Cases c(strdup(sec.c_str()), v::scale(40, 2000));
    while (c.next()) {
      if (c.index() == 0) {
        typedef typename std::make_unsigned<T>::type U;
        for (int b = 0; b < bits<T>(); ++b)
          for (int d = -1; d <= 1; ++d) {
            U u = static_cast<U>(static_cast<U>(static_cast<U>(1) << b) + static_cast<U>(d));
            rooms(static_cast<T>(u));
            rooms(static_cast<T>(static_cast<U>(~u)));
          }
        if (bits<T>() == 8)
          for (int i = 0; i < 256; ++i) rooms(static_cast<T>(i));
      }
      for (int i = 0; i < 25; ++i) rooms(interesting<T>(c.rng));
    }
  }
};

int main(int argc, char** argv) {
  v::init(argc, argv);
  mem = new Guarded(64);
  ForTypes<Run>::all();
  v::sample(v::fmt("%llu encodings with enough and %llu with too little room, all rooms 0..size+3, flush against an inaccessible page", v::st().counters["fitting"], v::st().counters["not_fitting"]));
  v::require("fitting", 40000);
  v::require("not_fitting", 40000);
  v::require("recorded_writes", 100000);
  v::require("unbounded", 10000);
  return v::finish();
}
