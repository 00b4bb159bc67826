// Common monitor / workload support for all harnesses.  C++11, usable with
// -fno-exceptions -fno-rtti and under every sanitizer.
//
// Every harness is a sequence of sections, each a sequence of cases.  All
// random choices in a case come from a generator seeded with (seed, section,
// case), so any case can be replayed alone (--only section:case).
#pragma once

#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

#include <sys/types.h>
#include <unistd.h>
#include <fcntl.h>

#if defined(__SANITIZE_ADDRESS__)
#define V_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
#define V_ASAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define V_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define V_TSAN 1
#endif
#endif

namespace v {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // inclusive range
  int64_t range(int64_t a, int64_t b) {
    return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
};

inline uint64_t mix(uint64_t h, uint64_t x) {
  h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hash_str(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
  return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 77) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

struct State {
  uint64_t seed;
  bool thorough;
  std::string report;
  std::string distinct_path;
  std::string only_section;
  int64_t only_case;
  int report_fd;
  const char* section;
  int64_t case_no;
  char where[512];
  std::map<std::string, unsigned long long> counters;
  std::map<std::string, unsigned long long> required;
  std::map<std::string, int> violations;
  std::vector<std::string> samples;
  std::set<uint64_t> distinct;
  unsigned long long evaluations;
  int total_violations;
  State()
      : seed(1), thorough(false), only_case(-1), report_fd(1), section("init"),
        case_no(-1), evaluations(0), total_violations(0) {
    where[0] = 0;
  }
};
inline State& st() {
  static State* s = new State;
  return *s;
}

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

inline void emit(const std::string& line) {
  std::string l = line + "\n";
  size_t off = 0;
  while (off < l.size()) {
    ssize_t n = ::write(st().report_fd, l.data() + off, l.size() - off);
    if (n <= 0) break;
    off += static_cast<size_t>(n);
  }
}

extern "C" {
static void v_on_signal(int sig) {
  // Only pre-formatted data and write().
  char buf[1024];
  State& s = st();
  int n = snprintf(buf, sizeof buf,
                   "{\"type\":\"crash\",\"signal\":%d,\"section\":\"%s\","
                   "\"case\":%lld,\"where\":\"%s\"}\n",
                   sig, s.section, static_cast<long long>(s.case_no), s.where);
  if (n > 0) {
    ssize_t r = ::write(s.report_fd, buf, static_cast<size_t>(n));
    (void)r;
  }
  _exit(99);
}
}

inline void at(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(st().where, sizeof st().where, fmt, ap);
  va_end(ap);
  for (char* p = st().where; *p; ++p) {
    if (*p == '"' || *p == '\\' || *p < 32) *p = '\'';
  }
}

inline void count(const char* name, unsigned long long n = 1) {
  st().counters[name] += n;
}
#define V_COUNT(name)                                                          \
  do {                                                                         \
    static unsigned long long& v_counter_ = ::v::st().counters[name];          \
    ++v_counter_;                                                              \
  } while (0)

inline void require(const char* name, unsigned long long n) {
  st().required[name] = n;
}
inline void evaluated(unsigned long long n = 1) { st().evaluations += n; }
inline void distinct(uint64_t h) {
  if (st().distinct.size() < 2000000) st().distinct.insert(h);
}
inline void sample(const std::string& s) {
  if (st().samples.size() < 5) st().samples.push_back(s);
}
inline std::string fmt(const char* f, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

void finish_now();

inline void fail_str(const std::string& key, const std::string& msg) {
  State& s = st();
  ++s.total_violations;
  int& n = s.violations[key];
  if (++n <= 2) {
    emit(fmt("{\"type\":\"violation\",\"key\":\"%s\",\"section\":\"%s\","
             "\"case\":%lld,\"msg\":\"",
             json_escape(key).c_str(), s.section,
             static_cast<long long>(s.case_no)) +
         json_escape(msg.substr(0, 1500)) + "\",\"where\":\"" +
         json_escape(s.where) + "\"}");
  }
  if (s.total_violations >= 400) {
    finish_now();
  }
}
inline void fail(const char* key, const char* f, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  fail_str(key, b);
}

#define V_CHECK(cond, key, ...)                                                \
  do {                                                                         \
    if (!(cond)) ::v::fail(key, __VA_ARGS__);                                  \
  } while (0)

inline void init(int argc, char** argv) {
  State& s = st();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--seed" && i + 1 < argc) {
      s.seed = strtoull(argv[++i], nullptr, 10);
    } else if (a == "--tier" && i + 1 < argc) {
      s.thorough = std::string(argv[++i]) == "thorough";
    } else if (a == "--report" && i + 1 < argc) {
      s.report = argv[++i];
    } else if (a == "--distinct" && i + 1 < argc) {
      s.distinct_path = argv[++i];
    } else if (a == "--only" && i + 1 < argc) {
      std::string o = argv[++i];
      size_t c = o.rfind(':');
      s.only_section = o.substr(0, c);
      s.only_case = c == std::string::npos ? -1 : atoll(o.c_str() + c + 1);
    }
  }
  if (!s.report.empty()) {
    s.report_fd =
        ::open(s.report.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (s.report_fd < 0) {
      perror("report");
      _exit(98);
    }
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = v_on_signal;
  sigemptyset(&sa.sa_mask);
  sigaction(SIGABRT, &sa, nullptr);
#if !defined(V_ASAN) && !defined(V_TSAN)
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  sigaction(SIGFPE, &sa, nullptr);
  sigaction(SIGILL, &sa, nullptr);
#endif
}

// for (v::Cases c("name", n); c.next();) { use c.rng, c.index() }
class Cases {
 public:
  Rng rng;
  Cases(const char* section, int64_t n)
      : rng(1), section_(section), n_(n), i_(-1) {
    skip_ = !st().only_section.empty() && st().only_section != section;
  }
  bool next() {
    State& s = st();
    if (skip_) return false;
    if (s.only_case >= 0 && !s.only_section.empty()) {
      if (i_ >= s.only_case) return false;
      i_ = s.only_case;
    } else {
      ++i_;
    }
    if (i_ >= n_) {
      s.section = "between";
      s.case_no = -1;
      return false;
    }
    rng = Rng(mix(mix(s.seed, hash_str(section_)), static_cast<uint64_t>(i_)));
    s.section = section_;
    s.case_no = i_;
    s.where[0] = 0;
    ++s.evaluations;
    return true;
  }
  int64_t index() const { return i_; }

 private:
  const char* section_;
  int64_t n_;
  int64_t i_;
  bool skip_;
};

inline bool thorough() { return st().thorough; }
inline int64_t scale(int64_t quick, int64_t full) {
  return st().thorough ? full : quick;
}

inline int finish() {
  State& s = st();
  if (!s.distinct_path.empty()) {
    FILE* f = fopen(s.distinct_path.c_str(), "wb");
    if (f) {
      for (std::set<uint64_t>::const_iterator i = s.distinct.begin();
           i != s.distinct.end(); ++i) {
        uint64_t x = *i;
        fwrite(&x, 8, 1, f);
      }
      fclose(f);
    }
  }
  std::string o = fmt("{\"type\":\"stats\",\"evaluations\":%llu,\"violations\":%d,",
                      s.evaluations, s.total_violations);
  o += "\"counters\":{";
  bool first = true;
  for (std::map<std::string, unsigned long long>::const_iterator i =
           s.counters.begin();
       i != s.counters.end(); ++i) {
    o += fmt("%s\"%s\":%llu", first ? "" : ",", i->first.c_str(), i->second);
    first = false;
  }
  o += "},\"unmet\":[";
  first = true;
  if (s.only_section.empty()) {
    for (std::map<std::string, unsigned long long>::const_iterator i =
             s.required.begin();
         i != s.required.end(); ++i) {
      if (s.counters[i->first] < i->second) {
        o += fmt("%s\"%s: %llu < %llu\"", first ? "" : ",", i->first.c_str(),
                 s.counters[i->first], i->second);
        first = false;
      }
    }
  }
  o += "],\"samples\":[";
  for (size_t i = 0; i < s.samples.size(); ++i) {
    o += (i ? ",\"" : "\"") + json_escape(s.samples[i]) + "\"";
  }
  o += "]}";
  emit(o);
  return s.total_violations ? 1 : 0;
}
inline void finish_now() {
  int rc = finish();
  _exit(rc);
}

} // namespace v
