// C26: instances are independent, designs immutable and shareable.
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>

#include <sys/mman.h>

#include <atomic>
#include <memory>
#include <new>
#include <thread>

#include "vharness.h"

namespace es = embedded::signal;

// type-erased instance
struct Any {
  virtual ~Any() {}
  virtual double step(double x) = 0;
  virtual std::unique_ptr<Any> copy() const = 0;
};
template <typename I>
struct Model : Any {
  I inst;
  explicit Model(I const& i) : inst(i) {}
  double step(double x) override { return static_cast<double>(inst(static_cast<typename I::value_type>(x))); }
  std::unique_ptr<Any> copy() const override { return std::unique_ptr<Any>(new Model(*this)); }
};

// type-erased design placed in its own pages, which can be write-protected
struct Design {
  virtual ~Design() {}
  virtual std::unique_ptr<Any> make() const = 0;
  virtual double coefficients() const = 0;
  virtual void protect() = 0;
  virtual uint64_t bytes() const = 0;
  virtual char const* name() const = 0;
};
template <typename F, std::size_t N>
static double sum(es::poly_design<F, N> const& d) {
  double s = 0;
  auto b = d.b();
  auto a = d.a();
  for (std::size_t i = 0; i <= N; ++i) s = s * 1.37 + static_cast<double>(b[i]) + 3 * static_cast<double>(a[i]);
  return s;
}
template <typename F, std::size_t N>
static double sum(es::sos_design<F, N> const& d) {
  double s = 0;
  for (std::size_t i = 0; i < d.size(); ++i)
    for (std::size_t j = 0; j < 3; ++j) s = s * 1.37 + static_cast<double>(d.sos()[i].b()[j]) + 3 * static_cast<double>(d.sos()[i].a()[j]);
  return s;
}
template <typename D>
struct Paged : Design {
  void* page;
  std::size_t size;
  D const* d;
  char const* n;
  Paged(D const& src, char const* nm) : n(nm) {
    size = (sizeof(D) + 4095) / 4096 * 4096;
    page = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (page == MAP_FAILED) abort();
    memset(page, 0x5a, size);
    d = ::new (page) D(src);
  }
  ~Paged() override { munmap(page, size); }
  std::unique_ptr<Any> make() const override {
    auto i = d->instance();
    return std::unique_ptr<Any>(new Model<decltype(i)>(i));
  }
  double coefficients() const override { return sum(*d); }
  void protect() override { mprotect(page, size, PROT_READ); }
  uint64_t bytes() const override { return v::hash_bytes(page, size); }
  char const* name() const override { return n; }
};
// constant-initialised, lives in .rodata
static constexpr auto rom1 = es::iirfilter<double>(48000).lowpass(es::butterworth<5>(), 1000).sos<double>();
static constexpr auto rom2 = es::iirfilter<double>(48000).highpass(es::chebyshev1<4>(1.0), 3000).poly<double>();
static constexpr auto rom3 = es::iirfilter<float>(8000).lowpass(es::bessel<3>(), 700).sos<float>(es::sos_gain::distribute);
template <typename D>
struct Rom : Design {
  D const* d;
  char const* n;
  Rom(D const* p, char const* nm) : d(p), n(nm) {}
  std::unique_ptr<Any> make() const override {
    auto i = d->instance();
    return std::unique_ptr<Any>(new Model<decltype(i)>(i));
  }
  double coefficients() const override { return sum(*d); }
  void protect() override {}
  uint64_t bytes() const override { return v::hash_bytes(d, sizeof(D)); }
  char const* name() const override { return n; }
};
template <typename D>
static std::unique_ptr<Design> rom(D const* d, char const* n) { return std::unique_ptr<Design>(new Rom<D>(d, n)); }
template <typename D>
static std::unique_ptr<Design> paged(D const& d, char const* n) { return std::unique_ptr<Design>(new Paged<D>(d, n)); }

static std::vector<std::unique_ptr<Design>> designs(v::Rng& g) {
  std::vector<std::unique_ptr<Design>> o;
  es::iirfilter<double> f(48000);
  auto fc = [&] { return g.uniform(3000, 15000); };
#define BOTH(F, D, NM)                                                            \
  {                                                                               \
    auto d_ = D;                                                                  \
    o.push_back(paged(d_.template sos<F>(), NM " sos"));                          \
    o.push_back(paged(d_.template sos<F>(es::sos_gain::distribute), NM " dist")); \
    o.push_back(paged(d_.template poly<F>(), NM " poly"));                        \
  }
  BOTH(double, f.lowpass(es::butterworth<1>(), fc()), "butter1")
  BOTH(double, f.highpass(es::butterworth<2>(), fc()), "butter2")
  BOTH(float, f.lowpass(es::butterworth<3>(), fc()), "butter3f")
  BOTH(double, f.lowpass(es::chebyshev1<5>(0.5), fc()), "cheb1-5")
  BOTH(double, f.highpass(es::chebyshev2<4>(40.0), fc()), "cheb2-4")
  BOTH(long double, f.lowpass(es::bessel<6>(), fc()), "bessel6l")
  // the same type several times with different coefficients
  BOTH(double, f.lowpass(es::butterworth<4>(), fc()), "butter4a")
  BOTH(double, f.highpass(es::butterworth<4>(), fc()), "butter4b")
#undef BOTH
  o.push_back(rom(&rom1, "rom sos"));
  o.push_back(rom(&rom2, "rom poly"));
  o.push_back(rom(&rom3, "rom float"));
  return o;
}

static std::vector<double> signal(uint64_t seed, std::size_t n) {
  v::Rng g(seed);
  std::vector<double> x;
  for (std::size_t i = 0; i < n; ++i) x.push_back(g.chance(1, 8) ? 0 : g.uniform(-1, 1));
  return x;
}

static std::vector<double> alone(Design const& d, std::vector<double> const& in) {
  std::vector<double> o;
  auto i = d.make();
  for (double x : in) o.push_back(i->step(x));
  return o;
}
static bool bits_equal(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a == 0 && b == 0); }

static void interleave() {
  v::Cases cs("interleave", v::scale(60, 3000));
  while (cs.next()) {
    v::Rng& g = cs.rng;
    auto ds = designs(g);
    std::vector<uint64_t> before;
    std::vector<double> coefs;
    for (auto& d : ds) { before.push_back(d->bytes()); coefs.push_back(d->coefficients()); }
    bool prot = g.chance(1, 2);
    if (prot) for (auto& d : ds) d->protect();
    std::size_t n = 2 + g.below(30), len = 10 + g.below(40);
    struct Run { std::size_t d; uint64_t seed; std::vector<double> in, want; std::unique_ptr<Any> inst; std::size_t pos = 0; };
    std::vector<Run> runs(n);
    bool crowd = g.chance(1, 3);  // all on one design
    std::size_t one = g.below(ds.size());
    for (auto& r : runs) {
      r.d = crowd ? one : g.below(ds.size());
      r.seed = g.next();
      r.in = signal(r.seed, len);
      r.want = alone(*ds[r.d], r.in);
      if (g.chance(1, 2)) r.inst = ds[r.d]->make();
    }
    uint64_t trace = 0;
    std::size_t left = n * len;
    while (left) {
      Run& r = runs[g.below(n)];
      if (r.pos == len) continue;
      if (!r.inst) r.inst = ds[r.d]->make();  // created late
      if (g.chance(1, 20)) { auto t = ds[g.below(ds.size())]->make(); t->step(g.uniform(-9, 9)); }  // comes and goes
      if (g.chance(1, 25)) { auto t = r.inst->copy(); t->step(5); t->step(-7); }  // a copy that goes its own way
      if (g.chance(1, 40)) { auto t = r.inst->copy(); r.inst = std::move(t); }
      std::size_t burst = 1 + g.below(3);
      for (; burst && r.pos < len; --burst) {
        double y = r.inst->step(r.in[r.pos]);
        if (!bits_equal(y, r.want[r.pos])) {
          v::fail("interleaved", "%s: output %zu is %.17g, alone it is %.17g (%zu instances, %s)", ds[r.d]->name(), r.pos, y, r.want[r.pos], n, crowd ? "one design" : "several designs");
          return;
        }
        ++r.pos;
        --left;
        trace = v::mix(trace, static_cast<uint64_t>(&r - &runs[0]));
        V_COUNT("interleaved_samples");
      }
    }
    for (std::size_t i = 0; i < ds.size(); ++i) {
      V_CHECK(ds[i]->bytes() == before[i] && bits_equal(ds[i]->coefficients(), coefs[i]), "design-modified", "%s: the design was modified by its instances", ds[i]->name());
    }
    if (prot) V_COUNT("write_protected_runs");
    V_COUNT("interleavings");
    v::distinct(trace);
  }
}

// a great many instances alive at the same time
static void crowd() {
  v::Cases cs("crowd", v::scale(4, 60));
  while (cs.next()) {
    v::Rng& g = cs.rng;
    auto ds = designs(g);
    std::size_t const sizes[] = {70, 300, 1100, 70000}, n = sizes[cs.index() % 4], len = 6, kinds = 97;
    Design const& d = *ds[g.below(ds.size())];
    v::at("%zu instances of %s", n, d.name());
    std::vector<std::vector<double>> in, want;
    for (std::size_t k = 0; k < kinds; ++k) {
      in.push_back(signal(g.next(), len));
      want.push_back(alone(d, in.back()));
    }
    std::vector<std::unique_ptr<Any>> insts;
    for (std::size_t i = 0; i < n; ++i) insts.push_back(d.make());
    for (std::size_t t = 0; t < len; ++t)
      for (std::size_t i = 0; i < n; ++i) {
        double y = insts[i]->step(in[i % kinds][t]);
        if (!bits_equal(y, want[i % kinds][t])) {
          v::fail("crowd", "%s: output %zu of instance %zu among %zu is %.17g, alone it is %.17g", d.name(), t, i, n, y, want[i % kinds][t]);
          return;
        }
      }
    v::count("crowd_instances", n);
    v::evaluated();
  }
}

static void threads() {
  v::Cases cs("threads", v::scale(25, 400));
  while (cs.next()) {
    v::Rng& g = cs.rng;
    auto ds = designs(g);
    for (auto& d : ds) if (g.chance(1, 2)) d->protect();
    std::vector<uint64_t> before;
    for (auto& d : ds) before.push_back(d->bytes());
    const std::size_t T = 2 + g.below(4), len = 60;
    struct Job { std::size_t d; std::vector<double> in, want, got; };
    std::vector<std::vector<Job>> jobs(T);
    for (auto& js : jobs)
      for (int k = 0; k < 4; ++k) {
        Job j;
        j.d = g.below(g.chance(1, 2) ? 3 : ds.size());  // often the same designs
        j.in = signal(g.next(), len);
        j.want = alone(*ds[j.d], j.in);
        js.push_back(j);
      }
    std::atomic<std::size_t> ready(0);
    std::atomic<unsigned> turn(0);
    std::vector<std::vector<unsigned>> seen(T);
    std::vector<std::thread> ts;
    uint64_t jitter = g.next();
    for (std::size_t t = 0; t < T; ++t)
      ts.emplace_back([&, t] {
        v::Rng r(v::mix(jitter, t));
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < T) {}
        std::vector<std::unique_ptr<Any>> insts;
        for (auto& j : jobs[t]) insts.push_back(ds[j.d]->make());  // created concurrently
        for (std::size_t k = 0; k < len; ++k)
          for (std::size_t q = 0; q < jobs[t].size(); ++q) {
            jobs[t][q].got.push_back(insts[q]->step(jobs[t][q].in[k]));
            if (r.chance(1, 30)) (void)ds[jobs[t][q].d]->coefficients();
            if (r.chance(1, 40)) std::this_thread::yield();
            if (r.chance(1, 10)) seen[t].push_back(turn.fetch_add(1, std::memory_order_relaxed));
          }
      });
    for (auto& t : ts) t.join();
    uint64_t h = 0;
    for (std::size_t t = 0; t < T; ++t) {
      for (auto s : seen[t]) h = v::mix(h, s);
      for (auto& j : jobs[t])
        for (std::size_t k = 0; k < len; ++k)
          if (!bits_equal(j.got[k], j.want[k])) {
            v::fail("threads", "%s: output %zu in thread %zu is %.17g, alone it is %.17g", ds[j.d]->name(), k, t, j.got[k], j.want[k]);
            return;
          }
    }
    for (std::size_t i = 0; i < ds.size(); ++i) V_CHECK(ds[i]->bytes() == before[i], "design-modified", "%s: the design was modified by threads running its instances", ds[i]->name());
    V_COUNT("threaded_runs");
    v::count("threaded_samples", T * 4 * len);
    v::distinct(h);
  }
}

// designing itself has no shared state either
static void concurrent_design() {
  v::Cases cs("concurrent-design", v::scale(10, 100));
  while (cs.next()) {
    double fc[4], want[4][2], got[4][2];
    for (int i = 0; i < 4; ++i) {
      fc[i] = cs.rng.uniform(1000, 20000);
      es::iirfilter<double> f(48000);
      want[i][0] = sum(f.lowpass(es::chebyshev2<5>(fc[i] / 300), fc[i]).sos<double>());
      want[i][1] = sum(f.highpass(es::butterworth<4>(), fc[i]).poly<double>());
    }
    std::vector<std::thread> ts;
    for (int i = 0; i < 4; ++i)
      ts.emplace_back([&, i] {
        for (int k = 0; k < 5; ++k) {
          es::iirfilter<double> f(48000);
          got[i][0] = sum(f.lowpass(es::chebyshev2<5>(fc[i] / 300), fc[i]).sos<double>());
          got[i][1] = sum(f.highpass(es::butterworth<4>(), fc[i]).poly<double>());
        }
      });
    for (auto& t : ts) t.join();
    for (int i = 0; i < 4; ++i)
      for (int k = 0; k < 2; ++k) V_CHECK(bits_equal(got[i][k], want[i][k]), "concurrent-design", "a design computed in a thread differs");
    V_COUNT("concurrent_designs");
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  interleave();
  crowd();
  threads();
  concurrent_design();
  v::require("crowd_instances", 70000);
  v::require("interleaved_samples", 10000);
  v::require("write_protected_runs", 10);
  v::require("threaded_samples", 10000);
  v::sample("outputs of interleaved / threaded instances bit-identical to solo runs; designs in write-protected pages and .rodata");
  return v::finish();
}
