// C31: convolutions and expansions of sizes beyond what a byte counts, in
// integers modulo 2^64 (exact).
#include <cstdint>
#include <vector>

#include <embedded/constexpr_math/convolve.h>
#include <embedded/constexpr_math/poly.h>
#include "vharness.h"

namespace cm = embedded::cmath;

template <std::size_t N>
static cm::vector<uint64_t, N> draw(v::Rng& r, std::vector<uint64_t>& m) {
  m.resize(N);
  for (auto& x : m) x = r.chance(1, 4) ? 0 : r.next();
  return cm::vector<uint64_t, N>::create([&](std::size_t i) { return m[i]; });
}

template <std::size_t A, std::size_t B>
static void convolution(v::Rng& r) {
  std::vector<uint64_t> ma, mb, want(A + B - 1);
  auto a = draw<A>(r, ma);
  auto b = draw<B>(r, mb);
  v::at("convolution %zu x %zu", A, B);
  for (std::size_t i = 0; i < A; ++i)
    for (std::size_t j = 0; j < B; ++j) want[i + j] += ma[i] * mb[j];
  auto c = cm::convolve_full(a, b);
  V_CHECK(c.size() == A + B - 1, "size", "convolution of %zu x %zu has %zu elements", A, B, static_cast<std::size_t>(c.size()));
  for (std::size_t i = 0; i < want.size(); ++i) V_CHECK(c[i] == want[i], "convolution", "%zu x %zu: element %zu is %llu, expected %llu", A, B, i, (unsigned long long)c[i], (unsigned long long)want[i]);
  v::evaluated();
  v::distinct(v::mix(v::mix(A, B), ma[0] ^ mb[0]));
  V_COUNT("large_convolutions");
}

template <std::size_t N>
static void expansion(v::Rng& r) {
  std::vector<uint64_t> mz, want(N + 1);
  auto z = draw<N>(r, mz);
  v::at("expansion of %zu roots", N);
  want[0] = 1;
  for (std::size_t k = 0; k < N; ++k)
    for (std::size_t i = k + 1; i > 0; --i) want[i] -= want[i - 1] * mz[k];
  auto p = cm::poly(z);
  V_CHECK(p.size() == N + 1, "size", "expansion of %zu roots has %zu coefficients", N, static_cast<std::size_t>(p.size()));
  for (std::size_t i = 0; i <= N; ++i) V_CHECK(p[i] == want[i], "expansion", "%zu roots: coefficient %zu is %llu, expected %llu", N, i, (unsigned long long)p[i], (unsigned long long)want[i]);
  v::evaluated();
  v::distinct(v::mix(N, mz[0]));
  V_COUNT("large_expansions");
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  for (v::Cases c("large", v::scale(10, 200)); c.next();) {
    convolution<300, 3>(c.rng);
    convolution<3, 300>(c.rng);
    convolution<1, 257>(c.rng);
    convolution<260, 259>(c.rng);
    expansion<65>(c.rng);
    expansion<258>(c.rng);
  }
  v::require("large_convolutions", 40);
  v::require("large_expansions", 20);
  v::sample("convolutions up to 260 x 259 and expansions of 258 roots, exact");
  return v::finish();
}
