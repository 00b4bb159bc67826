// Stand-in for the (absent) gcem library: the names functions.h takes from it,
// with the standard library's run-time implementations.
#pragma once
#include <algorithm>
#include <cmath>
#include <type_traits>
namespace gcem {
using ::std::abs;
using ::std::acos;
using ::std::acosh;
using ::std::asin;
using ::std::asinh;
using ::std::atan;
using ::std::atan2;
using ::std::atanh;
using ::std::ceil;
using ::std::copysign;
using ::std::cos;
using ::std::cosh;
using ::std::erf;
using ::std::exp;
using ::std::expm1;
using ::std::floor;
using ::std::fmod;
using ::std::lgamma;
using ::std::log;
using ::std::log10;
using ::std::log1p;
using ::std::log2;
using ::std::pow;
using ::std::round;
using ::std::signbit;
using ::std::sin;
using ::std::sinh;
using ::std::sqrt;
using ::std::tan;
using ::std::tanh;
using ::std::tgamma;
using ::std::trunc;
template <typename T>
T lmgamma(T a, int p);
template <typename A, typename B>
constexpr typename std::common_type<A, B>::type max(A const x, B const y) noexcept { return y < x ? x : y; }
template <typename A, typename B>
constexpr typename std::common_type<A, B>::type min(A const x, B const y) noexcept { return y > x ? x : y; }
} // namespace gcem
