// Same contract as Elements::isEqual: equal within a few ULPs.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
namespace Elements {
constexpr std::size_t FLT_DEFAULT_MAX_ULPS = 4;
constexpr std::size_t DBL_DEFAULT_MAX_ULPS = 10;
namespace shim_detail {
template <typename F, typename U>
inline bool ulpEqual(F a, F b, std::size_t ulps) {
  if (std::isnan(a) || std::isnan(b)) return false;
  U ua, ub;
  std::memcpy(&ua, &a, sizeof(F));
  std::memcpy(&ub, &b, sizeof(F));
  const U sign = U(1) << (sizeof(U) * 8 - 1);
  ua = (ua & sign) ? U(~ua + 1) : U(sign | ua);
  ub = (ub & sign) ? U(~ub + 1) : U(sign | ub);
  return (ua > ub ? ua - ub : ub - ua) <= ulps;
}
}
inline bool isEqual(double a, double b, std::size_t u = DBL_DEFAULT_MAX_ULPS) { return shim_detail::ulpEqual<double, std::uint64_t>(a, b, u); }
inline bool isEqual(float a, float b, std::size_t u = FLT_DEFAULT_MAX_ULPS) { return shim_detail::ulpEqual<float, std::uint32_t>(a, b, u); }
inline bool isEqual(double a, float b) { return isEqual(static_cast<float>(a), b); }
inline bool isEqual(float a, double b) { return isEqual(a, static_cast<float>(b)); }
inline bool isNotEqual(double a, double b) { return !isEqual(a, b); }
template <typename T> bool isLess(T a, T b) { return a < b && !isEqual(a, b); }
template <typename T> bool isGreater(T a, T b) { return a > b && !isEqual(a, b); }
template <std::size_t U = DBL_DEFAULT_MAX_ULPS> bool almostEqual2sComplement(double a, double b) { return isEqual(a, b, U); }
}  // namespace Elements
