#pragma once
#include <cmath>
#include "Kokkos_Macros.hpp"
namespace Kokkos {
using std::abs; using std::fabs; using std::sqrt; using std::cbrt; using std::pow; using std::exp; using std::exp2; using std::expm1;
using std::log; using std::log2; using std::log10; using std::log1p; using std::sin; using std::cos; using std::tan; using std::asin; using std::acos;
using std::atan; using std::atan2; using std::sinh; using std::cosh; using std::tanh; using std::erf; using std::erfc; using std::tgamma; using std::lgamma;
using std::floor; using std::ceil; using std::trunc; using std::round; using std::fmin; using std::fmax; using std::fmod; using std::remainder; using std::hypot;
using std::copysign; using std::isnan; using std::isinf; using std::isfinite; using std::isnormal; using std::signbit; using std::fma; using std::fdim; using std::nearbyint; using std::logb; using std::nextafter;
template <class T> inline auto rsqrt(T x) { return 1 / std::sqrt(x); }
} // namespace Kokkos
