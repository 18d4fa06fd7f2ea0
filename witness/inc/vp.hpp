#pragma once
// common vocabulary of the witness translation units (analysed, never executed)
#include "smallvec.hpp"
#include <vector>
#include <array>
#include <cstddef>
#include <algorithm>
#include <samurai/field.hpp>
#define W extern "C" __attribute__((used))
#define PURE __attribute__((const, nothrow))
using std::size_t;
using Int = samurai::Interval<int>;
using V1 = xt::xtensor_fixed<double, xt::xshape<1>>;
using I1 = xt::xtensor_fixed<int, xt::xshape<1>>;
using I2 = xt::xtensor_fixed<int, xt::xshape<2>>;
using I3 = xt::xtensor_fixed<int, xt::xshape<3>>;
template <size_t d> using IX = xt::xtensor_fixed<int, xt::xshape<d>>;
extern "C" void vp_assume(bool) noexcept;
