#include "wfield.hpp"
#include <samurai/numeric/projection.hpp>
using namespace samurai;
// coarse value := mean of the 2^d fine values
#define SP1(D, S) D::el(level, s) = 0.5 * (S::el(level + 1, 2 * s) + S::el(level + 1, 2 * s + 1));
#define SP2(D, S) { double r = 0; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) r += S::el(level + 1, 2 * s + a, 2 * j + b); D::el(level, s, j) = r / 4; }
#define SP3(D, S) { double r = 0; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int c = 0; c < 2; ++c) r += S::el(level + 1, 2 * s + a, 2 * j + b, 2 * k + c); D::el(level, s, j, k) = r / 8; }
#define A1 size_t level, int s
#define A2 size_t level, int s, int j
#define A3 size_t level, int s, int j, int k
W void C03_proj_1d__impl(A1) noexcept { projection_op_<1, Int> op(level, Int{s, s + 1}, Y0{}); U<0> u; op(Dim<1>{}, u, u); }
W void C03_proj_1d__spec(A1) noexcept { SP1(U<0>, U<0>) }
W void C03_proj_2d__impl(A2) noexcept { projection_op_<2, Int> op(level, Int{s, s + 1}, Y1{j}); U<0> u; op(Dim<2>{}, u, u); }
W void C03_proj_2d__spec(A2) noexcept { SP2(U<0>, U<0>) }
W void C03_proj_3d__impl(A3) noexcept { projection_op_<3, Int> op(level, Int{s, s + 1}, Y2{j, k}); U<0> u; op(Dim<3>{}, u, u); }
W void C03_proj_3d__spec(A3) noexcept { SP3(U<0>, U<0>) }
// different destination
W void C03_projto_1d__impl(A1) noexcept { projection_op_<1, Int> op(level, Int{s, s + 1}, Y0{}); U<0> u; U<1> v; op(Dim<1>{}, v, u); }
W void C03_projto_1d__spec(A1) noexcept { SP1(U<1>, U<0>) }
W void C03_projto_2d__impl(A2) noexcept { projection_op_<2, Int> op(level, Int{s, s + 1}, Y1{j}); U<0> u; U<1> v; op(Dim<2>{}, v, u); }
W void C03_projto_2d__spec(A2) noexcept { SP2(U<1>, U<0>) }
W void C03_projto_3d__impl(A3) noexcept { projection_op_<3, Int> op(level, Int{s, s + 1}, Y2{j, k}); U<0> u; U<1> v; op(Dim<3>{}, v, u); }
W void C03_projto_3d__spec(A3) noexcept { SP3(U<1>, U<0>) }
// several fields at once
W void C03_variadic_1d__impl(A1) noexcept { variadic_projection_op_<1, Int> op(level, Int{s, s + 1}, Y0{}); U<0> u; U<1> v; U<2> w; op(Dim<1>{}, u, v, w); }
W void C03_variadic_1d__spec(A1) noexcept { SP1(U<0>, U<0>) SP1(U<1>, U<1>) SP1(U<2>, U<2>) }
W void C03_variadic_2d__impl(A2) noexcept { variadic_projection_op_<2, Int> op(level, Int{s, s + 1}, Y1{j}); U<0> u; U<1> v; U<2> w; op(Dim<2>{}, u, v, w); }
W void C03_variadic_2d__spec(A2) noexcept { SP2(U<0>, U<0>) SP2(U<1>, U<1>) SP2(U<2>, U<2>) }
W void C03_variadic_3d__impl(A3) noexcept { variadic_projection_op_<3, Int> op(level, Int{s, s + 1}, Y2{j, k}); U<0> u; U<1> v; U<2> w; op(Dim<3>{}, u, v, w); }
W void C03_variadic_3d__spec(A3) noexcept { SP3(U<0>, U<0>) SP3(U<1>, U<1>) SP3(U<2>, U<2>) }
