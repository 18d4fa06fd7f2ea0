// FLAGS: -DFLUX_CONTAINER_xtensor
#include "vp.hpp"
#include <samurai/schemes/fv/utils.hpp>
extern "C" { double comp(int which, int i) PURE; double wgt(int i) PURE; double ent(int i, int j) PURE; }
using namespace samurai;
template <size_t r, size_t c> auto mat() { Matrix<double, r, c> m; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = ent(int(i), int(j)); return m; }
#define MV(r, c) W double C13_matvec_x_##r##_##c##__impl() { Array<double, c> v; for (size_t i = 0; i < c; ++i) v(i) = comp(1, int(i)); auto y = mat_vec(mat<r, c>(), v); double s = 0; for (size_t i = 0; i < r; ++i) s += wgt(int(i)) * y(i); return s; } W double C13_matvec_x_##r##_##c##__spec() { double s = 0; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) s += wgt(i) * ent(i, j) * comp(1, j); return s; }
MV(2, 2) MV(3, 3)
