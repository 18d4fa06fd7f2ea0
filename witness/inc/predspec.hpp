#pragma once
// weight of the coarse cell at offset m in the prediction of a child of the given parity (order o), from the closed form of centred cell-average interpolation
constexpr double pw(int o, int m, int parity) {
  if (m == 0) return 1;
  int a = m < 0 ? -m : m;
  double c = 0;
  if (o == 1) c = 1. / 8;
  if (o == 2) c = a == 1 ? 22. / 128 : -3. / 128;
  if (o == 3) c = a == 1 ? 201. / 1024 : a == 2 ? -44. / 1024 : 5. / 1024;
  if (o == 4) c = a == 1 ? 6922. / 32768 : a == 2 ? -1898. / 32768 : a == 3 ? 370. / 32768 : -35. / 32768;
  if (o == 5) c = a == 1 ? 58022. / 262144 : a == 2 ? -18208. / 262144 : a == 3 ? 4661. / 262144 : a == 4 ? -784. / 262144 : 63. / 262144;
  // even child leans towards negative offsets
  double v = m < 0 ? c : -c;
  return parity ? -v : v;
}
template <int o, class S> __attribute__((always_inline)) inline double pred1(size_t lc, int s, int pa) { double r = 0; for (int a = -o; a <= o; ++a) r += pw(o, a, pa) * S::el(lc, s + a); return r; }

// tensor product; sg = -1: products of directional corrections enter with alternating sign
template <int o, class S> __attribute__((always_inline)) inline double pred2(size_t lc, int s, int j, int pa, int pb, int sg) { double r = 0; for (int a = -o; a <= o; ++a) for (int b = -o; b <= o; ++b) r += (a && b ? sg : 1) * pw(o, a, pa) * pw(o, b, pb) * S::el(lc, s + a, j + b); return r; }
template <int o, class S> __attribute__((always_inline)) inline double pred3(size_t lc, int s, int j, int k, int pa, int pb, int pc, int sg) { double r = 0; for (int a = -o; a <= o; ++a) for (int b = -o; b <= o; ++b) for (int c = -o; c <= o; ++c) { int nz = (a != 0) + (b != 0) + (c != 0); r += (nz == 2 ? sg : 1) * pw(o, a, pa) * pw(o, b, pb) * pw(o, c, pc) * S::el(lc, s + a, j + b, k + c); } return r; }

// value given to a child by the code's own coarse-level form
#include <samurai/numeric/prediction.hpp>
using S1 = xt::xtensor_fixed<double, xt::xshape<1>>;
template <class Src> struct Rd { static constexpr size_t size = 1; static constexpr bool is_soa = false; using value_type = double; S1 operator()(size_t l, const Int& i, int j = 0, int k = 0) const { return S1{Src::el(l, i.start, j, k)}; } };
struct Wr { static constexpr size_t size = 1; static constexpr bool is_soa = false; S1 a[2][2][2]; int p, q, r; S1& operator()(size_t, const Int& i, int y = 0, int z = 0) { return a[i.start - 2 * p][y - 2 * q][z - 2 * r]; } };
template <size_t o, class Src> __attribute__((always_inline)) inline double child2(size_t level, int p, int j, int a, int b) { Rd<Src> r; Wr w; w.p = p; w.q = j; w.r = 0; samurai::prediction_op<2, Int>(level, Int{p, p + 1}, j)(samurai::Dim<2>{}, w, r, std::integral_constant<size_t, o>{}, std::integral_constant<bool, true>{}); return w.a[a][b][0][0]; }
template <size_t o, class Src> __attribute__((always_inline)) inline double child3(size_t level, int p, int j, int k, int a, int b, int c) { Rd<Src> r; Wr w; w.p = p; w.q = j; w.r = k; samurai::prediction_op<3, Int>(level, Int{p, p + 1}, j, k)(samurai::Dim<3>{}, w, r, std::integral_constant<size_t, o>{}, std::integral_constant<bool, true>{}); return w.a[a][b][c][0]; }
