// PARTS: 6
// known displacements, rows with several runs projected together, slabs one after the other
#include "rows.hpp"
using namespace samurai; using namespace rn;
#if VP_PART == 0
template <int d> using St = xt::xtensor_fixed<int, xt::xshape<d>>;
// A has three rows, B two; A is displaced by s in {-2..2}^2
struct M { Rows A{3}, B{3}; M() { A.rows(crd_y(), crd_y() + 3); for (int k = 0; k < 3; ++k) { A.run(px(k, 0), px(k, 1) + 6); A.done(); } B.rows(crd_y() + 1, crd_y() + 3); for (int k = 0; k < 2; ++k) { B.run(px(10 + k, 0), px(10 + k, 1)); B.done(); } } };
W double C15_disp__impl() { double r = 0; for (int sy = -2; sy <= 2; ++sy) for (int sx = -2; sx <= 2; ++sx) { M m; St<2> s{sx, sy}; r += wgt(5 * sy + sx) * measure2(intersection(translate(m.A.s, s), translate(m.A.s, s))); } return r; }
W double C15_disp__spec() { double r = 0; for (int sy = -2; sy <= 2; ++sy) for (int sx = -2; sx <= 2; ++sx) for (int k = 0; k < 3; ++k) r += wgt(5 * sy + sx) * (Wy(crd_y() + k + sy, px(k, 1) + 6 + sx) - Wy(crd_y() + k + sy, px(k, 0) + sx)); return r; }
// rows present in both, displaced against itself: [a,b) and [a+s,b+s) with length >= 7
W double C15_disp_self__impl() { double r = 0; for (int sy = -2; sy <= 2; ++sy) for (int sx = -2; sx <= 2; ++sx) { Rows A{3}; A.rows(crd_y(), crd_y() + 3); for (int k = 0; k < 3; ++k) { A.run(pos(0), pos(1) + 6); A.done(); } St<2> s{sx, sy}; r += wgt(5 * sy + sx) * (measure2(intersection(A.s, translate(A.s, s))) + 3 * measure2(difference(A.s, translate(A.s, s)))); } return r; }
W double C15_disp_self__spec() { double r = 0; for (int sy = -2; sy <= 2; ++sy) for (int sx = -2; sx <= 2; ++sx) for (int k = 0; k < 3; ++k) { int y = crd_y() + k, a = pos(0), b = pos(1) + 6; bool both = k - sy >= 0 && k - sy < 3; double w = wgt(5 * sy + sx);
  if (!both) { r += 3 * w * (Wy(y, b) - Wy(y, a)); continue; } int lo = sx > 0 ? a + sx : a, hi = sx < 0 ? b + sx : b; r += w * (Wy(y, hi) - Wy(y, lo)); if (sx > 0) r += 3 * w * (Wy(y, lo) - Wy(y, a)); if (sx < 0) r += 3 * w * (Wy(y, b) - Wy(y, hi)); } return r; }
W double C15_disp3__impl() { double r = 0; for (int sz = -1; sz <= 1; ++sz) for (int sy = -1; sy <= 1; ++sy) { Box3 A{3}; A.slabs(crd_z(), crd_z() + 2); for (int z = 0; z < 2; ++z) { A.rows(crd_y(), crd_y() + 1 + z); for (int y = 0; y < 1 + z; ++y) { A.run(px(3 * z + y, 0), px(3 * z + y, 1)); A.done(); } A.slab_done(); } St<3> s{2, sy, sz}; r += wgt(3 * sz + sy) * measure3(union_(translate(A.s, s), translate(A.s, s))); } return r; }
W double C15_disp3__spec() { double r = 0; for (int sz = -1; sz <= 1; ++sz) for (int sy = -1; sy <= 1; ++sy) for (int z = 0; z < 2; ++z) for (int y = 0; y < 1 + z; ++y) r += wgt(3 * sz + sy) * (Wz(crd_z() + z + sz, crd_y() + y + sy, px(3 * z + y, 1) + 2) - Wz(crd_z() + z + sz, crd_y() + y + sy, px(3 * z + y, 0) + 2)); return r; }
#elif VP_PART == 1
// two runs on the first fine row, one on the second: union of both on the coarse row
W double C15_proj_runs__impl() { double r = 0; for (size_t k = 0; k < delannoy(4, 2); ++k) { auto a = ORD<4, 2>.a[k], b = ORD<4, 2>.b[k]; Rows A{4}; A.rows(2 * crd_y(), 2 * crd_y() + 2); A.run(2 * pos(a[0]), 2 * pos(a[1])); A.run(2 * pos(a[2]), 2 * pos(a[3])); A.done(); A.run(2 * pos(b[0]), 2 * pos(b[1])); A.done(); r += wgt(int(k)) * measure2(intersection(A.s, A.s).on(3)); } return r; }
W double C15_proj_runs__spec() { double r = 0; for (size_t k = 0; k < delannoy(4, 2); ++k) { auto a = ORD<4, 2>.a[k], b = ORD<4, 2>.b[k]; for (int t = 0; t < 6; ++t) if (inc(a, 4, t) || inc(b, 2, t)) r += wgt(int(k)) * (Wy(crd_y(), pos(t + 1)) - Wy(crd_y(), pos(t))); } return r; }
// the other way round, and two levels down: four fine rows
W double C15_proj_runs2__impl() { double r = 0; for (size_t k = 0; k < delannoy(2, 4); k += 2) { auto a = ORD<2, 4>.a[k], b = ORD<2, 4>.b[k]; Rows A{5}; A.rows(4 * crd_y(), 4 * crd_y() + 1); A.run(4 * pos(a[0]), 4 * pos(a[1])); A.done(); A.rows(4 * crd_y() + 3, 4 * crd_y() + 5); A.run(4 * pos(b[0]), 4 * pos(b[1])); A.run(4 * pos(b[2]), 4 * pos(b[3])); A.done(); A.run(4 * pos(2), 4 * pos(3)); A.done(); r += wgt(int(k)) * measure2(intersection(A.s, A.s).on(3)); } return r; }
W double C15_proj_runs2__spec() { double r = 0; for (size_t k = 0; k < delannoy(2, 4); k += 2) { auto a = ORD<2, 4>.a[k], b = ORD<2, 4>.b[k]; for (int t = 0; t < 6; ++t) if (inc(a, 2, t) || inc(b, 4, t)) r += wgt(int(k)) * (Wy(crd_y(), pos(t + 1)) - Wy(crd_y(), pos(t))); r += wgt(int(k)) * (Wy(crd_y() + 1, pos(3)) - Wy(crd_y() + 1, pos(2))); } return r; }
#elif VP_PART == 3
// one run on one row, several levels above the one it is used on: every position in the block of fine rows
template <int k> double deep1() { constexpr int n = 1 << k; double r = 0; for (int a = 0; a < n; a += 3) for (int b = 0; b < n; b += 2) { Set<1> A{size_t(3 + k)}; A.c[0].push_back(Iv(n * pos(0) + a, n * pos(1) + b + 1)); r += wgt(a * n + b) * measure(intersection(A, A).on(3)); } return r; }
template <int k> double coarse1() { constexpr int n = 1 << k; double r = 0; for (int a = 0; a < n; a += 3) for (int b = 0; b < n; b += 2) r += wgt(a * n + b) * (Wt(pos(1) + 1) - Wt(pos(0))); return r; }
W double C15_deep1_2__impl() { return deep1<2>(); } W double C15_deep1_2__spec() { return coarse1<2>(); }
W double C15_deep1_3__impl() { return deep1<3>(); } W double C15_deep1_3__spec() { return coarse1<3>(); }
template <int k> double deep2() { constexpr int n = 1 << k; double r = 0; for (int a = 0; a < n; ++a) { Rows A{size_t(3 + k)}, B{3}; A.rows(n * crd_y() + a, n * crd_y() + a + 1); A.run(n * pos(0) + a, n * pos(2) + n - a); A.done(); B.rows(crd_y(), crd_y() + 1); B.run(pos(1), pos(3) + 1); B.done(); r += wgt(a) * (measure2(intersection(A.s, A.s).on(3)) + 3 * measure2(intersection(A.s, B.s).on(3)) + 5 * measure2(union_(A.s, B.s).on(3))); } return r; }
template <int k> double coarse2() { constexpr int n = 1 << k; double r = 0; for (int a = 0; a < n; ++a) { auto run = [&](int s, int e) { return Wy(crd_y(), e) - Wy(crd_y(), s); }; r += wgt(a) * (run(pos(0), pos(2) + 1) + 3 * run(pos(1), pos(2) + 1) + 5 * run(pos(0), pos(3) + 1)); } return r; }
W double C15_deep2_2__impl() { return deep2<2>(); } W double C15_deep2_2__spec() { return coarse2<2>(); }
W double C15_deep2_3__impl() { return deep2<3>(); } W double C15_deep2_3__spec() { return coarse2<3>(); }
#elif VP_PART == 4 || VP_PART == 5
template <int k> double deep3() { constexpr int n = 1 << k; double r = 0; for (int b = VP_PART - 4; b < n; b += 2) for (int a = 0; a < n; ++a) { Box3 A{size_t(3 + k)}; A.slabs(n * crd_z() + b, n * crd_z() + b + 1); A.rows(n * crd_y() + a, n * crd_y() + a + 1); A.run(n * pos(0) + a, n * pos(1) + n - b); A.done(); A.slab_done(); r += wgt(n * b + a) * measure3(intersection(A.s, A.s).on(3)); } return r; }
template <int k> double coarse3() { constexpr int n = 1 << k; double r = 0; for (int b = VP_PART - 4; b < n; b += 2) for (int a = 0; a < n; ++a) r += wgt(n * b + a) * (Wz(crd_z(), crd_y(), pos(1) + 1) - Wz(crd_z(), crd_y(), pos(0))); return r; }
#if VP_PART == 4
W double C15_deep3_even_2__impl() { return deep3<2>(); } W double C15_deep3_even_2__spec() { return coarse3<2>(); }
W double C15_deep3_even_3__impl() { return deep3<3>(); } W double C15_deep3_even_3__spec() { return coarse3<3>(); }
#else
W double C15_deep3_odd_2__impl() { return deep3<2>(); } W double C15_deep3_odd_2__spec() { return coarse3<2>(); }
W double C15_deep3_odd_3__impl() { return deep3<3>(); } W double C15_deep3_odd_3__spec() { return coarse3<3>(); }
#endif
#else
// slabs one after the other, rows of one slab do not leak into the next
W double C15_slabs__impl() { double r = 0; for (int m = 0; m < 16; ++m) { Box3 A{4}; int n = 0; A.slabs(2 * crd_z(), 2 * crd_z() + 4); for (int z = 0; z < 4; ++z) { int y = (m >> z) & 1; A.rows(2 * crd_y() + 2 * y, 2 * crd_y() + 2 * y + 1 + z % 2); for (int k = 0; k < 1 + z % 2; ++k) { A.run(2 * pos(n), 2 * pos(n + 1)); A.done(); ++n; } A.slab_done(); } r += wgt(m) * measure3(union_(A.s, A.s).on(3)); } return r; }
W double C15_slabs__spec() { double r = 0; for (int m = 0; m < 16; ++m) { int n = 0; for (int z = 0; z < 4; ++z) { int y = (m >> z) & 1; for (int k = 0; k < 1 + z % 2; ++k) { r += wgt(m) * (Wz(crd_z() + z / 2, crd_y() + y, pos(n + 1)) - Wz(crd_z() + z / 2, crd_y() + y, pos(n))); ++n; } } } return r; }
// several row blocks per slab on one level
W double C15_blocks__impl() { double r = 0; for (int m = 0; m < 4; ++m) { Box3 A{4}, B{4}; A.slabs(crd_z(), crd_z() + 2); for (int z = 0; z < 2; ++z) { A.rows(crd_y(), crd_y() + 1); A.run(px(2 * z, 0), px(2 * z, 2)); A.done(); A.rows(crd_y() + 2, crd_y() + 3); A.run(px(2 * z + 1, 0), px(2 * z + 1, 2)); A.done(); A.slab_done(); } int z = m & 1, y = m >> 1; B.slabs(crd_z() + z, crd_z() + z + 1); B.rows(crd_y() + 2 * y, crd_y() + 2 * y + 1); B.run(px(2 * z + y, 1), px(2 * z + y, 3)); B.done(); B.slab_done(); r += wgt(m) * (measure3(intersection(A.s, B.s)) + 3 * measure3(difference(A.s, B.s)) + 7 * measure3(union_(B.s, A.s))); } return r; }
W double C15_blocks__spec() { double r = 0; for (int m = 0; m < 4; ++m) for (int z = 0; z < 2; ++z) for (int y = 0; y < 2; ++y) { bool b = z == (m & 1) && y == m >> 1; int Z = crd_z() + z, Y = crd_y() + 2 * y, q = 2 * z + y; auto run = [&](int s, int e) { return Wz(Z, Y, px(q, e)) - Wz(Z, Y, px(q, s)); }; r += wgt(m) * (b ? run(1, 2) + 3 * run(0, 1) + 7 * run(0, 3) : 10 * run(0, 2)); } return r; }
#endif
