// PARTS: 8
// set algebra in space (3D): slabs of rows; same level, translated, projected onto a coarser level
#include "rows.hpp"
using namespace samurai; using namespace rn;
extern "C" { int crd_sx() PURE; int crd_sy() PURE; int crd_sz() PURE; }
static double zrun(int z, int y, int a, int b) { return Wz(z, y, b) - Wz(z, y, a); }
#if VP_PART < 3
// z and y orders are all enumerated; the horizontal order is a function of the two
struct Q { Box3 A{3}, B{3}; const signed char *za, *zb, *ya, *yb, *xa, *xb; xt::xtensor_fixed<int, xt::xshape<3>> s;
  Q(size_t kz, size_t ky) { size_t kx = (3 * kz + ky) % 13; s[0] = crd_sx(); s[1] = crd_sy(); s[2] = crd_sz(); za = ORD<2, 2>.a[kz]; zb = ORD<2, 2>.b[kz]; ya = ORD<2, 2>.a[ky]; yb = ORD<2, 2>.b[ky]; xa = ORD<2, 2>.a[kx]; xb = ORD<2, 2>.b[kx];
    A.slabs(crd_z() - s[2] + za[0], crd_z() - s[2] + za[1]); for (int z = za[0]; z < za[1]; ++z) { A.rows(crd_y() - s[1] + ya[0], crd_y() - s[1] + ya[1]); for (int y = ya[0]; y < ya[1]; ++y) { A.run(px(4 * z + y, xa[0]) - s[0], px(4 * z + y, xa[1]) - s[0]); A.done(); } A.slab_done(); }
    B.slabs(crd_z() + zb[0], crd_z() + zb[1]); for (int z = zb[0]; z < zb[1]; ++z) { B.rows(crd_y() + yb[0], crd_y() + yb[1]); for (int y = yb[0]; y < yb[1]; ++y) { B.run(px(4 * z + y, xb[0]), px(4 * z + y, xb[1])); B.done(); } B.slab_done(); } }
  template <class F> double expect(F f) { double r = 0; for (int z = 0; z < 4; ++z) for (int y = 0; y < 4; ++y) for (int t = 0; t < 4; ++t) if (f(inc(za, 2, z) && inc(ya, 2, y) && inc(xa, 2, t), inc(zb, 2, z) && inc(yb, 2, y) && inc(xb, 2, t))) r += zrun(crd_z() + z, crd_y() + y, px(4 * z + y, t), px(4 * z + y, t + 1)); return r; } };
#define BIN3(nm, op, spec) W double C15_##nm##__impl() { double r = 0; for (size_t kz = 0; kz < 13; kz += 2) for (size_t ky = 0; ky < 13; ky += 3) { Q s(kz, ky); auto& A = s.A.s; auto& B = s.B.s; r += wgt(int(13 * kz + ky)) * measure3(op); } return r; } \
  W double C15_##nm##__spec() { double r = 0; for (size_t kz = 0; kz < 13; kz += 2) for (size_t ky = 0; ky < 13; ky += 3) { Q s(kz, ky); r += wgt(int(13 * kz + ky)) * s.expect([](bool a, bool b) { return spec; }); } return r; }
#if VP_PART == 0
BIN3(inter_3d, intersection(translate(A, s.s), B), a & b)
#elif VP_PART == 1
BIN3(union_3d, union_(translate(A, s.s), B), a | b)
#else
BIN3(diff_3d, difference(translate(A, s.s), B), a & !b)
#endif
#elif VP_PART < 7
// two of the four fine rows below one coarse row exist, each with its own run
using K2 = Pair<2, 2, 2, 1, 1>;
static Box3 two(size_t k, int r0, int r1) { Box3 A{4}; const signed char *xa = KEYS<2, 2, 2, 1, 1>.a[k], *xb = KEYS<2, 2, 2, 1, 1>.b[k]; int Y = 2 * crd_y(), Z = 2 * crd_z();
  auto ra = [&](int r, const signed char* x) { A.rows(Y + r % 2, Y + r % 2 + 1); A.run(at(x[0], 2), at(x[1], 2)); A.done(); };
  if (r0 / 2 == r1 / 2) { A.slabs(Z + r0 / 2, Z + r0 / 2 + 1); A.rows(Y, Y + 2); A.run(at(xa[0], 2), at(xa[1], 2)); A.done(); A.run(at(xb[0], 2), at(xb[1], 2)); A.done(); A.slab_done(); }
  else { A.slabs(Z, Z + 2); ra(r0, xa); A.slab_done(); ra(r1, xb); A.slab_done(); }
  return A; }
#define PROJ3(nm, r0, r1) W double C15_##nm##__impl() { double r = 0; for (size_t k = VP_PART; k < K2::N; k += 11) { Box3 A = two(k, r0, r1); r += wgt(int(k)) * measure3(intersection(A.s, A.s).on(3)); } return r; } \
W double C15_##nm##__spec() { double r = 0; for (size_t k = VP_PART; k < K2::N; k += 11) { const signed char *a = KEYS<2, 2, 2, 1, 1>.a[k], *b = KEYS<2, 2, 2, 1, 1>.b[k]; double m = 0; \
  for (int t = 0; t < 4; ++t) { if (K2::meets(a, 2, 2 * t, 2) || K2::meets(b, 2, 2 * t, 2)) m += zrun(crd_z(), crd_y(), pos(t), pos(t) + 1); if (K2::in(a, 2, 2 * t + 1) || K2::in(b, 2, 2 * t + 1)) m += zrun(crd_z(), crd_y(), pos(t) + 1, pos(t + 1)); } \
  r += wgt(int(k)) * m; } return r; }
#if VP_PART == 3
PROJ3(proj_3d_01, 0, 1) PROJ3(proj_3d_23, 2, 3)
#elif VP_PART == 4
PROJ3(proj_3d_02, 0, 2)
#elif VP_PART == 5
PROJ3(proj_3d_13, 1, 3)
#else
PROJ3(proj_3d_03, 0, 3) PROJ3(proj_3d_12, 1, 2)
#endif
#else
// coarse box against a fine one, result on the fine level and on a finer level
static Box3 cells(size_t l, int z, int y, int n, int a, int b) { Box3 A{l}; A.slabs(z, z + n); for (int k = 0; k < n; ++k) { A.rows(y, y + n); for (int m = 0; m < n; ++m) { A.run(a, b); A.done(); } A.slab_done(); } return A; }
W double C15_mix3__impl() { Box3 A = cells(3, crd_z(), crd_y(), 1, pos(0), pos(2)), B = cells(4, 2 * crd_z() + 1, 2 * crd_y() - 1, 2, 2 * pos(1) + 1, 2 * pos(3)); return measure3(intersection(A.s, B.s)) + 3 * measure3(difference(A.s, B.s)) + 5 * measure3(union_(B.s, A.s).on(3)); }
W double C15_mix3__spec() { double r = 0; int Z = 2 * crd_z(), Y = 2 * crd_y(), a0 = 2 * pos(0), a1 = 2 * pos(2), b0 = 2 * pos(1) + 1;
  r += zrun(Z + 1, Y, b0, a1); for (int z = 0; z < 2; ++z) for (int y = 0; y < 2; ++y) r += 3 * (z == 1 && y == 0 ? zrun(Z + z, Y + y, a0, b0) : zrun(Z + z, Y + y, a0, a1));
  for (int z = 0; z < 2; ++z) for (int y = -1; y < 1; ++y) r += 5 * zrun(crd_z() + z, crd_y() + y, z == 0 && y == 0 ? pos(0) : pos(1), z == 0 && y == -1 ? pos(3) : pos(3)); return r; }
W double C15_fin3__impl() { Box3 A = cells(3, crd_z(), crd_y(), 1, pos(0), pos(2)), B = cells(3, crd_z(), crd_y(), 2, pos(1), pos(3)); return measure3(intersection(A.s, B.s).on(4)) + 3 * measure3(difference(B.s, A.s).on(4)); }
W double C15_fin3__spec() { double r = 0; for (int z = 0; z < 2; ++z) for (int y = 0; y < 2; ++y) for (int zz = 0; zz < 2; ++zz) for (int yy = 0; yy < 2; ++yy) { int Z = 2 * (crd_z() + z) + zz, Y = 2 * (crd_y() + y) + yy; if (z == 0 && y == 0) r += zrun(Z, Y, 2 * pos(1), 2 * pos(2)) + 3 * zrun(Z, Y, 2 * pos(2), 2 * pos(3)); else r += 3 * zrun(Z, Y, 2 * pos(1), 2 * pos(3)); } return r; }
#endif
