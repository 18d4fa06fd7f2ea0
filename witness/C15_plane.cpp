// PARTS: 8
// set algebra on rows of cells (2D): every vertical and horizontal interleaving of the bounds
#include "rows.hpp"
using namespace samurai; using namespace rn;
// one level: A on rows [ya0, ya1), B on [yb0, yb1), one run of each per row, all rows with the same order of bounds but their own positions
struct Q { Rows A{3}, B{3}; const signed char *ya, *yb, *xa, *xb;
  Q(size_t ky, size_t kx) { ya = ORD<2, 2>.a[ky]; yb = ORD<2, 2>.b[ky]; xa = ORD<2, 2>.a[kx]; xb = ORD<2, 2>.b[kx];
    A.rows(crd_y() + ya[0], crd_y() + ya[1]); for (int y = ya[0]; y < ya[1]; ++y) { A.run(px(y, xa[0]), px(y, xa[1])); A.done(); }
    B.rows(crd_y() + yb[0], crd_y() + yb[1]); for (int y = yb[0]; y < yb[1]; ++y) { B.run(px(y, xb[0]), px(y, xb[1])); B.done(); } }
  template <class F> double expect(F f) { double r = 0; for (int y = 0; y < 4; ++y) for (int t = 0; t < 4; ++t) if (f(inc(ya, 2, y) && inc(xa, 2, t), inc(yb, 2, y) && inc(xb, 2, t))) r += Wy(crd_y() + y, px(y, t + 1)) - Wy(crd_y() + y, px(y, t)); return r; } };
#define BIN2(nm, op, spec) W double C15_##nm##__impl() { double r = 0; for (size_t ky = 0; ky < 13; ++ky) for (size_t kx = 0; kx < 13; ++kx) { Q s(ky, kx); auto& A = s.A.s; auto& B = s.B.s; r += wgt(int(13 * ky + kx)) * measure2(op); } return r; } \
  W double C15_##nm##__spec() { double r = 0; for (size_t ky = 0; ky < 13; ++ky) for (size_t kx = 0; kx < 13; ++kx) { Q s(ky, kx); r += wgt(int(13 * ky + kx)) * s.expect([](bool a, bool b) { return spec; }); } return r; }
#if VP_PART == 0
BIN2(inter_2d, intersection(A, B), a & b)
#endif
#if VP_PART == 1
BIN2(union_2d, union_(A, B), a | b)
#endif
#if VP_PART == 2
BIN2(diff_2d, difference(A, B), a & !b)
#endif
#if VP_PART >= 3 && VP_PART < 7
// projection: the two fine rows below one coarse row, each with its own run
struct P2 { Rows A{4}; const signed char *xa, *xb; P2(size_t k) { xa = KEYS<2, 2, 2, 1, 1>.a[k]; xb = KEYS<2, 2, 2, 1, 1>.b[k]; A.rows(2 * crd_y(), 2 * crd_y() + 2); A.run(at(xa[0], 2), at(xa[1], 2)); A.done(); A.run(at(xb[0], 2), at(xb[1], 2)); A.done(); } };
using K2 = Pair<2, 2, 2, 1, 1>;
#define SOME(k, N, c, m) for (size_t k = c; k < (N); k += m)
#define PROJ2(c) W double C15_proj_2d_##c##__impl() { double r = 0; SOME(k, K2::N, c, 8) { P2 s(k); r += wgt(int(k)) * measure2(intersection(s.A.s, s.A.s).on(3)); } return r; } \
W double C15_proj_2d_##c##__spec() { double r = 0; SOME(k, K2::N, c, 8) { const signed char *a = KEYS<2, 2, 2, 1, 1>.a[k], *b = KEYS<2, 2, 2, 1, 1>.b[k]; double m = 0; \
  for (int t = 0; t < 4; ++t) { if (K2::meets(a, 2, 2 * t, 2) || K2::meets(b, 2, 2 * t, 2)) m += Wy(crd_y(), pos(t) + 1) - Wy(crd_y(), pos(t)); if (K2::in(a, 2, 2 * t + 1) || K2::in(b, 2, 2 * t + 1)) m += Wy(crd_y(), pos(t + 1)) - Wy(crd_y(), pos(t) + 1); } \
  r += wgt(int(k)) * m; } return r; }
#if VP_PART == 3
PROJ2(0) PROJ2(1)
#elif VP_PART == 4
PROJ2(2) PROJ2(3)
#elif VP_PART == 5
PROJ2(4) PROJ2(5)
#else
PROJ2(6) PROJ2(7)
#endif
#endif
