// PARTS: 9
// translated sets, three operands, level passed to operators, shrinking and growing
#include "rows.hpp"
using namespace samurai; using namespace rn;
extern "C" { int crd_sx() PURE; int crd_sy() PURE; int crd_sz() PURE; double Wl(int level, int x) PURE; }
template <int d> using St = xt::xtensor_fixed<int, xt::xshape<d>>;
// one row; A is stored displaced by -s
template <size_t p, size_t q> struct R { Set<1> A{3}, B{3}; const signed char *a, *b; St<1> s;
  R(size_t k) { s[0] = crd_sx(); a = ORD<p, q>.a[k]; b = ORD<p, q>.b[k]; for (size_t i = 0; i < p; i += 2) A.c[0].push_back(Iv(pos(a[i]) - crd_sx(), pos(a[i + 1]) - crd_sx())); for (size_t i = 0; i < q; i += 2) B.c[0].push_back(Iv(pos(b[i]), pos(b[i + 1]))); }
  template <class F> double expect(F f) { double r = 0; for (int t = 0; t < int(p + q); ++t) if (f(inc(a, p, t), inc(b, q, t))) r += run(pos(t), pos(t + 1)); return r; } };
#define TR(nm, p, q, op, spec) W double C15_##nm##__impl() { double r = 0; for (size_t k = 0; k < delannoy(p, q); ++k) { R<p, q> s(k); auto& A = s.A; auto& B = s.B; (void)B; r += wgt(int(k)) * measure(op); } return r; } \
  W double C15_##nm##__spec() { double r = 0; for (size_t k = 0; k < delannoy(p, q); ++k) { R<p, q> s(k); r += wgt(int(k)) * s.expect([](bool a, bool b) { (void)a; (void)b; return spec; }); } return r; }
#if VP_PART == 0
TR(move_inter, 2, 2, intersection(translate(A, s.s), B), a & b) TR(move_diff, 2, 2, difference(B, translate(A, s.s)), b & !a) TR(move_union, 4, 2, union_(B, translate(A, s.s)), a | b)
// twice
TR(move_twice, 2, 2, difference(translate(translate(A, s.s + s.s), St<1>(-s.s)), B), a & !b)
#endif
#if VP_PART == 1
// three operands: C is one of a few runs
struct R3 { Set<1> A{3}, B{3}, C{3}; const signed char *a, *b; signed char c[2];
  R3(size_t k, size_t m) { a = ORD<2, 2>.a[k]; b = ORD<2, 2>.b[k]; c[0] = (signed char)(m % 2); c[1] = (signed char)(m % 2 + 1 + m / 2); A.c[0].push_back(Iv(pos(a[0]), pos(a[1]))); B.c[0].push_back(Iv(pos(b[0]), pos(b[1]))); C.c[0].push_back(Iv(pos(c[0]), pos(c[1]))); }
  template <class F> double expect(F f) { double r = 0; for (int t = 0; t < 5; ++t) if (f(inc(a, 2, t), inc(b, 2, t), inc(c, 2, t))) r += run(pos(t), pos(t + 1)); return r; } };
#define TRI(nm, op, spec) W double C15_##nm##__impl() { double r = 0; for (size_t k = 0; k < 13; ++k) for (size_t m = 0; m < 4; ++m) { R3 s(k, m); auto &A = s.A, &B = s.B, &C = s.C; r += wgt(int(4 * k + m)) * measure(op); } return r; } \
  W double C15_##nm##__spec() { double r = 0; for (size_t k = 0; k < 13; ++k) for (size_t m = 0; m < 4; ++m) { R3 s(k, m); r += wgt(int(4 * k + m)) * s.expect([](bool a, bool b, bool c) { return spec; }); } return r; }
TRI(three_inter, intersection(A, B, C), a & b & c) TRI(three_union, union_(A, B, C), a | b | c) TRI(three_diff, difference(A, B, C), a & !b & !c) TRI(three_mix, difference(union_(A, B), C), (a | b) & !c) TRI(three_mix2, intersection(difference(A, B), C), a & !b & c)
#endif
#if VP_PART == 2
// operators get the level asked for; several operators run one after the other on every run
struct Op { double& r; template <class I, class Y> void operator()(size_t l, const I& i, const Y&) const { r = 3 * r + Wl(int(l), i.end) - Wl(int(l), i.start); } };
struct Op2 { double& r; template <class I, class Y> void operator()(size_t l, const I& i, const Y&) const { r = 5 * r + Wl(100 + int(l), i.end - i.start); } };
static void one(Set<1>& A) { A.c[0].push_back(Iv(4 * pos(0), 4 * pos(1))); A.c[0].push_back(Iv(4 * pos(2), 4 * pos(3))); }
W double C15_apply__impl(int sel) { Set<1> A{4}; one(A); double r = 0; auto s = intersection(A, A); if (sel == 0) s.apply_op(Op{r}, Op2{r}); else if (sel == 1) s.on(3).apply_op(Op{r}, Op2{r}); else s.on(6).apply_op(Op{r}, Op2{r}); return r; }
W double C15_apply__spec(int sel) { double r = 0; int l = sel == 0 ? 4 : sel == 1 ? 3 : 6; for (int k = 0; k < 4; k += 2) { int a = sel == 0 ? 4 * pos(k) : sel == 1 ? 2 * pos(k) : 16 * pos(k), b = sel == 0 ? 4 * pos(k + 1) : sel == 1 ? 2 * pos(k + 1) : 16 * pos(k + 1); r = 3 * r + Wl(l, b) - Wl(l, a); r = 5 * r + Wl(100 + l, b - a); } return r; }
// a set can be enumerated again and gives the same cells; on() does not change the set it is called on
W double C15_again__impl() { Set<1> A{4}; one(A); auto s = intersection(A, A); double r = measure(s); auto t = s.on(3); r += 3 * measure(t); r += 7 * measure(s); r += 11 * measure(t); r += 13 * double(s.level()) + 17 * double(t.level()); return r; }
W double C15_again__spec() { double f = run(4 * pos(0), 4 * pos(1)) + run(4 * pos(2), 4 * pos(3)), c = run(2 * pos(0), 2 * pos(1)) + run(2 * pos(2), 2 * pos(3)); return 8 * f + 14 * c + 13. * 4 + 17. * 3; }
#endif
#if VP_PART == 3
// shrinking and growing a run / a block
W double C15_shrink__impl() { Set<1> A{4}; A.c[0].push_back(Iv(pos(0), pos(1) + 4)); St<1> c; c[0] = 2; return measure(contraction(A)) + 3 * measure(contraction(A, c)) + 5 * measure(contraction(A, 2)); }
W double C15_shrink__spec() { return run(pos(0) + 1, pos(1) + 3) + 8 * run(pos(0) + 2, pos(1) + 2); }
W double C15_grow__impl() { Set<1> A{4}; A.c[0].push_back(Iv(pos(0), pos(1) + 4)); return measure(expand(A)) + 3 * measure(expand(A, 2)); }
W double C15_grow__spec() { return run(pos(0) - 1, pos(1) + 5) + 3 * run(pos(0) - 2, pos(1) + 6); }
static Rows block(int h) { Rows A{4}; A.rows(crd_y(), crd_y() + h); for (int k = 0; k < h; ++k) { A.run(pos(0), pos(1) + 4); A.done(); } return A; }
static double brun(int y, int a, int b) { return Wy(y, b) - Wy(y, a); }
W double C15_shrink2__impl() { Rows A = block(4); St<2> c{2, 1}; return measure2(contraction(A.s)) + 3 * measure2(contraction(A.s, c)); }
W double C15_shrink2__spec() { double r = 0; for (int k = 1; k < 3; ++k) r += brun(crd_y() + k, pos(0) + 1, pos(1) + 3) + 3 * brun(crd_y() + k, pos(0) + 2, pos(1) + 2); return r; }
W double C15_grow2__impl() { Rows A = block(4); return measure2(expand(A.s)) + 3 * measure2(expand(A.s, 2)); }
W double C15_grow2__spec() { double r = 0; for (int k = -1; k < 5; ++k) r += brun(crd_y() + k, pos(0) - 1, pos(1) + 5); for (int k = -2; k < 6; ++k) r += 3 * brun(crd_y() + k, pos(0) - 2, pos(1) + 6); return r; }
#endif
#if VP_PART >= 4 && VP_PART < 7
// planes: A displaced by -s, two blocks of rows against one
struct Q { Rows A{3}, B{3}; const signed char *ya, *yb, *xa, *xb; St<2> s;
  Q(size_t ky, size_t kx) { s[0] = crd_sx(); s[1] = crd_sy(); ya = ORD<4, 2>.a[ky]; yb = ORD<4, 2>.b[ky]; xa = ORD<2, 2>.a[kx]; xb = ORD<2, 2>.b[kx];
    for (int m = 0; m < 4; m += 2) { A.rows(crd_y() - crd_sy() + ya[m], crd_y() - crd_sy() + ya[m + 1]); for (int y = ya[m]; y < ya[m + 1]; ++y) { A.run(px(y, xa[0]) - crd_sx(), px(y, xa[1]) - crd_sx()); A.done(); } }
    B.rows(crd_y() + yb[0], crd_y() + yb[1]); for (int y = yb[0]; y < yb[1]; ++y) { B.run(px(y, xb[0]), px(y, xb[1])); B.done(); } }
  template <class F> double expect(F f) { double r = 0; for (int y = 0; y < 6; ++y) for (int t = 0; t < 4; ++t) if (f(inc(ya, 4, y) && inc(xa, 2, t), inc(yb, 2, y) && inc(xb, 2, t))) r += Wy(crd_y() + y, px(y, t + 1)) - Wy(crd_y() + y, px(y, t)); return r; } };
#define BIN2(nm, op, spec) W double C15_##nm##__impl() { double r = 0; for (size_t ky = 0; ky < delannoy(4, 2); ++ky) for (size_t kx = 1; kx < 13; kx += 7) { Q s(ky, kx); auto& A = s.A.s; auto& B = s.B.s; r += wgt(int(13 * ky + kx)) * measure2(op); } return r; } \
  W double C15_##nm##__spec() { double r = 0; for (size_t ky = 0; ky < delannoy(4, 2); ++ky) for (size_t kx = 1; kx < 13; kx += 7) { Q s(ky, kx); r += wgt(int(13 * ky + kx)) * s.expect([](bool a, bool b) { return spec; }); } return r; }
#if VP_PART == 4
BIN2(move2_inter, intersection(translate(A, s.s), B), a & b)
#elif VP_PART == 5
BIN2(move2_union, union_(translate(A, s.s), B), a | b)
#else
BIN2(move2_diff, difference(translate(A, s.s), B), a & !b)
#endif
#endif
#if VP_PART == 7 || VP_PART == 8
// planes on two levels: one coarse row against a block of fine rows (fine y = 2*y0 + key); result on the fine, the coarse and a finer level
struct C2 { Rows A{3}, B{4}; int y0, y1; const signed char *xa, *xb; using K = Keys<2, 2, 2, 2, 1>;
  C2(size_t ky, size_t kx) { y0 = int(ky % 4); y1 = y0 + 1 + int(ky / 4); xa = KEYS<2, 2, 2, 2, 1>.a[kx]; xb = KEYS<2, 2, 2, 2, 1>.b[kx];
    A.rows(crd_y(), crd_y() + 1); A.run(pos(xa[0] / 2), pos(xa[1] / 2)); A.done();
    B.rows(2 * crd_y() - 1 + y0, 2 * crd_y() - 1 + y1); for (int y = y0; y < y1; ++y) { B.run(at(xb[0], 2), at(xb[1], 2)); B.done(); } }
  // fine rows: -1 .. 4 around the coarse row, which is fine rows 0 and 1 (y - 1)
  template <class F> double fine(F f, int H) { double r = 0; for (int y = -2; y < 6; ++y) { bool ia = y == 0 || y == 1, ib = y0 - 1 <= y && y < y1 - 1; for (int h = 0; h < H; ++h) for (int t = 0; t < 4; ++t) for (int m = 0; m < 2; ++m) { int key = 2 * t + m; int e = m ? 2 * pos(t + 1) : 2 * pos(t) + 1; if (f(ia && xa[0] <= key && key < xa[1], ib && xb[0] <= key && key < xb[1])) r += Wy(H * (2 * crd_y() + y) + h, H * e) - Wy(H * (2 * crd_y() + y) + h, H * (2 * pos(t) + m)); } } return r; } };
#define MIX(nm, H, op, spec) W double C15_##nm##__impl() { double r = 0; for (size_t ky = 0; ky < 12; ky += 3) for (size_t kx = 0; kx < C2::K::N; kx += 2) { C2 s(ky, kx); auto& A = s.A.s; auto& B = s.B.s; r += wgt(int(100 * ky + kx)) * measure2(op); } return r; } \
  W double C15_##nm##__spec() { double r = 0; for (size_t ky = 0; ky < 12; ky += 3) for (size_t kx = 0; kx < C2::K::N; kx += 2) { C2 s(ky, kx); r += wgt(int(100 * ky + kx)) * s.fine([](bool a, bool b) { return spec; }, H); } return r; }
#if VP_PART == 7
MIX(mix2_inter, 1, intersection(A, B), a & b) MIX(mix2_diff, 1, difference(A, B), a & !b)
#else
MIX(mix2_union, 1, union_(B, A), a | b) MIX(mix2_fin, 2, intersection(A, B).on(5), a & b)
#endif
#endif
