#include "wfield.hpp"
#include <samurai/mr/operators.hpp>
#include <samurai/algorithm/utils.hpp>
#include <samurai/algorithm/graduation.hpp>
using namespace samurai;
enum { KEEP = 1, COARSEN = 2, REFINE = 4, ENLARGE = 8 };
using F = FL<0>;
#define A1 (size_t level, int s)
#define A2 (size_t level, int s, int j)
#define A3 (size_t level, int s, int j, int k)
#define C1 (level, Int{s, s + 1}, Y0{})
#define C2 (level, Int{s, s + 1}, Y1{j})
#define C3 (level, Int{s, s + 1}, Y2{j, k})
#define LC1 for (int a = 0; a < 2; ++a)
#define LC2 LC1 for (int b = 0; b < 2; ++b)
#define LC3 LC2 for (int c = 0; c < 2; ++c)
#define CH1 F::el(level + 1, 2 * s + a)
#define CH2 F::el(level + 1, 2 * s + a, 2 * j + b)
#define CH3 F::el(level + 1, 2 * s + a, 2 * j + b, 2 * k + c)
#define ME1 F::el(level, s)
#define ME2 F::el(level, s, j)
#define ME3 F::el(level, s, j, k)
#define LN1(w) for (int a = -w; a <= w; ++a)
#define LN2(w) LN1(w) for (int b = -w; b <= w; ++b)
#define LN3(w) LN2(w) for (int c = -w; c <= w; ++c)
#define NB1 F::el(level, s + a)
#define NB2 F::el(level, s + a, j + b)
#define NB3 F::el(level, s + a, j + b, k + c)
// siblings: keep if any keeps (then the parent is kept too); coarsen survives only if all coarsen (then the parent is kept)
#define MAXI(d) \
W void C07_maximum_##d##d__impl A##d noexcept { F t; maximum_op<d, Int> C##d (Dim<d>{}, t); } \
W void C07_maximum_##d##d__spec A##d noexcept { int any = 0, all = COARSEN; LC##d { any |= CH##d & KEEP; all &= CH##d & COARSEN; } LC##d { if (any) CH##d |= KEEP; if (!all) CH##d &= ~COARSEN; } if (any || all) ME##d |= KEEP; }
MAXI(1) MAXI(2) MAXI(3)
#define TOG(d) \
W void C07_together_##d##d__impl A##d noexcept { F t; keep_children_together_op<d, Int> C##d (Dim<d>{}, t); } \
W void C07_together_##d##d__spec A##d noexcept { int any = 0; LC##d any |= CH##d & KEEP; LC##d if (any) CH##d |= KEEP; }
TOG(1) TOG(2) TOG(3)
#define AROUND(name, op, from, to, d) \
W void C07_##name##_##d##d__impl A##d noexcept { F t; op<d, Int> C##d (Dim<d>{}, t); } \
W void C07_##name##_##d##d__spec A##d noexcept { int m = ME##d & from; if (m) LN##d(1) NB##d |= to; }
AROUND(enlarge, enlarge_op, KEEP, ENLARGE, 1) AROUND(enlarge, enlarge_op, KEEP, ENLARGE, 2) AROUND(enlarge, enlarge_op, KEEP, ENLARGE, 3)
AROUND(around, keep_around_refine_op, REFINE, KEEP, 1) AROUND(around, keep_around_refine_op, REFINE, KEEP, 2) AROUND(around, keep_around_refine_op, REFINE, KEEP, 3)
AROUND(extend, extend_op, REFINE, KEEP, 1) AROUND(extend, extend_op, REFINE, KEEP, 2) AROUND(extend, extend_op, REFINE, KEEP, 3)
#define TTK(d, w) \
W void C07_tokeep_##d##d_w##w##__impl A##d noexcept { F t; tag_to_keep_op<d, Int> C##d (Dim<d>{}, t, std::integral_constant<int, w>{}); } \
W void C07_tokeep_##d##d_w##w##__spec A##d noexcept { LN##d(w) NB##d |= KEEP; } \
W void C07_tokeepif_##d##d_w##w##__impl A##d noexcept { F t; tag_to_keep_op<d, Int> C##d (Dim<d>{}, t, CellFlag::refine, std::integral_constant<int, w>{}); } \
W void C07_tokeepif_##d##d_w##w##__spec A##d noexcept { int m = ME##d & REFINE; if (m) LN##d(w) NB##d |= KEEP; }
TTK(1, 0) TTK(1, 1) TTK(1, 2) TTK(2, 0) TTK(2, 1) TTK(2, 2) TTK(3, 0) TTK(3, 1)
// balance: the cell behind the direction inherits keep
#define ST1 int d0
#define ST2 int d0, int d1
#define ST3 int d0, int d1, int d2
W void C07_balance_1d__impl(size_t level, int s, int d0) noexcept { F t; balance_2to1_op<1, Int>(level, Int{s, s + 1})(Dim<1>{}, t, I1{d0}); }
W void C07_balance_1d__spec(size_t level, int s, int d0) noexcept { F::el(level, s - d0) |= F::el(level, s) & KEEP; }
W void C07_balance_2d__impl(size_t level, int s, int j, int d0, int d1) noexcept { F t; balance_2to1_op<2, Int>(level, Int{s, s + 1}, j)(Dim<2>{}, t, I2{d0, d1}); }
W void C07_balance_2d__spec(size_t level, int s, int j, int d0, int d1) noexcept { F::el(level, s - d0, j - d1) |= F::el(level, s, j) & KEEP; }
W void C07_balance_3d__impl(size_t level, int s, int j, int k, int d0, int d1, int d2) noexcept { F t; balance_2to1_op<3, Int>(level, Int{s, s + 1}, j, k)(Dim<3>{}, t, I3{d0, d1, d2}); }
W void C07_balance_3d__spec(size_t level, int s, int j, int k, int d0, int d1, int d2) noexcept { F::el(level, s - d0, j - d1, k - d2) |= F::el(level, s, j, k) & KEEP; }
// graduation of refinement: a kept fine cell refines the coarse cell under it
#define GR(par) \
W void C07_mkgrad_1d_p##par##__impl(size_t level, int q) noexcept { F t; int s = 2 * q + par; make_graduation_op<1, Int>(level, Int{s, s + 1})(Dim<1>{}, t); } \
W void C07_mkgrad_1d_p##par##__spec(size_t level, int q) noexcept { if (F::el(level, 2 * q + par) & KEEP) F::el(level - 1, q) |= REFINE; } \
W void C07_mkgrad_2d_p##par##__impl(size_t level, int q, int j) noexcept { F t; int s = 2 * q + par; make_graduation_op<2, Int>(level, Int{s, s + 1}, j)(Dim<2>{}, t); } \
W void C07_mkgrad_2d_p##par##__spec(size_t level, int q, int j) noexcept { if (F::el(level, 2 * q + par, j) & KEEP) F::el(level - 1, q, j >> 1) |= REFINE; } \
W void C07_mkgrad_3d_p##par##__impl(size_t level, int q, int j, int k) noexcept { F t; int s = 2 * q + par; make_graduation_op<3, Int>(level, Int{s, s + 1}, j, k)(Dim<3>{}, t); } \
W void C07_mkgrad_3d_p##par##__spec(size_t level, int q, int j, int k) noexcept { if (F::el(level, 2 * q + par, j, k) & KEEP) F::el(level - 1, q, j >> 1, k >> 1) |= REFINE; }
using G = FR<0>;
#define GG(par) \
W void C07_graduate_1d_p##par##__impl(size_t level, int q, int d0) noexcept { G t; int s = 2 * q + par; graduate_op<1, Int>(level, Int{s, s + 1})(Dim<1>{}, t, I1{d0}); } \
W void C07_graduate_1d_p##par##__spec(size_t level, int q, int d0) noexcept { int f = G::el(level, 2 * q + par - d0); G::el(level - 1, q) |= f & (REFINE | KEEP); } \
W void C07_graduate_2d_p##par##__impl(size_t level, int q, int j, int d0, int d1) noexcept { G t; int s = 2 * q + par; graduate_op<2, Int>(level, Int{s, s + 1}, j)(Dim<2>{}, t, I2{d0, d1}); } \
W void C07_graduate_2d_p##par##__spec(size_t level, int q, int j, int d0, int d1) noexcept { int f = G::el(level, 2 * q + par - d0, j - d1); G::el(level - 1, q, j >> 1) |= f & (REFINE | KEEP); } \
W void C07_graduate_3d_p##par##__impl(size_t level, int q, int j, int k, int d0, int d1, int d2) noexcept { G t; int s = 2 * q + par; graduate_op<3, Int>(level, Int{s, s + 1}, j, k)(Dim<3>{}, t, I3{d0, d1, d2}); } \
W void C07_graduate_3d_p##par##__spec(size_t level, int q, int j, int k, int d0, int d1, int d2) noexcept { int f = G::el(level, 2 * q + par - d0, j - d1, k - d2); G::el(level - 1, q, j >> 1, k >> 1) |= f & (REFINE | KEEP); }
GR(0) GR(1) GG(0) GG(1)
