// PARTS: 7
// set algebra on one row of cells, sets on different levels
#include "runs.hpp"
using namespace samurai; using namespace rn;
// p, q bounds of A and B; S: finest cells per unit; SA, SB: finest cells per cell of A, B; G: finest cells per compared cell; H: ... per cell of the result
#define LEV(nm, p, q, S, SA, LA, SB, LB, G, H, op, spec) W double C15_##nm##__impl() { double r = 0; FOR_ALL(k, (Pair<p, q, S, SA, SB>::N)) { Pair<p, q, S, SA, SB> s(k, LA, LB); auto& A = s.A; auto& B = s.B; (void)B; r += wgt(int(k)) * measure(op); } return r; } \
  W double C15_##nm##__spec() { double r = 0; FOR_ALL(k, (Pair<p, q, S, SA, SB>::N)) { Pair<p, q, S, SA, SB> s(k, LA, LB); r += wgt(int(k)) * s.expect(G, [](bool a, bool b) { (void)a; (void)b; return spec; }, H); } return r; }
#if VP_PART == 0
LEV(inter_cf, 2, 2, 2, 2, 3, 1, 4, 1, 1, intersection(A, B), a & b) LEV(union_cf, 2, 2, 2, 2, 3, 1, 4, 1, 1, union_(A, B), a | b) LEV(diff_cf, 2, 2, 2, 2, 3, 1, 4, 1, 1, difference(A, B), a & !b)
#endif
#if VP_PART == 1
LEV(diff_fc, 2, 2, 2, 1, 4, 2, 3, 1, 1, difference(A, B), a & !b)  LEV(inter_on, 2, 2, 2, 2, 3, 1, 4, 2, 2, intersection(A, B).on(3), a & b) LEV(union_on, 2, 2, 2, 2, 3, 1, 4, 2, 2, union_(A, B).on(3), a | b)
#endif
#if VP_PART == 2
LEV(diff_on, 2, 2, 2, 1, 4, 2, 3, 2, 2, difference(A, B).on(3), a & !b) LEV(proj, 4, 0, 2, 1, 4, 1, 4, 2, 2, intersection(A, A).on(3), a)
#endif
#if VP_PART == 3
LEV(up, 2, 2, 1, 1, 3, 1, 3, 1, 1, intersection(A, B).on(3), a & b) LEV(proj2, 2, 0, 4, 1, 5, 1, 5, 4, 4, intersection(A, A).on(3), a) LEV(emptya, 2, 0, 2, 1, 4, 2, 3, 1, 1, difference(A, B), a) LEV(emptyb, 2, 0, 2, 1, 4, 2, 3, 1, 1, union_(B, A), a) LEV(emptyc, 2, 0, 2, 1, 4, 2, 3, 1, 1, intersection(A, B), false) LEV(emptyd, 2, 0, 2, 1, 4, 2, 3, 1, 1, difference(B, A), false)
#endif
#if VP_PART == 4
// levels 3 and 5: two levels apart
LEV(inter_far, 2, 2, 4, 4, 3, 1, 5, 1, 1, intersection(A, B), a & b) LEV(diff_far, 2, 2, 4, 4, 3, 1, 5, 1, 1, difference(A, B), a & !b)
#endif
#if VP_PART == 5
LEV(union_far_on3, 2, 2, 4, 4, 3, 1, 5, 4, 4, union_(A, B).on(3), a | b) LEV(diff_far_on4, 2, 2, 4, 4, 3, 1, 5, 2, 2, difference(A, B).on(4), a & !b)
#endif
#if VP_PART == 6
// asked for on a level finer than the operands: the cells of the result are cut
LEV(inter_fin, 2, 2, 4, 4, 3, 2, 4, 2, 1, intersection(A, B).on(5), a & b) LEV(diff_fin, 2, 2, 4, 4, 3, 2, 4, 2, 1, difference(A, B).on(5), a & !b)
#endif
