// PARTS: 4
// set algebra on one row of cells at one level
#include "runs.hpp"
using namespace samurai; using namespace rn;
template <size_t p, size_t q> struct R { Set<1> A{3}, B{3}; int x[p + q + 1]; const signed char *a, *b;
  R(size_t k) { a = ORD<p, q>.a[k]; b = ORD<p, q>.b[k]; for (size_t i = 0; i < p; i += 2) A.c[0].push_back(Iv(pos(a[i]), pos(a[i + 1]))); for (size_t i = 0; i < q; i += 2) B.c[0].push_back(Iv(pos(b[i]), pos(b[i + 1]))); }
  static bool in(const signed char* c, size_t n, int t) { for (size_t i = 0; i < n; i += 2) if (c[i] <= t && t < c[i + 1]) return true; return false; }
  template <class F> double expect(F f) { double r = 0; for (int t = 0; t < int(p + q); ++t) if (f(in(a, p, t), in(b, q, t))) r += run(pos(t), pos(t + 1)); return r; } };
#define BIN(nm, p, q, op, spec) W double C15_##nm##__impl() { double r = 0; for (size_t k = 0; k < delannoy(p, q); ++k) { R<p, q> s(k); auto& A = s.A; auto& B = s.B; r += wgt(int(k)) * measure(op); } return r; } \
  W double C15_##nm##__spec() { double r = 0; for (size_t k = 0; k < delannoy(p, q); ++k) { R<p, q> s(k); r += wgt(int(k)) * s.expect([](bool a, bool b) { return spec; }); } return r; }
#if VP_PART == 0
BIN(inter11, 2, 2, intersection(A, B), a & b) BIN(union11, 2, 2, union_(A, B), a | b) BIN(diff11, 2, 2, difference(A, B), a & !b)
#endif
#if VP_PART == 1
BIN(inter21, 4, 2, intersection(A, B), a & b) BIN(union21, 4, 2, union_(A, B), a | b)
#endif
#if VP_PART == 2
BIN(diff21, 4, 2, difference(A, B), a & !b) BIN(diff12, 2, 4, difference(A, B), a & !b)
#endif
#if VP_PART == 3
BIN(nest1, 2, 2, difference(union_(A, B), intersection(A, B)), a ^ b) BIN(nest2, 4, 2, intersection(A, difference(A, B)), a & !b) BIN(self, 4, 0, intersection(A, A), a) BIN(selfd, 4, 0, difference(A, A), false)
#endif
