#include "vp.hpp"
using namespace samurai;
struct O { int s, e, idx, st; };
static O o(const Int& i) { return {i.start, i.end, (int)i.index, i.step}; }
#define IV Int i{s, e, x}; i.step = st
#define ARGS int s, int e, int x, int st, int v
#define SH(NAME, EXPR, A, B, X, S) \
 W O C01_##NAME##__impl(ARGS) noexcept { IV; auto r = (EXPR); return o(r); } \
 W O C01_##NAME##__spec(ARGS) noexcept { return {A, B, X, S}; }
SH(plus, i + v, s + v, e + v, x, st)
SH(plus_l, v + i, s + v, e + v, x, st)
SH(minus, i - v, s - v, e - v, x, st)
SH(times, i * v, s * v, e * v, x, st * v)
SH(times_l, v * i, s * v, e * v, x, st * v)
SH(pluseq, (i += v), s + v, e + v, x, st)
SH(minuseq, (i -= v), s - v, e - v, x, st)
SH(timeseq, (i *= v), s * v, e * v, x, st * v)
SH(plus_minus, (i + v) - v, s, e, x, st)
W bool C01_size__true(ARGS) noexcept { IV; __builtin_assume(s <= e); return (int)i.size() == e - s; }
W bool C01_contains__impl(ARGS) noexcept { IV; return i.contains(v); }
W bool C01_contains__spec(ARGS) noexcept { return v >= s && v < e; }
W bool C01_valid__impl(ARGS) noexcept { IV; return i.is_valid(); }
W bool C01_valid__spec(ARGS) noexcept { return s < e; }
W O C01_default__impl() noexcept { Int i; return o(i); }
W O C01_default__spec() noexcept { return {0, 0, 0, 1}; }
W O C01_ctor__impl(int s, int e, int x) noexcept { Int i{s, e, x}; return o(i); }
W O C01_ctor__spec(int s, int e, int x) noexcept { return {s, e, x, 1}; }
W O C01_ctor2__impl(int s, int e) noexcept { Int i{s, e}; return o(i); }
W O C01_ctor2__spec(int s, int e) noexcept { return {s, e, 0, 1}; }

// coarsening / refinement by n levels: smallest enclosing interval
#define SHN(NAME, EXPR, A, B, X, S) \
 W O C01_##NAME##__impl(int s, int e, int x, int st, size_t n_shift) noexcept { IV; __builtin_assume(s < e); auto r = (EXPR); return o(r); } \
 W O C01_##NAME##__spec(int s, int e, int x, int st, size_t n_shift) noexcept { return {A, B, X, S}; }
SHN(coarsen, i >> n_shift, s >> n_shift, ((e - 1) >> n_shift) + 1, x, 1)
SHN(coarseneq, (i >>= n_shift), s >> n_shift, ((e - 1) >> n_shift) + 1, x, 1)
SHN(refine, i << n_shift, s << n_shift, e << n_shift, x, 1)
SHN(refineeq, (i <<= n_shift), s << n_shift, e << n_shift, x, 1)
SHN(roundtrip, (i << n_shift) >> n_shift, s, e, x, 1)
// explicit set statements for one level: c in i>>1 iff one of 2c,2c+1 in i ; c in i<<1 iff c/2 in i
W bool C01_coarsen1_set__true(int s, int e, int c) noexcept { Int i{s, e}; __builtin_assume(s < e); Int r = i >> 1; return r.contains(c) == (i.contains(2 * c) || i.contains(2 * c + 1)); }
W bool C01_refine1_set__true(int s, int e, int c) noexcept { Int i{s, e}; __builtin_assume(s < e); Int r = i << 1; return r.contains(2 * c) == i.contains(c) && r.contains(2 * c + 1) == i.contains(c); }

// parity selections
W bool C01_even_set__true(int s, int e, int c) noexcept {
  Int i{s, e}; __builtin_assume(s < e); Int r = i.even_elements(); // members are r.start, r.start+2, ... < r.end
  bool in = c >= r.start && c < r.end && ((c - r.start) & 1) == 0; return in == (i.contains(c) && (c & 1) == 0) && r.step == 2; }
W bool C01_odd_set__true(int s, int e, int c) noexcept {
  Int i{s, e}; __builtin_assume(s < e); Int r = i.odd_elements();
  bool in = c >= r.start && c < r.end && ((c - r.start) & 1) == 0; return in == (i.contains(c) && (c & 1) == 1) && r.step == 2; }
W long C01_even_index__impl(int s, int e, long x) noexcept { Int i{s, e, x}; return i.even_elements().index; }
W long C01_even_index__spec(int s, int e, long x) noexcept { return x; }
W long C01_odd_index__impl(int s, int e, long x) noexcept { Int i{s, e, x}; return i.odd_elements().index; }
W long C01_odd_index__spec(int s, int e, long x) noexcept { return x; }

// relations
#define TWO int s, int e, int x, int st, int s2, int e2, int x2, int st2
#define IV2 IV; Int j{s2, e2, x2}; j.step = st2
W bool C01_eq__impl(TWO) noexcept { IV2; return i == j; }
W bool C01_eq__spec(TWO) noexcept { return s == s2 && e == e2 && x == x2 && st == st2; }
W bool C01_ne__impl(TWO) noexcept { IV2; return i != j; }
W bool C01_ne__spec(TWO) noexcept { return !(s == s2 && e == e2 && x == x2 && st == st2); }
W bool C01_lt__impl(TWO) noexcept { IV2; return i < j; }
W bool C01_lt__spec(TWO) noexcept { return s < s2; }
