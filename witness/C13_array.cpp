// FLAGS: -DFLUX_CONTAINER_array
// PARTS: 2
// the container of fluxes (FLUX_CONTAINER_array): componentwise arithmetic; matrix-vector products
#include "vp.hpp"
#include <samurai/schemes/fv/utils.hpp>
extern "C" { double comp(int which, int i) PURE; double wgt(int i) PURE; double ent(int i, int j) PURE; }
using namespace samurai;
template <size_t n> using A = AlgebraicArray<double, n>;
template <size_t n> A<n> make(int w) { A<n> a; for (size_t i = 0; i < n; ++i) a[i] = comp(w, int(i)); return a; }
template <size_t n> double sum(const A<n>& a) { double r = 0; for (size_t i = 0; i < n; ++i) r += wgt(int(i)) * a(i); return r; }
template <class F> double spec(size_t n, F f) { double r = 0; for (size_t i = 0; i < n; ++i) r += wgt(int(i)) * f(comp(1, int(i)), comp(2, int(i))); return r; }
// value of the expression, then the operands are what they were (when they are not modified)
#define OP(nm, e, s) W double C13_arr_##nm##_2__impl(double x) { auto a = make<2>(1), b = make<2>(2); A<2> r = e; return sum<2>(r) + 3 * sum<2>(a) + 5 * sum<2>(b); } W double C13_arr_##nm##_2__spec(double x) { return spec(2, [x](double p, double q) { return (s) + 3 * p + 5 * q; }); } \
  W double C13_arr_##nm##_3__impl(double x) { auto a = make<3>(1), b = make<3>(2); A<3> r = e; return sum<3>(r); } W double C13_arr_##nm##_3__spec(double x) { return spec(3, [x](double p, double q) { return s; }); }
#define MOD(nm, e, s) W double C13_arr_##nm##_2__impl(double x) { auto a = make<2>(1), b = make<2>(2); e; return sum<2>(a) + 5 * sum<2>(b); } W double C13_arr_##nm##_2__spec(double x) { return spec(2, [x](double p, double q) { return (s) + 5 * q; }); } \
  W double C13_arr_##nm##_3__impl(double x) { auto a = make<3>(1), b = make<3>(2); e; return sum<3>(a); } W double C13_arr_##nm##_3__spec(double x) { return spec(3, [x](double p, double q) { return s; }); }
#if VP_PART == 0
OP(add, a + b, p + q) OP(sub, a - b, p - q) OP(mul, a * b, p * q) OP(div, a / b, p / q) OP(neg, -a, -p) OP(scal, x * a, x * p) OP(lacs, a * x, x * p) OP(scald, a / x, p / x) OP(shift, x + a, x + p) OP(tfihs, a + x, p + x) OP(comb, x * a + 2. * b, x * p + 2 * q) OP(rv, a + 2. * b - b, p + q) OP(rv2, (a + b) + (a - b), 2 * p) OP(rv3, (a + b) * x, (p + q) * x)
#endif
#if VP_PART == 1
MOD(iadd, a += b, p + q) MOD(isub, a -= b, p - q) MOD(imul, a *= b, p * q) MOD(idiv, a /= b, p / q) MOD(iadds, a += x, p + x) MOD(isubs, a -= x, p - x) MOD(imuls, a *= x, p * x) MOD(idivs, a /= x, p / x) MOD(fill, a.fill(x), x)
W double C13_arr_init__impl(double x, double y) { A<2> a{x, y}; A<2> b(x); A<2> c(std::array<double, 2>{y, x}); return sum<2>(a) + 3 * sum<2>(b) + 5 * sum<2>(c); }
W double C13_arr_init__spec(double x, double y) { return wgt(0) * (x + 3 * x + 5 * y) + wgt(1) * (y + 3 * x + 5 * x); }
// matrix-vector products
template <size_t r, size_t c> auto mat() { Matrix<double, r, c> m; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = ent(int(i), int(j)); return m; }
#define MV(r, c) W double C13_matvec_##r##_##c##__impl() { auto v = make<c>(1); auto y = mat_vec(mat<r, c>(), v); double s = 0; for (size_t i = 0; i < r; ++i) s += wgt(int(i)) * y(i); return s; } W double C13_matvec_##r##_##c##__spec() { double s = 0; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) s += wgt(i) * ent(i, j) * comp(1, j); return s; }
#define EYE(r) W double C13_eye_##r##__impl() { auto m = eye<double, r, r>(), z = zeros<double, r, r>(); double s = 0; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < r; ++j) s += ent(int(i), int(j)) * (m(i, j) + 7 * z(i, j)); return s; } W double C13_eye_##r##__spec() { double s = 0; for (int i = 0; i < r; ++i) s += ent(i, i); return s; }
EYE(2) EYE(3)
W double C13_matvec_1__impl(double a, double b) { return mat_vec(a, b) + 3 * eye<double>() + 5 * zeros<double>(); } W double C13_matvec_1__spec(double a, double b) { return a * b + 3; }
#endif
