// FLAGS: -fno-access-control -I$VERIF/witness/stub
// one adaptation step: criteria, thresholds, enlargement, graduation phases and their sets
#include "mkspec.hpp"
extern "C" bool adapted(double) PURE;
namespace mk {
  template <class F> double hash_of(const F& f) { double s = 0; for (int l = 0; l < NL; ++l) s = Fop(31, l, st(f, l), vp_boxd(s), 0, 0, 0, 0); return vp_boxd(s); }
  template <class F> void moved(F& f, double h) { for (int l = 0; l < NL; ++l) f.v[size_t(l)] = Fop(30, l, st(f, l), h, 0, 0, 0, 0); }
  template <class... T> void moved(samurai::Field_tuple<T...>& f, double h) { std::apply([&](auto&... e) { (moved(e, h), ...); }, f.elements()); }
  template <MKT, class T, size_t n, bool SOA, class... O> void update_ghost_mr(samurai::Field<MKM, T, n, SOA>& f, O&... o) { ghosts(f); (ghosts(o), ...); }
  template <MKT, class T, size_t n, bool SOA> void update_ghost_mr(samurai::Field<MKM, T, n, SOA>& f) { ghosts(f); }
  template <MKT, class G, class F, class... O> bool update_field_mr(const samurai::Field<MKM, G, 1, false>& t, F& f, O&... o) { double h = hash_of(t); moved(f, h); (moved(o, h), ...); return adapted(h); }
}
#include <samurai/mr/adapt.hpp>
using namespace samurai;
struct SpState { double v[mk::NL]; };
static double hsh(const double* v) { double s = 0; for (int l = 0; l < mk::NL; ++l) s = Fop(31, l, bx(v[l]), bx(s), 0, 0, 0, 0); return bx(s); }
static void gh(double* v) { double s = 0; for (int l = 0; l < mk::NL; ++l) s = Fop(24, l, bx(v[l]), bx(s), 0, 0, 0, 0); for (int l = 0; l < mk::NL; ++l) v[l] = Fop(23, l, bx(s), 0, 0, 0, 0, 0); }
static void pair2(int op, double m, double* t, int L, int Q, double x, double y, double z) { double a = bx(t[L]), b = bx(t[Q]); t[L] = Fop(op, L, m, a, b, x, y, z); t[Q] = Fop(op, Q, m, a, b, x, y, z); }
template <class M, bool enl, int nf> bool harten_spec(int ite, double eps, double reg, double* tag, double* dt, double** f, double* other) {
  using S = Sp<M::dim>; constexpr int D = int(M::dim), lo = M::lmin, hi = M::lmax, gw = int(M::config::graduation_width);
  for (int l = lo; l <= hi; ++l) tag[l] = S::in(CELLS, l, l) ? 1. : tag[l];
  for (int q = 0; q < nf; ++q) gh(f[q]);
  for (int l = lo > 0 ? lo - 1 : 0; l < hi - ite; ++l) {                         // details of every cell whose parent is available
    double m = msk(S::in(ALL, l, l) & S::in(CELLS, l + 1, l));
    for (int q = 0; q < nf; ++q) { double a = bx(f[q][l]), b = bx(f[q][l + 1]); dt[l] = Fop(12, l, m, bx(dt[l]), a, b, 0, 0); dt[l + 1] = Fop(12, l + 1, m, bx(dt[l + 1]), a, b, 0, 0); } }
  for (int l = lo; l <= hi - ite; ++l) {                                         // criteria: threshold halved in every direction per level below the finest
    double e = eps; for (int k = 0; k < D * (hi - l); ++k) e /= 2;
    double r = e; r *= __builtin_pow(2.0, reg + D);
    double m = msk(S::in(CELLS, l, l - 1) & S::in(ALL, l - 1, l - 1));
    tag[l] = Fop(13, l, m, bx(tag[l]), bx(dt[l]), e, lo, 0);
    tag[l] = Fop(14, l, m, bx(tag[l]), bx(dt[l - 1]), bx(dt[l]), r, hi); }
  for (int l = lo; l <= hi - ite; ++l) {
    double m = msk(S::in(CELLS, l, l)), g = msk(S::in(CAG, l, l));
    tag[l] = Fop(3, l, m, bx(tag[l]), 0, 0, 0, 0);
    if (enl) { tag[l] = Fop(4, l, m, bx(tag[l]), 0, 0, 0, 0); tag[l] = Fop(11, l, g, bx(tag[l]), 0, 8, 0, 0); }
    tag[l] = B(OTPER, l, tag[l]); }
  auto dirs = [&](int is, int* s) { // order of the diagonal directions of one phase
    static const int d1[2][1] = {{-1}, {1}}; static const int d2[4][2] = {{-1, 1}, {1, 1}, {-1, -1}, {1, -1}};
    static const int d3[8][3] = {{-1, -1, -1}, {1, -1, -1}, {-1, 1, -1}, {1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {-1, 1, 1}, {1, 1, 1}};
    s[0] = s[1] = s[2] = 0; for (int k = 0; k < D; ++k) s[k] = gw * (D == 1 ? d1[is][0] : D == 2 ? d2[is][k & 1] : d3[is][k]); };
  for (int l = hi; l > 0; --l) {
    pair2(6, msk(S::in(CELLS, l, l - 1) & S::in(ALL, l - 1, l - 1)), tag, l - 1, l, 0, 0, 0);
    for (int is = 0; is < (1 << D); ++is) { int s[3]; dirs(is, s); tag[l - 1] = Fop(9, l - 1, msk(S::in(CELLS, l, l - 1) & S::in(ALL, l - 1, l - 1, s[0], s[1], s[2])), bx(tag[l - 1]), s[0], s[1], s[2], 0); }
    tag[l] = B(OTPER, l, tag[l]); }
  for (int l = hi; l > lo; --l) {
    tag[l] = Fop(5, l, msk(S::in(CELLS, l, l)), bx(tag[l]), 0, 0, 0, 0);
    tag[l] = B(OTPER, l, tag[l]);
    for (int is = 0; is < (1 << D); ++is) { int s[3]; dirs(is, s); tag[l - 1] += Fop(7, l, msk(S::in(CELLS, l, l, s[0], s[1], s[2]) & S::in(ALL, l - 1, l) & S::in(DOM, hi, l)), bx(tag[l]), 0, 0, 0, 0); }
    tag[l] = B(OTPER, l, tag[l]); }
  for (int l = hi; l > 0; --l) { pair2(6, msk(S::in(CELLS, l, l - 1) & S::in(ALL, l - 1, l - 1)), tag, l - 1, l, 0, 0, 0); tag[l] = B(OTPER, l, tag[l]); }
  if (other) gh(other);
  double h = hsh(tag);
  for (int q = 0; q < nf; ++q) for (int l = 0; l < mk::NL; ++l) f[q][l] = Fop(30, l, bx(f[q][l]), h, 0, 0, 0, 0);
  if (other) for (int l = 0; l < mk::NL; ++l) other[l] = Fop(30, l, bx(other[l]), h, 0, 0, 0, 0);
  return adapted(h); }
template <class M> using FD = Field<M, double, 1, false>;
static void cp(double* a, const double* b) { for (int k = 0; k < mk::NL; ++k) a[k] = b[k]; }
#define HA(nm, enl, ite, reg, M) W bool C20_harten_##nm##__impl(double eps, const double* u, const double* d, const double* t, double* w, double* x) { M m; FD<M> f("u", m); ldf(f, u); Adapt<enl, FD<M>> a(f); ldf(a.m_detail, d); ldf(a.m_tag, t); bool r = a.harten(ite, eps, reg); stf(f, w); stf(a.m_tag, x); return r; } \
  W bool C20_harten_##nm##__spec(double eps, const double* u, const double* d, const double* t, double* w, double* x) { double f[mk::NL], D[mk::NL], T[mk::NL]; cp(f, u); cp(D, d); cp(T, t); double* fs[1] = {f}; bool r = harten_spec<M, enl, 1>(ite, eps, reg, T, D, fs, nullptr); cp(w, f); cp(x, T); return r; }
using A1 = mk::Mesh<1, 1, 3, 0, 3>; using A2 = mk::Mesh<2, 2, 4, 1, 4, 2, 1, 1, 2>; using A3 = mk::Mesh<3, 1, 2, 0, 2>;
HA(1, false, 0, 1., A1) HA(1e, true, 1, 0., A1) HA(2, false, 1, 2., A2) HA(2e, true, 0, 1., A2) HA(3, false, 0, 1., A3)
// several driving fields and a field that only follows
W bool C20_harten_many__impl(double eps, const double* u, const double* v, const double* o, const double* d, const double* t, double* w, double* x, double* y, double* z) { using M = A1; M m; FD<M> f("u", m), g("v", m), h("o", m); ldf(f, u); ldf(g, v); ldf(h, o); Adapt<false, FD<M>, FD<M>> a(f, g); ldf(a.m_detail, d); ldf(a.m_tag, t); bool r = a.harten(0, eps, 1., h); stf(f, w); stf(g, x); stf(h, y); stf(a.m_tag, z); return r; }
W bool C20_harten_many__spec(double eps, const double* u, const double* v, const double* o, const double* d, const double* t, double* w, double* x, double* y, double* z) { double f[mk::NL], g[mk::NL], h[mk::NL], D[mk::NL], T[mk::NL]; cp(f, u); cp(g, v); cp(h, o); cp(D, d); cp(T, t); double* fs[2] = {f, g}; bool r = harten_spec<A1, false, 2>(0, eps, 1., T, D, fs, h); cp(w, f); cp(x, g); cp(y, h); cp(z, T); return r; }

// the whole adaptation: ghosts first, at most max - min rounds, detail and marks reset before each round, stop when the mesh does not change
W void C20_adapt_loop__impl(double eps, const double* u, double* w) { using M = A1; M m; FD<M> f("u", m); ldf(f, u); Adapt<false, FD<M>> a(f); a(eps, 1.); stf(f, w); }
W void C20_adapt_loop__spec(double eps, const double* u, double* w) { double f[mk::NL]; cp(f, u); double* fs[1] = {f}; gh(f);
  for (int it = 0; it < A1::lmax - A1::lmin; ++it) { double D[mk::NL], T[mk::NL]; for (int k = 0; k < mk::NL; ++k) D[k] = T[k] = 0; if (harten_spec<A1, false, 1>(it, eps, 1., T, D, fs, nullptr)) break; }
  cp(w, f); }
using U1 = mk::Mesh<2, 3, 3>;
W void C20_adapt_uniform__impl(double eps, const double* u, double* w) { using M = U1; M m; FD<M> f("u", m); ldf(f, u); Adapt<false, FD<M>> a(f); a(eps, 1.); stf(f, w); }
W void C20_adapt_uniform__spec(double, const double* u, double* w) { cp(w, u); }
// graduation of user-provided marks
template <class M, size_t N, class St> void grad_spec(const St& st, double* t) { using S = Sp<M::dim>; constexpr int gw = int(M::config::graduation_width);
  for (int l = M::lmax; l > 0; --l) {
    t[l - 1] = Fop(11, l - 1, msk(S::in(CELLS, l, l - 1) & S::in(ALL, l - 1, l - 1)), bx(t[l - 1]), 0, 1, 0, 0);
    t[l] = Fop(11, l, msk(S::in(CELLS, l, l)), bx(t[l]), gw, 4, 0, 0);
    t[l] = Fop(10, l, msk(S::in(CELLS, l, l - 1)), bx(t[l]), 0, 0, 0, 0);
    for (size_t i = 0; i < N; ++i) { int s[3] = {0, 0, 0}; for (size_t k = 0; k < M::dim; ++k) s[k] = st(i, k); t[l - 1] += Fop(8, l, msk(S::in(CELLS, l, l, s[0], s[1], s[2]) & S::in(CELLS, l - 1, l)), bx(t[l]), s[0], s[1], s[2], 0); } } }
template <class M> using FI = Field<M, int, 1, false>;
#define GR(nm, M, N) W void C20_graduation_##nm##__impl(const double* t, int a, int b, int c, int e, double* w) { M m; FI<M> f("t", m); ldf(f, t); xt::xtensor_fixed<int, xt::xshape<N, M::dim>> st; int q[4] = {a, b, c, e}; for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < M::dim; ++k) st(i, k) = q[(2 * i + k) % 4]; graduation(f, st); stf(f, w); } \
  W void C20_graduation_##nm##__spec(const double* t, int a, int b, int c, int e, double* w) { double T[mk::NL]; cp(T, t); xt::xtensor_fixed<int, xt::xshape<N, M::dim>> st; int q[4] = {a, b, c, e}; for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < M::dim; ++k) st(i, k) = q[(2 * i + k) % 4]; grad_spec<M, N>(st, T); cp(w, T); }
GR(1, A1, 2) GR(2, A2, 2) GR(3, A3, 1)
