// ghost updates of the other mesh kinds and the all-level forms
#include "mkspec.hpp"
using namespace samurai;
template <class M> using FD = Field<M, double, 1, false>;
using A1 = mk::Mesh<1, 2, 4, 1, 4>; using A2 = mk::Mesh<2, 2, 4, 1, 4>; using A3 = mk::Mesh<3, 2, 3, 1, 3, 3, 2>;
#define GO(nm, call, ...) W void C20_##nm##__impl(const double* u, double* w) { using M = __VA_ARGS__; M m; FD<M> f("u", m); ldf(f, u); samurai::call; stf(f, w); }
#define SPEC(nm, fn, ...) W void C20_##nm##__spec(const double* u, double* w) { using M = __VA_ARGS__; double v[mk::NL]; for (int k = 0; k < mk::NL; ++k) v[k] = u[k]; fn<M>(v); for (int k = 0; k < mk::NL; ++k) w[k] = v[k]; }
template <class M> void plain(double* v) {
  using S = Sp<M::dim>; constexpr int P = 2 + 10 * int(M::config::prediction_order);
  for (int l = M::lmax; l >= 1; --l) v[l - 1] = S::in(PROJ, l, l - 1) & S::in(ALL, l - 1, l - 1) ? B(OPROJ, l - 1, v[l]) : v[l - 1];
  v[0] = B(OBC, 0, v[0]);
  for (int l = M::rmin; l <= M::lmax; ++l) { v[l] = S::in(PREDC, l, l) & S::in(ALL, l - 1, l) ? B(P, l, v[l - 1]) : v[l]; v[l] = B(OBC, l, v[l]); } }
GO(plain1, update_ghost(f), A1) SPEC(plain1, plain, A1) GO(plain2, update_ghost(f), A2) SPEC(plain2, plain, A2) GO(plain3, update_ghost(f), A3) SPEC(plain3, plain, A3)
template <class M> void mro(double* v) {
  using S = Sp<M::dim>; constexpr int P = 2 + 10 * int(M::config::prediction_order);
  for (int l = M::lmax; l >= 1; --l) v[l - 1] = S::in(ALL, l, l - 1) & S::in(PROJ, l - 1, l - 1) ? B(OPROJ, l - 1, v[l]) : v[l - 1];
  v[0] = B(OBC, 0, v[0]);
  for (int l = M::rmin; l <= M::lmax; ++l) { bool m = S::in(ALL, l, l) & !(S::in(CELLS, l, l) | S::in(PROJ, l, l)) & S::in(DOM, M::lmax, l); v[l] = m ? B(P, l, v[l - 1]) : v[l]; v[l] = B(OBC, l, v[l]); } }
GO(mro1, update_ghost_mro(f), A1) SPEC(mro1, mro, A1) GO(mro2, update_ghost_mro(f), A2) SPEC(mro2, mro, A2)
template <class M> void ovl(double* v) {
  using S = Sp<M::dim>;
  v[M::lmin] = B(OBC, M::lmin, v[M::lmin]);
  for (int l = M::lmin + 1; l <= M::lmax; ++l) { bool m = S::in(OVL, l, l) & !S::in(CAG, l, l) & !S::in(PROJ, l, l); v[l] = m ? B(OPRED1, l, v[l - 1]) : v[l]; v[l] = B(OBC, l, v[l]); } }
GO(overleaves1, update_overleaves_mr(f), A1) SPEC(overleaves1, ovl, A1) GO(overleaves2, update_overleaves_mr(f), A2) SPEC(overleaves2, ovl, A2)
template <class M> void bcall(double* v) { for (int l = M::rmin; l <= M::rmax; ++l) v[l] = B(OBC, l, v[l]); }
GO(bc_levels, update_bc(f), A2) SPEC(bc_levels, bcall, A2)
template <class M> void perall(double* v) { for (int l = M::rmin; l <= M::rmax; ++l) v[l] = B(OPER, l, v[l]); }
GO(per_levels, update_ghost_periodic(f), A2) SPEC(per_levels, perall, A2)
// all given fields
W void C20_bc_many__impl(const double* u, const double* v, double* w, double* x) { A2 m; FD<A2> f("u", m), g("v", m); ldf(f, u); ldf(g, v); samurai::update_bc(f, g); stf(f, w); stf(g, x); }
W void C20_bc_many__spec(const double* u, const double* v, double* w, double* x) { for (int k = 0; k < mk::NL; ++k) { bool in = k >= A2::rmin && k <= A2::rmax; w[k] = in ? B(OBC, k, u[k]) : u[k]; x[k] = in ? B(OBC, k, v[k]) : v[k]; } }
W void C20_plain_many__impl(const double* u, const double* v, double* w, double* x) { A2 m; FD<A2> f("u", m), g("v", m); ldf(f, u); ldf(g, v); samurai::update_ghost(f, g); stf(f, w); stf(g, x); }
W void C20_plain_many__spec(const double* u, const double* v, double* w, double* x) { double a[mk::NL], b[mk::NL]; for (int k = 0; k < mk::NL; ++k) { a[k] = u[k]; b[k] = v[k]; } plain<A2>(a); plain<A2>(b); for (int k = 0; k < mk::NL; ++k) { w[k] = a[k]; x[k] = b[k]; } }
