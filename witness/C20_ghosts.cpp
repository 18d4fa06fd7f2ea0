// order and sets of the ghost update phases
#include "mkspec.hpp"
using namespace samurai;
template <class M> using FD = Field<M, double, 1, false>;
// multiresolution: project fine to coarse, fill the coarsest outer ghosts, then level by level predict, wrap around, outer ghosts
template <class M> void mr_spec(const double* u, double* w) {
  using S = Sp<M::dim>;
  double v[mk::NL]; for (int k = 0; k < mk::NL; ++k) v[k] = u[k];
  for (int l = M::rmax; l > M::rmin; --l) { v[l] = B(OPER, l, v[l]); v[l - 1] = S::in(ALL, l, l - 1) & S::in(PROJ, l - 1, l - 1) ? B(OPROJ, l - 1, v[l]) : v[l - 1]; }
  if (M::rmin > 0 && M::rmin != M::rmax) v[M::rmin - 1] = B(OPER, M::rmin - 1, B(OBC, M::rmin - 1, v[M::rmin - 1]));
  v[M::rmin] = B(OPER, M::rmin, B(OBC, M::rmin, v[M::rmin]));
  for (int l = M::rmin + 1; l <= M::rmax; ++l) {
    bool m = S::in(ALL, l, l) & !(S::in(CELLS, l, l) | S::in(PROJ, l, l)) & S::in(SUB, M::lmax, l) & S::in(ALL, l - 1, l);
    v[l] = m ? B(2 + 10 * int(M::config::prediction_order), l, v[l - 1]) : v[l];
    v[l] = B(OBC, l, B(OPER, l, v[l])); }
  for (int k = 0; k < mk::NL; ++k) w[k] = v[k]; }
#define MR(nm, ...) W void C20_mr_##nm##__impl(const double* u, double* w) { using M = __VA_ARGS__; M m; FD<M> f("u", m); ldf(f, u); samurai::update_ghost_mr(f); stf(f, w); } \
  W void C20_mr_##nm##__spec(const double* u, double* w) { mr_spec<__VA_ARGS__>(u, w); }
using A1 = mk::Mesh<1, 2, 4, 1, 4>; using A2 = mk::Mesh<2, 2, 4, 1, 4>; using A3 = mk::Mesh<3, 1, 3, 0, 3>; using A4 = mk::Mesh<2, 3, 3, 3, 3>; using A5 = mk::Mesh<2, 1, 4, 2, 3, 3, 2>;
MR(1, A1) MR(2, A2) MR(3, A3) MR(uniform, A4) MR(narrow, A5)
// several fields at once: each as if alone
W void C20_mr_many__impl(const double* u, const double* v, double* w, double* x) { A2 m; FD<A2> f("u", m); Field<A2, double, 2, false> g("v", m); ldf(f, u); ldf(g, v); samurai::update_ghost_mr(f, g); stf(f, w); stf(g, x); }
W void C20_mr_many__spec(const double* u, const double* v, double* w, double* x) { mr_spec<A2>(u, w); mr_spec<A2>(v, x); }
W void C20_mr_tuple__impl(const double* u, const double* v, double* w, double* x) { A2 m; FD<A2> f("u", m); Field<A2, double, 2, false> g("v", m); ldf(f, u); ldf(g, v); Field_tuple<FD<A2>, Field<A2, double, 2, false>> t(f, g); samurai::update_ghost_mr(t); stf(f, w); stf(g, x); }
W void C20_mr_tuple__spec(const double* u, const double* v, double* w, double* x) { mr_spec<A2>(u, w); mr_spec<A2>(v, x); }
