// data transfer to the adapted mesh
#include "mkspec.hpp"
using namespace samurai;
template <class M> using FD = Field<M, double, 1, false>;
using A1 = mk::Mesh<1, 1, 3>; using A2 = mk::Mesh<2, 1, 4, 1, 4, 2, 1>; using A3 = mk::Mesh<3, 0, 2, 0, 2, 3, 2>;
// old cell of the same level: value kept; old cells one level finer: mean; old cell one level coarser: prediction; otherwise 0
template <class M> void tr(const double* u, double* w) {
  using S = Sp<M::dim>; constexpr int P = 2 + 10 * int(M::config::prediction_order);
  for (int k = 0; k < mk::NL; ++k) w[k] = 0;
  for (int l = M::lmin; l <= M::lmax; ++l) {
    double r = 0;
    if (S::in(CELLS, l, l) & S::in(200, l, l)) r = u[l];
    if (l < M::lmax) r = (S::in(CELLS, l + 1, l) & S::in(200, l, l)) ? B(OPROJ, l, u[l + 1]) : r;
    if (l > M::lmin) { int x = S::p(0, l) >> 1, y = S::p(1, l) >> 1, z = S::p(2, l) >> 1; r = (S::at(200, l, l - 1, x, y, z) & S::at(CELLS, l - 1, l - 1, x, y, z)) ? B(P, l, u[l - 1]) : r; }
    w[l] = r; } }
// cells of one mesh do not overlap across levels: an old cell excludes its children and its parent
template <class M> void disjoint() {
  using S = Sp<M::dim>;
  for (int l = M::lmin; l <= M::lmax; ++l) {
    bool same = S::in(CELLS, l, l), fine = l < M::lmax && S::in(CELLS, l + 1, l);
    int x = S::p(0, l) >> 1, y = S::p(1, l) >> 1, z = S::p(2, l) >> 1;
    bool coarse = l > M::lmin && S::at(CELLS, l - 1, l - 1, x, y, z);
    vp_assume(!(same & fine)); vp_assume(!(same & coarse)); vp_assume(!(fine & coarse)); } }
#define TR(nm, M) W void C08_transfer_##nm##__impl(const double* u, double* w) { disjoint<M>(); M m(1), n(2); FD<M> f("u", m); ldf(f, u); samurai::detail::update_fields(n, f); stf(f, w); } \
  W void C08_transfer_##nm##__spec(const double* u, double* w) { disjoint<M>(); tr<M>(u, w); }
TR(1, A1) TR(2, A2) TR(3, A3)
// several fields and tuples of fields: all of them
W void C08_transfer_many__impl(const double* u, const double* v, double* w, double* x) { disjoint<A1>(); A1 m(1), n(2); FD<A1> f("u", m); Field<A1, double, 2, true> g("v", m); ldf(f, u); ldf(g, v); samurai::detail::update_fields(n, f, g); stf(f, w); stf(g, x); }
W void C08_transfer_many__spec(const double* u, const double* v, double* w, double* x) { disjoint<A1>(); tr<A1>(u, w); tr<A1>(v, x); }
W void C08_transfer_tuple__impl(const double* u, const double* v, const double* t, double* w, double* x, double* s) { disjoint<A1>(); A1 m(1), n(2); FD<A1> f("u", m), h("t", m); Field<A1, double, 2, true> g("v", m); ldf(f, u); ldf(g, v); ldf(h, t); Field_tuple<FD<A1>, Field<A1, double, 2, true>> ft(f, g); samurai::detail::update_fields(n, ft, h); stf(f, w); stf(g, x); stf(h, s); }
W void C08_transfer_tuple__spec(const double* u, const double* v, const double* t, double* w, double* x, double* s) { disjoint<A1>(); tr<A1>(u, w); tr<A1>(v, x); tr<A1>(t, s); }
