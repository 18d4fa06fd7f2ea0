// the fields are transferred to the new mesh before it replaces the current one, and left alone when the mesh does not change
#include "mkspec.hpp"
using namespace samurai;
using A1 = mk::Mesh<1, 1, 2>; using A2 = mk::Mesh<2, 1, 2>;
template <class M> void acc_spec(const double* t, double* nid) {
  using S = Sp<M::dim>; double acc[mk::NL]; for (int k = 0; k < mk::NL; ++k) acc[k] = 0;
  for (int l = M::lmin; l <= M::lmax; ++l) if (S::in(CELLS, l, l)) {
    int x = S::p(0, l), y = S::p(1, l); int f = flag_at(t[0], mesh_index(size_t(l), x, y, 0));
    if (f & 4) { if (l < M::lmax) { for (int b = 0; b < (M::dim > 1 ? 2 : 1); ++b) for (int a = 0; a < 2; ++a) acc[l + 1] += cell_term(2 * x + a, M::dim > 1 ? 2 * y + b : 0, 0); } else acc[l] += cell_term(x, y, 0); }
    else if (f & 1) acc[l] += cell_term(x, y, 0);
    else if (f & 2) { if (l > M::lmin) acc[l - 1] += cell_term(x >> 1, y >> 1, 0); else acc[l] += cell_term(x, y, 0); } }
  for (int l = 0; l < mk::NL; ++l) nid[l] = vp_boxd(acc[l]); }
template <class M> bool both(const double* t, const double* u, double* w, const double* v, double* x) {
  using S = Sp<M::dim>; double nid[mk::NL]; acc_spec<M>(t, nid);
  bool same = true; for (int l = M::lmin; l <= M::lmax; ++l) same = same & set_eq(vp_boxd(double(CELLS)), vp_boxd(nid[l]));
  for (int k = 0; k < mk::NL; ++k) { w[k] = same ? u[k] : 0; x[k] = same ? v[k] : 0; }
  if (!same) for (int q = 0; q < 2; ++q) { const double* U = q ? v : u; double* R = q ? x : w;
    for (int l = M::lmin; l <= M::lmax; ++l) {
      double r = 0; int X = S::p(0, l), Y = S::p(1, l);
      if (S::in(CELLS, l, l) & S::in(nid[l], l, l)) r = U[l];
      if (l < M::lmax) r = (S::in(CELLS, l + 1, l) & S::in(nid[l], l, l)) ? B(OPROJ, l, U[l + 1]) : r;
      if (l > M::lmin) r = (S::at(nid[l], l, l - 1, X >> 1, Y >> 1, 0) & S::at(CELLS, l - 1, l - 1, X >> 1, Y >> 1, 0)) ? B(OPRED1, l, U[l - 1]) : r;
      R[l] = r; } }
  return same; }
template <class M> void disjoint() {
  using S = Sp<M::dim>;
  for (int l = M::lmin; l <= M::lmax; ++l) {
    bool same = S::in(CELLS, l, l), fine = l < M::lmax && S::in(CELLS, l + 1, l);
    bool coarse = l > M::lmin && S::at(CELLS, l - 1, l - 1, S::p(0, l) >> 1, S::p(1, l) >> 1, 0);
    vp_assume(!(same & fine)); vp_assume(!(same & coarse)); vp_assume(!(fine & coarse)); } }
#define BO(nm, M, call) W bool C08_both_##nm##__impl(const double* t, const double* u, double* w, const double* v, double* x) { disjoint<M>(); M m; Field<M, int, 1, false> tag("t", m); ldf(tag, t); Field<M, double, 1, false> f("u", m); Field<M, double, 2, true> g("v", m); ldf(f, u); ldf(g, v); bool r = samurai::call(tag, f, g); stf(f, w); stf(g, x); return r; } \
  W bool C08_both_##nm##__spec(const double* t, const double* u, double* w, const double* v, double* x) { disjoint<M>(); return both<M>(t, u, w, v, x); }
BO(mr1, A1, update_field_mr) BO(mr2, A2, update_field_mr) BO(plain1, A1, update_field) BO(plain2, A2, update_field)
