// the cells of the adapted mesh follow from the marks of the cells of the current mesh
#include "mkspec.hpp"
using namespace samurai;
using A1 = mk::Mesh<1, 1, 3>; using A2 = mk::Mesh<2, 1, 3>; using A3 = mk::Mesh<3, 2, 3>; using A0 = mk::Mesh<2, 0, 1>;
// what is replaced: the new mesh shows up as the identities of the cell sets of the mesh after the call
template <class M> void ids(const M& m, double* w) { for (int l = M::lmin; l <= M::lmax; ++l) w[l] = vp_boxd(m.ca[0].a[l].id); }
template <class M> bool cells_spec(const double* t, double* nid, bool& same) {
  using S = Sp<M::dim>; double acc[mk::NL]; for (int k = 0; k < mk::NL; ++k) acc[k] = 0;
  for (int l = M::lmin; l <= M::lmax; ++l) if (S::in(CELLS, l, l)) {
    int x = S::p(0, l), y = S::p(1, l), z = S::p(2, l); int f = flag_at(t[0], mesh_index(size_t(l), x, y, z));
    if (f & 4) { if (l < M::lmax) { for (int c = 0; c < (M::dim > 2 ? 2 : 1); ++c) for (int b = 0; b < (M::dim > 1 ? 2 : 1); ++b) for (int a = 0; a < 2; ++a) acc[l + 1] += cell_term(2 * x + a, M::dim > 1 ? 2 * y + b : 0, M::dim > 2 ? 2 * z + c : 0); } else acc[l] += cell_term(x, y, z); }
    else if (f & 1) acc[l] += cell_term(x, y, z);
    else if (f & 2) { if (l > M::lmin) acc[l - 1] += cell_term(x >> 1, y >> 1, z >> 1); else acc[l] += cell_term(x, y, z); } }
  same = true;
  for (int l = M::lmin; l <= M::lmax; ++l) { nid[l] = vp_boxd(acc[l]); same = same & set_eq(vp_boxd(double(CELLS)), vp_boxd(nid[l])); }
  return same; }
template <class M> bool run_spec(const double* t, double* w) { double nid[mk::NL]; bool same; cells_spec<M>(t, nid, same); for (int l = M::lmin; l <= M::lmax; ++l) w[l] = same ? vp_boxd(double(CELLS)) : vp_boxd(nid[l]); return same; }
#define CE(nm, M) W bool C08_cells_##nm##__impl(const double* t, double* w) { M m; Field<M, int, 1, false> tag("t", m); ldf(tag, t); bool r = samurai::update_field(tag); ids(m, w); return r; } \
  W bool C08_cells_##nm##__spec(const double* t, double* w) { return run_spec<M>(t, w); } \
  W bool C08_cells_mr_##nm##__impl(const double* t, double* w) { M m; Field<M, int, 1, false> tag("t", m); ldf(tag, t); Field<M, double, 1, false> f("u", m); bool r = samurai::update_field_mr(tag, f); ids(m, w); return r; } \
  W bool C08_cells_mr_##nm##__spec(const double* t, double* w) { return run_spec<M>(t, w); }
CE(1, A1) CE(2, A2) CE(3, A3) CE(0, A0)
