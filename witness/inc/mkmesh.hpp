#pragma once
#include "mkset.hpp"
#include <samurai/algorithm/update.hpp>
#include <samurai/algorithm/graduation.hpp>
#include <samurai/mr/criteria.hpp>
extern "C" {
double Fop(int op, int level, double a, double b, double c, double d, double e, double f) PURE;
double Fmask(bool m) PURE;
bool set_eq(double a, double b) PURE;
bool periodic(int axis) PURE;
int flag_at(double st, long long i) PURE;
}
namespace mk {
  enum class Id { cells, cells_and_ghosts, proj_cells, union_cells, all_cells, overleaves, pred_cells, count, reference = all_cells };
  static constexpr int MESH_SETS = 7;
  template <size_t d, int MN, int MX, int RN, int RX, int GW, int PO, int MSW, int GRW> struct Mesh;
  template <size_t d, int GW, int PO, int MSW, int GRW> struct Config {
    static constexpr size_t dim = d, ghost_width = GW, prediction_order = PO, max_stencil_width = MSW, graduation_width = GRW, max_refinement_level = 20; using interval_t = Iv; using mesh_id_t = Id; };
  template <size_t d, int MN, int MX, int RN = MN, int RX = MX, int GW = 2, int PO = 1, int MSW = 1, int GRW = 1> struct Mesh {
    static constexpr size_t dim = d; static constexpr int lmin = MN, lmax = MX, rmin = RN, rmax = RX;
    using config = Config<d, GW, PO, MSW, GRW>;
    using mesh_id_t = Id; using interval_t = Iv; using cl_type = samurai::CellList<d, Iv, 20>; using ca_type = samurai::CellArray<d, Iv, 20>; using lca_type = Set<d>; using cell_t = samurai::Cell<d, Iv>; using lcl_type = samurai::LevelCellList<d, Iv>;
    using mesh_interval_t = samurai::MeshInterval<d, Iv>; using coords_t = xt::xtensor_fixed<double, xt::xshape<d>>; using value_t = int; using index_t = long long;
    ca_type ca[MESH_SETS]; Set<d> dom, sub;
    Mesh(double mesh = 1) : dom(mesh * 100 + 50, MX), sub(mesh * 100 + 51, MX) { for (int k = 0; k < MESH_SETS; ++k) ca[k] = ca_type(mesh * 100 + k, k == 4 ? RN : MN, k == 4 ? RX : MX); }
    Mesh(const cl_type& cl, const Mesh& o) : Mesh(2) { ca[0] = ca_type(cl); dom = o.dom; sub = o.sub; ca[0].mn = MN; ca[0].mx = MX; }
    const ca_type& operator[](Id i) const { return ca[int(i)]; }
    size_t min_level() const { return MN; }
    size_t max_level() const { return MX; }
    const Set<d>& domain() const { return dom; }
    const Set<d>& subdomain() const { return sub; }
    double scaling_factor() const { return 1; }
    bool is_periodic(size_t k) const { return periodic(int(k)); }
    double cell_length(size_t l) const { return 1. / double(1 << l); }
    bool operator==(const Mesh& o) const { bool r = true; for (int l = MN; l <= MX; ++l) r = r & set_eq(vp_boxd(ca[0].a[l].id), vp_boxd(o.ca[0].a[l].id)); return r; }
    bool operator!=(const Mesh& o) const { return !(*this == o); }
    void swap(Mesh& o) { for (int k = 0; k < MESH_SETS; ++k) for (int l = 0; l < NL; ++l) std::swap(ca[k].a[l].id, o.ca[k].a[l].id); std::swap(dom, o.dom); std::swap(sub, o.sub); }
  };
  template <class F> struct At { F* f; int l;
    template <class T> At& operator=(T x) { f->v[size_t(l)] = double(x); return *this; }
    operator double() const { return f->v[size_t(l)]; } };
}
#define MKM mk::Mesh<d, MN, MX, RN, RX, GW, PO, MSW, GRW>
#define MKT size_t d, int MN, int MX, int RN, int RX, int GW, int PO, int MSW, int GRW
namespace samurai {
  namespace detail { struct vp_field_base {}; }
  template <MKT, class T, size_t n, bool SOA> class Field<MKM, T, n, SOA> : public detail::vp_field_base {
  public:
    static constexpr size_t dim = d, size = n; static constexpr bool is_soa = SOA;
    using mesh_t = MKM; using value_type = T; using interval_t = mk::Iv; using cell_t = Cell<d, mk::Iv>; using index_t = long long;
    std::array<double, mk::NL> v; mesh_t* m;
    Field(const std::string&, mesh_t& mesh) : m(&mesh) { v.fill(0); }
    Field(const char*, mesh_t& mesh) : m(&mesh) { v.fill(0); }
    mesh_t& mesh() { return *m; }
    mesh_t& mesh() const { return *m; }
    auto& array() { return v; }
    void fill(double x) { v.fill(x); }
    void resize() { for (auto& x : v) x = Fop(900, 0, vp_boxd(x), 0, 0, 0, 0, 0); }
    mk::At<Field> operator[](const cell_t& c) { return {this, int(c.level)}; }
    int operator[](long long i) const { return flag_at(v[0], i); }
    void swap(Field& o) { std::swap(v, o.v); }
  };
}
namespace mk {
  inline double sel(bool m, double a, double b) { return m ? a : b; }
  template <class F> double st(const F& f, int L) { return vp_boxd(f.v[size_t(L)]); }
  template <class S> double mask(const S& s) { return vp_boxd(s.member_at_probe() ? 1. : 0.); }
  // pointwise operators: effective exactly where the written cell belongs to the set
  template <class S, class D, class Sr> void projection_at(const S& s, D& dst, const Sr& src) { int L = s.lv; dst.v[size_t(L)] = sel(s.member_at_probe(), Fop(1, L, st(src, L + 1), 0, 0, 0, 0, 0), dst.v[size_t(L)]); }
  template <size_t o, bool parent, class S, class D, class Sr> void prediction_at(const S& s, D& dst, const Sr& src) {
    int L = s.lv;
    if (parent) { constexpr size_t d = S::dim; bool m = s.member(L, pr<d>(0, L + 1) >> 1, pr<d>(1, L + 1) >> 1, pr<d>(2, L + 1) >> 1); dst.v[size_t(L + 1)] = sel(m, Fop(2 + 10 * int(o), L + 1, st(src, L), 0, 0, 0, 0, 0), dst.v[size_t(L + 1)]); }
    else dst.v[size_t(L)] = sel(s.member_at_probe(), Fop(2 + 10 * int(o), L, st(src, L - 1), 0, 0, 0, 0, 0), dst.v[size_t(L)]); }
  template <> struct opx<samurai::copy_op> { template <class S, class D, class Sr> static void run(const S& s, D& dst, const Sr& src) { dst.v[size_t(s.lv)] = sel(s.member_at_probe(), src.v[size_t(s.lv)], dst.v[size_t(s.lv)]); } };
  template <> struct opx<samurai::projection_op_> { template <class S, class D, class Sr> static void run(const S& s, D& dst, const Sr& src) { projection_at(s, dst, src); } };
  template <> struct opx<samurai::variadic_projection_op_> { template <class S, class... F> static void run(const S& s, F&... f) { (projection_at(s, f, f), ...); } };
  template <> struct opx<samurai::prediction_op> { template <class S, class D, class Sr, size_t o, bool b> static void run(const S& s, D& dst, const Sr& src, std::integral_constant<size_t, o>, std::integral_constant<bool, b>) { prediction_at<o, b>(s, dst, src); } };
  template <> struct opx<samurai::variadic_prediction_op> { template <class S, size_t o, bool b, class... F> static void run(const S& s, std::integral_constant<size_t, o>, std::integral_constant<bool, b>, F&... f) { (prediction_at<o, b>(s, f, f), ...); } };
  // operators that also write neighbours or children: opaque in the set (its mask at the probe) and the states of the levels they touch
  template <class F> void one(int op, double m, F& t, int L, double x = 0, double y = 0, double z = 0) { t.v[size_t(L)] = Fop(op, L, m, st(t, L), x, y, z, 0); }
  template <class F> void two(int op, double m, F& t, int L, int M, double x = 0, double y = 0, double z = 0) { double a = st(t, L), b = st(t, M); t.v[size_t(L)] = Fop(op, L, m, a, b, x, y, z); t.v[size_t(M)] = Fop(op, M, m, a, b, x, y, z); }
  template <class V> double at(const V& s, size_t k) { return k < s.size() ? double(s(k)) : 0; }
#define MK_ONE(nm, code) template <> struct opx<samurai::nm> { template <class S, class T> static void run(const S& s, T& t) { one(code, mask(s), t, s.lv); } };
#define MK_TWO(nm, code, dl) template <> struct opx<samurai::nm> { template <class S, class T> static void run(const S& s, T& t) { two(code, mask(s), t, s.lv, s.lv + dl); } \
    template <class S, class T, class V> static void run(const S& s, T& t, const V& w) { two(code, mask(s), t, s.lv, s.lv + dl, at(w, 0), at(w, 1), at(w, 2)); } };
  MK_ONE(keep_around_refine_op, 3) MK_ONE(enlarge_op, 4) MK_ONE(extend_op, 5)
  MK_TWO(maximum_op, 6, 1)
  // marks of level L added to level L-1 (a union: the order of several applications is irrelevant)
#define MK_DOWN(nm, code) template <> struct opx<samurai::nm> { template <class S, class T> static void run(const S& s, T& t) { int L = s.lv; t.v[size_t(L - 1)] += Fop(code, L, mask(s), st(t, L), 0, 0, 0, 0); } \
    template <class S, class T, class V> static void run(const S& s, T& t, const V& w) { int L = s.lv; t.v[size_t(L - 1)] += Fop(code, L, mask(s), st(t, L), at(w, 0), at(w, 1), at(w, 2), 0); } };
  MK_DOWN(make_graduation_op, 7) MK_DOWN(graduate_op, 8)
  template <> struct opx<samurai::balance_2to1_op> { template <class S, class T, class V> static void run(const S& s, T& t, const V& w) { one(9, mask(s), t, s.lv, at(w, 0), at(w, 1), at(w, 2)); } };
  template <> struct opx<samurai::keep_children_together_op> { template <class S, class T> static void run(const S& s, T& t) { one(10, mask(s), t, s.lv + 1); } };
  template <> struct opx<samurai::tag_to_keep_op> {
    template <class S, class T, int w> static void run(const S& s, T& t, std::integral_constant<int, w>) { one(11, mask(s), t, s.lv, w, double(int(samurai::CellFlag::keep))); }
    template <class S, class T, class Fl, int w> static void run(const S& s, T& t, const Fl& fl, std::integral_constant<int, w>) { one(11, mask(s), t, s.lv, w, double(int(fl))); } };
  template <> struct opx<samurai::compute_detail_op> { template <class S, class D, class F> static void run(const S& s, D& dt, F& f) { int L = s.lv; double m = mask(s), x = st(f, L), y = st(f, L + 1); dt.v[size_t(L)] = Fop(12, L, m, st(dt, L), x, y, 0, 0); dt.v[size_t(L + 1)] = Fop(12, L + 1, m, st(dt, L + 1), x, y, 0, 0); } };
  template <> struct opx<samurai::compute_detail_on_tuple_op> { template <class S, class D, class F> static void run(const S& s, D& dt, F& f) { std::apply([&](auto&... e) { (opx<samurai::compute_detail_op>::run(s, dt, e), ...); }, f.elements()); } };
  template <> struct opx<samurai::to_coarsen_mr_op> { template <class S, class D, class T> static void run(const S& s, D& dt, T& t, double eps, size_t lim) { int L = s.lv; one(13, mask(s), t, L + 1, st(dt, L + 1), eps, double(lim)); } };
  template <> struct opx<samurai::to_refine_mr_op> { template <class S, class D, class T> static void run(const S& s, D& dt, T& t, double eps, size_t lim) { int L = s.lv; double x = st(dt, L), y = st(dt, L + 1); t.v[size_t(L + 1)] = Fop(14, L + 1, mask(s), st(t, L + 1), x, y, eps, double(lim)); } };
  // sub-phases that have their own checks
  template <class F> void bc_at(size_t level, F& f) { f.v[level] = Fop(20, int(level), st(f, int(level)), 0, 0, 0, 0, 0); }
  template <class F> void per_at(size_t level, F& f) { f.v[level] = Fop(21, int(level), st(f, int(level)), 0, 0, 0, 0, 0); }
  template <class F> void tper_at(size_t level, F& f) { f.v[level] = Fop(22, int(level), st(f, int(level)), 0, 0, 0, 0, 0); }
  template <class F> void ghosts(F& f) { double s = 0; for (int l = 0; l < NL; ++l) s = Fop(24, l, st(f, l), vp_boxd(s), 0, 0, 0, 0); for (int l = 0; l < NL; ++l) f.v[size_t(l)] = Fop(23, l, vp_boxd(s), 0, 0, 0, 0, 0); }
  template <MKT, class T, size_t n, bool SOA, class... O> void update_bc(size_t level, samurai::Field<MKM, T, n, SOA>& f, O&... o) { bc_at(level, f); (bc_at(level, o), ...); }
  template <MKT, class T, size_t n, bool SOA, class... O> void update_ghost_periodic(size_t level, samurai::Field<MKM, T, n, SOA>& f, O&... o) { per_at(level, f); (per_at(level, o), ...); }
  template <MKT, class T, size_t n, bool SOA> void update_bc(size_t level, samurai::Field<MKM, T, n, SOA>& f) { bc_at(level, f); }
  template <MKT, class T, size_t n, bool SOA> void update_ghost_periodic(size_t level, samurai::Field<MKM, T, n, SOA>& f) { per_at(level, f); }
  template <MKT, class T, size_t n, bool SOA> void update_tag_periodic(size_t level, samurai::Field<MKM, T, n, SOA>& f) { tper_at(level, f); }
}
