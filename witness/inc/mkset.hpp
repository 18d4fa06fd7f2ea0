#pragma once
// Abstract meshes for the driver functions: the real drivers are instantiated over these types.
//  - a set of cells is known by an abstract identity; membership of a cell is an uninterpreted predicate (in_set / in_proj)
//  - a set expression is applied to one generic cell per level (the probe), which stands for every cell
//  - a field is known by its value at the probe of each level; an operator applied to a set is an uninterpreted
//    function of the states it reads and is effective where the probe belongs to the set
//  - a cell list is the sum of uninterpreted terms of its cells (a multiset)
#include "vp.hpp"
#include <samurai/cell_array.hpp>
#include <samurai/cell_list.hpp>
#include <samurai/level_cell_array.hpp>
#include <samurai/timers.hpp>
#include <samurai/subset/subset_op.hpp>
#include <samurai/subset/node_op.hpp>
namespace samurai { namespace times { struct vp_no_timers { void print() {} void start(const char*) {} void stop(const char*) {} void start(const std::string&) {} void stop(const std::string&) {} }; static vp_no_timers vp_timers; } }
#define timers vp_timers
extern "C" {
bool in_set(double id, int level, int x, int y, int z) PURE;
bool in_proj(double id, int m, int L, int x, int y, int z, int sx, int sy, int sz) PURE;
int probe(int axis, int level) PURE;
double cell_term(int x, int y, int z) PURE;
double set_of(bool member) PURE;
int dom_lo(double id, int axis) PURE;
int dom_hi(double id, int axis) PURE;
double vp_boxd(double) PURE;
bool vp_boxb(bool) PURE;
int mesh_index(size_t level, int i, int j, int k) PURE;
}
namespace mk {
  static double vp_cur_mask = 1;
  struct Iv : samurai::Interval<int> {
    using base = samurai::Interval<int>;
    using base::base;
    Iv() = default;
    Iv(const base& b) : base(b) {}
    Iv(int a, int b, int idx = 0) : base(a, b, idx) {}
  };
  static constexpr int NL = 7;
}
namespace samurai {
  template <size_t d> class LevelCellArray<d, mk::Iv> {
  public:
    static constexpr size_t dim = d;
    using interval_t = mk::Iv; using value_t = int; using index_t = long long; using cell_t = Cell<d, mk::Iv>;
    using coords_t = xt::xtensor_fixed<double, xt::xshape<d>>; using mesh_interval_t = MeshInterval<d, mk::Iv>;
    static constexpr double default_approx_box_tol = 0.05;
    double id = 0; int lv = 0; int s[3] = {0, 0, 0}; bool isbox = false; int lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};
    LevelCellArray() = default;
    LevelCellArray(size_t l) : lv(int(l)) {}
    LevelCellArray(double id_, int l) : id(id_), lv(l) {}
    template <class T> LevelCellArray(size_t l, const Box<T, d>& b) : lv(int(l)), isbox(true) { for (size_t k = 0; k < d; ++k) { lo[k] = b.min_corner()[k]; hi[k] = b.max_corner()[k]; } }
    template <class E, class = typename E::is_ex> LevelCellArray(const E& e) : lv(int(e.level())) { id = set_of(vp_boxb(e.member_at_probe())); }
    LevelCellArray(const LevelCellList<d, mk::Iv>& l);
    size_t level() const { return size_t(lv); }
    bool empty() const { return false; }
    auto min_indices() const { xt::xtensor_fixed<int, xt::xshape<d>> r; for (size_t k = 0; k < d; ++k) r[k] = dom_lo(id, int(k)); return r; }
    auto max_indices() const { xt::xtensor_fixed<int, xt::xshape<d>> r; for (size_t k = 0; k < d; ++k) r[k] = dom_hi(id, int(k)); return r; }
    bool member(int L, int x, int y, int z) const {
      if (isbox) {
        int p[3] = {x, y, z}; bool r = true;
        for (size_t k = 0; k < d; ++k) {
          if (lv <= L) { int q = (p[k] >> (L - lv)) - s[k]; r = r & (lo[k] <= q) & (q < hi[k]); }
          else r = r & (((p[k] + 1) << (lv - L)) > lo[k] + s[k]) & ((p[k] << (lv - L)) < hi[k] + s[k]); }
        return r; }
      if (lv <= L) return in_set(id, lv, (x >> (L - lv)) - s[0], (y >> (L - lv)) - s[1], (z >> (L - lv)) - s[2]);
      return in_proj(id, lv, L, x, y, z, s[0], s[1], s[2]); }
    template <class... T> int get_index(T...) const { return 0; }
    void add_origin() {}
  };
}
namespace mk {
  template <size_t d> using Set = samurai::LevelCellArray<d, Iv>;
#ifndef MK_LEN
#define MK_LEN 1                 // number of cells of the generic interval
#endif
#ifndef MK_X0
#define MK_X0(L) probe(0, L)     // its first cell
#endif
  template <size_t d> int pr(int a, int L) { return a == 0 ? MK_X0(L) : a < int(d) ? probe(a, L) : 0; }
  struct And { static bool op(bool a, bool b) { return a & b; } };
  struct Or { static bool op(bool a, bool b) { return a | b; } };
  struct Diff { static bool op(bool a, bool b) { return a & !b; } };
  template <template <size_t, class> class OP> struct opx;
  template <class Op, class A, class B> struct Ex {
    struct is_ex_t {}; using is_ex = is_ex_t;
    static constexpr size_t dim = A::dim; using interval_t = Iv;
    A a; B b; int lv;
    Ex(const A& a_, const B& b_) : a(a_), b(b_), lv(a_.level() > b_.level() ? int(a_.level()) : int(b_.level())) {}
    size_t level() const { return size_t(lv); }
    Ex on(size_t L) const { Ex e(*this); e.lv = int(L); return e; }
    template <class T> Ex& on(T L) { lv = int(L); return *this; }
    bool empty() const { return false; }
    bool member(int L, int x, int y, int z) const { return Op::op(a.member(L, x, y, z), b.member(L, x, y, z)); }
    bool member_at_probe() const { return member(lv, pr<dim>(0, lv), pr<dim>(1, lv), pr<dim>(2, lv)); }
    template <class F> void operator()(F&& f) const {
      int px = pr<dim>(0, lv);
      xt::xtensor_fixed<int, xt::xshape<dim - 1>> idx;
      for (size_t k = 1; k < dim; ++k) idx[k - 1] = probe(int(k), lv);
      Iv i(px, px + MK_LEN);
#ifdef MK_MASKED   // no branch: the effects of f are weighted by vp_cur_mask
      vp_cur_mask = vp_boxd(member_at_probe() ? 1. : 0.); f(static_cast<const Iv&>(i), static_cast<const decltype(idx)&>(idx)); vp_cur_mask = 1; return;
#endif
      if (member_at_probe()) f(static_cast<const Iv&>(i), static_cast<const decltype(idx)&>(idx)); }
    template <template <size_t, class> class OP, class... CT> void run(const samurai::field_operator_function<OP, CT...>& e) const {
      std::apply([&](auto&&... x) { opx<OP>::run(*this, x...); }, e.arguments()); }
    template <class... O> void apply_op(O&&... o) const { (run(o), ...); }
  };
  template <class T> struct is_set : std::false_type {};
  template <size_t d> struct is_set<Set<d>> : std::true_type {};
  template <class O, class A, class B> struct is_set<Ex<O, A, B>> : std::true_type {};
  template <class... T> constexpr bool sets = (is_set<std::decay_t<T>>::value && ...);
#define MK_NARY(nm, OP1, OP2)                                                                                          \
  template <class A, class B, std::enable_if_t<sets<A, B>, int> = 0> auto nm(A&& a, B&& b) { return Ex<OP1, std::decay_t<A>, std::decay_t<B>>(a, b); } \
  template <class A, class B, class C, std::enable_if_t<sets<A, B, C>, int> = 0> auto nm(A&& a, B&& b, C&& c) { return nm(nm(a, b), c); } \
  template <class A, class B, class C, class D, std::enable_if_t<sets<A, B, C, D>, int> = 0> auto nm(A&& a, B&& b, C&& c, D&& e) { return nm(nm(nm(a, b), c), e); }
  MK_NARY(intersection, And, And) MK_NARY(union_, Or, Or) MK_NARY(difference, Diff, Diff)
  template <size_t d, class V> Set<d> shifted(const Set<d>& a, const V& v) { Set<d> r(a); for (size_t k = 0; k < d; ++k) r.s[k] += int(v(k)); return r; }
  template <size_t d, class V> Set<d> translate(Set<d>& a, V&& v) { return shifted(a, v); }
  template <size_t d, class V> Set<d> translate(const Set<d>& a, V&& v) { return shifted(a, v); }
  template <size_t d, class V> Set<d> translate(Set<d>&& a, V&& v) { return shifted(a, v); }
  template <size_t d> struct Row { double* acc; int y, z;
    void add_point(int x) { *acc += cell_term(x, y, z); }
    void add_interval(const samurai::Interval<int>& i) { for (int x = i.start; x < i.end; ++x) *acc += cell_term(x, y, z); } };
}
namespace samurai {
  template <size_t d> class LevelCellList<d, mk::Iv> {
  public:
    static constexpr size_t dim = d; using interval_t = mk::Iv; using value_t = int;
    double acc = 0; int lv = 0;
    LevelCellList() = default;
    LevelCellList(size_t l) : lv(int(l)) {}
    size_t level() const { return size_t(lv); }
    bool empty() const { return false; }
    template <class I> mk::Row<d> operator[](const I& idx) { mk::Row<d> r{&acc, 0, 0}; if constexpr (d > 1) r.y = int(idx(0)); if constexpr (d > 2) r.z = int(idx(1)); return r; }
    template <class C> void add_cell(const C& c) { int p[3] = {0, 0, 0}; for (size_t k = 0; k < d; ++k) p[k] = c.indices[k]; acc += cell_term(p[0], p[1], p[2]); }
  };
  template <size_t d> LevelCellArray<d, mk::Iv>::LevelCellArray(const LevelCellList<d, mk::Iv>& l) : id(vp_boxd(l.acc)), lv(l.lv) {}
  template <size_t d, size_t N> class CellList<d, mk::Iv, N> {
  public:
    static constexpr size_t dim = d; using interval_t = mk::Iv; using lcl_type = LevelCellList<d, mk::Iv>; static constexpr size_t max_size = N;
    lcl_type l[mk::NL];
    CellList() { for (int k = 0; k < mk::NL; ++k) l[k].lv = k; }
    template <class... T> CellList(T&&...) : CellList() {}
    lcl_type& operator[](size_t k) { return l[k]; }
    const lcl_type& operator[](size_t k) const { return l[k]; }
  };
  template <size_t d, size_t N> class CellArray<d, mk::Iv, N> {
  public:
    static constexpr size_t dim = d; using interval_t = mk::Iv; using lca_type = LevelCellArray<d, mk::Iv>; using cl_type = CellList<d, mk::Iv, N>; static constexpr size_t max_size = N;
    using value_t = int; using index_t = long long; using cell_t = Cell<d, mk::Iv>;
    lca_type a[mk::NL]; int mn = 0, mx = mk::NL - 1;
    CellArray() { for (int k = 0; k < mk::NL; ++k) a[k].lv = k; }
    CellArray(double id, int mn_, int mx_) : mn(mn_), mx(mx_) { for (int k = 0; k < mk::NL; ++k) { a[k].lv = k; a[k].id = id; } }
    CellArray(const cl_type& cl, bool = true) : mn(0), mx(mk::NL - 1) { for (int k = 0; k < mk::NL; ++k) a[k] = lca_type(cl.l[k]); }
    size_t min_level() const { return size_t(mn); }
    size_t max_level() const { return size_t(mx); }
    const lca_type& operator[](size_t k) const { return a[k]; }
    lca_type& operator[](size_t k) { return a[k]; }
  };
}
namespace mk {
  template <size_t d> auto probe_yz(int L) { xt::xtensor_fixed<int, xt::xshape<d - 1>> idx; for (size_t k = 1; k < d; ++k) idx[k - 1] = probe(int(k), L); return idx; }
  template <size_t d, class F> void each_iv(const Set<d>& s, F& f) {
    int L = s.lv, px = pr<d>(0, L);
    const auto idx = probe_yz<d>(L);
    Iv i(px, px + MK_LEN); i.index = mesh_index(size_t(L), px, pr<d>(1, L), pr<d>(2, L)) - px;
    if (s.member(L, px, pr<d>(1, L), pr<d>(2, L))) f(size_t(L), static_cast<const Iv&>(i), idx); }
  template <size_t d, class F> void each_cell(const Set<d>& s, F& f) {
    int L = s.lv;
    samurai::Cell<d, Iv> c; c.level = size_t(L); c.index = mesh_index(size_t(L), pr<d>(0, L), pr<d>(1, L), pr<d>(2, L));
    for (size_t k = 0; k < d; ++k) c.indices[k] = probe(int(k), L);
    if (s.member(L, pr<d>(0, L), pr<d>(1, L), pr<d>(2, L))) f(c); }
#define MK_EACH(fn, helper)                                                                                             \
  template <size_t d, class F> void fn(const samurai::LevelCellArray<d, Iv>& s, F&& f) { helper(s, f); }                \
  template <size_t d, class F> void fn(samurai::LevelCellArray<d, Iv>& s, F&& f) { helper(s, f); }                      \
  template <size_t d, size_t N, class F> void fn(const samurai::CellArray<d, Iv, N>& ca, F&& f) { for (size_t l = ca.min_level(); l <= ca.max_level(); ++l) helper(ca[l], f); } \
  template <size_t d, size_t N, class F> void fn(samurai::CellArray<d, Iv, N>& ca, F&& f) { for (size_t l = ca.min_level(); l <= ca.max_level(); ++l) helper(ca[l], f); }
  MK_EACH(for_each_interval, each_iv) MK_EACH(for_each_cell, each_cell)
}
