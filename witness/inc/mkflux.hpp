#pragma once
// pointwise meshes and linear fields for the finite-volume schemes: the value of the output is the sum of the
// contributions, each weighted by the unknown of the cell it was added to (delta) and by the membership of the cell
#define MK_MASKED
#include "mkset.hpp"
#include <samurai/interface.hpp>
extern "C" {
double uval(int level, int x, int y, int z, int comp) PURE;
double uidx(long long index, int comp) PURE;
double delta(long long index, int comp) PURE;
long long rowoff(int level, int y, int z) PURE;
double mesh_cell_length(size_t l) PURE;
double orig(int k) PURE;
double vp_boxd(double) PURE;
double garbage() PURE;
}
namespace mk {
  enum class QId { cells, cells_and_ghosts, reference };
  template <size_t d, int MN, int MX> struct QMesh {
    static constexpr size_t dim = d; static constexpr int lmin = MN, lmax = MX;
    struct config { static constexpr size_t dim = d, ghost_width = 3, prediction_order = 1, max_stencil_width = 1; using interval_t = Iv; };
    using mesh_id_t = QId; using interval_t = Iv; using value_t = int; using cell_t = samurai::Cell<d, Iv>; using mesh_interval_t = samurai::MeshInterval<d, Iv>; using ca_type = samurai::CellArray<d, Iv, 20>;
    ca_type c{100, MN, MX}, r{104, MN, MX}; Set<d> sub{151, MX};
    const ca_type& operator[](QId i) const { return i == QId::cells ? c : r; }
    size_t min_level() const { return MN; }
    size_t max_level() const { return MX; }
    size_t nb_cells() const { return ~size_t(0) >> 1; }
    const Set<d>& subdomain() const { return sub; }
    const Set<d>& domain() const { return sub; }
    double cell_length(size_t l) const { return mesh_cell_length(l); }
    auto origin_point() const { xt::xtensor_fixed<double, xt::xshape<d>> o; for (size_t k = 0; k < d; ++k) o[k] = orig(int(k)); return o; }
    template <class V> long long get_index(size_t level, const V& v) const { int p[3] = {0, 0, 0}; for (size_t k = 0; k < d; ++k) p[k] = v[k]; return rowoff(int(level), p[1], p[2]) + p[0]; }
  };
  struct Acc { double* a; long long i; int c;
    Acc& operator+=(double v) { *a += vp_cur_mask * v * delta(i, c); return *this; }
    Acc& operator-=(double v) { *a -= vp_cur_mask * v * delta(i, c); return *this; }
    operator double() const { return uidx(i, c); } };
}
namespace samurai {
  template <size_t d, int MN, int MX, size_t n, bool S> class Field<mk::QMesh<d, MN, MX>, double, n, S> {
  public:
    static constexpr size_t dim = d, size = n; static constexpr bool is_soa = S;
    using mesh_t = mk::QMesh<d, MN, MX>; using value_type = double; using interval_t = mk::Iv; using cell_t = Cell<d, mk::Iv>; using index_t = long long;
    using local_data_type = std::conditional_t<n == 1, double, xt::xtensor_fixed<double, xt::xshape<n>>>;
    mesh_t* m; mutable double acc = 0;
    Field(mesh_t& mesh) : m(&mesh) {}
    // a named field is not initialised: its content is arbitrary until it is filled
    template <class Str> Field(const Str&, mesh_t& mesh) : m(&mesh), acc(garbage()) {}
    void fill(double v) { acc = v; }
    std::string name() const { return {}; }
    mesh_t& mesh() const { return *m; }
    local_data_type operator[](const cell_t& c) const { if constexpr (n == 1) return uidx(c.index, 0); else { local_data_type v; for (size_t k = 0; k < n; ++k) v(k) = uidx(c.index, int(k)); return v; } }
  };
}
namespace mk {
  template <size_t d, int MN, int MX, size_t n, bool S> Acc field_value(samurai::Field<QMesh<d, MN, MX>, double, n, S>& f, const samurai::Cell<d, Iv>& c, size_t k) { return {&f.acc, c.index, int(k)}; }
  template <size_t d, int MN, int MX, size_t n, bool S> Acc field_value(const samurai::Field<QMesh<d, MN, MX>, double, n, S>& f, const samurai::Cell<d, Iv>& c, size_t k) { return {&f.acc, c.index, int(k)}; }
  template <size_t d, int MN, int MX, size_t n, bool S> Acc field_value(samurai::Field<QMesh<d, MN, MX>, double, n, S>& f, const long long& i, size_t k) { return {&f.acc, i, int(k)}; }
  template <size_t d, int MN, int MX, size_t n, bool S> Acc field_value(const samurai::Field<QMesh<d, MN, MX>, double, n, S>& f, const long long& i, size_t k) { return {&f.acc, i, int(k)}; }
  template <class T> struct NoDtor { alignas(T) unsigned char b[sizeof(T)]; template <class... A> NoDtor(A&&... a) { new (b) T(std::forward<A>(a)...); } T& get() { return *reinterpret_cast<T*>(b); } };
}
// runs of cells of a level, weighted by membership of the probe
namespace mk {
  template <size_t d, class F> void for_each_meshinterval(const samurai::LevelCellArray<d, Iv>& s, F&& f) {
    int L = s.lv, px = pr<d>(0, L); samurai::MeshInterval<d, Iv> mi(size_t(L), Iv(px, px + MK_LEN), probe_yz<d>(L)); mi.i.index = rowoff(L, pr<d>(1, L), pr<d>(2, L)); mi.i.step = 1;
    double old = vp_cur_mask; vp_cur_mask = vp_boxd(s.member(L, px, pr<d>(1, L), pr<d>(2, L)) ? 1. : 0.); f(mi); vp_cur_mask = old; }
}
// ---- specification ----
template <size_t d, int MN, int MX> struct YF {
  static int p(int a, int L) { return mk::pr<d>(a, L); }
  static double h(int L) { return mesh_cell_length(size_t(L)); }
  static double pw(double x, int k) { double r = 1; for (; k > 0; --k) r *= x; return r; }
  static double ratio(int Lf, int Lc) { return pw(h(Lf), int(d) - 1) / pw(h(Lc), int(d)); }
  static long long idx(int L, int x, int y, int z) { return rowoff(L, y, z) + x; }
  static bool in(double id, int L, int m, int a, int b, int c) { mk::Set<d> s(id, m); s.s[0] = a; s.s[1] = b; s.s[2] = c; return s.member(L, p(0, L), p(1, L), p(2, L)); }
  static double mask(bool b) { return vp_boxd(b ? 1. : 0.); }
  // contribution(L, x, y, z, side, i): the flux through the face on the right of the cell (L, x, y, z), component i
  // side 0: leaving the left cell; side 1: entering the right cell (already signed)
  template <class FX> static double interior(int k, int n, FX&& flux) {
    int e[3] = {k == 0, k == 1, k == 2}; double r = 0;
    for (int L = MN; L <= MX; ++L) { double m = mask(in(100, L, L, 0, 0, 0) & in(100, L, L, -e[0], -e[1], -e[2]));
      for (int t = 0; t < MK_LEN; ++t) { int x = p(0, L) + t, y = p(1, L), z = p(2, L);
        for (int i = 0; i < n; ++i) r += m * ratio(L, L) * (delta(idx(L, x, y, z), i) * flux(L, x, y, z, 0, i) + delta(idx(L, x + e[0], y + e[1], z + e[2]), i) * flux(L, x, y, z, 1, i)); } }
    for (int l = MN; l < MX; ++l) { int L = l + 1;
      double m = mask(in(100, L, l, 0, 0, 0) & in(100, L, L, -e[0], -e[1], -e[2])), q = mask(in(100, L, l, 0, 0, 0) & in(100, L, L, e[0], e[1], e[2]));
      for (int t = 0; t < MK_LEN; ++t) { int x = p(0, L) + t, y = p(1, L), z = p(2, L), X = MK_LEN == 1 ? x >> 1 : probe(0, L) + t / 2;
        for (int i = 0; i < n; ++i) {
          r += m * (ratio(L, l) * delta(idx(l, X, y >> 1, z >> 1), i) * flux(L, x, y, z, 0, i) + ratio(L, L) * delta(idx(L, x + e[0], y + e[1], z + e[2]), i) * flux(L, x, y, z, 1, i));
          r += q * (ratio(L, L) * delta(idx(L, x - e[0], y - e[1], z - e[2]), i) * flux(L, x - e[0], y - e[1], z - e[2], 0, i) + ratio(L, l) * delta(idx(l, X, y >> 1, z >> 1), i) * flux(L, x - e[0], y - e[1], z - e[2], 1, i)); } } }
    return r; }
  template <class FX> static double border(int k, int n, FX&& flux) {
    int e[3] = {k == 0, k == 1, k == 2}; double r = 0;
    for (int L = MN; L <= MX; ++L) { int w = 1 << (MX - L);
      double m = mask(in(100, L, L, 0, 0, 0) & !in(151, L, MX, -w * e[0], -w * e[1], -w * e[2])), q = mask(in(100, L, L, 0, 0, 0) & !in(151, L, MX, w * e[0], w * e[1], w * e[2]));
      for (int t = 0; t < MK_LEN; ++t) { int x = p(0, L) + t, y = p(1, L), z = p(2, L);
        for (int i = 0; i < n; ++i) { r += m * ratio(L, L) * delta(idx(L, x, y, z), i) * flux(L, x, y, z, 0, i); r += q * ratio(L, L) * delta(idx(L, x, y, z), i) * flux(L, x - e[0], y - e[1], z - e[2], 1, i); } } }
    return r; }
};
