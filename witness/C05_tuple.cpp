// PARTS: 2
// FLAGS: -fno-threadsafe-statics
// details of several fields at once: each field owns the next components of the detail, in order
#define VP_DCAP 128
#include "notimer.hpp"
#include <fmt/format.h>
#include <fmt/color.h>
#include <iostream>
#include <iomanip>
#include <sstream>
#define endl flush
#include "store.hpp"
#include <samurai/field.hpp>
#include <samurai/mr/operators.hpp>
using namespace samurai; using namespace st;
extern "C" double valf(int f, int i, int c) PURE; extern "C" double vw(int k, int i) PURE;
using I = default_config::interval_t; using CA1 = CellArray<1, I, 3>;
struct Msh { enum class mesh_id_t { reference, cells }; struct config { using mesh_id_t = Msh::mesh_id_t; static constexpr size_t prediction_order = 1; }; using interval_t = I; using ca_type = CA1; static constexpr size_t dim = 1; CA1 o; const CA1& operator[](mesh_id_t) const { return o; } template <class... A> auto& get_interval(A&&... a) const { return o.get_interval(a...); } template <class... A> auto get_index(A&&... a) const { return o.get_index(a...); } auto nb_cells(mesh_id_t) const { return o.nb_cells(); } auto nb_cells() const { return o.nb_cells(); } bool operator==(const Msh& m) const { return o == m.o; } };
// level 0: 5 cells from -2, level 1: 6 from -2, level 2: 6 from -1
static const int b0[3] = {-2, -2, -1}, nn[3] = {5, 6, 6}, st0[3] = {0, 5, 11};
static int og(int l) { return crd_row(0) * (1 << l); }
static Msh mesh() { CellList<1, I, 3> l; for (int k = 0; k < 3; ++k) l[k][xt::xtensor_fixed<int, xt::xshape<0>>{}].add_interval({og(k) + b0[k], og(k) + b0[k] + nn[k]}); Msh m; m.o = CA1(l); return m; }
template <class F> static void fill(F& f, int id) { for (int i = 0; i < 17; ++i) { if constexpr (F::size == 1) f.array()[i] = valf(id, i, 0); else for (int c = 0; c < (int)F::size; ++c) { if constexpr (F::is_soa) f.array()(c, i) = valf(id, i, c); else f.array()(i, c) = valf(id, i, c); } } }
template <int n, bool soa> using Fd = Field<Msh, double, n, soa>;
static int at(int l, int x) { return st0[l] + x - b0[l]; }
// value predicted in child (x at level l) from level l - 1
static double pr(int f, int c, int l, int x) { int p = x >> 1; double q = (valf(f, at(l - 1, p + 1), c) - valf(f, at(l - 1, p - 1), c)) / 8; return valf(f, at(l - 1, p), c) + ((x & 1) ? q : -q); }
#define TUP(nm, soa, s, e, N, a, b, c) \
W double C05_tuple_##nm##__impl() { Msh m = mesh(); Fd<a, soa> u("u", m); Fd<b, soa> v("v", m); Fd<c, soa> w("w", m); fill(u, 0); fill(v, 1); fill(w, 2); Fd<N, soa> d("d", m); for (int i = 0; i < 17; ++i) for (int k = 0; k < N; ++k) { if constexpr (soa) d.array()(k, i) = valf(9, i, k); else d.array()(i, k) = valf(9, i, k); } \
  Field_tuple<Fd<a, soa>, Fd<b, soa>, Fd<c, soa>> t(u, v, w); compute_detail_on_tuple_op<1, I>(1, I{og(1) + s, og(1) + e})(Dim<1>{}, d, t); double r = 0; for (int i = 0; i < 17; ++i) for (int k = 0; k < N; ++k) { if constexpr (soa) r += vw(k, i) * d.array()(k, i); else r += vw(k, i) * d.array()(i, k); } return r; } \
W double C05_tuple_##nm##__spec() { double r = 0; for (int k = 0; k < N; ++k) { int f = k < a ? 0 : k < a + b ? 1 : 2, cc = k < a ? k : k < a + b ? k - a : k - a - b; for (int l = 0; l < 3; ++l) for (int x = b0[l]; x < b0[l] + nn[l]; ++x) { bool in = l == 1 ? x >= s && x < e : l == 2 && x >= 2 * s && x < 2 * e; r += vw(k, at(l, x)) * (in ? valf(f, at(l, x), cc) - pr(f, cc, l, x) : valf(9, at(l, x), k)); } } return r; }
#if VP_PART == 0
TUP(aos121, false, 0, 2, 4, 1, 2, 1) TUP(aos112, false, 0, 1, 4, 1, 1, 2) TUP(aos211, false, 1, 2, 4, 2, 1, 1)
#endif
#if VP_PART == 1
TUP(soa121, true, 0, 2, 4, 1, 2, 1) TUP(soa213, true, 0, 1, 6, 2, 1, 3)
#endif
