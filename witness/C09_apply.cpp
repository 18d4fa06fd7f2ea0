// FLAGS: -fno-access-control
// PARTS: 7
// where and from what the boundary conditions and the extrapolation fill the ghosts of one level
namespace mk { template <unsigned long d, int MN, int MX, int GW, int PO, int MSW, int PER> struct PMesh; }
namespace samurai { namespace detail { template <unsigned long d, int MN, int MX, int GW, int PO, int MSW, int PER> decltype(auto) get_mesh(const mk::PMesh<d, MN, MX, GW, PO, MSW, PER>& m) { return m.domain(); } } }
#include "mkset.hpp"
#include <samurai/bc.hpp>
extern "C" {
double rd(int stage, int level, int x, int y, int z) PURE;
void emits_w(int stage, int level, int x, int y, int z, double v);
void emits_bc(int stage, int id, int n, int level, int x, int y, int z, int dx, int dy, int dz, double v);
double bcval(int id, int dx, int dy, int dz, double x, double y, double z) PURE;
double mesh_cell_length(size_t l) PURE;
}
namespace mk {
  enum class PId { cells, cells_and_ghosts, reference };
  template <size_t d, int MN, int MX, int GW, int PO, int MSW, int PER> struct PMesh {
    static constexpr size_t dim = d; static constexpr int lmin = MN, lmax = MX, per = PER;
    struct config { static constexpr size_t dim = d, ghost_width = GW, prediction_order = PO, max_stencil_width = MSW; using interval_t = Iv; };
    using mesh_id_t = PId; using interval_t = Iv; using cell_t = samurai::Cell<d, Iv>; using ca_type = samurai::CellArray<d, Iv, 20>;
    ca_type c{100, MN, MX}, cg{101, MN, MX}, r{104, MN, MX}; Set<d> dom{150, MX};
    mutable int stage = 0, key = -1, kind = 0;
    const ca_type& operator[](PId i) const { return i == PId::cells ? c : i == PId::reference ? r : cg; }
    size_t min_level() const { return MN; }
    size_t max_level() const { return MX; }
    const Set<d>& domain() const { return dom; }
    bool is_periodic(size_t k) const { return (PER >> k) & 1; }
    double cell_length(size_t l) const { return mesh_cell_length(l); }
  };
  template <class M> struct PField {
    static constexpr size_t dim = M::dim, size = 1; static constexpr bool is_soa = false;
    using value_type = double; using mesh_t = M; using interval_t = Iv; using cell_t = samurai::Cell<M::dim, Iv>;
    struct P { samurai::Bc<PField>* p; auto* get() { return p; } auto* operator->() { return p; } };
    M m; P b[2] = {{nullptr}, {nullptr}}; int nb = 0;
    M& mesh() { return m; }
    struct Bcs { P* q; int n; P* begin() { return q; } P* end() { return q + n; } };
    Bcs get_bc() { return {b, nb}; }
    struct Ref { const M* m; int l, x, y, z; operator double() const { return rd(m->stage, l, x, y, z); } Ref& operator=(double v) { emits_w(m->stage, l, x, y, z, v); return *this; } Ref& operator=(const Ref& o) { return *this = double(o); } };
    Ref operator[](const cell_t& c) { int p[3] = {0, 0, 0}; for (size_t k = 0; k < dim; ++k) p[k] = c.indices[k]; return {&m, int(c.level), p[0], p[1], p[2]}; }
  };
  template <size_t d, int MN, int MX, int GW, int PO, int MSW, int PER, class O, class A, class B, size_t n, class F>
  void for_each_stencil(const PMesh<d, MN, MX, GW, PO, MSW, PER>& m, Ex<O, A, B>& s, const samurai::Stencil<n, d>& st, F&& f) {
    int L = s.lv, key = int(n) + 100 * m.kind;
    if (key != m.key) { ++m.stage; m.key = key; }
    m.kind = 0;
    std::array<samurai::Cell<d, Iv>, n> c;
    for (size_t a = 0; a < n; ++a) { c[a].level = size_t(L); c[a].length = mesh_cell_length(size_t(L)); for (size_t k = 0; k < d; ++k) { c[a].indices[k] = probe(int(k), L) + st(a, k); c[a].origin_point[k] = 0; } }
    if (s.member_at_probe()) f(c); }
  // a condition with N cells whose formula is abstract
  template <class F, size_t N> struct TBc : samurai::Bc<F> {
    using Field = F;
    INIT_BC(TBc, N)
    int id = 0;
    apply_function_t get_apply_function(constant_stencil_size_t, const direction_t& dir) const override {
      mesh->kind = id; int D[3] = {0, 0, 0}; for (size_t k = 0; k < dim; ++k) D[k] = dir[k];
      return [i = id, a = D[0], b = D[1], e = D[2]](Field& u, const stencil_cells_t& c, const value_t& v) {
        int p[3] = {0, 0, 0}, q[3] = {0, 0, 0}; for (size_t k = 0; k < dim; ++k) { p[k] = c[0].indices[k]; q[k] = c[N - 1].indices[k] - c[0].indices[k]; }
        emits_bc(u.m.stage, i, N, int(c[0].level), p[0], p[1], p[2], q[0], q[1], q[2], v); }; }
    const typename F::mesh_t* mesh = nullptr;
  };
  template <class F> struct VBc : samurai::BcValue<F> {
    using B = samurai::BcValue<F>; int id; samurai::BCVType t; VBc(int i, samurai::BCVType t_) : id(i), t(t_) {}
    typename B::value_t get_value(const typename B::direction_t& d, const typename B::cell_t&, const typename B::coords_t& x) const override {
      if (t == samurai::BCVType::constant) return bcval(id, 0, 0, 0, 0, 0, 0);
      int D[3] = {0, 0, 0}; double X[3] = {0, 0, 0}; for (size_t k = 0; k < F::dim; ++k) { D[k] = d[k]; X[k] = x[k]; } return bcval(id, D[0], D[1], D[2], X[0], X[1], X[2]); }
    std::unique_ptr<B> clone() const override { return std::make_unique<VBc>(id, t); }
    samurai::BCVType type() const override { return t; }
  };
}
using namespace samurai;
template <class M, size_t N> void make(mk::PField<M>& f, mk::TBc<mk::PField<M>, N>& bc, int id, const int (*dirs)[3], int nd, int reg0) {
  bc.id = id; bc.mesh = &f.m;
  for (int k = 0; k < nd; ++k) { DirectionVector<M::dim> v; for (size_t q = 0; q < M::dim; ++q) v[q] = dirs[k][q]; bc.m_region.first.push_back(v); bc.m_region.second.push_back(mk::Set<M::dim>(reg0 + k, M::lmax)); } }
static const int dirs1[2][3] = {{-1, 0, 0}, {1, 0, 0}};
static const int dirs2[4][3] = {{0, 1, 0}, {-1, 0, 0}, {1, 1, 0}, {0, -1, 0}};
static const int dirs3[4][3] = {{0, 0, 1}, {0, -1, 0}, {1, 0, 1}, {1, 0, 0}};
template <int d> const int (*dirs())[3] { return d == 1 ? dirs1 : d == 2 ? dirs2 : dirs3; }
// ---- specification ----
template <class M> struct Z {
  static constexpr int D = int(M::dim), T = M::lmax;
  static int p(int a, int L) { return a < D ? probe(a, L) : 0; }
  static bool inset(double id, int m, int L, int a = 0, int b = 0, int c = 0) { return m <= L ? in_set(id, m, (p(0, L) >> (L - m)) - a, (p(1, L) >> (L - m)) - b, (p(2, L) >> (L - m)) - c) : in_proj(id, m, L, p(0, L), p(1, L), p(2, L), a, b, c); }
  static bool per(const int* d) { for (int k = 0; k < D; ++k) if (d[k] && ((M::per >> k) & 1)) return true; return false; }
  // user condition: boundary cells of the region, and (adapted meshes) the other inner cells of the region whose farthest outer neighbour exists
  static void user(int& st, int id, int N, int L, const int (*ds)[3], int nd, int reg0, bool fn) {
    bool once = false;
    for (int k = 0; k < nd; ++k) {
      const int* d = ds[k]; int h = N / 2;
      if (per(d) || __builtin_abs(d[0]) + __builtin_abs(d[1]) + __builtin_abs(d[2]) != 1) continue;
      if (!once) { ++st; once = true; } int stage = st;
      bool cells = inset(100, L, L) & inset(reg0 + k, T, L), all = cells;
      if (M::lmin != M::lmax) all = all | (inset(104, L, L, -h * d[0], -h * d[1], -h * d[2]) & inset(reg0 + k, T, L));
      if (!all) continue;
      double x[3] = {0, 0, 0}, dx = mesh_cell_length(size_t(L)); for (int q = 0; q < D; ++q) x[q] = dx * (p(q, L) + 0.5) + 0.5 * dx * d[q];
      double v = fn ? bcval(id, d[0], d[1], d[2], x[0], x[1], x[2]) : bcval(id, 0, 0, 0, 0, 0, 0);
      emits_bc(stage, id, N, L, p(0, L) - (h - 1) * d[0], p(1, L) - (h - 1) * d[1], p(2, L) - (h - 1) * d[2], (N - 1) * d[0], (N - 1) * d[1], (N - 1) * d[2], v); } }
  // extrapolation of the farthest cell of the line of N cells in every (or every diagonal) direction
  static double ext(int N, const double* u) { return N == 2 ? u[0] : N == 4 ? u[0] - 3 * u[1] + 3 * u[2] : u[0] - 5 * u[1] + 10 * u[2] - 10 * u[3] + 5 * u[4]; }
  static void extrap(int& st, int N, int L, bool corners, bool ghosts) {
    int h = N / 2, w = 1 << (T - L); bool once = false;
    for (int c = 0; c < (D == 1 ? 3 : D == 2 ? 9 : 27); ++c) {
      int d[3] = {c % 3 - 1, D > 1 ? c / 3 % 3 - 1 : 0, D > 2 ? c / 9 - 1 : 0}, n1 = __builtin_abs(d[0]) + __builtin_abs(d[1]) + __builtin_abs(d[2]);
      if (n1 == 0 || per(d) || (corners && n1 == 1)) continue;
      if (!once) { ++st; once = true; } int stage = st;
      bool bd = inset(150, T, L);                                          // inside, next to the boundary in every non-zero component
      for (int q = 0; q < 3; ++q) if (d[q]) { int s[3] = {0, 0, 0}; s[q] = -w * d[q]; bd = bd & !inset(150, T, L, s[0], s[1], s[2]); }
      bool m = bd & inset(104, L, L, -h * d[0], -h * d[1], -h * d[2]);     // and the ghost to fill exists
      if (ghosts) m = m & !inset(100, L, L);
      if (!m) continue;
      double u[8]; for (int a = 0; a < N - 1; ++a) u[a] = rd(stage, L, p(0, L) + (a - h + 1) * d[0], p(1, L) + (a - h + 1) * d[1], p(2, L) + (a - h + 1) * d[2]);
      emits_w(stage, L, p(0, L) + h * d[0], p(1, L) + h * d[1], p(2, L) + h * d[2], ext(N, u)); } }
};
// one user condition on one level
#define AB(nm, M, N, L, nd, fn) W void C09_apply_##nm##__impl() { using F = mk::PField<M>; F f; mk::VBc<F> v(1, fn ? BCVType::function : BCVType::constant); mk::TBc<F, N> bc(f.m.dom, v, true); make<M>(f, bc, 1, dirs<M::dim>(), nd, 300); apply_bc_impl<F, N>(bc, L, f); } \
  W void C09_apply_##nm##__spec() { int st = 0; Z<M>::user(st, 1, N, L, dirs<M::dim>(), nd, 300, fn); }
using Q1 = mk::PMesh<1, 1, 3, 3, 1, 1, 0>; using Q1u = mk::PMesh<1, 2, 2, 3, 1, 1, 0>; using Q1p = mk::PMesh<1, 1, 3, 3, 1, 1, 1>; using Q2 = mk::PMesh<2, 1, 3, 3, 1, 1, 0>; using Q2p = mk::PMesh<2, 1, 3, 3, 1, 1, 2>; using Q3 = mk::PMesh<3, 1, 2, 2, 1, 1, 0>; using Q3p = mk::PMesh<3, 1, 2, 2, 1, 1, 4>;
#if VP_PART == 0
AB(1, Q1, 2, 2, 2, true) AB(1c, Q1, 4, 1, 2, false) AB(1u, Q1u, 2, 2, 2, false) AB(1p, Q1p, 2, 2, 2, true) AB(2, Q2, 4, 2, 4, true)
#endif
#if VP_PART == 1
AB(2c, Q2, 2, 3, 4, false) AB(2p, Q2p, 4, 1, 4, true) AB(3, Q3, 2, 1, 4, true) AB(3p, Q3p, 4, 2, 4, false)
#endif
// extrapolation on one level
#define EX(nm, M, N, L, corners, ghosts) W void C09_extrapolate_##nm##__impl() { using F = mk::PField<M>; F f; PolynomialExtrapolation<F, N> bc(f.m.dom, ConstantBc<F>(), true); apply_extrapolation_bc_impl<F, N>(bc, L, f, corners, ghosts); } \
  W void C09_extrapolate_##nm##__spec() { int st = 0; Z<M>::extrap(st, N, L, corners, ghosts); }
#if VP_PART == 2
EX(1, Q1, 2, 2, false, false) EX(1g, Q1, 4, 1, false, true) EX(2, Q2, 4, 3, false, false) EX(2c, Q2, 2, 1, true, false) EX(2g, Q2, 2, 2, false, true) EX(2p, Q2p, 6, 2, false, false) EX(3p, Q3p, 2, 2, true, false)
#endif
#if VP_PART == 3
EX(3, Q3, 2, 1, false, false) EX(3c, Q3, 4, 2, true, false)
#endif
// the whole update of one level: extrapolation under the conditions, the conditions in the order they were attached, then corners and the remaining layers, nearest first
template <class M> void upd(int L, int n1, int n2, bool fn1, bool fn2, const int (*ds)[3], int nd) {
  int st = 0; constexpr int PO = int(M::config::prediction_order), GW = int(M::config::ghost_width);
  if (int(M::config::max_stencil_width) > PO && M::lmin != M::lmax) for (int g = 1; g <= PO && g <= 3; ++g) Z<M>::extrap(st, 2 * g, L, false, true);
  int mx = 0;
  if (n1) { Z<M>::user(st, 1, n1, L, ds, nd, 300, fn1); mx = n1; }
  if (n2) { Z<M>::user(st, 2, n2, L, ds, nd, 320, fn2); mx = n2 > mx ? n2 : mx; }
  for (int g = 1; g <= GW && g <= 3; ++g) Z<M>::extrap(st, 2 * g, L, g <= mx / 2, false); }
#define UP(nm, M, N1, N2, L, nd) W void C09_update_##nm##__impl() { using F = mk::PField<M>; F f; mk::VBc<F> v(1, BCVType::function), w(2, BCVType::constant); mk::TBc<F, N1> bc(f.m.dom, v, true); mk::TBc<F, N2> cc(f.m.dom, w, true); make<M>(f, bc, 1, dirs<M::dim>(), nd, 300); make<M>(f, cc, 2, dirs<M::dim>(), nd, 320); f.b[0].p = &bc; f.b[1].p = &cc; f.nb = 2; update_bc(L, f); } \
  W void C09_update_##nm##__spec() { upd<M>(L, N1, N2, true, false, dirs<M::dim>(), nd); }
using R1 = mk::PMesh<1, 1, 3, 3, 2, 3, 0>; using R2 = mk::PMesh<2, 1, 3, 2, 1, 2, 0>; using R3 = mk::PMesh<3, 1, 2, 2, 1, 1, 0>; using R2u = mk::PMesh<2, 2, 2, 2, 1, 2, 0>;
#if VP_PART == 4
UP(1, R1, 2, 4, 2, 2) UP(2, R2, 2, 4, 2, 4)
#endif
#if VP_PART == 5
UP(1b, Q1, 4, 2, 1, 2) UP(2b, Q2p, 2, 2, 3, 4) UP(2u, R2u, 2, 2, 2, 4)
#endif
#if VP_PART == 6
UP(3, R3, 2, 2, 1, 4)
#endif
#define U0(nm, M, L) W void C09_update0_##nm##__impl() { using F = mk::PField<M>; F f; update_bc(L, f); } W void C09_update0_##nm##__spec() { upd<M>(L, 0, 0, false, false, nullptr, 0); }
#if VP_PART == 6
U0(1, Q1, 2) U0(2, Q2, 1) U0(2p, Q2p, 2)
#endif
