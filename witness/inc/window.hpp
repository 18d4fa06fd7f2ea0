#pragma once
// patterns of cells around an unknown origin, and one flag per cell of a window around it (the specification side)
using I = samurai::default_config::interval_t; using samurai::CellList;
struct Bk { int l, x0, x1, y0 = 0, y1 = 1, z0 = 0, z1 = 1; };
template <int d> static int org(int c, int l) { 
#ifdef VP_ORG0
  return 0; // a box starts at 0
#else
  int b[3] = {crd_row(0), d > 1 ? crd_y() : 0, d > 2 ? crd_z() : 0}; return b[c] * (1 << l);
#endif
}
template <int d> static void fill(CellList<d, I, 4>& l, const Bk* b, int n) { for (int k = 0; k < n; ++k) for (int y = b[k].y0; y < (d > 1 ? b[k].y1 : b[k].y0 + 1); ++y) for (int z = b[k].z0; z < (d > 2 ? b[k].z1 : b[k].z0 + 1); ++z) { xt::xtensor_fixed<int, xt::xshape<d - 1>> v; if constexpr (d > 1) v[0] = org<d>(1, b[k].l) + y; if constexpr (d > 2) v[1] = org<d>(2, b[k].l) + z; l[b[k].l][v].add_interval({org<d>(0, b[k].l) + b[k].x0, org<d>(0, b[k].l) + b[k].x1}); } }
// brute force: one flag per cell of a window around the unknown origin
template <int d, int N> struct Win { using U = unsigned long long; static constexpr int O = N / 2, NY = d > 1 ? N : 1, NZ = d > 2 ? N : 1, OY = d > 1 ? O : 0, OZ = d > 2 ? O : 0; U b[NZ][NY] = {}; // one word per row, bit x + O
  constexpr void set(int x, int y, int z) { b[z + OZ][y + OY] |= U(1) << (x + O); }
  constexpr bool get(int x, int y, int z) const { return x >= -O && x < N - O && y >= -OY && y < NY - OY && z >= -OZ && z < NZ - OZ && (b[z + OZ][y + OY] >> (x + O) & 1); }
  template <class F> constexpr void rows(F&& f) const { for (int z = 0; z < NZ; ++z) for (int y = 0; y < NY; ++y) if (b[z][y]) f(b[z][y], y - OY, z - OZ); }
  constexpr Win grow(int w) const { Win r{}; rows([&](U u, int y, int z) { U v = u; for (int a = 1; a <= w; ++a) v |= u << a | u >> a; int wy = d > 1 ? w : 0, wz = d > 2 ? w : 0; for (int c = -wz; c <= wz; ++c) for (int e = -wy; e <= wy; ++e) r.b[z + c + OZ][y + e + OY] |= v; }); return r; }
  constexpr Win down(int k) const { Win r{}; rows([&](U u, int y, int z) { for (int x = -O; x < N - O; ++x) if (u >> (x + O) & 1) r.set(x >> k, y >> k, z >> k); }); return r; }
  constexpr Win up(int k) const { Win r{}; rows([&](U u, int y, int z) { U v = 0; for (int x = -O; x < N - O; ++x) if (get(x >> k, y, z)) v |= U(1) << (x + O); int ny = d > 1 ? 1 << k : 1, nz = d > 2 ? 1 << k : 1; for (int c = 0; c < nz; ++c) for (int e = 0; e < ny; ++e) r.b[z * nz + c + OZ][y * ny + e + OY] |= v; }); return r; }
  constexpr Win move(int s, int dir) const { Win r{}; rows([&](U u, int y, int z) { r.b[z + (dir == 2 ? s : 0) + OZ][y + (dir == 1 ? s : 0) + OY] = dir ? u : s > 0 ? u << s : u >> -s; }); return r; }
  static constexpr Win box(const int* lo, const int* hi) { Win r{}; U v = 0; for (int x = -O; x < N - O; ++x) if (x >= lo[0] && x < hi[0]) v |= U(1) << (x + O); for (int z = 0; z < NZ; ++z) for (int y = 0; y < NY; ++y) if ((d < 2 || (y - OY >= lo[1] && y - OY < hi[1])) && (d < 3 || (z - OZ >= lo[2] && z - OZ < hi[2]))) r.b[z][y] = v; return r; }
  template <class F> constexpr Win zip(const Win& o, F&& f) const { Win r{}; for (int z = 0; z < NZ; ++z) for (int y = 0; y < NY; ++y) r.b[z][y] = f(b[z][y], o.b[z][y]); return r; }
  constexpr Win operator|(const Win& o) const { return zip(o, [](U a, U c) { return a | c; }); }
  constexpr Win operator&(const Win& o) const { return zip(o, [](U a, U c) { return a & c; }); }
  constexpr Win operator-(const Win& o) const { return zip(o, [](U a, U c) { return a & ~c; }); } };
template <int d, int N> struct Lev { Win<d, N> w[5] = {}; constexpr Win<d, N>& operator[](int l) { return w[l]; } constexpr const Win<d, N>& operator[](int l) const { return w[l]; } };
template <int d, int N> constexpr Lev<d, N> cells(const Bk* b, int n) { Lev<d, N> r{}; for (int k = 0; k < n; ++k) for (int z = b[k].z0; z < b[k].z1; ++z) for (int y = b[k].y0; y < b[k].y1; ++y) for (int x = b[k].x0; x < b[k].x1; ++x) r[b[k].l].set(x, d > 1 ? y : 0, d > 2 ? z : 0); return r; }
