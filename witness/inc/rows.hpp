#pragma once
// plane sets given row by row; y positions are an unknown origin plus small known offsets
#include "runs.hpp"
extern "C" { int crd_y() PURE; int crd_z() PURE; int crd_row(int r) PURE; int gap_r(int r, int t) PURE; double Wz(int z, int y, int x) PURE; }
namespace rn {
  // the bounds on different rows have nothing to do with each other
  inline int px(int r, int t) { int v = crd_row(r); for (int i = 0; i < t; ++i) v += 1 + gap_r(r, i); return v; }
  struct Rows { Set<2> s; explicit Rows(size_t l) : s(l) { s.o[1].push_back(0); }
    // begin a block of rows at y
    void rows(int y0, int y1) { s.c[1].push_back(Iv(y0, y1, int(s.o[1].n) - 1 - y0)); }
    void run(int a, int b) { s.c[0].push_back(Iv(a, b)); } void done() { s.o[1].push_back(s.c[0].n); } };
  struct Box3 { Set<3> s; explicit Box3(size_t l) : s(l) { s.o[1].push_back(0); s.o[2].push_back(0); }
    void slabs(int z0, int z1) { s.c[2].push_back(Iv(z0, z1, int(s.o[2].n) - 1 - z0)); }
    void rows(int y0, int y1) { s.c[1].push_back(Iv(y0, y1, int(s.o[1].n) - 1 - y0)); }
    void run(int a, int b) { s.c[0].push_back(Iv(a, b)); } void done() { s.o[1].push_back(s.c[0].n); } void slab_done() { s.o[2].push_back(s.c[1].n); } };
  template <class S> double measure2(S&& s) { double r = 0; s([&](const auto& i, const auto& y) { r += Wy(y[0], i.end) - Wy(y[0], i.start); }); return r; }
  template <class S> double measure3(S&& s) { double r = 0; s([&](const auto& i, const auto& y) { r += Wz(y[1], y[0], i.end) - Wz(y[1], y[0], i.start); }); return r; }
  inline bool inc(const signed char* c, size_t n, int t) { for (size_t i = 0; i + 1 < n; i += 2) if (c[i] <= t && t < c[i + 1]) return true; return false; }
}
