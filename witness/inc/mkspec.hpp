#pragma once
// vocabulary of the specifications over abstract meshes (independent of the set expressions used by the implementation)
#include "mkmesh.hpp"
template <int D> struct Sp {
  static int p(int a, int L) { return a < D ? probe(a, L) : 0; }
  // the cell x of level L lies in the set `id` of level m translated by s (in cells of level m)
  static bool at(double id, int m, int L, int x, int y, int z, int a = 0, int b = 0, int c = 0) { return m <= L ? in_set(id, m, (x >> (L - m)) - a, (y >> (L - m)) - b, (z >> (L - m)) - c) : in_proj(id, m, L, x, y, z, a, b, c); }
  static bool in(double id, int m, int L, int a = 0, int b = 0, int c = 0) { return at(id, m, L, p(0, L), p(1, L), p(2, L), a, b, c); }
};
static double B(int op, int l, double x) { return Fop(op, l, vp_boxd(x), 0, 0, 0, 0, 0); }
static double msk(bool m) { return vp_boxd(m ? 1. : 0.); }
static double bx(double x) { return vp_boxd(x); }
enum { CELLS = 100, CAG = 101, PROJ = 102, UNI = 103, ALL = 104, OVL = 105, PREDC = 106, DOM = 150, SUB = 151 };
enum { OPROJ = 1, OPRED0 = 2, OPRED1 = 12, OPRED2 = 22, OBC = 20, OPER = 21, OTPER = 22 };
template <class F> void ldf(F& f, const double* u) { for (int k = 0; k < mk::NL; ++k) f.v[size_t(k)] = u[k]; }
template <class F> void stf(F& f, double* w) { for (int k = 0; k < mk::NL; ++k) w[k] = f.v[size_t(k)]; }
