#pragma once
// the real containers (std::vector, std::map, std::forward_list), filled with runs at unknown positions
#include "vp.hpp"
#include "rbtree.hpp"
#include <samurai/cell_array.hpp>
#include <samurai/cell_list.hpp>
#include <samurai/algorithm.hpp>
#include <samurai/subset/subset_op.hpp>
#include <samurai/subset/node_op.hpp>
extern "C" { int crd_y() PURE; int crd_z() PURE; int crd_row(int r) PURE; int gap_r(int r, int t) PURE; double Ev(int k, int i, long long a, long long b) PURE; double Ev4(int k, int i, long long a, long long b, long long c, long long d) PURE; double Ev3(int k, int i, long long a, long long b, long long c) PURE; double wgt(int k) PURE; double org(int d) PURE; double pos_scale() PURE; }
namespace st {
  inline int px(int r, int t) { int v = crd_row(r); for (int i = 0; i < t; ++i) v += 1 + gap_r(r, i); return v; }
}
