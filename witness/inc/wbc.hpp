#pragma once
#include "vp.hpp"
#include <xtensor/xadapt.hpp>
#include <samurai/bc.hpp>
#include <samurai/cell.hpp>
#include <samurai/stencil.hpp>
// a field read and written cell by cell: the storage of cell number c is cellv(field)[c*size + component]
extern "C" double* cellv(int id) PURE;
extern "C" double mesh_cell_length(size_t level) PURE;
extern "C" int mesh_index(size_t level, int i, int j, int k) PURE;
namespace mk {
  template <size_t d, size_t gw = 5> struct BMesh {
    static constexpr size_t dim = d;
    struct config { static constexpr size_t ghost_width = gw; static constexpr size_t prediction_order = 1; static constexpr size_t max_stencil_width = 1; static constexpr size_t dim = d; using interval_t = Int; };
    using interval_t = Int;
    using value_t = int;
    using mesh_interval_t = samurai::MeshInterval<d, Int>;
    using cell_t = samurai::Cell<d, Int>;
    double cell_length(size_t l) const { return mesh_cell_length(l); }
  };
  template <size_t d, size_t n = 1, int id = 1> struct BField {
    static constexpr size_t dim = d;
    static constexpr size_t size = n;
    static constexpr bool is_soa = false;
    using value_type = double;
    using mesh_t = BMesh<d>;
    using interval_t = Int;
    using cell_t = samurai::Cell<d, Int>;
    using V = xt::xtensor_fixed<double, xt::xshape<n>>;
    mesh_t m;
    mesh_t& mesh() { return m; }
    decltype(auto) operator[](const cell_t& c) {
      if constexpr (n == 1) return (cellv(id)[c.index]);
      else return xt::view(xt::adapt(cellv(id) + c.index * ptrdiff_t(n), n, xt::no_ownership(), std::array<size_t, 1>{n}), xt::all()); }
  };
}
