#pragma once
#include "vp.hpp"
#include <samurai/static_algorithm.hpp>
#include <samurai/operators_base.hpp>
// witness fields: a slice of a field over one cell; the storage of the slice is an abstract cell slot(field, level, coordinate, number of elements, j, k)
extern "C" void* slot(int id, size_t level, int start, int n, int j, int k) PURE;
extern "C" void* flag_slot(int id, size_t level, int start, int n, int j, int k) PURE;
template <size_t o> struct mesh_cfg { struct config { static constexpr size_t prediction_order = o; }; };
template <class E> struct dim_of { template <class S> struct sz; template <size_t... n> struct sz<xt::fixed_shape<n...>> { static constexpr size_t value = (n * ... * 1); }; static constexpr size_t value = sz<typename E::shape_type>::value; };
template <class T, int id, size_t dmax = 3> struct WF {
  using mesh_t = mesh_cfg<1>;
  using interval_t = Int;
  static constexpr size_t size = 1;
  static constexpr bool is_soa = false;
  using value_type = T;
  using S = xt::xtensor_fixed<T, xt::xshape<1>>;
  static S& at(size_t level, const Int& i, int j, int k) {
    int n = (i.end - i.start + i.step - 1) / i.step;
    if constexpr (std::is_same_v<T, int>) return *static_cast<S*>(flag_slot(id, level, i.start, n, j, k));
    else return *static_cast<S*>(slot(id, level, i.start, n, j, k)); }
  S& operator()(size_t level, const Int& i, int j = 0, int k = 0) const { return at(level, i, j, k); }
  template <class E> S& operator()(size_t level, const Int& i, const xt::xexpression<E>& e) const {
    const auto& x = e.derived_cast(); int j = 0, k = 0;
    if constexpr (dmax > 1 && dim_of<E>::value > 0) j = x(0);
    if constexpr (dmax > 2 && dim_of<E>::value > 1) k = x(1);
    return at(level, i, j, k); }
  static T& el(size_t level, int s, int j = 0, int k = 0) { return at(level, Int{s, s + 1}, j, k)[0]; }
};
template <int id> using U = WF<double, id>;
template <int id> using FL = WF<int, id>;
using Y1 = xt::xtensor_fixed<int, xt::xshape<1>>;
using Y2 = xt::xtensor_fixed<int, xt::xshape<2>>;
using Y0 = xt::xtensor_fixed<int, xt::xshape<0>>;

// row field: row(field, level, j, k) is the storage of a whole line, cell s at offset s; slices are strided views of it
#include <xtensor/xadapt.hpp>
#include <xtensor/xview.hpp>
extern "C" double* row(int id, size_t level, int j, int k) PURE;
template <int id, size_t order = 1> struct RF {
  using mesh_t = mesh_cfg<order>;
  static constexpr size_t size = 1;
  static constexpr bool is_soa = false;
  using value_type = double;
  auto operator()(size_t level, const Int& i, int j = 0, int k = 0) const {
    size_t n = static_cast<size_t>(i.end - i.start);
    std::array<size_t, 1> sh{n};
    return xt::view(xt::adapt(row(id, level, j, k) + i.start, n, xt::no_ownership(), sh), xt::range(0, i.end - i.start, i.step)); }
  static double& el(size_t level, int s, int j = 0, int k = 0) { return row(id, level, j, k)[s]; }
};

// two-component field stored component by component
template <int id> struct RS {
  using mesh_t = mesh_cfg<1>;
  static constexpr size_t size = 2;
  static constexpr bool is_soa = true;
  using value_type = double;
  static constexpr ptrdiff_t K = 1 << 20;
  auto operator()(size_t level, const Int& i, int j = 0, int k = 0) const {
    std::array<size_t, 2> sh{2, static_cast<size_t>(K)};
    return xt::view(xt::adapt(row(id, level, j, k) + i.start, static_cast<size_t>(2 * K), xt::no_ownership(), sh), xt::all(), xt::range(0, i.end - i.start, i.step)); }
  static double& el(int c, size_t level, int s, int j = 0, int k = 0) { return row(id, level, j, k)[c * K + s]; }
  template <int c> struct comp { static double& el(size_t level, int s, int j = 0, int k = 0) { return RS::el(c, level, s, j, k); } };
};
// field given by a formula F(level, s, j, k)
template <class Fn> struct PF {
  static constexpr size_t size = 1;
  static constexpr bool is_soa = false;
  using value_type = double;
  using S = xt::xtensor_fixed<double, xt::xshape<1>>;
  S operator()(size_t level, const Int& i, int j = 0, int k = 0) const { return S{Fn::f(level, i.start, j, k)}; }
};

extern "C" int* flag_row(int id, size_t level, int j, int k) PURE;
template <int id> struct FR {
  static constexpr size_t size = 1;
  using value_type = int;
  auto operator()(size_t level, const Int& i, int j = 0, int k = 0) const {
    size_t n = static_cast<size_t>(i.end - i.start);
    std::array<size_t, 1> sh{n};
    return xt::view(xt::adapt(flag_row(id, level, j, k) + i.start, n, xt::no_ownership(), sh), xt::range(0, i.end - i.start, i.step)); }
  template <class E> auto operator()(size_t level, const Int& i, const xt::xexpression<E>& e) const {
    const auto& x = e.derived_cast(); int j = 0, k = 0;
    if constexpr (dim_of<E>::value > 0) j = x(0);
    if constexpr (dim_of<E>::value > 1) k = x(1);
    return (*this)(level, i, j, k); }
  static int& el(size_t level, int s, int j = 0, int k = 0) { return flag_row(id, level, j, k)[s]; }
};

// several components per cell, one-cell slices: (1, 2) cell by cell, (2, 1) component by component
template <int id, bool soa, size_t dmax = 3, size_t nc = 2> struct VF {
  static constexpr size_t size = nc;
  static constexpr bool is_soa = soa;
  using value_type = double;
  using S = std::conditional_t<soa, xt::xtensor_fixed<double, xt::xshape<nc, 1>>, xt::xtensor_fixed<double, xt::xshape<1, nc>>>;
  static S& at(size_t level, const Int& i, int j, int k) { int n = (i.end - i.start + i.step - 1) / i.step; return *static_cast<S*>(slot(id, level, i.start, n, j, k)); }
  S& operator()(size_t level, const Int& i, int j = 0, int k = 0) const { return at(level, i, j, k); }
  template <class E> S& operator()(size_t level, const Int& i, const xt::xexpression<E>& e) const {
    const auto& x = e.derived_cast(); int j = 0, k = 0;
    if constexpr (dmax > 1 && dim_of<E>::value > 0) j = x(0);
    if constexpr (dmax > 2 && dim_of<E>::value > 1) k = x(1);
    return at(level, i, j, k); }
  static double& el(int c, size_t level, int s, int j = 0, int k = 0) { return soa ? at(level, Int{s, s + 1}, j, k)(size_t(c), 0) : at(level, Int{s, s + 1}, j, k)(0, size_t(c)); }
};
