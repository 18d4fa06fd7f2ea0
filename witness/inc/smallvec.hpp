#pragma once
// analysis model of xt::uvector with inline storage (so that heap traffic does not obscure the IR)
#include <xtensor/xstorage.hpp>
#include <algorithm>
#include <iterator>
namespace xt {
#define VP_SMALL_UVECTOR(T, CAP) \
 template<class A> class uvector<T,A> { public: \
  using allocator_type=A; using value_type=T; using reference=T&; using const_reference=const T&; using pointer=T*; using const_pointer=const T*; \
  using size_type=std::size_t; using difference_type=std::ptrdiff_t; using iterator=T*; using const_iterator=const T*; \
  using reverse_iterator=std::reverse_iterator<iterator>; using const_reverse_iterator=std::reverse_iterator<const_iterator>; \
  uvector() noexcept : n(0) {} explicit uvector(const A&) noexcept : n(0) {} \
  explicit uvector(size_type c, const A& = A()) : n(c) {} \
  uvector(size_type c, const_reference v, const A& = A()) : n(c) { for(size_type i=0;i<c;++i) d[i]=v; } \
  template<class It, class = detail::require_input_iter<It>> uvector(It f, It l, const A& = A()) : n(0) { for(;f!=l;++f) d[n++]=*f; } \
  uvector(std::initializer_list<T> l, const A& = A()) : n(0) { for(auto x:l) d[n++]=x; } \
  uvector(const uvector& o) : n(o.n) { for(size_type i=0;i<n;++i) d[i]=o.d[i]; } \
  uvector& operator=(const uvector& o) { n=o.n; for(size_type i=0;i<n;++i) d[i]=o.d[i]; return *this; } \
  bool empty() const noexcept {return n==0;} size_type size() const noexcept {return n;} void resize(size_type c){n=c;} size_type max_size() const noexcept{return CAP;} \
  void reserve(size_type){} size_type capacity() const noexcept{return CAP;} void shrink_to_fit(){} void clear(){n=0;} A get_allocator() const noexcept {return A();} \
  reference operator[](size_type i){return d[i];} const_reference operator[](size_type i) const {return d[i];} \
  reference at(size_type i){return d[i];} const_reference at(size_type i) const {return d[i];} \
  reference front(){return d[0];} const_reference front() const{return d[0];} reference back(){return d[n-1];} const_reference back() const{return d[n-1];} \
  pointer data() noexcept {return d;} const_pointer data() const noexcept {return d;} \
  iterator begin() noexcept{return d;} iterator end() noexcept {return d+n;} const_iterator begin() const noexcept{return d;} const_iterator end() const noexcept{return d+n;} \
  const_iterator cbegin() const noexcept{return d;} const_iterator cend() const noexcept{return d+n;} \
  reverse_iterator rbegin() noexcept{return reverse_iterator(end());} reverse_iterator rend() noexcept{return reverse_iterator(begin());} \
  const_reverse_iterator rbegin() const noexcept{return const_reverse_iterator(end());} const_reverse_iterator rend() const noexcept{return const_reverse_iterator(begin());} \
  void swap(uvector& o) noexcept { std::swap(*this,o);} \
  private: size_type n; T d[CAP]; };
VP_SMALL_UVECTOR(bool, 4)
#ifndef VP_DCAP
#define VP_DCAP 16
#endif
VP_SMALL_UVECTOR(double, VP_DCAP)
}
