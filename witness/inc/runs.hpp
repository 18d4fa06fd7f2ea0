#pragma once
// sets of cells given by their runs: one row (1D) or a few rows, each with a few runs whose bounds are unknown
#include "vp.hpp"
#include <samurai/level_cell_array.hpp>
#include <samurai/subset/subset_op.hpp>
#include <samurai/subset/node_op.hpp>
namespace rn {
  struct Iv : samurai::Interval<int> {
    using base = samurai::Interval<int>;
    using base::base;
    Iv() = default;
    Iv(const base& b) : base(b) {}
    Iv(int a, int b, int idx = 0) : base(a, b, idx) {}
  };
  template <class T, size_t CAP> struct List {
    using value_type = T; using const_iterator = const T*; using iterator = T*;
    size_t n = 0; T d[CAP];
    size_t size() const { return n; } bool empty() const { return n == 0; }
    const T& operator[](size_t i) const { return d[i]; } T& operator[](size_t i) { return d[i]; }
    const T* cbegin() const { return d; } const T* cend() const { return d + n; } const T* begin() const { return d; } const T* end() const { return d + n; } T* begin() { return d; } T* end() { return d + n; }
    const T& back() const { return d[n - 1]; } T& back() { return d[n - 1]; } void push_back(const T& t) { d[n++] = t; }
  };
  struct cit { using difference_type = std::ptrdiff_t; };
}
namespace samurai {
  template <size_t d_> class LevelCellArray<d_, rn::Iv> {
  public:
    static constexpr size_t dim = d_;
    using interval_t = rn::Iv; using value_t = int; using index_t = long long; using const_iterator = rn::cit; using cell_t = Cell<d_, rn::Iv>;
    rn::List<rn::Iv, d_ == 3 ? 12 : 8> c[d_]; rn::List<size_t, d_ == 3 ? 12 : 8> o[d_]; size_t lv;
    LevelCellArray(size_t l) : lv(l) {}
    const auto& operator[](size_t k) const { return c[k]; }
    auto& operator[](size_t k) { return c[k]; }
    const auto& offsets(size_t k) const { return o[k]; }
    size_t level() const { return lv; }
    bool empty() const { return c[0].n == 0; }
  };
}
// All ways to interleave the bounds of two lists of runs (with coincidences). In one interleaving the bounds are
// base < base+1+gap < ...: the gaps are unknown nonnegative numbers, so every order test is decided, the positions are not.
extern "C" { int crd_base() PURE; int gap_x(int t) PURE; double Wt(int x) PURE; double Wy(int y, int x) PURE; double wgt(int k) PURE; }
namespace rn {
  template <size_t d> using Set = samurai::LevelCellArray<d, Iv>;
  constexpr size_t delannoy(size_t p, size_t q) { return p == 0 || q == 0 ? 1 : delannoy(p - 1, q) + delannoy(p, q - 1) + delannoy(p - 1, q - 1); }
  template <size_t p, size_t q> struct Order { static constexpr size_t N = delannoy(p, q); signed char a[N][p ? p : 1], b[N][q ? q : 1]; };
  template <size_t p, size_t q> constexpr void fill(Order<p, q>& o, size_t& k, size_t i, size_t j, signed char t, signed char* a, signed char* b) {
    if (i == p && j == q) { for (size_t m = 0; m < p; ++m) o.a[k][m] = a[m]; for (size_t m = 0; m < q; ++m) o.b[k][m] = b[m]; ++k; return; }
    if (i < p) { a[i] = t; fill(o, k, i + 1, j, t + 1, a, b); }
    if (j < q) { b[j] = t; fill(o, k, i, j + 1, t + 1, a, b); }
    if (i < p && j < q) { a[i] = t; b[j] = t; fill(o, k, i + 1, j + 1, t + 1, a, b); } }
  template <size_t p, size_t q> constexpr Order<p, q> orders() { Order<p, q> o{}; size_t k = 0; signed char a[p + 1] = {}, b[q + 1] = {}; fill<p, q>(o, k, 0, 0, 0, a, b); return o; }
  template <size_t p, size_t q> inline constexpr Order<p, q> ORD = orders<p, q>();
  // position of the t-th distinct bound
  inline int pos(int t) { int r = crd_base(); for (int i = 0; i < t; ++i) r += 1 + gap_x(i); return r; }
  // Bounds on several levels: a bound is a key S*t + r, it stands for the position S*pos(t) + r on the finest level. All increasing
  // lists of p keys that are multiples of SA and of q keys that are multiples of SB, whose t are exactly 0..m for some m.
  template <size_t p, size_t q, int S, int SA, int SB, bool emit> constexpr size_t keys(signed char (*a)[p ? p : 1], signed char (*b)[q ? q : 1]) {
    constexpr int K = int(p + q) * S; size_t n = 0; signed char x[p + q + 1] = {}; bool done = false;
    // odometer over strictly increasing tuples
    for (size_t i = 0; i < p; ++i) x[i] = (signed char)(SA * int(i));
    for (size_t i = 0; i < q; ++i) x[p + i] = (signed char)(SB * int(i));
    while (!done) {
      bool used[p + q + 1] = {}; int top = -1; for (size_t i = 0; i < p + q; ++i) { int t = x[i] / S; used[t] = true; if (t > top) top = t; }
      bool ok = true; for (int t = 0; t <= top; ++t) ok = ok && used[t];
      if (ok) { if constexpr (emit) { for (size_t i = 0; i < p; ++i) a[n][i] = x[i]; for (size_t i = 0; i < q; ++i) b[n][i] = x[p + i]; } ++n; }
      // next
      int i = int(p + q) - 1;
      for (; i >= 0; --i) { bool inb = i >= int(p); int st = inb ? SB : SA; int last = inb ? int(p + q) - 1 : int(p) - 1; if (x[i] + st * (last - i + 1) <= K - st + (K - 1) % 1 && x[i] + st * (last - i) + st < K) { x[i] = (signed char)(x[i] + st); for (int j = i + 1; j < int(p + q); ++j) { int sj = j >= int(p) ? SB : SA; x[j] = (signed char)(j == int(p) ? 0 : x[j - 1] + sj); } break; } }
      if (i < 0) done = true; }
    return n; }
  template <size_t p, size_t q, int S, int SA, int SB> struct Keys { static constexpr size_t N = keys<p, q, S, SA, SB, false>(nullptr, nullptr); signed char a[N][p ? p : 1], b[N][q ? q : 1]; constexpr Keys() : a{}, b{} { keys<p, q, S, SA, SB, true>(a, b); } };
  template <size_t p, size_t q, int S, int SA, int SB> inline constexpr Keys<p, q, S, SA, SB> KEYS{};
  inline int at(int key, int S) { return S * pos(key / S) + key % S; }
  template <size_t p, size_t q, int S, int SA, int SB> struct Pair { static constexpr size_t N = Keys<p, q, S, SA, SB>::N; Set<1> A, B; const signed char *a, *b;
    // A lives on the level where a cell has the length of SA finest cells
    Pair(size_t k, size_t la, size_t lb) : A(la), B(lb), a(KEYS<p, q, S, SA, SB>.a[k]), b(KEYS<p, q, S, SA, SB>.b[k]) {
      for (size_t i = 0; i + 1 < p; i += 2) A.c[0].push_back(Iv((S / SA) * pos(a[i] / S) + a[i] % S / SA, (S / SA) * pos(a[i + 1] / S) + a[i + 1] % S / SA));
      for (size_t i = 0; i + 1 < q; i += 2) B.c[0].push_back(Iv((S / SB) * pos(b[i] / S) + b[i] % S / SB, (S / SB) * pos(b[i + 1] / S) + b[i + 1] % S / SB)); }
    static bool in(const signed char* c, size_t n, int key) { for (size_t i = 0; i + 1 < n; i += 2) if (c[i] <= key && key < c[i + 1]) return true; return false; }
    // a cell [key, key + G) of a coarser grid meets the set
    static bool meets(const signed char* c, size_t n, int key, int G) { bool r = false; for (int m = 0; m < G; ++m) r = r || in(c, n, key + m); return r; }
    // measure of the cells of length G (finest cells) selected by f(meets A, meets B), in cells of length H <= G
    // (a unit is S finest cells followed by a gap of unknown length in which nothing begins or ends)
    template <class F> double expect(int G, F f, int H = 0) const { double r = 0; if (H == 0) H = G;
      for (int t = 0; t < int(p + q); ++t) {
        for (int key = S * t; key < S * t + S; key += G) if (f(meets(a, p, key, G), meets(b, q, key, G))) r += Wt((S / H) * pos(t) + (key + G - S * t) / H) - Wt((S / H) * pos(t) + (key - S * t) / H);
        if (f(in(a, p, S * t + S - 1), in(b, q, S * t + S - 1))) r += Wt((S / H) * pos(t + 1)) - Wt((S / H) * (pos(t) + 1)); }
      return r; } };
  // measure of what a set expression enumerates: a run [s, e) counts Wt(e) - Wt(s)
  template <class S> double measure(S&& s) { double r = 0; s([&](const auto& i, const auto&) { r += Wt(i.end) - Wt(i.start); }); return r; }
  inline double run(int a, int b) { return Wt(b) - Wt(a); }
}
#define FOR_ALL(k, N) for (size_t k##_ = 0; k##_ < (N); k##_ += 64) for (size_t k = k##_; k < k##_ + 64 && k < (N); ++k)
