// PARTS: 4
// FLAGS: -fconstexpr-steps=20000000
// one row of cells: adding runs in any order keeps the sorted list of maximal runs of their union
#include "store.hpp"
using namespace samurai; using namespace st;
using List = ListOfIntervals<int, long long>;
// every way three runs can lie: six bounds on positions 0..5, each run increasing, the positions used without hole
struct Lay { static constexpr size_t NMAX = 500; signed char b[NMAX][6]; size_t n = 0;
  constexpr Lay() : b{} { signed char x[6] = {}; for (int code = 0; code < 46656; ++code) { int c = code; bool used[6] = {}; int top = 0; for (int i = 0; i < 6; ++i) { x[i] = (signed char)(c % 6); c /= 6; used[(int)x[i]] = true; if (x[i] > top) top = x[i]; }
    bool ok = x[0] < x[1] && x[2] < x[3] && x[4] < x[5]; for (int t = 0; t <= top; ++t) ok = ok && used[t]; if (ok) { for (int i = 0; i < 6; ++i) b[n][i] = x[i]; ++n; } } } };
inline constexpr Lay L3{};
static bool in(const signed char* b, int m, int t) { for (int i = 0; i < 2 * m; i += 2) if (b[i] <= t && t < b[i + 1]) return true; return false; }
#define LIST(nm, m, first, step) W double C16_##nm##__impl() { double r = 0; for (size_t k = first; k < L3.n; k += step) { List l; for (int i = 0; i < m; ++i) l.add_interval({px(0, L3.b[k][2 * i]), px(0, L3.b[k][2 * i + 1])}); int n = 0; for (auto& i : l) r += Ev(int(k), n++, i.start, i.end); r += Ev(int(k), 100, (long long)l.size(), l.empty()); } return r; } \
 W double C16_##nm##__spec() { double r = 0; for (size_t k = first; k < L3.n; k += step) { int n = 0; for (int t = 0; t < 6; ++t) if (in(L3.b[k], m, t) && (t == 0 || !in(L3.b[k], m, t - 1))) { int e = t; while (in(L3.b[k], m, e)) ++e; r += Ev(int(k), n++, px(0, t), px(0, e)); } r += Ev(int(k), 100, n, false); } return r; }
LIST(three_a, 3, VP_PART, 8)
LIST(three_b, 3, VP_PART + 4, 8)
#if VP_PART == 0
// an empty run changes nothing; a point is the run of one cell
W double C16_point__impl() { List l; l.add_interval({px(0, 2), px(0, 1)}); l.add_interval({px(0, 1), px(0, 1)}); double r = l.empty(); l.add_point(px(0, 1)); l.add_point(px(0, 1) + 1); l.add_point(px(0, 1) - 1); l.add_point(px(0, 1)); int n = 0; for (auto& i : l) r += Ev(0, n++, i.start, i.end); return r; }
W double C16_point__spec() { return 1 + Ev(0, 0, px(0, 1) - 1, px(0, 1) + 2); }
#endif
