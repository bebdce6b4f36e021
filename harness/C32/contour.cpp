// C32: contour sums / operations on trees
#include "mon.hpp"
#include "library/tree/contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum_invertible.hpp"
#include "library/tree/point_get_range_contour_add_invertible.hpp"
#include "library/tree/point_get_range_contour_operate.hpp"
#include "library/tree/point_set_range_contour_sum.hpp"
#include "library/tree/range_contour_sum_invertible.hpp"
using namespace mon; using namespace suisen;
struct T { int n; std::vector<std::pair<int, int>> e; std::vector<std::vector<int>> d; };
static T gen(Rng& rng, int n) { T t{ n, rng.tree(n), std::vector<std::vector<int>>(n, std::vector<int>(n, -1)) }; if (n > 1 && rng.pct(25)) { t.e.clear(); auto p = rng.perm(n); int c = rng(1, 3); for (int i = 1; i < n; ++i) t.e.emplace_back(p[i], p[i < c ? i - 1 : rng(0, std::min(i, c) - 1)]); } std::vector<std::vector<int>> g(n); for (auto [a, b] : t.e) g[a].push_back(b), g[b].push_back(a); for (int r = 0; r < n; ++r) { std::vector<int> q{ r }; t.d[r][r] = 0; for (size_t i = 0; i < q.size(); ++i) for (int v : g[q[i]]) if (t.d[r][v] < 0) t.d[r][v] = t.d[r][q[i]] + 1, q.push_back(v); } return t; }
static i64 zero() { return 0; } static i64 add(i64 a, i64 b) { return a + b; } static i64 neg(i64 a) { return -a; }
struct MX { i64 m; int c; bool operator==(const MX& o) const { return m == o.m && c == o.c; } friend std::ostream& operator<<(std::ostream& s, const MX& x) { return s << x.m << "x" << x.c; } };
static MX mop(MX a, MX b) { return a.m == b.m ? MX{ a.m, a.c + b.c } : a.m > b.m ? a : b; } static MX me() { return { -(i64)4e18, 0 }; }
static std::pair<int, int> rg(Rng& rng, int n) { int a = rng(-2, n + 2), b = rng(-2, n + 2); if (rng.pct(85) && a > b) std::swap(a, b); if (rng.pct(20)) b = a + 1; return { a, b }; }
static bool in(int d, int l, int r) { return l <= d && d < r; }
static void sums(Rng& rng, int n, int q) {
    auto t = gen(rng, n); std::vector<i64> a = rng.vec<i64>(n, -1000000, 1000000); bool fill = rng.pct(20); if (fill) a.assign(n, rng(-5, 5)); std::vector<MX> m(n); for (auto& x : m) x = { rng(0, 4), 1 };
    ContourSumOnTree<i64> c = fill ? ContourSumOnTree<i64>(n, a[0]) : ContourSumOnTree<i64>(a); ContourSumOnTree<MX, mop, me> cm(m); RangeContourSumOnTree<i64> rs = fill ? RangeContourSumOnTree<i64>(n, a[0]) : RangeContourSumOnTree<i64>(a); PointAddRangeContourSumOnTree<i64> pi = fill ? PointAddRangeContourSumOnTree<i64>(n, a[0]) : PointAddRangeContourSumOnTree<i64>(a); PointAddRangeContourSum<MX, mop, me> pa(m); PointSetRangeContourSum<MX, mop, me> ps = fill ? PointSetRangeContourSum<MX, mop, me>(n, MX{ 7, 1 }) : PointSetRangeContourSum<MX, mop, me>(m);
    RangeContourSumOnTree<i64, add, zero, neg> rs2(a);
    for (auto [u, v] : t.e) c.add_edge(u, v), cm.add_edge(u, v), rs.add_edge(u, v), rs2.add_edge(v, u), pi.add_edge(u, v), pa.add_edge(u, v), ps.add_edge(u, v);
    c.build(), cm.build(), rs.build(), rs2.build(), pi.build(), pa.build(), ps.build(); auto b = a; auto ma = m, ms = m; if (fill) ms.assign(n, MX{ 7, 1 });
    while (q--) { int u = rng(0, n - 1), d = rng(-1, n + 1); if (rng.pct(60)) d = t.d[u][rng(0, n - 1)]; auto [l, r] = rg(rng, n); if (rng.pct(50)) { l = t.d[u][rng(0, n - 1)]; r = l + rng(0, 3); } switch (rng(0, 7)) {
        case 0: { i64 w = 0; MX x = me(); for (int v = 0; v < n; ++v) if (t.d[u][v] == d) w += a[v], x = mop(x, m[v]); EQ(c.sum(u, d), w); EQ(cm.sum(u, d), x); } break;
        case 1: case 2: { i64 w = 0, w2 = 0; MX x = me(), y = me(); for (int v = 0; v < n; ++v) if (in(t.d[u][v], l, r)) w += a[v], w2 += b[v], x = mop(x, ma[v]), y = mop(y, ms[v]); EQ(rs.sum(u, l, r), w); EQ(rs2.sum(u, l, r), w); EQ(pi.sum(u, l, r), w2); EQ(pa.sum(u, l, r), x); EQ(ps.sum(u, l, r), y); } break;
        case 3: { i64 k = rng(-1000, 1000); pi.add(u, k); b[u] += k; } break;
        case 4: { i64 k = rng(-1000, 1000); pi.set(u, k); b[u] = k; EQ(pi.get(u), k); } break;
        case 5: { MX k{ rng(0, 5), 1 }; pa.add(u, k); ma[u] = mop(ma[u], k); } break;
        case 6: { MX k{ rng(-3, 5), 1 }; ps.set(u, k); ms[u] = k; } break;
        default: EQ(pi.get(u), b[u]); EQ(pa.get(u), ma[u]); EQ(ps.get(u), ms[u]);
    } }
}
SCENARIO(contour_sums, 500) { sums(rng, rng.size(1, 30), 60); }
SCENARIO(contour_sums_larger, 10) { sums(rng, rng.size(100, 500), 150); }
static i64 fmap(i64 f, i64 x) { return x + f; } static i64 fcomp(i64 f, i64 g) { return f + g; } static i64 fid() { return 0; } static i64 finv(i64 f) { return -f; }
static i64 cmx_map(i64 f, i64 x) { return std::max(f, x); } static i64 cmx(i64 f, i64 g) { return std::max(f, g); } static i64 cmxid() { return LLONG_MIN; }
static u64 pmap(u64 f, u64 x) { return x * f; } static u64 pcomp(u64 f, u64 g) { return f * g; } static u64 pid() { return 1; } static u64 pinv(u64 f) { u64 x = 1; for (int i = 0; i < 6; ++i) x *= 2 - f * x; return x; }
static void ops(Rng& rng, int n, int q) {
    auto t = gen(rng, n); std::vector<i64> a = rng.vec<i64>(n, -1000, 1000), b = a, m = a; std::vector<u64> p(n); for (auto& x : p) x = rng.u();
    PointGetRangeContourAddOnTree<i64, i64, fmap, fcomp, fid, finv> A(n); PointGetRangeContourAddOnTree<u64, u64, pmap, pcomp, pid, pinv> Pm(n); PointGetRangeContourOperate<i64, i64, cmx_map, cmx, cmxid> O(n); PointGetRangeContourOperate<i64, i64, fmap, fcomp, fid> B(n); for (auto [u, v] : t.e) A.add_edge(u, v), Pm.add_edge(v, u), O.add_edge(u, v), B.add_edge(u, v); A.build(a), Pm.build(p), O.build(m), B.build(b);
    while (q--) { int u = rng(0, n - 1); auto [l, r] = rg(rng, n); if (rng.pct(50)) { l = t.d[u][rng(0, n - 1)]; r = l + rng(0, 3); } i64 f = rng(-1000, 1000); u64 pf = rng.u() | 1; switch (rng(0, 3)) {
        case 0: A.add(u, f), a[u] += f; Pm.add(u, pf), p[u] *= pf; O.apply(u, f), m[u] = std::max(m[u], f); B.apply(u, f), b[u] += f; break;
        case 1: EQ(A.get(u), a[u]); EQ(Pm.get(u), p[u]); EQ(O.get(u), m[u]); EQ(B.get(u), b[u]); break;
        default: A.apply(u, l, r, f); Pm.apply(u, l, r, pf); O.apply(u, l, r, f); B.apply(u, l, r, f); for (int v = 0; v < n; ++v) if (in(t.d[u][v], l, r)) a[v] += f, b[v] += f, p[v] *= pf, m[v] = std::max(m[v], f);
    } }
    for (int u = 0; u < n; ++u) EQ(A.get(u), a[u]), EQ(Pm.get(u), p[u]), EQ(O.get(u), m[u]), EQ(B.get(u), b[u]);
}
SCENARIO(contour_ops, 500) { ops(rng, rng.size(1, 30), 60); }
SCENARIO(contour_ops_larger, 10) { ops(rng, rng.size(100, 500), 150); }
// the same workloads at realistic sizes
RESCALE(contour_sums_larger, 4, 8);
RESCALE(contour_sums, 4, 128);
RESCALE(contour_ops, 4, 128);
RESCALE(contour_ops_larger, 4, 8);
