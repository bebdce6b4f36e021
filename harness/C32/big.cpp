// Rerooting, contour structures and static top trees on trees with more than 2^16 vertices, against linear-time recomputation.
// MON: shards=4
#include "mon.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/static_top_tree.hpp"
#include "library/tree/contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum_invertible.hpp"
#include "library/tree/point_get_range_contour_add_invertible.hpp"
#include "library/tree/point_get_range_contour_operate.hpp"
#include "library/tree/point_set_range_contour_sum.hpp"
#include "library/tree/range_contour_sum_invertible.hpp"
using namespace suisen; using mon::Rng; using PI = std::pair<int, int>;
struct Tr { int n; std::vector<PI> e; std::vector<std::vector<PI>> g; };
static Tr gen(Rng& rng, int st) {
    int n = (int)(st == 0 ? rng.in(140000, 150000) : rng.coin() ? 65536 + rng.in(0, 5) : rng.in(66000, 80000)), h = n / 2; Tr t{ n, {}, std::vector<std::vector<PI>>(n) }; auto p = rng.perm(n);
    for (int i = 1; i < n; ++i) { int q; switch (st) { case 0: q = i - 1; break; case 1: q = 0; break; case 2: q = i <= h ? i - 1 : i - h - 1; break; case 3: q = (int)rng.in(0, i - 1); break; case 4: q = (i - 1) / 2; break; default: q = i % 300 == 1 ? 0 : i - 1; } t.e.emplace_back(p[q], p[i]); if (rng.coin()) std::swap(t.e.back().first, t.e.back().second); }
    rng.shuffle(t.e); for (int i = 0; i < n - 1; ++i) t.g[t.e[i].first].emplace_back(t.e[i].second, i), t.g[t.e[i].second].emplace_back(t.e[i].first, i); return t;
}
static std::vector<int> bfs(const Tr& t, int s) { std::vector<int> d(t.n, -1), q{ s }; d[s] = 0; q.reserve(t.n); for (size_t i = 0; i < q.size(); ++i) for (auto [v, id] : t.g[q[i]]) if (d[v] < 0) d[v] = d[q[i]] + 1, q.push_back(v); return d; }
SCENARIO(big_rerooting, 6) {
    int st = (int)rng.in(0, 5); auto t = gen(rng, st); int n = t.n; LOG("n", n, "style", st); std::vector<i64> w(n), len(n); for (auto& x : w) x = rng.in(-1000, 1000); for (auto& x : len) x = rng.in(-100000, 100000);
    std::vector<int> par(n, -1), pe(n, -1), ord{ 0 }; for (size_t i = 0; i < ord.size(); ++i) for (auto [v, id] : t.g[ord[i]]) if (v != par[ord[i]]) par[v] = ord[i], pe[v] = id, ord.push_back(v); std::vector<i64> c(w), s(n); i64 all = 0; for (i64 x : w) all += x; for (int i = n - 1; i > 0; --i) { int v = ord[i]; c[par[v]] += c[v]; s[par[v]] += s[v] + c[v] * len[pe[v]]; } for (int i = 1; i < n; ++i) { int v = ord[i]; s[v] = s[par[v]] + (all - 2 * c[v]) * len[pe[v]]; }
    struct D { i64 c, s; }; { RerootingWeighted<i64, i64> r(w); for (int i = 0; i < n - 1; ++i) r.add_edge(t.e[i].first, t.e[i].second, len[i]); auto d = r.run_dp([](D a, D b) { return D{ a.c + b.c, a.s + b.s }; }, [] { return D{ 0, 0 }; }, [](D a, i64 v, i64 e) { return D{ a.c + v, a.s + (a.c + v) * e }; }, [](D a, i64 v) { return D{ a.c + v, a.s }; }); EQ((int)d.size(), n); for (int v = 0; v < n; ++v) { EQ(d[v].s, s[v]); EQ(d[v].c, all); } }
    { auto d0 = bfs(t, 0); int a = (int)(std::max_element(d0.begin(), d0.end()) - d0.begin()); auto da = bfs(t, a); int b = (int)(std::max_element(da.begin(), da.end()) - da.begin()); auto db = bfs(t, b); Rerooting r(n); for (auto [u, v] : t.e) r.add_edge(u, v); auto d = r.run_dp([](int x, int y) { return std::max(x, y); }, [] { return 0; }, [](int x) { return x + 1; }, [](int x) { return x; }); for (int v = 0; v < n; ++v) EQ(d[v], std::max(da[v], db[v])); }
    { constexpr u64 M = 998244353; u64 k = (u64)rng.in(1, M - 1); std::vector<u64> dn(n, 1), full(n, 1), up(n, 1); for (int i = n - 1; i >= 0; --i) if (par[ord[i]] >= 0) { int v = ord[i]; dn[par[v]] = dn[par[v]] * ((dn[v] + k + v) % M) % M; } for (int u : ord) { std::vector<u64> f, pre{ 1 }, suf{ 1 }; for (auto [v, id] : t.g[u]) f.push_back(v == par[u] ? (up[u] + k + v) % M : (dn[v] + k + v) % M); for (u64 x : f) pre.push_back(pre.back() * x % M); for (size_t i = f.size(); i--;) suf.push_back(suf.back() * f[i] % M); std::reverse(suf.begin(), suf.end()); full[u] = pre.back(); for (size_t i = 0; i < f.size(); ++i) { int v = t.g[u][i].first; if (v != par[u]) up[v] = pre[i] * suf[i + 1] % M; } }
      std::vector<int> lab(n); for (int i = 0; i < n; ++i) lab[i] = i; RerootingVertexWeighted<int> r(lab); for (auto [u, v] : t.e) r.add_edge(v, u); auto d = r.run_dp([](u64 x, u64 y) { return x * y % M; }, [] { return (u64)1; }, [&](u64 x, int v) { return (x + k + v) % M; }, [](u64 x, int v) { return (x + v) % M; }); for (int v = 0; v < n; ++v) EQ(d[v], (full[v] + v) % M); }
}
static i64 zero() { return 0; } static i64 add(i64 a, i64 b) { return a + b; } static i64 neg(i64 a) { return -a; }
struct MX { i64 m; int c; bool operator==(const MX& o) const { return m == o.m && c == o.c; } friend std::ostream& operator<<(std::ostream& s, const MX& x) { return s << x.m << "x" << x.c; } };
static MX mop(MX a, MX b) { return a.m == b.m ? MX{ a.m, a.c + b.c } : a.m > b.m ? a : b; } static MX me() { return { -(i64)4e18, 0 }; }
static PI rg(Rng& rng, int n, const std::vector<int>& d) { int mx = *std::max_element(d.begin(), d.end()), a = rng.coin() ? d[rng.in(0, n - 1)] : (int)rng.in(-2, mx + 2), b = rng.pct(30) ? a + (int)rng.in(0, 2) : rng.coin() ? d[rng.in(0, n - 1)] : (int)rng(-2, n + 2); if (rng.pct(90) && a > b) std::swap(a, b); return { a, b }; }
SCENARIO(big_contour_sums, 6) {
    int st = (int)rng.in(0, 5); auto t = gen(rng, st); int n = t.n; LOG("n", n, "style", st); std::vector<i64> a(n); for (auto& x : a) x = rng.in(-1000000000, 1000000000); std::vector<MX> m(n); for (auto& x : m) x = { rng.in(0, 300), 1 }; ContourSumOnTree<i64> c(a); RangeContourSumOnTree<i64, add, zero, neg> rs(a); PointAddRangeContourSumOnTree<i64> pi(a); PointAddRangeContourSum<MX, mop, me> pa(m); PointSetRangeContourSum<MX, mop, me> ps(m); for (auto [u, v] : t.e) c.add_edge(u, v), rs.add_edge(v, u), pi.add_edge(u, v), pa.add_edge(u, v), ps.add_edge(u, v); c.build(), rs.build(), pi.build(), pa.build(), ps.build(); auto b = a; auto ma = m, ms = m;
    for (int q = 0; q < 50; ++q) { int u = (int)rng.in(0, n - 1); if (rng.pct(20)) for (int i = 0; i < n; ++i) if (t.g[i].size() > t.g[u].size()) u = i; auto d = bfs(t, u); { std::vector<i64> by(n + 1); for (int v = 0; v < n; ++v) by[d[v]] += a[v]; for (int k = 0; k < 20; ++k) { int x = rng.coin() ? d[rng.in(0, n - 1)] : (int)rng(-1, n + 1); EQ(c.sum(u, x), x < 0 || x > n ? 0 : by[x]); } } for (int k = 0; k < 3; ++k) { auto [l, r] = rg(rng, n, d); i64 w = 0, w2 = 0; MX x = me(), y = me(); for (int v = 0; v < n; ++v) if (l <= d[v] && d[v] < r) w += a[v], w2 += b[v], x = mop(x, ma[v]), y = mop(y, ms[v]); EQ(rs.sum(u, l, r), w); EQ(pi.sum(u, l, r), w2); EQ(pa.sum(u, l, r), x); EQ(ps.sum(u, l, r), y); }
        for (int k = 0; k < 40; ++k) { int v = (int)rng.in(0, n - 1); i64 z = rng.in(-1000000000, 1000000000); if (rng.coin()) pi.add(v, z), b[v] += z; else pi.set(v, z), b[v] = z; EQ(pi.get(v), b[v]); MX y{ rng.in(0, 310), 1 }; pa.add(v, y); ma[v] = mop(ma[v], y); EQ(pa.get(v), ma[v]); MX s{ rng.in(-3, 300), 1 }; ps.set(v, s); ms[v] = s; EQ(ps.get(v), s); } }
}
static i64 fmap(i64 f, i64 x) { return x + f; } static i64 fcomp(i64 f, i64 g) { return f + g; } static i64 fid() { return 0; } static i64 finv(i64 f) { return -f; }
static i64 cmx_map(i64 f, i64 x) { return std::max(f, x); } static i64 cmx(i64 f, i64 g) { return std::max(f, g); } static i64 cmxid() { return LLONG_MIN; }
SCENARIO(big_contour_ops, 6) {
    int st = (int)rng.in(0, 5); auto t = gen(rng, st); int n = t.n; LOG("n", n, "style", st); std::vector<i64> a(n), m(n); for (auto& x : a) x = rng.in(-1000000000, 1000000000); for (auto& x : m) x = rng.in(-1000000000, 0); PointGetRangeContourAddOnTree<i64, i64, fmap, fcomp, fid, finv> A(n); PointGetRangeContourOperate<i64, i64, cmx_map, cmx, cmxid> O(n); PointGetRangeContourOperate<i64, i64, fmap, fcomp, fid> B(n); for (auto [u, v] : t.e) A.add_edge(u, v), O.add_edge(u, v), B.add_edge(v, u); A.build(a), O.build(m), B.build(a);
    for (int q = 0; q < 120; ++q) { int u = (int)rng.in(0, n - 1); if (rng.pct(20)) for (int i = 0; i < n; ++i) if (t.g[i].size() > t.g[u].size()) u = i; auto d = bfs(t, u); auto [l, r] = rg(rng, n, d); i64 f = rng.in(-1000000000, 1000000000); if (rng.pct(10)) { A.add(u, f), O.apply(u, f), B.apply(u, f); a[u] += f, m[u] = std::max(m[u], f); } else { A.apply(u, l, r, f); O.apply(u, l, r, f); B.apply(u, l, r, f); for (int v = 0; v < n; ++v) if (l <= d[v] && d[v] < r) a[v] += f, m[v] = std::max(m[v], f); } for (int k = 0; k < 30; ++k) { int v = (int)rng.in(0, n - 1); EQ(A.get(v), a[v]); EQ(O.get(v), m[v]); EQ(B.get(v), a[v]); } }
    for (int v = 0; v < n; ++v) { EQ(A.get(v), a[v]); EQ(O.get(v), m[v]); EQ(B.get(v), a[v]); }
}
static std::vector<i64> gw; static std::vector<int> gpar, gdep; static u64 calls;
struct Path { int top, bot; i64 size, sum, dsum, mx; u64 h; }; struct Sub { int par; i64 size, sum, dsum, mx; u64 h; }; constexpr u64 SM = 998244353; // mx: largest depth-weight; h: product over the vertices
static Path vertex(int v) { ++calls; return { v, v, 1, gw[v], 0, gw[v], (u64)(v + 1) }; }
static Sub add_edge(Path& p, int r, int par) { ++calls; REQUIRE(p.top == r && gpar[r] == par, "add_edge got a wrong cluster", r, par); return { par, p.size, p.sum, p.dsum + p.sum, p.mx, p.h }; }
static Sub merge_subtrees(Sub& a, Sub& b) { ++calls; REQUIRE(a.par == b.par, "subtrees of different parents merged"); return { a.par, a.size + b.size, a.sum + b.sum, a.dsum + b.dsum, std::max(a.mx, b.mx), a.h * b.h % SM }; }
static Path add_root(Sub& s, int v) { ++calls; REQUIRE(s.par == v, "root of a wrong subtree"); return { v, v, s.size + 1, s.sum + gw[v], s.dsum, std::max(s.mx, gw[v]), s.h * (u64)(v + 1) % SM }; }
static Path merge_paths(Path& hi, Path& lo) { ++calls; REQUIRE(gpar[lo.top] == hi.bot, "paths not adjacent"); i64 d = gdep[lo.top] - gdep[hi.top]; return { hi.top, lo.bot, hi.size + lo.size, hi.sum + lo.sum, hi.dsum + lo.dsum + lo.sum * d, std::max(hi.mx, lo.mx), hi.h * lo.h % SM }; }
SCENARIO(big_static_top_tree, 6) {
    int st = (int)rng.in(0, 5); auto t = gen(rng, st); int n = t.n, r = (int)rng.in(0, n - 1); LOG("n", n, "style", st, "root", r); std::vector<std::vector<int>> g(n); for (int i = 0; i < n; ++i) { for (auto [v, id] : t.g[i]) g[i].push_back(v); rng.shuffle(g[i]); } gpar.assign(n, -1); gdep.assign(n, 0); std::vector<int> ord{ r }; for (size_t i = 0; i < ord.size(); ++i) for (int v : g[ord[i]]) if (v != gpar[ord[i]]) gpar[v] = ord[i], gdep[v] = gdep[ord[i]] + 1, ord.push_back(v); gw.resize(n); for (auto& x : gw) x = rng.in(-1000000000, 1000000000);
    static_toptree T(g, r); std::vector<int> sz(n, 1); for (int i = n - 1; i > 0; --i) sz[gpar[ord[i]]] += sz[ord[i]]; for (int v = 0; v < n; ++v) EQ(T.parent(v), gpar[v]), EQ(T.subtree_size(v), sz[v]); auto dp = T.tree_dp<Sub, Path, vertex, add_edge, merge_subtrees, add_root, merge_paths>(); i64 s = 0, d = 0; u64 h = 1; std::multiset<i64> ms(gw.begin(), gw.end()); for (int v = 0; v < n; ++v) s += gw[v], d += gw[v] * gdep[v], h = h * (u64)(v + 1) % SM; auto chk = [&](const Path& p) { EQ(p.top, r); EQ(p.size, (i64)n); EQ(p.sum, s); EQ(p.dsum, d); EQ(p.mx, *ms.rbegin()); EQ(p.h, h); }; chk(dp()); int lg = 0; while ((1 << lg) < n) ++lg;
    for (int q = 0; q < 1000; ++q) { int v = rng.pct(20) ? ord[rng.in(0, 2)] : rng.pct(20) ? ord[rng.in(n - 3, n - 1)] : (int)rng.in(0, n - 1); ms.erase(ms.find(gw[v])); s -= gw[v], d -= gw[v] * gdep[v]; gw[v] = rng.in(-1000000000, 1000000000); ms.insert(gw[v]); s += gw[v], d += gw[v] * gdep[v]; calls = 0; chk(dp.update(v)); REQUIRE(calls <= (u64)(6 * lg + 12), "update is not logarithmic", calls, n); } chk(dp.answer());
}
