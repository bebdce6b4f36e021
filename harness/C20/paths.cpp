// MON: shards=4
#include "mon.hpp"
#include <algorithm>
#include <cassert>
#include <iostream>
#include <map>
#include <set>
#include <queue>
#include <deque>
#include <functional>
#include <tuple>
#include "library/graph/dijkstra.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/minmax_floyd_warshall.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/remove_multiedges.hpp"
#include "library/graph/kruscal.hpp"
#include "library/graph/manhattan_mst.hpp"
#include "library/graph/manhattan_minimum_distances.hpp"
#include "library/graph/segment_tree_graph.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
using namespace suisen; using mon::Rng;
using PI = std::pair<int, int>;
static const i64 INF = 4e18;
// Bellman-Ford on an explicit arc list
static std::vector<i64> bf(int n, const std::vector<std::tuple<int, int, i64>>& es, const std::vector<int>& src) { std::vector<i64> d(n, INF); for (int s : src) d[s] = 0; for (bool u = true; u;) { u = false; for (auto [a, b, c] : es) if (d[a] < INF && d[a] + c < d[b]) d[b] = d[a] + c, u = true; } return d; }
static std::vector<PI> edges_of(Rng& rng, int n, int m, bool loops) { std::vector<PI> e; if (n == 0) return e; int blk = rng.coin() ? n : std::max<int>(1, n / 2); while (m--) { int u = rng(0, n - 1), v = rng.coin() ? rng(0, n - 1) : (u / blk) * blk + rng(0, std::min(blk, n - (u / blk) * blk) - 1); if (u == v && !loops) continue; e.emplace_back(u, v); } return e; }

template <class C> void dij(Rng& rng) {
    int n = rng.size(1, 30), m = rng.size(0, 90); i64 W = rng.pick(std::vector<i64>{ 0, 1, 10, sizeof(C) == 8 ? 1000000000000000LL : 1000000LL }); auto es = edges_of(rng, n, m, true); std::vector<std::vector<std::pair<int, C>>> g(n); std::vector<std::tuple<int, int, i64>> te; std::map<PI, i64> mn; for (auto [u, v] : es) { i64 w = rng(0, W); g[u].emplace_back(v, (C)w); te.emplace_back(u, v, w); auto it = mn.emplace(PI(u, v), w).first; it->second = std::min(it->second, w); }
    int s = rng(0, n - 1); auto w = bf(n, te, { s }); dijkstra<C> d(g, s); for (int t = 0; t < n; ++t) { bool re = w[t] < INF; EQ(d.is_reachale(t), re); EQ(d.is_unreachable(t), !re); if (!re) { EQ(d[t], std::numeric_limits<C>::max()); continue; } EQ((i64)d[t], w[t]); auto p = d.path_to(t); EQ((int)p.front(), s); EQ((int)p.back(), t); i64 len = 0; for (size_t i = 0; i + 1 < p.size(); ++i) { auto it = mn.find({ (int)p[i], (int)p[i + 1] }); REQUIRE(it != mn.end(), "path uses a missing edge"); len += it->second; } EQ(len, w[t]); REQUIRE((int)p.size() <= n, "path not simple"); }
    dijkstra<C> d2(n, [&](unsigned u, C du, auto f) { for (auto [v, c] : g[u]) f(v, du + c); }, s); for (int t = 0; t < n; ++t) EQ(d2[t], d[t]);
}
SCENARIO(dijkstra, 800) { if (rng.coin()) dij<i64>(rng); else if (rng.coin()) dij<int>(rng); else dij<unsigned>(rng); }
SCENARIO(bfs, 800) {
    int n = rng.size(1, 25), m = rng.coin() ? rng.size(0, 40) : rng.upto(0, std::min(n * n / 2 + 1, 40000)); auto es = edges_of(rng, n, m, true); std::vector<std::tuple<int, int, i64>> te, ce; std::set<PI> adj; std::vector<std::vector<int>> g(n); for (auto [u, v] : es) { te.emplace_back(u, v, 1); te.emplace_back(v, u, 1); adj.insert({ u, v }); adj.insert({ v, u }); g[u].push_back(v); g[v].push_back(u); } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && !adj.count({ i, j })) ce.emplace_back(i, j, 1);
    BFS b = rng.coin() ? BFS(n, es) : rng.coin() ? BFS(g) : [&] { BFS x(n); for (auto [u, v] : es) x.add_edge(u, v); return x; }(); ComplementBFS c = rng.coin() ? ComplementBFS(n, es) : rng.coin() ? ComplementBFS(g) : [&] { ComplementBFS x(n); for (auto [u, v] : es) x.add_edge(u, v); return x; }();
    std::vector<int> src; int k = rng(0, 3); if (rng.pct(80)) k = std::max(k, 1); for (int i = 0; i < k; ++i) src.push_back(rng(0, n - 1)); auto chk = [&](std::vector<int> got, std::vector<i64> w) { EQ((int)got.size(), n); for (int i = 0; i < n; ++i) EQ(got[i], w[i] == INF ? -1 : (int)w[i]); };
    chk(b.distance(src), bf(n, te, src)); chk(c.distance(src), bf(n, ce, src)); int s = rng(0, n - 1); chk(b.distance(s), bf(n, te, { s })); chk(c.distance(s), bf(n, ce, { s }));
    auto comps = [&](std::vector<std::vector<int>> got, auto& ed) { std::vector<int> seen(n); for (auto& q : got) { REQUIRE(!q.empty()); auto d = bf(n, ed, { q[0] }); std::set<int> w; for (int i = 0; i < n; ++i) if (d[i] < INF) w.insert(i); EQ(w.size(), q.size()); for (int v : q) { REQUIRE(w.count(v), "vertex in wrong component"); EQ(seen[v]++, 0); } } for (int i = 0; i < n; ++i) EQ(seen[i], 1); };
    comps(b.connected_components(), te); comps(c.connected_components(), ce);
}
SCENARIO(bfs01, 500) {
    int n = rng.size(1, 25), m = rng.size(0, 80); auto es = edges_of(rng, n, m, true); std::vector<std::tuple<int, int, i64>> te; std::vector<std::vector<PI>> g(n); for (auto [u, v] : es) { int w = rng.pct(50); te.emplace_back(u, v, w); g[u].emplace_back(v, w); } std::vector<int> src{ (int)rng(0, n - 1) }; bool multi = rng.coin(); if (multi) for (int i = rng(0, 2); i--;) src.push_back(rng(0, n - 1));
    auto w = bf(n, te, src); auto tr = [&](int u, auto f) { for (auto [v, c] : g[u]) f(v, c); }; BFS01 d = multi ? BFS01(n, src, tr) : BFS01(n, src[0], tr); for (int i = 0; i < n; ++i) { EQ(d[i], w[i] == INF ? INT_MAX : (int)w[i]); EQ(d.is_reachable(i), w[i] < INF); EQ(d.is_unreachable(i), w[i] == INF); }
    auto nm = [](int i) { std::string x(1 + i % 3, char('a' + i / 3 % 20)); if (i >= 60) x += std::to_string(i / 60); return x; }; std::map<std::string, int> id; for (int i = 0; i < n; ++i) id[nm(i)] = i; std::vector<std::string> ss; for (int s : src) ss.push_back(nm(s)); auto tr2 = [&](const std::string& u, auto f) { for (auto [v, c] : g[id.at(u)]) f(nm(v), c); }; MapBFS01<std::string> md = multi ? MapBFS01<std::string>(ss, tr2) : MapBFS01<std::string>(ss[0], tr2); for (int i = 0; i < n; ++i) { EQ(md[nm(i)], d[i]); EQ(md.is_reachable(nm(i)), w[i] < INF); } EQ(md.is_reachable("zzzzz"), false);
}
SCENARIO(minmax_fw, 150) {
    int n = rng.pct(15) ? rng(62, 70) : rng.size(0, 14); int V = rng.pick(std::vector<int>{ 1, 3, 1000 }); std::vector<std::vector<int>> a(n, std::vector<int>(n)); for (auto& r : a) for (auto& x : r) x = rng(0, V); if (rng.pct(30)) { for (auto& r : a) for (auto& x : r) x = rng.pct(90) ? 5000 : x; } bool mx = rng.coin(); auto b = a; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) b[i][j] = mx ? std::max(b[i][j], std::min(b[i][k], b[k][j])) : std::min(b[i][j], std::max(b[i][k], b[k][j]));
    auto g = mx ? minmax_floyd_warshall<int, std::greater<int>>(a) : minmax_floyd_warshall(a); EQ((int)g.size(), n); for (int i = 0; i < n; ++i) EQV(g[i], b[i]);
}
namespace { std::string cat_op(std::string a, std::string b) { return a + b; } std::string cat_e() { return ""; } int mxop(int a, int b) { return std::max(a, b); } i64 plop(i64 a, i64 b) { return a + b; } i64 plz() { return 0; } int mxe() { return INT_MIN; } }
SCENARIO(functional_graph, 600) {
    int n = rng.size(1, 25); std::vector<int> f(n); int st = rng(0, 3); if (st == 0) f = rng.perm(n); else for (int i = 0; i < n; ++i) f[i] = st == 1 ? rng(0, n - 1) : st == 2 ? rng(0, i) : std::min(n - 1, i + 1); FunctionalGraph g = rng.coin() ? FunctionalGraph(f) : [&] { FunctionalGraph x(n); for (int i = 0; i < n; ++i) x[i] = f[i]; return x; }(); for (int i = 0; i < n; ++i) EQ(std::as_const(g)[i], f[i]);
    auto go = [&](int u, u64 k) { // simulate with cycle skipping
        std::vector<i64> at(n, -1); i64 t = 0; while (k > 0) { if (at[u] >= 0) { k %= (u64)(t - at[u]); while (k--) u = f[u]; return u; } at[u] = t++; u = f[u]; --k; } return u; };
    auto ip = g.infinite_paths(); EQ((int)ip.size(), n); for (int i = 0; i < n; ++i) { std::vector<int> at(n, -1); int t = 0, u = i; while (at[u] < 0) at[u] = t++, u = f[u]; EQ(ip[i].head_v, i); EQ(ip[i].head_len, at[u]); EQ(ip[i].loop_v, u); EQ(ip[i].loop_len, t - at[u]); }
    for (int r = 0; r < 3; ++r) { u64 k = rng.coin() ? rng(0, 2 * n) : rng.wide(LLONG_MAX); auto it = g.kth_iterate((i64)k); for (int i = 0; i < n; ++i) EQ(it[i], go(i, k)); }
    i64 ms = rng.pct(40) ? rng(0, 40) : (i64)rng.wide(LLONG_MAX); auto d = g.doubling(ms); for (int r = 0; r < 6; ++r) { int u = rng(0, n - 1); i64 k = rng.coin() ? ms : (i64)(rng.wide((u64)ms)); EQ(d.query(u, k), go(u, k)); }
    { std::vector<char> S(n); for (int i = 0; i < n; ++i) if (rng.pct(10)) for (int u = i; !S[u]; u = f[u]) S[u] = 1; i64 ms2 = rng(0, 60); auto d2 = g.doubling(ms2); for (int u = 0; u < n; ++u) { int first = -1, x = u; for (int t = 0; t <= n; ++t, x = f[x]) if (S[x]) { first = t; break; } auto r = d2.step_until(u, [&](int v) { return bool(S[v]); }); if (first >= 0 && first <= ms2) REQUIRE(r.has_value(), "step_until missed", u); if (first < 0) REQUIRE(!r.has_value(), "step_until invented a step"); if (r) { EQ(r->step, (i64)first); EQ(r->v, go(u, first)); } if (first == 0) continue; auto m = d2.max_step(u, [&](int v) { return !S[v]; }); EQ(m.v, go(u, m.step)); if (first > 0) { REQUIRE(m.step < first); if (first <= ms2) EQ(m.step, (i64)first - 1); } if (first < 0 || first > ms2) REQUIRE(m.step >= ms2, "max_step too short"); }
      i64 ms5 = rng.wides(1, i64(2e18)); auto d5 = g.doubling(ms5); int u5 = rng(0, n - 1); auto m5 = d5.max_step(u5, [](int) { return true; }); REQUIRE(m5.step >= ms5, "max_step too short"); EQ(m5.v, d5.query(u5, m5.step)); REQUIRE(!d5.step_until(u5, [](int) { return false; }).has_value());
      std::vector<i64> w5 = rng.vec<i64>(n, 1, 5); auto s5 = g.doubling<i64, plop, plz>(std::min<i64>(ms5, i64(1e17)), w5); i64 lim5 = rng.wides(0, std::min<i64>(ms5, i64(1e17))); auto r5 = s5.max_step(u5, [&](i64 z) { return z <= lim5; }); EQ(r5.v, go(u5, r5.step)); auto q5 = s5.query(u5, r5.step); EQ(q5.sum, r5.sum); REQUIRE(r5.sum <= lim5 && r5.sum + w5[r5.v] > lim5, r5.sum, lim5); auto t5 = s5.step_until(u5, [&](i64 z) { return z > lim5; }); REQUIRE(t5.has_value()); EQ(t5->step, r5.step + 1); EQ(t5->sum, r5.sum + w5[r5.v]); }
    { std::vector<std::string> nm(n); for (int i = 0; i < n; ++i) nm[i] = std::string(1, char('!' + i)); i64 ms3 = rng(0, 40); auto ds = g.doubling<std::string, cat_op, cat_e>(ms3, nm); auto path = [&](int u, i64 k) { std::string s; while (k--) s += nm[u], u = f[u]; return std::make_pair(u, s); }; for (int r = 0; r < 6; ++r) { int u = rng(0, n - 1); i64 k = rng(0, ms3); auto q = ds.query(u, k); auto [v, s] = path(u, k); EQ(q.v, v); EQ(q.sum, s); i64 lim = rng(0, ms3); auto m = ds.max_step(u, [&](const std::string& x) { return (i64)x.size() <= lim; }); EQ(m.step, lim); EQ(m.v, path(u, lim).first); EQ(m.sum, path(u, lim).second); auto su = ds.step_until(u, [&](const std::string& x) { return (i64)x.size() >= lim; }); REQUIRE(su.has_value()); EQ(su->step, lim); EQ(su->v, path(u, lim).first); EQ(su->sum, path(u, lim).second); }
      std::vector<int> val = rng.vec<int>(n, 0, 9); i64 ms4 = rng(1, 60); auto dm = g.doubling<int, mxop, mxe>(ms4, val); int u = rng(0, n - 1), lim = rng(0, 9); int first = -1, x = u, mm = INT_MIN; for (int t = 1; t <= n + 1; ++t) { mm = std::max(mm, val[x]); x = f[x]; if (mm >= lim) { first = t; break; } } auto su = dm.step_until(u, [&](int z) { return z >= lim; }); if (first < 0) REQUIRE(!su.has_value()); else if (first <= ms4) { REQUIRE(su.has_value()); EQ(su->step, (i64)first); EQ(su->v, x); EQ(su->sum, mm); } }
}
SCENARIO(topological, 500) {
    int n = rng.size(0, 20), m = rng.size(0, 50); auto es = edges_of(rng, n, m, rng.pct(10)); if (rng.pct(60)) { auto p = rng.perm(n); for (auto& [u, v] : es) if (p[u] > p[v]) std::swap(u, v); } std::vector<std::vector<int>> g(n); for (auto [u, v] : es) g[u].push_back(v); topological_sort t(g); std::vector<int> in(n); for (auto [u, v] : es) ++in[v]; // cyclic part = vertices reachable from a cycle
    std::vector<std::vector<char>> r(n, std::vector<char>(n)); for (auto [u, v] : es) r[u][v] = 1; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (r[i][k]) for (int j = 0; j < n; ++j) r[i][j] |= r[k][j]; bool dag = true; for (int i = 0; i < n; ++i) dag &= !r[i][i]; EQ(t.is_dag(), dag); if (dag) { auto& o = t.sorted(); EQ((int)o.size(), n); std::vector<int> pos(n, -1); for (int i = 0; i < n; ++i) { EQ(t[i], o[i]); EQ(pos[o[i]], -1); pos[o[i]] = i; } for (auto [u, v] : es) REQUIRE(pos[u] < pos[v], "edge goes backwards"); }
    auto h = g; remove_multiedges(h); for (int i = 0; i < n; ++i) { std::vector<int> w; std::set<int> s; for (int v : g[i]) if (s.insert(v).second) w.push_back(v); auto a = h[i]; std::sort(a.begin(), a.end()); std::sort(w.begin(), w.end()); EQV(a, w); }
    if (dag && n) { // DAG shortest paths, weighted and unweighted
        std::vector<std::tuple<int, int, i64>> te; std::vector<std::tuple<int, int, i64>> ue; i64 lo = rng.coin() ? 0 : -20; for (auto [u, v] : es) te.emplace_back(u, v, rng(lo, 20)), ue.emplace_back(u, v, 1); auto gw = Graph<i64>::create_directed_graph(n, te); auto gu = Graph<void>::create_directed_graph(n, es); for (int s = 0; s < n; ++s) if (in[s] == 0) { auto a = single_source_shortest_path_dag(gw, s); auto w = bf(n, te, { s }); auto b = single_source_shortest_path_dag(gu, s); auto w2 = bf(n, ue, { s }); for (int i = 0; i < n; ++i) { EQ(a[i], w[i] == INF ? LLONG_MAX : w[i]); EQ(b[i], w2[i] == INF ? INT_MAX : (int)w2[i]); } }
    }
}
static int find(std::vector<int>& p, int x) { return p[x] == x ? x : p[x] = find(p, p[x]); }
template <class K> void kr(Rng& rng, bool mx) {
    int n = rng.size(0, 14), m = rng.size(0, 40); auto es = edges_of(rng, n, m, true); K k(n); std::vector<std::tuple<int, int, i64>> all; i64 W = rng.pick(std::vector<i64>{ 1, 5, 1000000000000LL }); size_t i = 0; int stages = rng(1, 3);
    for (int st = 0; st < stages; ++st) { size_t to = st + 1 == stages ? es.size() : rng((i64)i, (i64)es.size()); for (; i < to; ++i) { auto [u, v] = es[i]; i64 w = rng(-W, W); if (rng.coin()) k.add_edge(u, v, w); else k.add_edge({ u, v, w }); all.emplace_back(u, v, w); }
        bool conn = k.build(); // Prim-like oracle: repeatedly take the best edge leaving each component
        i64 sum = 0; std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); int comps = n; while (true) { int bi = -1; int c0 = -1; for (int c = 0; c < n && bi < 0; ++c) if (find(p, c) == c) { for (size_t j = 0; j < all.size(); ++j) { auto [u, v, w] = all[j]; bool iu = find(p, u) == c, iv = find(p, v) == c; if (iu != iv && (bi < 0 || (mx ? w > std::get<2>(all[bi]) : w < std::get<2>(all[bi])))) bi = j; } c0 = c; } (void)c0; if (bi < 0) break; auto [u, v, w] = all[bi]; p[find(p, u)] = find(p, v); sum += w; --comps; }
        EQ(conn, comps <= 1); EQ(k.get_weight(), sum); auto& t = k.get_mst(); EQ((int)t.size(), n - comps); std::vector<int> q(n); std::iota(q.begin(), q.end(), 0); std::multiset<std::tuple<int, int, i64>> pool(all.begin(), all.end()); i64 s2 = 0; for (size_t j = 0; j < t.size(); ++j) { auto [u, v, w] = t[j]; auto it = pool.find(t[j]); REQUIRE(it != pool.end(), "tree edge was never added"); pool.erase(it); REQUIRE(find(q, u) != find(q, v), "cycle in spanning forest"); q[find(q, u)] = find(q, v); s2 += w; if (j) REQUIRE(mx ? std::get<2>(t[j - 1]) >= w : std::get<2>(t[j - 1]) <= w, "edges not sorted"); } EQ(s2, sum); }
}
SCENARIO(kruscal, 600) { if (rng.coin()) kr<KruscalMinimumSpanningTree<i64>>(rng, false); else kr<KruscalMaximumSpanningTree<i64>>(rng, true); }
template <class T> void manh(Rng& rng) {
    int n = rng.size(0, 30); i64 R = rng.pick(std::vector<i64>{ 1, 4, 20, sizeof(T) == 4 ? 100000000LL : 1000000000000LL }); std::vector<std::pair<T, T>> p(n); for (auto& [x, y] : p) x = (T)rng(-R, R), y = (T)rng(-R, R); if (rng.pct(20)) for (auto& [x, y] : p) y = rng.coin() ? x : -x; auto D = [&](int i, int j) { return std::abs((i64)p[i].first - p[j].first) + std::abs((i64)p[i].second - p[j].second); };
    auto md = manhattan_minimum_distances<T>(p); EQ((int)md.size(), n); for (int i = 0; i < n; ++i) { i64 w = INF; for (int j = 0; j < n; ++j) if (j != i) w = std::min(w, D(i, j)); if (n >= 2) EQ((i64)md[i], w); }
    auto t = manhattan_mst<i64, T>(p); i64 sum = 0; std::vector<i64> best(n, INF); std::vector<char> in(n); if (n) best[0] = 0; for (int r = 0; r < n; ++r) { int b = -1; for (int i = 0; i < n; ++i) if (!in[i] && (b < 0 || best[i] < best[b])) b = i; in[b] = 1; sum += best[b]; for (int i = 0; i < n; ++i) if (!in[i]) best[i] = std::min(best[i], D(b, i)); }
    EQ(t.get_weight(), sum); EQ((int)t.get_mst().size(), std::max(0, n - 1)); std::vector<int> q(n); std::iota(q.begin(), q.end(), 0); for (auto [u, v, w] : t.get_mst()) { EQ(w, D(u, v)); REQUIRE(find(q, u) != find(q, v)); q[find(q, u)] = find(q, v); }
}
SCENARIO(manhattan, 400) { if (rng.coin()) manh<int>(rng); else manh<i64>(rng); }
SCENARIO(segment_tree_graph, 500) {
    int n = rng.size(0, 40); SegmentTreeGraph s = n || rng.coin() ? SegmentTreeGraph(n) : SegmentTreeGraph(); int k = rng(0, 3); std::vector<std::vector<int>> ord; if (n == 0) { EQ(s.size(), 0); return; }
    for (int i = 0; i < k; ++i) { if (rng.coin()) { auto p = rng.perm(n); EQ(s.add_order(p), i); ord.push_back(p); } else { EQ(s.add_order_identity(), i); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); ord.push_back(p); } }
    int N = s.size(); EQ(N, n + k * (n - 1)); std::vector<std::vector<int>> ch(N); if (rng.coin()) s.add_edges_to_children([&](int a, int b) { REQUIRE(n <= a && a < N && 0 <= b && b < N); ch[a].push_back(b); }); else s.add_edges_to_children([&](int a, int b, int c) { REQUIRE(n <= a && a < N && 0 <= b && b < N && 0 <= c && c < N); ch[a].push_back(b); ch[a].push_back(c); });
    std::function<void(int, std::vector<int>&, int)> leaves = [&](int v, std::vector<int>& out, int dep) { REQUIRE(dep < 30, "too deep"); if (v < n) { out.push_back(v); return; } for (int c : ch[v]) leaves(c, out, dep + 1); };
    for (int v = 0; v < N; ++v) { EQ(s.is_segment_node(v), v >= n); if (v >= n && !ch[v].empty()) { auto nd = s[v]; std::vector<int> l; leaves(v, l, 0); REQUIRE(0 <= nd.order_id && nd.order_id < k && 0 <= nd.l && nd.l < nd.r && nd.r <= n, "bad segment node", v, nd.l, nd.r); EQV(l, std::vector<int>(ord[nd.order_id].begin() + nd.l, ord[nd.order_id].begin() + nd.r)); } }
    for (int t = 0; t < 10 && k; ++t) { int o = rng(0, k - 1), l = rng(0, n), r = rng(l, n), fr = rng(0, n - 1); std::multiset<int> got; int cnt = 0; s.add_edge(fr, { o, l, r }, [&](int a, int b) { EQ(a, fr); ++cnt; std::vector<int> x; leaves(b, x, 0); REQUIRE(!x.empty(), "edge to an unusable node"); got.insert(x.begin(), x.end()); }); std::multiset<int> w(ord[o].begin() + l, ord[o].begin() + r); REQUIRE(got == w, "range edge reaches a wrong set", l, r); REQUIRE(cnt <= 14 || (rng.mag > 1 && cnt <= 60)); }
}
// the same workloads at realistic sizes
RESCALE(dijkstra, 4, 512);
RESCALE(bfs01, 4, 4);
RESCALE(segment_tree_graph, 4, 512);
RESCALE(kruscal, 4, 64);
RESCALE(manhattan, 4, 256);
RESCALE(bfs, 4, 16);
RESCALE(functional_graph, 4, 256);
RESCALE(topological, 4, 64);
