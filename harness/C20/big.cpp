// Paths, orders and spanning trees on graphs with more than 2^16 vertices; optimality is audited by certificates.
// MON: shards=2
#include "mon.hpp"
#include <algorithm>
#include <cassert>
#include <iostream>
#include <map>
#include <set>
#include <queue>
#include <deque>
#include <functional>
#include <tuple>
#include "library/graph/dijkstra.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/minmax_floyd_warshall.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/remove_multiedges.hpp"
#include "library/graph/kruscal.hpp"
#include "library/graph/manhattan_mst.hpp"
#include "library/graph/manhattan_minimum_distances.hpp"
#include "library/graph/segment_tree_graph.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/cycle_detection.hpp"
using namespace suisen; using mon::Rng; using PI = std::pair<int, int>;
static const i64 INF = 4e18;
static int bn(Rng& rng) { return (int)(rng.coin() ? 65536 + rng.in(0, 5) : rng.in(66000, 110000)); }
// long paths, stars, random arcs; relabelled
static std::vector<PI> arcs(Rng& rng, int n, int st) { std::vector<PI> e; auto p = rng.perm(n); int m = 2 * n; if (st != 2) for (int i = 0; i + 1 < n; ++i) if (rng.in(0, 5000)) e.emplace_back(p[i], p[i + 1]); if (st == 1) m = 50; if (st == 3) { for (int i = 1; i < n; ++i) e.emplace_back(p[0], p[i]); m = n / 2; } for (int i = 0; i < m; ++i) e.emplace_back((int)rng.in(0, n - 1), (int)rng.in(0, n - 1)); rng.shuffle(e); return e; }
template <class C> void big_dij(Rng& rng, int st) {
    int n = bn(rng); auto es = arcs(rng, n, st); i64 W = rng.pick(std::vector<i64>{ 1, 1000, sizeof(C) == 8 ? 10000000000000LL : 15000 }); LOG("n", n, "style", st, "W", W); std::vector<std::vector<std::pair<int, C>>> g(n); std::vector<i64> ws; for (auto [u, v] : es) { i64 w = rng(0, W); g[u].emplace_back(v, (C)w); ws.push_back(w); } int s = rng.coin() ? es[0].first : (int)rng.in(0, n - 1); dijkstra<C> d(g, s); std::vector<i64> o(n, INF); std::priority_queue<std::pair<i64, int>, std::vector<std::pair<i64, int>>, std::greater<>> pq; pq.emplace(0, s); o[s] = 0; while (!pq.empty()) { auto [x, u] = pq.top(); pq.pop(); if (x > o[u]) continue; for (auto [v, w] : g[u]) if (x + (i64)w < o[v]) pq.emplace(o[v] = x + (i64)w, v); }
    for (int t = 0; t < n; ++t) { EQ(d.is_reachale(t), o[t] < INF); EQ((i64)d[t], o[t] < INF ? o[t] : (i64)std::numeric_limits<C>::max()); } for (int k = 0; k < 6; ++k) { int t = (int)rng.in(0, n - 1); if (o[t] >= INF) continue; auto p = d.path_to(t); EQ((int)p.front(), s); EQ((int)p.back(), t); for (size_t i = 0; i + 1 < p.size(); ++i) { bool ok = false; for (auto [v, w] : g[p[i]]) ok = ok || (v == (int)p[i + 1] && o[p[i]] + (i64)w == o[v]); REQUIRE(ok, "path step is not a tight edge"); } }
}
SCENARIO(big_dijkstra, 4) { switch (rng.in(0, 3)) { case 0: big_dij<i64>(rng, 0); break; case 1: big_dij<int>(rng, 1); break; case 2: big_dij<unsigned>(rng, 2); break; default: big_dij<i64>(rng, 3); } }
SCENARIO(big_bfs, 4) {
    int st = (int)rng.in(0, 3), n = bn(rng); auto es = arcs(rng, n, st); LOG("n", n, "style", st); std::vector<std::vector<int>> g(n); for (auto [u, v] : es) g[u].push_back(v), g[v].push_back(u); std::vector<int> src; for (int k = (int)rng.in(1, 3); k--;) src.push_back((int)rng.in(0, n - 1)); auto ref = [&](const std::vector<int>& s) { std::vector<int> d(n, -1), q; for (int x : s) if (d[x] < 0) d[x] = 0, q.push_back(x); for (size_t i = 0; i < q.size(); ++i) for (int v : g[q[i]]) if (d[v] < 0) d[v] = d[q[i]] + 1, q.push_back(v); return d; };
    BFS b(n, es); EQV(b.distance(src), ref(src)); auto cc = b.connected_components(); std::vector<int> id(n, -1); i64 tot = 0; for (int i = 0; i < (int)cc.size(); ++i) for (int v : cc[i]) { EQ(id[v], -1); id[v] = i; ++tot; } EQ(tot, (i64)n); for (auto [u, v] : es) REQUIRE(id[u] == id[v]); { auto d = ref({ cc[0][0] }); i64 r = 0; for (int x : d) r += x >= 0; EQ((i64)cc[0].size(), r); }
    // complement: distances are 0, 1 or (rarely) more; recomputed with an "unvisited" list
    ComplementBFS c(n, es); auto got = c.distance(src); std::vector<int> d(n, -1), un, q; for (int x : src) if (d[x] < 0) d[x] = 0, q.push_back(x); for (int i = 0; i < n; ++i) if (d[i] < 0) un.push_back(i); std::vector<int> mark(n, -1); for (size_t i = 0; i < q.size(); ++i) { for (int v : g[q[i]]) mark[v] = q[i]; std::vector<int> rest; for (int v : un) if (mark[v] == q[i]) rest.push_back(v); else d[v] = d[q[i]] + 1, q.push_back(v); un = rest; } EQV(got, d); auto k2 = c.connected_components(); i64 t2 = 0; for (auto& x : k2) t2 += (i64)x.size(); EQ(t2, (i64)n);
    // 0-1 weights
    std::vector<std::vector<PI>> h(n); for (auto [u, v] : es) h[u].emplace_back(v, (int)rng.coin()); BFS01 z(n, src, [&](int u, auto f) { for (auto [v, w] : h[u]) f(v, w); }); std::vector<int> o(n, INT_MAX); std::deque<int> dq; for (int x : src) o[x] = 0, dq.push_back(x); while (!dq.empty()) { int u = dq.front(); dq.pop_front(); for (auto [v, w] : h[u]) if (o[u] + w < o[v]) { o[v] = o[u] + w; if (w) dq.push_back(v); else dq.push_front(v); } } for (int i = 0; i < n; ++i) { EQ(z[i], o[i]); EQ(z.is_reachable(i), o[i] < INT_MAX); }
}
static i64 plop(i64 a, i64 b) { return a + b; } static i64 plz() { return 0; }
SCENARIO(big_functional_graph, 4) {
    int st = (int)rng.in(0, 3), n = bn(rng); std::vector<int> f(n); auto p = rng.perm(n); int cyc = (int)rng.in(1, n); if (st == 0) { for (int i = 0; i < n; ++i) f[p[i]] = p[i + 1 < n ? i + 1 : n - cyc]; } else if (st == 1) f = rng.perm(n); else if (st == 2) for (auto& x : f) x = (int)rng.in(0, n - 1); else for (int i = 0; i < n; ++i) f[p[i]] = p[i ? (rng.coin() ? i - 1 : rng.in(0, i - 1)) : 0]; LOG("n", n, "style", st); FunctionalGraph g(f);
    // rho shape of every vertex by peeling
    std::vector<int> hl(n), lv(n), ll(n), in(n); for (int x : f) ++in[x]; std::vector<int> q; for (int i = 0; i < n; ++i) if (!in[i]) q.push_back(i); for (size_t i = 0; i < q.size(); ++i) if (!--in[f[q[i]]]) q.push_back(f[q[i]]); std::vector<char> tree(n); for (int v : q) tree[v] = 1; for (int i = 0; i < n; ++i) if (!tree[i] && !ll[i]) { int len = 0, u = i; do ++len, u = f[u]; while (u != i); do { ll[u] = len; lv[u] = u; u = f[u]; } while (u != i); } for (size_t i = q.size(); i--;) { int v = q[i]; hl[v] = hl[f[v]] + 1; lv[v] = lv[f[v]]; ll[v] = ll[f[v]]; }
    auto ip = g.infinite_paths(); for (int i = 0; i < n; ++i) { EQ(ip[i].head_v, i); EQ(ip[i].head_len, hl[i]); EQ(ip[i].loop_v, lv[i]); EQ(ip[i].loop_len, ll[i]); }
    auto go = [&](int u, i64 k) { if (k > hl[u]) { i64 r = (k - hl[u]) % ll[u]; int w = lv[u]; while (r--) w = f[w]; return w; } while (k--) u = f[u]; return u; };
    i64 k = rng.pick(std::vector<i64>{ 65536, 100000, 1LL << 40, (i64)rng.wide(LLONG_MAX) }); auto it = g.kth_iterate(k); auto d = g.doubling(k); for (int t = 0; t < 40; ++t) { int u = (int)rng.in(0, n - 1); EQ(it[u], go(u, k)); EQ(d.query(u, k), it[u]); }
    { std::vector<int> x(n); std::iota(x.begin(), x.end(), 0); auto i1 = g.kth_iterate(1), i0 = g.kth_iterate(0); EQV(i1, f); EQV(i0, x); }
    std::vector<i64> w(n); for (auto& x : w) x = rng.in(1, 1000000000); auto ds = g.doubling<i64, plop, plz>(200000, w); for (int t = 0; t < 6; ++t) { int u = (int)rng.in(0, n - 1); i64 m = rng(0, 200000), s = 0; int v = u; for (i64 z = 0; z < m; ++z) s += w[v], v = f[v]; auto r = ds.query(u, m); EQ(r.v, v); EQ(r.sum, s); i64 lim = s; auto mx = ds.max_step(u, [&](i64 x) { return x <= lim; }); EQ(mx.step, m); EQ(mx.v, v); EQ(mx.sum, s); if (m) { auto su = ds.step_until(u, [&](i64 x) { return x >= lim; }); REQUIRE(su.has_value()); EQ(su->step, m); EQ(su->v, v); EQ(su->sum, s); } }
}
SCENARIO(big_topological, 4) {
    int st = (int)rng.in(0, 3), n = bn(rng); auto es = arcs(rng, n, st); auto p = rng.perm(n); for (auto& [u, v] : es) if (p[u] > p[v]) std::swap(u, v); es.erase(std::remove_if(es.begin(), es.end(), [](PI e) { return e.first == e.second; }), es.end()); bool dag = rng.pct(60); auto all = es; if (!dag) { auto [u, v] = rng.pick(es); all.emplace_back(v, u); } LOG("n", n, "dag", dag); std::vector<std::vector<int>> g(n); for (auto [u, v] : all) g[u].push_back(v); topological_sort t(g); EQ(t.is_dag(), dag); if (dag) { auto& o = t.sorted(); EQ((int)o.size(), n); std::vector<int> pos(n, -1); for (int i = 0; i < n; ++i) { EQ(pos[o[i]], -1); pos[o[i]] = i; } for (auto [u, v] : es) REQUIRE(pos[u] < pos[v], "edge goes backwards"); }
    auto h = g; for (int i = 0; i < n; ++i) if (rng.pct(20)) h[i].insert(h[i].end(), g[i].begin(), g[i].end()); for (int d : { 127, 128, 255, 256, 65535, 65536 }) { int i = (int)rng.in(0, n - 1), v = (int)rng.in(0, n - 1); h[i].assign(d, v); g[i].assign(1, v); if (!g[(i + 1) % n].empty()) h[i].push_back(g[(i + 1) % n][0]), g[i].push_back(h[i].back()); } remove_multiedges(h); for (int i = 0; i < n; ++i) { auto a = h[i], w = g[i]; std::sort(a.begin(), a.end()); std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); REQUIRE(a == w, "remove_multiedges"); }
    // DAG distances from a source vertex of the order
    std::vector<std::tuple<int, int, i64>> te; i64 lo = rng.coin() ? 0 : -1000000000; for (auto [u, v] : es) te.emplace_back(u, v, rng.in(lo, 1000000000)); std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[p[i]] = i; int s = ord[0]; auto gw = Graph<i64>::create_directed_graph(n, te); auto d = single_source_shortest_path_dag(gw, s); std::vector<i64> o(n, INF); o[s] = 0; std::vector<std::vector<std::pair<int, i64>>> gg(n); for (auto [u, v, w] : te) gg[u].emplace_back(v, w); for (int i = 0; i < n; ++i) { int u = ord[i]; if (o[u] < INF) for (auto [v, w] : gg[u]) o[v] = std::min(o[v], o[u] + w); } for (int i = 0; i < n; ++i) EQ(d[i], o[i] == INF ? LLONG_MAX : o[i]); auto gu = Graph<void>::create_directed_graph(n, es); auto du = single_source_shortest_path_dag(gu, s); std::fill(o.begin(), o.end(), INF); o[s] = 0; for (int i = 0; i < n; ++i) { int u = ord[i]; if (o[u] < INF) for (auto [v, w] : gg[u]) o[v] = std::min(o[v], o[u] + 1); } for (int i = 0; i < n; ++i) EQ((i64)du[i], o[i] == INF ? INT_MAX : o[i]);
}
struct DS { std::vector<int> p; DS(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int f(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } bool m(int a, int b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; } };
template <class K> void big_kr(Rng& rng, bool mx) {
    int n = bn(rng), st = (int)rng.in(0, 3); auto es = arcs(rng, n, st); i64 W = rng.pick(std::vector<i64>{ 3, 100000, 10000000000000LL }); K k(n); std::vector<std::tuple<i64, int, int>> all; LOG("n", n, "W", W); for (auto [u, v] : es) { i64 w = rng(-W, W); k.add_edge(u, v, w); all.emplace_back(mx ? -w : w, u, v); } bool conn = k.build(); std::sort(all.begin(), all.end()); DS d(n); i64 sum = 0; int cnt = 0; for (auto [w, u, v] : all) if (d.m(u, v)) sum += mx ? -w : w, ++cnt; EQ(conn, cnt == n - 1); EQ(k.get_weight(), sum); auto& t = k.get_mst(); EQ((int)t.size(), cnt); DS d2(n); i64 s2 = 0; for (auto [u, v, w] : t) { REQUIRE(d2.m(u, v), "cycle in spanning forest"); s2 += w; REQUIRE(std::binary_search(all.begin(), all.end(), std::make_tuple(mx ? -w : w, (int)u, (int)v)), "tree edge was never added"); } EQ(s2, sum);
}
SCENARIO(big_kruscal, 2) { if (rng.coin()) big_kr<KruscalMinimumSpanningTree<i64>>(rng, false); else big_kr<KruscalMaximumSpanningTree<i64>>(rng, true); }
template <class T> void big_manh(Rng& rng) {
    // lattice points with spacing c: every MST edge has length c; extra far clusters add known connecting edges
    int w = (int)rng.in(200, 330), h = (int)rng.in(200, 330); i64 c = rng.pick(std::vector<i64>{ 1, 1000, 100000 }); std::vector<std::pair<T, T>> p; i64 ox = rng.in(-1000000, 1000000), oy = rng.in(-1000000, 1000000); for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) p.emplace_back((T)(ox + i * c), (T)(oy + j * c)); i64 dup = rng.in(0, 5); for (i64 i = 0; i < dup; ++i) p.push_back(p[rng.in(0, (i64)w * h - 1)]); rng.shuffle(p); int n = (int)p.size(); LOG("n", n, "c", c); auto t = manhattan_mst<i64, T>(p); EQ(t.get_weight(), (i64)(w * h - 1) * c); EQ((int)t.get_mst().size(), n - 1); DS d(n); for (auto [u, v, x] : t.get_mst()) { EQ(x, std::abs((i64)p[u].first - p[v].first) + std::abs((i64)p[u].second - p[v].second)); REQUIRE(d.m(u, v)); }
    i64 R = rng.pick(std::vector<i64>{ 1000, 100000000 }); for (auto& [x, y] : p) x = (T)rng(-R, R), y = (T)rng(-R, R); auto md = manhattan_minimum_distances<T>(p); for (int k = 0; k < 60; ++k) { int i = (int)rng.in(0, n - 1); i64 b = INF; for (int j = 0; j < n; ++j) if (j != i) b = std::min(b, std::abs((i64)p[i].first - p[j].first) + std::abs((i64)p[i].second - p[j].second)); EQ((i64)md[i], b); }
}
SCENARIO(big_manhattan, 2) { if (rng.coin()) big_manh<int>(rng); else big_manh<i64>(rng); }
template <class W> void big_csr(Rng& rng) {
    int n = bn(rng), st = (int)rng.in(0, 3); bool und = rng.coin(); auto es = arcs(rng, n, st); using G = Graph<W>; std::vector<std::vector<PI>> md(n); std::vector<std::conditional_t<std::is_void_v<W>, PI, std::tuple<int, int, int>>> ee; for (auto [u, v] : es) { int w = std::is_void_v<W> ? 1 : (int)rng.in(0, 1000000); if constexpr (std::is_void_v<W>) ee.emplace_back(u, v); else ee.emplace_back(u, v, w); md[u].emplace_back(v, w); if (und) md[v].emplace_back(u, w); } LOG("n", n, "style", st, "und", und); G g = und ? G::create_undirected_graph(n, ee) : G::create_directed_graph(n, ee); EQ(g.size(), n);
    auto same = [&](const G& x, const std::vector<std::vector<PI>>& m) { for (int i = 0; i < n; ++i) { EQ(x[i].size(), (int)m[i].size()); int k = 0; for (auto& e : x[i]) { EQ((int)e, m[i][k].first); EQ((int)G::get_weight(e), m[i][k].second); ++k; } } }; same(g, md); G cp = g; same(cp, md); auto r = g.reversed(); std::vector<std::vector<PI>> rv(n), got(n); for (int u = 0; u < n; ++u) for (auto k : md[u]) rv[k.first].emplace_back(u, k.second); for (int u = 0; u < n; ++u) { for (auto& e : std::as_const(r)[u]) got[u].emplace_back((int)e, (int)G::get_weight(e)); std::sort(got[u].begin(), got[u].end()); std::sort(rv[u].begin(), rv[u].end()); REQUIRE(got[u] == rv[u], "reversed graph differs"); }
    int s = (int)rng.in(0, n - 1); auto t = g.dfs_tree(s); std::vector<int> pre(n, -1), pst(n, -1); EQ((int)t.pre_ord.size(), n); EQ((int)t.pst_ord.size(), n); EQ(t.pre_ord[0], s); for (int i = 0; i < n; ++i) { EQ(pre[t.pre_ord[i]], -1); pre[t.pre_ord[i]] = i; EQ(pst[t.pst_ord[i]], -1); pst[t.pst_ord[i]] = i; } auto anc = [&](int a, int b) { return pre[a] <= pre[b] && pst[a] >= pst[b]; }; i64 roots = 0; for (int v = 0; v < n; ++v) { int q = t.par[v]; if (q < 0) ++roots; else REQUIRE(q != v && anc(q, v), "parent is not an ancestor"); } i64 te = 0; for (int u = 0; u < n; ++u) { for (auto& e : std::as_const(t.tree)[u]) { ++te; EQ(t.par[(int)e], u); } for (auto& e : std::as_const(t.back)[u]) REQUIRE(anc((int)e, u), "back edge does not go to an ancestor"); for (auto k : md[u]) REQUIRE(anc(u, k.first) || anc(k.first, u) || (!und && pre[k.first] < pre[u]), "not a depth-first tree"); } EQ(te, n - roots);
    // cycle detection: an acyclic base with at most one closing edge far away
    auto p = rng.perm(n); std::vector<PI> f; for (int i = 1; i < n; ++i) f.emplace_back(p[st == 1 ? i - 1 : rng.in(std::max(0, i - 5), i - 1)], p[i]); int want = (int)rng.in(0, 1); if (want) { int i = (int)rng.in(n / 2, n - 1); f.emplace_back(p[i], p[rng.in(0, i / 2)]); } for (int dir = 0; dir < 2; ++dir) { auto h = dir ? Graph<void>::create_directed_graph(n, f) : Graph<void>::create_undirected_graph(n, f); auto c = dir ? get_cycle_directed(h) : get_cycle_undirected(h); bool has; if (!dir) has = want; else { // directed: the closing edge makes a cycle iff its head reaches its tail
            has = false; if (want) { auto [u, v] = f.back(); std::vector<int> par(n, -1); for (size_t i = 0; i + 1 < f.size(); ++i) par[f[i].second] = f[i].first; for (int x = u; x >= 0; x = par[x]) if (x == v) has = true; } } EQ(c.has_value(), has); if (!c) continue; int k = (int)c->size(); std::set<PI> es2(f.begin(), f.end()); std::set<int> vs; for (int i = 0; i < k; ++i) { int u = (int)(*c)[(i + k - 1) % k], v = (int)(*c)[i]; REQUIRE(vs.insert(v).second); REQUIRE(es2.count({ u, v }) || (!dir && es2.count({ v, u })), "cycle uses a missing edge"); } REQUIRE(k >= 2 || dir == 0); }
}
SCENARIO(big_csr, 4) { if (rng.coin()) big_csr<void>(rng); else big_csr<int>(rng); }
SCENARIO(big_segment_tree_graph, 2) { // every range edge reaches exactly its range; audited through the intervals below each node
    int n = bn(rng); SegmentTreeGraph s(n); auto p = rng.perm(n); s.add_order(p); s.add_order_identity(); std::vector<int> idn(n); std::iota(idn.begin(), idn.end(), 0); std::vector<int> pos(n); for (int i = 0; i < n; ++i) pos[p[i]] = i; int N = s.size(); EQ(N, n + 2 * (n - 1)); LOG("n", n); std::vector<std::vector<int>> ch(N); s.add_edges_to_children([&](int a, int b) { REQUIRE(n <= a && a < N && 0 <= b && b < N); ch[a].push_back(b); });
    auto iv = [&](int o, int v) { if (v >= n) { auto nd = s[v]; EQ(nd.order_id, o); return PI(nd.l, nd.r); } int i = o == 0 ? pos[v] : v; return PI(i, i + 1); }; for (int v = n; v < N; ++v) if (ch[v].size() == 2) { auto nd = s[v]; std::vector<PI> c{ iv(nd.order_id, ch[v][0]), iv(nd.order_id, ch[v][1]) }; std::sort(c.begin(), c.end()); if (nd.l < nd.r && nd.r <= n && c[1].second <= n && c[0].second == c[1].first) { EQ(c[0].first, nd.l); EQ(c[1].second, nd.r); } }
    for (int t = 0; t < 300; ++t) { int o = (int)rng.in(0, 1), l = (int)rng(0, n), r = (int)rng(l, n), fr = (int)rng.in(0, n - 1); std::vector<PI> got; s.add_edge(fr, { o, l, r }, [&](int a, int b) { EQ(a, fr); got.push_back(iv(o, b)); }); std::sort(got.begin(), got.end()); int x = l; for (auto [a, b] : got) { EQ(a, x); REQUIRE(b > a); x = b; } EQ(x, r); REQUIRE((int)got.size() <= 40); }
}
SCENARIO(big_minmax_fw, 2) { int n = rng.in(0, 1) ? (int)rng.in(120, 190) : (int)rng.in(515, 530); std::vector<std::vector<int>> a(n, std::vector<int>(n)); int V = rng.pick(std::vector<int>{ 3, 1000000000 }); for (auto& r : a) for (auto& x : r) x = (int)rng.in(-V, V); bool mx = rng.coin(); auto b = a; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) b[i][j] = mx ? std::max(b[i][j], std::min(b[i][k], b[k][j])) : std::min(b[i][j], std::max(b[i][k], b[k][j])); auto g = mx ? minmax_floyd_warshall<int, std::greater<int>>(a) : minmax_floyd_warshall(a); for (int i = 0; i < n; ++i) EQV(g[i], b[i]); }
