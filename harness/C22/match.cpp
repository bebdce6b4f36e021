// C22: matchings, covers, flows, colourings, cliques
#include "mon.hpp"
#include "library/graph/assignment_problem.hpp"
#include "library/graph/min_cost_flow.hpp"
#include "library/graph/bipartite_matching.hpp"
#include "library/graph/dulmage_mendelsohn_decomposition.hpp"
#include "library/graph/edge_coloring_of_bipartite_graph.hpp"
using namespace mon; using namespace suisen;
using PI = std::pair<int, int>;
static int kuhn(int n, int m, const std::vector<PI>& e, int banl = -1, int banr = -1) {
    std::vector<std::vector<int>> g(n); for (auto [u, v] : e) if (u != banl && v != banr) g[u].push_back(v);
    std::vector<int> to(m, -1); int r = 0;
    for (int i = 0; i < n; ++i) { std::vector<char> vis(m); std::function<bool(int)> go = [&](int u) { for (int v : g[u]) if (!vis[v]) { vis[v] = 1; if (to[v] < 0 || go(to[v])) { to[v] = u; return true; } } return false; }; r += go(i); }
    return r;
}
static std::vector<PI> bip(Rng& rng, int n, int m, int maxe) {
    std::vector<PI> e; if (!n || !m) return e; int st = rng(0, 3);
    if (st == 0) { int k = rng.size(0, maxe); while (k--) e.emplace_back(rng(0, n - 1), rng(0, m - 1)); }
    else if (st == 1) { for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (rng.pct(30)) e.emplace_back(i, j); }
    else if (st == 2) { // long alternating paths
        auto p = rng.perm(n), q = rng.perm(m); int k = std::min(n, m); for (int i = 0; i < k; ++i) { e.emplace_back(p[i], q[i]); if (i + 1 < k) e.emplace_back(p[i + 1], q[i]); } int x = rng(0, 3); while (x--) e.emplace_back(rng(0, n - 1), rng(0, m - 1)); if (e.size() && rng.coin()) e.erase(e.begin() + rng(0, (int)e.size() - 1)); rng.shuffle(e); }
    else { int a = rng(1, n), b = rng(1, m), c = rng(1, 3); for (int i = 0; i < n; ++i) for (int k = 0; k < c; ++k) e.emplace_back(i, i < a ? rng(0, b - 1) : rng(0, m - 1)); rng.shuffle(e); }
    return e;
}
static void audit(Rng& rng, BipartiteMatching& bm, int n, int m, const std::vector<PI>& e) {
    int nu = kuhn(n, m, e); std::set<PI> es(e.begin(), e.end()); EQ(bm.left_size(), n); EQ(bm.right_size(), m); REQUIRE(bm.size() == PI(n, m));
    std::vector<int> order{ 0, 1, 2, 3, 4 }; rng.shuffle(order);
    for (int o : order) {
        if (o == 0) { EQ(bm.solve(), nu); EQ(bm.solve(), nu); }
        if (o == 1) { auto mm = bm.max_matching(); EQ((int)mm.size(), nu); std::set<int> a, b; for (auto [u, v] : mm) { REQUIRE(es.count({ u, v }), "matched pair is no edge", u, v); REQUIRE(a.insert(u).second && b.insert(v).second, "vertex matched twice"); EQ(bm.right(u), v); EQ(bm.left(v), u); } for (int i = 0; i < n; ++i) EQ(bm.right(i) >= 0, a.count(i) > 0); for (int i = 0; i < m; ++i) EQ(bm.left(i) >= 0, b.count(i) > 0); }
        if (o == 2) { auto vc = bm.min_vertex_cover(); EQ((int)vc.size(), nu); std::set<int> s(vc.begin(), vc.end()); EQ((int)s.size(), nu); for (int x : s) REQUIRE(0 <= x && x < n + m); for (auto [u, v] : e) REQUIRE(s.count(u) || s.count(n + v), "edge not covered", u, v); }
        if (o == 3) { auto is = bm.max_independent_set(); EQ((int)is.size(), n + m - nu); std::set<int> s(is.begin(), is.end()); EQ((int)s.size(), n + m - nu); for (auto [u, v] : e) REQUIRE(!(s.count(u) && s.count(n + v)), "independent set contains an edge", u, v); }
        if (o == 4) { auto ec = bm.min_edge_cover(); std::set<int> cov, all; for (auto [u, v] : e) all.insert(u), all.insert(n + v); for (auto [u, v] : ec) { REQUIRE(es.count({ u, v })); cov.insert(u), cov.insert(n + v); } REQUIRE(cov == all, "edge cover misses a non-isolated vertex"); EQ((int)ec.size(), (int)all.size() - nu); }
    }
    auto g = bm.graph(); std::vector<PI> ge; for (int i = 0; i < n; ++i) for (int j : g[i]) ge.emplace_back(i, j); auto e2 = e; std::sort(e2.begin(), e2.end()); std::sort(ge.begin(), ge.end()); REQUIRE(e2 == ge, "graph() differs from the added edges"); auto h = bm.reversed_graph(); std::vector<PI> he; for (int j = 0; j < m; ++j) for (int i : h[j]) he.emplace_back(i, j); std::sort(he.begin(), he.end()); REQUIRE(e2 == he);
}
SCENARIO(bipartite_matching, 1500) {
    int n = rng.size(0, 25), m = rng.size(0, 25); auto e = bip(rng, n, m, 60); LOG(n, m, e); BipartiteMatching bm(n, m); std::vector<PI> cur; int phases = rng(1, 3); size_t p = 0;
    for (int ph = 1; ph <= phases; ++ph) { size_t to = ph == phases ? e.size() : std::min(e.size(), p + (size_t)rng(0, (int)e.size())); for (; p < to; ++p) bm.add_edge(e[p].first, e[p].second), cur.push_back(e[p]); audit(rng, bm, n, m, cur); }
}
SCENARIO(bipartite_matching_large, 12) {
    int n = rng.size(100, 400), m = rng.size(100, 400); auto e = bip(rng, n, m, 2000); BipartiteMatching bm(n, m); for (auto [u, v] : e) bm.add_edge(u, v); audit(rng, bm, n, m, e);
}
SCENARIO(dulmage_mendelsohn, 1200) {
    int n = rng.size(0, 12), m = rng.size(0, 12); auto e = bip(rng, n, m, 30); LOG(n, m, e); BipartiteMatching bm(n, m); for (auto [u, v] : e) bm.add_edge(u, v); int nu = kuhn(n, m, e);
    auto dm = dulmage_mendelsohn_decomposition(bm); int K = (int)dm.size() - 1; REQUIRE(K >= 1); std::vector<int> bl(n, -1), br(m, -1); std::set<PI> es(e.begin(), e.end());
    for (int k = 0; k <= K; ++k) { auto& [l, r] = dm[k]; for (int x : l) { REQUIRE(0 <= x && x < n && bl[x] < 0, "left vertex in two parts"); bl[x] = k; } for (int x : r) { REQUIRE(0 <= x && x < m && br[x] < 0, "right vertex in two parts"); br[x] = k; } size_t c = std::min(l.size(), r.size()); for (size_t i = 0; i < c; ++i) REQUIRE(es.count({ l[i], r[i] }), "paired vertices not adjacent"); if (k == 0) REQUIRE(l.size() < r.size() || (l.empty() && r.empty()), "W0 must have more right vertices"); else if (k == K) REQUIRE(l.size() > r.size() || (l.empty() && r.empty()), "Wk must have more left vertices"); else REQUIRE(l.size() == r.size() && l.size()); }
    for (int i = 0; i < n; ++i) REQUIRE(bl[i] >= 0, "left vertex missing"); for (int i = 0; i < m; ++i) REQUIRE(br[i] >= 0, "right vertex missing");
    for (auto [u, v] : e) REQUIRE(bl[u] <= br[v], "edge against the block order", u, v);
    for (int i = 0; i < n; ++i) EQ(bl[i] == K, kuhn(n, m, e, i) == nu); for (int j = 0; j < m; ++j) EQ(br[j] == 0, kuhn(n, m, e, -1, j) == nu);
    { std::set<int> a, b; for (auto [u, v] : e) { if (bl[u] == K) a.insert(v); if (br[v] == 0) b.insert(u); } for (int j = 0; j < m; ++j) EQ(br[j] == K, a.count(j) > 0); for (int i = 0; i < n; ++i) EQ(bl[i] == 0, b.count(i) > 0); }
    for (int k = 1; k < K; ++k) { auto& [l, r] = dm[k]; std::vector<PI> se; for (auto [u, v] : e) if (bl[u] == k && br[v] == k) se.emplace_back(u, v); if (l.size() > 1) for (int x : l) for (int y : r) EQ(kuhn(n, m, se, x, y), (int)l.size() - 1); }
}
SCENARIO(edge_coloring, 600) {
    int n = rng.size(0, 12), m = rng.size(0, 12); auto e = bip(rng, n, m, 60); if (e.size() && rng.coin()) { int x = rng(0, 20); while (x--) e.push_back(rng.pick(e)); } LOG(n, m, e); EdgeColoringOfBipartiteGraph g(n, m); for (auto [u, v] : e) g.add_edge(u, v);
    std::map<int, int> deg; int k = 0; for (auto [u, v] : e) k = std::max({ k, ++deg[u], ++deg[1000000 + v] }); auto [c, col] = g.solve(); EQ(c, k); EQ(col.size(), e.size()); std::set<PI> s; for (size_t i = 0; i < e.size(); ++i) { REQUIRE(0 <= col[i] && col[i] < k, "colour out of range"); REQUIRE(s.insert({ e[i].first, col[i] }).second && s.insert({ 1000000 + e[i].second, col[i] }).second, "two edges of one colour meet", i); }
}
SCENARIO(edge_coloring_large, 10) {
    int n = rng.size(50, 200), m = rng.size(50, 200); auto e = bip(rng, n, m, 2500); EdgeColoringOfBipartiteGraph g(n, m); for (auto [u, v] : e) g.add_edge(u, v);
    std::map<int, int> deg; int k = 0; for (auto [u, v] : e) k = std::max({ k, ++deg[u], ++deg[1000000 + v] }); auto [c, col] = g.solve(); EQ(c, k); EQ(col.size(), e.size()); std::set<PI> s; for (size_t i = 0; i < e.size(); ++i) { REQUIRE(0 <= col[i] && col[i] < k); REQUIRE(s.insert({ e[i].first, col[i] }).second && s.insert({ 1000000 + e[i].second, col[i] }).second, "two edges of one colour meet", i); }
}
template <class T> static void assign(Rng& rng, i64 lim) {
    int n = rng.size(0, 8); std::vector<std::vector<T>> a(n, std::vector<T>(n)); int st = rng(0, 2); for (auto& r : a) for (auto& x : r) x = st == 0 ? rng(0, 3) : st == 1 ? rng(-5, 5) : rng.wides(-lim, lim); LOG(a);
    auto [c, p] = assignment_problem<T>(a); EQ((int)p.size(), n); std::vector<char> u(n); i64 s = 0; for (int i = 0; i < n; ++i) { REQUIRE(0 <= p[i] && p[i] < n && !u[p[i]], "assignment is no permutation"); u[p[i]] = 1; s += a[i][p[i]]; } EQ((i64)c, s);
    std::vector<i64> dp(1 << n, LLONG_MAX); dp[0] = 0; for (int m = 0; m < (1 << n); ++m) if (dp[m] != LLONG_MAX) { int i = __builtin_popcount(m); for (int j = 0; j < n; ++j) if (!(m >> j & 1)) dp[m | 1 << j] = std::min(dp[m | 1 << j], dp[m] + (i64)a[i][j]); } EQ((i64)c, dp[(1 << n) - 1]);
}
SCENARIO(assignment, 900) { if (rng.coin()) assign<i64>(rng, 100000000000000000LL); else assign<int>(rng, 10000000); }
SCENARIO(assignment_large, 12) { // duality-free check: no improving swap cycle (Bellman-Ford on the exchange graph)
    int n = rng.size(20, 60); std::vector<std::vector<i64>> a(n, std::vector<i64>(n)); for (auto& r : a) for (auto& x : r) x = rng(-1000, 1000); auto [c, p] = assignment_problem<i64>(a); std::vector<char> u(n); i64 s = 0; for (int i = 0; i < n; ++i) { REQUIRE(0 <= p[i] && p[i] < n && !u[p[i]]); u[p[i]] = 1; s += a[i][p[i]]; } EQ(c, s);
    std::vector<i64> d(n, 0); bool ch = true; for (int it = 0; it <= n && ch; ++it) { ch = false; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (d[i] + a[i][p[j]] - a[i][p[i]] < d[j]) d[j] = d[i] + a[i][p[j]] - a[i][p[i]], ch = true; } REQUIRE(!ch, "assignment can be improved");
}
struct FE { int u, v; i64 cap, cost; };
// independent model: successive shortest paths with plain Bellman-Ford, one unit or bottleneck at a time; gives the convex cost curve
struct Ref { int n; std::vector<FE> e; std::vector<i64> fl;
    Ref(int n, std::vector<FE> e) : n(n), e(e), fl(e.size()) {}
    std::optional<std::pair<i64, i64>> step(int s, int t, i64 lim) { // returns (df, path cost)
        const i64 INF = LLONG_MAX / 4; std::vector<i64> d(n, INF); std::vector<PI> pr(n, PI(-1, 0)); d[s] = 0; for (bool ch = true; ch;) { ch = false; for (int i = 0; i < (int)e.size(); ++i) { if (fl[i] < e[i].cap && d[e[i].u] < INF && d[e[i].u] + e[i].cost < d[e[i].v]) d[e[i].v] = d[e[i].u] + e[i].cost, pr[e[i].v] = { i, 1 }, ch = true; if (fl[i] > 0 && d[e[i].v] < INF && d[e[i].v] - e[i].cost < d[e[i].u]) d[e[i].u] = d[e[i].v] - e[i].cost, pr[e[i].u] = { i, -1 }, ch = true; } }
        if (d[t] >= INF) return std::nullopt; i64 df = lim; for (int v = t; v != s;) { auto [i, dir] = pr[v]; df = std::min(df, dir > 0 ? e[i].cap - fl[i] : fl[i]); v = dir > 0 ? e[i].u : e[i].v; } for (int v = t; v != s;) { auto [i, dir] = pr[v]; fl[i] += dir * df; v = dir > 0 ? e[i].u : e[i].v; } return std::make_pair(df, d[t]); }
};
static std::vector<std::pair<i64, i64>> curve(Ref& r, int s, int t, i64 lim, bool neg_only) {
    std::vector<std::pair<i64, i64>> seg, res{ { 0, 0 } }; i64 f = 0; while (f < lim) { Ref save = r; auto st = r.step(s, t, lim - f); if (!st) break; if (neg_only && st->second >= 0) { r = save; break; } f += st->first; if (seg.size() && seg.back().second == st->second) seg.back().first += st->first; else seg.push_back(*st); } i64 c = 0; f = 0; for (auto [df, k] : seg) { f += df; c += df * k; res.emplace_back(f, c); } return res;
}
template <class Cap, class Cost, MCFPotentialInitializer IM> static void mcf(Rng& rng) {
    int n = rng.size(2, 9); int s, t; { s = rng(0, n - 1); do t = rng(0, n - 1); while (t == s); }
    int m = rng.size(0, 24); std::vector<FE> e; int cl = rng.pick(std::vector<int>{ 2, 10, 1000 }), kl = rng.pick(std::vector<int>{ 0, 3, 1000 }); auto topo = rng.perm(n); std::vector<int> pot(n); for (auto& x : pot) x = rng(-kl, kl);
    for (int i = 0; i < m; ++i) { int u = rng(0, n - 1), v = rng(0, n - 1); if (u == v && !(rng.pct(20) && IM != DAG)) continue; i64 c = rng(0, kl); if (IM == DAG) { if (topo[u] > topo[v]) std::swap(u, v); c = rng(-kl, kl); } else if (IM == BELLMAN_FORD && u != v) c += pot[u] - pot[v]; e.push_back({ u, v, rng.pct(10) ? 0 : rng(1, cl), c }); }
    if (IM == DAG && topo[s] > topo[t]) std::swap(s, t);
    LOG("n ", n, " s ", s, " t ", t); for (auto& x : e) LOG(x.u, x.v, x.cap, x.cost);
    MinCostFlow<Cap, Cost, IM> g(n); for (size_t i = 0; i < e.size(); ++i) EQ(g.add_edge(e[i].u, e[i].v, (Cap)e[i].cap, (Cost)e[i].cost), (int)i);
    Ref ref(n, e); int rounds = IM == DAG ? 1 : rng(1, 2);
    for (int r = 0; r < rounds; ++r) {
        if (r && IM == BELLMAN_FORD && rng.coin()) { s = rng(0, n - 1); do t = rng(0, n - 1); while (t == s); }
        std::vector<std::pair<i64, i64>> got, want; int k = rng(0, 5); i64 lim = LLONG_MAX / 8; bool neg = false; i64 last_only = 0; auto conv = [&](auto v) { for (auto [a, b] : v) got.emplace_back(a, b); };
        if (k == 0) conv(g.min_cost_max_flow_slope(s, t)); if (k == 1) lim = rng(0, 2 * cl), conv(g.min_cost_max_flow_slope(s, t, (Cap)lim)); if (k == 2) neg = true, conv(g.min_cost_arbitrary_flow_slope(s, t)); if (k == 3) last_only = 1, conv(std::vector<std::pair<Cap, Cost>>{ g.min_cost_max_flow(s, t) }); if (k == 4) last_only = 1, lim = rng(0, 2 * cl), conv(std::vector<std::pair<Cap, Cost>>{ g.min_cost_max_flow(s, t, (Cap)lim) }); if (k == 5) last_only = 1, neg = true, conv(std::vector<std::pair<Cap, Cost>>{ g.min_cost_arbitrary_flow(s, t) });
        want = curve(ref, s, t, lim, neg); if (last_only) REQUIRE(got.back() == want.back(), "flow/cost", got.back(), want.back()); else REQUIRE(got == want, "cost curve", got, want);
        // the reported edge flows are a feasible flow of that value and cost
        auto ed = g.get_edges(); EQ(ed.size(), e.size()); std::vector<i64> bal(n); i64 cost = 0, c0 = 0; for (size_t i = 0; i < e.size(); ++i) { auto x = ed[i]; auto y = g.get_edge(i); REQUIRE(x.from == y.from && x.to == y.to && x.cap == y.cap && x.flow == y.flow && x.cost == y.cost); EQ(x.from, e[i].u); EQ(x.to, e[i].v); EQ((i64)x.cap, e[i].cap); EQ((i64)x.cost, e[i].cost); REQUIRE(0 <= x.flow && x.flow <= x.cap, "flow out of bounds"); bal[x.from] -= x.flow; bal[x.to] += x.flow; cost += (i64)x.flow * x.cost; }
        std::vector<i64> rb(n); for (size_t i = 0; i < e.size(); ++i) rb[e[i].u] -= ref.fl[i], rb[e[i].v] += ref.fl[i], c0 += ref.fl[i] * e[i].cost; EQV(bal, rb); EQ(cost, c0);
        if (r + 1 < rounds) { for (size_t i = 0; i < e.size(); ++i) ref.fl[i] = ed[i].flow; } // continue from the same residual graph
    }
}
SCENARIO(min_cost_flow, 2000) { switch (rng(0, 5)) { case 0: mcf<int, int, BELLMAN_FORD>(rng); break; case 1: mcf<i64, i64, BELLMAN_FORD>(rng); break; case 2: mcf<i64, i64, DIJKSTRA>(rng); break; case 3: mcf<int, i64, DAG>(rng); break; case 4: mcf<i64, int, DAG>(rng); break; default: mcf<int, int, DIJKSTRA>(rng); } }
// capacities above 2^31 at tiny cost, costs near the documented limit at tiny capacity
template <MCFPotentialInitializer IM> static void mcf_wide(Rng& rng) {
    int n = rng(2, 5), m = rng.size(1, 7); bool wf = rng.coin(); i64 tot = 0; std::vector<FE> e; for (int i = 0; i < m; ++i) { int u = rng(0, n - 1), v = rng(0, n - 1); if (rng.pct(60)) u = 0, v = n - 1; if (u == v) continue; if (IM == DAG && u > v) std::swap(u, v); i64 cap = wf ? rng.pick(std::vector<i64>{ 1, 2147483647, 2147483648LL, 1LL << 32, (1LL << 32) + 1, 3000000000LL }) : rng(1, 2), cost = wf ? rng(0, 1) : rng.pick(std::vector<i64>{ 0, 1, 1000000000000LL, 100000000000000LL, 30000000000000000LL }); if (wf) { if (tot + cap > 10000000000LL) continue; tot += cap; if (cost && cap > 800000000) cap = 1 + cap % 800000000; } e.push_back({ u, v, cap, cost }); }
    LOG("n ", n); for (auto& x : e) LOG(x.u, x.v, x.cap, x.cost); MinCostFlow<i64, i64, IM> g(n); for (size_t i = 0; i < e.size(); ++i) EQ(g.add_edge(e[i].u, e[i].v, e[i].cap, e[i].cost), (int)i); Ref ref(n, e); auto want = curve(ref, 0, n - 1, LLONG_MAX / 8, false); i64 pf = 0, pc = 0; for (auto [f, c] : want) { if ((__int128)(f - pf) * c > (__int128)4e18 || (__int128)f * (c - pc) > (__int128)4e18 || (__int128)f * c > (__int128)4e18) { EQ(0, 0); return; } pf = f, pc = c; } auto got = g.min_cost_max_flow_slope(0, n - 1); REQUIRE(got == want, "cost curve", got, want); EQ(got.back(), want.back());
}
SCENARIO(min_cost_flow_wide, 600) { switch (rng(0, 2)) { case 0: mcf_wide<DAG>(rng); break; case 1: mcf_wide<BELLMAN_FORD>(rng); break; default: mcf_wide<DIJKSTRA>(rng); } }
// the same workloads at realistic sizes
RESCALE(bipartite_matching, 4, 64);
RESCALE(edge_coloring_large, 4, 2);
RESCALE(dulmage_mendelsohn, 4, 16);
RESCALE(min_cost_flow, 12, 512);
RESCALE(assignment_large, 4, 4);
RESCALE(bipartite_matching_large, 4, 4);
RESCALE(edge_coloring, 4, 32);
