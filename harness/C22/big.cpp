// Matchings, colourings, flows and independent sets at contest size; optimality is audited by dual certificates or known structure.
// MON: shards=3
#include "mon.hpp"
#include <algorithm>
#include <cassert>
#include <deque>
#include <iostream>
#include <map>
#include <numeric>
#include <set>
#include <unordered_set>
#include <functional>
#include "library/graph/assignment_problem.hpp"
#include "library/graph/min_cost_flow.hpp"
#include "library/graph/bipartite_matching.hpp"
#include "library/graph/dulmage_mendelsohn_decomposition.hpp"
#include "library/graph/edge_coloring_of_bipartite_graph.hpp"
#include "library/graph/enumerate_cliques.hpp"
#include "library/graph/enumerate_triangles.hpp"
#include "library/graph/maximum_independent_set.hpp"
#include "library/graph/minimum_vertex_cover.hpp"
#include "library/graph/maximum_clique.hpp"
#include "library/graph/chromatic_number.hpp"
using namespace suisen; using mon::Rng; using PI = std::pair<int, int>;
static int bn(Rng& rng) { return (int)(rng.coin() ? 65536 + rng.in(0, 5) : rng.in(66000, 80000)); }
static std::vector<PI> bigbip(Rng& rng, int n, int m, int st) {
    std::vector<PI> e; auto p = rng.perm(n), q = rng.perm(m); int k = std::min(n, m); if (st == 0) for (int i = 0; i < n + m; ++i) e.emplace_back((int)rng.in(0, n - 1), (int)rng.in(0, m - 1)); if (st == 1) { for (int i = 0; i < k; ++i) { e.emplace_back(p[i], q[i]); if (i + 1 < k) e.emplace_back(p[i + 1], q[i]); } } if (st == 2) { for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) e.emplace_back(p[i], q[(int)(i * 7LL / 10 % m)]), e.emplace_back(p[i], (int)rng.in(0, m / 2)); } if (st == 3) { for (int i = 0; i < n; ++i) e.emplace_back(p[i], q[0]); for (int j = 0; j < m; ++j) e.emplace_back(p[0], q[j]); for (int i = 0; i < k / 2; ++i) e.emplace_back(p[i], q[i]), e.emplace_back(p[i + 1], q[i]); } if (st == 4) return e; rng.shuffle(e); return e;
}
// bm is audited by LP duality: matching and vertex cover of the same size
static int audit(BipartiteMatching& bm, int n, int m, const std::vector<PI>& e) {
    std::unordered_set<u64> es; for (auto [u, v] : e) es.insert((u64)u << 32 | v); int nu = bm.solve(); auto mm = bm.max_matching(); EQ((int)mm.size(), nu); std::vector<char> a(n), b(m); for (auto [u, v] : mm) { REQUIRE(es.count((u64)u << 32 | v), "matched pair is no edge", u, v); REQUIRE(!a[u]++ && !b[v]++, "vertex matched twice"); EQ(bm.right(u), v); EQ(bm.left(v), u); } for (int i = 0; i < n; ++i) EQ(bm.right(i) >= 0, bool(a[i])); for (int j = 0; j < m; ++j) EQ(bm.left(j) >= 0, bool(b[j]));
    auto vc = bm.min_vertex_cover(); EQ((int)vc.size(), nu); std::vector<char> c(n + m); for (int x : vc) { REQUIRE(0 <= x && x < n + m && !c[x]++); } i64 un = 0; for (auto [u, v] : e) un += !c[u] && !c[n + v]; EQ(un, (i64)0); auto is = bm.max_independent_set(); EQ((int)is.size(), n + m - nu); std::vector<char> f(n + m); for (int x : is) REQUIRE(!f[x]++); un = 0; for (auto [u, v] : e) un += f[u] && f[n + v]; EQ(un, (i64)0);
    auto ec = bm.min_edge_cover(); std::vector<char> all(n + m), cov(n + m); for (auto [u, v] : e) all[u] = all[n + v] = 1; i64 bad = 0; for (auto [u, v] : ec) { bad += !es.count((u64)u << 32 | v); cov[u] = cov[n + v] = 1; } EQ(bad, (i64)0); REQUIRE(cov == all, "edge cover misses a vertex"); EQ((int)ec.size(), (int)std::count(all.begin(), all.end(), 1) - nu); return nu;
}
// paths on which every phase of a level-by-level matcher finds only the paths of one length: as many phases as lengths
static void staircase(int K, int& n, int& m, std::vector<PI>& e) { n = m = 0; for (int k = 1; k <= K; ++k) { for (int i = 0; i < k; ++i) e.emplace_back(n + i + 1, m + i), e.emplace_back(n + i, m + i); e.emplace_back(n + k, m + k); n += k + 1, m += k + 1; } for (auto& x : e) x.first = n - 1 - x.first; }
SCENARIO(big_matching, 6) {
    int st = (int)rng.in(0, 5), n = bn(rng), m = rng.coin() ? bn(rng) : (int)rng.in(30000, 70000); auto e = bigbip(rng, n, m, st); if (st == 4) staircase((int)rng.in(120, 200), n, m, e); if (st == 5) { m = n; auto p = rng.perm(n), q = rng.perm(n); i64 cut = rng.coin() ? n : rng.in(20, n); e.clear(); for (int i = 0; i < n; ++i) { e.emplace_back(p[i], q[i]); if (rng.in(0, n) < cut) e.emplace_back(p[i], q[(i + 1) % n]); e.emplace_back(p[0], q[i]); } rng.shuffle(e); } LOG("n", n, "m", m, "edges", e.size(), "style", st); BipartiteMatching bm(n, m); size_t half = e.size() / 2; if (rng.coin()) { for (size_t i = 0; i < half; ++i) bm.add_edge(e[i].first, e[i].second); audit(bm, n, m, std::vector<PI>(e.begin(), e.begin() + half)); } else half = 0; for (size_t i = half; i < e.size(); ++i) bm.add_edge(e[i].first, e[i].second); int nu = audit(bm, n, m, e); if (st == 1 || st >= 4) EQ(nu, std::min(n, m));
    auto dm = dulmage_mendelsohn_decomposition(bm); int K = (int)dm.size() - 1; std::vector<int> bl(n, -1), br(m, -1); std::unordered_set<u64> es; for (auto [u, v] : e) es.insert((u64)u << 32 | v); i64 bad = 0; for (int k = 0; k <= K; ++k) { auto& [l, r] = dm[k]; for (int x : l) { EQ(bl[x], -1); bl[x] = k; } for (int x : r) { EQ(br[x], -1); br[x] = k; } size_t c = std::min(l.size(), r.size()); for (size_t i = 0; i < c; ++i) bad += !es.count((u64)l[i] << 32 | r[i]); if (k == 0) REQUIRE(l.size() < r.size() || r.empty()); else if (k == K) REQUIRE(l.size() > r.size() || l.empty()); else EQ(l.size(), r.size()); } EQ(bad, (i64)0); for (auto [u, v] : e) bad += bl[u] > br[v]; EQ(bad, (i64)0); bad = std::count(bl.begin(), bl.end(), -1) + std::count(br.begin(), br.end(), -1); EQ(bad, (i64)0);
    // given one maximum matching the decomposition is unique: recompute both tails by reachability and the middle by Kosaraju
    std::vector<std::vector<int>> gl(n), gr(m); for (auto [u, v] : e) gl[u].push_back(v), gr[v].push_back(u); std::vector<int> wl(n, 1), wr(m, 1), q; for (int i = 0; i < n; ++i) if (bm.right(i) < 0) wl[i] = 2, q.push_back(i); while (!q.empty()) { int u = q.back(); q.pop_back(); for (int v : gl[u]) if (wr[v] == 1) { wr[v] = 2; int w = bm.left(v); if (w >= 0 && wl[w] == 1) wl[w] = 2, q.push_back(w); } } for (int j = 0; j < m; ++j) if (bm.left(j) < 0) wr[j] = 0, q.push_back(j); while (!q.empty()) { int v = q.back(); q.pop_back(); for (int u : gr[v]) if (wl[u] == 1) { wl[u] = 0; int w = bm.right(u); if (w >= 0 && wr[w] == 1) wr[w] = 0, q.push_back(w); } } for (int i = 0; i < n; ++i) EQ(bl[i] == 0 ? 0 : bl[i] == K ? 2 : 1, wl[i]); for (int j = 0; j < m; ++j) EQ(br[j] == 0 ? 0 : br[j] == K ? 2 : 1, wr[j]);
    std::vector<int> ord, it(n), comp(n, -1); std::vector<char> vis(n); for (int i = 0; i < n; ++i) if (wl[i] == 1 && !vis[i]) { std::vector<int> stk{ i }; vis[i] = 1; while (!stk.empty()) { int u = stk.back(); if (it[u] < (int)gl[u].size()) { int v = gl[u][it[u]++]; if (wr[v] != 1) continue; int w = bm.left(v); if (!vis[w]) vis[w] = 1, stk.push_back(w); } else ord.push_back(u), stk.pop_back(); } } int nc = 0; for (size_t i = ord.size(); i--;) if (comp[ord[i]] < 0) { std::vector<int> stk{ ord[i] }; comp[ord[i]] = nc; while (!stk.empty()) { int u = stk.back(); stk.pop_back(); for (int w : gr[bm.right(u)]) if (wl[w] == 1 && comp[w] < 0) comp[w] = nc, stk.push_back(w); } ++nc; } EQ(K - 1, nc); std::vector<int> mp(K + 1, -1); for (int i = 0; i < n; ++i) if (comp[i] >= 0) { if (mp[bl[i]] < 0) mp[bl[i]] = comp[i]; EQ(mp[bl[i]], comp[i]); }
}
SCENARIO(big_edge_coloring, 5) {
    int st = (int)rng.in(0, 4), n, m; std::vector<PI> e; if (st == 0) { n = m = (int)rng.in(300, 3000); int d = (int)rng.in(60000, 80000) / n; for (int k = 0; k < d; ++k) { auto p = rng.perm(n); for (int i = 0; i < n; ++i) e.emplace_back(i, p[i]); } } else if (st == 1) { n = 2; m = (int)rng.in(30000, 40000); for (int j = 0; j < m; ++j) e.emplace_back(0, j), e.emplace_back(1, j); } else if (st == 2) { n = (int)rng.in(50000, 70000), m = (int)rng.in(50000, 70000); for (int i = 0; i < 80000; ++i) e.emplace_back((int)rng.in(0, n - 1), (int)rng.in(0, m - 1)); } else if (st == 3) { n = m = bn(rng); for (int i = 0; i < n; ++i) e.emplace_back(i, i), e.emplace_back(i, (i + 1) % m); } else { n = (int)rng.in(1, 3), m = (int)rng.in(1, 3); for (int i = 0; i < 70000; ++i) e.emplace_back((int)rng.in(0, n - 1), (int)rng.in(0, m - 1)); } rng.shuffle(e); LOG("n", n, "m", m, "edges", e.size(), "style", st);
    EdgeColoringOfBipartiteGraph g(n, m); for (auto [u, v] : e) g.add_edge(u, v); std::vector<int> dl(n), dr(m); int k = 0; for (auto [u, v] : e) k = std::max({ k, ++dl[u], ++dr[v] }); auto [c, col] = g.solve(); EQ(c, k); EQ(col.size(), e.size()); std::vector<u64> a, b; for (size_t i = 0; i < e.size(); ++i) { EQ(0 <= col[i] && col[i] < k, true); a.push_back((u64)e[i].first << 32 | (unsigned)col[i]); b.push_back((u64)e[i].second << 32 | (unsigned)col[i]); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); REQUIRE(std::adjacent_find(a.begin(), a.end()) == a.end() && std::adjacent_find(b.begin(), b.end()) == b.end(), "two edges of one colour meet");
}
template <class T> void big_assign(Rng& rng, i64 lim) {
    int n = (int)rng.in(100, 140); std::vector<std::vector<T>> a(n, std::vector<T>(n)); int st = (int)rng.in(0, 2); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = (T)(st == 0 ? rng.in(-lim, lim) : st == 1 ? rng.in(0, 1) : lim / n / n * ((i64)(i + 1) * (j + 1) % n)); auto [c, p] = assignment_problem<T>(a); std::vector<char> u(n); i64 s = 0; for (int i = 0; i < n; ++i) { REQUIRE(0 <= p[i] && p[i] < n && !u[p[i]]++, "no permutation"); s += a[i][p[i]]; } EQ((i64)c, s); std::vector<i64> d(n, 0); bool ch = true; for (int it = 0; it <= n && ch; ++it) { ch = false; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (d[i] + a[i][p[j]] - a[i][p[i]] < d[j]) d[j] = d[i] + (i64)a[i][p[j]] - a[i][p[i]], ch = true; } EQ(ch, false);
}
SCENARIO(big_assignment, 6) { if (rng.in(0, 1)) big_assign<i64>(rng, 10000000000000LL); else big_assign<int>(rng, 1000000); }
// flow audited by feasibility, value, no augmenting path (max flow) and no negative residual cycle (min cost)
template <class Cap, class Cost, MCFPotentialInitializer IM> void big_mcf(Rng& rng) {
    int n = bn(rng), s = 0, t = n - 1; struct E { int u, v; i64 c, k; }; std::vector<E> e; auto p = rng.perm(n); std::swap(p[std::find(p.begin(), p.end(), 0) - p.begin()], p[0]); std::swap(p[std::find(p.begin(), p.end(), n - 1) - p.begin()], p[n - 1]); i64 KC = rng.pick(std::vector<i64>{ 3, 1000, sizeof(Cost) == 8 ? 100000000000LL : 10000 }), CC = sizeof(Cap) == 8 && sizeof(Cost) == 8 ? (KC > 1000 ? 200 : 1000000LL) : 5; std::vector<i64> pot(n); if (IM == BELLMAN_FORD) for (auto& x : pot) x = rng.in(0, KC);
    int paths = (int)rng.in(3, 6); for (int i = 0; i < paths; ++i) { int len = (int)rng.in(3, 40), u = 0; for (int j = 0; j < len; ++j) { int v = j + 1 == len ? n - 1 : std::min<int>(n - 2, u + (int)rng.in(1, n / len)); e.push_back({ u, v, rng.in(1, CC), 0 }); u = v; } } for (int i = 0; i < n; ++i) { int u = (int)rng.in(0, n - 1), v = (int)rng.in(0, n - 1); if (u == v) continue; if (u > v) std::swap(u, v); if (u == 0 || v == n - 1) continue; if (IM != DAG && rng.coin()) std::swap(u, v); e.push_back({ u, v, rng.in(0, CC), 0 }); } for (auto& x : e) { x.k = rng.in(IM == DAG ? -KC : 0, KC); if (IM == BELLMAN_FORD) x.k += pot[x.u] - pot[x.v]; x.u = p[x.u], x.v = p[x.v]; } rng.shuffle(e); LOG("n", n, "edges", e.size(), "cost", KC);
    MinCostFlow<Cap, Cost, IM> g(n); for (size_t i = 0; i < e.size(); ++i) EQ(g.add_edge(e[i].u, e[i].v, (Cap)e[i].c, (Cost)e[i].k), (int)i); auto sl = g.min_cost_max_flow_slope(s, t); for (size_t i = 2; i < sl.size(); ++i) { __int128 f1 = (__int128)sl[i - 1].first - sl[i - 2].first, f2 = (__int128)sl[i].first - sl[i - 1].first, c1 = (__int128)sl[i - 1].second - sl[i - 2].second, c2 = (__int128)sl[i].second - sl[i - 1].second; REQUIRE(f1 > 0 && f2 > 0 && c1 * f2 < c2 * f1, "cost curve is not strictly convex"); }
    auto ed = g.get_edges(); std::vector<i64> bal(n); i64 cost = 0; std::vector<std::vector<std::pair<int, i64>>> r(n); for (size_t i = 0; i < e.size(); ++i) { auto& x = ed[i]; EQ(x.from, e[i].u); EQ(x.to, e[i].v); EQ((i64)x.cap, e[i].c); EQ((i64)x.cost, e[i].k); REQUIRE(0 <= x.flow && x.flow <= x.cap); bal[x.from] -= x.flow; bal[x.to] += x.flow; cost += (i64)x.flow * x.cost; if (x.flow < x.cap) r[x.from].emplace_back(x.to, (i64)x.cost); if (x.flow > 0) r[x.to].emplace_back(x.from, -(i64)x.cost); } for (int v = 0; v < n; ++v) EQ(bal[v], v == s ? -(i64)sl.back().first : v == t ? (i64)sl.back().first : 0); EQ((i64)sl.back().second, cost);
    std::vector<char> vis(n); std::vector<int> q{ s }; vis[s] = 1; for (size_t i = 0; i < q.size(); ++i) for (auto [v, w] : r[q[i]]) if (!vis[v]) vis[v] = 1, q.push_back(v); REQUIRE(!vis[t], "the flow is not maximum"); std::vector<i64> d(n); std::vector<int> cnt(n); std::vector<char> inq(n, 1); std::deque<int> dq; for (int i = 0; i < n; ++i) { dq.push_back(i); } while (!dq.empty()) { int u = dq.front(); dq.pop_front(); inq[u] = 0; REQUIRE(++cnt[u] <= 3000, "negative residual cycle: the flow is not cheapest"); for (auto [v, w] : r[u]) if (d[u] + w < d[v]) { d[v] = d[u] + w; if (!inq[v]) inq[v] = 1, dq.push_back(v); } }
}
SCENARIO(big_min_cost_flow, 5) { switch (rng.in(0, 4)) { case 0: big_mcf<i64, i64, BELLMAN_FORD>(rng); break; case 1: big_mcf<int, int, DIJKSTRA>(rng); break; case 2: big_mcf<i64, i64, DIJKSTRA>(rng); break; case 3: big_mcf<int, i64, DAG>(rng); break; default: big_mcf<i64, i64, DAG>(rng); } }
// disjoint unions of cliques and complete multipartite graphs: every answer has a closed form
SCENARIO(big_cliques_triangles, 4) {
    int st = (int)rng.in(0, 3), n = bn(rng); std::vector<std::vector<int>> g(n); auto p = rng.perm(n); auto add = [&](int a, int b) { g[p[a]].push_back(p[b]); g[p[b]].push_back(p[a]); }; i64 wc = 0, wt = 0; if (st < 2) { for (int i = 0; i < n;) { int k = (int)std::min<i64>(n - i, st == 0 ? rng.in(1, 6) : rng.in(0, 20) ? rng.in(1, 3) : rng.in(1, 12)); for (int a = 0; a < k; ++a) for (int b = 0; b < a; ++b) add(i + a, i + b); wc += (1LL << k) - 1; wt += (i64)k * (k - 1) * (k - 2) / 6; i += k; } } else if (st == 2) { for (int i = 1; i < n; ++i) add(0, i); for (int i = 1; i + 1 < n; i += 2) add(i, i + 1), ++wt; wc = n + (n - 1) + 2 * ((n - 1) / 2); } else { for (int i = 0; i + 1 < n; ++i) add(i, i + 1); for (int i = 0; i + 2 < n; ++i) add(i, i + 2), ++wt; wc = n + (n - 1) + (n - 2) + (n - 2); } for (auto& x : g) rng.shuffle(x);
    auto h = g; for (auto& x : h) std::sort(x.begin(), x.end()); auto adj = [&](int a, int b) { return std::binary_search(h[a].begin(), h[a].end(), b); }; i64 c = 0, bad = 0; std::unordered_set<u64> seen; enumerate_cliques(g, [&](std::vector<int> v) { ++c; std::sort(v.begin(), v.end()); u64 hs = 1469598103934665603ULL; for (int x : v) hs = (hs ^ (u64)x) * 1099511628211ULL, hs ^= hs >> 29; bad += !seen.insert(hs).second; for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) bad += !adj(v[i], v[j]); }); EQ(c, wc); EQ(bad, (i64)0); i64 t = 0; std::unordered_set<u64> ts; enumerate_triangles(g, [&](int a, int b, int d) { ++t; bad += !(adj(a, b) && adj(b, d) && adj(a, d)); int z[3] = { a, b, d }; std::sort(z, z + 3); bad += !ts.insert(((u64)z[0] << 42) ^ ((u64)z[1] << 21) ^ (u64)z[2]).second; }); EQ(t, wt); EQ(bad, (i64)0); if (st == 2) { i64 t2 = 0; std::vector<std::vector<int>> k(40); for (int i = 0; i < 40; ++i) for (int j = 0; j < 40; ++j) if (i != j) k[i].push_back(j); enumerate_triangles(k, [&](int, int, int) { ++t2; }); EQ(t2, (i64)9880); }
}
SCENARIO(big_independent_set, 5) {
    int st = (int)rng.in(0, 4), n, want, clq; std::vector<std::vector<int>> g; auto edge = [&](int a, int b) { g[a].push_back(b), g[b].push_back(a); }; want = clq = 0; i64 prod = 1; if (st == 0) { n = bn(rng); g.resize(n); for (int i = 0; i < n;) { int k = (int)std::min<i64>(n - i, rng.pct(1) ? rng.in(1, 70000) : rng.in(1, 40)); for (int j = 0; j + 1 < k; ++j) edge(i + j, i + j + 1); if (k >= 3 && rng.coin()) edge(i, i + k - 1), want += k / 2; else want += (k + 1) / 2; i += k; } } else if (st == 1) { int parts = (int)rng.in(2, 6); std::vector<int> c; for (int i = 0; i < parts; ++i) { int k = (int)rng.in(1, 30); want = std::max(want, k); prod *= k; while (k--) c.push_back(i); } clq = prod <= 3000 ? parts : 0; n = (int)c.size(); g.resize(n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (c[i] != c[j]) edge(i, j); } else if (st == 2) { n = (int)rng.in(70, 300); g.resize(n); for (int i = 1; i < n; ++i) edge(0, i); for (int i = 1; i + 1 < n; i += 2) if (rng.coin()) edge(i, i + 1); std::vector<char> u(n); for (int i = 1; i < n; ++i) if (!u[i]) { ++want; for (int j : g[i]) u[j] = 1; } } else if (st == 3) { n = 0; for (int i = 0; i < 12; ++i) { int k = (int)rng.in(1, prod < 3000 ? 9 : 2), b = n; prod *= std::max(1, k - 1); g.resize(n += k); for (int x = 0; x < k; ++x) for (int y = 0; y < x; ++y) edge(b + x, b + y); ++want; if (k > clq) clq = k; } clq = 0; } else { n = (int)rng.in(66, 90); g.resize(n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (i / 3 != j / 3) edge(i, j); want = 3; clq = (n + 2) / 3; }
    auto p = rng.perm(n); std::vector<std::vector<int>> h(n); for (int i = 0; i < n; ++i) for (int j : g[i]) h[p[i]].push_back(p[j]); for (auto& x : h) rng.shuffle(x); LOG("n", n, "style", st); auto r = maximum_independent_set(h); EQ((int)r.size(), want); std::vector<char> s(n); i64 bad = 0; for (int x : r) REQUIRE(0 <= x && x < n && !s[x]++); for (int x : r) for (int y : h[x]) bad += s[y]; EQ(bad, (i64)0); auto c = minimum_vertex_cover(h); EQ((int)c.size(), n - want); std::vector<char> cv(n); for (int x : c) REQUIRE(!cv[x]++); for (int i = 0; i < n; ++i) for (int j : h[i]) bad += !cv[i] && !cv[j]; EQ(bad, (i64)0); if (clq) { auto k = maximum_clique(h); EQ((int)k.size(), clq); std::vector<char> in(n); for (int x : k) REQUIRE(!in[x]++); for (int x : k) { int d = 0; for (int y : h[x]) d += in[y]; EQ(d, clq - 1); } }
}
// more than 64 vertices, a dozen branching vertices: Koenig's theorem gives the answer
SCENARIO(big_bipartite_independent_set, 24) {
    int n = (int)rng.in(60, 200); std::vector<std::vector<int>> g(n); std::set<PI> s; auto p = rng.perm(n); for (int i = 0; i + 1 < n; ++i) if (rng.pct(92)) s.insert({ i, i + 1 }); for (int k = (int)rng.in(2, 14); k--;) { int a = (int)rng.in(0, n - 1), b = (int)rng.in(0, n - 1); if ((a + b) & 1) s.insert(std::minmax(a, b)); } std::vector<std::vector<int>> l(n); for (auto [a, b] : s) { g[p[a]].push_back(p[b]), g[p[b]].push_back(p[a]); if (a & 1) l[b].push_back(a); else l[a].push_back(b); } for (auto& x : g) rng.shuffle(x); std::vector<int> to(n, -1); int nu = 0; for (int i = 0; i < n; ++i) { std::vector<char> v(n); std::function<bool(int)> go = [&](int u) { for (int w : l[u]) if (!v[w]) { v[w] = 1; if (to[w] < 0 || go(to[w])) { to[w] = u; return true; } } return false; }; nu += go(i); }
    auto r = maximum_independent_set(g); EQ((int)r.size(), n - nu); std::vector<char> in(n); i64 bad = 0; for (int x : r) REQUIRE(0 <= x && x < n && !in[x]++); for (int x : r) for (int y : g[x]) bad += in[y]; EQ(bad, (i64)0); auto c = minimum_vertex_cover(g); EQ((int)c.size(), nu); std::vector<char> cv(n); for (int x : c) cv[x] = 1; for (int i = 0; i < n; ++i) for (int j : g[i]) bad += !cv[i] && !cv[j]; EQ(bad, (i64)0);
}
SCENARIO(big_chromatic, 6) { // complete multipartite graphs, odd wheels, cliques plus paths, on up to 19 vertices
    int st = (int)rng.in(0, 5), n = (int)rng.in(16, 19), want; std::vector<PI> e; auto p = rng.perm(n); if (st == 0) { int k = (int)rng.in(2, 8); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (i % k != j % k) e.emplace_back(p[i], p[j]); want = k; } else if (st == 1) { for (int i = 1; i < n; ++i) e.emplace_back(p[0], p[i]), e.emplace_back(p[i], p[i + 1 < n ? i + 1 : 1]); want = (n - 1) % 2 ? 4 : 3; } else if (st == 2) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) e.emplace_back(p[i], p[j]); want = n; } else if (st == 3) { want = 1; } else if (st == 4) { int k = (int)rng.in(3, n); for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j) e.emplace_back(p[i], p[j]); for (int i = k; i < n; ++i) e.emplace_back(p[i], p[i - 1]); want = k; } else { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (!(i == j + 1 || (i == n - 1 && j == 0))) e.emplace_back(p[i], p[j]); want = (n + 1) / 2; } rng.shuffle(e); EQ(chromatic_number(n, e), want);
}
