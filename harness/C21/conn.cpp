// MON: shards=4
#include "mon.hpp"
#include <algorithm>
#include <cassert>
#include <iostream>
#include <map>
#include <set>
#include <functional>
#include "library/graph/low_link.hpp"
#include "library/graph/two_edge_connected_components.hpp"
#include "library/graph/biconnected_components.hpp"
#include "library/graph/block_cut_forest.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
#include "library/graph/scc_tournament.hpp"
#include "library/graph/directed_eulerian_graph.hpp"
#include "library/graph/undirected_eulerian_graph.hpp"
#include "library/graph/tree_decomposition_tw2.hpp"
#include "library/graph/tree_decomposition_tw2_dp.hpp"
using namespace suisen; using mon::Rng;
using PI = std::pair<int, int>;
static std::vector<int> comp_of(int n, const std::vector<PI>& e, int skip_edge = -1, int skip_v = -1) { std::vector<int> c(n, -1); int k = 0; std::vector<std::vector<int>> g(n); for (int i = 0; i < (int)e.size(); ++i) if (i != skip_edge && e[i].first != skip_v && e[i].second != skip_v) g[e[i].first].push_back(e[i].second), g[e[i].second].push_back(e[i].first); for (int i = 0; i < n; ++i) if (i != skip_v && c[i] < 0) { std::vector<int> st{ i }; c[i] = k; while (st.size()) { int u = st.back(); st.pop_back(); for (int v : g[u]) if (c[v] < 0) c[v] = k, st.push_back(v); } ++k; } return c; }
static int ncomp(const std::vector<int>& c) { return c.empty() ? 0 : *std::max_element(c.begin(), c.end()) + 1; }
// sparse graphs with cycles, blocks, bridges, isolated vertices, multi edges
static std::vector<PI> graph(Rng& rng, int n, bool loops, bool multi) { std::vector<PI> e; if (n == 0) return e; int m = rng.pick(std::vector<int>{ n / 2, n, n + 3, 2 * n }); int st = rng(0, 3); for (int i = 0; i < m; ++i) { int u = rng(0, n - 1), v = st == 0 ? rng(0, n - 1) : std::min(n - 1, u + (int)rng(0, 3)); if (st == 2 && rng.coin()) v = 0; if (u == v && !loops) continue; if (rng.coin()) std::swap(u, v); e.emplace_back(u, v); if (multi && rng.pct(10)) e.push_back(e.back()); } if (!multi) { std::set<PI> s; std::vector<PI> f; for (auto [u, v] : e) if (s.insert(std::minmax(u, v)).second) f.emplace_back(u, v); e = f; } auto p = rng.perm(n); for (auto& [u, v] : e) u = p[u], v = p[v]; rng.shuffle(e); return e; }
template <class L> void low_check(Rng& rng, L& l, int n, const std::vector<PI>& e) {
    int m = e.size(); EQ(l.vertex_num(), n); EQ(l.edge_num(), m); EQV(l.edges(), e); int k0 = ncomp(comp_of(n, e)); EQ(l.connected_component_num(), k0); std::vector<int> br; for (int i = 0; i < m; ++i) { EQ(l.edge(i), e[i]); int k = ncomp(comp_of(n, e, i)); if (k > k0) br.push_back(i); EQ(l.is_bridge(e[i].first, e[i].second), k > k0); EQ(l.is_bridge(e[i].second, e[i].first), k > k0); EQ(l.connected_component_num_if_removed(e[i].first, e[i].second), k); }
    auto b = l.bridge_ids(); std::sort(b.begin(), b.end()); EQV(b, br); std::vector<int> ap; for (int v = 0; v < n; ++v) { int k = ncomp(comp_of(n, e, -1, v)); bool art = k > k0; if (art) ap.push_back(v); EQ(l.is_articulation_point(v), art); EQ(l.connected_component_num_if_removed(v), k); } auto a = l.articulation_points(); std::sort(a.begin(), a.end()); EQV(a, ap);
    std::vector<int> pre(n); for (int v = 0; v < n; ++v) { int p = l.pre_order(v); REQUIRE(0 <= p && p < n && !pre[p]++, "pre_order is not a permutation"); REQUIRE(l.low_link(v) <= p); } (void)rng;
}
SCENARIO(low_link, 700) {
    int n = rng.size(0, 14); auto e = graph(rng, n, rng.pct(20), rng.coin()); if (rng.coin()) { LowLink l(n, e); low_check(rng, l, n, e); for (int v = 0; v < n; ++v) { std::multiset<PI> w, g; for (int i = 0; i < (int)e.size(); ++i) { if (e[i].first == v) w.insert({ e[i].second, i }); if (e[i].second == v) w.insert({ e[i].first, i }); } for (auto x : l[v]) g.insert(x); REQUIRE(g == w); } }
    else { LowLink l(n); std::vector<PI> cur; int st = rng(1, 3); size_t i = 0; for (int s = 0; s < st; ++s) { size_t to = s + 1 == st ? e.size() : rng((i64)i, (i64)e.size()); for (; i < to; ++i) { EQ(l.add_edge(e[i].first, e[i].second), (int)i); cur.push_back(e[i]); } l.build(); low_check(rng, l, n, cur); } }
}
static void tec_check(Rng& rng, TwoEdgeConnectedComponents& t, int n, const std::vector<PI>& e) {
    low_check(rng, static_cast<LowLink&>(t), n, e); int k0 = ncomp(comp_of(n, e)); std::vector<PI> nb; std::vector<int> br; for (int i = 0; i < (int)e.size(); ++i) { if (ncomp(comp_of(n, e, i)) > k0) br.push_back(i); else nb.push_back(e[i]); } auto c = comp_of(n, nb); EQ(t.component_num(), ncomp(c)); for (int i = 0; i < n; ++i) { REQUIRE(0 <= t[i] && t[i] < t.component_num()); for (int j = 0; j < i; ++j) EQ(t[i] == t[j], c[i] == c[j]); } auto g = t.groups(); EQ((int)g.size(), t.component_num()); int tot = 0; for (int i = 0; i < (int)g.size(); ++i) for (int v : g[i]) { EQ(t[v], i); ++tot; } EQ(tot, n);
    auto f = t.reduced_forest(); EQ(f.size(), g.size()); std::multiset<std::tuple<int, int, int>> got, w; for (int i = 0; i < (int)f.size(); ++i) for (auto [j, id] : f[i]) got.insert({ i, j, id }); for (int i : br) { w.insert({ t[e[i].first], t[e[i].second], i }); w.insert({ t[e[i].second], t[e[i].first], i }); } REQUIRE(got == w, "reduced forest differs from the bridges");
}
SCENARIO(two_edge_connected, 600) { int n = rng.size(0, 14); auto e = graph(rng, n, rng.pct(20), rng.coin()); if (rng.coin()) { TwoEdgeConnectedComponents t(n, e); tec_check(rng, t, n, e); } else { TwoEdgeConnectedComponents t(n); std::vector<PI> cur; int st = rng(1, 3); size_t i = 0; for (int s = 0; s < st; ++s) { size_t to = s + 1 == st ? e.size() : rng((i64)i, (i64)e.size()); for (; i < to; ++i) { t.add_edge(e[i].first, e[i].second); cur.push_back(e[i]); } t.build(); tec_check(rng, t, n, cur); } } }
// independent block computation: e ~ f iff no single vertex separates them (checked by vertex removal on the line graph)
static std::vector<int> blocks(int n, const std::vector<PI>& e) { int m = e.size(); std::vector<std::vector<char>> same(m, std::vector<char>(m, 1)); for (int v = 0; v < n; ++v) { auto c = comp_of(n, e, -1, v); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { auto side = [&](int k) { int x = e[k].first == v ? e[k].second : e[k].first; return x == v ? -2 : c[x]; }; int a = side(i), b = side(j); if (a != b) same[i][j] = 0; } } std::vector<int> id(m, -1); int k = 0; for (int i = 0; i < m; ++i) { if (id[i] >= 0) continue; id[i] = k; for (int j = i + 1; j < m; ++j) if (same[i][j]) id[j] = k; ++k; } return id; }
static void bcc_check(Rng& rng, BiconnectedComponents& b, int n, const std::vector<PI>& e) {
    int m = e.size(); low_check(rng, static_cast<LowLink&>(b), n, e); auto id = blocks(n, e); int k = ncomp(id); EQ(b.edge_component_num(), k); std::vector<int> iso; for (int v = 0; v < n; ++v) { bool t = false; for (auto [x, y] : e) t |= x == v || y == v; if (!t) iso.push_back(v); } EQ(b.isolated_vertex_num(), (int)iso.size()); auto gi = b.isolated_vertices(); std::sort(gi.begin(), gi.end()); EQV(gi, iso); EQ(b.component_num(), k + (int)iso.size()); for (int i = 0; i < m; ++i) { REQUIRE(0 <= b[i] && b[i] < k); for (int j = 0; j < i; ++j) EQ(b[i] == b[j], id[i] == id[j]); }
    auto cs = b.components(); EQ((int)cs.size(), b.component_num()); int et = 0; for (int c = 0; c < (int)cs.size(); ++c) { EQ(b.is_isolated_component(c), c >= k); if (c >= k) { EQ(cs[c].vertex_num(), 1); EQ(cs[c].edge_num(), 0); REQUIRE(std::count(iso.begin(), iso.end(), cs[c].vertex_set()[0])); continue; } std::set<int> w; for (int i : cs[c].edge_set()) { EQ(b[i], c); ++et; w.insert(e[i].first); w.insert(e[i].second); } EQ(cs[c].vertex_num(), (int)w.size()); EQ(std::set<int>(cs[c].vids.begin(), cs[c].vids.end()).size(), w.size()); for (int v : cs[c].vids) REQUIRE(w.count(v)); } EQ(et, m);
    BlockCutForest f(b); auto ap = b.articulation_points(); int B = b.component_num(); EQ(f.size(), B + (int)ap.size()); for (int i = 0; i < f.size(); ++i) { EQ(f.is_articulation_point(i), i >= B); EQ(f.is_biconnected_component(i), i < B); EQ(f.is_isolated_vertex(i), i >= k && i < B); } // the forest: block c - articulation vertex incidence
    std::map<std::set<int>, int> seen; std::multiset<std::set<int>> wn, gn; auto is_ap = [&](int v) { return std::count(ap.begin(), ap.end(), v) > 0; }; for (int c = 0; c < B; ++c) { EQ(f.vertex_num(c), cs[c].vertex_num()); int cnt = 0; for (int v : cs[c].vids) { if (!is_ap(v)) EQ(f.component_id(v), c); else ++cnt; } EQ((int)f[c].size(), cnt); std::set<int> nb(f[c].begin(), f[c].end()); EQ((int)nb.size(), cnt); for (int a : nb) { REQUIRE(a >= B && a < f.size()); REQUIRE(std::count(f[a].begin(), f[a].end(), c) == 1, "forest adjacency not symmetric"); int v = ap[a - B]; REQUIRE(std::count(cs[c].vids.begin(), cs[c].vids.end(), v) == 1, "articulation point not in block"); } } for (int a = B; a < f.size(); ++a) EQ(f.vertex_num(a), 1);
}
SCENARIO(biconnected, 500) { int n = rng.size(0, 12); auto e = graph(rng, n, false, rng.coin()); if (rng.coin()) { BiconnectedComponents b(n, e); bcc_check(rng, b, n, e); } else { BiconnectedComponents b(n); std::vector<PI> cur; int st = rng(1, 3); size_t i = 0; for (int s = 0; s < st; ++s) { size_t to = s + 1 == st ? e.size() : rng((i64)i, (i64)e.size()); for (; i < to; ++i) { b.add_edge(e[i].first, e[i].second); cur.push_back(e[i]); } b.build(); bcc_check(rng, b, n, cur); } } }
SCENARIO(bipartite_coloring, 600) {
    int n = rng.size(0, 14); auto e = graph(rng, n, rng.pct(5), true); if (rng.coin()) { std::vector<PI> f; auto c = rng.vec<int>(n, 0, 1); for (auto [u, v] : e) if (c[u] != c[v]) f.emplace_back(u, v); e = f; } std::vector<std::vector<int>> g(n); for (auto [u, v] : e) g[u].push_back(v), g[v].push_back(u); int c0 = rng(-3, 4), c1 = rng(-3, 4); if (c0 == c1) ++c1; bool def = rng.coin(); if (def) c0 = 0, c1 = 1; auto r = def ? bipartite_coloring(g) : bipartite_coloring(g, c0, c1);
    std::vector<PI> dbl; for (auto [u, v] : e) dbl.emplace_back(u, v + n), dbl.emplace_back(u + n, v); auto c = comp_of(2 * n, dbl); bool ok = true; for (int i = 0; i < n; ++i) ok &= c[i] != c[i + n]; EQ(r.has_value(), ok); if (ok) { EQ((int)r->size(), n); for (int x : *r) REQUIRE(x == c0 || x == c1, "colour outside", x); for (auto [u, v] : e) REQUIRE((*r)[u] != (*r)[v], "monochromatic edge"); }
}
SCENARIO(scc_tournament, 400) {
    int n = rng.size(0, 14); auto p = rng.perm(n); int bias = rng.pick(std::vector<int>{ 50, 80, 95, 100 }); std::vector<std::vector<char>> a(n, std::vector<char>(n)); std::vector<int> in(n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { bool f = rng.pct(bias) ? p[i] < p[j] : p[i] > p[j]; (f ? a[i][j] : a[j][i]) = 1; ++in[f ? j : i]; } auto r = a; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] |= r[i][k] & r[k][j];
    auto s = scc_tournament(in); std::vector<int> id(n, -1); int tot = 0; for (int c = 0; c < (int)s.size(); ++c) { REQUIRE(s[c].size()); for (int v : s[c]) { EQ(id[v], -1); id[v] = c; ++tot; } } EQ(tot, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { EQ(id[i] == id[j], bool(r[i][j] && r[j][i])); if (a[i][j]) REQUIRE(id[i] <= id[j], "components not in topological order"); }
}
template <bool dir, class G> void euler(Rng& rng) {
    int n = rng.size(1, 8); G g(n); std::vector<PI> e; auto push = [&](int u, int v) { e.emplace_back(u, v); g.add_edge(u, v); };
    auto grow = [&] { switch (rng(0, 4)) { case 0: { int m = rng(0, 6); while (m--) push(rng(0, n - 1), rng(0, n - 1)); break; } case 1: case 2: { int s = rng(0, n - 1), u = s, m = rng(0, 10); while (m--) { int v = rng(0, n - 1); push(u, v); u = v; } if (rng.coin()) push(u, s); break; } case 3: { int k = rng(1, 2); while (k--) { int s = rng(0, n - 1), u = s, m = rng(1, 5); while (m--) { int v = rng(0, n - 1); push(u, v); u = v; } push(u, s); } break; } default: { int h = std::max<int>(1, n / 2); int u = 0, m = rng(0, 4); while (m--) { int v = rng(0, h - 1); push(u, v); u = v; } push(u, 0); if (n > h) { push(h, n - 1); if (rng.coin()) push(n - 1, h); } } } };
    int stages = rng(1, 2);
    while (stages--) { grow(); int m = e.size(); LOG("n=", n, " m=", m);
        auto valid = [&](const std::vector<int>& w, bool closed) { EQ((int)w.size(), m + 1); if (closed) EQ(w.front(), w.back()); std::multiset<PI> pool; for (auto [u, v] : e) { if (!dir && u > v) std::swap(u, v); pool.insert({ u, v }); } for (int i = 0; i < m; ++i) { int u = w[i], v = w[i + 1]; if (!dir && u > v) std::swap(u, v); auto it = pool.find({ u, v }); REQUIRE(it != pool.end(), "walk uses a missing edge"); pool.erase(it); } };
        auto c = comp_of(n, e); int cc = -1; bool conn = true; for (auto [u, v] : e) { if (cc < 0) cc = c[u]; conn &= c[u] == cc; } std::vector<int> out(n), in(n); for (auto [u, v] : e) ++out[u], ++in[v]; bool bal = true; int odd = 0, plus = 0, minus = 0, bad = 0; for (int i = 0; i < n; ++i) { if (dir) { bal &= out[i] == in[i]; if (out[i] == in[i] + 1) ++plus; else if (in[i] == out[i] + 1) ++minus; else if (in[i] != out[i]) ++bad; } else { bal &= (out[i] + in[i]) % 2 == 0; odd += (out[i] + in[i]) % 2; } }
        bool circ = conn && bal; bool open = conn && (dir ? (plus == 1 && minus == 1 && !bad) : odd == 2);
        for (int rep = 0; rep < 4; ++rep) { switch (rng(0, 3)) { case 0: { auto r = g.eulerian_circuit(); EQ(r.has_value(), circ); if (r) valid(*r, true); break; } case 1: { int s = rng(0, n - 1); auto r = g.eulerian_circuit(s); bool ex = circ && (m == 0 || out[s] + in[s] > 0); EQ(r.has_value(), ex); if (r) { valid(*r, true); EQ(r->front(), s); } break; } case 2: { auto r = g.eulerian_trail(); EQ(r.has_value(), circ || open); if (r) valid(*r, circ); break; } default: { auto r = g.eulerian_trail(true); EQ(r.has_value(), open); if (r) { valid(*r, false); REQUIRE(r->front() != r->back()); } } }
            for (int i = 0; i < n; ++i) { std::multiset<int> w(g[i].begin(), g[i].end()), x; for (auto [u, v] : e) { if (u == i) x.insert(v); if (!dir && v == i) x.insert(u); } REQUIRE(w == x, "the query changed the graph at vertex", i); } if constexpr (!dir) for (int i = 0; i < n; ++i) for (int j = 0; j < (int)g[i].size(); ++j) { auto [v, k] = g.rev_edge(i, j); EQ(v, g[i][j]); EQ(g.rev_edge(v, k), PI(i, j)); } } }
}
SCENARIO(eulerian, 1500) { if (rng.coin()) euler<true, DirectedEulerianGraph>(rng); else euler<false, UndirectedEulerianGraph>(rng); }
SCENARIO(tree_decomposition, 900) {
    int n = rng.size(0, 14); std::vector<PI> e; int st = rng(0, 3);
    if (n && st == 0) { e = graph(rng, n, rng.pct(20), rng.coin()); } else if (n) { // partial 2-trees
        auto p = rng.perm(n); std::vector<PI> ed; for (int i = 1; i < n; ++i) { if (ed.empty() || rng.pct(20)) { int a = rng(0, i - 1); ed.emplace_back(a, i); } else { auto [a, b] = rng.pick(ed); ed.emplace_back(a, i); ed.emplace_back(b, i); } } int keep = rng.pick(std::vector<int>{ 50, 80, 100 }); for (auto [u, v] : ed) if (rng.pct(keep)) { e.emplace_back(p[u], p[v]); if (st == 2 && rng.pct(20)) e.emplace_back(p[v], p[u]); } rng.shuffle(e); }
    for (auto& [u, v] : e) if (rng.coin()) std::swap(u, v);
    std::vector<std::set<int>> g(n); for (auto [u, v] : e) if (u != v) g[u].insert(v), g[v].insert(u); auto h = g; int left = n; std::vector<char> gone(n); for (bool u = true; u;) { u = false; for (int v = 0; v < n; ++v) if (!gone[v] && h[v].size() <= 2) { auto nb = h[v]; for (int a : nb) { h[a].erase(v); for (int b : nb) if (a != b) h[a].insert(b); } gone[v] = 1; --left; u = true; } } bool ok = left == 0;
    bool simple_adj = rng.coin(); std::vector<std::vector<int>> adj(n); for (int i = 0; i < n; ++i) adj[i].assign(g[i].begin(), g[i].end()); TreeDecompositionTW2 t = simple_adj ? TreeDecompositionTW2(adj) : rng.coin() ? TreeDecompositionTW2(n, e) : [&] { TreeDecompositionTW2 x(n); for (auto [u, v] : e) x.add_edge(u, v); return x; }(); LOG("n ", n, " edges ", e, " adj ", simple_adj);
    auto check = [&](int k, auto bag, auto adjl) { std::vector<std::vector<int>> T(k); int te = 0; for (int i = 0; i < k; ++i) { auto b = bag(i); REQUIRE(b.size() <= 3 && std::is_sorted(b.begin(), b.end()) && std::adjacent_find(b.begin(), b.end()) == b.end(), "bad bag"); for (int j : adjl(i)) { REQUIRE(0 <= j && j < k && j != i); T[i].push_back(j); ++te; } } EQ(te, 2 * std::max(0, k - 1)); for (int i = 0; i < k; ++i) for (int j : T[i]) REQUIRE(std::count(T[j].begin(), T[j].end(), i) == 1, "asymmetric tree");
        auto reach = [&](auto in) { std::vector<char> v(k); int s = -1, tot = 0, cnt = 0; for (int i = 0; i < k; ++i) if (in(i)) s = i, ++tot; if (s < 0) return false; std::vector<int> q{ s }; v[s] = 1; while (q.size()) { int x = q.back(); q.pop_back(); ++cnt; for (int y : T[x]) if (!v[y] && in(y)) v[y] = 1, q.push_back(y); } return cnt == tot; }; if (k) REQUIRE(reach([&](int) { return true; }), "decomposition tree disconnected");
        for (int x = 0; x < n; ++x) REQUIRE(reach([&](int i) { auto b = bag(i); return std::count(b.begin(), b.end(), x) > 0; }), "bags of a vertex not connected (or missing)", x); for (auto [u, v] : e) { bool f = false; for (int i = 0; i < k && !f; ++i) { auto b = bag(i); f = std::count(b.begin(), b.end(), u) && std::count(b.begin(), b.end(), v); } REQUIRE(f, "edge in no bag"); } };
    auto d = t.decomp(); EQ(d.has_value(), ok); if (d) { EQ((int)d->size(), n); check(n, [&](int i) { return (*d)[i].bag; }, [&](int i) { return (*d)[i].adj; }); }
    auto nd = t.nice_decomp(); EQ(nd.has_value(), ok); if (!nd) return; auto& N = *nd; int k = N.size(); if (n == 0) { EQ(k, 0); return; } EQ(N[0].par, -1);
    check(k, [&](int i) { return N[i].bag; }, [&](int i) { auto a = N[i].ch; if (N[i].par >= 0) a.push_back(N[i].par); return a; }); for (int i = 0; i < k; ++i) { for (int c : N[i].ch) EQ(N[c].par, i); if (N[i].ch.size() == 2) { for (int c : N[i].ch) EQV(N[c].bag, N[i].bag); } else if (N[i].ch.size() == 1) { std::vector<int> s; std::set_symmetric_difference(N[i].bag.begin(), N[i].bag.end(), N[N[i].ch[0]].bag.begin(), N[N[i].ch[0]].bag.end(), std::back_inserter(s)); EQ((int)s.size(), 1); } else { EQ((int)N[i].ch.size(), 0); EQ((int)N[i].bag.size(), 1); } } TreeDecompositionTW2::assert_nice(N, 0);
    NiceDecompTree nt = rng.coin() ? NiceDecompTree(N) : simple_adj ? NiceDecompTree(adj) : NiceDecompTree(n, e); EQ(nt.size(), k); auto types = nt.get_node_types(); for (int i = 0; i < nt.size(); ++i) { auto& x = nt[i]; NodeType w = x.ch.empty() ? NodeType::LEAF : x.ch.size() == 2 ? NodeType::JOIN : x.bag.size() > nt[x.ch[0]].bag.size() ? NodeType::INTRODUCE : NodeType::FORGET; REQUIRE(types[i] == w && nt.get_node_type(i) == w); }
    // count independent sets by DP over the decomposition, compare with brute force
    using M = std::map<std::set<int>, i64>; auto indep = [&](const std::set<int>& s, int v) { for (int x : s) if (g[v].count(x)) return false; return true; };
    M r = nt.run_dp<M>([&](const DecompNodeRooted& nd2, int v) -> M { EQV(nd2.bag, std::vector<int>{ v }); M m; m[{}] = 1; m[{ v }] = 1; return m; },
        [&](const DecompNodeRooted& a, const DecompNodeRooted& c, const M& cm, int v) -> M { REQUIRE(std::count(a.bag.begin(), a.bag.end(), v) == 1 && std::count(c.bag.begin(), c.bag.end(), v) == 0 && a.bag.size() == c.bag.size() + 1, "wrong introduced vertex"); M m = cm; for (auto& [s, x] : cm) if (indep(s, v)) { auto s2 = s; s2.insert(v); m[s2] += x; } return m; },
        [&](const DecompNodeRooted& a, const DecompNodeRooted& c, const M& cm, int v) -> M { REQUIRE(std::count(a.bag.begin(), a.bag.end(), v) == 0 && std::count(c.bag.begin(), c.bag.end(), v) == 1 && a.bag.size() + 1 == c.bag.size(), "wrong forgotten vertex"); M m; for (auto& [s, x] : cm) { auto s2 = s; s2.erase(v); m[s2] += x; } return m; },
        [&](const DecompNodeRooted& a, const DecompNodeRooted& c1, const M& m1, const DecompNodeRooted& c2, const M& m2) -> M { EQV(a.bag, c1.bag); EQV(a.bag, c2.bag); M m; for (auto& [s, x] : m1) { auto it = m2.find(s); if (it != m2.end()) m[s] = x * it->second; } return m; });
    i64 tot = 0; for (auto& [s, x] : r) tot += x; i64 w = 0; std::vector<int> am(n); for (int i = 0; i < n; ++i) for (int j : g[i]) am[i] |= 1 << j; for (int s = 0; s < (1 << n); ++s) { bool f = true; for (int i = 0; i < n && f; ++i) if (s >> i & 1) f = !(am[i] & s); w += f; } EQ(tot, w);
}
// the same workloads at realistic sizes
RESCALE(bipartite_coloring, 4, 512);
RESCALE(eulerian, 4, 512);
RESCALE(two_edge_connected, 4, 32);
RESCALE(low_link, 4, 32);
RESCALE(biconnected, 4, 32);
RESCALE(scc_tournament, 4, 32);
