// MON: shards=2
#include "mon.hpp"
#include <algorithm>
#include <cassert>
#include <iostream>
#include <map>
#include <set>
#include <memory>
#include <tuple>
#include "library/graph/csr_graph.hpp"
#include "library/graph/cycle_detection.hpp"
using namespace suisen; using mon::Rng;
using PI = std::pair<int, int>;
template <class W> struct Ops; template <> struct Ops<void> { using E = PI; static E mk(Rng&, int u, int v) { return { u, v }; } static PI key(int e) { return { e, 1 }; } static int mke(Rng&, int v) { return v; } };
template <> struct Ops<int> { using E = std::tuple<int, int, int>; static E mk(Rng& r, int u, int v) { return { u, v, (int)r(0, 3) }; } template <class X> static PI key(const X& e) { return { e.first, e.second }; } static Graph<int>::edge_type mke(Rng& r, int v) { return Graph<int>::edge_type(v, (int)r(0, 3)); } };
static PI ekey(PI e) { return { e.second, 1 }; } static PI ekey(std::tuple<int, int, int> e) { return { std::get<1>(e), std::get<2>(e) }; } static PI rkey(PI e) { return { e.first, 1 }; } static PI rkey(std::tuple<int, int, int> e) { return { std::get<0>(e), std::get<2>(e) }; }
template <class W> void csr(Rng& rng) {
    using O = Ops<W>; using G = Graph<W>; int n = rng.size(1, 12), m = rng.size(0, 30); bool und = rng.coin(); std::vector<typename O::E> es; for (int i = 0; i < m; ++i) es.push_back(O::mk(rng, rng(0, n - 1), rng(0, n - 1)));
    std::vector<std::vector<PI>> md(n); for (auto& e : es) { md[std::get<0>(e)].push_back(ekey(e)); if (und) md[std::get<1>(e)].push_back(rkey(e)); }
    auto make = [&]() -> G { switch (rng(0, 4)) { case 0: return und ? G::create_undirected_graph(n, es) : G::create_directed_graph(n, es); case 1: return und ? G(n, es, undirected_graph_tag{}) : G(n, es, directed_graph_tag{}); case 2: { if (und) { UndirectedGraphBuilder<W> b(n); b.add_edges(es); if (rng.coin()) (void)b.build_without_move(); return b.build(); } DirectedGraphBuilder<W> b(n); for (auto& e : es) { if (rng.coin()) b.add_edge(e); else b.emplace_edge(e); } return b.build(); } case 3: return und ? UndirectedGraphBuilder<W>::build(n, es) : DirectedGraphBuilder<W>::build(n, es); default: { std::vector<std::vector<typename G::edge_type>> g(n); for (auto& e : es) { auto add = [&](int u, PI k) { if constexpr (std::is_void_v<W>) g[u].push_back(k.first); else g[u].emplace_back(k.first, k.second); }; add(std::get<0>(e), ekey(e)); if (und) add(std::get<1>(e), rkey(e)); } return G(g); } } };
    // graphs are copied, moved and their sources destroyed before use
    auto src = std::make_unique<G>(make()); G g; switch (rng(0, 3)) { case 0: g = *src; src.reset(); break; case 1: g = std::move(*src); src.reset(); break; case 2: { G t(*src); src.reset(); g = std::move(t); break; } default: g = *src; for (int i = 0; i < n; ++i) (*src)[i].clear(); }
    auto audit = [&](const G& h) { EQ(h.size(), n); for (int i = 0; i < n; ++i) { const auto& a = h[i]; EQ(a.size(), (int)md[i].size()); EQ(a.empty(), md[i].empty()); std::vector<PI> v; for (const auto& e : a) v.push_back({ (int)e, (int)G::get_weight(e) }); EQV(v, md[i]); int k = 0; for (auto it = a.cbegin(); it != a.cend(); ++it, ++k) { EQ((int)*it, md[i][k].first); EQ((int)a[k], md[i][k].first); EQ((int)a.at(k), md[i][k].first); EQ((int)a.data()[k], md[i][k].first); } k = (int)md[i].size() - 1; for (auto it = a.rbegin(); it != a.rend(); ++it, --k) EQ((int)*it, md[i][k].first); EQ(k, -1); k = (int)md[i].size() - 1; for (auto it = a.crbegin(); it != a.crend(); ++it, --k) EQ((int)*it, md[i][k].first); if (a.size()) { EQ((int)a.front(), md[i].front().first); EQ((int)a.back(), md[i].back().first); } } };
    bool early = rng.coin(); if (!early) audit(g);
    auto dfs_check = [&](const G& h) {
        int st = rng(0, n - 1); auto t = h.dfs_tree(st); EQ((int)t.par.size(), n); EQ((int)t.pre_ord.size(), n); EQ((int)t.pst_ord.size(), n); EQ(t.pre_ord[0], st); EQ(t.par[st], -1); std::vector<int> pre(n, -1), pst(n, -1); for (int i = 0; i < n; ++i) { EQ(pre[t.pre_ord[i]], -1); pre[t.pre_ord[i]] = i; EQ(pst[t.pst_ord[i]], -1); pst[t.pst_ord[i]] = i; }
        auto anc = [&](int a, int b) { return pre[a] <= pre[b] && pst[a] >= pst[b]; }; int roots = 0, te = 0, be = 0;
        for (int v = 0; v < n; ++v) { int p = t.par[v]; if (p < 0) { EQ(p, -1); ++roots; continue; } REQUIRE(p != v && anc(p, v), "parent is not an ancestor"); bool has = false; for (auto k : md[p]) has |= k.first == v; REQUIRE(has, "tree edge missing in graph"); }
        for (int u = 0; u < n; ++u) { for (auto& e : std::as_const(t.tree)[u]) { ++te; EQ(t.par[(int)e], u); REQUIRE(std::count(md[u].begin(), md[u].end(), PI((int)e, (int)G::get_weight(e))), "tree edge with a wrong weight"); } for (auto& e : std::as_const(t.back)[u]) { ++be; REQUIRE(anc((int)e, u), "back edge does not go to an ancestor"); REQUIRE(std::count(md[u].begin(), md[u].end(), PI((int)e, (int)G::get_weight(e))), "back edge missing"); } }
        EQ(te, n - roots); // DFS property: no edge from u to a vertex discovered after u finished
        for (int u = 0; u < n; ++u) for (auto k : md[u]) REQUIRE(anc(u, k.first) || anc(k.first, u) || (!und && pre[k.first] < pre[u]), "not a depth-first tree");
        if (und) { int loops = 0; for (auto& e : es) loops += std::get<0>(e) == std::get<1>(e); int back_expected = (int)es.size() - loops - te; REQUIRE(be == back_expected + loops || be == back_expected + 2 * loops || be == back_expected, "number of back edges", be, back_expected); }
    };
    if (early) dfs_check(g); if (rng.coin()) { g.shrink_to_fit(); audit(g); }
    audit(g); if (rng.coin()) dfs_check(g);
    { auto r = g.reversed(); std::vector<std::multiset<PI>> w(n); for (int u = 0; u < n; ++u) for (auto k : md[u]) w[k.first].insert({ u, k.second }); for (int u = 0; u < n; ++u) { std::multiset<PI> got; for (auto& e : std::as_const(r)[u]) got.insert({ (int)e, (int)G::get_weight(e) }); REQUIRE(got == w[u], "reversed graph differs at", u); } }
    // mutation within capacity
    for (int t = 0; t < 20; ++t) { int u = rng(0, n - 1); auto& a = g[u]; auto& x = md[u]; int cap = a.capacity(), sz = x.size(); REQUIRE(cap >= sz); auto ne = [&] { return O::mke(rng, rng(0, n - 1)); }; auto ky = [&](const typename G::edge_type& e) { return PI((int)e, (int)G::get_weight(e)); };
        switch (rng(0, 9)) { case 0: if (sz) { a.pop_back(); x.pop_back(); } break; case 1: if (sz) { int k = rng(0, sz - 1); a.erase(a.cbegin() + k); x.erase(x.begin() + k); } break; case 2: { int l = rng(0, sz), r = rng(l, sz); a.erase(a.cbegin() + l, a.cbegin() + r); x.erase(x.begin() + l, x.begin() + r); break; } case 3: if (rng.pct(20)) { a.clear(); x.clear(); } break; case 4: if (sz < cap) { auto e = ne(); a.push_back(e); x.push_back(ky(e)); } break; case 5: if (sz < cap) { auto e = ne(); if constexpr (std::is_void_v<W>) a.emplace_back((int)e); else a.emplace_back(e.first, e.second); x.push_back(ky(e)); } break;
        case 6: if (sz < cap) { int k = rng(0, sz); auto e = ne(); a.insert(a.cbegin() + k, e); x.insert(x.begin() + k, ky(e)); } break; case 7: { int num = rng(0, cap - sz), k = rng(0, sz); auto e = ne(); a.insert(a.cbegin() + k, num, e); x.insert(x.begin() + k, num, ky(e)); break; } case 8: { int num = rng(0, cap - sz), k = rng(0, sz); std::vector<typename G::edge_type> v; std::vector<PI> y; for (int i = 0; i < num; ++i) { v.push_back(ne()); y.push_back(ky(v.back())); } a.insert(a.cbegin() + k, v.begin(), v.end()); x.insert(x.begin() + k, y.begin(), y.end()); break; } default: if (sz) { int k = rng(0, sz - 1); auto e = ne(); (rng.coin() ? a[k] : a.at(k)) = e; x[k] = ky(e); } } if (rng.pct(10)) { g.shrink_to_fit(); } if (rng.pct(10)) { G h = g; g = std::move(h); } audit(g); }
}
SCENARIO(csr_graph, 800) { if (rng.coin()) csr<void>(rng); else csr<int>(rng); }
template <class W> void cyc(Rng& rng) {
    using O = Ops<W>; int n = rng.size(1, 14), m = rng.upto(0, rng.coin() ? n : 2 * n); std::vector<typename O::E> es; bool tree = rng.coin(); auto p = rng.perm(n); for (int i = 0; i < m; ++i) { int u = rng(0, n - 1), v = rng.pct(5) ? u : rng(0, n - 1); if (u == v && rng.pct(90)) continue; es.push_back(O::mk(rng, u, v)); } if (tree) { es.clear(); for (int i = 1; i < n; ++i) if (rng.pct(90)) { int a = p[i], b = p[rng(0, i - 1)]; es.push_back(O::mk(rng, a, b)); } if (n > 1 && rng.coin()) { auto e = es.empty() ? O::mk(rng, 0, n - 1) : rng.coin() ? rng.pick(es) : O::mk(rng, rng(0, n - 1), rng(0, n - 1)); es.push_back(e); } }
    for (int dir = 0; dir < 2; ++dir) { auto g = dir ? Graph<W>::create_directed_graph(n, es) : Graph<W>::create_undirected_graph(n, es); if (rng.coin()) for (int u = 0; u < n; ++u) for (int i = g[u].size() - 1; i > 0; --i) std::swap(g[u][i], g[u][rng(0, i)]); auto r = dir ? get_cycle_directed(g) : get_cycle_undirected(g); bool has;
        if (!dir) { std::vector<int> q(n); std::iota(q.begin(), q.end(), 0); auto f = [&](int x) { while (q[x] != x) x = q[x]; return x; }; has = false; for (auto& e : es) { int a = f(std::get<0>(e)), b = f(std::get<1>(e)); if (a == b) has = true; q[a] = b; } } else { std::vector<std::vector<char>> R(n, std::vector<char>(n)); for (auto& e : es) R[std::get<0>(e)][std::get<1>(e)] = 1; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) R[i][j] |= R[i][k] & R[k][j]; has = false; for (int i = 0; i < n; ++i) has |= R[i][i]; }
        EQ(r.has_value(), has); if (!r) continue; auto& c = *r; int k = c.size(); REQUIRE(k >= 1); std::set<int> vs; std::multiset<std::tuple<int, int, int>> pool; for (auto& e : es) { int u = std::get<0>(e), v = std::get<1>(e); if (!dir && u > v) std::swap(u, v); pool.insert({ u, v, ekey(e).second }); }
        for (int i = 0; i < k; ++i) { int u = (int)c[(i + k - 1) % k], v = (int)c[i]; REQUIRE(vs.insert(v).second, "vertex repeated on cycle"); if (!dir && u > v) std::swap(u, v); auto it = pool.find({ u, v, (int)Graph<W>::get_weight(c[i]) }); REQUIRE(it != pool.end(), "cycle uses a missing edge or reuses one"); pool.erase(it); } }
}
SCENARIO(cycle_detection, 1000) { if (rng.coin()) cyc<void>(rng); else cyc<int>(rng); }
// the same workloads at realistic sizes
RESCALE(csr_graph, 4, 512);
RESCALE(cycle_detection, 4, 32);
