// Connectivity structure of graphs with more than 2^16 vertices whose blocks, bridges and trails are known by construction.
// MON: shards=3
#include "mon.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <iostream>
#include <map>
#include <numeric>
#include <set>
#include <unordered_set>
#include <functional>
#include "library/graph/low_link.hpp"
#include "library/graph/two_edge_connected_components.hpp"
#include "library/graph/biconnected_components.hpp"
#include "library/graph/block_cut_forest.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
#include "library/graph/scc_tournament.hpp"
#include "library/graph/directed_eulerian_graph.hpp"
#include "library/graph/undirected_eulerian_graph.hpp"
#include "library/graph/tree_decomposition_tw2.hpp"
#include "library/graph/tree_decomposition_tw2_dp.hpp"
using namespace suisen; using mon::Rng; using PI = std::pair<int, int>;
static int bn(Rng& rng) { return (int)(rng.coin() ? 65536 + rng.in(0, 5) : rng.in(66000, 90000)); }
struct Uf { std::vector<int> p; Uf(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int f(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } void m(int a, int b) { p[f(a)] = f(b); } };
// a forest of blocks: K2, double edge, cycle, K4; blk[i] = block of edge i
struct Blk { int n; std::vector<PI> e; std::vector<int> blk; int nb = 0, comps = 0; std::vector<int> in_blocks; };
static Blk blocks(Rng& rng, int n, int st) {
    Blk b; b.n = n; std::vector<std::tuple<int, int, int>> ed; int used = 0; auto add = [&](int u, int v) { ed.emplace_back(u, v, b.nb); };
    while (used < n) {
        if (used == 0 || rng.pct(st == 3 ? 10 : 1)) { ++used, ++b.comps; continue; }
        int at = st == 0 ? used - 1 : st == 1 ? (int)rng.in(0, used - 1) : (int)rng.in(0, std::min(used - 1, 3)), left = n - used; switch (rng.in(0, st == 0 ? 11 : 3)) { case 1: if (left >= 1) { add(at, used); add(used, at); ++used; } break; case 2: { int L = (int)std::min<i64>(left, rng.in(0, 20000) == 0 ? rng.in(2, 70000) : rng.in(2, 6)); if (L < 2) { add(at, used++); break; } add(at, used); for (int i = 1; i < L; ++i) add(used + i - 1, used + i); add(used + L - 1, at); used += L; break; } case 3: if (left >= 3) { int v[4] = { at, used, used + 1, used + 2 }; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) add(v[i], v[j]); used += 3; break; } add(at, used++); break; default: add(at, used++); } ++b.nb;
    }
    auto p = rng.perm(n); rng.shuffle(ed); for (auto [u, v, k] : ed) { u = p[u], v = p[v]; if (rng.coin()) std::swap(u, v); b.e.emplace_back(u, v); b.blk.push_back(k); } std::vector<std::vector<int>> vb(n); for (size_t i = 0; i < b.e.size(); ++i) vb[b.e[i].first].push_back(b.blk[i]), vb[b.e[i].second].push_back(b.blk[i]); for (auto& x : vb) { std::sort(x.begin(), x.end()); b.in_blocks.push_back((int)(std::unique(x.begin(), x.end()) - x.begin())); } return b;
}
template <class L> void low(L& l, const Blk& b) {
    int n = b.n, m = b.e.size(); std::vector<int> sz(b.nb); for (int k : b.blk) ++sz[k]; EQ(l.vertex_num(), n); EQ(l.edge_num(), m); EQ(l.connected_component_num(), b.comps); std::vector<int> br, ap; for (int i = 0; i < m; ++i) { bool x = sz[b.blk[i]] == 1; if (x) br.push_back(i); EQ(l.is_bridge(b.e[i].first, b.e[i].second), x); EQ(l.connected_component_num_if_removed(b.e[i].first, b.e[i].second), b.comps + x); } auto g = l.bridge_ids(); std::sort(g.begin(), g.end()); EQV(g, br);
    i64 w = 0; for (int v = 0; v < n; ++v) { int k = b.in_blocks[v]; if (k > 1) ap.push_back(v); int d = (int)l.LowLink::operator[](v).size(); if ((w += d) > 20000000) continue; EQ(l.connected_component_num_if_removed(v), b.comps - 1 + k); EQ(l.is_articulation_point(v), k > 1); } auto a = l.articulation_points(); std::sort(a.begin(), a.end()); EQV(a, ap); std::vector<char> pre(n); for (int v = 0; v < n; ++v) { int p = l.pre_order(v); REQUIRE(0 <= p && p < n && !pre[p]++, "pre_order is not a permutation"); }
}
template <class X> void same_partition(int n, X a, const std::vector<int>& b, int na) { std::vector<int> m(na, -1), r(n, -1); for (int i = 0; i < n; ++i) { int x = a(i); REQUIRE(0 <= x && x < na); if (m[x] < 0) { m[x] = b[i]; EQ(r[b[i]], -1); r[b[i]] = x; } EQ(m[x], b[i]); } }
SCENARIO(big_low_link, 4) {
    int st = (int)rng.in(0, 3); auto b = blocks(rng, bn(rng), st); LOG("n", b.n, "m", b.e.size(), "style", st); TwoEdgeConnectedComponents t(b.n, b.e); low(t, b); std::vector<int> sz(b.nb); for (int k : b.blk) ++sz[k]; Uf u(b.n); int cn = b.comps; for (size_t i = 0; i < b.e.size(); ++i) if (sz[b.blk[i]] > 1) u.m(b.e[i].first, b.e[i].second); else ++cn; std::vector<int> c(b.n); for (int i = 0; i < b.n; ++i) c[i] = u.f(i); EQ(t.component_num(), cn); same_partition(b.n, [&](int i) { return t[i]; }, c, cn); auto g = t.groups(); EQ((int)g.size(), cn); i64 tot = 0; for (int i = 0; i < cn; ++i) for (int v : g[i]) { EQ(t[v], i); ++tot; } EQ(tot, (i64)b.n);
    auto f = t.reduced_forest(); std::vector<std::tuple<int, int, int>> got, want; for (int i = 0; i < (int)f.size(); ++i) for (auto [j, id] : f[i]) got.emplace_back(i, j, id); for (int i = 0; i < (int)b.e.size(); ++i) if (sz[b.blk[i]] == 1) { auto [x, y] = b.e[i]; want.emplace_back(t[x], t[y], i); want.emplace_back(t[y], t[x], i); } std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); REQUIRE(got == want, "reduced forest differs from the bridges");
}
SCENARIO(big_biconnected, 4) {
    int st = (int)rng.in(0, 3); auto b = blocks(rng, st == 1 ? (int)rng.in(150000, 200000) : bn(rng), st); int n = b.n, m = b.e.size(); LOG("n", n, "m", m, "style", st); BiconnectedComponents t(n); size_t cut = (size_t)rng.in(0, m); for (int i = 0; i < m; ++i) { EQ(t.add_edge(b.e[i].first, b.e[i].second), i); if ((size_t)i == cut) t.build(); } t.build(); low(t, b); EQ(t.edge_component_num(), b.nb); same_partition(m, [&](int i) { return t[i]; }, b.blk, b.nb); int iso = (int)std::count(b.in_blocks.begin(), b.in_blocks.end(), 0); EQ(t.isolated_vertex_num(), iso); EQ(t.component_num(), b.nb + iso); auto cs = t.components(); EQ((int)cs.size(), b.nb + iso); i64 es = 0, vs = 0, wv = iso; for (int k : b.in_blocks) wv += k; for (int c = 0; c < (int)cs.size(); ++c) { es += cs[c].edge_num(); vs += cs[c].vertex_num(); for (int e : cs[c].eids) EQ(t[e], c); auto v = cs[c].vids; std::sort(v.begin(), v.end()); REQUIRE(std::adjacent_find(v.begin(), v.end()) == v.end(), "vertex listed twice"); } EQ(es, (i64)m); EQ(vs, wv);
    BlockCutForest f(t); auto ap = t.articulation_points(); int B = t.component_num(); EQ(f.size(), B + (int)ap.size()); for (int i = 0; i < f.size(); ++i) { EQ(f.is_articulation_point(i), i >= B); EQ(f.is_isolated_vertex(i), i >= b.nb && i < B); } for (int c = 0; c < B; ++c) { EQ(f.vertex_num(c), cs[c].vertex_num()); int k = 0; for (int v : cs[c].vids) if (b.in_blocks[v] > 1) ++k; else EQ(f.component_id(v), c); EQ((int)f[c].size(), k); } for (int a = B; a < f.size(); ++a) { EQ(f.vertex_num(a), 1); EQ((int)f[a].size(), b.in_blocks[ap[a - B]]); std::set<int> s; for (int c : f[a]) { REQUIRE(s.insert(c).second && c < B); } } std::vector<std::vector<int>> h(B); for (int a = B; a < f.size(); ++a) for (int c : f[a]) h[c].push_back(a); for (int c = 0; c < B; ++c) { auto x = f[c]; std::sort(x.begin(), x.end()); std::vector<int> w; for (int v : cs[c].vids) if (b.in_blocks[v] > 1) w.push_back(v); REQUIRE(x == h[c], "forest adjacency not symmetric"); std::vector<int> y; for (int a : x) y.push_back(ap[a - B]); std::sort(y.begin(), y.end()); std::sort(w.begin(), w.end()); EQV(y, w); }
}
SCENARIO(big_bipartite_coloring, 6) {
    int st = (int)rng.in(0, 5), n = bn(rng); std::vector<int> col(n); for (auto& x : col) x = (int)rng.coin(); std::vector<PI> e; auto p = rng.perm(n); if (st < 2) { for (int i = 0; i + 1 < n; ++i) e.emplace_back(p[i], p[i + 1]); for (int i = 0; i < n; ++i) col[p[i]] = i & 1; for (int i = 0; i < n; ++i) { i64 a = rng.in(0, n - 1), b = rng.in(0, n - 1); if ((a + b) & 1) e.emplace_back(p[a], p[b]); } if (st == 1) e.emplace_back(p[0], p[(n - 1) / 2 * 2]); } else if (st < 4) { for (int i = 0; i < 2 * n; ++i) { int a = (int)rng.in(0, n - 1), b = (int)rng.in(0, n - 1); if (col[a] != col[b]) e.emplace_back(a, b); } if (st == 3) { int a = (int)rng.in(0, n - 3); e.emplace_back(p[a], p[a + 1]); e.emplace_back(p[a + 1], p[a + 2]); e.emplace_back(p[a + 2], p[a]); } } else { for (int i = 1; i < n; ++i) e.emplace_back(p[0], p[i]); if (st == 5) e.emplace_back(p[n - 1], p[n - 2]); }
    std::vector<std::vector<int>> g(n); for (auto [u, v] : e) g[u].push_back(v), g[v].push_back(u); bool ok = st % 2 == 0; LOG("n", n, "style", st); int c0 = rng.pct(30) ? 0 : (int)rng.in(INT_MIN, INT_MAX), c1 = c0 ? rng.pct(30) ? (c0 < 0 ? INT_MIN : INT_MAX) : (int)rng.in(INT_MIN, INT_MAX) : 1; if (c1 == c0) c1 ^= 1; auto r = bipartite_coloring(g, c0, c1); EQ(r.has_value(), ok); if (!r) return; EQ((int)r->size(), n); i64 bad = 0; for (int x : *r) bad += x != c0 && x != c1; for (auto [u, v] : e) bad += (*r)[u] == (*r)[v]; EQ(bad, (i64)0);
}
// tournaments made of known strong components: a component of odd size k is a regular rotation tournament, of even size k>=4 a rotation tournament with one dominated-but-returning vertex
SCENARIO(big_scc_tournament, 4) {
    int st = (int)rng.in(0, 3), n = bn(rng); std::vector<int> deg, id; int c = 0; while ((int)deg.size() < n) { int left = n - (int)deg.size(), k = st == 0 ? 1 : st == 1 ? (int)rng.in(1, 9) : st == 2 ? (rng.pct(50) ? 1 : (int)rng.in(3, 30000)) : (left % 2 ? left : left - 1); k = std::min(k, left); if (k % 2 == 0) --k; int base = (int)deg.size(); for (int i = 0; i < k; ++i) deg.push_back(base + (k - 1) / 2), id.push_back(c); ++c; }
    auto p = rng.perm(n); std::vector<int> in(n); for (int i = 0; i < n; ++i) in[p[i]] = deg[i]; auto s = scc_tournament(in); EQ((int)s.size(), c); std::vector<int> got(n, -1); for (int i = 0; i < (int)s.size(); ++i) for (int v : s[i]) { EQ(got[v], -1); got[v] = i; } for (int i = 0; i < n; ++i) EQ(got[p[i]], id[i]);
}
template <bool dir, class G> void big_euler(Rng& rng, int st, bool closed) {
    int n = st == 1 ? (int)rng.in(2, 5) : bn(rng), m = st == 1 ? (int)rng.in(66000, 90000) : st == 2 ? n + 10 : (int)rng.in(70000, 100000); G g(n); std::vector<PI> e; auto push = [&](int u, int v) { e.emplace_back(u, v); g.add_edge(u, v); }; auto p = rng.perm(n); bool early = st == 3 && !closed; int u = (int)rng.in(0, n - 2), s = u; if (early) push(s, n - 1); for (int i = 0; i < m; ++i) { int v = st == 2 ? p[i % n] : (int)rng.in(0, n - 1 - early); push(u, v); u = v; } if (closed) push(u, s); else if (early) push(u, s), u = n - 1; else while (u == s || (st == 1 && !dir && u == s)) { int v = (int)rng.in(0, n - 1); push(u, v); u = v; } if (st == 3) { int k = (int)rng.in(2, 6); while (k--) { int a = (int)rng.in(1, (i64)e.size() - 1); push(e[a].first, e[a].first); } } m = (int)e.size(); LOG("dir", dir, "n", n, "m", m, "closed", closed);
    std::vector<int> out(n), in(n); for (auto [a, b] : e) ++out[a], ++in[b]; bool bal = true; for (int i = 0; i < n; ++i) bal = bal && (dir ? out[i] == in[i] : (out[i] + in[i]) % 2 == 0);
    auto norm = [](PI x) { return !dir && x.first > x.second ? PI(x.second, x.first) : x; }; std::vector<PI> pool; for (auto x : e) pool.push_back(norm(x)); std::sort(pool.begin(), pool.end()); auto valid = [&](const std::vector<int>& w) { EQ((int)w.size(), m + 1); std::vector<PI> x; for (int i = 0; i < m; ++i) x.push_back(norm({ w[i], w[i + 1] })); std::sort(x.begin(), x.end()); REQUIRE(x == pool, "the walk does not use every edge exactly once"); };
    for (int rep = 0; rep < 3; ++rep) { if (rep == 0) { auto r = g.eulerian_circuit(); EQ(r.has_value(), bal); if (r) { valid(*r); EQ(r->front(), r->back()); } } else if (rep == 1) { auto r = g.eulerian_trail(); EQ(r.has_value(), true); if (r) valid(*r); } else if (bal) { auto r = g.eulerian_circuit(s); REQUIRE(r.has_value()); valid(*r); EQ(r->front(), s); EQ(r->back(), s); REQUIRE(!g.eulerian_trail(true).has_value()); } else { auto r = g.eulerian_trail(true); REQUIRE(r.has_value()); valid(*r); std::set<int> ends{ r->front(), r->back() }; EQ(ends.size(), (size_t)2); if (dir) { EQ(r->front(), s); EQ(r->back(), u); } else for (int x : ends) EQ((out[x] + in[x]) % 2, 1); } }
    i64 tot = 0; for (int i = 0; i < n; ++i) tot += (i64)g[i].size(); EQ(tot, (i64)m * (dir ? 1 : 2)); if constexpr (!dir) for (int t = 0; t < 200; ++t) { int i = (int)rng.in(0, n - 1); if (g[i].empty()) continue; int j = (int)rng.in(0, (i64)g[i].size() - 1); auto [v, k] = g.rev_edge(i, j); EQ(v, g[i][j]); EQ(g.rev_edge(v, k), PI(i, j)); }
}
SCENARIO(big_eulerian, 16) { int k = (int)rng.in(0, 15); bool cl = k >> 1 & 1; if (k & 1) big_euler<true, DirectedEulerianGraph>(rng, k / 4, cl); else big_euler<false, UndirectedEulerianGraph>(rng, k / 4, cl); }
// partial 2-trees: width, connectedness of every vertex's bags, every edge in a bag; proper 3-colourings counted over the decomposition
SCENARIO(big_tree_decomposition, 6) {
    int st = (int)rng.in(0, 5), n = bn(rng); const i64 P = 998244353; i64 cols = 1; std::vector<PI> ed; for (int i = 0; i < n; ++i) { if (i == 0 || rng.in(0, 3000) == 0) { cols = cols * 3 % P; continue; } auto leaf = [&](int a) { ed.emplace_back(a, i); cols = cols * 2 % P; }; auto tri = [&](PI q) { ed.emplace_back(q.first, i); ed.emplace_back(q.second, i); }; if (ed.empty()) { leaf(i - 1); continue; } if (st == 0) tri(ed[ed.size() - 1]); else if (st == 1) { if (rng.coin()) tri(rng.pick(ed)); else leaf((int)rng.in(0, i - 1)); } else if (st == 2) leaf(0); else if (st == 3) tri(ed[0]); else if (st == 4) leaf(i - 1); else if (rng.pct(80)) tri(ed[ed.size() - 1 - rng.in(0, std::min<i64>(5, (i64)ed.size() - 1))]); else leaf((int)rng.in(0, i - 1)); }
    auto p = rng.perm(n); for (auto& [u, v] : ed) { u = p[u], v = p[v]; if (rng.coin()) std::swap(u, v); } rng.shuffle(ed); auto e2 = ed; for (int i = 0; i < 100; ++i) e2.push_back(rng.pick(ed)); LOG("n", n, "m", ed.size(), "style", st); TreeDecompositionTW2 t(n, e2);
    auto key = [&](int a, int b) { if (a > b) std::swap(a, b); return (u64)a * n + b; };
    auto audit = [&](int k, auto bag, auto edges) { std::unordered_set<u64> prs; std::vector<int> cnt(n); for (int i = 0; i < k; ++i) { const std::vector<int>& b = bag(i); REQUIRE(b.size() <= 3 && std::is_sorted(b.begin(), b.end()) && std::adjacent_find(b.begin(), b.end()) == b.end(), "bad bag"); for (size_t x = 0; x < b.size(); ++x) { ++cnt[b[x]]; for (size_t y = 0; y < x; ++y) prs.insert(key(b[y], b[x])); } } std::vector<PI> te = edges(); EQ((int)te.size(), k - 1); Uf u(k); for (auto [i, j] : te) { REQUIRE(u.f(i) != u.f(j), "decomposition has a cycle"); u.m(i, j); for (int x : bag(i)) if (std::count(bag(j).begin(), bag(j).end(), x)) --cnt[x]; } for (int v = 0; v < n; ++v) EQ(cnt[v], 1); i64 miss = 0; for (auto [a, b] : ed) miss += !prs.count(key(a, b)); EQ(miss, (i64)0); };
    auto d = t.decomp(); EQ(d.has_value(), true); EQ((int)d->size(), n); audit(n, [&](int i) -> const std::vector<int>& { return (*d)[i].bag; }, [&] { std::vector<PI> r; for (int i = 0; i < n; ++i) for (int j : (*d)[i].adj) if (i < j) r.emplace_back(i, j); return r; });
    auto nd = t.nice_decomp(); EQ(nd.has_value(), true); auto& N = *nd; EQ(N[0].par, -1); audit((int)N.size(), [&](int i) -> const std::vector<int>& { return N[i].bag; }, [&] { std::vector<PI> r; for (int i = 0; i < (int)N.size(); ++i) for (int j : N[i].ch) { EQ(N[j].par, i); r.emplace_back(i, j); } return r; }); for (auto& x : N) { if (x.ch.size() == 2) { for (int c : x.ch) EQV(N[c].bag, x.bag); } else if (x.ch.size() == 1) { auto& y = N[x.ch[0]].bag; int dif = (int)x.bag.size() + (int)y.size(); for (int a : x.bag) if (std::count(y.begin(), y.end(), a)) dif -= 2; EQ(dif, 1); } else { EQ(x.ch.size(), (size_t)0); EQ(x.bag.size(), (size_t)1); } }
    std::unordered_set<u64> adj; for (auto [a, b] : ed) adj.insert(key(a, b)); NiceDecompTree nt(std::move(N)); using A = std::array<unsigned, 27>; static const int pw[4] = { 1, 3, 9, 27 };
    auto ins = [&](const std::vector<int>& big, int v, int s, int c) { int pos = (int)(std::find(big.begin(), big.end(), v) - big.begin()); return s % pw[pos] + c * pw[pos] + s / pw[pos] * pw[pos] * 3; };
    A r = nt.run_dp<A>([&](const DecompNodeRooted&, int) { A a{}; a[0] = a[1] = a[2] = 1; return a; }, [&](const DecompNodeRooted& x, const DecompNodeRooted& y, const A& c, int v) { A a{}; for (int s = 0; s < pw[y.bag.size()]; ++s) for (int k = 0; k < 3; ++k) { bool ok = true; for (size_t i = 0; i < y.bag.size(); ++i) if (s / pw[i] % 3 == k && adj.count(key(y.bag[i], v))) ok = false; if (ok) a[ins(x.bag, v, s, k)] = c[s]; } return a; }, [&](const DecompNodeRooted& x, const DecompNodeRooted& y, const A& c, int v) { A a{}; for (int s = 0; s < pw[x.bag.size()]; ++s) { u64 z = 0; for (int k = 0; k < 3; ++k) z += c[ins(y.bag, v, s, k)]; a[s] = (unsigned)(z % P); } return a; }, [&](const DecompNodeRooted& x, const DecompNodeRooted&, const A& c, const DecompNodeRooted&, const A& f) { A a{}; for (int s = 0; s < pw[x.bag.size()]; ++s) a[s] = (unsigned)((u64)c[s] * f[s] % P); return a; });
    u64 tot = 0; for (int s = 0; s < pw[nt[0].bag.size()]; ++s) tot += r[s]; EQ((i64)(tot % P), cols);
    // one K4 somewhere makes the width 3
    { auto e3 = ed; int a[4]; std::set<int> q; while (q.size() < 4) q.insert((int)rng.in(0, n - 1)); std::copy(q.begin(), q.end(), a); for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) e3.emplace_back(a[i], a[j]); TreeDecompositionTW2 z(n, e3); REQUIRE(!z.decomp().has_value(), "a graph containing K4 was decomposed with width 2"); }
}
