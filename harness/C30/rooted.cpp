// C30: rooted-tree queries: LCA, level ancestor, Euler tour, HLD, auxiliary tree, centroids, isomorphism
#include "mon.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/auxiliary_tree.hpp"
#include "library/tree/centroid_decomposition.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/tree/frequency_table_of_tree_distance.hpp"
#include "library/tree/get_path.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
using namespace mon; using namespace suisen;
using VV = std::vector<std::vector<int>>;
struct M { // parent/depth model
    int n; VV g; std::vector<int> par, dep, root, ord;
    M(const VV& g, const std::vector<int>& roots) : n(g.size()), g(g), par(n, -1), dep(n, -1), root(n, -1) { for (int r : roots) { if (dep[r] >= 0) continue; dep[r] = 0; root[r] = r; std::vector<int> q{ r }; for (size_t i = 0; i < q.size(); ++i) { int u = q[i]; ord.push_back(u); for (int v : g[u]) if (v != par[u]) par[v] = u, dep[v] = dep[u] + 1, root[v] = r, q.push_back(v); } } }
    int lca(int u, int v) const { while (u != v) { if (dep[u] < dep[v]) std::swap(u, v); u = par[u]; } return u; }
    int la(int u, int k) const { while (u >= 0 && k > 0) u = par[u], --k; return k < 0 ? -1 : u; }
    std::vector<int> path(int u, int v) const { int w = lca(u, v); std::vector<int> a, b; for (; u != w; u = par[u]) a.push_back(u); a.push_back(w); for (; v != w; v = par[v]) b.push_back(v); a.insert(a.end(), b.rbegin(), b.rend()); return a; }
    bool anc(int a, int v) const { while (v >= 0) { if (v == a) return true; v = par[v]; } return false; }
    std::vector<int> sub(int r) const { std::vector<int> s; for (int v = 0; v < n; ++v) if (anc(r, v)) s.push_back(v); return s; }
};
static VV forest(Rng& rng, int n) { VV g(n); auto e = rng.tree(n); int cut = rng.pick(std::vector<int>{ 0, 0, 10, 40 }); for (auto [a, b] : e) if (!rng.pct(cut)) g[a].push_back(b), g[b].push_back(a); for (auto& v : g) rng.shuffle(v); return g; }
SCENARIO(lca_la_euler, 500) {
    int n = rng.size(1, 40), r = rng(0, n - 1); auto g = rng.tree_adj(n); for (auto& v : g) rng.shuffle(v); M m(g, { r }); LOG(r, g);
    LowestCommonAncestor L(g, r); LevelAncestor A(g, r); EulerTour E = [&] { int k = rng(0, 2); if (k == 0) return EulerTour(g, r); if (k == 1) { std::vector<std::vector<std::pair<int, int>>> h(n); for (int i = 0; i < n; ++i) for (int j : g[i]) h[i].emplace_back(7, j); return EulerTour(h, [](const std::pair<int, int>& e) { return e.second; }, r); } return EulerTour([&](int u, auto f) { for (int v : g[u]) f(v); }, n, r); }();
    for (int t = 0; t < 150; ++t) { int u = rng(0, n - 1), v = rng(0, n - 1); int w = m.lca(u, v), d = m.dep[u] + m.dep[v] - 2 * m.dep[w]; EQ(L.lca(u, v), w); EQ(L(u, v), w); EQ(L.dist(u, v), d); EQ(E.lca(u, v), w); EQ(E.dist(u, v), d); int k = rng(-1, m.dep[u] + 2); EQ(A.query(u, k), m.la(u, k)); EQ(A(u, k), m.la(u, k)); EQV(get_tree_path(g, u, v), m.path(u, v)); }
    std::set<int> ts; std::vector<std::pair<int, int>> iv; for (int u = 0; u < n; ++u) { EQ(E.depth(u), m.dep[u]); EQ(A.get_depth(u), m.dep[u]); EQ(E.parent(u), m.par[u]); REQUIRE(ts.insert(E.visit_time(u)).second && ts.insert(E.leave_time(u)).second, "tour times clash"); REQUIRE(0 <= E.visit_time(u) && E.visit_time(u) < E.leave_time(u) && E.leave_time(u) < 2 * n); int t = A.get_visit_time(u); EQ(A.get_visit_time_inv(t), u); EQ(A.get_kth_visited(t), u); if (m.par[u] >= 0) { REQUIRE(E.visit_time(m.par[u]) < E.visit_time(u) && E.leave_time(u) < E.leave_time(m.par[u])); REQUIRE(A.get_visit_time(m.par[u]) < t); } }
    for (int t = 0; t < 40; ++t) { int u = rng(0, n - 1), v = rng(0, n - 1); EQ(E.visit_time(u) <= E.visit_time(v) && E.leave_time(v) <= E.leave_time(u), m.anc(u, v)); }
}
SCENARIO(hld, 700) {
    int n = rng.size(1, 40); auto g = forest(rng, n); auto h = g; M* pm; HeavyLightDecomposition H; std::vector<int> roots; LOG(g);
    if (rng.coin()) { auto p = rng.perm(n); std::vector<char> vis(n); for (int x : p) if (!vis[x]) { roots.push_back(x); std::vector<int> q{ x }; vis[x] = 1; while (q.size()) { int u = q.back(); q.pop_back(); for (int v : g[u]) if (!vis[v]) vis[v] = 1, q.push_back(v); } } H = HeavyLightDecomposition(h, roots); pm = new M(g, roots); }
    else { for (int i = 0; i < n; ++i) roots.push_back(i); H = HeavyLightDecomposition(h); pm = new M(g, roots); std::vector<int> r2; for (int i = 0; i < n; ++i) if (pm->par[i] < 0) r2.push_back(i); roots = r2; }
    std::unique_ptr<M> own(pm); const M& m = *pm; EQ(H.size(), n); auto gr = H.get_roots(); std::sort(roots.begin(), roots.end()); EQV(gr, roots);
    for (int i = 0; i < n; ++i) { auto a = g[i], b = h[i]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); EQV(a, b); }
    auto inv = H.inv_ids(); std::vector<std::string> val(n), pos(n); for (int i = 0; i < n; ++i) { val[i] = std::string(1, char('a' + rng(0, 25))) + std::to_string(i); }
    for (int u = 0; u < n; ++u) { int t = H.get_visit_time(u); REQUIRE(0 <= t && t < n); EQ(inv[t], u); EQ(H.get_kth_visited(t), u); pos[t] = val[u]; auto s = m.sub(u); EQ(H.get_subtree_size(u), (int)s.size()); EQ(H.get_leave_time(u) - t, (int)s.size()); for (int v : s) REQUIRE(t <= H.get_visit_time(v) && H.get_visit_time(v) < H.get_leave_time(u), "subtree not contiguous"); EQ(H.get_parent(u), m.par[u]); EQ(H.get_depth(u), m.dep[u]); int hd = H.get_head(u); REQUIRE(m.anc(hd, u)); EQ(H.get_visit_time(u) - H.get_visit_time(hd), m.dep[u] - m.dep[hd]); }
    auto fq = [&](int l, int r) { REQUIRE(0 <= l && l <= r && r <= n, "bad range", l, r); std::string s; for (int i = l; i < r; ++i) s += pos[i]; return s; }; auto fqr = [&](int l, int r) { REQUIRE(0 <= l && l <= r && r <= n); std::string s; for (int i = r - 1; i >= l; --i) s += pos[i]; return s; }; auto cat = [](std::string a, std::string b) { return a + b; };
    std::vector<i64> num(n), npos(n); for (int i = 0; i < n; ++i) num[i] = rng(-100, 100), npos[H.get_visit_time(i)] = num[i];
    for (int t = 0; t < 80; ++t) { int u = rng(0, n - 1), v = rng(0, n - 1); int k = rng(-1, m.dep[u] + 2); EQ(H.la(u, k), m.la(u, k)); EQ(H.la(u, k, 777), m.la(u, k) < 0 ? 777 : m.la(u, k)); EQ(H.get_point<std::string>(u, [&](int i) { return pos[i]; }), val[u]); H.update_point(u, [&](int i) { val[u] += "x"; pos[i] = val[u]; });
        bool ed = rng.coin(); { auto s = m.sub(u); std::multiset<std::string> a; std::string r; for (int x : s) if (!(ed && x == u)) a.insert(val[x]); std::multiset<std::string> b; H.update_subtree(u, [&](int l, int r) { REQUIRE(0 <= l && l <= r && r <= n); for (int i = l; i < r; ++i) b.insert(pos[i]); }, ed); REQUIRE(a == b, "update_subtree touches the wrong set"); i64 w = 0; for (int x : s) if (!(ed && x == u)) w += num[x]; EQ(H.fold_subtree<i64>(u, [&](int l, int r) -> i64 { i64 z = 0; for (int i = l; i < r; ++i) z += npos[i]; return z; }, ed), w); }
        if (m.root[u] != m.root[v]) continue; int w = m.lca(u, v); EQ(H.lca(u, v), w); auto p = m.path(u, v); EQ(H.dist(u, v), (int)p.size() - 1); int d = rng(-1, (int)p.size() + 1); int je = 0 <= d && d < (int)p.size() ? p[d] : -1; EQ(H.jump(u, v, d), je); EQ(H.jump(u, v, d, 555), je < 0 ? 555 : je);
        std::string want; std::multiset<std::string> ms; i64 sum = 0; for (int x : p) if (!(ed && x == w)) want += val[x], ms.insert(val[x]), sum += num[x]; EQ(H.fold_path_noncommutative(u, v, std::string(), cat, fq, fqr, ed), want); EQ(H.fold_path(u, v, i64(0), [](i64 a, i64 b) { return a + b; }, [&](int l, int r) -> i64 { REQUIRE(l <= r); i64 z = 0; for (int i = l; i < r; ++i) z += npos[i]; return z; }, ed), sum); std::multiset<std::string> b; H.update_path(u, v, [&](int l, int r) { REQUIRE(0 <= l && l <= r && r <= n); for (int i = l; i < r; ++i) b.insert(pos[i]); }, ed); REQUIRE(ms == b, "update_path touches the wrong set"); }
}
SCENARIO(hld_light_edges, 12) { // heavy paths: O(log n) path segments per query
    int n = rng.size(500, 3000); auto g = rng.tree_adj(n); HeavyLightDecomposition H(g); int lim = 0; while ((1 << lim) < n) ++lim; for (int t = 0; t < 300; ++t) { int c = 0; H.update_path(rng(0, n - 1), rng(0, n - 1), [&](int, int) { ++c; }); REQUIRE(c <= 2 * lim + 2, "too many heavy-path segments", c, lim); } M m(g, { 0 }); for (int t = 0; t < 300; ++t) { int u = rng(0, n - 1), v = rng(0, n - 1); EQ(H.lca(u, v), m.lca(u, v)); }
    LowestCommonAncestor L(g, 0); LevelAncestor A(g, 0); EulerTour E(g, 0); for (int t = 0; t < 300; ++t) { int u = rng(0, n - 1), v = rng(0, n - 1), w = m.lca(u, v), k = rng(0, m.dep[u]); EQ(L.lca(u, v), w); EQ(E.lca(u, v), w); EQ(A(u, k), m.la(u, k)); EQ(H.la(u, k), m.la(u, k)); }
}
SCENARIO(auxiliary_tree, 400) {
    int n = rng.size(1, 40); auto g = rng.tree_adj(n); HeavyLightDecomposition H(g); M m(g, { 0 }); AuxiliaryTree T(H); EQ(T.get_hld().size(), n); LOG(g);
    for (int t = 0; t < 8; ++t) { auto p = rng.perm(n); int k = rng(1, n); std::vector<int> vs(p.begin(), p.begin() + k); T.build(vs); std::set<int> S(vs.begin(), vs.end()); for (int a : vs) for (int b : vs) S.insert(m.lca(a, b)); std::set<std::pair<int, int>> want, got; for (int x : S) { int y = m.par[x]; while (y >= 0 && !S.count(y)) y = m.par[y]; if (y >= 0) want.insert({ x, y }), want.insert({ y, x }); } for (int u = 0; u < n; ++u) for (int v : T[u]) REQUIRE(got.insert({ u, v }).second, "duplicate edge"); REQUIRE(got == want, "auxiliary tree edges", vs, got, want); }
}
template <class C> static void dct(const C& c, const M& m) {
    int n = m.n; for (int v = 0; v < n; ++v) { std::vector<int> q{ v }; std::vector<char> vis(n); vis[v] = 1; for (size_t i = 0; i < q.size(); ++i) for (int w : m.g[q[i]]) if (!vis[w] && c.dct_depth(w) >= c.dct_depth(v)) { REQUIRE(c.dct_depth(w) > c.dct_depth(v), "two centroids of one depth in a component"); vis[w] = 1; q.push_back(w); } EQ(c.dct_size(v), (int)q.size());
        for (int w : m.g[v]) if (c.dct_depth(w) > c.dct_depth(v)) { std::vector<int> q2{ w }; std::vector<char> v2(n); v2[v] = v2[w] = 1; for (size_t i = 0; i < q2.size(); ++i) for (int x : m.g[q2[i]]) if (!v2[x] && c.dct_depth(x) > c.dct_depth(v)) v2[x] = 1, q2.push_back(x); REQUIRE(2 * q2.size() <= q.size(), "component larger than half"); int top = -1; for (int x : q2) if (c.dct_depth(x) == c.dct_depth(v) + 1) { REQUIRE(top < 0); top = x; } REQUIRE(top >= 0); EQ(c.dct_parent(top), v); } }
    int roots = 0; for (int v = 0; v < n; ++v) { if (c.dct_depth(v) == 0) ++roots, EQ(c.dct_parent(v), -1); } EQ(roots, 1);
}
SCENARIO(centroid_decomposition, 400) {
    int n = rng.size(1, 30); auto e = rng.tree(n); VV g(n); std::map<std::pair<int, int>, std::string> wt; std::vector<std::tuple<int, int, std::string>> we; for (auto [a, b] : e) { g[a].push_back(b), g[b].push_back(a); std::string w(1, char('a' + rng(0, 25))); wt[{ a, b }] = wt[{ b, a }] = w; we.emplace_back(a, b, w); } M m(g, { 0 }); LOG(e);
    CentroidDecompositionUnweighted C(UnweightedGraph::create_undirected_graph(n, e)); dct(C, m); CentroidDecompositionWeighted<std::string> W(WeightedGraph<std::string>::create_undirected_graph(n, we)); dct(W, m);
    for (int r = 0; r < n; ++r) { int base = rng(0, 5); auto d = C.collect(r, base); auto d2 = W.collect(r, [](std::string a, std::string b) { return a + b; }, std::string("<")); std::vector<int> comp{ r }; std::vector<char> vis(n); vis[r] = 1; for (size_t i = 0; i < comp.size(); ++i) for (int w : g[comp[i]]) if (!vis[w] && C.dct_depth(w) > C.dct_depth(r)) vis[w] = 1, comp.push_back(w);
        std::set<std::pair<int, int>> w0, g0(d[0].begin(), d[0].end()); for (int x : comp) w0.insert({ x, base + (int)m.path(r, x).size() - 1 }); REQUIRE(g0 == w0 && d[0].size() == comp.size(), "collect: distances"); size_t tot = 1; for (size_t k = 1; k < d.size(); ++k) { tot += d[k].size(); REQUIRE(d[k].size()); std::set<int> s; for (auto [x, y] : d[k]) { REQUIRE(w0.count({ x, y })); s.insert(x); auto p = m.path(r, x); REQUIRE(p.size() >= 2 && p[1] == m.path(r, d[k][0].first)[1], "collect: branch mix-up"); } EQ(s.size(), d[k].size()); } EQ(tot, comp.size());
        std::vector<int> comp2{ r }; std::vector<char> vis2(n); vis2[r] = 1; for (size_t i = 0; i < comp2.size(); ++i) for (int w : g[comp2[i]]) if (!vis2[w] && W.dct_depth(w) > W.dct_depth(r)) vis2[w] = 1, comp2.push_back(w); EQ(d2[0].size(), comp2.size()); for (auto& [x, s] : d2[0]) { auto p = m.path(r, x); std::string w = "<"; for (size_t i = 1; i < p.size(); ++i) w += wt[{ p[i - 1], p[i] }]; EQ(s, w); REQUIRE(vis2[x]); } std::map<int, std::string> all2(d2[0].begin(), d2[0].end()); EQ(all2.size(), comp2.size()); size_t tot2 = 1; for (size_t k = 1; k < d2.size(); ++k) { REQUIRE(d2[k].size(), "collect: empty branch"); tot2 += d2[k].size(); std::set<int> us; for (auto& [x, s] : d2[k]) { EQ(s, all2.at(x)); REQUIRE(us.insert(x).second); auto p = m.path(r, x); REQUIRE(p.size() >= 2 && p[1] == m.path(r, d2[k][0].first)[1], "collect: branch mix-up"); } } EQ(tot2, comp2.size()); }
    auto c = find_centroids(g); std::set<int> cs(c.begin(), c.end()), cw; EQ(cs.size(), c.size()); for (int v = 0; v < n; ++v) { bool ok = true; for (int w : g[v]) { M mm(g, { v }); if (2 * (int)mm.sub(w).size() > n) ok = false; } if (ok) cw.insert(v); } REQUIRE(cs == cw, "centroids", cs, cw);
}
SCENARIO(tree_distance_table, 250) {
    int n = rng.size(1, 60); auto e = rng.tree(n); VV g(n); for (auto [a, b] : e) g[a].push_back(b), g[b].push_back(a); M m(g, { 0 }); std::vector<i64> w(n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { int d = (int)m.path(i, j).size() - 1; w[d]++; } auto r = frequency_table_of_tree_distance(n, e); EQ((int)r.size(), n); for (int i = 1; i < n; ++i) EQ(r[i], w[i]);
}
SCENARIO(tree_distance_table_large, 2, 2) { // components beyond the single-modulus threshold
    int n = 50000, leaves = n - rng(2, 6); std::vector<std::pair<int, int>> e; int c = n - leaves; for (int i = 1; i < c; ++i) e.emplace_back(i - 1, i); int skew = rng.pct(80) ? rng(1, 3) : 0; for (int i = c; i < n; ++i) e.emplace_back(skew ? (rng.pct(skew == 1 ? 0 : skew) ? 1 : 0) : rng(0, 1), i); auto r = frequency_table_of_tree_distance(n, e); std::vector<i64> cnt(c); for (int i = 0; i < c; ++i) cnt[i] = 0; for (int k = c - 1; k < n - 1; ++k) cnt[e[k].first]++; std::vector<i64> w(n); for (int i = 0; i < c; ++i) for (int j = 0; j < c; ++j) { if (i < j) w[j - i]++, w[j - i + 2] += cnt[i] * cnt[j]; w[std::abs(i - j) + 1] += cnt[j]; } for (int i = 0; i < c; ++i) w[2] += cnt[i] * (cnt[i] - 1) / 2; for (int i = 1; i < n; ++i) EQ(r[i], w[i]);
}
static std::string canon(const VV& g, int u, int p) { std::vector<std::string> s; for (int v : g[u]) if (v != p) s.push_back(canon(g, v, u)); std::sort(s.begin(), s.end()); std::string r = "("; for (auto& x : s) r += x; return r + ")"; }
template <class ID> static void iso(Rng& rng) {
    RootedTreeClassifier<ID> C; std::map<std::string, int> seen; std::map<int, std::string> back; auto see = [&](int id, const std::string& s) { auto it = seen.find(s); if (it != seen.end()) EQ(id, it->second); else { REQUIRE(!back.count(id), "two different trees share an id", s, back[id]); seen[s] = id; back[id] = s; } };
    for (int t = 0; t < 6; ++t) { int n = rng.size(1, 12); auto g = rng.tree_adj(n); int r = rng(0, n - 1); LOG(r, g); int k = rng(0, 4); if (k == 0) { auto ids = C.classify_subtrees(g, r); M m(g, { r }); for (int v = 0; v < n; ++v) see(ids[v], canon(g, v, m.par[v])); } else if (k == 1) see(C.classify(g, r), canon(g, r, -1)); else if (k == 2) { auto ids = C.classify_rerooting(g); for (int v = 0; v < n; ++v) see(ids[v], canon(g, v, -1)); }
        else { VV h; if (rng.coin()) { auto p = rng.perm(n); h.resize(n); for (int i = 0; i < n; ++i) for (int j : g[i]) h[p[i]].push_back(p[j]); for (auto& v : h) rng.shuffle(v); } else h = rng.tree_adj(rng.pct(80) ? n : (int)rng.size(1, 12)); int r2 = rng(0, (int)h.size() - 1); if (k == 3) EQ(C.is_isomorphic_rooted(g, r, h, r2), canon(g, r, -1) == canon(h, r2, -1)); else { std::set<std::string> a, b; for (int v = 0; v < n; ++v) a.insert(canon(g, v, -1)); for (int v = 0; v < (int)h.size(); ++v) b.insert(canon(h, v, -1)); bool w = a == b; auto res = C.is_isomorphic(g, h); EQ(res.has_value(), w); if (res) { REQUIRE(0 <= res->first && res->first < n && 0 <= res->second && res->second < (int)h.size()); EQ(canon(g, res->first, -1), canon(h, res->second, -1)); } } } }
}
SCENARIO(isomorphism, 1500) { switch (rng(0, 2)) { case 0: iso<IDHandlerNaive>(rng); break; case 1: iso<IDHandlerZobrist<2>>(rng); break; default: iso<IDHandlerZobrist<1>>(rng); } }
// the same workloads at realistic sizes
RESCALE(lca_la_euler, 4, 512);
RESCALE(auxiliary_tree, 4, 16);
RESCALE(hld_light_edges, 4, 32);
RESCALE(centroid_decomposition, 4, 32);
RESCALE(isomorphism, 4, 32);
RESCALE(hld, 4, 32);
RESCALE(tree_distance_table, 4, 8);
