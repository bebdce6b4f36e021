#include "mon.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
#include "library/datastructure/union_find/merge_history_forest.hpp"
using namespace suisen; using mon::Rng;
struct Naive {
    int n; std::vector<int> c;
    explicit Naive(int n = 0) : n(n), c(n) { std::iota(c.begin(), c.end(), 0); }
    bool merge(int x, int y) { int a = c[x], b = c[y]; if (a == b) return false; for (auto& v : c) if (v == b) v = a; return true; }
    std::vector<std::vector<int>> groups() const { std::map<int, std::vector<int>> m; for (int i = 0; i < n; ++i) m[c[i]].push_back(i); std::vector<std::vector<int>> r; for (auto& [k, v] : m) r.push_back(v); std::sort(r.begin(), r.end()); return r; }
};
static std::vector<std::vector<int>> norm(std::vector<std::vector<int>> g) { for (auto& v : g) std::sort(v.begin(), v.end()); std::sort(g.begin(), g.end()); return g; }
SCENARIO(persistent_union_find_versions, 1200) {
    int n = rng.size(1, 60); PersistentUnionFind::init_pool(rng.mag > 1 ? 16000 * rng.mag : 4000);
    std::vector<PersistentUnionFind> vs{ PersistentUnionFind(n) }; std::vector<Naive> ms{ Naive(n) };
    for (int q = rng.size(1, 80); q--;) {
        int k = rng.pct(60) ? (int)vs.size() - 1 : (int)rng(0, vs.size() - 1); int x = rng(0, n - 1), y = rng(0, n - 1);
        LOG("version", k, "merge", x, y, "->", (int)vs.size());
        auto [nu, r] = vs[k].merge(x, y); Naive m = ms[k]; EQ(r, m.merge(x, y));
        vs.push_back(nu), ms.push_back(m);
        for (int t = 0; t < 3; ++t) {
            int j = rng(0, vs.size() - 1), a = rng(0, n - 1), b = rng(0, n - 1);
            LOG("query version", j, a, b);
            EQ(vs[j].same(a, b), ms[j].c[a] == ms[j].c[b]);
            EQ(vs[j].size(a), (int)std::count(ms[j].c.begin(), ms[j].c.end(), ms[j].c[a]));
        }
    }
    for (size_t j = 0; j < vs.size(); ++j) { EQ(norm(vs[j].groups()), ms[j].groups()); for (int i = 0; i < n; ++i) EQ(vs[j][i], vs[j].root(i)); auto dp = vs[j].dump(); EQ((int)dp.size(), n); for (int i = 0; i < n; ++i) { if (vs[j].root(i) == i) EQ(dp[i], -vs[j].size(i)); else { REQUIRE(dp[i] >= 0 && dp[i] < n && dp[i] != i, dp[i]); EQ(vs[j].root(dp[i]), vs[j].root(i)); } } }
}
SCENARIO(merge_history, 1200) {
    int n = rng.size(0, 50); MergeHistoryForest f(n); if (!n) { EQ(f.node_num(), 0); MergeHistoryForest g; EQ(g.leaf_num(), 0); return; }
    std::vector<Naive> at{ Naive(n) }; // partition after each call
    for (int q = rng.size(1, 40); q--;) {
        Naive m = at.back();
        if (rng.coin()) { int x = rng(0, n - 1), y = rng(0, n - 1); LOG("merge", x, y); if (rng.coin()) f.merge(x, y); else f.merge(std::pair{ x, y }); m.merge(x, y); }
        else { std::vector<std::pair<int, int>> es; for (int k = rng(0, 6); k--;) { int x = rng(0, n - 1), y = rng(0, n - 1); es.emplace_back(x, y); m.merge(x, y); } LOG("simultaneous", es); f.merge_simultaneously(es); }
        at.push_back(m);
        EQ(f.current_time(), (int)at.size() - 1);
    }
    int T = at.size() - 1;
    EQ(f.leaf_num(), n);
    EQ(norm(f.groups()), at.back().groups());
    for (int t = 0; t <= T; ++t) EQ(norm(f.groups(t)), at[t].groups());
    // forest shape
    int N = f.node_num(); std::vector<int> seen_child(N, 0);
    for (int v = 0; v < N; ++v) {
        EQ(f.is_forest_leaf(v), v < n);
        if (v < n) EQ((int)f.forest_children(v).size(), 0), EQ(f.created_time(v), 0);
        else { REQUIRE(f.forest_children(v).size() >= 1, v); for (int c : f.forest_children(v)) { EQ(f.forest_parent(c), v); seen_child[c]++; REQUIRE(f.created_time(c) <= f.created_time(v)); }
            int x = v; while (x >= n) x = f.forest_children(x)[0]; std::vector<int> lv, st{ v }; while (st.size()) { int y = st.back(); st.pop_back(); if (y < n) lv.push_back(y); else for (int c : f.forest_children(y)) st.push_back(c); } std::sort(lv.begin(), lv.end()); auto comp = [&](int t) { std::vector<int> r; for (int i = 0; i < n; ++i) if (at[t].c[i] == at[t].c[x]) r.push_back(i); return r; }; int t = 0; while (t <= T && comp(t) != lv) ++t; EQ(f.created_time(v), t); }
        EQ(f.forest_children(v), f.get_forest()[v]);
        EQ(f.is_forest_root(v), f.forest_parent(v) < 0);
    }
    for (int v = 0; v < N; ++v) EQ(seen_child[v], f.is_forest_root(v) ? 0 : 1);
    auto roots = f.forest_roots(); std::sort(roots.begin(), roots.end()); std::vector<int> er; for (int v = 0; v < N; ++v) if (f.is_forest_root(v)) er.push_back(v);
    EQV(roots, er);
    auto lca = [&](int u, int v) { std::set<int> s; for (int x = u; x >= 0; x = f.forest_parent(x)) s.insert(x); int x = v; while (!s.count(x)) x = f.forest_parent(x); return x; };
    for (int k = 0; k < 20; ++k) { int x = rng(0, n - 1), y = rng(0, n - 1), t = rng(0, T); EQ(f.same(x, y, t, lca), at[t].c[x] == at[t].c[y]); EQ(f.same(x, y), at[T].c[x] == at[T].c[y]);
        int r = x; while (f.forest_parent(r) >= 0) r = f.forest_parent(r); EQ(f.forest_root(x), r); }
}
// the same workloads at realistic sizes
RESCALE(persistent_union_find_versions, 4, 16);
RESCALE(merge_history, 4, 8);
