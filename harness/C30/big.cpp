// Rooted-tree structures on trees with more than 2^16 vertices, against binary lifting and group-valued path products.
// MON: shards=3
#include "mon.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/auxiliary_tree.hpp"
#include "library/tree/centroid_decomposition.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/tree/frequency_table_of_tree_distance.hpp"
#include "library/tree/get_path.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
#include <unordered_map>
using namespace suisen; using mon::Rng; using PI = std::pair<int, int>; using VV = std::vector<std::vector<int>>;
static int bn(Rng& rng) { return (int)(rng.coin() ? 65536 + rng.in(0, 5) : rng.in(66000, 90000)); }
static std::vector<PI> shape(Rng& rng, int n, int st, bool relabel = true) { // parent arrays of many silhouettes
    std::vector<PI> e; int h = n / 2; auto p = rng.perm(n); if (!relabel) for (int i = 0; i < n; ++i) p[i] = i;
    for (int i = 1; i < n; ++i) { int q; switch (st) { case 0: q = i - 1; break; case 1: q = 0; break; case 2: q = i <= h ? i - 1 : i - h - 1; break; case 3: q = (int)rng.in(0, i - 1); break; case 4: q = (i - 1) / 2; break; case 5: q = (int)rng.in(std::max(0, i - 30), i - 1); break; case 6: q = i < h ? i - 1 : h - 1; break; case 8: q = i == n / 3 * 2 ? n / 3 - 1 : i - 1; break; case 9: q = i < h ? 0 : i == h ? 0 : h + (i - h - 1) / 2; break; case 10: q = i < h ? 0 : i == h ? 0 : i - 1; break; default: q = i % 256 == 1 ? 0 : i - 1; } e.emplace_back(p[q], p[i]); }
    if (relabel) rng.shuffle(e); return e;
}
static VV adj(int n, const std::vector<PI>& e, Rng& rng) { VV g(n); for (auto [a, b] : e) { if (rng.coin()) std::swap(a, b); g[a].push_back(b), g[b].push_back(a); } return g; }
struct Lift { int n, lg = 1; std::vector<int> par, dep, ord, siz, pre; VV up;
    Lift(const VV& g, const std::vector<int>& roots) : n(g.size()), par(n, -1), dep(n, -1), siz(n, 1), pre(n) { std::vector<int> st; for (int i = (int)roots.size(); i--;) if (1) st.push_back(roots[i]); for (int r : roots) dep[r] = 0; while (st.size()) { int u = st.back(); st.pop_back(); pre[u] = (int)ord.size(); ord.push_back(u); for (int v : g[u]) if (v != par[u]) par[v] = u, dep[v] = dep[u] + 1, st.push_back(v); } for (int i = n; i--;) if (par[ord[i]] >= 0) siz[par[ord[i]]] += siz[ord[i]]; while ((1 << lg) < n) ++lg; up.assign(lg + 1, par); for (int k = 0; k < lg; ++k) for (int i = 0; i < n; ++i) up[k + 1][i] = up[k][i] < 0 ? -1 : up[k][up[k][i]]; }
    int la(int u, i64 k) const { if (k < 0 || k > dep[u]) return -1; for (int b = 0; k >> b; ++b) if (k >> b & 1) u = up[b][u]; return u; }
    int lca(int u, int v) const { if (dep[u] < dep[v]) std::swap(u, v); u = la(u, dep[u] - dep[v]); if (u == v) return u; for (int b = lg; b >= 0; --b) if (up[b][u] != up[b][v]) u = up[b][u], v = up[b][v]; return par[u] < 0 ? -1 : par[u]; }
    int vtx(Rng& rng) const { switch (rng.in(0, 5)) { case 0: return ord[0]; case 1: return ord[n - 1]; case 2: return ord[rng.in(std::max(0, n - 5), n - 1)]; default: return (int)rng.in(0, n - 1); } }
};
SCENARIO(big_lca_la_euler, 9) {
    int st = (int)rng.in(0, 8), n = st == 8 ? (int)rng.in(200000, 210000) : bn(rng); auto g = adj(n, shape(rng, n, st), rng); int r = (int)rng.in(0, n - 1); Lift m(g, { r }); LOG("n", n, "style", st, "root", r); LowestCommonAncestor L(g, r); LevelAncestor A(g, r); EulerTour E(g, r);
    for (int t = 0; t < 20000; ++t) { int u = m.vtx(rng), v = m.vtx(rng), w = m.lca(u, v), d = m.dep[u] + m.dep[v] - 2 * m.dep[w]; EQ(L.lca(u, v), w); EQ(L.dist(u, v), d); EQ(E.lca(u, v), w); EQ(E.dist(u, v), d); i64 k = rng(-1, m.dep[u] + 1); EQ(A.query(u, (int)k), m.la(u, k)); }
    std::vector<char> ts(2 * n); for (int u = 0; u < n; ++u) { EQ(E.depth(u), m.dep[u]); EQ(A.get_depth(u), m.dep[u]); EQ(E.parent(u), m.par[u]); EQ(E.leave_time(u) - E.visit_time(u), 2 * m.siz[u] - 1); REQUIRE(!ts[E.visit_time(u)]++ && !ts[E.leave_time(u)]++); int t = A.get_visit_time(u); EQ(A.get_visit_time_inv(t), u); EQ(A.get_kth_visited(t), u); if (m.par[u] >= 0) { int p = m.par[u]; REQUIRE(E.visit_time(p) < E.visit_time(u) && E.leave_time(u) < E.leave_time(p)); int tp = A.get_visit_time(p); REQUIRE(tp < t && t < tp + m.siz[p]); } }
    for (int t = 0; t < 3; ++t) { int u = m.vtx(rng), v = m.vtx(rng), w = m.lca(u, v); std::vector<int> a, b; for (int x = u; x != w; x = m.par[x]) a.push_back(x); a.push_back(w); for (int x = v; x != w; x = m.par[x]) b.push_back(x); a.insert(a.end(), b.rbegin(), b.rend()); EQV(get_tree_path(g, u, v), a); }
}
constexpr u64 MD = 998244353; static u64 pw(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = a * a % MD) if (e & 1) r = r * a % MD; return r; }
struct Aff { u64 a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } friend std::ostream& operator<<(std::ostream& s, const Aff& x) { return s << x.a << "x+" << x.b; } };
static Aff mul(Aff f, Aff g) { return { f.a * g.a % MD, (g.a * f.b + g.b) % MD }; } static Aff inv(Aff f) { u64 i = pw(f.a, MD - 2); return { i, (MD - f.b) * i % MD }; }
SCENARIO(big_hld, 9) {
    int st = (int)rng.in(0, 8), n = st == 8 ? (int)rng.in(200000, 210000) : bn(rng); auto e = shape(rng, n, st); int cut = (int)rng.pick(std::vector<int>{ 0, 0, 1, 3 }); if (cut) for (int i = 0; i < cut; ++i) e.erase(e.begin() + rng.in(0, (i64)e.size() - 1)); auto g = adj(n, e, rng); std::vector<int> cand = rng.perm(n), roots; std::vector<char> vis(n); bool dflt = rng.coin(); if (dflt) for (int i = 0; i < n; ++i) cand[i] = i; for (int x : cand) if (!vis[x]) { roots.push_back(x); std::vector<int> q{ x }; vis[x] = 1; while (q.size()) { int u = q.back(); q.pop_back(); for (int v : g[u]) if (!vis[v]) vis[v] = 1, q.push_back(v); } }
    Lift m(g, roots); auto h = g; HeavyLightDecomposition H = dflt ? HeavyLightDecomposition(h) : HeavyLightDecomposition(h, roots); LOG("n", n, "style", st, "roots", roots.size(), "default", dflt); auto gr = H.get_roots(); std::sort(roots.begin(), roots.end()); EQV(gr, roots); EQ(H.size(), n); std::vector<int> rt(n); for (int u : m.ord) rt[u] = m.par[u] < 0 ? u : rt[m.par[u]];
    auto ids = H.inv_ids(); std::vector<Aff> f(n), P(n + 1), Q(n + 1), D(n), U(n); for (auto& x : f) x = { (u64)rng.in(1, MD - 1), (u64)rng.in(0, MD - 1) }; for (int u = 0; u < n; ++u) { int t = H.get_visit_time(u); REQUIRE(t >= 0 && t < n); EQ(ids[t], u); EQ(H.get_kth_visited(t), u); EQ(H.get_subtree_size(u), m.siz[u]); EQ(H.get_leave_time(u), t + m.siz[u]); EQ(H.get_parent(u), m.par[u]); EQ(H.get_depth(u), m.dep[u]); if (m.par[u] >= 0) { int tp = H.get_visit_time(m.par[u]); REQUIRE(tp < t && t + m.siz[u] <= tp + m.siz[m.par[u]]); } int hd = H.get_head(u); EQ(m.la(u, m.dep[u] - m.dep[hd]), hd); EQ(t - H.get_visit_time(hd), m.dep[u] - m.dep[hd]); P[t] = f[u]; }
    std::vector<Aff> pos(P.begin(), P.end() - 1); P[0] = {}; for (int i = 0; i < n; ++i) P[i + 1] = mul(P[i], pos[i]), Q[i + 1] = mul(pos[i], Q[i]); for (int u : m.ord) D[u] = m.par[u] < 0 ? f[u] : mul(D[m.par[u]], f[u]), U[u] = m.par[u] < 0 ? f[u] : mul(f[u], U[m.par[u]]);
    int lim = 0; while ((1 << lim) < n) ++lim; std::vector<i64> num(n), S(n + 1), rs(n); for (auto& x : num) x = rng.in(-1000000000, 1000000000); for (int i = 0; i < n; ++i) S[i + 1] = S[i] + num[ids[i]]; for (int u : m.ord) rs[u] = num[u] + (m.par[u] < 0 ? 0 : rs[m.par[u]]);
    int segs = 0; auto fq = [&](int l, int r) { REQUIRE(0 <= l && l <= r && r <= n); ++segs; return mul(inv(P[l]), P[r]); }; auto fqr = [&](int l, int r) { REQUIRE(0 <= l && l <= r && r <= n); ++segs; return mul(Q[r], inv(Q[l])); };
    for (int t = 0; t < 4000; ++t) { int u = m.vtx(rng), v = m.vtx(rng); i64 k = rng(-1, m.dep[u] + 1); EQ(H.la(u, (int)k, -7), m.la(u, k) < 0 ? -7 : m.la(u, k)); bool ed = rng.coin(); EQ(H.fold_subtree<i64>(u, [&](int l, int r) -> i64 { return S[r] - S[l]; }, ed), S[H.get_visit_time(u) + m.siz[u]] - S[H.get_visit_time(u) + ed]); if (rt[u] != rt[v]) continue; int w = m.lca(u, v), d = m.dep[u] + m.dep[v] - 2 * m.dep[w]; EQ(H.lca(u, v), w); EQ(H.dist(u, v), d); i64 j = rng(-1, d + 1); EQ(H.jump(u, v, (int)j, -9), j < 0 || j > d ? -9 : j <= m.dep[u] - m.dep[w] ? m.la(u, j) : m.la(v, d - j));
        segs = 0; Aff want = mul(mul(mul(U[u], inv(U[w])), ed ? Aff{} : f[w]), mul(inv(D[w]), D[v])); EQ(H.fold_path_noncommutative(u, v, Aff{}, mul, fq, fqr, ed), want); REQUIRE(segs <= 2 * lim + 2, "too many heavy-path segments", segs); i64 sw = rs[u] + rs[v] - 2 * rs[w] + (ed ? 0 : num[w]); EQ(H.fold_path(u, v, i64(0), [](i64 a, i64 b) { return a + b; }, [&](int l, int r) -> i64 { return S[r] - S[l]; }, ed), sw); i64 us = 0; H.update_path(u, v, [&](int l, int r) { us += S[r] - S[l]; }, ed); EQ(us, sw); }
}
SCENARIO(big_auxiliary_tree, 8) {
    int st = (int)rng.in(0, 7), n = bn(rng); auto g = adj(n, shape(rng, n, st), rng); Lift m(g, { 0 }); auto h = g; HeavyLightDecomposition H(h); AuxiliaryTree T(H); LOG("n", n, "style", st); std::vector<int> last;
    for (int t = 0; t < 5; ++t) { int k = t == 0 ? n : rng.coin() ? (int)rng.in(1, n) : (int)rng.in(1, 300); auto p = rng.perm(n); std::vector<int> vs(p.begin(), p.begin() + k); if (t == 1) for (int i = 0; i < k; ++i) vs[i] = m.ord[n - 1 - i]; T.build(vs); auto s = vs; auto by = [&](int a, int b) { return m.pre[a] < m.pre[b]; }; std::sort(s.begin(), s.end(), by); for (int i = k - 1; i > 0; --i) s.push_back(m.lca(s[i], s[i - 1])); std::sort(s.begin(), s.end(), by); s.erase(std::unique(s.begin(), s.end()), s.end()); std::vector<PI> want, got; std::vector<int> stk; for (int x : s) { while (stk.size() && m.pre[x] >= m.pre[stk.back()] + m.siz[stk.back()]) stk.pop_back(); if (stk.size()) want.emplace_back(x, stk.back()), want.emplace_back(stk.back(), x); stk.push_back(x); } for (int u = 0; u < n; ++u) for (int v : T[u]) got.emplace_back(u, v); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); EQ(got.size(), want.size()); REQUIRE(got == want, "auxiliary tree edges differ"); mon::observe(got.size()); }
}
template <class C> static void dct(const C& c, int n, const std::vector<PI>& e) {
    std::vector<int> ord(n), siz(n, 1), seen(n); int roots = 0; for (int i = 0; i < n; ++i) ord[i] = i; for (int i = 0; i < n; ++i) REQUIRE(c.dct_depth(i) >= 0 && c.dct_depth(i) < 20, "decomposition too deep", c.dct_depth(i)); std::sort(ord.begin(), ord.end(), [&](int a, int b) { return c.dct_depth(a) > c.dct_depth(b); }); for (int v : ord) { int p = c.dct_parent(v); if (c.dct_depth(v) == 0) { ++roots; EQ(p, -1); } else { REQUIRE(p >= 0 && p < n); EQ(c.dct_depth(p), c.dct_depth(v) - 1); siz[p] += siz[v]; } } EQ(roots, 1); for (int v = 0; v < n; ++v) { EQ(c.dct_size(v), siz[v]); if (c.dct_parent(v) >= 0) REQUIRE(2 * siz[v] <= siz[c.dct_parent(v)], "component larger than half", v); } for (auto [u, v] : e) { if (c.dct_depth(u) < c.dct_depth(v)) std::swap(u, v); int x = u; while (c.dct_depth(x) > c.dct_depth(v) + 1) x = c.dct_parent(x); REQUIRE(c.dct_depth(u) > c.dct_depth(v)); EQ(c.dct_parent(x), v); EQ(seen[x]++, 0); }
}
SCENARIO(big_centroid, 8) {
    int st = (int)rng.in(0, 7), n = bn(rng); auto e = shape(rng, n, st); auto g = adj(n, e, rng); Lift m(g, { 0 }); LOG("n", n, "style", st); std::vector<int> mx(n); for (int u : m.ord) { mx[u] = std::max(mx[u], n - m.siz[u]); if (m.par[u] >= 0) mx[m.par[u]] = std::max(mx[m.par[u]], m.siz[u]); } std::vector<int> want; for (int u = 0; u < n; ++u) if (2 * mx[u] <= n) want.push_back(u); auto cs = find_centroids(g); std::sort(cs.begin(), cs.end()); EQV(cs, want);
    CentroidDecompositionUnweighted c(UnweightedGraph::create_undirected_graph(n, e)); dct(c, n, e); std::vector<std::tuple<int, int, i64>> we; for (auto [u, v] : e) we.emplace_back(u, v, rng.in(-1000000000000LL, 1000000000000LL)); std::vector<i64> ds(n); { std::map<PI, i64> wt; for (auto [u, v, w] : we) wt[{ u, v }] = wt[{ v, u }] = w; for (int u : m.ord) if (m.par[u] >= 0) ds[u] = ds[m.par[u]] + wt[{ u, m.par[u] }]; } CentroidDecompositionWeighted<i64> cw(WeightedGraph<i64>::create_undirected_graph(n, we)); dct(cw, n, e);
    auto rep = [&](const auto& cc, int v, int a) { while (cc.dct_depth(v) > cc.dct_depth(a)) v = cc.dct_parent(v); return v == a; };
    for (int t = 0; t < 6; ++t) { int r = (int)rng.in(0, n - 1), d = t == 0 ? 0 : (int)rng.in(0, 3); { int x = r; while (c.dct_depth(x) > d) x = c.dct_parent(x); auto res = c.collect(x, 1000000); std::vector<PI> all; for (size_t i = 1; i < res.size(); ++i) for (auto p : res[i]) all.push_back(p); EQ((int)res[0].size(), c.dct_size(x)); EQ((int)all.size() + 1, c.dct_size(x)); REQUIRE((res[0][0] == PI{ x, 1000000 })); REQUIRE(std::equal(all.begin(), all.end(), res[0].begin() + 1)); for (auto [v, w] : res[0]) { REQUIRE(rep(c, v, x)); EQ(w - 1000000, m.dep[v] + m.dep[x] - 2 * m.dep[m.lca(v, x)]); } }
        { int x = r; while (cw.dct_depth(x) > d) x = cw.dct_parent(x); auto res = cw.collect(x, [](i64 a, i64 b) { return a + b; }, i64(5)); EQ((int)res[0].size(), cw.dct_size(x)); size_t tot = 1; for (size_t i = 1; i < res.size(); ++i) tot += res[i].size(); EQ((int)tot, cw.dct_size(x)); for (auto [v, w] : res[0]) { REQUIRE(rep(cw, v, x)); EQ(w - 5, ds[v] + ds[x] - 2 * ds[m.lca(v, x)]); } } }
}
SCENARIO(big_distance_table, 6) {
    int st = (int)rng.in(0, 5), n = st == 5 ? (int)rng.in(31590, 31605) : bn(rng), kind = st == 0 ? 0 : st == 1 ? 1 : st == 2 ? 3 : st == 3 ? 6 : st == 4 ? 4 : 1; auto e = shape(rng, n, kind); for (auto& [u, v] : e) if (rng.coin()) std::swap(u, v); LOG("n", n, "kind", kind); auto got = frequency_table_of_tree_distance(n, e); std::vector<long long> w(n); EQ((int)got.size(), n); if (kind == 0) for (int k = 1; k < n; ++k) w[k] = n - k; else if (kind == 6) { int h = n / 2, K = n - h; for (int k = 1; k < h; ++k) w[k] += h - k; for (int k = 1; k <= h; ++k) w[k] += K; w[2] += (i64)K * (K - 1) / 2; }
    else { auto g = adj(n, e, rng); int r = kind == 1 ? 0 : e[0].first; for (int i = 0; i < n; ++i) if (g[i].size() > g[r].size()) r = i; Lift m(g, { r }); std::vector<std::vector<i64>> c(n, std::vector<i64>{ 1 }); for (int i = n - 1; i > 0; --i) { int v = m.ord[i], p = m.par[v]; auto &A = c[p], &B = c[v]; for (size_t a = 0; a < A.size(); ++a) for (size_t b = 0; b < B.size(); ++b) w[a + b + 1] += A[a] * B[b]; if (A.size() < B.size() + 1) A.resize(B.size() + 1); for (size_t b = 0; b < B.size(); ++b) A[b + 1] += B[b]; B = {}; } }
    got[0] = w[0] = 0; EQV(got, w);
}
static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; x ^= x >> 31; return x * (x | 1) ^ (x >> 29); }
static void same(const std::vector<std::pair<u64, int>>& v) { std::unordered_map<u64, int> a; std::unordered_map<int, u64> b; for (auto [h, i] : v) { auto x = a.emplace(h, i); REQUIRE(x.first->second == i, "isomorphic subtrees in different classes"); auto y = b.emplace(i, h); REQUIRE(y.first->second == h, "different subtrees in one class"); } EQ(a.size(), b.size()); mon::observe(v.size()); }
template <class Hd> static void iso(Rng& rng, int st, bool rer) {
    int n = bn(rng); if (st > 8) n += n & 1; auto e = shape(rng, n, st, false); if (rng.coin() && st != 1 && st < 9) for (int i = 0; i < 3; ++i) { int k = (int)rng.in(n - 50, n - 2); e[k].first = (int)rng.in(0, k); } auto p = rng.perm(n); if (st > 8 && rng.coin()) for (auto& [a, b] : e) a = n - 1 - a, b = n - 1 - b; std::vector<PI> e2; bool tw = st > 8 ? false : rng.coin(); for (auto [a, b] : e) e2.emplace_back(p[a], p[b]); if (tw) { int k = n - 2; int q = (int)rng.in(0, n - 2); e2[k].first = p[q]; } rng.shuffle(e2); auto g1 = adj(n, e, rng), g2 = adj(n, e2, rng); LOG("n", n, "style", st, "tweaked", tw);
    auto hs = [&](const VV& g, const Lift& m, std::vector<u64>& full) { std::vector<u64> dn(n), tot(n, 1); for (int i = n; i--;) { int u = m.ord[i]; dn[u] = mix(tot[u]); if (m.par[u] >= 0) tot[m.par[u]] += dn[u]; } full = tot; for (int u : m.ord) if (m.par[u] >= 0) full[u] += mix(full[m.par[u]] - dn[u]); for (auto& x : full) x = mix(x); return dn; };
    int r1 = (int)rng.in(0, n - 1), r2 = rng.coin() ? p[r1] : (int)rng.in(0, n - 1); Lift m1(g1, { r1 }), m2(g2, { r2 }); std::vector<u64> f1, f2; auto d1 = hs(g1, m1, f1), d2 = hs(g2, m2, f2); RootedTreeClassifier<Hd> C; auto i1 = C.classify_subtrees(g1, r1), i2 = C.classify_subtrees(g2, r2); std::vector<std::pair<u64, int>> all; for (int i = 0; i < n; ++i) all.emplace_back(d1[i], i1[i]), all.emplace_back(d2[i], i2[i]); if (rer) { auto a = C.classify_rerooting(g1), b = C.classify_rerooting(g2); for (int i = 0; i < n; ++i) all.emplace_back(f1[i], a[i]), all.emplace_back(f2[i], b[i]); } same(all); EQ(C.is_isomorphic_rooted(g1, r1, g2, r2), d1[r1] == d2[r2]);
    auto s1 = f1, s2 = f2; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); auto r = C.is_isomorphic(g1, g2); EQ(r.has_value(), s1 == s2); if (r) EQ(f1[r->first], f2[r->second]);
}
SCENARIO(big_isomorphism, 24) { int st = (int)rng.in(0, 23); if (st > 11) { if (st < 18) iso<IDHandlerZobrist<2>>(rng, 9 + st % 2, true); else iso<IDHandlerNaive>(rng, 9 + st % 2, false); } else if (st < 4) iso<IDHandlerNaive>(rng, st == 0 ? 0 : st == 1 ? 3 : st == 2 ? 4 : 7, st != 3); else if (st < 8) iso<IDHandlerZobrist<2>>(rng, st - 4, true); else iso<IDHandlerZobrist<1>>(rng, st - 4, true); }
