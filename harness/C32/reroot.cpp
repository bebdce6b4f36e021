// C32: rerooting DP and static top tree
#include "mon.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/static_top_tree.hpp"
using namespace mon; using namespace suisen;
using MS = std::multiset<std::string>;
static std::string ser(const MS& m) { std::string s = "("; for (auto& x : m) s += x; return s + ")"; }
struct Tr { int n; std::vector<std::pair<int, int>> e; std::vector<std::vector<std::pair<int, int>>> g; };
static Tr gen(Rng& rng, int n) { Tr t{ n, rng.tree(n), {} }; t.g.resize(n); for (int i = 0; i < (int)t.e.size(); ++i) { auto [a, b] = t.e[i]; t.g[a].emplace_back(b, i); t.g[b].emplace_back(a, i); } return t; }
// reference: the multiset of decorated child words; op = union (free commutative monoid), so nothing can be lost or repeated unseen
static MS uni(MS a, MS b) { a.insert(b.begin(), b.end()); return a; }
template <class V, class E> static MS ref(const Tr& t, int u, int p, V vw, E ew) { MS r; for (auto [v, id] : t.g[u]) if (v != p) { MS s = ref(t, v, u, vw, ew); r.insert("[" + vw(v) + ew(id) + ser(s) + "]"); } return r; }
SCENARIO(rerooting, 500) {
    int n = rng.size(1, 14); auto t = gen(rng, n); std::vector<int> vw = rng.vec<int>(n, 0, 3); std::vector<char> ew(t.e.size()); for (auto& c : ew) c = char('a' + rng(0, 2)); LOG(t.e); auto E0 = [] { return MS(); };
    auto v1 = [&](int v) { return std::to_string(vw[v]); }; auto e1 = [&](int id) { return std::string(1, ew[id]); }; auto no = [](int) { return std::string(); };
    switch (rng(0, 3)) {
    case 0: { Rerooting r(n); for (auto [a, b] : t.e) r.add_edge(a, b); auto d = r.run_dp(uni, E0, [](MS s) { return MS{ "[" + ser(s) + "]" }; }, [](MS s) { return MS{ "#" + ser(s) }; }); EQ((int)d.size(), n); for (int v = 0; v < n; ++v) EQ(ser(d[v]), ser(MS{ "#" + ser(ref(t, v, -1, no, no)) })); } break;
    case 1: { RerootingVertexWeighted<int> r; int k = rng(0, 2); if (k == 0) r = RerootingVertexWeighted<int>(vw); else if (k == 1) { r.reserve(n); for (int x : vw) r.add_vertex(x); } else { r = RerootingVertexWeighted<int>(n); r.set_vertex_weights(vw); } for (auto [a, b] : t.e) r.add_edge(a, b); auto d = r.run_dp(uni, E0, [](MS s, int w) { return MS{ "[" + std::to_string(w) + ser(s) + "]" }; }, [](MS s, int w) { return MS{ "#" + std::to_string(w) + ser(s) }; }); for (int v = 0; v < n; ++v) EQ(ser(d[v]), ser(MS{ "#" + v1(v) + ser(ref(t, v, -1, v1, no)) })); } break;
    case 2: { RerootingEdgeWeighted<char> r(n); for (size_t i = 0; i < t.e.size(); ++i) r.add_edge(t.e[i].first, t.e[i].second, ew[i]); auto d = r.run_dp(uni, E0, [](MS s, char w) { return MS{ std::string("[") + w + ser(s) + "]" }; }, [](MS s) { return MS{ "#" + ser(s) }; }); for (int v = 0; v < n; ++v) EQ(ser(d[v]), ser(MS{ "#" + ser(ref(t, v, -1, no, e1)) })); } break;
    default: { RerootingWeighted<int, char> r(vw); for (size_t i = 0; i < t.e.size(); ++i) r.add_edge(t.e[i].first, t.e[i].second, ew[i]); auto d = r.run_dp(uni, E0, [](MS s, int x, char w) { return MS{ "[" + std::to_string(x) + w + ser(s) + "]" }; }, [](MS s, int w) { return MS{ "#" + std::to_string(w) + ser(s) }; }); for (int v = 0; v < n; ++v) EQ(ser(d[v]), ser(MS{ "#" + v1(v) + ser(ref(t, v, -1, v1, e1)) })); }
    }
}
SCENARIO(rerooting_larger, 20) { // distance sums
    int n = rng.size(50, 300); auto t = gen(rng, n); std::vector<i64> w = rng.vec<i64>(n, 1, 100), len = rng.vec<i64>(n, 1, 1000); RerootingWeighted<i64, i64> r(w); for (size_t i = 0; i < t.e.size(); ++i) r.add_edge(t.e[i].first, t.e[i].second, len[i]); struct D { i64 c, s; }; auto d = r.run_dp([](D a, D b) { return D{ a.c + b.c, a.s + b.s }; }, [] { return D{ 0, 0 }; }, [](D a, i64 v, i64 e) { return D{ a.c + v, a.s + (a.c + v) * e }; }, [](D a, i64 v) { return D{ a.c + v, a.s }; });
    for (int k = 0; k < 20; ++k) { int u = rng(0, n - 1); i64 s = 0, c = 0; std::vector<std::tuple<int, int, i64>> st{ { u, -1, 0 } }; while (st.size()) { auto [x, p, z] = st.back(); st.pop_back(); s += w[x] * z, c += w[x]; for (auto [y, id] : t.g[x]) if (y != p) st.emplace_back(y, x, z + len[id]); } EQ(d[u].s, s); EQ(d[u].c, c); }
}
// ---- static top tree: paths and subtrees carry symbolic structure
static std::vector<i64> gw; static std::vector<int> gpar; static u64 calls;
struct Path { int top, bot; i64 size, sum, dsum; }; struct Sub { int par; i64 size, sum, dsum; }; // dsum = sum over vertices of w * (distance to top (Path) / to the parent vertex (Sub)), len = #edges of spine
static std::map<std::pair<int, int>, int> spine; // not used by the library
static std::vector<int> gdep;
static Path vertex(int v) { ++calls; return { v, v, 1, gw[v], 0 }; }
static Sub add_edge(Path& p, int r, int par) { ++calls; EQ(p.top, r); EQ(gpar[r], par); return { par, p.size, p.sum, p.dsum + p.sum }; }
static Sub merge_subtrees(Sub& a, Sub& b) { ++calls; EQ(a.par, b.par); return { a.par, a.size + b.size, a.sum + b.sum, a.dsum + b.dsum }; }
static Path add_root(Sub& s, int v) { ++calls; EQ(s.par, v); return { v, v, s.size + 1, s.sum + gw[v], s.dsum }; }
static Path merge_paths(Path& hi, Path& lo) { ++calls; EQ(gpar[lo.top], hi.bot); i64 d = gdep[lo.top] - gdep[hi.top]; return { hi.top, lo.bot, hi.size + lo.size, hi.sum + lo.sum, hi.dsum + lo.dsum + lo.sum * d }; }
static void stt(Rng& rng, int n, int q) {
    auto t = gen(rng, n); int r = rng(0, n - 1); std::vector<std::vector<int>> g(n); for (int i = 0; i < n; ++i) { for (auto [v, id] : t.g[i]) g[i].push_back(v); rng.shuffle(g[i]); } gpar.assign(n, -1); gdep.assign(n, 0); std::vector<int> ord{ r }; for (size_t i = 0; i < ord.size(); ++i) for (int v : g[ord[i]]) if (v != gpar[ord[i]]) gpar[v] = ord[i], gdep[v] = gdep[ord[i]] + 1, ord.push_back(v); gw = rng.vec<i64>(n, -1000, 1000); LOG(r, t.e);
    static_toptree T(g, r); std::vector<int> sz(n, 1); for (int i = n - 1; i > 0; --i) sz[gpar[ord[i]]] += sz[ord[i]]; for (int v = 0; v < n; ++v) EQ(T.parent(v), gpar[v]), EQ(T.subtree_size(v), sz[v]);
    auto dp = T.tree_dp<Sub, Path, vertex, add_edge, merge_subtrees, add_root, merge_paths>(); auto chk = [&](const Path& p) { i64 s = 0, d = 0; for (int v = 0; v < n; ++v) s += gw[v], d += gw[v] * gdep[v]; EQ(p.top, r); EQ(p.size, (i64)n); EQ(p.sum, s); EQ(p.dsum, d); }; chk(dp()); chk(dp.answer()); int lg = 0; while ((1 << lg) < n) ++lg;
    while (q--) { int v = rng(0, n - 1); gw[v] = rng(-1000, 1000); calls = 0; chk(dp.update(v)); REQUIRE(calls <= (u64)(6 * lg + 12), "update is not logarithmic", calls, n); if (rng.pct(20)) chk(dp()); }
    static_toptree copy = T; auto dp2 = copy.tree_dp<Sub, Path, vertex, add_edge, merge_subtrees, add_root, merge_paths>(); chk(dp2.answer());
}
SCENARIO(static_top_tree, 600) { stt(rng, rng.size(1, 30), 30); }
SCENARIO(static_top_tree_larger, 15) { stt(rng, rng.size(300, 2000), 60); }
// the same workloads at realistic sizes
RESCALE(static_top_tree, 4, 512);
RESCALE(rerooting_larger, 4, 128);
RESCALE(rerooting, 4, 32);
RESCALE(static_top_tree_larger, 4, 64);
