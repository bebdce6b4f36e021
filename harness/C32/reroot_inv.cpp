// C32: rerooting DP over a group (op, e, inv)
#include "mon.hpp"
#include "library/tree/rerooting_invertible.hpp"
using namespace mon; using namespace suisen;
// free abelian group on words: nothing can be lost, repeated or cancelled unseen
using MS = std::map<std::string, int>;
static std::string ser(const MS& m) { std::string s = "("; for (auto& [x, c] : m) s += std::to_string(c) + x; return s + ")"; }
static void addw(MS& m, const std::string& w, int c) { if ((m[w] += c) == 0) m.erase(w); }
static MS uni(MS a, MS b) { for (auto& [w, c] : b) addw(a, w, c); return a; }
static MS neg(MS a) { for (auto& [w, c] : a) c = -c; return a; }
static MS one(const std::string& w) { return MS{ { w, 1 } }; }
struct Tr { int n; std::vector<std::pair<int, int>> e; std::vector<std::vector<std::pair<int, int>>> g; };
static Tr gen(Rng& rng, int n) { Tr t{ n, rng.tree(n), {} }; t.g.resize(n); for (int i = 0; i < (int)t.e.size(); ++i) { auto [a, b] = t.e[i]; t.g[a].emplace_back(b, i); t.g[b].emplace_back(a, i); } return t; }
template <class V, class E> static MS ref(const Tr& t, int u, int p, V vw, E ew) { MS r; for (auto [v, id] : t.g[u]) if (v != p) { MS s = ref(t, v, u, vw, ew); addw(r, "[" + vw(v) + ew(id) + ser(s) + "]", 1); } return r; }
SCENARIO(rerooting_inv, 500) {
    int n = rng.size(1, 14); auto t = gen(rng, n); std::vector<int> vw = rng.vec<int>(n, 0, 3); std::vector<char> ew(t.e.size()); for (auto& c : ew) c = char('a' + rng(0, 2)); LOG(t.e); auto E0 = [] { return MS(); };
    auto S = [](int x) { return std::to_string(x); };
    auto v1 = [&](int v) { return S(vw[v]); }; auto e1 = [&](int id) { return std::string(1, ew[id]); }; auto no = [](int) { return std::string(); };
    switch (rng(0, 3)) {
    case 0: { RerootingInvertible r(n); for (auto [a, b] : t.e) r.add_edge(a, b); auto d = r.run_dp(uni, E0, neg, [](MS s) { return one("[" + ser(s) + "]"); }, [](MS s) { return one("#" + ser(s)); }); EQ((int)d.size(), n); for (int v = 0; v < n; ++v) EQ(ser(d[v]), ser(one("#" + ser(ref(t, v, -1, no, no))))); } break;
    case 1: { RerootingInvertibleVertexWeighted<int> r; int k = rng(0, 2); if (k == 0) r = RerootingInvertibleVertexWeighted<int>(vw); else if (k == 1) { r.reserve(n); for (int x : vw) r.add_vertex(x); } else { r = RerootingInvertibleVertexWeighted<int>(n); r.set_vertex_weights(vw); } for (auto [a, b] : t.e) r.add_edge(a, b); auto d = r.run_dp(uni, E0, neg, [&](MS s, int w) { return one("[" + S(w) + ser(s) + "]"); }, [&](MS s, int w) { return one("#" + S(w) + ser(s)); }); for (int v = 0; v < n; ++v) EQ(ser(d[v]), ser(one("#" + v1(v) + ser(ref(t, v, -1, v1, no))))); } break;
    case 2: { RerootingInvertibleEdgeWeighted<char> r(n); for (size_t i = 0; i < t.e.size(); ++i) r.add_edge(t.e[i].first, t.e[i].second, ew[i]); auto d = r.run_dp(uni, E0, neg, [](MS s, char w) { return one(std::string("[") + w + ser(s) + "]"); }, [](MS s) { return one("#" + ser(s)); }); for (int v = 0; v < n; ++v) EQ(ser(d[v]), ser(one("#" + ser(ref(t, v, -1, no, e1))))); } break;
    default: { RerootingInvertibleWeighted<int, char> r(vw); for (size_t i = 0; i < t.e.size(); ++i) r.add_edge(t.e[i].first, t.e[i].second, ew[i]); auto d = r.run_dp(uni, E0, neg, [&](MS s, int x, char w) { return one("[" + S(x) + w + ser(s) + "]"); }, [&](MS s, int w) { return one("#" + S(w) + ser(s)); }); for (int v = 0; v < n; ++v) EQ(ser(d[v]), ser(one("#" + v1(v) + ser(ref(t, v, -1, v1, e1))))); }
    }
}
SCENARIO(rerooting_inv_larger, 20) { // distance sums
    int n = rng.size(50, 300); auto t = gen(rng, n); std::vector<i64> w = rng.vec<i64>(n, 1, 100), len = rng.vec<i64>(n, 1, 1000); RerootingInvertibleWeighted<i64, i64> r(w); for (size_t i = 0; i < t.e.size(); ++i) r.add_edge(t.e[i].first, t.e[i].second, len[i]); struct D { i64 c, s; }; auto d = r.run_dp([](D a, D b) { return D{ a.c + b.c, a.s + b.s }; }, [] { return D{ 0, 0 }; }, [](D a) { return D{ -a.c, -a.s }; }, [](D a, i64 v, i64 e) { return D{ a.c + v, a.s + (a.c + v) * e }; }, [](D a, i64 v) { return D{ a.c + v, a.s }; });
    for (int k = 0; k < 20; ++k) { int u = rng(0, n - 1); i64 s = 0, c = 0; std::vector<std::tuple<int, int, i64>> st{ { u, -1, 0 } }; while (st.size()) { auto [x, p, z] = st.back(); st.pop_back(); s += w[x] * z, c += w[x]; for (auto [y, id] : t.g[x]) if (y != p) st.emplace_back(y, x, z + len[id]); } EQ(d[u].s, s); EQ(d[u].c, c); }
}
// the same workloads at realistic sizes
RESCALE(rerooting_inv_larger, 4, 512);
RESCALE(rerooting_inv, 4, 32);
SCENARIO(big_rerooting_inv, 6) { // more than 2^16 vertices, distance sums by one linear pass
    int st = (int)rng.in(0, 5), n = (int)(rng.coin() ? 65536 + rng.in(0, 5) : rng.in(66000, 80000)), h = n / 2; Tr t{ n, {}, std::vector<std::vector<std::pair<int, int>>>(n) }; auto p = rng.perm(n);
    for (int i = 1; i < n; ++i) { int q; switch (st) { case 0: q = i - 1; break; case 1: q = 0; break; case 2: q = i <= h ? i - 1 : i - h - 1; break; case 3: q = (int)rng.in(0, i - 1); break; case 4: q = (i - 1) / 2; break; default: q = i % 300 == 1 ? 0 : i - 1; } t.e.emplace_back(p[q], p[i]); if (rng.coin()) std::swap(t.e.back().first, t.e.back().second); }
    rng.shuffle(t.e); for (int i = 0; i < n - 1; ++i) t.g[t.e[i].first].emplace_back(t.e[i].second, i), t.g[t.e[i].second].emplace_back(t.e[i].first, i); LOG("n", n, "style", st); std::vector<i64> w(n), len(n); for (auto& x : w) x = rng.in(-1000, 1000); for (auto& x : len) x = rng.in(-100000, 100000);
    std::vector<int> par(n, -1), pe(n, -1), ord{ 0 }; for (size_t i = 0; i < ord.size(); ++i) for (auto [v, id] : t.g[ord[i]]) if (v != par[ord[i]]) par[v] = ord[i], pe[v] = id, ord.push_back(v); std::vector<i64> c(w), s(n); i64 all = 0; for (i64 x : w) all += x; for (int i = n - 1; i > 0; --i) { int v = ord[i]; c[par[v]] += c[v]; s[par[v]] += s[v] + c[v] * len[pe[v]]; } for (int i = 1; i < n; ++i) { int v = ord[i]; s[v] = s[par[v]] + (all - 2 * c[v]) * len[pe[v]]; }
    RerootingInvertibleWeighted<i64, i64> r(w); for (int i = 0; i < n - 1; ++i) r.add_edge(t.e[i].first, t.e[i].second, len[i]); struct D { i64 c, s; }; auto d = r.run_dp([](D a, D b) { return D{ a.c + b.c, a.s + b.s }; }, [] { return D{ 0, 0 }; }, [](D a) { return D{ -a.c, -a.s }; }, [](D a, i64 v, i64 e) { return D{ a.c + v, a.s + (a.c + v) * e }; }, [](D a, i64 v) { return D{ a.c + v, a.s }; }); EQ((int)d.size(), n); for (int v = 0; v < n; ++v) { EQ(d[v].s, s[v]); EQ(d[v].c, all); }
}
