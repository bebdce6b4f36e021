// C31: link-cut trees against an explicit forest with per-tree root
#include "mon.hpp"
#include "library/tree/link_cut_tree.hpp"
#include "library/tree/link_cut_tree_path_foldable.hpp"
#include "library/tree/link_cut_tree_path_foldable_lazy.hpp"
using namespace mon; using namespace suisen;
static std::string op(std::string a, std::string b) { return a + b; }
static std::string e() { return ""; }
static std::string toggle(std::string a) { return std::string(a.rbegin(), a.rend()); }
struct F { int a, b; }; // character action c -> a c + b mod 26 (non-commutative composition)
static char act(F f, char c) { return char('a' + (f.a * (c - 'a') + f.b) % 26); }
static std::string mapping(F f, std::string s, int len) { REQUIRE((int)s.size() == len, "mapping got a wrong segment length", s, len); for (char& c : s) c = act(f, c); return s; }
static F composition(F f, F g) { return { f.a * g.a % 26, (f.a * g.b + f.b) % 26 }; }
static F id() { return { 1, 0 }; }
using L0 = LinkCutTree<std::string>;
using L1 = LinkCutTreePathFoldable<std::string, op, e, toggle>;
using L2 = LinkCutTreePathFoldableLazy<std::string, op, e, F, mapping, composition, id, toggle>;
template <class L, int K> static void run(Rng& rng, int n, int steps) {
    using P = typename L::node_pointer_type; L::init_pool(n + rng(0, 3)); std::vector<std::string> val(n); for (auto& s : val) s = std::string(1, char('a' + rng(0, 25)));
    std::vector<P> nd; if (rng.coin()) nd = L::make_nodes(val); else for (auto& s : val) nd.push_back(L::make_node(s)); std::map<P, int> idx; for (int i = 0; i < n; ++i) REQUIRE(idx.emplace(nd[i], i).second, "node handed out twice");
    std::vector<std::set<int>> g(n); std::vector<int> root(n); std::iota(root.begin(), root.end(), 0);
    auto comp = [&](int u) { std::vector<int> q{ u }; std::vector<char> vis(n); vis[u] = 1; for (size_t i = 0; i < q.size(); ++i) for (int v : g[q[i]]) if (!vis[v]) vis[v] = 1, q.push_back(v); return q; };
    auto setroot = [&](int u, int r) { for (int v : comp(u)) root[v] = r; };
    auto path = [&](int u, int v) { std::vector<int> pr(n, -2), q{ u }; pr[u] = -1; for (size_t i = 0; i < q.size(); ++i) for (int w : g[q[i]]) if (pr[w] == -2) pr[w] = q[i], q.push_back(w); std::vector<int> p; if (pr[v] == -2) return p; for (int x = v; x >= 0; x = pr[x]) p.push_back(x); std::reverse(p.begin(), p.end()); return p; };
    auto conn = [&](int u, int v) { return root[u] == root[v]; }; auto word = [&](const std::vector<int>& p) { std::string s; for (int x : p) s += val[x]; return s; }; auto ids = [&](const std::vector<P>& v) { std::vector<int> r; for (P p : v) { REQUIRE(idx.count(p)); r.push_back(idx[p]); } return r; };
    if (n > 1 && rng.coin()) for (auto [a, b] : rng.tree(n)) { L::link(nd[a], nd[b]); int r = root[b]; g[a].insert(b), g[b].insert(a); setroot(b, r); }
    for (int t = 0; t < steps; ++t) { int u = rng(0, n - 1), v = rng(0, n - 1); switch (rng(0, 15)) {
        case 0: case 1: case 2: if (conn(u, v)) break; { int r = root[v]; LOG("link", u, v); L::link(nd[u], nd[v]); g[u].insert(v), g[v].insert(u); setroot(v, r); } break;
        case 3: { if (g[u].empty()) break; v = rng.pick(std::vector<int>(g[u].begin(), g[u].end())); LOG("cut", u, v); L::cut(nd[u], nd[v]); g[u].erase(v), g[v].erase(u); setroot(u, u), setroot(v, v); } break;
        case 4: { if (root[u] == u || rng.coin()) break; auto p = path(root[u], u); int q = p[p.size() - 2], r = root[u]; LOG("cut", u); L::cut(nd[u]); g[u].erase(q), g[q].erase(u); setroot(u, u); setroot(q, r); } break;
        case 5: LOG("evert", u); L::evert(nd[u]); setroot(u, u); break;
        case 6: LOG("connected", u, v); EQ(L::is_connected(nd[u], nd[v]), conn(u, v)); break;
        case 7: case 8: { LOG("lca", u, v); P a = L::lca(nd[u], nd[v]); if (!conn(u, v)) { REQUIRE(a == nullptr, "lca of disconnected vertices"); break; } auto p = path(root[u], u), q = path(root[v], v); int w = -1; for (size_t i = 0; i < std::min(p.size(), q.size()) && p[i] == q[i]; ++i) w = p[i]; REQUIRE(idx.count(a)); EQ(idx[a], w); } break;
        case 9: LOG("get", u); EQ(L::get(nd[u]), val[u]); break;
        case 10: { std::string s(1, char('a' + rng(0, 25))); LOG("set", u, s); if (rng.coin()) L::set(nd[u], s); else L::update_value(nd[u], [&](const std::string& o) { EQ(o, val[u]); return s; }); val[u] = s; } break;
        case 11: LOG("path_from_root", u); EQV(ids(L::path_from_root(nd[u])), path(root[u], u)); break;
        case 12: { LOG("path", u, v); auto p = L::path(nd[u], nd[v]); EQ(p.has_value(), conn(u, v)); if (p) EQV(ids(*p), path(u, v)); setroot(u, u); } break;
        case 13: if constexpr (K >= 1) { if (!conn(u, v)) break; LOG("prod", u, v); EQ(L::prod(nd[u], nd[v]), word(path(u, v))); setroot(u, u); } break;
        case 14: if constexpr (K >= 1) { LOG("prod_from_root", u); EQ(L::prod_from_root(nd[u]), word(path(root[u], u))); } break;
        case 15: if constexpr (K >= 2) { F f{ (int)rng.pick(std::vector<int>{ 1, 3, 5, 25 }), (int)rng(0, 25) }; if (rng.coin()) { LOG("apply_from_root", u); L::apply_from_root(nd[u], f); for (int x : path(root[u], u)) val[x][0] = act(f, val[x][0]); } else { if (!conn(u, v)) break; LOG("apply", u, v); L::apply(nd[u], nd[v], f); setroot(u, u); for (int x : path(u, v)) val[x][0] = act(f, val[x][0]); } } break;
    } }
    for (int u = 0; u < n; ++u) { EQV(ids(L::path_from_root(nd[u])), path(root[u], u)); EQ(L::get(nd[u]), val[u]); if constexpr (K >= 1) EQ(L::prod_from_root(nd[u]), word(path(root[u], u))); }
}
SCENARIO(plain, 500) { run<L0, 0>(rng, rng.size(1, 20), 120); }
SCENARIO(path_foldable, 500) { run<L1, 1>(rng, rng.size(1, 20), 120); }
SCENARIO(path_foldable_lazy, 700) { run<L2, 2>(rng, rng.size(1, 20), 120); }
SCENARIO(larger, 12) { switch (rng(0, 2)) { case 0: run<L0, 0>(rng, rng.size(100, 300), 600); break; case 1: run<L1, 1>(rng, rng.size(100, 300), 600); break; default: run<L2, 2>(rng, rng.size(100, 300), 600); } }
// the same workloads at realistic sizes
RESCALE(plain, 4, 128);
RESCALE(path_foldable, 4, 128);
RESCALE(path_foldable_lazy, 4, 64);
RESCALE(larger, 4, 16);
