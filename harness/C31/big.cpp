// Link-cut trees over forests with more than 2^16 vertices, mirrored on parent pointers that are reversed on evert.
// MON: shards=3
#include "mon.hpp"
#include "library/tree/link_cut_tree.hpp"
#include "library/tree/link_cut_tree_path_foldable.hpp"
#include "library/tree/link_cut_tree_path_foldable_lazy.hpp"
#include <unordered_map>
using namespace suisen; using mon::Rng;
constexpr u64 MD = 998244353, BS = 911382323; static std::vector<u64> PW{ 1 }, GE{ 0 };
struct T { u64 f, b; int len; bool operator==(const T& o) const { return f == o.f && b == o.b && len == o.len; } friend std::ostream& operator<<(std::ostream& s, const T& x) { return s << "{" << x.f << "," << x.b << ",len " << x.len << "}"; } };
static T one(u64 x) { return { x, x, 1 }; }
static T op(T x, T y) { return { (x.f + PW[x.len] * y.f) % MD, (y.b + PW[y.len] * x.b) % MD, x.len + y.len }; } static T e() { return { 0, 0, 0 }; } static T toggle(T x) { return { x.b, x.f, x.len }; }
struct F { u64 a, b; }; static T mapping(F g, T x, int len) { REQUIRE(len == x.len, "mapping got a wrong segment length", len, x.len); u64 c = g.b * GE[len] % MD; return { (g.a * x.f + c) % MD, (g.a * x.b + c) % MD, len }; } static F composition(F g, F h) { return { g.a * h.a % MD, (g.a * h.b + g.b) % MD }; } static F id() { return { 1, 0 }; }
using L0 = LinkCutTree<T>; using L1 = LinkCutTreePathFoldable<T, op, e, toggle>; using L2 = LinkCutTreePathFoldableLazy<T, op, e, F, mapping, composition, id, toggle>;
template <class L, int K> static void run(Rng& rng, int st, int steps) {
    int n = (int)(st == 0 ? rng.in(130000, 150000) : rng.coin() ? 65536 + rng.in(0, 5) : rng.in(66000, 80000)); using P = typename L::node_pointer_type; while ((int)PW.size() <= n + 1) GE.push_back((GE.back() + PW.back()) % MD), PW.push_back(PW.back() * BS % MD); L::init_pool(n); std::vector<u64> val(n); for (auto& x : val) x = (u64)rng.in(0, MD - 1); std::vector<T> init(n); for (int i = 0; i < n; ++i) init[i] = one(val[i]); std::vector<P> nd = L::make_nodes(init); std::unordered_map<const void*, int> idx; for (int i = 0; i < n; ++i) REQUIRE(idx.emplace(nd[i], i).second, "node handed out twice"); auto no = [&](P p) { auto it = idx.find(p); REQUIRE(it != idx.end(), "foreign node"); return it->second; };
    std::vector<int> par(n, -1), stamp(n, -1); auto evert = [&](int u) { int c = -1; while (u >= 0) { int q = par[u]; par[u] = c; c = u; u = q; } }; auto up = [&](int v) { std::vector<int> p; for (; v >= 0; v = par[v]) p.push_back(v); return p; }; auto root = [&](int v) { while (par[v] >= 0) v = par[v]; return v; }; auto word = [&](const std::vector<int>& rootward) { T t = e(); for (size_t i = rootward.size(); i--;) t = op(t, one(val[rootward[i]])); return t; };
    auto q = rng.perm(n); LOG("n", n, "style", st); for (int i = 1; i < n; ++i) { if (st == 2 && i % 20000 == 0) continue; int a = i, b = st == 0 ? i - 1 : st == 1 ? (int)rng.in(0, i - 1) : st == 2 ? i - 1 : st == 3 ? (i < n / 2 ? i - 1 : i - n / 2) : 0; a = q[a], b = q[b]; L::link(nd[a], nd[b]); evert(a); par[a] = b; }
    auto vtx = [&] { return q[rng.pct(30) ? rng.in(n - 4, n - 1) : rng.pct(15) ? rng.in(0, 3) : rng.in(0, n - 1)]; };
    for (int t = 0; t < steps; ++t) { int u = vtx(), v = vtx(); bool cn = root(u) == root(v); switch (rng.in(t < steps / 3 ? 2 : 0, 13)) {
        case 0: case 1: if (cn) { // move an edge of the path u..v
                auto p = up(u); int x = p[rng.in(0, (i64)p.size() - 1)]; if (par[x] < 0) break; int y = par[x]; if (rng.coin()) { LOG("cut", x); L::cut(nd[x]); par[x] = -1; } else { LOG("cut2", x, y); L::cut(nd[x], nd[y]); evert(x); par[y] = -1; } EQ(L::is_connected(nd[x], nd[y]), false); if (rng.pct(80)) { int a = rng.coin() ? x : u, b = rng.coin() ? y : v; if (root(a) == root(b)) a = x, b = y; LOG("link", a, b); L::link(nd[a], nd[b]); evert(a); par[a] = b; } } else { LOG("link", u, v); L::link(nd[u], nd[v]); evert(u); par[u] = v; } break;
        case 2: LOG("evert", u); L::evert(nd[u]); evert(u); break;
        case 3: EQ(L::is_connected(nd[u], nd[v]), cn); break;
        case 4: case 5: { P a = L::lca(nd[u], nd[v]); if (!cn) { REQUIRE(a == nullptr, "lca of disconnected vertices"); break; } for (int x = u; x >= 0; x = par[x]) stamp[x] = t; int w = v; while (stamp[w] != t) w = par[w]; EQ(no(a), w); } break;
        case 6: EQ(L::get(nd[u]), one(val[u])); break;
        case 7: { u64 x = (u64)rng.in(0, MD - 1); LOG("set", u); if (rng.coin()) L::set(nd[u], one(x)); else L::update_value(nd[u], [&](const T& o) { EQ(o, one(val[u])); return one(x); }); val[u] = x; } break;
        case 8: { auto p = L::path_from_root(nd[u]); auto w = up(u); std::reverse(w.begin(), w.end()); std::vector<int> g; for (P x : p) g.push_back(no(x)); EQV(g, w); } break;
        case 9: { auto p = L::path(nd[u], nd[v]); evert(u); EQ(p.has_value(), cn); if (p) { auto w = up(v); std::reverse(w.begin(), w.end()); std::vector<int> g; for (P x : *p) g.push_back(no(x)); EQV(g, w); } } break;
        case 10: if constexpr (K >= 1) if (cn) { LOG("prod", u, v); evert(u); EQ(L::prod(nd[u], nd[v]), word(up(v))); } break;
        case 11: if constexpr (K >= 1) { LOG("prod_from_root", u); EQ(L::prod_from_root(nd[u]), word(up(u))); } break;
        default: if constexpr (K >= 2) { F f{ (u64)rng.in(1, MD - 1), (u64)rng.in(0, MD - 1) }; std::vector<int> w; if (rng.coin()) { LOG("apply_from_root", u); L::apply_from_root(nd[u], f); w = up(u); } else { if (!cn) break; LOG("apply", u, v); L::apply(nd[u], nd[v], f); evert(u); w = up(v); } for (int x : w) val[x] = (f.a * val[x] + f.b) % MD; }
    } }
    for (int i = 0; i < n; ++i) EQ(L::get(nd[i]), one(val[i]));
}
SCENARIO(big_plain, 5) { int st = (int)rng.in(0, 4); run<L0, 0>(rng, st, 200); }
SCENARIO(big_path_foldable, 5) { int st = (int)rng.in(0, 4); run<L1, 1>(rng, st, 250); }
SCENARIO(big_path_foldable_lazy, 5) { int st = (int)rng.in(0, 4); run<L2, 2>(rng, st, 300); }
