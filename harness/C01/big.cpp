// Union-find variants at contest sizes; the reference relabels the smaller class on every merge (and keeps the order to undo it).
#include "mon.hpp"
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find_component_sum.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
#include "library/datastructure/union_find/union_find_lazy.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
#include "library/datastructure/union_find/merge_history_forest.hpp"
using namespace suisen; using mon::Rng; using mon::i64; using mon::u64;
struct Rel {
    std::vector<int> lab; std::vector<std::vector<int>> mem; std::vector<std::pair<int, int>> hist; // (kept label, moved label)
    explicit Rel(int n) : lab(n), mem(n) { for (int i = 0; i < n; ++i) lab[i] = i, mem[i] = { i }; }
    bool merge(int x, int y) { int a = lab[x], b = lab[y]; if (a == b) return false; if (mem[a].size() < mem[b].size()) std::swap(a, b); for (int v : mem[b]) lab[v] = a, mem[a].push_back(v); hist.emplace_back(a, b); return true; }
    void undo() { auto [a, b] = hist.back(); hist.pop_back(); mem[a].resize(mem[a].size() - mem[b].size()); for (int v : mem[b]) lab[v] = b; }
    int size(int x) const { return (int)mem[lab[x]].size(); }
    bool same(int x, int y) const { return lab[x] == lab[y]; }
};
static int bigsize(Rng& rng) { static const int b[] = { 1024, 4096, 32768, 65536, 131072 }; int p = b[rng(0, 4)]; return p + (rng.coin() ? (int)rng(-2, 2) : (int)rng(0, p / 4)); }
// merge orders: tournament (equal sizes), chain, reverse chain, star, random, two big halves, random blocks
static std::vector<std::pair<int, int>> order(Rng& rng, int n) {
    std::vector<std::pair<int, int>> e; auto p = rng.perm(n); if (rng.coin()) std::iota(p.begin(), p.end(), 0);
    switch (rng(0, 5)) {
    case 0: case 1: for (int k = 1; k < n; k *= 2) for (int i = 0; i + k < n; i += 2 * k) e.push_back({ p[rng(i, i + k - 1)], p[rng(i + k, std::min(n, i + 2 * k) - 1)] }); break;
    case 2: for (int i = 1; i < n; ++i) e.push_back({ p[i - 1], p[i] }); break;
    case 3: for (int i = n - 1; i; --i) e.push_back({ p[i], p[rng(0, 3) ? i - 1 : rng(0, i - 1)] }); break;
    case 4: for (int i = 0; i < n; ++i) e.push_back({ (int)rng(0, n - 1), (int)rng(0, n - 1) }); break;
    default: for (int i = 1; i < n; ++i) if (i != n / 2) e.push_back({ p[i < n / 2 ? 0 : n / 2], p[i] }); if (n > 1) e.push_back({ p[rng(0, n / 2 - 1)], p[n - 1] });
    }
    for (auto& [x, y] : e) if (rng.coin()) std::swap(x, y);
    return e;
}
template <class U> static void look(Rng& rng, U& u, const Rel& m, int x) { int n = m.lab.size(), y = rng(0, n - 1); EQ(u.same(x, y), m.same(x, y), x, y); EQ(u.size(x), m.size(x), x); EQ(u.size(y), m.size(y), y); }
template <class U> static void audit(U& u, const Rel& m) { int n = m.lab.size(); std::vector<int> rep(n, -1); for (int i = 0; i < n; ++i) { int r = u.root(i), c = m.lab[i]; REQUIRE(0 <= r && r < n && m.lab[r] == c, i, r); if (rep[c] < 0) rep[c] = r; if (rep[c] != r) FAIL(i, r); } auto g = u.groups(); i64 tot = 0; for (auto& v : g) { tot += v.size(); REQUIRE(v.size() && (int)v.size() == m.size(v[0])); for (int x : v) if (m.lab[x] != m.lab[v[0]]) FAIL(x); } EQ(tot, (i64)n); }
SCENARIO(big_plain, 8, 6) { int n = bigsize(rng); LOG(n); UnionFind u(n); LinkedUnionFind v(n); Rel m(n); auto es = order(rng, n); i64 step = 0; for (auto [x, y] : es) { bool w = m.merge(x, y); if (u.merge(x, y) != w) FAIL(x, y); if (v.merge(x, y) != w) FAIL(x, y); if (++step % 64 == 0) look(rng, u, m, x), look(rng, v, m, y); if (step % 4096 == 0 || (es.size() - step < 4)) { auto c = v.connected_component(x); EQ((int)c.size(), m.size(x)); for (int z : c) if (!m.same(z, x)) FAIL(z, x); std::sort(c.begin(), c.end()); REQUIRE(std::adjacent_find(c.begin(), c.end()) == c.end()); } } audit(u, m); audit(v, m); }
static void addto(i64& a, i64 b) { a += b; }
static void stk_merge(std::vector<i64>& a, const std::vector<i64>& b) { a.push_back(a.back() + b.back()); } static void stk_undo(std::vector<i64>& a) { a.pop_back(); }
SCENARIO(big_undo, 8, 6) { int n = bigsize(rng); LOG(n); UndoUnionFind u(n); std::vector<i64> w(n); std::vector<std::vector<i64>> iw(n); for (int i = 0; i < n; ++i) w[i] = rng(-1000000000, 1000000000), iw[i] = { w[i] }; UndoUnionFindComponentSum<std::vector<i64>, stk_merge, stk_undo> s(iw); UnionFindComponentSum<i64, addto> t(w); Rel m(n); size_t base = 0; auto es = order(rng, n); bool once = true; i64 step = 0; auto sum = [&](int x) { i64 r = 0; for (int y : m.mem[m.lab[x]]) r += w[y]; return r; };
    for (size_t i = 0; i < es.size(); ++i) { auto [x, y] = es[i]; bool r = m.merge(x, y); if (u.merge(x, y) != r || s.merge(x, y) != r) FAIL(x, y); if (once && t.merge(x, y) != r) FAIL(x, y); if (++step % 256 == 0) { look(rng, u, m, x); look(rng, s, m, y); } if (step % 8192 == 0 || i + 1 == es.size()) { EQ(s.sum(x).back(), sum(x)); if (once) EQ(t.sum(x), sum(x)); } if (rng.pct(1) && rng.pct(2)) { once = false; int k = (int)rng(0, std::min<i64>(m.hist.size() - base, 3000)); for (int j = 0; j < k; ++j) m.undo(), u.undo(), s.undo(); look(rng, u, m, x); EQ(s.sum(x).back(), sum(x)); if (rng.coin()) u.snapshot(), s.snapshot(), base = m.hist.size(); } }
    audit(u, m); audit(s, m); u.rollback(), s.rollback(); while (m.hist.size() > base) m.undo(); audit(u, m); for (int k = 0; k < 20; ++k) { int x = rng(0, n - 1); EQ(s.sum(x).back(), sum(x)); look(rng, s, m, x); } }
SCENARIO(big_weighted, 8, 6) { int n = bigsize(rng); LOG(n); std::vector<i64> pos(n); for (auto& x : pos) x = rng(-1000000000000000LL, 1000000000000000LL); WeightedUnionFind<i64> u(n); Rel m(n); i64 step = 0; for (auto [x, y] : order(rng, n)) { if (u.merge(x, y, pos[y] - pos[x]) != m.merge(x, y)) FAIL(x, y); if (++step % 64 == 0) { look(rng, u, m, x); auto& c = m.mem[m.lab[x]]; int a = c[rng(0, (int)c.size() - 1)]; EQ(u.diff(x, a), pos[a] - pos[x]); } } audit(u, m); for (int i = 1; i < n; ++i) if (m.same(i - 1, i)) if (u.diff(i - 1, i) != pos[i] - pos[i - 1]) FAIL(i); }
SCENARIO(big_persistent, 10, 6) { int n = (int)rng(200, 6000); LOG(n); PersistentUnionFind::init_pool(60 * n * 8 + 100000); std::vector<std::pair<PersistentUnionFind, int>> keep; Rel m(n); PersistentUnionFind u(n); int step = 0; auto es = order(rng, n); if (rng.coin()) for (size_t i = 0; i < es.size(); i += 1 + es.size() / 20) keep.emplace_back(u, 0); for (auto [x, y] : es) { auto [nu, r] = u.merge(x, y); bool w = m.merge(x, y); if (r != w) FAIL(x, y); u = nu; if (++step % 16 == 0) { look(rng, u, m, x); if (step % 512 == 0) keep.emplace_back(u, (int)m.hist.size()); } look(rng, u, m, y); } audit(u, m); while (keep.size()) { auto [v, h] = keep.back(); keep.pop_back(); while ((int)m.hist.size() > h) m.undo(); for (int k = 0; k < 60; ++k) look(rng, v, m, rng(0, n - 1)); audit(v, m); } }
SCENARIO(big_history, 5, 6) { int n = (int)rng(500, 20000); LOG(n); MergeHistoryForest f(n); Rel m(n); std::vector<int> h{ 0 }; auto es = order(rng, n); for (size_t i = 0; i < es.size();) { if (rng.coin() || h.size() < 3) { f.merge(es[i]); m.merge(es[i].first, es[i].second), ++i; } else { std::vector<std::pair<int, int>> b; for (int k = (int)rng(0, 200); k-- && i < es.size(); ++i) b.push_back(es[i]), m.merge(es[i].first, es[i].second); f.merge_simultaneously(b); } h.push_back(m.hist.size()); } int T = (int)h.size() - 1; EQ(f.current_time(), T);
    int N = f.node_num(); std::vector<int> dep(N); for (int v = N - 1; v >= 0; --v) dep[v] = f.forest_parent(v) < 0 ? 0 : dep[f.forest_parent(v)] + 1; auto lca = [&](int a, int b) { while (a != b) { if (dep[a] < dep[b]) std::swap(a, b); a = f.forest_parent(a); } return a; }; std::vector<int> ts; for (int k = 0; k < 6; ++k) ts.push_back((int)rng(0, T)); ts.push_back(T); std::sort(ts.rbegin(), ts.rend()); for (int t : ts) { while ((int)m.hist.size() > h[t]) m.undo(); for (int k = 0; k < 15; ++k) { int x = rng(0, n - 1), y = rng.coin() ? (int)rng(0, n - 1) : m.mem[m.lab[x]][rng(0, m.size(x) - 1)]; EQ(f.same(x, y, t, lca), m.same(x, y), x, y, t); } int x = rng(0, n - 1); auto g = f.group(x, t); EQ((int)g.size(), m.size(x)); for (int z : g) if (!m.same(z, x)) FAIL(z); auto gs = f.groups(t); i64 tot = 0; for (auto& v : gs) { tot += v.size(); for (int z : v) if (!m.same(z, v[0])) FAIL(z); REQUIRE((int)v.size() == m.size(v[0])); } EQ(tot, (i64)n); } }
struct Af { u64 a = 1, b = 0; }; static const u64 P = 1000000007; static u64 pw(u64 a, u64 k) { u64 r = 1; for (; k; k >>= 1, a = a * a % P) if (k & 1) r = r * a % P; return r; }
static void lsum(u64& a, u64 b) { a = (a + b) % P; } static u64 lneg(u64 a) { return a ? P - a : 0; } static void lmap(Af f, u64& s, int n) { s = (f.a * s + f.b * (u64)n) % P; } static Af lcomp(Af f, Af g) { return { f.a * g.a % P, (f.a * g.b + f.b) % P }; } static Af lid() { return {}; } static Af linv(Af f) { u64 i = pw(f.a, P - 2); return { i, (P - f.b) * i % P }; }
SCENARIO(big_lazy, 5, 6) { int n = (int)rng(500, 6000); LOG(n); std::vector<u64> v(n); for (auto& x : v) x = rng.u() % P; UnionFindLazy<u64, lsum, lneg, Af, lmap, lcomp, lid, linv> u(v); Rel m(n); auto es = order(rng, n); int step = 0; for (auto [x, y] : es) { if (u.merge(x, y) != m.merge(x, y)) FAIL(x, y); if (rng.pct(5)) { int z = rng(0, n - 1); Af f{ rng.u() % (P - 1) + 1, rng.u() % P }; switch (rng(0, 3)) { case 0: case 1: u.apply_component(z, f); for (int w : m.mem[m.lab[z]]) v[w] = (f.a * v[w] + f.b) % P; break; case 2: u.apply_point(z, f); v[z] = (f.a * v[z] + f.b) % P; break; default: u.set_point(z, v[z] = f.b); } EQ(u.get_point(z), v[z]); if (rng.pct(10)) u.propagate(rng(0, n - 1)); } if (++step % 64 == 0) { u64 s = 0; for (int w : m.mem[m.lab[x]]) s = (s + v[w]) % P; EQ(u.get_component(y), s); look(rng, u, m, x); } } for (int i = 0; i < n; ++i) EQ(u.get_point(i), v[i]); }
