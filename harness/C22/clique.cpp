// C22: cliques, independent sets, vertex covers, triangles, chromatic number
#include "mon.hpp"
#include "library/graph/enumerate_cliques.hpp"
#include "library/graph/enumerate_triangles.hpp"
#include "library/graph/maximum_independent_set.hpp"
#include "library/graph/minimum_vertex_cover.hpp"
#include "library/graph/maximum_clique.hpp"
#include "library/graph/chromatic_number.hpp"
using namespace mon; using namespace suisen;
struct G { int n; std::vector<std::vector<int>> g; std::vector<int> am; std::vector<std::pair<int, int>> e; };
static G gen(Rng& rng, int n) {
    G r{ n, std::vector<std::vector<int>>(n), std::vector<int>(n), {} }; std::set<std::pair<int, int>> s; int st = rng(0, 5), p = rng.pick(std::vector<int>{ 10, 30, 50, 80, 95 }); auto add = [&](int a, int b) { if (a != b) s.insert(std::minmax(a, b)); };
    if (st == 0) { for (int i = 0; i + 1 < n; ++i) if (rng.pct(85)) add(i, i + 1); if (n > 2 && rng.coin()) add(0, n - 1); } // paths and cycles
    else if (st == 1) { int i = 0; while (i < n) { int k = std::min<int>(n - i, rng(1, 7)); for (int j = 0; j < k; ++j) add(i + j, i + (j + 1) % k); i += k; } }
    else if (st == 2) { std::vector<int> c = rng.vec<int>(n, 0, rng(1, 3)); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (c[i] != c[j] && rng.pct(90)) add(i, j); }
    else for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (rng.pct(p)) add(i, j);
    auto q = rng.perm(n); for (auto [a, b] : s) r.e.emplace_back(q[a], q[b]); rng.shuffle(r.e); for (auto& [a, b] : r.e) { if (rng.coin()) std::swap(a, b); r.g[a].push_back(b), r.g[b].push_back(a); r.am[a] |= 1 << b, r.am[b] |= 1 << a; } return r;
}
static std::vector<char> indep_all(const G& g) { std::vector<char> f(1 << g.n); f[0] = 1; for (int s = 1; s < (1 << g.n); ++s) { int v = __builtin_ctz(s); f[s] = f[s & (s - 1)] && !(g.am[v] & s); } return f; }
static int mask_of(const std::vector<int>& v, int n) { int m = 0; for (int x : v) { REQUIRE(0 <= x && x < n && !(m >> x & 1), "vertex repeated or out of range", x); m |= 1 << x; } return m; }
SCENARIO(cliques_triangles, 800) {
    auto g = gen(rng, rng.size(0, 12)); LOG(g.n, g.e); auto is_clique = [&](int s) { for (int v = 0; v < g.n; ++v) if ((s >> v & 1) && (s & ~(1 << v) & ~g.am[v])) return false; return true; };
    std::set<int> got, want; enumerate_cliques(g.g, [&](const std::vector<int>& c) { REQUIRE(!c.empty()); int m = mask_of(c, g.n); REQUIRE(got.insert(m).second, "clique reported twice", c); }); for (int s = 1; s < (1 << g.n); ++s) if (is_clique(s)) want.insert(s); REQUIRE(got == want, "set of cliques", got.size(), want.size());
    std::set<int> t; enumerate_triangles(g.g, [&](int a, int b, int c) { REQUIRE(t.insert(mask_of({ a, b, c }, g.n)).second, "triangle reported twice"); }); std::set<int> tw; for (int s : want) if (__builtin_popcount(s) == 3) tw.insert(s); REQUIRE(t == tw, "set of triangles", t.size(), tw.size());
}
SCENARIO(independent_set_cover_clique, 900) {
    auto g = gen(rng, rng.size(0, 13)); LOG(g.n, g.e); auto f = indep_all(g); int best = 0, bc = 0; for (int s = 0; s < (1 << g.n); ++s) if (f[s]) best = std::max(best, __builtin_popcount(s));
    int m = mask_of(maximum_independent_set(g.g), g.n); REQUIRE(f[m], "not independent"); EQ(__builtin_popcount(m), best);
    int c = mask_of(minimum_vertex_cover(g.g), g.n); EQ(__builtin_popcount(c), g.n - best); for (auto [a, b] : g.e) REQUIRE((c >> a & 1) || (c >> b & 1), "edge uncovered");
    G h = g; for (int i = 0; i < g.n; ++i) h.am[i] = ~g.am[i] & ((1 << g.n) - 1) & ~(1 << i); auto fc = indep_all(h); for (int s = 0; s < (1 << g.n); ++s) if (fc[s]) bc = std::max(bc, __builtin_popcount(s)); int q = mask_of(maximum_clique(g.g), g.n); REQUIRE(fc[q], "not a clique"); EQ(__builtin_popcount(q), bc);
}
SCENARIO(mis_larger, 12) { // 2-degree components and sparse graphs of moderate size against bipartite/branching-free bound via clique cover of cycles
    int n = 0; std::vector<std::vector<int>> g; int want = 0; while (n < 60) { int k = rng(1, 12); bool cyc = k >= 3 && rng.coin(); for (int j = 0; j < k; ++j) g.emplace_back(); for (int j = 0; j + 1 < k; ++j) g[n + j].push_back(n + j + 1), g[n + j + 1].push_back(n + j); if (cyc) g[n].push_back(n + k - 1), g[n + k - 1].push_back(n); want += cyc ? k / 2 : (k + 1) / 2; n += k; }
    auto p = rng.perm(n); std::vector<std::vector<int>> h(n); for (int i = 0; i < n; ++i) for (int j : g[i]) h[p[i]].push_back(p[j]); for (auto& v : h) rng.shuffle(v); auto r = maximum_independent_set(h); EQ((int)r.size(), want); std::set<int> s(r.begin(), r.end()); EQ((int)s.size(), want); for (int x : s) for (int y : h[x]) REQUIRE(!s.count(y)); auto c = minimum_vertex_cover(h); EQ((int)c.size(), n - want);
}
SCENARIO(chromatic_number, 500) {
    auto g = gen(rng, rng.size(0, 11)); LOG(g.n, g.e); auto f = indep_all(g); std::vector<int> chi(1 << g.n, 99); chi[0] = 0; for (int s = 1; s < (1 << g.n); ++s) for (int t = s; t; t = (t - 1) & s) if (f[t]) chi[s] = std::min(chi[s], chi[s ^ t] + 1); auto e = g.e; if (e.size() && rng.pct(20)) e.push_back(rng.pick(g.e)); EQ(chromatic_number(g.n, e), chi[(1 << g.n) - 1]);
}
