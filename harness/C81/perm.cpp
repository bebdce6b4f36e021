// MON: shards=2
// permutations, grids, hashes and element-wise operators
#include "mon.hpp"
#include <set>
#include <string>
#include <type_traits>
#include <numeric>
#include <unordered_set>
#include <unordered_map>
#include "library/util/permutation.hpp"
#include "library/util/rot90.hpp"
#include "library/util/transpose.hpp"
#include "library/util/grid_utils.hpp"
#include "library/util/hashes.hpp"
#include "library/util/pair_ops.hpp"
#include "library/util/tuple_ops.hpp"
using namespace suisen;
using VI = std::vector<int>;

SCENARIO(perm_algebra, 800) {
    int n = rng.size(0, 14);
    VI a = rng.perm(n), b = rng.perm(n);
    Permutation p(a), q = VI(b), id(n), id2((std::size_t)n), none;
    EQ((int)none.size(), 0); VI iota(n); std::iota(iota.begin(), iota.end(), 0);
    EQV((VI)id, iota); EQV((VI)id2, iota);
    auto x = rng.vec<i64>(n, -99, 99);
    auto px = p.permute(x), ix = p.inv_permute(x);
    for (int i = 0; i < n; ++i) { EQ(px[i], x[a[i]]); EQ(ix[a[i]], x[i]); }
    EQV(p.permute(ix), x); EQV(p.inv_permute(px), x);
    Permutation pq = p * q; for (int i = 0; i < n; ++i) EQ(pq[i], a[b[i]]);
    Permutation r = p; r *= q; EQV((VI)r, (VI)pq); { Permutation s = p; s *= s; for (int i = 0; i < n; ++i) EQ(s[i], a[a[i]]); }
    Permutation v = p.inv(); EQV((VI)(p * v), iota); EQV((VI)(v * p), iota); EQV((VI)v.inv(), a);
    long long k = rng.pct(30) ? std::numeric_limits<long long>::max() - rng(0, 20) : rng.coin() ? rng(0, 30) : rng(0, 1000000000000000000LL);
    Permutation w = p.pow(k);
    // model: binary powering
    VI m = iota, base = a; for (unsigned long long e = k; e; e >>= 1) { if (e & 1) { VI t(n); for (int i = 0; i < n; ++i) t[i] = base[m[i]]; m = t; } VI t(n); for (int i = 0; i < n; ++i) t[i] = base[base[i]]; base = t; }
    EQV((VI)w, m);
}
SCENARIO(perm_index_sort, 500) {
    int n = rng.size(0, 40); auto x = rng.vec<int>(n, 0, 1000000);
    for (int i = 0; i < n; ++i) x[i] = x[i] * 64 + i;   // distinct keys
    auto p = Permutation::index_sort(x); for (int i = 0; i + 1 < n; ++i) REQUIRE(x[p[i]] < x[p[i + 1]]);
    auto q = Permutation::index_sort(x, std::greater<int>()); for (int i = 0; i + 1 < n; ++i) REQUIRE(x[q[i]] > x[q[i + 1]]);
    std::set<int> s(p.begin(), p.end()); EQ((int)s.size(), n); EQ((int)p.size(), n);
    auto y = rng.vec<int>(n, 0, 3); auto r = Permutation::index_sort(y); for (int i = 0; i + 1 < n; ++i) REQUIRE(y[r[i]] <= y[r[i + 1]]);
    std::set<int> t(r.begin(), r.end()); EQ((int)t.size(), n);
}
SCENARIO(perm_hash, 60) {
    int n = rng(0, 6); i64 f = 1; for (int i = 2; i <= n; ++i) f *= i;
    VI a(n); std::iota(a.begin(), a.end(), 0); std::set<u64> seen;
    do { u64 h = PermutationHash<u64>::hash(Permutation(a)); REQUIRE((i64)h < f, h, n); REQUIRE(seen.insert(h).second, "collision"); EQV((VI)PermutationHash<u64>::unhash(n, h), a); EQ(PermutationHash<u64>()(Permutation(a)), h); } while (std::next_permutation(a.begin(), a.end()));
    EQ((i64)seen.size(), f);
    int N = rng(7, 20); VI b = rng.perm(N); u64 h = PermutationHash<u64>::hash(Permutation(b)); u64 F = 1; for (int i = 2; i <= N; ++i) F *= i; REQUIRE(h < F); EQV((VI)PermutationHash<u64>::unhash(N, h), b);
    u64 g = rng.u() % F; EQ(PermutationHash<u64>::hash(PermutationHash<u64>::unhash(N, g)), g);
    int M = rng(1, 12); VI c = rng.perm(M); int hi = PermutationHash<int>::hash(Permutation(c)); EQV((VI)PermutationHash<int>::unhash(M, hi), c); { int W = (int)rng.in(21, 33); VI w = rng.perm(W); using u128_ = unsigned __int128; u128_ hw = PermutationHash<u128_>::hash(Permutation(w)), FW = 1; for (int i = 2; i <= W; ++i) FW *= i; REQUIRE(hw < FW, W); EQV((VI)PermutationHash<u128_>::unhash(W, hw), w); }
}
// ---------------------------------------------------------------- matrices of cells
SCENARIO(rot_transpose, 600) {
    int n = rng.size(0, 8), m = rng.size(0, 8);
    std::vector<std::vector<int>> a(n, std::vector<int>(m)); for (auto& r : a) for (auto& x : r) x = rng(0, 99);
    std::vector<std::string> s(n, std::string(m, ' ')); for (auto& r : s) for (auto& x : r) x = (char)rng('a', 'z');
    auto T = transpose(a); auto R = rot90(a); auto ts = transpose(s); auto rs = rot90(s);
    if (n == 0) { EQ(T.size() + R.size() + ts.size() + rs.size(), (std::size_t)0); return; }
    EQ((int)T.size(), m); EQ((int)R.size(), m); EQ((int)ts.size(), m); EQ((int)rs.size(), m);
    for (int j = 0; j < m; ++j) {
        EQ((int)T[j].size(), n); EQ((int)R[j].size(), n); EQ((int)ts[j].size(), n); EQ((int)rs[j].size(), n);
        for (int i = 0; i < n; ++i) { EQ(T[j][i], a[i][j]); EQ(ts[j][i], s[i][j]); EQ(R[m - 1 - j][i], a[i][j]); EQ(rs[m - 1 - j][i], s[i][j]); }
    }
    if (n && m) { auto q = rot90(rot90(R)); q = rot90(q); REQUIRE(q == a); REQUIRE(transpose(T) == a); }
}
SCENARIO(grid, 800) {
    int H = rng.size(1, 6), W = rng.size(1, 6), x = rng(-2, 7), y = rng(-2, 7), xl = rng(-3, 3), yl = rng(-3, 3), xr = xl + rng(0, 5), yr = yl + rng(0, 5);
    using PV = std::vector<std::pair<int, int>>;
    auto model = [&](int d8, bool bounded, int a, int b, int c, int d) { std::set<std::pair<int, int>> s; for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) if ((i || j) && (d8 || !i || !j)) { int u = x + i, v = y + j; if (!bounded || (a <= u && u < b && c <= v && v < d)) s.insert({u, v}); } return s; };
    auto cmp = [&](auto cells, std::set<std::pair<int, int>> w) { PV g; for (auto [u, v] : cells) g.emplace_back(u, v); PV g2 = cells; REQUIRE(g == g2); std::set<std::pair<int, int>> s(g.begin(), g.end()); EQ(s.size(), g.size()); REQUIRE(s == w); };
    cmp(adjacent_four_cells(x, y), model(0, false, 0, 0, 0, 0)); cmp(adjacent_eight_cells(x, y), model(1, false, 0, 0, 0, 0));
    cmp(adjacent_four_cells(x, y, H, W), model(0, true, 0, H, 0, W)); cmp(adjacent_eight_cells(x, y, H, W), model(1, true, 0, H, 0, W));
    cmp(adjacent_four_cells(x, y, xl, xr, yl, yr), model(0, true, xl, xr, yl, yr)); cmp(adjacent_eight_cells(x, y, xl, xr, yl, yr), model(1, true, xl, xr, yl, yr));
    std::set<std::pair<int, int>> f, e; for (auto [u, v] : dxy4) f.insert({u + x, v + y}); for (auto [u, v] : dxy8) e.insert({u + x, v + y});
    REQUIRE(f == model(0, false, 0, 0, 0, 0)); REQUIRE(e == model(1, false, 0, 0, 0, 0));
    EQ(in_range(x, xl, xr), xl <= x && x < xr); EQ(out_range(x, xl, xr), !(xl <= x && x < xr)); EQ(in_range(x, H), 0 <= x && x < H); EQ(out_range(x, H), !(0 <= x && x < H));
    i64 X = rng(-3, 3) * 4000000000LL, R = rng(0, 3) * 4000000000LL; EQ(in_range(X, R), 0 <= X && X < R); EQ(out_range(X, R), !(0 <= X && X < R));
}
// ---------------------------------------------------------------- hashes
SCENARIO(hash_containers, 300) {
    std::unordered_map<std::pair<int, i64>, int> m; std::map<std::pair<int, i64>, int> mm;
    std::unordered_set<std::tuple<int, std::string, char>> t; std::set<std::tuple<int, std::string, char>> tt;
    std::unordered_set<std::array<int, 3>> a; std::set<std::array<int, 3>> aa; std::unordered_set<std::pair<std::tuple<int>, std::array<i64, 1>>> n; std::set<std::pair<std::tuple<int>, std::array<i64, 1>>> nn;
    for (int q = rng(0, 200); q--;) {
        std::pair<int, i64> k(rng(-3, 3), rng(-3, 3)); int v = rng(0, 9); m[k] = v; mm[k] = v;
        std::tuple<int, std::string, char> u(rng(0, 3), rng.string(rng(0, 2), 2), (char)rng(0, 1)); if (rng.pct(70)) { t.insert(u); tt.insert(u); } else { EQ(t.erase(u), tt.erase(u)); }
        std::array<int, 3> r{(int)rng(0, 2), (int)rng(0, 2), (int)rng(0, 2)}; EQ(a.insert(r).second, aa.insert(r).second);
        std::pair<std::tuple<int>, std::array<i64, 1>> w{std::tuple<int>(rng(0, 3)), {rng(0, 3)}}; EQ(n.insert(w).second, nn.insert(w).second);
        { std::hash<std::pair<int, i64>> H; std::pair<int, i64> k2 = k; EQ(H(k), H(k2)); }
    }
    EQ(m.size(), mm.size()); for (auto& [k, v] : mm) { auto it = m.find(k); REQUIRE(it != m.end()); EQ(it->second, v); }
    EQ(t.size(), tt.size()); for (auto& u : tt) REQUIRE(t.count(u)); EQ(n.size(), nn.size());
    // order and every component matter: a small grid of pairs must not collapse
    std::set<std::size_t> hs; for (int i = 0; i < 30; ++i) for (int j = 0; j < 30; ++j) hs.insert(std::hash<std::pair<int, int>>()({i, j})); REQUIRE(hs.size() >= 600, hs.size());
    hs.clear(); for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) for (int k = 0; k < 9; ++k) hs.insert(std::hash<std::array<int, 3>>()({i, j, k})); REQUIRE(hs.size() >= 300, hs.size());
    hs.clear(); for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) for (int k = 0; k < 9; ++k) hs.insert(std::hash<std::tuple<int, int, int>>()({i, j, k})); REQUIRE(hs.size() >= 300, hs.size());
}
// ---------------------------------------------------------------- pair / tuple operators
SCENARIO(pair_tuple_ops, 600) {
    using namespace suisen;
    std::pair<int, i64> p(rng(-99, 99), rng(-99, 99)), q(rng(-99, 99), rng(-99, 99)); int k = rng(-9, 9);
    auto is = [](std::pair<int, i64> g, i64 a, i64 b) { EQ((i64)g.first, a); EQ(g.second, b); };
    is(p + q, p.first + q.first, p.second + q.second); is(p - q, p.first - q.first, p.second - q.second); is(p * k, p.first * k, p.second * k); is(k * p, p.first * k, p.second * k);
    { auto r = p; auto& s = (r += q); REQUIRE(&s == &r); is(r, p.first + q.first, p.second + q.second); } { auto r = p; r -= q; is(r, p.first - q.first, p.second - q.second); } { auto r = p; r *= k; is(r, p.first * k, p.second * k); }
    { auto r = p; r += r; is(r, 2 * p.first, 2 * p.second); r -= r; is(r, 0, 0); }
    using T = std::tuple<int, i64, double>; T t(rng(-99, 99), rng(-99, 99), rng(-99, 99)), u(rng(-99, 99), rng(-99, 99), rng(-99, 99)); int d = rng(1, 9);
    auto ist = [](T g, i64 a, i64 b, double c) { EQ((i64)std::get<0>(g), a); EQ(std::get<1>(g), b); EQ(std::get<2>(g), c); };
    auto [t0, t1, t2] = t; auto [u0, u1, u2] = u;
    ist(t + u, t0 + u0, t1 + u1, t2 + u2); ist(t - u, t0 - u0, t1 - u1, t2 - u2); ist(t * k, t0 * k, t1 * k, t2 * k); ist(k * t, t0 * k, t1 * k, t2 * k); ist(t / d, t0 / d, t1 / d, t2 / d);
    { T r = t; auto& s = (r += u); REQUIRE(&s == &r); ist(r, t0 + u0, t1 + u1, t2 + u2); } { T r = t; r -= u; ist(r, t0 - u0, t1 - u1, t2 - u2); } { T r = t; r *= k; ist(r, t0 * k, t1 * k, t2 * k); } { T r = t; r /= d; ist(r, t0 / d, t1 / d, t2 / d); } { T r = t; r += r; ist(r, 2 * t0, 2 * t1, 2 * t2); }
    std::tuple<int> one(3); one += one; EQ(std::get<0>(one), 6);
    // scaling by one of the value's own components
    { std::pair<int, int> r(rng(2, 9), rng(2, 9)); auto o = r; r *= r.first; EQ(r.first, o.first * o.first); EQ(r.second, o.second * o.first); }
    { std::tuple<int, int> r(rng(2, 9), rng(2, 9)); auto o = r; r *= std::get<0>(o); EQ(std::get<1>(r), std::get<1>(o) * std::get<0>(o)); }
}
// the same workloads at realistic sizes
RESCALE(perm_index_sort, 4, 32);
RESCALE(perm_algebra, 4, 512);
RESCALE(grid, 4, 512);
RESCALE(rot_transpose, 4, 256);
