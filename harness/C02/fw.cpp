#include "mon.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
using namespace suisen; using mon::Rng;
template <class T> void point_range(Rng& rng, i64 lo, i64 hi) {
    int n = rng.size(0, 140); std::vector<T> a(n, T{}); FenwickTree<T> f;
    switch (rng(0, 3)) {
    case 0: f = FenwickTree<T>(n); break;
    case 1: for (auto& x : a) x = (T)rng.wides(lo, hi); f = FenwickTree<T>(a); break;
    case 2: { for (auto& x : a) x = (T)rng.wides(lo, hi); auto b = a; f = FenwickTree<T>(std::move(b)); break; }
    default: n = 0; a.clear(); break;
    }
    EQ(f.size(), n); EQ(f.sum(0, 0), T{});
    auto sum = [&](int l, int r) { T s{}; for (int i = l; i < r; ++i) s += a[i]; return s; };
    auto full = [&] { for (int i = 0; i < n; ++i) { EQ((T)f[i], a[i]); } for (int k = 0; k < 10; ++k) { int l = rng(0, n), r = rng(l, n); EQ(f.sum(l, r), sum(l, r)); EQ(f(l, r), sum(l, r)); } EQ(f.sum(0, n), sum(0, n)); };
    full();
    if (!n) return;
    for (int q = rng.size(1, 80); q--;) {
        int i = rng.pct(20) ? (rng.coin() ? 0 : n - 1) : rng(0, n - 1); T v = (T)rng.wides(lo, hi);
        int op = rng(0, 9); LOG("op", op, i, v);
        switch (op) {
        case 0: case 1: f.add(i, v), a[i] += v; break;
        case 2: f[i] += v, a[i] += v; break;
        case 3: f[i] -= v, a[i] -= v; break;
        case 4: f[i] = v, a[i] = v; break;
        case 5: ++f[i], a[i] += 1; break;
        case 6: --f[i], a[i] -= 1; break;
        case 7: { T m = (T)rng(0, 3); f[i] *= m, a[i] *= m; break; }
        case 8: { T m = (T)rng(1, 9); f[i] /= m, a[i] /= m; break; }
        case 9: { T m = (T)rng(1, 9); f[i] %= m, a[i] %= m; break; }
        }
        a[i] = (T)a[i];
        int l = rng(0, n), r = rng(l, n); EQ(f.sum(l, r), sum(l, r)); EQ((T)f[i], a[i]);
        if constexpr (std::is_signed_v<T>) if (a[i] > hi || a[i] < lo) { f[i] = 0, a[i] = 0; }
    }
    full();
    auto g = f; if (n) { g.add(n - 1, 1); EQ((T)f[n - 1], a[n - 1]); EQ((T)g[n - 1], (T)(a[n - 1] + 1)); }
}
SCENARIO(fenwick_ll, 1200) { point_range<i64>(rng, -1000000000000LL, 1000000000000LL); }
SCENARIO(fenwick_int, 400) { point_range<int>(rng, -100000, 100000); }
SCENARIO(fenwick_u64, 400) { point_range<u64>(rng, 0, (i64)(~0ULL >> 1)); }
SCENARIO(fenwick_2d, 500) {
    int n = rng.size(1, 18), m = rng.size(1, 18); FenwickTree2D<i64> f(n, m); std::vector<std::vector<i64>> a(n, std::vector<i64>(m));
    auto sum = [&](int xl, int xr, int yl, int yr) { i64 s = 0; for (int x = xl; x < xr; ++x) for (int y = yl; y < yr; ++y) s += a[x][y]; return s; };
    for (int q = rng.size(1, 60); q--;) {
        int i = rng(0, n - 1), j = rng(0, m - 1); i64 v = rng.wides(-1000000000, 1000000000); std::pair<int, int> p{ i, j };
        switch (rng(0, 8)) {
        case 0: case 1: f.add(i, j, v), a[i][j] += v; break;
        case 2: f[p] += v, a[i][j] += v; break;
        case 3: f[p] -= v, a[i][j] -= v; break;
        case 4: f[p] = v, a[i][j] = v; break;
        case 5: ++f[p], ++a[i][j]; --f[{0, m - 1}], --a[0][m - 1]; break;
        case 6: v %= 4; f[p] *= v, a[i][j] *= v; break;
        case 7: f[p] /= 7, a[i][j] /= 7; break;
        case 8: f[p] %= 7, a[i][j] %= 7; break;
        }
        if (std::abs(a[i][j]) > 1e12) f[p] = 0, a[i][j] = 0;
        for (int k = 0; k < 3; ++k) { int xl = rng(0, n), xr = rng(xl, n), yl = rng(0, m), yr = rng(yl, m); EQ(f.sum(xl, xr, yl, yr), sum(xl, xr, yl, yr)); EQ(f(xl, xr, yl, yr), sum(xl, xr, yl, yr)); }
        EQ((i64)f[p], a[i][j]);
    }
}
static int mx(int a, int b) { return std::max(a, b); } static int mne() { return INT_MIN; }
static u64 ad(u64 a, u64 b) { return a + b; } static u64 ze() { return 0; }
template <class T, T(*op)(T, T), T(*e)()> void prefix(Rng& rng) {
    int n = rng.size(0, 140); std::vector<T> a(n, e()); using F = FenwickTreePrefix<T, op, e>; F f(n);
    if (rng.coin()) { for (auto& x : a) x = (T)rng.wides(0, 1000000000); f = F(a); } else if (!n) f = F();
    auto q = [&](int r) { T s = e(); for (int i = 0; i < r; ++i) s = op(s, a[i]); return s; };
    for (int r = 0; r <= n; ++r) EQ(f.prefix_query(r), q(r));
    if (n) for (int k = rng.size(1, 80); k--;) { int i = rng(0, n - 1); T v = (T)rng.wides(0, 1000000000); f.apply(i, v); a[i] = op(a[i], v); int r = rng(0, n); EQ(f.prefix_query(r), q(r)); EQ(f.prefix_query(i + 1), q(i + 1)); }
    for (int r = 0; r <= n; ++r) EQ(f.prefix_query(r), q(r));
}
SCENARIO(prefix_max, 600) { prefix<int, mx, mne>(rng); }
SCENARIO(prefix_add, 600) { prefix<u64, ad, ze>(rng); }
static void set_obs(const fenwick_tree_set& f, const std::set<int>& s, int v) {
    LOG("observe", v);
    EQ(f.size(), (int)s.size()); EQ(f.contains(v), s.count(v) > 0);
    auto lb = s.lower_bound(v), ub = s.upper_bound(v);
    int lt = std::distance(s.begin(), lb), le = std::distance(s.begin(), ub), n = s.size();
    EQ(f.count_lt(v), lt); EQ(f.count_leq(v), le); EQ(f.count_gt(v), n - le); EQ(f.count_geq(v), n - lt);
    EQ(f.min_geq(v), lb == s.end() ? -1 : *lb); EQ(f.min_gt(v), ub == s.end() ? -1 : *ub);
    EQ(f.max_leq(v), ub == s.begin() ? -1 : *std::prev(ub)); EQ(f.max_lt(v), lb == s.begin() ? -1 : *std::prev(lb));
    EQ(f.lower_bound(v).index(), lt); EQ(f.upper_bound(v).index(), le);
    EQ(f.lower_bound(v).has_value(), lt < n); EQ(f.find(v) == f.end(), !s.count(v));
    if (s.count(v)) EQ(*f.find(v), v);
}
static void set_all(const fenwick_tree_set& f, const std::set<int>& s) {
    std::vector<int> e(s.begin(), s.end()), g; for (auto it = f.begin(); it != f.end(); ++it) g.push_back(*it); EQV(g, e);
    for (int k = 0; k < (int)e.size(); ++k) { EQ(f.kth_element(k), e[k]); EQ(f[k], e[k]); }
    EQ(f[-1], -1); EQ(f[(int)e.size()], -1); EQ(f.end() - f.begin(), (int)e.size());
}
SCENARIO(fenwick_set, 1500) {
    int n = rng.pct(10) ? (int)rng(0, 3000) : rng.size(0, 400); std::set<int> s; fenwick_tree_set f(n);
    switch (rng(0, 4)) {
    case 0: break;
    case 1: f = fenwick_tree_set(n, true); for (int i = 0; i < n; ++i) s.insert(i); break;
    case 2: if (n) { auto v = rng.vec(rng.upto(0, n), 0, n - 1); f = fenwick_tree_set(n, v); s.insert(v.begin(), v.end()); } break;
    case 3: { auto v = rng.vec(n, 0, 1); int one = rng(0, 1); f = fenwick_tree_set(v, one); for (int i = 0; i < n; ++i) if (v[i] == one) s.insert(i); break; }
    case 4: n = 0; f = fenwick_tree_set(); break;
    }
    SAMPLE("universe", n, "initial", (int)s.size());
    set_all(f, s);
    int dens = rng(0, 2), lo = 0, hi = std::max(0, n - 1);
    for (int q = rng.size(1, 150); q--;) {
        if (n) {
            if (rng.pct(5)) { lo = rng(0, n - 1); hi = rng(lo, n - 1); }
            int v = rng(lo, hi);
            if (rng(0, 2) < dens) { LOG("insert", v); EQ(f.insert(v), s.insert(v).second); }
            else if (rng.coin() && !s.empty()) { auto it = s.lower_bound(v); if (it == s.end()) it = s.begin(); LOG("erase", *it); v = *it; if (rng.coin()) { EQ(f.erase(v), true); s.erase(it); } else { auto fi = f.erase(f.find(v)); auto nx = s.erase(it); if (nx != s.end()) EQ(*fi, *nx); else EQ(fi == f.end(), true); } }
            else { LOG("erase", v); EQ(f.erase(v), s.erase(v) > 0); }
        }
        int w = rng(0, 5) == 0 ? (int)rng.wides(INT_MIN, INT_MAX) : (int)rng(-3, n + 3);
        if (rng(0, 5) == 0) w = (int)rng(0, n / 64 + 1) * 64 + (int)rng(-1, 1);
        set_obs(f, s, w);
    }
    for (int v : { INT_MIN, INT_MIN + 1, -1, 0, n - 1, n, n + 1, INT_MAX - 1, INT_MAX }) set_obs(f, s, v);
    set_all(f, s);
    auto b = f.begin(); auto c = b + (int)s.size();
    EQ(c == f.end(), true); EQ(c - b, (int)s.size()); EQ(b <= c, true); EQ(c >= b, true); EQ(b < c, s.size() > 0); EQ(c > b, s.size() > 0); EQ(b != c, s.size() > 0);
    if (s.size()) { EQ(b[(int)s.size() - 1], *s.rbegin()); EQ(*(--c), *s.rbegin()); EQ(*(c--), *s.rbegin()); EQ(*(1 + c), *s.rbegin()); c += 1; EQ(*c, *s.rbegin()); c -= (int)s.size() - 1; EQ(*c++, *s.begin()); EQ((c - 1).index(), 0); }
}
SCENARIO(fenwick_set_exhaustive, 1, 1) { // every subset of a small universe, sparse blocks far apart
    for (int n = 0; n <= 8; ++n) for (int m = 0; m < 1 << n; ++m) { fenwick_tree_set f(n); std::set<int> s; for (int i = 0; i < n; ++i) if (m >> i & 1) f.insert(i), s.insert(i); for (int v = -1; v <= n; ++v) set_obs(f, s, v); set_all(f, s); }
    int n = 64 * 5; int pos[5] = { 0, 63, 64, 200, 319 };
    for (int m = 0; m < 32; ++m) { fenwick_tree_set f(n); std::set<int> s; for (int i = 0; i < 5; ++i) if (m >> i & 1) f.insert(pos[i]), s.insert(pos[i]); for (int v = -1; v <= n; ++v) set_obs(f, s, v); set_all(f, s); }
}
SCENARIO(persistent_fenwick, 1000) {
    using F = PersistentFenwickTree<i64>; static bool once = (F::init_pool(20000), true); (void)once; if (rng.mag > 1) F::init_pool(20000 * rng.mag * 2);
    F::clear_pool();
    int n = rng.size(1, 100); std::vector<i64> a(n); std::vector<F> vs; std::vector<std::vector<i64>> ms;
    if (rng.coin()) { for (auto& x : a) x = rng(-1000, 1000); vs.push_back(F(a)); } else vs.push_back(F(n));
    ms.push_back(a);
    auto obs = [&](int k) { int l = rng(0, n), r = rng(l, n); EQ(vs[k].sum(l, r), std::accumulate(ms[k].begin() + l, ms[k].begin() + r, 0LL)); };
    for (int q = rng.size(1, 60); q--;) {
        int k = rng.coin() ? vs.size() - 1 : rng(0, vs.size() - 1), i = rng(0, n - 1); i64 v = rng.wides(-1000000000000LL, 1000000000000LL);
        LOG("version", k, "add", i, v); vs.push_back(vs[k].add(i, v)); auto m = ms[k]; m[i] += v; ms.push_back(m);
        for (int t = 0; t < 4; ++t) obs(rng(0, vs.size() - 1));
    }
    for (int k = 0; k < (int)vs.size(); ++k) { obs(k); for (int i = 0; i < n; ++i) EQ(vs[k].sum(i, i + 1), ms[k][i]); }
}
// the same workloads at realistic sizes
RESCALE(fenwick_ll, 4, 512);
RESCALE(fenwick_int, 4, 512);
RESCALE(prefix_add, 4, 128);
RESCALE(fenwick_set, 4, 64);
RESCALE(fenwick_u64, 4, 256);
RESCALE(prefix_max, 4, 128);
RESCALE(fenwick_2d, 4, 32);
RESCALE(persistent_fenwick, 4, 64);
