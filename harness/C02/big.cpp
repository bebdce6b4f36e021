// Fenwick trees and sets at contest sizes.
#include "mon.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
using namespace suisen; using mon::Rng; using mon::i64; using mon::u64;
static int bigsize(Rng& rng) { static const int b[] = { 4096, 8192, 32768, 65536, 131072, 262144 }; int p = b[rng(0, 5)]; return p + (rng.coin() ? (int)rng(-2, 2) : (int)rng(0, p / 4)); }
SCENARIO(big_fenwick, 6, 6) { int n = bigsize(rng); std::vector<i64> a(n); bool init = rng.coin(); if (init) for (auto& x : a) x = rng.wides(-1000000000000LL, 1000000000000LL); FenwickTree<i64> f = init ? FenwickTree<i64>(a) : FenwickTree<i64>(n); LOG(n, init); for (int q = 0; q < 15; ++q) { for (int k = 0; k < 2000; ++k) { int i = rng(0, n - 1); i64 v = rng.wides(-1000000000000LL, 1000000000000LL); if (rng.pct(80)) f.add(i, v), a[i] += v; else f[i] = v, a[i] = v; } std::vector<i64> p(n + 1); for (int i = 0; i < n; ++i) p[i + 1] = p[i] + a[i]; for (int k = 0; k < 300; ++k) { int l = rng(0, n), r = rng(l, n); EQ(f.sum(l, r), p[r] - p[l], l, r); } for (int i = 0; i < n; ++i) if (f.sum(i, i + 1) != a[i]) FAIL(i); } }
static int mxi(int a, int b) { return std::max(a, b); } static int mne() { return -1; }
SCENARIO(big_prefix, 5, 6) { int n = bigsize(rng); std::vector<int> a(n); bool init = rng.coin(); for (auto& x : a) x = init ? (int)rng(-1, 1000000) : -1; FenwickTreePrefix<int, mxi, mne> f = init ? FenwickTreePrefix<int, mxi, mne>(a) : FenwickTreePrefix<int, mxi, mne>(n); LOG(n, init); for (int q = 0; q < 10; ++q) { for (int k = 0; k < 300; ++k) { int i = rng(0, n - 1), v = rng(0, q * 400000 + 1000); f.apply(i, v), a[i] = std::max(a[i], v); } int m = -1; EQ(f.prefix_query(0), -1); for (int i = 0; i < n; ++i) { m = std::max(m, a[i]); if (f.prefix_query(i + 1) != m) FAIL(i); } } }
SCENARIO(big_2d, 3, 6) { int n = (int)rng(100, 400), m = (int)rng(100, 400); std::vector<std::vector<i64>> a(n, std::vector<i64>(m)); FenwickTree2D<i64> f(n, m); LOG(n, m); for (int q = 0; q < 10; ++q) { for (int k = 0; k < 1000; ++k) { int i = rng(0, n - 1), j = rng(0, m - 1); i64 v = rng.wides(-1000000000000LL, 1000000000000LL); f.add(i, j, v), a[i][j] += v; } std::vector<std::vector<i64>> p(n + 1, std::vector<i64>(m + 1)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) p[i + 1][j + 1] = p[i][j + 1] + p[i + 1][j] - p[i][j] + a[i][j]; for (int k = 0; k < 300; ++k) { int u = rng(0, n), d = rng(u, n), l = rng(0, m), r = rng(l, m); EQ(f.sum(u, d, l, r), p[d][r] - p[u][r] - p[d][l] + p[u][l]); } } }
SCENARIO(big_set, 8, 6) { int n = rng.coin() ? bigsize(rng) : (int)rng(262144, 1100000); std::vector<char> in(n); fenwick_tree_set s(n); LOG(n); switch (rng(0, 3)) { case 0: s = fenwick_tree_set(n, true); std::fill(in.begin(), in.end(), 1); break; case 1: { std::vector<int> v; for (int k = (int)rng(0, n); k--;) v.push_back((int)rng(0, n - 1)), in[v.back()] = 1; s = fenwick_tree_set(n, v); break; } case 2: { for (auto& x : in) x = rng.coin(); std::vector<int> b(in.begin(), in.end()); s = fenwick_tree_set(b); break; } default: break; }
    for (int q = 0; q < 8; ++q) { int dens = rng(0, 2); for (int k = 0; k < 2000; ++k) { int i = dens == 0 ? (int)rng(0, n - 1) : (int)std::min<i64>(n - 1, ((i64)rng(0, n - 1) >> 12 << 12) + rng(-1, 65) + (dens == 2 ? k : 0)); i = std::max(i, 0); if (rng.coin()) { if (s.insert(i) == (bool)in[i]) FAIL(i); in[i] = 1; } else { if (s.erase(i) != (bool)in[i]) FAIL(i); in[i] = 0; } } if (q == 3) { int l = rng(0, n), r = rng(l, n); for (int i = l; i < r; ++i) s.erase(i), in[i] = 0; } std::vector<int> el; std::vector<int> cnt(n + 1); for (int i = 0; i < n; ++i) { if (in[i]) el.push_back(i); cnt[i + 1] = el.size(); } EQ(s.size(), (int)el.size()); int m = el.size();
        for (int k = 0; k < 400; ++k) { int v = rng(-1, n), u = std::clamp(v, 0, n), u1 = std::clamp(v + 1, 0, n); EQ(s.count_lt(v), cnt[u]); EQ(s.count_leq(v), cnt[u1]); EQ(s.count_geq(v), m - cnt[u]); EQ(s.count_gt(v), m - cnt[u1]); EQ(s.max_leq(v), cnt[u1] ? el[cnt[u1] - 1] : -1); EQ(s.max_lt(v), cnt[u] ? el[cnt[u] - 1] : -1); EQ(s.min_geq(v), cnt[u] < m ? el[cnt[u]] : -1); EQ(s.min_gt(v), cnt[u1] < m ? el[cnt[u1]] : -1); int j = rng(-1, m); EQ(s.kth_element(j), 0 <= j && j < m ? el[j] : -1); EQ(s.lower_bound(v).index(), cnt[u]); EQ(s.contains(v), 0 <= v && v < n && in[v]); } } std::vector<int> el; for (int i = 0; i < n; ++i) if (in[i]) el.push_back(i); size_t j = 0; for (int x : s) { if (j >= el.size() || el[j] != x) FAIL(j, x); ++j; } EQ(j, el.size()); }
SCENARIO(big_persistent, 4, 6) { int n = bigsize(rng) / 4 + 1; using F = PersistentFenwickTree<i64>; F::init_pool(4 * n + 40000); std::vector<i64> a(n); bool init = rng.coin(); if (init) for (auto& x : a) x = rng.wides(-1000000000000LL, 1000000000000LL); F cur = init ? F(a) : F(n); LOG(n, init); std::vector<std::pair<F, std::vector<std::pair<int, i64>>>> vs; std::vector<std::pair<int, i64>> log; auto a0 = a; for (int q = 0; q < 1000; ++q) { int i = rng(0, n - 1); i64 v = rng.wides(-1000000000000LL, 1000000000000LL); cur = cur.add(i, v); log.emplace_back(i, v); if (q % 60 == 0) vs.emplace_back(cur, log); } for (auto& [f, lg] : vs) { a = a0; for (auto [i, v] : lg) a[i] += v; std::vector<i64> p(n + 1); for (int i = 0; i < n; ++i) p[i + 1] = p[i] + a[i]; for (int k = 0; k < 150; ++k) { int l = rng(0, n), r = rng(l, n); EQ(f.sum(l, r), p[r] - p[l], l, r); } for (auto [i, v] : lg) EQ(f.sum(i, i + 1), a[i]); } }
