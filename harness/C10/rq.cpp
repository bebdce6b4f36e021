// MON: shards=2
#include "mon.hpp"
#include <tuple>
#include <sstream>
#include "library/range_query/static range_count_distinct.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_mode_query.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
#include "library/datastructure/sparse_table.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/datastructure/permutation_tree.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
SCENARIO(count_distinct, 400) {
    int n = rng.size(0, 60); auto a = rng.vec<int>(n, rng.coin() ? -3 : INT_MIN, rng.coin() ? 3 : INT_MAX); StaticRangeCountDistinctOffline s = n || rng.coin() ? StaticRangeCountDistinctOffline(a) : StaticRangeCountDistinctOffline(); std::vector<int> w; int q = rng.size(0, 60); if (rng.coin()) s.reserve(q);
    for (int i = 0; i < q; ++i) { int l = rng(0, n), r = rng(l, n); EQ(s.add_query(l, r), i); w.push_back((int)std::set<int>(a.begin() + l, a.begin() + r).size()); if (rng.pct(3)) EQV(s.solve(), w); } EQV(s.solve(), w); EQV(s.solve(), w);
}
template <class T> void run_inv(Rng& rng) {
    int n = rng.size(0, 50); std::vector<T> a(n); int st = rng(0, 2); for (auto& x : a) x = st == 0 ? (T)rng(0, 3) : st == 1 ? (T)rng(-100, 100) : (T)rng(std::numeric_limits<T>::min(), std::numeric_limits<T>::max()); if (rng.pct(10)) std::sort(a.rbegin(), a.rend());
    StaticRangeInversionNumberQuery<T> s(a); for (int l = 0; l <= n; ++l) { i64 c = 0; for (int r = l; r <= n; ++r) { if (r > l) for (int i = l; i < r - 1; ++i) c += a[i] > a[r - 1]; EQ((i64)s(l, r), c); } }
}
SCENARIO(range_inversion, 300) { if (rng.coin()) run_inv<int>(rng); else run_inv<i64>(rng); }
SCENARIO(range_inversion_large, 1) { // more than 2^32 inversions, many blocks
    const int n = 95000 + (int)rng(0, 300); std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = n - i + (int)rng(0, 40); LOG(n); StaticRangeInversionNumberQuery<int> s(a);
    for (int k = 0; k < 8; ++k) { int l = k == 0 ? 0 : k == 1 ? (int)rng(0, 300) : (int)rng(0, n), r = k == 0 ? n : k == 1 ? n - (int)rng(0, 300) : (int)rng(l, n); std::vector<int> bit(n + 50); i64 c = 0; for (int i = l; i < r; ++i) { int g = 0; for (int x = a[i]; x > 0; x -= x & -x) g += bit[x]; c += (i - l) - g; for (int x = a[i]; x < (int)bit.size(); x += x & -x) ++bit[x]; } EQ((i64)s(l, r), c, l, r); }
}
SCENARIO(range_mode, 400) {
    int n = rng.size(0, 60); auto a = rng.vec<i64>(n, 0, rng.pick(std::vector<int>{ 0, 1, 3, 10, 100 })); if (rng.pct(20)) for (auto& x : a) x = x * 1000000007LL - 5; StaticRangeModeQuery<i64> s(a);
    for (int l = 0; l < n; ++l) { std::map<i64, int> c; int best = 0; for (int r = l + 1; r <= n; ++r) { best = std::max(best, ++c[a[r - 1]]); auto [v, f] = rng.coin() ? s.query(l, r) : s(l, r); EQ(f, best); EQ((c.count(v) ? c[v] : 0), best); } }
}
template <class T, int B> void run_mex(Rng& rng) {
    int n = rng.size(0, 70); std::vector<T> a(n); u64 lim = B >= 31 ? (std::is_signed_v<T> ? (u64)std::numeric_limits<T>::max() : B == 64 ? ~0ull : (1ull << B) - 1) : (1ull << B) - 1; u64 sm = std::min<u64>(lim, rng.pick(std::vector<int>{ 1, 3, 7, 15, 40 })); for (auto& x : a) x = rng.pct(95) ? (T)rng(0, (i64)sm) : (T)rng.wide(lim); if (rng.pct(30)) { std::iota(a.begin(), a.end(), T(0)); for (auto& x : a) x = T((u64)x & lim); rng.shuffle(a); }
    RangeXoredMexQuery<T, B> s(a);
    for (int t = 0; t < 60; ++t) { int l = rng(0, n), r = rng(l, n); if (rng.pct(20)) l = 0, r = n; T x = rng.coin() ? (T)rng(0, (i64)sm) : (T)rng.wide(lim); if (rng.pct(5) && B < 20) x = T(x + (T(1) << B)); std::set<T> z; for (int i = l; i < r; ++i) z.insert(a[i] ^ x); T w = 0; while (z.count(w)) ++w; LOG("q", l, r, x); EQ(s.minimum_excluded(l, r, x), w); }
}
SCENARIO(range_xored_mex, 500) { switch (rng(0, 5)) { case 0: run_mex<int, 3>(rng); break; case 1: run_mex<int, 6>(rng); break; case 2: run_mex<unsigned, 32>(rng); break; case 3: run_mex<u64, 64>(rng); break; case 4: run_mex<int, 30>(rng); break; default: run_mex<int, 1>(rng); } }
// idempotent but order-revealing: (min value, leftmost index)
using P = std::pair<int, int>; P pmin(P a, P b) { return std::min(a, b); } P pinf() { return { INT_MAX, INT_MAX }; }
i64 gcd_op(i64 a, i64 b) { return std::gcd(a, b); } i64 gcd_e() { return 0; }
SCENARIO(sparse_table, 400) {
    int n = rng.size(0, 70); std::vector<P> a(n); for (int i = 0; i < n; ++i) a[i] = { (int)rng(-4, 4), i }; SparseTable<P, pmin, pinf> s = rng.coin() ? SparseTable<P, pmin, pinf>(a) : SparseTable<P, pmin, pinf>(std::vector<P>(a)); auto b = rng.vec<i64>(n, 0, 1000); SparseTable<i64, gcd_op, gcd_e> g(b);
    for (int l = 0; l <= n; ++l) { P w = pinf(); i64 v = 0; for (int r = l; r <= n; ++r) { if (r > l) w = pmin(w, a[r - 1]), v = std::gcd(v, b[r - 1]); EQ(s(l, r), w); EQ(s.prod(l, r), w); EQ(g(l, r), v); } }
}
template <class B, class C> void run_cart(Rng& rng) {
    C lt; int n = rng.size(0, 60); auto a = rng.vec<int>(n, 0, rng.coin() ? 3 : 1000); if (rng.pct(10)) std::sort(a.begin(), a.end()); B bld(a); CartesianTree t = rng.coin() ? bld.build() : B::build(a); EQ((int)t.size(), n);
    if (n == 0) { EQ(t.root, -1); EQ((int)t.ranges().size(), 0); CartesianTree z; EQ((int)z.ranges().size(), 0); return; }
    auto rg = t.ranges(); EQ((int)rg.size(), n); EQ(bld.parent(t.root), -1); int seen = 0;
    // node of [l, r) must be an extreme of [l, r); children exactly the two sides
    auto rec = [&](auto&& self, int l, int r, int m, int par) -> void { if (l == r) { EQ(m, -1); return; } REQUIRE(l <= m && m < r, "node out of its range"); ++seen; for (int i = l; i < r; ++i) REQUIRE(!lt(a[i], a[m]), "heap order"); for (int i = l; i < m; ++i) REQUIRE(lt(a[m], a[i]) || !lt(a[i], a[m])); EQ(bld[m], par); EQ(bld.parent(m), par); EQ(rg[m], std::make_pair(l, r)); self(self, l, m, t[m][0], m); self(self, m + 1, r, t[m][1], m); };
    rec(rec, 0, n, t.root, -1); EQ(seen, n);
}
SCENARIO(cartesian_tree, 500) { if (rng.coin()) run_cart<MinCartesianTreeBuilder, std::less<int>>(rng); else run_cart<MaxCartesianTreeBuilder, std::greater<int>>(rng); }
// separable permutations and inflations of simple ones, to get deep trees
static std::vector<int> gen_perm(Rng& rng, int n) { if (n <= 3 || rng.pct(30)) return rng.perm(n); int k = rng(2, std::min(n, 6)); std::vector<int> cut(k - 1); std::vector<int> all(n - 1); std::iota(all.begin(), all.end(), 1); rng.shuffle(all); for (int i = 0; i < k - 1; ++i) cut[i] = all[i]; std::sort(cut.begin(), cut.end()); cut.insert(cut.begin(), 0); cut.push_back(n); std::vector<int> o = rng.pct(30) ? rng.perm(k) : std::vector<int>(); if (o.empty()) { o.resize(k); std::iota(o.begin(), o.end(), 0); if (rng.coin()) std::reverse(o.begin(), o.end()); } std::vector<int> base(k), pos(k); for (int i = 0; i < k; ++i) pos[o[i]] = i; int b = 0; for (int v = 0; v < k; ++v) { base[pos[v]] = b; b += cut[pos[v] + 1] - cut[pos[v]]; } std::vector<int> r; for (int i = 0; i < k; ++i) { auto s = gen_perm(rng, cut[i + 1] - cut[i]); for (int x : s) r.push_back(base[i] + x); } return r; }
SCENARIO(permutation_tree, 500) {
    int n = rng.size(0, 24); std::vector<int> p = n ? gen_perm(rng, n) : std::vector<int>{}; LOG("p", p); PermutationTree t(p); if (n == 0) { EQ(t.length(), 0); EQ((int)t.size(), 0); return; }
    std::vector<std::pair<int, int>> iv; for (int l = 0; l < n; ++l) { int mn = p[l], mx = p[l]; for (int r = l + 1; r <= n; ++r) { mn = std::min(mn, p[r - 1]); mx = std::max(mx, p[r - 1]); if (mx - mn + 1 == r - l) iv.emplace_back(l, r); } }
    std::set<std::pair<int, int>> ivs(iv.begin(), iv.end()), strong, got; for (auto [l, r] : iv) { bool ok = true; for (auto [a, b] : iv) if ((a < l && l < b && b < r) || (l < a && a < r && r < b)) ok = false; if (ok) strong.insert({ l, r }); }
    auto rec = [&](auto&& self, const PermutationTree& u) -> void {
        int l = u.begin_index(), r = u.end_index(); got.insert({ l, r }); EQ(u.length(), r - l); EQ(u.get_index_range(), std::make_pair(l, r)); EQ(u.get_index_range_closed(), std::make_pair(l, r - 1)); EQ(u.min_index(), l); EQ(u.max_index(), r - 1); int mn = *std::min_element(p.begin() + l, p.begin() + r); EQ(u.begin_value(), mn); EQ(u.end_value(), mn + r - l); EQ(u.min_value(), mn); EQ(u.max_value(), mn + r - l - 1); EQ(u.get_value_range(), std::make_pair(mn, mn + r - l)); EQ(u.get_value_range_closed(), std::make_pair(mn, mn + r - l - 1));
        if (r - l == 1) { EQ((int)u.size(), 0); return; } REQUIRE(u.size() >= 2, "inner node with < 2 children"); int c = l; for (auto& ch : u) { EQ(ch.begin_index(), c); c = ch.end_index(); self(self, ch); } EQ(c, r);
        EQ(u.is_join_node(), ivs.count({ u[0].begin_index(), u[1].end_index() }) == 1); };
    rec(rec, t); EQ(t.length(), n); REQUIRE(got == strong, "nodes are not the strong intervals"); std::ostringstream os; os << t; REQUIRE(!os.str().empty());
}
// the same workloads at realistic sizes
RESCALE(range_xored_mex, 4, 512);
RESCALE(range_mode, 4, 32);
RESCALE(range_inversion, 4, 32);
RESCALE(permutation_tree, 4, 512);
RESCALE(cartesian_tree, 4, 512);
RESCALE(count_distinct, 4, 64);
RESCALE(sparse_table, 4, 64);
