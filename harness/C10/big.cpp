// Range queries at contest sizes: for a fixed left end, the answers for all right ends follow incrementally.
#include "mon.hpp"
#include <tuple>
#include <sstream>
#include "library/range_query/static range_count_distinct.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_mode_query.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
#include "library/datastructure/sparse_table.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/datastructure/permutation_tree.hpp"
using namespace suisen; using mon::Rng;
static int bign(Rng& rng) { switch (rng.in(0, 3)) { case 0: return 65536 + (int)rng.in(-1, 2); case 1: return 131072 + (int)rng.in(0, 3); case 2: return (int)rng.in(150000, 200000); default: return (int)rng.in(60000, 131071); } }
SCENARIO(big_count_distinct, 4) {
    int n = bign(rng); i64 V = rng.pick(std::vector<i64>{ 300, n, 2 * n, 2000000000 }); std::vector<int> a(n); for (auto& x : a) x = (int)(rng.in(0, V) - V / 2); if (rng.coin()) { std::iota(a.begin(), a.end(), -n / 2); rng.shuffle(a); a[rng.in(0, n - 1)] = a[0]; } LOG("n", n, "V", V); StaticRangeCountDistinctOffline s(a); std::vector<int> w; s.reserve(3);
    for (int t = 0; t < 8; ++t) { int l = t == 0 ? 0 : (int)rng(0, n); std::unordered_map<int, int> c; int d = 0; std::vector<int> at(n + 1 - l); for (int r = l; r <= n; ++r) { if (r > l) d += ++c[a[r - 1]] == 1; at[r - l] = d; } std::vector<int> rs(n + 1 - l); std::iota(rs.begin(), rs.end(), l); if (rng.coin()) rng.shuffle(rs); for (int r : rs) if (t < 2 || rng.pct(20)) { s.add_query(l, r); w.push_back(at[r - l]); } }
    EQV(s.solve(), w);
}
SCENARIO(big_range_mode, 4) {
    int n = bign(rng); int V = rng.pick(std::vector<int>{ 0, 1, 300, n / 3, n }); std::vector<int> a(n); for (auto& x : a) x = (int)rng.in(0, V) * (int)rng.in(0, 1); LOG("n", n, "V", V); StaticRangeModeQuery<int> s(a);
    for (int t = 0; t < 6; ++t) { int l = t == 0 ? 0 : (int)rng(0, n - 1); std::vector<int> c(V + 1); int best = 0; std::vector<std::pair<int, int>> qs; for (int r = l + 1; r <= n; ++r) { best = std::max(best, ++c[a[r - 1]]); if (rng.in(0, 50) == 0 || r == n || ((r & (r - 1)) == 0)) { auto [v, f] = s.query(l, r); EQ(f, best); REQUIRE(0 <= v && v <= V && c[v] == best, "reported mode does not have the reported frequency"); } } }
}
template <class T, int B> void big_mex(Rng& rng) {
    int n = bign(rng); u64 lim = B == 64 ? ~0ull : (1ull << B) - 1; if (std::is_signed_v<T> && B >= 31) lim = (u64)std::numeric_limits<T>::max(); std::vector<T> a(n); u64 V = rng.pick(std::vector<u64>{ 0, 100, 5000, (u64)n / 2, 65535, (u64)n - 1, 200000 }); V = std::min(V, lim); if (rng.coin()) { for (int i = 0; i < n; ++i) a[i] = T((u64)i & lim); rng.shuffle(a); } else for (auto& x : a) x = (T)(rng.in(0, (i64)V)); if (rng.pct(40)) for (auto& x : a) if (rng.in(0, 9)) x = 0; LOG("n", n, "V", V); RangeXoredMexQuery<T, B> s(a);
    for (int t = 0; t < 5; ++t) { int l = t == 0 ? 0 : (int)rng(0, n); T x = t == 0 ? T(0) : rng.coin() ? (T)rng.in(0, (i64)V) : (T)rng.wide(lim); std::vector<char> seen(1 << 18); int w = 0; for (int r = l; r <= n; ++r) { if (r > l) { u64 v = (u64)(a[r - 1] ^ x); if (v < seen.size()) seen[v] = 1; while (seen[w]) ++w; } if (rng.in(0, 40) == 0 || r == n || r < l + 20 || ((r & (r - 1)) == 0)) EQ((u64)s.minimum_excluded(l, r, x), (u64)w); } }
}
SCENARIO(big_range_xored_mex, 5) { switch (rng.in(0, 4)) { case 0: big_mex<int, 30>(rng); break; case 1: big_mex<unsigned, 32>(rng); break; case 2: big_mex<u64, 64>(rng); break; case 3: big_mex<int, 16>(rng); break; default: big_mex<int, 17>(rng); } }
using P = std::pair<int, int>; static P pmin(P a, P b) { return std::min(a, b); } static P pinf() { return { INT_MAX, INT_MAX }; }
SCENARIO(big_sparse_table, 4) {
    int n = bign(rng); std::vector<P> a(n); for (int i = 0; i < n; ++i) a[i] = { rng.coin() ? (int)rng.in(0, 5) : (int)rng.in(INT_MIN, INT_MAX), i }; if (rng.coin()) for (int i = 0; i < n; ++i) a[i].first = rng.coin() ? i : -i; LOG("n", n); SparseTable<P, pmin, pinf> s(a);
    for (int t = 0; t < 5; ++t) { int l = t == 0 ? 0 : (int)rng(0, n); P w = pinf(); for (int r = l; r <= n; ++r) { if (r > l) w = std::min(w, a[r - 1]); EQ(s(l, r), w, l, r); } }
}
template <class B, class C> void big_cart(Rng& rng) {
    C lt; int n = bign(rng); std::vector<int> a(n); int st = (int)rng.in(0, 4); for (int i = 0; i < n; ++i) a[i] = st == 0 ? (int)rng.in(0, 3) : st == 1 ? i : st == 2 ? -i : st == 3 ? std::abs(i - n / 2) : (int)rng.in(INT_MIN, INT_MAX); LOG("n", n, "style", st); B bld(a); CartesianTree t = bld.build(); EQ((int)t.size(), n); auto rg = t.ranges(); EQ((int)rg.size(), n);
    std::vector<std::tuple<int, int, int, int>> st2{ { 0, n, t.root, -1 } }; int seen = 0; std::vector<int> L(n), R(n), sk; // strict extreme bounds: [L, R) is the maximal range where nothing beats a[i]
    for (int i = 0; i < n; ++i) { while (!sk.empty() && !lt(a[sk.back()], a[i])) sk.pop_back(); L[i] = sk.empty() ? 0 : sk.back() + 1; sk.push_back(i); } sk.clear(); for (int i = n - 1; i >= 0; --i) { while (!sk.empty() && !lt(a[sk.back()], a[i])) sk.pop_back(); R[i] = sk.empty() ? n : sk.back(); sk.push_back(i); }
    while (!st2.empty()) { auto [l, r, m, par] = st2.back(); st2.pop_back(); if (l == r) { EQ(m, -1); continue; } REQUIRE(l <= m && m < r, "node outside its range"); ++seen; REQUIRE(L[m] <= l && r <= R[m], "heap order"); EQ(bld[m], par); EQ(rg[m], std::make_pair(l, r)); st2.emplace_back(l, m, t[m][0], m); st2.emplace_back(m + 1, r, t[m][1], m); }
    EQ(seen, n);
}
SCENARIO(big_cartesian_tree, 4) { if (rng.coin()) big_cart<MinCartesianTreeBuilder, std::less<int>>(rng); else big_cart<MaxCartesianTreeBuilder, std::greater<int>>(rng); }
// number of intervals of a permutation: sweep r, keep f(l) = max - min - (r - l) in a range-add / min-count tree
static i64 count_intervals(const std::vector<int>& p) {
    int n = (int)p.size(), m = 1; while (m < n) m *= 2; std::vector<int> mn(2 * m), lz(2 * m), ct(2 * m); for (int i = 0; i < m; ++i) ct[i + m] = i < n, mn[i + m] = i < n ? i : 1 << 29; for (int i = m; --i;) { mn[i] = std::min(mn[2 * i], mn[2 * i + 1]); ct[i] = (mn[2 * i] == mn[i] ? ct[2 * i] : 0) + (mn[2 * i + 1] == mn[i] ? ct[2 * i + 1] : 0); }
    auto add = [&](auto&& self, int k, int l, int r, int a, int b, int v) -> void { if (b <= l || r <= a) return; if (a <= l && r <= b) { mn[k] += v; lz[k] += v; return; } int c = (l + r) / 2; self(self, 2 * k, l, c, a, b, v); self(self, 2 * k + 1, c, r, a, b, v); int x = mn[2 * k], y = mn[2 * k + 1]; mn[k] = std::min(x, y) + lz[k]; ct[k] = (x <= y ? ct[2 * k] : 0) + (y <= x ? ct[2 * k + 1] : 0); };
    // f(l) + r where initial value l accounts for -(r - l) = l - r
    auto cnt = [&](auto&& self, int k, int l, int r, int b, int v) -> i64 { if (l >= b || mn[k] > v) return 0; if (r <= b) return mn[k] == v ? ct[k] : 0; int c = (l + r) / 2; return self(self, 2 * k, l, c, b, v - lz[k]) + self(self, 2 * k + 1, c, r, b, v - lz[k]); };
    std::vector<int> hi, lo; i64 tot = 0;
    for (int r = 0; r < n; ++r) { while (!hi.empty() && p[hi.back()] < p[r]) { int e = hi.back(); hi.pop_back(); add(add, 1, 0, m, hi.empty() ? 0 : hi.back() + 1, e + 1, p[r] - p[e]); } hi.push_back(r); while (!lo.empty() && p[lo.back()] > p[r]) { int e = lo.back(); lo.pop_back(); add(add, 1, 0, m, lo.empty() ? 0 : lo.back() + 1, e + 1, p[e] - p[r]); } lo.push_back(r); tot += cnt(cnt, 1, 0, m, r + 1, r); }
    return tot;
}
static std::vector<int> subst_perm(Rng& rng, int n) { // iterated substitution, inner blocks of width >= 2
    std::vector<int> q{ 0 }; while ((int)q.size() < n) { int k = (int)rng.in(2, std::max<i64>(2, std::min<i64>(400, n / (i64)q.size()))); std::vector<std::vector<int>> in; std::vector<int> f; int m = (int)q.size(), tot = 0; std::vector<int> len(m), base(m), pos(m); for (int i = 0; i < m; ++i) pos[q[i]] = i; for (int i = 0; i < m; ++i) { int w = rng.pct(30) ? 1 : (int)rng.in(1, k); std::vector<int> b; switch (rng.in(0, 2)) { case 0: b = rng.perm(w); break; case 1: b.resize(w); std::iota(b.begin(), b.end(), 0); break; default: b.resize(w); std::iota(b.rbegin(), b.rend(), 0); } len[i] = w; in.push_back(b); tot += w; } int b = 0; for (int v = 0; v < m; ++v) base[pos[v]] = b, b += len[pos[v]]; for (int i = 0; i < m; ++i) for (int x : in[i]) f.push_back(base[i] + x); q = f; } return q;
}
SCENARIO(big_permutation_tree, 4) {
    int st = (int)rng.in(0, 4); int n = (int)rng.in(20000, 70000); std::vector<int> p; if (st == 0) { n = (int)rng.in(3000, 6000); p.resize(n); std::iota(p.begin(), p.end(), 0); if (rng.coin()) std::reverse(p.begin(), p.end()); } else if (st == 1) p = rng.perm(n); else if (st == 2) { p.resize(n); std::iota(p.begin(), p.end(), 0); for (int k = 0; k + 1 < n; k += (int)rng.in(2, 9)) std::swap(p[k], p[k + 1]); } else p = subst_perm(rng, n); n = (int)p.size(); LOG("style", st, "n", n); PermutationTree t(p); i64 tot = 0; std::vector<const PermutationTree*> sk{ &t }; EQ(t.get_index_range(), std::make_pair(0, n)); EQ(t.get_value_range(), std::make_pair(0, n)); int leaves = 0;
    while (!sk.empty()) { auto& u = *sk.back(); sk.pop_back(); if (u.length() == 1) { EQ((int)u.size(), 0); EQ(u.begin_value(), p[u.begin_index()]); ++leaves; ++tot; continue; } i64 k = (i64)u.size(); REQUIRE(k >= 2); int c = u.begin_index(), lo = INT_MAX, hi = 0; bool inc = true, dec = true; i64 sum = 0; for (i64 i = 0; i < k; ++i) { auto& ch = u[i]; EQ(ch.begin_index(), c); c = ch.end_index(); lo = std::min(lo, ch.begin_value()); hi = std::max(hi, ch.end_value()); sum += ch.length(); if (i) { inc &= u[i - 1].end_value() == ch.begin_value(); dec &= ch.end_value() == u[i - 1].begin_value(); } sk.push_back(&ch); } EQ(c, u.end_index()); EQ(lo, u.begin_value()); EQ(hi, u.end_value()); EQ(sum, (i64)u.length()); EQ((i64)(hi - lo), sum); EQ(u.is_join_node(), inc || dec); tot += inc || dec ? k * (k - 1) / 2 : 1; }
    EQ(leaves, n); EQ(tot, count_intervals(p), "number of intervals");
}
