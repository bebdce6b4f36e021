// Offline algorithms at contest sizes, against independent linear or closed-form audits.
// MON: shards=2
#include "mon.hpp"
#include <algorithm>
#include <deque>
#include <set>
#include <map>
#include <variant>
#include "library/algorithm/area_of_union_of_rectangles.hpp"
#include "library/algorithm/dynamic_convex_hull_offline.hpp"
#include "library/algorithm/horn_sat.hpp"
#include "library/algorithm/inversion_number.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/maximum_square.hpp"
#include "library/algorithm/mo.hpp"
#include "library/algorithm/monotone_minima.hpp"
#include "library/algorithm/rmq_pm1.hpp"
#include "library/algorithm/rmq_pm1_with_index.hpp"
#include "library/algorithm/two_sat.hpp"
#include "library/algorithm/offline_dynamic_connectivity.hpp"
#include "library/algorithm/offline_dynamic_connectivity_component_sum.hpp"
using namespace suisen; using mon::Rng; using PI = std::pair<int, int>;
// union area by sweeping the other axis with plain coverage counters on the compressed x axis
SCENARIO(big_area_union, 5) {
    int st = (int)rng.in(0, 4); int n = st == 0 ? 900 : (int)rng.in(66000, 80000); const i64 W = 1000000000; std::vector<std::tuple<i64, i64, i64, i64>> v; u128 want = 0; LOG("style", st, "n", n);
    if (st == 0) { for (int i = 0; i < n; ++i) { i64 a = rng(-W, W), b = rng(-W, W), c = rng(-W, W), d = rng(-W, W); v.emplace_back(std::min(a, b), std::max(a, b), std::min(c, d), std::max(c, d)); if (rng.pct(70)) { auto& [l, r, dd, u] = v.back(); r = std::min(W, l + rng(0, W / 20)); u = std::min(W, dd + rng(0, W / 20)); } }
        std::vector<i64> ys; for (auto& [l, r, d, u] : v) ys.push_back(d), ys.push_back(u); std::sort(ys.begin(), ys.end()); for (size_t k = 0; k + 1 < ys.size(); ++k) if (ys[k] < ys[k + 1]) { std::vector<std::pair<i64, i64>> iv; for (auto& [l, r, d, u] : v) if (d <= ys[k] && ys[k + 1] <= u) iv.emplace_back(l, r); std::sort(iv.begin(), iv.end()); i64 len = 0, e = LLONG_MIN; for (auto [l, r] : iv) { if (r <= e) continue; len += r - std::max(l, e); e = r; } want += (u128)len * (u64)(ys[k + 1] - ys[k]); } }
    else if (st == 1) { i64 x = -W; for (int i = 0; i < n; ++i) { i64 w = rng.in(0, 20000), h = rng(0, W), d = rng(-W, W - h); v.emplace_back(x, x + w, d, d + h); want += (u128)w * h; x += w + rng.in(0, 1); } } // disjoint columns
    else if (st == 2) { for (int i = 0; i < n; ++i) v.emplace_back(-1000 - i, 1000 + 2 * i, -7 - 3 * i, 5 + i); want = (u128)(2000 + 3 * (i64)(n - 1)) * (12 + 4 * (i64)(n - 1)); } // nested
    else if (st == 4) { for (int i = 0; i < n; ++i) v.emplace_back(-1000 - i, 1000 + 2 * i, -7, 5); want = (u128)(2000 + 3 * (i64)(n - 1)) * 12; }
    else { for (int i = 0; i < n; ++i) v.emplace_back(-1000 - i, 1000 + (n - i), -7 - i, 5 + (n - i)); /* diagonal staircase */ want = 0; // x in [t, t+1): covered y is the union of a contiguous run of rectangles
        for (i64 x = -1000 - n + 1; x < 1000 + n; ++x) { i64 lo = std::max<i64>(0, -1000 - x), hi = std::min<i64>(n - 1, 1000 + n - x - 1); if (lo <= hi) { i64 d = -7 - hi, u = 5 + (n - lo); if (true) want += (u128)(u - d); } } }
    rng.shuffle(v); EQ((u128)(u64)area_of_union_of_rectangles<i64>(v), want);
}
SCENARIO(big_dyn_hull, 3) {
    int st = (int)rng.in(0, 2); const i64 R = 1000000000; int n = (int)rng.in(18000, 34000); std::vector<PI> c; for (int i = 0; i < n; ++i) { i64 x = st == 0 ? rng(-R, R) : st == 1 ? rng.in(-30000, 30000) : rng.in(-60, 60); i64 y = st == 1 ? (rng.coin() ? 1 : -1) * (x * x - R + rng.in(0, 1)) : rng(-R, R); c.emplace_back((int)x, (int)y); } std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); rng.shuffle(c); std::vector<int> xs; for (auto [x, y] : c) xs.push_back(x); DynamicConvexHullOffline h(xs); LOG("style", st, "n", n);
    std::vector<PI> s; std::size_t nx = 0; std::vector<PI> gone; for (int t = 0; t < n + n / 2; ++t) { if (s.empty() || (rng.pct(70) && (nx < c.size() || !gone.empty()))) { PI p; if (nx < c.size() && (gone.empty() || rng.pct(80))) p = c[nx++]; else if (!gone.empty()) { std::swap(gone[rng.in(0, (i64)gone.size() - 1)], gone.back()); p = gone.back(); gone.pop_back(); } else continue; h.insert(p.first, p.second); s.push_back(p); } else { std::swap(s[rng.in(0, (i64)s.size() - 1)], s.back()); PI p = s.back(); s.pop_back(); h.erase(p.first, p.second); gone.push_back(p); }
        if (t % 400 == 7 && !s.empty()) for (int k = 0; k < 2; ++k) { i64 B = k ? R : 40000; int a = (int)rng(-B, B), b = (int)rng(-B, B); i64 mx = LLONG_MIN, mn = LLONG_MAX; for (auto [x, y] : s) { i64 v = (i64)a * x + (i64)b * y; mx = std::max(mx, v); mn = std::min(mn, v); } EQ(h.linear_max(a, b), mx); EQ(h.linear_min(a, b), mn); } }
    std::sort(s.begin(), s.end()); auto chain = [&](int sg) { std::map<i64, i64> top; for (auto [x, y] : s) { auto it = top.find(x); if (it == top.end() || it->second < (i64)sg * y) top[x] = (i64)sg * y; } std::vector<PI> r; for (auto [x, y] : top) { while (r.size() > 1) { auto [ax, ay] = r[r.size() - 2]; auto [bx, by] = r.back(); if ((i128)((i64)bx - ax) * (y - (i64)ay) > (i128)((i64)by - ay) * (x - (i64)ax)) r.pop_back(); else break; } r.emplace_back((int)x, (int)y); } for (auto& p : r) p.second *= sg; return r; };
    EQV(h.get_upper_hull(), chain(1)); EQV(h.get_lower_hull(), chain(-1));
}
SCENARIO(big_horn_sat, 4) {
    int st = (int)rng.in(0, 3); int n = (int)rng.in(66000, 90000); HornSAT h(n); struct C { std::vector<int> l; int r; bool v; }; std::vector<C> cs; auto perm = rng.perm(n); LOG("style", st, "n", n);
    if (st == 0) { cs.push_back({ {}, perm[0], true }); for (int i = 1; i < n; ++i) cs.push_back({ { perm[i - 1] }, perm[i], true }); cs.push_back({ { perm[n - 1] }, (int)rng.in(-1, 0) < 0 ? -1 : perm[n / 2], (bool)rng.coin() }); }
    else { std::vector<int> all(perm.begin(), perm.begin() + (st == 1 ? n - 1 : 70)); if (st == 1) { cs.push_back({ all, perm[n - 1], true }); for (int x : all) if (x != all[5] || rng.coin()) cs.push_back({ {}, x, true }); if (rng.coin()) cs.push_back({ { perm[n - 1] }, -1, true }); }
        else { for (int i = 0; i < 30; ++i) cs.push_back({ {}, perm[i], true }); for (int i = 0; i < 2 * n; ++i) { C c; int k = (int)rng.in(1, 3); int top = 29; (void)top; int r = (int)rng.in(0, n - 1); for (int j = 0; j < k; ++j) c.l.push_back(perm[rng.in(0, std::max(1, r - 1)) * (st == 2 ? 1 : 0) + (st == 3 ? rng.in(0, n - 1) : 0)]); c.r = perm[r]; c.v = true; cs.push_back(c); } for (int i = 0; i < 20; ++i) cs.push_back({ { perm[rng.in(n / 2, n - 1)], perm[rng.in(n / 2, n - 1)] }, perm[rng.in(0, n - 1)], false }); } }
    rng.shuffle(cs); for (auto& c : cs) { if (c.l.empty() && rng.coin()) h.add_clause(c.r, c.v); else h.add_clause(c.l, c.r, c.v); }
    // least model of the definite clauses by rounds over clauses ordered by a work stack
    std::vector<char> a(n); std::vector<std::vector<int>> at(n); std::vector<int> left(cs.size()), wk; for (size_t i = 0; i < cs.size(); ++i) { left[i] = (int)cs[i].l.size(); for (int x : cs[i].l) at[x].push_back((int)i); if (!left[i]) wk.push_back((int)i); } while (!wk.empty()) { auto& c = cs[wk.back()]; wk.pop_back(); if (c.r < 0 || !c.v || a[c.r]) continue; a[c.r] = 1; for (int i : at[c.r]) if (!--left[i]) wk.push_back(i); }
    bool sat = true; for (auto& c : cs) { bool lhs = true; for (int x : c.l) lhs = lhs && a[x]; if (lhs && (c.r < 0 || bool(a[c.r]) != c.v)) sat = false; } EQ(h.satisfiable(), sat); if (sat) { auto& g = h.answer(); EQ((int)g.size(), n); i64 bad = 0; for (int i = 0; i < n; ++i) bad += bool(g[i]) != bool(a[i]); EQ(bad, 0LL, "not the least model"); }
}
SCENARIO(big_inversion, 3) {
    int st = (int)rng.in(0, 2); int n = (int)rng.in(95000, 140000); std::vector<i64> a(n); for (int i = 0; i < n; ++i) a[i] = st == 0 ? (i64)(n - i) * 1000000000007LL : st == 1 ? rng(LLONG_MIN, LLONG_MAX) : (n - i) / 3; LOG("style", st, "n", n); std::vector<i64> b(a), tmp(n); i64 w = 0; // merge sort
    for (int len = 1; len < n; len *= 2) for (int l = 0; l + len < n; l += 2 * len) { int m = l + len, r = std::min(n, m + len), i = l, j = m, k = l; while (i < m || j < r) { if (j == r || (i < m && b[i] <= b[j])) tmp[k++] = b[i++]; else { tmp[k++] = b[j++]; w += m - i; } } std::copy(tmp.begin() + l, tmp.begin() + r, b.begin() + l); }
    EQ((i64)inversion_number(a), w);
}
SCENARIO(big_rectangles, 4) {
    int st = (int)rng.in(0, 3); int n = st == 0 ? (int)rng.in(300, 360) : st == 1 ? 3 : st == 2 ? 70000 : 400, m = st == 0 ? (int)rng.in(300, 360) : st == 1 ? 70000 : st == 2 ? 3 : 400; LOG("style", st, n, m); std::vector<std::vector<char>> g(n, std::vector<char>(m, 1)); int holes = (int)rng.pick(std::vector<int>{ 0, 1, 5, 300 }); for (int i = 0; i < holes; ++i) g[rng.in(0, n - 1)][rng.in(0, m - 1)] = 0;
    // independent audits: prefix sums for containment, widths per row instead of heights per column for the optimum
    std::vector<std::vector<int>> ps(n + 1, std::vector<int>(m + 1)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) ps[i + 1][j + 1] = ps[i][j + 1] + ps[i + 1][j] - ps[i][j] + (g[i][j] ? 1 : 0); auto full = [&](int u, int d, int l, int r) { return 0 <= u && u < d && d <= n && 0 <= l && l < r && r <= m && ps[d][r] - ps[u][r] - ps[d][l] + ps[u][l] == (d - u) * (r - l); };
    i64 best = 0; { std::vector<int> w(n); for (int j = 0; j < m; ++j) { std::vector<int> sk; for (int i = 0; i <= n; ++i) { if (i < n) w[i] = g[i][j] ? w[i] + 1 : 0; int x = i < n ? w[i] : -1; while (!sk.empty() && w[sk.back()] >= x) { int k = sk.back(); sk.pop_back(); best = std::max(best, (i64)w[k] * (i - (sk.empty() ? 0 : sk.back() + 1))); } sk.push_back(i); } } }
    auto [a, t] = maximum_rectngle(g); EQ((i64)a, best); if (best) { auto [u, d, l, r] = t; EQ((i64)(d - u) * (r - l), best); REQUIRE(full(u, d, l, r)); }
    int lo = 0, hi = std::min(n, m); auto has = [&](int k) { for (int i = 0; i + k <= n; ++i) for (int j = 0; j + k <= m; ++j) if (full(i, i + k, j, j + k)) return true; return false; }; while (lo < hi) { int k = (lo + hi + 1) / 2; if (has(k)) lo = k; else hi = k - 1; }
    auto [b, t2] = maximum_square(g); EQ(b, lo * lo); if (lo) { auto [u, d, l, r] = t2; EQ(d - u, lo); EQ(r - l, lo); REQUIRE(full(u, d, l, r)); }
}
SCENARIO(big_mo, 3) {
    int n = (int)rng.in(30000, 70000), q = (int)rng.in(0, 2) == 0 ? 66000 : (int)rng.in(5000, 9000); std::vector<u64> v(n), pre(n + 1); for (int i = 0; i < n; ++i) v[i] = rng.u(), pre[i + 1] = pre[i] + v[i]; std::vector<PI> qs(q); int w = (int)rng.in(0, 1); for (auto& [l, r] : qs) { l = (int)rng(0, n); r = w ? (int)rng(l, n) : std::min<int>(n, l + (int)rng.in(0, 300)); } LOG("n", n, "q", q); Mo mo(n, qs); u64 cur = 0, moves = 0; auto add = [&](int i) { ++moves; cur += v[i]; }; auto del = [&](int i) { ++moves; cur -= v[i]; };
    auto res = rng.coin() ? mo.solve([&] { return cur; }, add, del) : mo.solve([&] { return cur; }, add, del, add, del); EQ((int)res.size(), q); for (int i = 0; i < q; ++i) EQ(res[i], pre[qs[i].second] - pre[qs[i].first]); REQUIRE((double)moves <= 8.0 * (n + 1) * (std::sqrt((double)q) + 1) + 4.0 * (q + 1), "Mo moved too often");
}
SCENARIO(big_monotone_minima, 3) {
    int n = (int)rng.in(66000, 100000), m = (int)rng.pick(std::vector<int>{ 100, 66000, 131072 }); std::vector<i64> c(n); for (auto& x : c) x = rng(-5, m + 5); std::sort(c.begin(), c.end()); LOG(n, m); auto f = [&](size_t i, size_t j) { i64 d = (i64)j - c[i]; return d * d; }; auto g = monotone_minima(n, m, f); EQ((int)g.size(), n); for (int i = 0; i < n; ++i) EQ((i64)g[i], std::clamp<i64>(c[i], 0, m - 1)); auto g2 = monotone_minima(m, n, [&](size_t i, size_t j, size_t k) { i64 a = std::abs((i64)i - c[j]), b = std::abs((i64)i - c[k]); return a <= b; }); for (int i = 0; i < m; ++i) { auto it = std::lower_bound(c.begin(), c.end(), (i64)i); i64 d = LLONG_MAX; int w = 0; auto tryj = [&](i64 val) { i64 e = std::abs(val - i); if (e < d) d = e, w = (int)(std::lower_bound(c.begin(), c.end(), val) - c.begin()); }; if (it != c.begin()) tryj(*(it - 1)); if (it != c.end()) tryj(*it); EQ(g2[i], w); }
}
template <bool mn> void big_rmq(Rng& rng) {
    int n = (int)rng.in(66000, 200000); std::vector<int> a(n); int up = rng.pick(std::vector<int>{ 0, 50, 100, 51 }); a[0] = (int)rng.in(-1000000000, 1000000000); for (int i = 1; i < n; ++i) a[i] = a[i - 1] + (rng.pct(up) ? 1 : -1); LOG("n", n, "up", up); RMQpm1<mn> r(a); RMQpm1WithIndex<mn> ri(a);
    for (int t = 0; t < 4; ++t) { int l = t == 0 ? 0 : (int)rng(0, n - 1), w = a[l]; for (int e = l + 1; e <= n; ++e) { w = mn ? std::min(w, a[e - 1]) : std::max(w, a[e - 1]); EQ(r(l, e), w); auto [v, i] = ri(l, e); EQ(v, w); REQUIRE(l <= i && i < e && a[i] == v, "wrong index", i); } }
}
SCENARIO(big_rmq_pm1, 4) { if (rng.coin()) big_rmq<true>(rng); else big_rmq<false>(rng); }
SCENARIO(big_two_sat, 3) { // a planted assignment (satisfiable), or the same with one contradiction along a long implication chain
    int n = (int)rng.in(66000, 90000); TwoSAT s(n); std::vector<char> a(n); for (auto& x : a) x = rng.coin(); bool bad = rng.coin(); std::vector<std::array<int, 5>> cs; for (int t = 0; t < 2 * n; ++t) { int x = (int)rng.in(0, n - 1), y = (int)rng.in(0, n - 1); bool f = rng.coin(), g = rng.coin(); int k = (int)rng.in(0, 3); bool X = bool(a[x]) == f, Y = bool(a[y]) == g; if (k == 0 && (!X || Y)) s.implies(x, f, y, g); else if (k == 1 && !(X && Y)) s.at_most_one(x, f, y, g); else if (k == 2 && X != Y) s.exactly_one(x, f, y, g); else if (k == 3 && (X || Y)) s.add_clause(x, f, y, g); else continue; cs.push_back({ k, x, f, y, g }); }
    auto p = rng.perm(n); if (bad) { for (int i = 0; i + 1 < n; ++i) s.implies(p[i], true, p[i + 1], true); s.implies(p[n - 1], true, p[0], false); s.set(p[n / 2], true); s.implies(p[n - 1], true, p[n / 3], false); int k = (int)rng.in(0, n / 3); s.set(p[k], true); } LOG("n", n, "bad", bad);
    EQ(s.satisfiable(), !bad); if (!bad) { auto v = s.answer(); for (auto [k, x, f, y, g] : cs) { bool X = bool(v[x]) == bool(f), Y = bool(v[y]) == bool(g); REQUIRE(k == 0 ? !X || Y : k == 1 ? !(X && Y) : k == 2 ? X != Y : X || Y, "assignment violates a constraint"); } }
}
namespace { struct Acc { std::vector<i64> st; }; void mg(Acc& a, const Acc& b) { a.st.push_back(a.st.back() + b.st.back()); } void ud(Acc& a) { a.st.pop_back(); } i64 gv(const Acc& a) { return a.st.back(); } }
SCENARIO(big_offline_connectivity, 4) {
    int st = (int)rng.in(0, 1); int n = st ? (int)rng.in(66000, 70000) : (int)rng.in(200, 600), q = 60000; OfflineDynamicConnectivity c(n); OfflineDynamicConnectivityComponentSum s; std::vector<PI> act; std::vector<bool> w; std::vector<std::variant<bool, i64>> w2; std::vector<Acc> init(n); for (auto& a : init) a.st.push_back((i64)rng.in(0, 1000000000000LL)); LOG("n", n); int cap = (int)rng.pick(std::vector<int>{ n / 2, n, 3 * n / 2 }); std::vector<int> par(n);
    for (int t = 0; t < q; ++t) {
        if ((int)act.size() < cap && (act.size() < 50 || rng.pct(70))) { int u = (int)rng.in(0, n - 1), v = rng.pct(30) ? (u + 1) % n : (int)rng.in(0, n - 1); c.add_query(u, v); s.add_query(u, v); act.emplace_back(u, v); } else { std::swap(act[rng.in(0, (i64)act.size() - 1)], act.back()); auto [a, b] = act.back(); act.pop_back(); if (rng.coin()) std::swap(a, b); c.del_query(a, b); s.del_query(a, b); }
        if (t % (st ? 1500 : 40) == 3) { std::iota(par.begin(), par.end(), 0); auto find = [&](int x) { while (par[x] != x) x = par[x] = par[par[x]]; return x; }; for (auto [a, b] : act) par[find(a)] = find(b); for (int k = 0; k < 20; ++k) { int u = (int)rng.in(0, n - 1), v = (int)rng.in(0, n - 1); bool r = find(u) == find(v); c.connectivity_query(u, v); s.connectivity_query(u, v); w.push_back(r); w2.emplace_back(r); } int u = (int)rng.in(0, n - 1); i64 sum = 0; for (int i = 0; i < n; ++i) if (find(i) == find(u)) sum += init[i].st[0]; s.component_sum_query(u); w2.emplace_back(sum); }
    }
    EQV(c.answer(), w); auto g = s.answer<Acc, mg, ud, i64, gv>(init); EQ(g.size(), w2.size()); for (size_t i = 0; i < g.size(); ++i) { EQ(g[i].index(), w2[i].index()); REQUIRE(g[i] == w2[i], "wrong answer for query", i); }
}
