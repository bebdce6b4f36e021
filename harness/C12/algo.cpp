// MON: shards=4
#include "mon.hpp"
#include <algorithm>
#include <deque>
#include <set>
#include <map>
#include <functional>
#include <sstream>
#include "library/algorithm/area_of_union_of_rectangles.hpp"
#include "library/algorithm/dynamic_convex_hull_offline.hpp"
#include "library/algorithm/horn_sat.hpp"
#include "library/algorithm/inversion_number.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/maximum_square.hpp"
#include "library/algorithm/mo.hpp"
#include "library/algorithm/monotone_minima.hpp"
#include "library/algorithm/rmq_pm1.hpp"
#include "library/algorithm/rmq_pm1_with_index.hpp"
#include "library/algorithm/two_sat.hpp"
using namespace suisen; using mon::Rng;
using PI = std::pair<int, int>;

template <class T> void area(Rng& rng) {
    int n = rng.size(0, 12), M = rng.pick(std::vector<int>{ 2, 5, 20 }); std::vector<std::tuple<T, T, T, T>> v; i64 off = rng.coin() ? 0 : -10; if (std::is_unsigned_v<T>) off = 0; i64 sc = rng.coin() ? 1 : (sizeof(T) == 8 ? 1000003 : 100), sx = sc; if (sizeof(T) == 8 && rng.pct(30)) { sx = 4294967296LL * rng.in(1, 100000) + rng.in(0, 1); sc = rng.in(1, 20); if (rng.coin()) std::swap(sx, sc); }
    std::vector<std::vector<char>> c(M, std::vector<char>(M)); for (int i = 0; i < n; ++i) { int l = rng(0, M), r = rng(l, M), d = rng(0, M), u = rng(d, M); v.emplace_back(T((l + off) * sx), T((r + off) * sx), T((d + off) * sc), T((u + off) * sc)); for (int x = l; x < r; ++x) for (int y = d; y < u; ++y) c[x][y] = 1; }
    T w = 0; for (auto& r : c) for (char z : r) w += T(z) * T(sx) * T(sc); EQ(area_of_union_of_rectangles<T>(v), w);
}
SCENARIO(area_union, 1500) { if (rng.coin()) area<i64>(rng); else if (rng.coin()) area<int>(rng); else area<unsigned long long>(rng); }

static i64 cross(PI a, PI b, PI c) { return (i64)(b.first - a.first) * (c.second - a.second) - (i64)(b.second - a.second) * (c.first - a.first); }
SCENARIO(dyn_hull, 400) {
    int R = rng.pick(std::vector<int>{ 1, 3, 8, 1000, 1000000000 }), n = rng.size(1, 25); std::vector<PI> cand; for (int i = 0; i < n; ++i) cand.emplace_back(rng(-R, R), rng(-R, R)); if (R == 1000000000 && rng.coin()) for (auto& [x, y] : cand) { if (rng.coin()) x = rng.coin() ? R : -R; if (rng.coin()) y = rng.coin() ? R : -R; }
    if (R == 1000 && rng.coin()) for (auto& [x, y] : cand) { x = rng(-30, 30); y = (rng.coin() ? 1 : -1) * x * x; } // many hull points
    std::vector<i64> xs; for (auto [x, y] : cand) xs.push_back(x); rng.shuffle(xs); DynamicConvexHullOffline h(xs); std::set<PI> s; int q = rng.size(1, 60);
    for (int t = 0; t < q; ++t) {
        auto p = rng.pick(cand); if (rng.pct(60)) { LOG("ins ", p.first, ",", p.second); h.insert(p.first, p.second); s.insert(p); } else if (s.count(p)) { LOG("del ", p.first, ",", p.second); h.erase(p.first, p.second); s.erase(p); }
        if (s.empty()) { EQ((int)h.get_hull().size(), 0); EQ((int)h.get_upper_hull().size(), 0); continue; }
        for (int k = 0; k < 4; ++k) { int B = rng.pick(std::vector<int>{ 1, 5, 1000000000 }), a = rng(-B, B), b = rng(-B, B); if (rng.pct(10)) a = 0; if (rng.pct(10)) b = 0; i64 mx = LLONG_MIN, mn = LLONG_MAX; for (auto [x, y] : s) { i64 v = (i64)a * x + (i64)b * y; mx = std::max(mx, v); mn = std::min(mn, v); } EQ(h.linear_max(a, b), mx); EQ(h.linear_min(a, b), mn); }
        if (rng.pct(40)) {
            if (R > 500000000 ) { /* cross products still fit */ }
            auto on_boundary = [&](PI p) { // p is on the boundary of conv(s): some line through p has all points on one side
                for (auto q2 : s) if (q2 != p) { bool pos = false, neg = false; for (auto z : s) { i128 c = (i128)((i64)q2.first - p.first) * ((i64)z.second - p.second) - (i128)((i64)q2.second - p.second) * ((i64)z.first - p.first); if (c > 0) pos = true; if (c < 0) neg = true; } if (!(pos && neg)) return true; } return s.size() == 1; };
            std::set<PI> w; for (auto p2 : s) if (on_boundary(p2)) w.insert(p2);
            auto g = h.get_hull(); std::set<PI> gs(g.begin(), g.end()); EQ(gs.size(), g.size()); REQUIRE(gs == w, "hull point set differs");
            int k = g.size(); bool line = true; for (int i = 2; i < k; ++i) if (cross(g[0], g[1], g[i]) != 0) line = false;
            if (!line && R <= 1000) for (int i = 0; i < k; ++i) REQUIRE(cross(g[i], g[(i + 1) % k], g[(i + 2) % k]) <= 0, "hull is not in clockwise order at", i);
            auto up = h.get_upper_hull(), lo = h.get_lower_hull(); for (auto* z : { &up, &lo }) for (int i = 0; i + 1 < (int)z->size(); ++i) REQUIRE((*z)[i].first < (*z)[i + 1].first, "x not increasing");
            for (auto* z : { &up, &lo }) { EQ((*z)[0].first, s.begin()->first); EQ(z->back().first, s.rbegin()->first); }
            for (auto [x, y] : s) { auto chk = [&](std::vector<PI>& z, int sg) { auto it = std::lower_bound(z.begin(), z.end(), x, [](PI a, int x) { return a.first < x; }); REQUIRE(it != z.end()); if (it->first == x) { REQUIRE(sg * (i64)y <= sg * (i64)it->second, "point outside hull"); } else { auto a = *(it - 1), b = *it; i128 c = (i128)((i64)b.first - a.first) * ((i64)y - a.second) - (i128)((i64)b.second - a.second) * ((i64)x - a.first); REQUIRE(sg * c <= 0, "point outside hull"); } }; chk(up, 1); chk(lo, -1); }
        }
    }
}
SCENARIO(horn_sat, 1500) {
    int n = rng(0, 8), m = rng(0, 14); HornSAT h = n || rng.coin() ? HornSAT(n) : HornSAT(); struct C { std::vector<int> l; int r; bool v; }; std::vector<C> cs; int neg = rng.pick(std::vector<int>{ 0, 10, 40 });
    for (int i = 0; i < m; ++i) {
        C c; int k = n ? rng(0, 3) : 0; for (int j = 0; j < k; ++j) c.l.push_back(rng(0, n - 1)); bool fl = rng.pct(10) || n == 0; c.r = fl ? -1 : rng(0, n - 1); c.v = !rng.pct(neg); if (n == 0 && rng.coin()) continue; cs.push_back(c);
        if (c.l.empty() && rng.coin()) h.add_clause(c.r, c.v); else h.add_clause(c.l, c.r, c.v);
        if (rng.pct(80) && i + 1 < m) continue;
        u64 least = ~0ull; bool sat = false; for (u64 a = 0; a < (1ull << n); ++a) { bool ok = true; for (auto& q : cs) { bool lhs = true; for (int x : q.l) lhs &= (a >> x) & 1; if (lhs && (q.r < 0 || bool((a >> q.r) & 1) != q.v)) ok = false; } if (ok) { sat = true; least &= a; } }
        EQ(h.satisfiable(), sat); if (sat) { const auto& ans = h.answer(); EQ((int)ans.size(), n); u64 a = 0; for (int j = 0; j < n; ++j) if (ans[j]) a |= 1ull << j; for (auto& q : cs) { bool lhs = true; for (int x : q.l) lhs &= (a >> x) & 1; REQUIRE(!(lhs && (q.r < 0 || bool((a >> q.r) & 1) != q.v)), "answer violates a clause"); } EQ(a, least); }
    }
}
SCENARIO(inversion, 800) { int n = rng.size(0, 80); auto a = rng.vec<i64>(n, -rng.pick(std::vector<i64>{ 1, 5, LLONG_MAX }), rng.pick(std::vector<i64>{ 1, 5, LLONG_MAX })); i64 w = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) w += a[j] > a[i]; EQ(inversion_number(a), w); std::vector<std::string> s(n); i64 w2 = 0; for (auto& x : s) x = rng.string(rng(0, 2), 3); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) w2 += s[j] > s[i]; EQ(inversion_number(s), w2); }
SCENARIO(rectangles, 800) {
    int n = rng.size(0, 14), m = rng.size(0, 14), p = rng.pick(std::vector<int>{ 0, 30, 60, 90, 100 }); std::vector<std::vector<int>> g(n, std::vector<int>(m)); for (auto& r : g) for (auto& x : r) x = rng.pct(p) ? rng(1, 3) : 0;
    auto ones = [&](int u, int d, int l, int r) { for (int i = u; i < d; ++i) for (int j = l; j < r; ++j) if (!g[i][j]) return false; return true; };
    std::set<std::tuple<int, int, int, int>> mx; int best = 0, bsq = 0; for (int u = 0; u < n; ++u) for (int l = 0; l < m; ++l) for (int d = u + 1; d <= n; ++d) { for (int r = l + 1; r <= m; ++r) { if (!ones(u, d, l, r)) break; best = std::max(best, (d - u) * (r - l)); if (d - u == r - l) bsq = std::max(bsq, (d - u) * (r - l)); if ((u && ones(u - 1, d, l, r)) || (d < n && ones(u, d + 1, l, r)) || (l && ones(u, d, l - 1, r)) || (r < m && ones(u, d, l, r + 1))) continue; mx.insert({ u, d, l, r }); } }
    std::set<std::tuple<int, int, int, int>> got; int calls = 0; maximal_rectangles(g, [&](int u, int d, int l, int r) { ++calls; REQUIRE(0 <= u && u <= d && d <= n && 0 <= l && l < r && r <= m && ones(u, d, l, r), "reported rectangle is not filled", u, d, l, r); got.insert({ u, d, l, r }); });
    for (auto t : mx) REQUIRE(got.count(t), "maximal rectangle not reported"); REQUIRE(calls <= n * m, "too many reports");
    auto [a, t] = maximum_rectngle(g); EQ(a, best); if (best) { auto [u, d, l, r] = t; EQ((d - u) * (r - l), best); REQUIRE(0 <= u && u < d && d <= n && 0 <= l && l < r && r <= m && ones(u, d, l, r)); }
    auto [b, t2] = maximum_square(g); EQ(b, bsq); if (bsq) { auto [u, d, l, r] = t2; EQ((d - u) * (r - l), bsq); EQ(d - u, r - l); REQUIRE(0 <= u && u < d && d <= n && 0 <= l && l < r && r <= m && ones(u, d, l, r)); }
    // histogram
    int k = rng.size(0, 25); auto h = rng.vec<i64>(k, 0, rng.pick(std::vector<i64>{ 1, 3, 10, 1000000000000LL })); std::set<std::tuple<int, int, i64>> hs; calls = 0; maximal_rectangles_hist(h, [&](int l, int r, i64 v) { ++calls; REQUIRE(0 <= l && l < r && r <= k); EQ(*std::min_element(h.begin() + l, h.begin() + r), v); hs.insert({ l, r, v }); }); REQUIRE(calls <= k);
    for (int i = 0; i < k; ++i) { int l = i, r = i + 1; while (l && h[l - 1] >= h[i]) --l; while (r < k && h[r] >= h[i]) ++r; REQUIRE(hs.count({ l, r, h[i] }), "maximal histogram rectangle missing", l, r, h[i]); }
}
SCENARIO(mo, 500) {
    int n = rng.size(0, 60), q = rng.size(0, 60); std::vector<PI> qs(q); for (auto& [l, r] : qs) l = rng(0, n), r = rng(l, n); Mo mo(n, qs); std::deque<int> cur; int L = 0, R = 0; u64 moves = 0;
    auto eval = [&] { int id = mo.get_query_id(); REQUIRE(0 <= id && id < q); EQ(PI(L, R), qs[id]); EQ(mo.get_range(), qs[id]); EQ(mo.get_left(), L); EQ(mo.get_right(), R); EQ((int)cur.size(), R - L); for (int i = 0; i < R - L; ++i) EQ(cur[i], L + i); return std::make_pair(id, std::vector<int>(cur.begin(), cur.end())); };
    auto al = [&](int i) { ++moves; EQ(i, L - 1); EQ(mo.get_range(), PI(i, R)); REQUIRE(i >= 0); cur.push_front(i); --L; }; auto dl = [&](int i) { ++moves; EQ(i, L); EQ(mo.get_range(), PI(L, R)); REQUIRE(cur.size() && cur.front() == i); cur.pop_front(); ++L; };
    auto ar = [&](int i) { ++moves; EQ(i, R); EQ(mo.get_range(), PI(L, R)); REQUIRE(i < n); cur.push_back(i); ++R; }; auto dr = [&](int i) { ++moves; EQ(i, R - 1); EQ(mo.get_range(), PI(L, i)); REQUIRE(cur.size() && cur.back() == i); cur.pop_back(); --R; };
    for (int rep = 0; rep < 2; ++rep) { cur.clear(); L = R = 0; moves = 0; auto res = mo.solve(eval, al, dl, ar, dr); EQ((int)res.size(), q); for (int i = 0; i < q; ++i) { EQ(res[i].first, i); std::vector<int> w; for (int j = qs[i].first; j < qs[i].second; ++j) w.push_back(j); EQV(res[i].second, w); } REQUIRE((double)moves <= 8.0 * (n + 1) * (std::sqrt((double)q) + 1) + 4 * (q + 1), "Mo moved too often"); }
    std::multiset<int> in; auto res = mo.solve([&] { return (int)in.size(); }, [&](int i) { REQUIRE(!in.count(i)); in.insert(i); }, [&](int i) { REQUIRE(in.count(i)); in.erase(i); }); for (int i = 0; i < q; ++i) EQ(res[i], qs[i].second - qs[i].first);
}
SCENARIO(monotone_minima, 800) {
    int n = rng.size(0, 25), m = rng.size(1, 25); // A(i,j) = base Monge matrix + row offsets, and generic matrices with monotone leftmost argmin
    std::vector<std::vector<i64>> A(n, std::vector<i64>(m));
    if (rng.coin()) { std::vector<std::vector<i64>> d(n + 1, std::vector<i64>(m + 1)); for (int i = 0; i < n; ++i) { i64 off = rng(-5, 5); for (int j = 0; j < m; ++j) A[i][j] = off; } auto cof = rng.vec<i64>(m, -20, 20); i64 lim = rng(0, 2); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { d[i + 1][j + 1] = d[i + 1][j] + d[i][j + 1] - d[i][j] - rng(0, lim); A[i][j] += d[i + 1][j + 1] + cof[j]; } }
    else { std::vector<int> am(n); for (auto& x : am) x = rng(0, m - 1); std::sort(am.begin(), am.end()); for (int i = 0; i < n; ++i) { i64 mn = rng(-5, 5); for (int j = 0; j < m; ++j) A[i][j] = j < am[i] ? mn + rng(1, 4) : j == am[i] ? mn : mn + rng(0, 4); } }
    std::vector<int> w(n); for (int i = 0; i < n; ++i) w[i] = std::min_element(A[i].begin(), A[i].end()) - A[i].begin();
    EQV(monotone_minima(n, m, [&](size_t i, size_t j) { return A.at(i).at(j); }), w); u64 calls = 0; EQV(monotone_minima(n, m, [&](size_t i, size_t j, size_t k) { ++calls; REQUIRE(j < k && k < (size_t)m && i < (size_t)n); return A[i][j] <= A[i][k]; }), w); int lg = 1; while ((1 << lg) <= n) ++lg; REQUIRE(calls <= (u64)(m + n) * (lg + 1), "too many comparisons");
}
template <bool mn> void rmq(Rng& rng) {
    int n = rng.size(0, 100); std::vector<int> a(n); int up = rng.pick(std::vector<int>{ 10, 50, 90 }); if (n) a[0] = rng(-5, 5); for (int i = 1; i < n; ++i) a[i] = a[i - 1] + (rng.pct(up) ? 1 : -1); RMQpm1<mn> r(a); RMQpm1WithIndex<mn> ri(a);
    for (int t = 0; t < 60; ++t) { int l = rng(0, n), e = rng(l, n); if (l == e) { EQ(r(l, e), mn ? INT_MAX : INT_MIN); EQ(ri(l, e), PI(mn ? INT_MAX : INT_MIN, -1)); continue; } int w = mn ? *std::min_element(a.begin() + l, a.begin() + e) : *std::max_element(a.begin() + l, a.begin() + e); EQ(r(l, e), w); auto [v, i] = ri(l, e); EQ(v, w); REQUIRE(l <= i && i < e && a[i] == v, "wrong index", i); }
}
SCENARIO(rmq_pm1, 600) { if (rng.coin()) rmq<true>(rng); else rmq<false>(rng); }
SCENARIO(two_sat, 800) {
    int n = rng(1, 8), m = rng(0, 20); TwoSAT s(n); std::vector<std::function<bool(int)>> cs; auto bit = [](int a, int i) { return bool(a >> i & 1); };
    for (int t = 0; t < m; ++t) { int x = rng(0, n - 1), y = rng(0, n - 1); bool f = rng.coin(), g = rng.coin(); switch (rng(0, 4)) { case 0: s.implies(x, f, y, g); cs.push_back([=](int a) { return bit(a, x) != f || bit(a, y) == g; }); break; case 1: if (rng.coin()) break; s.set(x, f); cs.push_back([=](int a) { return bit(a, x) == f; }); break; case 2: s.at_most_one(x, f, y, g); cs.push_back([=](int a) { return !(bit(a, x) == f && bit(a, y) == g); }); break; case 3: if (x == y && f != g && rng.coin()) break; s.exactly_one(x, f, y, g); cs.push_back([=](int a) { return (bit(a, x) == f) + (bit(a, y) == g) == 1; }); break; default: s.add_clause(x, f, y, g); cs.push_back([=](int a) { return bit(a, x) == f || bit(a, y) == g; }); } }
    bool sat = false; for (int a = 0; a < (1 << n) && !sat; ++a) { bool ok = true; for (auto& c : cs) ok = ok && c(a); sat = ok; } EQ(s.satisfiable(), sat); if (sat) { auto v = s.answer(); int a = 0; for (int i = 0; i < n; ++i) a |= v[i] << i; for (auto& c : cs) REQUIRE(c(a), "assignment violates a constraint"); }
}
// the same workloads at realistic sizes
RESCALE(area_union, 4, 512);
RESCALE(dyn_hull, 4, 8);
RESCALE(monotone_minima, 4, 64);
RESCALE(rmq_pm1, 4, 512);
RESCALE(rectangles, 4, 2);
RESCALE(inversion, 4, 128);
RESCALE(mo, 4, 128);
