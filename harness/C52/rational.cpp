// C52: rationals, Stern-Brocot tree, linear Diophantine equations, factorial number system, minimum of a linear function modulo m
#include "mon.hpp"
#include <sstream>
#include "library/number/bezout_equation.hpp"
#include "library/number/factorial_number.hpp"
#include "library/number/min_of_mod_of_linear.hpp"
#include "library/number/rational.hpp"
#include "library/number/stern_brocot_tree.hpp"
using namespace mon; using namespace suisen;
struct Q { i128 n, d; Q(i128 a = 0, i128 b = 1) { i128 x = a < 0 ? -a : a, y = b < 0 ? -b : b; while (y) { i128 t = x % y; x = y; y = t; } if (!x) x = 1; n = a / x; d = b / x; if (d < 0) n = -n, d = -d; } };
template <class T> static void rat_case(Rng& rng, i64 B) {
    using R = Rational<T>; auto gen = [&]() -> std::pair<i64, i64> { i64 a = rng.coin() ? rng(-6, 6) : rng.wides(-B, B), b = rng.coin() ? rng(1, 8) : rng.wides(1, B); if (rng.coin()) b = -b; return { a, b }; };
    for (int k = 0; k < 12; ++k) {
        auto [a, b] = gen(); auto [c, d] = gen(); if (rng.pct(15)) { i64 f = rng(1, 5); c = a * f; d = b * f; if (std::abs(c) > B * 5 || std::abs(d) > B * 5) c = a, d = b; } if (rng.pct(20)) { c = a + rng(-1, 1); d = b + rng(0, 1); if (!d) d = 1; } LOG(a, b, c, d);
        R x((T)a, (T)b), y((T)c, (T)d); Q p(a, b), q(c, d); auto same = [&](const R& r, const Q& e) { return (i128)r.num == e.n && (i128)r.den == e.d; }; REQUIRE(same(x, p), "normalisation"); REQUIRE(same(y, q));
        i128 l = p.n * q.d, r = q.n * p.d; int cmp = l < r ? -1 : l > r ? 1 : 0; EQ(R::compare(x, y), cmp); EQ(x < y, cmp < 0); EQ(x > y, cmp > 0); EQ(x <= y, cmp <= 0); EQ(x >= y, cmp >= 0); EQ(x == y, cmp == 0); EQ(x != y, cmp != 0); REQUIRE(same(max(x, y), cmp >= 0 ? p : q)); REQUIRE(same(min(x, y), cmp <= 0 ? p : q)); EQ(x.signum(), a == 0 ? 0 : (p.n > 0 ? 1 : -1));
        REQUIRE(same(x + y, Q(p.n * q.d + q.n * p.d, p.d * q.d)), "sum"); REQUIRE(same(x - y, Q(p.n * q.d - q.n * p.d, p.d * q.d)), "difference"); REQUIRE(same(x * y, Q(p.n * q.n, p.d * q.d)), "product"); if (c) REQUIRE(same(x / y, Q(p.n * q.d, p.d * q.n)), "quotient"); R z = x; z += y; REQUIRE(z == x + y); z = x; z -= y; REQUIRE(z == x - y); z = x; z *= y; REQUIRE(z == x * y); if (c) { z = x; z /= y; REQUIRE(z == x / y); } REQUIRE(same(-x, Q(-p.n, p.d))); REQUIRE(same(+x, p)); if (a) REQUIRE(same(x.inv(), Q(p.d, p.n))); REQUIRE(same(x.abs(), Q(p.n < 0 ? -p.n : p.n, p.d)));
        i128 fl = p.n >= 0 ? p.n / p.d : -((-p.n + p.d - 1) / p.d), ce = p.n >= 0 ? (p.n + p.d - 1) / p.d : -((-p.n) / p.d); EQ((i64)x.floor(), (i64)fl); EQ((i64)x.ceil(), (i64)ce); EQ((i64)(long long)x, (i64)(p.n / p.d)); NEAR((double)x, (long double)p.n / p.d, 1e-9); NEAR((long double)x, (long double)p.n / p.d, 1e-9); std::ostringstream os; os << x; EQ(os.str(), std::to_string((i64)p.n) + "/" + std::to_string((i64)p.d)); if (p.n / p.d >= INT_MIN && p.n / p.d <= INT_MAX) EQ((int)x, (int)(p.n / p.d));
        R inf((T)1, (T)0); REQUIRE(inf > x && x < inf); R w((T)a); REQUIRE(same(w, Q(a))); REQUIRE(same(R(), Q(0)));
    }
}
SCENARIO(rational, 500) { if (rng.coin()) rat_case<i64>(rng, rng.coin() ? 100 : 1000000000); else rat_case<int>(rng, 5000); }
SCENARIO(rational_tree, 120) {
    using R = Rational<i64>; int d = rng(0, 8); LOG(d); auto t = R::stern_brocot(d); int n = 1 << (d + 1); EQ((int)t.size(), n); std::vector<R> in; auto dfs = [&](auto self, int k) -> void { if (k >= n) return; self(self, 2 * k); in.push_back(t[k]); self(self, 2 * k + 1); }; dfs(dfs, 1); std::vector<std::pair<i64, i64>> cur{ { 0, 1 }, { 1, 0 } }; for (int l = 0; l <= d; ++l) { std::vector<std::pair<i64, i64>> nx; for (size_t i = 0; i + 1 < cur.size(); ++i) { nx.push_back(cur[i]); nx.push_back({ cur[i].first + cur[i + 1].first, cur[i].second + cur[i + 1].second }); } nx.push_back(cur.back()); cur = nx; } EQ(in.size() + 2, cur.size()); for (size_t i = 0; i < in.size(); ++i) { EQ(in[i].num, cur[i + 1].first); EQ(in[i].den, cur[i + 1].second); }
    auto f = R::farey_sequence(d); std::vector<std::pair<i64, i64>> c2{ { 0, 1 }, { 1, 1 } }; for (int l = 0; l <= d; ++l) { std::vector<std::pair<i64, i64>> nx; for (size_t i = 0; i + 1 < c2.size(); ++i) { nx.push_back(c2[i]); nx.push_back({ c2[i].first + c2[i + 1].first, c2[i].second + c2[i + 1].second }); } nx.push_back(c2.back()); c2 = nx; } EQ(f.size(), c2.size()); for (size_t i = 0; i < f.size(); ++i) { EQ(f[i].num, c2[i].first); EQ(f[i].den, c2[i].second); }
    i64 N = rng.size(1, 300), D = rng.size(1, 300), a = rng(-400, 400), b = rng.size(1, 401); long double x = (long double)a / b; if (rng.pct(30)) x = std::sqrt((long double)rng(2, 50)) * (rng.coin() ? 1 : -1), b = 0; LOG((double)x, N, D); auto [lo, hi] = R::approximate(x, N, D); for (auto& r : { lo, hi }) REQUIRE(std::abs(r.num) <= std::max<i64>(1, N) && r.den <= D, "bounds"); if (lo.den) REQUIRE((long double)lo.num / lo.den <= x); if (hi.den) REQUIRE(x <= (long double)hi.num / hi.den); EQ(hi.num * lo.den - lo.num * hi.den, 1LL); REQUIRE(std::abs(lo.num) + std::abs(hi.num) > N || lo.den + hi.den > D, "could be refined");
}
using N64 = sbt_node<i64>; using N32 = sbt_node<int>;
template <class Node, class I> static void sbt_case(Rng& rng, I B) {
    auto path = [&](I a, I b) { std::vector<bool> p; I g = std::gcd(a, b); a /= g; b /= g; while (a != b) if (a < b) p.push_back(false), b -= a; else p.push_back(true), a -= b; return p; };
    auto frac = [&](const std::vector<bool>& p) { std::array<I, 4> s{ 0, 1, 1, 0 }; for (bool d : p) if (d) s[0] += s[2], s[1] += s[3]; else s[2] += s[0], s[3] += s[1]; return s; };
    auto expand = [&](const typename Node::sbt_path& q) { std::vector<bool> p; bool first = true, last = false; for (auto [d, k] : q) { REQUIRE(k > 0); if (!first) REQUIRE(d != last, "path not run-length encoded"); first = false; last = d; for (I i = 0; i < k; ++i) p.push_back(d); } return p; };
    auto check = [&](const Node& x, const std::vector<bool>& p) { auto s = frac(p); auto [a, b] = x.get(); EQ(a, s[0] + s[2]); EQ(b, s[1] + s[3]); auto [l, r] = x.range(); EQ(l.first, s[0]); EQ(l.second, s[1]); EQ(r.first, s[2]); EQ(r.second, s[3]); EQ((i64)x.depth(), (i64)p.size()); REQUIRE(expand(x.path()) == p, "path"); };
    std::vector<Node> ns; std::vector<std::vector<bool>> ps; for (int i = 0; i < 6; ++i) { I a = rng.upto(1, B), b = rng.upto(1, B); LOG(a, b); Node x(a, b); auto p = path(a, b); check(x, p); Node y(x.path()); check(y, p); Node z(std::pair<I, I>{ a, b }); REQUIRE(z == x && !(z != x)); ns.push_back(x); ps.push_back(p); if (rng.pct(40) && p.size()) { I k = rng(0, p.size()); Node w = x; REQUIRE(w.move_up(k)); p.resize(p.size() - k); check(w, p); ns.push_back(w); ps.push_back(p); } }
    check(Node(), {});
    for (int k = 0; k < 25; ++k) { int i = rng(0, ns.size() - 1), j = rng(0, ns.size() - 1); auto& p = ps[i]; auto& q = ps[j]; size_t c = 0; while (c < p.size() && c < q.size() && p[c] == q[c]) ++c; std::vector<bool> lp(p.begin(), p.begin() + c); check(Node::lca(ns[i], ns[j]), lp); check(ns[i].lca(ns[j]), lp); I dist = p.size() + q.size() - 2 * c; EQ(Node::dist(ns[i], ns[j]), dist); EQ(ns[i].dist(ns[j]), dist); EQ(ns[i].is_ancestor_of(ns[j]), c == p.size()); EQ(ns[j].is_descendant_of(ns[i]), c == p.size());
        auto [a1, b1] = ns[i].get(); auto [a2, b2] = ns[j].get(); i128 l = (i128)a1 * b2, r = (i128)a2 * b1; EQ(ns[i] < ns[j], l < r); EQ(ns[i] > ns[j], l > r); EQ(ns[i] <= ns[j], l <= r); EQ(ns[i] >= ns[j], l >= r); EQ(ns[i] == ns[j], p == q); int in = l < r ? -1 : l > r; auto sg = [](int v) { return (v > 0) - (v < 0); }; EQ(sg(Node::compare_in_order(ns[i], ns[j])), in); EQ(sg(Node::compare_pre_order(ns[i], ns[j])), p == q ? 0 : c == p.size() ? -1 : c == q.size() ? 1 : in); EQ(sg(Node::compare_post_order(ns[i], ns[j])), p == q ? 0 : c == p.size() ? 1 : c == q.size() ? -1 : in);
        I s = rng(-1, dist + 1); Node x = ns[i]; bool ok = x.move_to(ns[j], s); EQ(ok, 0 <= s && s <= dist); std::vector<bool> e = p; if (ok) { I up = std::min<I>(s, p.size() - c); e.resize(p.size() - up); I dn = s - up; for (I t = 0; t < dn; ++t) e.push_back(q[c + t]); } check(x, e);
        I u = rng(-1, (i64)p.size() + 1); x = ns[i]; EQ(x.move_up(u), 0 <= u && u <= (I)p.size()); e = p; if (0 <= u && u <= (I)p.size()) e.resize(p.size() - u); check(x, e); if (p.size() < 20 && B < 100) { I k2 = rng(0, 4); if (rng.coin()) { x = ns[i]; x.move_down_left(k2); e = p; e.insert(e.end(), k2, false); check(x, e); x.move_down_right(k2); e.insert(e.end(), k2, true); check(x, e); } } }
    auto at = Node::auxiliary_tree(ns); std::set<std::vector<bool>> want; for (auto& p : ps) for (auto& q : ps) { size_t c = 0; while (c < p.size() && c < q.size() && p[c] == q[c]) ++c; want.insert(std::vector<bool>(p.begin(), p.begin() + c)); } EQ(at.size(), (int)want.size()); std::set<std::vector<bool>> got; std::vector<std::vector<bool>> np; for (int i = 0; i < at.size(); ++i) { np.push_back(expand(at.node(i).path())); got.insert(np.back()); } REQUIRE(got == want, "auxiliary tree vertices"); EQ((int)at.nodes().size(), at.size()); int edges = 0; for (int i = 0; i < at.size(); ++i) { for (int j : at[i]) { ++edges; auto& a = np[i].size() < np[j].size() ? np[i] : np[j]; auto& b = np[i].size() < np[j].size() ? np[j] : np[i]; REQUIRE(std::equal(a.begin(), a.end(), b.begin()), "edge between unrelated nodes"); for (auto& w : want) if (w.size() > a.size() && w.size() < b.size()) REQUIRE(!(std::equal(w.begin(), w.end(), b.begin())), "edge skips a node"); REQUIRE(std::count(at[j].begin(), at[j].end(), i) == 1); } } EQ(edges, 2 * (at.size() - 1)); for (auto& w : np) REQUIRE(w.size() >= np[at.root()].size(), "root");
}
SCENARIO(stern_brocot, 250) { if (rng.coin()) sbt_case<N64, i64>(rng, rng.coin() ? 30 : 3000); else sbt_case<N32, int>(rng, rng.coin() ? 30 : 300); }
SCENARIO(stern_brocot_big, 200) { for (int k = 0; k < 10; ++k) { i64 a = rng.wides(1, 1000000000000000000LL), b = rng.wides(1, 1000000000000000000LL), g = std::gcd(a, b); LOG(a, b); N64 x(a, b); auto [p, q] = x.get(); EQ(p, a / g); EQ(q, b / g); auto [l, r] = x.range(); REQUIRE((i128)r.first * l.second - (i128)l.first * r.second == 1); i128 d = 0; for (auto [dir, s] : x.path()) d += s; EQ(x.depth(), (i64)d); i64 c = rng.wides(1, 1000000000000000000LL), e = rng.wides(1, 1000000000000000000LL); N64 y(c, e); EQ(x < y, (i128)a * e < (i128)c * b); N64 w = N64::lca(x, y); REQUIRE(w.is_ancestor_of(x) && w.is_ancestor_of(y)); auto [wl, wr] = w.range(); auto wm = w.get(); auto side = [&](i64 n, i64 m) { i128 u = (i128)n * wm.second, v = (i128)wm.first * m; return u < v ? -1 : u > v; }; (void)wl; (void)wr; REQUIRE(side(a, b) * side(c, e) <= 0, "lca is not lowest"); i64 s = rng.wides(0, x.depth()); N64 z = x; REQUIRE(z.move_up(s)); EQ(z.depth(), x.depth() - s); REQUIRE(z.is_ancestor_of(x)); REQUIRE(z.move_to(x, s)); REQUIRE(z == x); } }
SCENARIO(bezout, 800) {
    int B = rng.coin() ? 6 : 40; i64 a = rng(-B, B), b = rng(-B, B), c = rng(-3 * B, 3 * B); if (rng.pct(15)) a = 0; if (rng.pct(15)) b = 0; BezoutEquation eq(a, b); EQ(eq.g, std::gcd(a, b)); for (int rep = 0; rep < 3; ++rep) { c = rng(-3 * B, 3 * B); if (a == 0 && b == 0 && rng.coin()) c = 0; LOG(a, b, c); auto s = eq.solve(c); i64 xl = INT64_MIN, xr = INT64_MAX, yl = INT64_MIN, yr = INT64_MAX; bool arb = a == 0 && b == 0;
        auto ex = [&](i64 l1, i64 r1, i64 l2, i64 r2) { std::vector<std::pair<i64, i64>> v; for (i64 x = std::max<i64>(l1, -400); x <= std::min<i64>(r1, 400); ++x) for (i64 y = b == 0 || arb ? std::max<i64>(l2, -400) : 0; y <= (b == 0 || arb ? std::min<i64>(r2, 400) : 0); ++y) { if (b == 0 || arb) { if (a * x == c && (arb ? c == 0 : true)) v.push_back({ x, y }); } else { i64 t = c - a * x; if (t % b) continue; i64 yy = t / b; if (yy >= l2 && yy <= r2) v.push_back({ x, yy }); } } return v; };
        bool solvable = arb ? c == 0 : c % std::gcd(a, b) == 0; EQ(s.has_solution(), solvable); if (!solvable) { EQ(*s.count(), 0LL); continue; } REQUIRE(!s.count(), "infinitely many solutions");
        int steps = rng(0, 5); for (int k = 0; k < steps; ++k) { i64 l = rng(-150, 150), r = rng(-150, 150); bool ok = true; switch (rng(0, 5)) { case 0: LOG("minx", l); ok = s.set_min_x(l); xl = std::max(xl, l); break; case 1: LOG("maxx", r); ok = s.set_max_x(r); xr = std::min(xr, r); break; case 2: LOG("miny", l); ok = s.set_min_y(l); yl = std::max(yl, l); break; case 3: LOG("maxy", r); ok = s.set_max_y(r); yr = std::min(yr, r); break; case 4: LOG("x", l, r); ok = s.set_x_range(l, r); xl = std::max(xl, l), xr = std::min(xr, r); break; default: LOG("y", l, r); ok = s.set_y_range(l, r); yl = std::max(yl, l), yr = std::min(yr, r); } if (!ok) REQUIRE(!s.has_solution()); }
        // finite box: intersect with a window so that enumeration is exact
        auto w = s; w.set_x_range(-350, 350); w.set_y_range(-350, 350); auto v = ex(std::max<i64>(xl, -350), std::min<i64>(xr, 350), std::max<i64>(yl, -350), std::min<i64>(yr, 350)); EQ(w.has_solution(), !v.empty()); auto cnt = w.count(); REQUIRE(cnt.has_value()); EQ(*cnt, (i64)v.size()); if (v.size()) { auto X = [](auto& p, auto& q) { return p.first < q.first; }; auto Y = [](auto& p, auto& q) { return p.second < q.second; }; auto in = [&](std::pair<i64, i64> p) { return std::find(v.begin(), v.end(), p) != v.end(); }; auto p1 = w.xmin_solution(), p2 = w.xmax_solution(), p3 = w.ymin_solution(), p4 = w.ymax_solution(); for (auto p : { p1, p2, p3, p4 }) REQUIRE(in(p), "not a solution in range", p.first, p.second); EQ(p1.first, std::min_element(v.begin(), v.end(), X)->first); EQ(p2.first, std::max_element(v.begin(), v.end(), X)->first); EQ(p3.second, std::min_element(v.begin(), v.end(), Y)->second); EQ(p4.second, std::max_element(v.begin(), v.end(), Y)->second); }
        // boundedness of the unrestricted object: count() is empty iff infinitely many solutions remain
        bool hs = s.has_solution(); if (!arb) { auto big = s; big.set_x_range(-1000000, 1000000); big.set_y_range(-1000000, 1000000); auto n1 = *big.count(); auto big2 = s; big2.set_x_range(-2000000, 2000000); big2.set_y_range(-2000000, 2000000); auto n2 = *big2.count(); EQ(hs, n1 > 0); EQ(!s.count(), n2 > n1); if (n1 == n2) EQ(*s.count(), n1); }
    } }
SCENARIO(bezout_big, 400) { i64 a = rng.wides(-1000000000000000000LL, 1000000000000000000LL), b = rng.wides(-1000000000000000000LL, 1000000000000000000LL); if (rng.pct(30)) { i64 g = rng.wides(1, 1000000000); a = a % 1000000000 * g; b = b % 1000000000 * g; } if (!a && !b) a = 1; i64 c = rng.wides(-1000000000000000000LL, 1000000000000000000LL); if (rng.coin()) c = c / std::gcd(a, b) * std::gcd(a, b); LOG(a, b, c); BezoutEquation eq(a, b); auto s = eq.solve(c); bool sol = c % std::gcd(a, b) == 0; EQ(s.has_solution(), sol); if (!sol || !a || !b) return; i64 L = 1000000000000000000LL; auto t = s; bool u = t.set_x_range(-L, L) && t.set_y_range(-L, L); if (t.has_solution() && u) for (auto p : { t.xmin_solution(), t.xmax_solution(), t.ymin_solution(), t.ymax_solution() }) REQUIRE((i128)a * p.first + (i128)b * p.second == c && std::abs(p.first) <= L && std::abs(p.second) <= L, "not a solution in range");
    // solutions next to the origin in x: x in [0, |b|/g)
    i64 g = std::gcd(a, b), step = std::abs(b / g); auto w = s; w.set_x_range(0, step - 1); auto n = w.count(); REQUIRE(n && *n == 1, "exactly one solution per period"); auto p = w.xmin_solution(); REQUIRE(0 <= p.first && p.first < step); REQUIRE((i128)a * p.first + (i128)b * p.second == c, "not a solution"); REQUIRE(p == w.ymax_solution() && p == w.xmax_solution() && p == w.ymin_solution()); }
SCENARIO(factorial_number, 300) {
    int n = rng(1, 20); u64 F = 1; for (int i = 2; i <= n; ++i) F *= i; auto md = [&](i128 v) { i128 r = v % (i128)F; if (r < 0) r += F; return (u64)r; }; auto gv = [&]() -> i64 { return rng.coin() ? rng(-30, 30) : rng.wides(-INT64_MAX, INT64_MAX); };
    i64 v0 = gv(); LOG(n, v0); factorial_number x(n, v0); u64 X = md(v0); EQ(x.to_ull(), X); EQ(x.size(), n); for (int k = 0; k < 20; ++k) { i64 v = gv(); factorial_number y(n, v); u64 Y = md(v); int o = rng(0, 13); LOG(o, v); switch (o) { case 0: x += y; X = md((i128)X + Y); break; case 1: x -= y; X = md((i128)X - Y); break; case 2: x += v; X = md((i128)X + v); break; case 3: x -= v; X = md((i128)X - v); break; case 4: x *= v; X = md((i128)md(v) * X); break; case 5: EQ((x++).to_ull(), X); X = md((i128)X + 1); break; case 6: EQ((++x).to_ull(), md((i128)X + 1)); X = md((i128)X + 1); break; case 7: EQ((x--).to_ull(), X); X = md((i128)X - 1); break; case 8: --x; X = md((i128)X - 1); break; case 9: x = -x; X = md(-(i128)X); break; case 10: x = v - x; X = md((i128)v - X); break; case 11: x = v * x; X = md((i128)md(v) * X); break; case 12: x = x + v + y; X = md((i128)X + v + Y); break; default: x = v + (x - y) - v; X = md((i128)X - Y); }
        EQ(x.to_ull(), X); EQ(x < y, X < Y); EQ(x > y, X > Y); EQ(x <= y, X <= Y); EQ(x >= y, X >= Y); EQ(x == y, X == Y); EQ(x != y, X != Y);
        auto p = x.to_permutation(); EQ((int)p.size(), n); u64 rank = 0; for (int i = 0; i < n; ++i) { int c = 0; for (int j = i + 1; j < n; ++j) c += p[j] < p[i]; rank = rank * (n - i) + c; } EQ(rank, X); auto sp = p; std::sort(sp.begin(), sp.end()); for (int i = 0; i < n; ++i) EQ(sp[i], i); factorial_number z(p); EQ(z.to_ull(), X); EQ(z == x, true); }
    int m = rng(1, 20); u64 G = 1; for (int i = 2; i <= m; ++i) G *= i; x.resize(m); EQ(x.size(), m); EQ(x.to_ull(), X % G); EQ(factorial_number().to_ull(), 0ULL);
    int L = rng.size(1, 200); auto p = rng.perm(L); factorial_number y(p); auto q = p; if (std::next_permutation(q.begin(), q.end())) { ++y; EQV(y.to_permutation(), q); --y; EQV(y.to_permutation(), p); y += 1; EQV(y.to_permutation(), q); y -= 1; } EQV(y.to_permutation(), p); i64 s = rng.wides(-1000000, 1000000); auto z = y + s; REQUIRE(z - s == y); REQUIRE((y * 3) - y - y == y);
}
SCENARIO(min_of_mod, 600) { for (int k = 0; k < 6; ++k) { int n = rng.size(1, 300), m, a, b; if (rng.coin()) { m = rng.size(1, 200); a = rng(-m, 2 * m), b = rng(-m, 2 * m); } else { m = rng.coin() ? INT_MAX - rng(0, 5) : rng.wides(1, INT_MAX); a = rng.u() % m, b = rng.coin() ? m - 1 - rng.u() % std::min<i64>(m, 1000) : rng.u() % m; } LOG(n, m, a, b); i64 e = INT64_MAX; for (int x = 0; x < n; ++x) e = std::min<i64>(e, (((i64)a * x + b) % m + m) % m); EQ((i64)min_of_mod_of_linear(n, m, a, b), e); } }
SCENARIO(min_of_mod_big, 100) { int m = rng.wides(1, INT_MAX), a = rng.u() % m, b = rng.u() % m, n = rng.wides(1, INT_MAX); LOG(n, m, a, b); i64 g = std::gcd(a, m); int v = min_of_mod_of_linear(n, m, a, b); REQUIRE(0 <= v && v < m); if (n >= m / g) EQ((i64)v, b % g); else { i64 w = min_of_mod_of_linear(std::max(1, n / 2), m, a, b); REQUIRE(v <= w); i64 rest = n - n / 2; if (n >= 2) { i64 b2 = ((i64)a * (n / 2) + b) % m; EQ((i64)v, std::min<i64>(w, min_of_mod_of_linear(rest, m, a, b2))); } } }
// the same workloads at realistic sizes
RESCALE(rational_tree, 4, 512);
RESCALE(factorial_number, 4, 512);
RESCALE(min_of_mod, 4, 512);
