// integer geometry workloads; included with three coordinate / product type settings
#include "mon.hpp"
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/closest_pair.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/integral_geom/convex_hull.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
#include "library/integral_geom/sort_points_by_argument.hpp"
#include <map>
#include <set>
#include <sstream>
#include <cmath>
namespace G = suisen::integral_geometry;
using G::Point; using G::Inclusion; using G::coordinate_t; using G::multiplied_t;
struct Q { i64 x, y; bool operator==(const Q& o) const { return x == o.x && y == o.y; } bool operator<(const Q& o) const { return x != o.x ? x < o.x : y < o.y; } };
inline std::ostream& operator<<(std::ostream& o, const Q& q) { return o << '(' << q.x << ',' << q.y << ')'; }
using VQ = std::vector<Q>;
static Point P_(const Q& q) { return Point((coordinate_t)q.x, (coordinate_t)q.y); }
static Q un(const Point& p) { return { (i64)p.x, (i64)p.y }; }
static std::vector<Point> P_(const VQ& v) { std::vector<Point> r; for (auto& q : v) r.push_back(P_(q)); return r; }
static std::string show(const VQ& v) { std::ostringstream s; for (auto& q : v) s << q << ' '; return s.str(); }
// exact model (i128; coordinates up to 1e18 -> products of differences below 8e36)
static i128 cr(Q a, Q b, Q c) { return (i128)(b.x - a.x) * (c.y - a.y) - (i128)(b.y - a.y) * (c.x - a.x); }
static i128 dt(Q a, Q b, Q c) { return (i128)(b.x - a.x) * (c.x - a.x) + (i128)(b.y - a.y) * (c.y - a.y); }
static i128 d2(Q a, Q b) { return (i128)(a.x - b.x) * (a.x - b.x) + (i128)(a.y - b.y) * (a.y - b.y); }
static int sg(i128 x) { return x < 0 ? -1 : x > 0; }
static bool onseg(Q a, Q b, Q p) { return cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
static bool inter(Q a, Q b, Q c, Q d) { if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true; return sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0; }
static i64 pickR(mon::Rng& rng, i64 cap) { int k = rng(0, 9); i64 r = k < 3 ? 3 : k < 5 ? 8 : k < 7 ? 100 : cap; return std::min(r, cap); }
static Q rq(mon::Rng& rng, i64 R) { return { (i64)rng(-R, R), (i64)rng(-R, R) }; }
static VQ pts(mon::Rng& rng, int n, i64 R) { VQ v; int k = rng(0, 9); Q o = rq(rng, std::min<i64>(R, 50)); i64 dx = rng(-3, 3), dy = rng(-3, 3); for (int i = 0; i < n; ++i) { if (k == 0) { i64 t = rng(-std::max<i64>(1, std::min<i64>(R / 4, 1000) - 20), std::max<i64>(1, std::min<i64>(R / 4, 1000) - 20)); v.push_back({ o.x + dx * t, o.y + dy * t }); } else if (k == 1) v.push_back({ o.x, (i64)rng(-R, R) }); else if (k == 2) v.push_back({ (i64)rng(-R, R), o.y }); else if (k == 3) { i64 x = rng(-2, 2); v.push_back({ x * (R / 2), (i64)rng(-R, R) }); } else v.push_back(rq(rng, R)); } if (n && rng.pct(25)) for (auto& q : v) if (rng.pct(30)) q = v[rng(0, n - 1)]; if (R < 60) for (auto& q : v) (void)q; return v; }
static constexpr i64 BIG = IG_BIG;          // |coordinate| bound under which products of differences fit multiplied_t
static i64 fit(i64 R) { return std::min<i64>(R, BIG); }
// lexicographically first, counter-clockwise, all distinct boundary points
static VQ hull(VQ v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); if (v.size() < 3) return v; bool col = true; for (auto& q : v) if (cr(v[0], v.back(), q) != 0) col = false; if (col) return v; VQ lo, up; for (auto& q : v) { bool any_below = false; /* boundary iff it lies on a supporting edge */ (void)any_below; while (lo.size() >= 2 && cr(lo[lo.size() - 2], lo.back(), q) < 0) lo.pop_back(); lo.push_back(q); } for (auto it = v.rbegin(); it != v.rend(); ++it) { while (up.size() >= 2 && cr(up[up.size() - 2], up.back(), *it) < 0) up.pop_back(); up.push_back(*it); } VQ r = lo; r.pop_back(); up.pop_back(); for (auto& q : up) r.push_back(q); return r; }
static bool collinear(const VQ& v) { if (v.empty()) return true; Q a = *std::min_element(v.begin(), v.end()), b = *std::max_element(v.begin(), v.end()); for (auto& q : v) if (cr(a, b, q) != 0) return false; return true; }
// winding number by exact quadrant walk; p not on the boundary
static int winding(const VQ& v, Q p) { int w = 0, n = v.size(); for (int i = 0; i < n; ++i) { Q a = v[i], b = v[(i + 1) % n]; if (a.y <= p.y) { if (b.y > p.y && cr(a, b, p) > 0) ++w; } else if (b.y <= p.y && cr(a, b, p) < 0) --w; } return w; }
static Inclusion polyInc(const VQ& v, Q p) { int n = v.size(); for (int i = 0; i < n; ++i) if (onseg(v[i], v[(i + 1) % n], p)) return Inclusion::ON; return winding(v, p) != 0 ? Inclusion::IN : Inclusion::OUT; }
static i128 area2(const VQ& v) { i128 s = 0; for (size_t i = 1; i + 1 < v.size(); ++i) s += cr(v[0], v[i], v[i + 1]); return s; }
static bool simple(const VQ& v) { int n = v.size(); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (v[i] == v[j]) return false; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { Q a = v[i], b = v[(i + 1) % n], c = v[j], d = v[(j + 1) % n]; if (j == i + 1) { if (onseg(a, b, d) || onseg(c, d, a)) return false; } else if ((j + 1) % n == i) { if (onseg(c, d, b) || onseg(a, b, c)) return false; } else if (inter(a, b, c, d)) return false; } return true; }
static bool simplePoly(mon::Rng& rng, VQ& v, i64 R, int maxn = 9) { for (int att = 0; att < 20; ++att) { int n = rng.size(3, maxn); v.clear(); std::set<std::pair<i64, i64>> s; for (int i = 0; i < n; ++i) { Q q = rq(rng, R); if (s.insert({ q.x, q.y }).second) v.push_back(q); } n = v.size(); if (n < 3) continue; for (int it = 0; it < 60 && !simple(v); ++it) { /* 2-opt */ bool done = true; for (int i = 0; i < n && done; ++i) for (int j = i + 2; j < n && done; ++j) if (!(i == 0 && j == n - 1) && inter(v[i], v[i + 1], v[j], v[(j + 1) % n])) std::reverse(v.begin() + i + 1, v.begin() + j + 1), done = false; if (done) rng.shuffle(v); } if (simple(v)) return true; } return false; }
static Q near(mon::Rng& rng, const VQ& v, i64 R) { int n = v.size(); if (!n) return rq(rng, R); Q q; switch (rng(0, 3)) { case 0: q = v[rng(0, n - 1)]; break; case 1: { Q a = v[rng(0, n - 1)], b = v[rng(0, n - 1)]; q = { a.x + (b.x - a.x) / 2, a.y + (b.y - a.y) / 2 }; break; } case 2: { Q a = v[rng(0, n - 1)]; q = { a.x, v[rng(0, n - 1)].y }; break; } default: q = rq(rng, R); } if (rng.coin()) q.x += rng(-1, 1), q.y += rng(-1, 1); q.x = std::clamp<i64>(q.x, -R, R), q.y = std::clamp<i64>(q.y, -R, R); return q; }

SCENARIO(predicates, 3000, 10) { i64 R = fit(pickR(rng, BIG)); VQ v = pts(rng, 4, R); for (auto& q : v) q.x = std::clamp<i64>(q.x, -R, R), q.y = std::clamp<i64>(q.y, -R, R); if (rng.pct(30)) v[2] = near(rng, VQ{ v[0], v[1] }, R); Q a = v[0], b = v[1], c = v[2], d = v[3]; LOG(show(v)); Point A = P_(a), B = P_(b), C = P_(c), D = P_(d);
    REQUIRE((i128)G::det(B - A, C - A) == cr(a, b, c)); REQUIRE((i128)G::dot(B - A, C - A) == dt(a, b, c)); REQUIRE((i128)G::square_abs(B - A) == d2(a, b)); EQ(G::sgn(A.x), sg(a.x)); if (std::abs((double)a.x) < 5e17) EQ(G::compare(A.x, B.x), sg((i128)a.x - b.x)); NEAR(G::abs(B - A) / std::max(1.0L, std::sqrt((long double)d2(a, b))), a == b ? 0. : 1., 1e-9); if (!(a == Q{ 0, 0 })) NEAR(G::arg(A), std::atan2((double)a.y, (double)a.x), 1e-12); REQUIRE(G::conj(A) == P_(Q{ a.x, -a.y })); REQUIRE(G::cartesian(A.x, A.y) == A);
    REQUIRE((i128)G::signed_area_doubled(A, B, C) == cr(a, b, c)); REQUIRE((i128)G::area_doubled(A, B, C) == (cr(a, b, c) < 0 ? -cr(a, b, c) : cr(a, b, c)));
    if (!(a == b)) { int w; i128 k = cr(a, b, c); if (k != 0) w = sg(k); else if (dt(a, b, c) < 0) w = -2; else if (dt(b, a, c) < 0) w = 2; else w = 0; EQ(G::isp(A, B, C), w);
        REQUIRE(G::contains(G::Line(A, B), C) == (k == 0 ? Inclusion::ON : Inclusion::OUT)); REQUIRE(G::contains(G::Ray(A, B), C) == (k == 0 && dt(a, b, c) >= 0 ? Inclusion::ON : Inclusion::OUT));
        if (!(c == d)) { auto vec = [](Q p, Q q) { return std::pair<i128, i128>{ (i128)q.x - p.x, (i128)q.y - p.y }; }; auto u = vec(a, b), w2 = vec(c, d); i128 dd = u.first * w2.second - u.second * w2.first, oo = u.first * w2.first + u.second * w2.second; EQ(G::is_parallel(G::Line(A, B), G::Segment(C, D)), dd == 0); EQ(G::is_orthogonal(G::Ray(A, B), G::Line(C, D)), oo == 0); bool same = dd == 0 && k == 0; EQ(G::on_the_same_line(G::Segment(A, B), G::Segment(C, D)), same); EQ(G::Line(A, B) == G::Line(C, D), same); EQ(G::Ray(A, B) == G::Ray(C, D), same && a == c && oo > 0); { Q e{ 2 * a.x - b.x, 2 * a.y - b.y }; if (std::abs((double)e.x) <= (double)BIG && std::abs((double)e.y) <= (double)BIG) { Point E = P_(e); EQ(G::Ray(A, B) == G::Ray(A, E), false); EQ(G::Ray(A, B) == G::Ray(A, B), true); EQ(G::Line(A, B) == G::Line(E, A), true); } } }
    }
    REQUIRE(G::contains(G::Segment(A, B), C) == (onseg(a, b, c) ? Inclusion::ON : Inclusion::OUT)); if (!(a == b) || !(c == d)) EQ(G::has_common_point(G::Segment(A, B), G::Segment(C, D)), inter(a, b, c, d)); EQ(G::Segment(A, B) == G::Segment(C, D), (a == c && b == d) || (a == d && b == c)); EQ(G::Segment(A, B) == G::Segment(B, A), true); }

SCENARIO(circles, 1500, 10) { i64 R = fit(pickR(rng, BIG / 3)); Q a = rq(rng, R), b = rng.pct(20) ? a : rq(rng, R); i64 r1 = rng(0, R), r2 = rng(0, R); if (rng.pct(40)) { /* tangency from Pythagorean triples */ static const int t[][3] = { { 3, 4, 5 }, { 5, 12, 13 }, { 8, 15, 17 }, { 0, 1, 1 }, { 1, 0, 1 } }; auto& p = t[rng(0, 4)]; i64 k = rng(1, std::max<i64>(1, R / 20)); b = { a.x + p[0] * k, a.y + p[1] * k }; i64 d = p[2] * k; if (rng.coin()) r1 = rng(0, d), r2 = d - r1; else r2 = r1 + d; if (rng.pct(30)) r1 += rng(0, 1); if (r2 > BIG / 2 || r1 > BIG / 2 || std::max(std::abs((double)b.x), std::abs((double)b.y)) > (double)BIG / 2) return; } LOG(a.x, a.y, r1, b.x, b.y, r2); i128 D = d2(a, b), s = (i128)(r1 + r2) * (r1 + r2), m = (i128)(r1 - r2) * (r1 - r2); G::Circle c1(P_(a), (coordinate_t)r1), c2(P_(b), (coordinate_t)r2); if (r1 > 0 && r2 > 0 && !(a == b && r1 == r2)) { int w = D > s ? 4 : D == s ? 3 : D > m ? 2 : D == m ? 1 : 0; EQ(G::tangent_num(c1, c2), w); EQ(G::tangent_num(c2, c1), w); EQ(G::has_cross_point(c1, c2), w == 2); } EQ(G::has_common_point(c1, c2), D <= s && D >= m); EQ(G::has_common_point(c2, c1), D <= s && D >= m); i128 f = D - (i128)r1 * r1; REQUIRE(G::contains(c1, P_(b)) == (f > 0 ? Inclusion::OUT : f < 0 ? Inclusion::IN : Inclusion::ON)); }

SCENARIO(polygon, 700, 10) { i64 R = fit(pickR(rng, BIG / 16)); VQ v; if (!simplePoly(rng, v, R)) return; LOG(show(v)); i128 s = area2(v); auto pv = P_(v); REQUIRE((i128)G::signed_area_doubled(pv) == s); REQUIRE((i128)G::area_doubled(pv) == (s < 0 ? -s : s)); if (s < 0) std::reverse(v.begin(), v.end()), std::reverse(pv.begin(), pv.end()); bool c1 = true, c2 = true; int n = v.size(); for (int i = 0; i < n; ++i) { i128 k = cr(v[i], v[(i + 1) % n], v[(i + 2) % n]); if (k < 0) c1 = c2 = false; if (k == 0) c2 = false; } EQ(G::is_convex(pv), c1); EQ(G::is_convex<false>(pv), c2); std::rotate(pv.begin(), pv.begin() + rng(0, n - 1), pv.end()); for (int t = 0; t < 15; ++t) { Q p = near(rng, v, R); auto w = polyInc(v, p); REQUIRE(G::contains(pv, P_(p)) == w, (int)w, p.x, p.y); auto rv = pv; std::reverse(rv.begin(), rv.end()); REQUIRE(G::contains(rv, P_(p)) == w, (int)w, p.x, p.y); } }

SCENARIO(lattice_count, 500, 10) { i64 R = rng.coin() ? 6 : 40; VQ v; if (rng.pct(15)) { v = pts(rng, rng(1, 2), R); } else if (!simplePoly(rng, v, R)) return; LOG(show(v)); int n = v.size(); i64 xl = 1e9, xh = -1e9, yl = 1e9, yh = -1e9, w = 0; for (auto& q : v) xl = std::min(xl, q.x), xh = std::max(xh, q.x), yl = std::min(yl, q.y), yh = std::max(yh, q.y); for (i64 x = xl; x <= xh; ++x) for (i64 y = yl; y <= yh; ++y) w += polyInc(v, { x, y }) != Inclusion::OUT; EQ((i64)(G::count_lattice_points<Point, multiplied_t>(P_(v))), w); std::vector<std::pair<int, int>> pi; for (auto& q : v) pi.push_back({ (int)q.x, (int)q.y }); EQ(G::count_lattice_points(pi), w); std::reverse(pi.begin(), pi.end()); EQ(G::count_lattice_points(pi), w); /* a large axis-parallel / diagonal shape by closed form */ if (n >= 3) { i64 L = rng.wide(1000000000), M = rng.wide(1000000000); i64 x0 = rng(-1000000, 0), y0 = rng(-1000000, 0); std::vector<std::pair<i64, i64>> r{ { x0, y0 }, { x0 + L + 1, y0 }, { x0 + L + 1, y0 + M + 1 }, { x0, y0 + M + 1 } }; REQUIRE((G::count_lattice_points<std::pair<i64, i64>, i128>(r) == (i128)(L + 2) * (M + 2))); } }

SCENARIO(hull, 1200, 10) { i64 R = fit(pickR(rng, BIG)); int n = rng.size(rng.pct(3) ? 0 : 1, rng.pct(10) ? 200 : 14); VQ v = pts(rng, n, R); for (auto& q : v) q.x = std::clamp<i64>(q.x, -R, R), q.y = std::clamp<i64>(q.y, -R, R); LOG(n, show(v)); auto h = G::convex_hull<Point, multiplied_t>(P_(v)); VQ got; std::set<int> ids; for (int i : h) { REQUIRE(0 <= i && i < n); REQUIRE(ids.insert(i).second, i); got.push_back(v[i]); } std::vector<std::pair<coordinate_t, coordinate_t>> pp; for (auto& q : v) pp.push_back({ (coordinate_t)q.x, (coordinate_t)q.y }); auto hp = G::convex_hull<std::pair<coordinate_t, coordinate_t>, multiplied_t>(pp); EQV(hp, h); VQ w = hull(v); if (!collinear(v)) REQUIRE(got == w, show(got), show(w)); else { std::set<Q> s(v.begin(), v.end()); if (s.size() == v.size()) REQUIRE(got == w, show(got), show(w)); else { REQUIRE(!got.empty()); std::set<Q> t(got.begin(), got.end()); REQUIRE(t == s, show(got)); REQUIRE(got[0] == w[0]); } } }

SCENARIO(inclusion, 600, 10) { i64 R = std::min<i64>(fit(pickR(rng, BIG)), sizeof(coordinate_t) == 4 ? 1000000000LL : BIG); int n = rng.size(1, 14); VQ v = pts(rng, n, R); for (auto& q : v) q.x = std::clamp<i64>(q.x, -R, R), q.y = std::clamp<i64>(q.y, -R, R); VQ h = hull(v); if (rng.coin()) { /* strict vertices only */ VQ g; int k = h.size(); if (k >= 3 && !collinear(h)) { for (int i = 0; i < k; ++i) if (cr(h[(i + k - 1) % k], h[i], h[(i + 1) % k]) != 0) g.push_back(h[i]); h = g; } } if (collinear(h) && h.size() > 2) h = { h.front(), h.back() }; LOG(show(h)); std::rotate(h.begin(), h.begin() + rng(0, (int)h.size() - 1), h.end()); VQ hd; for (auto& q : h) for (int t = rng.pct(15) ? 2 : 1; t--;) hd.push_back(q); if (rng.pct(10)) hd.push_back(hd[0]); auto run = [&](auto tag) { using PT = decltype(tag); std::vector<PT> p; for (auto& q : hd) p.push_back(PT{ (std::tuple_element_t<0, PT>)q.x, (std::tuple_element_t<1, PT>)q.y }); G::ConvexHullInclusion<PT> f(p); for (int t = 0; t < 15; ++t) { Q q = near(rng, h, R); auto w = polyInc(h, q); auto g = f(PT{ (std::tuple_element_t<0, PT>)q.x, (std::tuple_element_t<1, PT>)q.y }); REQUIRE(g == w, q.x, q.y, (int)g, (int)w); REQUIRE(f(q.x, q.y) == w); REQUIRE(f(std::make_pair(q.x, q.y)) == w); } }; switch (rng(0, 2)) { case 0: run(std::pair<coordinate_t, coordinate_t>()); break; case 1: run(std::tuple<long long, long long>()); break; default: run(std::pair<coordinate_t, long long>()); } }

SCENARIO(closest, 500, 10) { i64 R = fit(pickR(rng, BIG)); int n = rng.size(1, rng.pct(10) ? 300 : 24); VQ v = pts(rng, n, R); for (auto& q : v) q.x = std::clamp<i64>(q.x, -R, R), q.y = std::clamp<i64>(q.y, -R, R); LOG(n, show(v)); auto [p, q] = G::closest_pair(P_(v)); i128 w = -1; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (w < 0 || d2(v[i], v[j]) < w) w = d2(v[i], v[j]); if (n == 1) w = 0; Q a = un(p), b = un(q); REQUIRE(d2(a, b) == w, a.x, a.y, b.x, b.y); auto ca = std::count(v.begin(), v.end(), a), cb = std::count(v.begin(), v.end(), b); REQUIRE(ca && cb); if (a == b && n > 1) REQUIRE(ca >= 2); }

SCENARIO(farthest, 600, 10) { i64 R = fit(pickR(rng, BIG)); int n = rng.size(1, rng.pct(10) ? 200 : 20); VQ v = pts(rng, n, R); for (auto& q : v) q.x = std::clamp<i64>(q.x, -R, R), q.y = std::clamp<i64>(q.y, -R, R); LOG(n, show(v)); auto [p, q] = G::farthest_pair<Point, multiplied_t>(P_(v)); i128 w = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) w = std::max(w, d2(v[i], v[j])); Q a = un(p), b = un(q); REQUIRE(d2(a, b) == w, a.x, a.y, b.x, b.y); REQUIRE(std::count(v.begin(), v.end(), a) && std::count(v.begin(), v.end(), b)); std::vector<std::pair<coordinate_t, coordinate_t>> pp; for (auto& z : v) pp.push_back({ (coordinate_t)z.x, (coordinate_t)z.y }); auto r = G::farthest_pair<std::pair<coordinate_t, coordinate_t>, multiplied_t>(pp); REQUIRE(d2({ r.first.first, r.first.second }, { r.second.first, r.second.second }) == w); VQ h = hull(v); if (!collinear(h)) { std::rotate(h.begin(), h.begin() + rng(0, (int)h.size() - 1), h.end()); auto [i, j] = G::convex_diameter(P_(h)); REQUIRE(0 <= i && i < (int)h.size() && 0 <= j && j < (int)h.size()); REQUIRE(d2(h[i], h[j]) == w, i, j); } }

SCENARIO(argument_sort, 600, 10) { i64 R = fit(pickR(rng, BIG)); int n = rng.size(0, rng.pct(10) ? 100 : 16); VQ v = pts(rng, n, R); for (auto& q : v) { q.x = std::clamp<i64>(q.x, -R, R), q.y = std::clamp<i64>(q.y, -R, R); if (rng.pct(10)) q = { 0, 0 }; else if (rng.pct(10)) q.x = 0; else if (rng.pct(10)) q.y = 0; } LOG(show(v)); /* class of the argument in (-pi, pi]: half plane, then cross product; (0,0) counts as 0 */ auto eff = [](Q q) { return q == Q{ 0, 0 } ? Q{ 1, 0 } : q; }; auto half = [](Q q) { return q.y < 0 ? 0 : q.y == 0 && q.x > 0 ? 1 : q.y > 0 ? 2 : 3; }; auto less = [&](Q a, Q b) { a = eff(a), b = eff(b); int h = half(a), k = half(b); return h != k ? h < k : (i128)a.x * b.y - (i128)a.y * b.x > 0; }; auto pv = P_(v); auto cmp = [&](int i, int j) { return G::compare_by_atan2<Point, multiplied_t>(pv[i], pv[j]); }; int m = std::min(n, 14); for (int i = 0; i < m; ++i) { EQ(cmp(i, i), false, i); for (int j = 0; j < m; ++j) { if (less(v[i], v[j])) { EQ(cmp(i, j), true, v[i], v[j]); EQ(cmp(j, i), false, v[i], v[j]); } if (cmp(i, j)) { EQ(cmp(j, i), false, v[i], v[j]); for (int k = 0; k < m; ++k) if (cmp(j, k)) EQ(cmp(i, k), true, v[i], v[j], v[k]); } } } G::sort_points_by_argument<Point, multiplied_t>(pv); VQ s; for (auto& p : pv) s.push_back(un(p)); for (int i = 0; i + 1 < n; ++i) REQUIRE(!less(s[i + 1], s[i]), show(s)); VQ a = v, b = s; std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end()); REQUIRE(a == b); std::vector<std::pair<coordinate_t, coordinate_t>> pp; for (auto& q : v) pp.push_back({ (coordinate_t)q.x, (coordinate_t)q.y }); G::sort_points_by_argument<std::pair<coordinate_t, coordinate_t>, multiplied_t>(pp); for (int i = 0; i + 1 < n; ++i) REQUIRE(!less({ (i64)pp[i + 1].first, (i64)pp[i + 1].second }, { (i64)pp[i].first, (i64)pp[i].second })); }

SCENARIO(point_ops, 500) { i64 R = rng.coin() ? 10 : 20000; Q a = rq(rng, R), b = rq(rng, R); coordinate_t k = (coordinate_t)rng(1, 50) * (rng.coin() ? 1 : -1); Point A = P_(a), B = P_(b); LOG(a, b, (i64)k); auto is = [&](const Point& p, i64 x, i64 y) { EQ((i64)p.x, x); EQ((i64)p.y, y); }; i64 K = (i64)k; is(+A, a.x, a.y); is(-A, -a.x, -a.y); is(A + B, a.x + b.x, a.y + b.y); is(A - B, a.x - b.x, a.y - b.y); is(A * B, a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x); is(A + k, a.x + K, a.y); is(A - k, a.x - K, a.y); is(A * k, a.x * K, a.y * K); is(A / k, a.x / K, a.y / K); is(k + A, a.x + K, a.y); is(k - A, K - a.x, -a.y); is(k * A, a.x * K, a.y * K); { Point c = A; is(c += B, a.x + b.x, a.y + b.y); is(c, a.x + b.x, a.y + b.y); is(c -= B, a.x, a.y); is(c, a.x, a.y); Point z = A; is(z *= B, a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x); is(z, a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x); is(c += k, a.x + K, a.y); is(c, a.x + K, a.y); is(c -= k, a.x, a.y); is(c, a.x, a.y); is(c *= k, a.x * K, a.y * K); is(c, a.x * K, a.y * K); is(c /= k, a.x, a.y); is(c, a.x, a.y); c *= c; is(c, a.x * a.x - a.y * a.y, 2 * a.x * a.y); } EQ(A == B, a == b); EQ(A != B, !(a == b)); EQ(G::XY_COMPARATOR(A, B), a < b); EQ(G::XY_COMPARATOR_GREATER(A, B), b < a); Q at{ a.y, a.x }, bt{ b.y, b.x }; EQ(G::YX_COMPARATOR(A, B), at < bt); EQ(G::YX_COMPARATOR_GREATER(A, B), bt < at); std::ostringstream o; o << A << ' ' << B; EQ(o.str(), std::to_string(a.x) + " " + std::to_string(a.y) + " " + std::to_string(b.x) + " " + std::to_string(b.y)); std::istringstream in(o.str()); Point c, d; in >> c >> d; REQUIRE(c == A && d == B); { auto [x, y] = A; EQ((i64)x, a.x); EQ((i64)y, a.y); auto& [u, w] = c; u = 5; w = 7; is(c, 5, 7); const Point cc = A; EQ((i64)cc.get<0>(), a.x); EQ((i64)cc.get<1>(), a.y); } std::pair<coordinate_t, coordinate_t> pr = A; EQ((i64)pr.first, a.x); EQ((i64)pr.second, a.y); d = std::pair<int, int>{ 3, -4 }; is(d, 3, -4); is(Point(), 0, 0); is(G::ZERO, 0, 0); is(G::ONE, 1, 0); is(G::I, 0, 1); is(G::I * G::I, -1, 0); }

// the same workloads at realistic sizes
RESCALE(hull, 4, 64);
RESCALE(closest, 4, 32);
RESCALE(farthest, 4, 32);
RESCALE(argument_sort, 4, 64);
