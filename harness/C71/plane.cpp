// MON: shards=3
#include "mon.hpp"
#include "library/geom/geometry.hpp"
#include "library/geom/convex_hull.hpp"
#include "library/geom/closest_pair.hpp"
#include "library/geom/segment_intersections.hpp"
#include <set>
#include <sstream>
#include <cmath>
#include <functional>
namespace G = suisen::geometry;
using G::Point; using G::Containment; using G::Line; using G::Ray; using G::Segment; using G::Circle;
using ld = long double;
struct Q { i64 x, y; bool operator==(const Q& o) const { return x == o.x && y == o.y; } bool operator<(const Q& o) const { return x != o.x ? x < o.x : y < o.y; } };
inline std::ostream& operator<<(std::ostream& o, const Q& q) { return o << '(' << q.x << ',' << q.y << ')'; }
using VQ = std::vector<Q>;
static std::string show(const VQ& v) { std::ostringstream s; for (auto& q : v) s << q << ' '; return s.str(); }
static ld SC = 1; // power of two: scaled integer coordinates stay exact
static Point pt(const Q& q) { return Point(q.x * SC, q.y * SC); }
static std::vector<Point> pt(const VQ& v) { std::vector<Point> r; for (auto& q : v) r.push_back(pt(q)); return r; }
static void scale(mon::Rng& rng) { static const ld s[] = { 1, 1, 0.25L, 16, 0.5L }; SC = s[rng(0, 4)]; }
static i64 cr(Q a, Q b, Q c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static i64 dt(Q a, Q b, Q c) { return (b.x - a.x) * (c.x - a.x) + (b.y - a.y) * (c.y - a.y); }
static i64 d2(Q a, Q b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
static int sg(i64 x) { return x < 0 ? -1 : x > 0; }
static bool onseg(Q a, Q b, Q p) { return cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
static bool inter(Q a, Q b, Q c, Q d) { if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true; return sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0; }
static i64 rad(mon::Rng& rng) { int k = rng(0, 3); return k == 0 ? 3 : k == 1 ? 8 : k == 2 ? 30 : 1000; }
static Q rq(mon::Rng& rng, i64 R) { return { (i64)rng(-R, R), (i64)rng(-R, R) }; }
static VQ pts(mon::Rng& rng, int n, i64 R) { VQ v; int k = rng(0, 9); Q o = rq(rng, R); i64 dx = rng(-3, 3), dy = rng(-3, 3); for (int i = 0; i < n; ++i) { if (k == 0) { i64 t = rng(-R, R); v.push_back({ o.x + dx * t, o.y + dy * t }); } else if (k == 1) v.push_back({ o.x, (i64)rng(-R, R) }); else if (k == 2) v.push_back({ (i64)rng(-R, R), o.y }); else v.push_back(rq(rng, R)); } if (n && rng.pct(25)) for (auto& q : v) if (rng.pct(30)) q = v[rng(0, n - 1)]; return v; }
static bool collinear(const VQ& v) { if (v.empty()) return true; Q a = *std::min_element(v.begin(), v.end()), b = *std::max_element(v.begin(), v.end()); for (auto& q : v) if (cr(a, b, q) != 0) return false; return true; }
static VQ hull(VQ v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); if (v.size() < 3 || collinear(v)) return v; VQ lo, up; for (auto& q : v) { while (lo.size() >= 2 && cr(lo[lo.size() - 2], lo.back(), q) < 0) lo.pop_back(); lo.push_back(q); } for (auto it = v.rbegin(); it != v.rend(); ++it) { while (up.size() >= 2 && cr(up[up.size() - 2], up.back(), *it) < 0) up.pop_back(); up.push_back(*it); } lo.pop_back(); up.pop_back(); for (auto& q : up) lo.push_back(q); return lo; }
static int winding(const VQ& v, Q p) { int w = 0, n = v.size(); for (int i = 0; i < n; ++i) { Q a = v[i], b = v[(i + 1) % n]; if (a.y <= p.y) { if (b.y > p.y && cr(a, b, p) > 0) ++w; } else if (b.y <= p.y && cr(a, b, p) < 0) --w; } return w; }
static Containment polyInc(const VQ& v, Q p) { int n = v.size(); for (int i = 0; i < n; ++i) if (onseg(v[i], v[(i + 1) % n], p)) return Containment::ON; return winding(v, p) != 0 ? Containment::IN : Containment::OUT; }
static i64 area2(const VQ& v) { i64 s = 0; for (size_t i = 1; i + 1 < v.size(); ++i) s += cr(v[0], v[i], v[i + 1]); return s; }
static bool simple(const VQ& v) { int n = v.size(); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (v[i] == v[j]) return false; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { Q a = v[i], b = v[(i + 1) % n], c = v[j], d = v[(j + 1) % n]; if (j == i + 1) { if (onseg(a, b, d) || onseg(c, d, a)) return false; } else if ((j + 1) % n == i) { if (onseg(c, d, b) || onseg(a, b, c)) return false; } else if (inter(a, b, c, d)) return false; } return true; }
// a many-vertex simple polygon: distinct directions around a centre, by angle
static bool starPoly(mon::Rng& rng, VQ& v, i64 R, int maxn) { for (int att = 0; att < 20; ++att) { int n = rng.size(3, maxn); Q c = rq(rng, R / 2 + 1); VQ s; for (int i = 0; i < n; ++i) { Q q = rq(rng, R); if (!(q == c)) s.push_back(q); } auto up = [&](Q q) { return q.y > c.y || (q.y == c.y && q.x > c.x); }; std::sort(s.begin(), s.end(), [&](Q a, Q b) { if (up(a) != up(b)) return up(a); i64 k = cr(c, a, b); return k ? k > 0 : d2(c, a) < d2(c, b); }); v.clear(); for (auto& q : s) if (v.empty() || up(v.back()) != up(q) || cr(c, v.back(), q) != 0) v.push_back(q); if (v.size() >= 3 && simple(v)) return true; } return false; }
static bool simplePoly(mon::Rng& rng, VQ& v, i64 R, int maxn = 9) { if (rng.mag > 1) return starPoly(rng, v, R, maxn); for (int att = 0; att < 20; ++att) { int n = rng.size(3, maxn); v.clear(); std::set<std::pair<i64, i64>> s; for (int i = 0; i < n; ++i) { Q q = rq(rng, R); if (s.insert({ q.x, q.y }).second) v.push_back(q); } n = v.size(); if (n < 3) continue; for (int it = 0; it < 60 && !simple(v); ++it) { bool done = true; for (int i = 0; i < n && done; ++i) for (int j = i + 2; j < n && done; ++j) if (!(i == 0 && j == n - 1) && inter(v[i], v[i + 1], v[j], v[(j + 1) % n])) std::reverse(v.begin() + i + 1, v.begin() + j + 1), done = false; if (done) rng.shuffle(v); } if (simple(v)) return true; } return false; }
static Q near(mon::Rng& rng, const VQ& v, i64 R) { int n = v.size(); Q q; switch (rng(0, 3)) { case 0: q = v[rng(0, n - 1)]; break; case 1: { Q a = v[rng(0, n - 1)], b = v[rng(0, n - 1)]; q = { a.x + (b.x - a.x) / 2, a.y + (b.y - a.y) / 2 }; break; } case 2: { Q a = v[rng(0, n - 1)]; q = { a.x, v[rng(0, n - 1)].y }; break; } default: q = rq(rng, R); } if (rng.coin()) q.x += rng(-1, 1), q.y += rng(-1, 1); return q; }
static ld dist(Point a, Point b) { return std::hypot(a.real() - b.real(), a.imag() - b.imag()); }
// squared distance from p to { a + t (b - a) : lo <= t <= hi }
static ld pd(Q p, Q a, Q b, ld lo, ld hi) { ld t = (ld)dt(a, b, p) / d2(a, b); t = std::min(std::max(t, lo), hi); ld x = a.x + t * (b.x - a.x) - p.x, y = a.y + t * (b.y - a.y) - p.y; return (x * x + y * y) * SC * SC; }
static const ld INF = 1e30L;
#define NP(g, w, eps) do { Point g_ = (g), w_ = (w); NEAR(g_.real(), w_.real(), eps); NEAR(g_.imag(), w_.imag(), eps); } while (0)

SCENARIO(predicates, 2500, 10) { scale(rng); i64 R = rad(rng); VQ v = pts(rng, 4, R); if (rng.pct(30)) v[2] = near(rng, VQ{ v[0], v[1] }, R); Q a = v[0], b = v[1], c = v[2], d = v[3]; LOG((double)SC, show(v)); Point A = pt(a), B = pt(b), C = pt(c), D = pt(d); ld S2 = SC * SC;
    NEAR(G::det(B - A, C - A), cr(a, b, c) * S2, 1e-9); NEAR(G::dot(B - A, C - A), dt(a, b, c) * S2, 1e-9); NEAR(G::square_abs(B - A), d2(a, b) * S2, 1e-9); NEAR(G::abs(B - A), std::sqrt((ld)d2(a, b)) * SC, 1e-9); NEAR(G::signed_area(A, B, C), cr(a, b, c) * S2 / 2, 1e-9); NEAR(G::area(A, B, C), std::abs(cr(a, b, c)) * S2 / 2, 1e-9); EQ(G::sgn(a.x * SC), sg(a.x)); EQ(G::compare(a.x * SC, b.x * SC), sg(a.x - b.x)); EQ(G::equals(A, B), a == b); EQ(G::equals(a.x * SC, b.x * SC), a.x == b.x); EQ(G::XY_COMPARATOR(A, B), a < b); EQ(G::XY_COMPARATOR_GREATER(A, B), b < a); EQ(G::YX_COMPARATOR(A, B), (Q{ a.y, a.x } < Q{ b.y, b.x })); EQ(G::YX_COMPARATOR_GREATER(A, B), (Q{ b.y, b.x } < Q{ a.y, a.x }));
    if (!(a == b)) { i64 k = cr(a, b, c); int w = k ? sg(k) : dt(a, b, c) < 0 ? -2 : dt(b, a, c) < 0 ? 2 : 0; EQ(G::isp(A, B, C), w); NP(G::projection(C, Line(A, B)), A + (B - A) * ((ld)dt(a, b, c) / d2(a, b)), 1e-9); { Point r = G::reflection(C, Segment(A, B)); Point h = A + (B - A) * ((ld)dt(a, b, c) / d2(a, b)); NP((r + C) / (ld)2, h, 1e-9); NEAR(G::dot(r - C, B - A) / (1 + dist(A, B) * dist(A, B)), 0, 1e-9); }
        ld s0 = pd(c, a, b, 0, 1), s1 = pd(c, a, b, 0, INF), s2 = pd(c, a, b, -INF, INF); NEAR(G::square_distance(C, Segment(A, B)), s0, 1e-8); NEAR(G::square_distance(Segment(A, B), C), s0, 1e-8); NEAR(G::square_distance(C, Ray(A, B)), s1, 1e-8); NEAR(G::square_distance(Ray(A, B), C), s1, 1e-8); NEAR(G::square_distance(C, Line(A, B)), s2, 1e-8); NEAR(G::square_distance(Line(A, B), C), s2, 1e-8); NEAR(G::distance(C, Segment(A, B)), std::sqrt(s0), 1e-8); NEAR(G::distance(Segment(A, B), C), std::sqrt(s0), 1e-8); NEAR(G::distance(C, Ray(A, B)), std::sqrt(s1), 1e-8); NEAR(G::distance(Ray(A, B), C), std::sqrt(s1), 1e-8); NEAR(G::distance(C, Line(A, B)), std::sqrt(s2), 1e-8); NEAR(G::distance(Line(A, B), C), std::sqrt(s2), 1e-8);
        REQUIRE(G::contains(Line(A, B), C) == (k == 0 ? Containment::ON : Containment::OUT)); REQUIRE(G::contains(Ray(A, B), C) == (k == 0 && dt(a, b, c) >= 0 ? Containment::ON : Containment::OUT)); REQUIRE(G::contains(Segment(A, B), C) == (onseg(a, b, c) ? Containment::ON : Containment::OUT));
        if (!(c == d)) { i64 dd = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x), oo = (b.x - a.x) * (d.x - c.x) + (b.y - a.y) * (d.y - c.y); EQ(G::is_parallel(Line(A, B), Segment(C, D)), dd == 0); EQ(G::is_orthogonal(Ray(A, B), Line(C, D)), oo == 0); bool same = dd == 0 && k == 0; EQ(G::on_the_same_line(Segment(A, B), Segment(C, D)), same); EQ(G::equals(Line(A, B), Line(C, D)), same); EQ(G::equals(Ray(A, B), Ray(C, D)), same && a == c && oo > 0); EQ(G::equals(Ray(A, B), Ray(A, A + A - B)), false); EQ(G::equals(Ray(A, B), Ray(A, B + B - A)), true); EQ(G::equals(Segment(A, B), Segment(C, D)), (a == c && b == d) || (a == d && b == c)); EQ(G::equals(Segment(A, B), Segment(B, A)), true);
            bool ix = inter(a, b, c, d); EQ(G::has_common_point(Segment(A, B), Segment(C, D)), ix); ld sd = ix ? 0 : std::min(std::min(pd(a, c, d, 0, 1), pd(b, c, d, 0, 1)), std::min(pd(c, a, b, 0, 1), pd(d, a, b, 0, 1))); NEAR(G::square_distance(Segment(A, B), Segment(C, D)), sd, 1e-8); NEAR(G::distance(Segment(A, B), Segment(C, D)), std::sqrt(sd), 1e-8); auto cp = G::common_point(Segment(A, B), Segment(C, D)); if (!ix) EQ(cp.index(), 0u); else if (dd != 0) { EQ(cp.index(), 1u); ld t = (ld)((c.x - a.x) * (d.y - c.y) - (c.y - a.y) * (d.x - c.x)) / dd; NP(std::get<1>(cp), A + (B - A) * t, 1e-8); } else { Q lo = std::max(std::min(a, b), std::min(c, d)), hi = std::min(std::max(a, b), std::max(c, d)); if (lo == hi) { EQ(cp.index(), 1u); NP(std::get<1>(cp), pt(lo), 1e-9); } else { EQ(cp.index(), 2u); Segment s = std::get<2>(cp); if (G::XY_COMPARATOR(s.b, s.a)) std::swap(s.a, s.b); NP(s.a, pt(lo), 1e-9); NP(s.b, pt(hi), 1e-9); } } }
        { i64 ex = b.y - a.y, ey = a.x - b.x, e0 = -(ex * a.x + ey * a.y); Line l(ex, ey, e0); for (Point p : { l.a, l.b }) NEAR((ex * p.real() + ey * p.imag() + e0) / (1 + std::abs((ld)ex) + std::abs((ld)ey)), 0, 1e-8); REQUIRE(dist(l.a, l.b) > 1); }
    } }

SCENARIO(triangle, 600, 10) { scale(rng); i64 R = rad(rng); Q a = rq(rng, R), b = rq(rng, R), c = rq(rng, R); if (std::abs((ld)cr(a, b, c)) * 50 < (ld)std::max({ d2(a, b), d2(b, c), d2(c, a) })) return; LOG(show({ a, b, c })); Point A = pt(a), B = pt(b), C = pt(c); ld S = SC * R; auto ld_ = [&](Point p, Point q, Point r) { return std::abs(G::det(q - p, r - p)) / dist(p, q); }; NP(G::pG(A, B, C), Point((A.real() + B.real() + C.real()) / 3, (A.imag() + B.imag() + C.imag()) / 3), 1e-9); Circle in = G::pI(A, B, C); auto side = [&](Point p, Point q, Point r) { ld z = G::det(q - p, r - p); return z > 0 ? 1 : -1; }; auto tang = [&](const Circle& k) { NEAR(ld_(A, B, k.center) / S, k.radius / S, 1e-9); NEAR(ld_(B, C, k.center) / S, k.radius / S, 1e-9); NEAR(ld_(C, A, k.center) / S, k.radius / S, 1e-9); }; tang(in); int o = side(A, B, C); REQUIRE(side(A, B, in.center) == o && side(B, C, in.center) == o && side(C, A, in.center) == o); Circle out = G::pO(A, B, C); for (Point p : { A, B, C }) NEAR(dist(out.center, p) / S, out.radius / S, 1e-8); Point h = G::pH(A, B, C); NEAR(G::dot(h - A, B - C) / (S * S), 0, 1e-7); NEAR(G::dot(h - B, C - A) / (S * S), 0, 1e-7); auto [ea, eb, ec] = G::pIabc(A, B, C); tang(ea), tang(eb), tang(ec); REQUIRE(side(B, C, ea.center) == -o && side(A, B, ea.center) == o && side(C, A, ea.center) == o); REQUIRE(side(C, A, eb.center) == -o && side(A, B, eb.center) == o && side(B, C, eb.center) == o); REQUIRE(side(A, B, ec.center) == -o && side(C, A, ec.center) == o && side(B, C, ec.center) == o); }

SCENARIO(polygon, 700, 10) { scale(rng); i64 R = rad(rng); VQ v; if (!simplePoly(rng, v, R)) return; LOG((double)SC, show(v)); i64 s = area2(v); auto pv = pt(v); NEAR(G::signed_area(pv), s * SC * SC / 2, 1e-9); NEAR(G::area(pv), std::abs(s) * SC * SC / 2, 1e-9); if (s < 0) std::reverse(v.begin(), v.end()), std::reverse(pv.begin(), pv.end()); bool c1 = true, c2 = true; int n = v.size(); for (int i = 0; i < n; ++i) { i64 k = cr(v[i], v[(i + 1) % n], v[(i + 2) % n]); if (k < 0) c1 = c2 = false; if (k == 0) c2 = false; } EQ(G::is_convex(pv), c1); EQ(G::is_convex<false>(pv), c2); for (int t = 0; t < 12; ++t) { Q p = near(rng, v, R); REQUIRE(G::contains(pv, pt(p)) == polyInc(v, p), p.x, p.y); auto rv = pv; std::reverse(rv.begin(), rv.end()); REQUIRE(G::contains(rv, pt(p)) == polyInc(v, p), p.x, p.y); } }

SCENARIO(hull, 900, 10) { scale(rng); i64 R = rad(rng); int n = rng.size(rng.pct(3) ? 0 : 1, rng.pct(10) ? 120 : 14); VQ v = pts(rng, n, R); LOG(n, show(v)); auto h = G::convex_hull(pt(v)); VQ got; std::set<int> ids; for (int i : h) { REQUIRE(0 <= i && i < n); REQUIRE(ids.insert(i).second, i); got.push_back(v[i]); } VQ w = hull(v); std::set<Q> s(v.begin(), v.end()); if (!collinear(v) || s.size() == v.size()) REQUIRE(got == w, show(got), show(w)); else { std::set<Q> t(got.begin(), got.end()); REQUIRE(t == s, show(got)); REQUIRE(got[0] == w[0]); }
    if (w.empty()) return; i64 best = 0; for (auto& p : w) for (auto& q : w) best = std::max(best, d2(p, q)); auto [i, j, dd] = G::convex_diameter(pt(w)); REQUIRE(0 <= i && i < (int)w.size() && 0 <= j && j < (int)w.size()); EQ(d2(w[i], w[j]), best, i, j); NEAR(dd, std::sqrt((ld)best) * SC, 1e-9);
    if (collinear(w)) return; for (int t = 0; t < 4; ++t) { Q a = rng.coin() ? near(rng, w, R) : w[rng(0, (int)w.size() - 1)], b = near(rng, w, R); if (a == b) continue; Line l(pt(a), pt(b)); auto L = G::convex_cut(pt(w), l), Rr = G::convex_cut(pt(w), Line(pt(b), pt(a))); ld tot = area2(w) * SC * SC / 2; NEAR((L.size() > 2 ? G::signed_area(L) : 0) + (Rr.size() > 2 ? G::signed_area(Rr) : 0), tot, 1e-8); for (int z = 0; z < 2; ++z) { auto& C = z ? Rr : L; int keep = 0, crossing = 0; int k = w.size(); for (int q = 0; q < k; ++q) { i64 x = cr(a, b, w[q]) * (z ? -1 : 1), y = cr(a, b, w[(q + 1) % k]) * (z ? -1 : 1); keep += x >= 0; crossing += (x < 0 && y > 0) || (x > 0 && y < 0); } EQ((int)C.size(), keep + crossing); for (auto& p : C) { ld sd = G::det(pt(b) - pt(a), p - pt(a)) / dist(pt(a), pt(b)) * (z ? -1 : 1); REQUIRE(sd > -1e-7L); ld mn = INF; for (int q = 0; q < k; ++q) { Point A = pt(w[q]), B = pt(w[(q + 1) % k]); ld tt = std::clamp<ld>(G::dot(p - A, B - A) / G::dot(B - A, B - A), 0, 1); mn = std::min(mn, dist(p, A + (B - A) * tt)); } REQUIRE(mn < 1e-7L); } } } }

SCENARIO(closest, 500, 10) { scale(rng); i64 R = rad(rng); int n = rng.size(1, rng.pct(10) ? 200 : 24); VQ v = pts(rng, n, R); LOG(n, show(v)); auto [p, q] = G::closest_pair(pt(v)); i64 w = -1; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (w < 0 || d2(v[i], v[j]) < w) w = d2(v[i], v[j]); if (n == 1) w = 0; NEAR(dist(p, q), std::sqrt((ld)w) * SC, 1e-10); auto pv = pt(v); auto c = std::count(pv.begin(), pv.end(), p), d = std::count(pv.begin(), pv.end(), q); REQUIRE(c && d); if (p == q && n > 1) REQUIRE(c >= 2); }

// area of { x in D } by Gauss-type quadrature on pieces between breakpoints (x = m + h sin t kills the end-point square roots)
static ld integrate(std::vector<ld> br, const std::function<ld(ld)>& f) { std::sort(br.begin(), br.end()); ld s = 0; const int N = 64; for (size_t i = 0; i + 1 < br.size(); ++i) { ld l = br[i], r = br[i + 1]; if (r - l < 1e-13L) continue; ld m = (l + r) / 2, h = (r - l) / 2; /* midpoint rule in t in [-pi/2, pi/2] of f cos t: use Simpson */ ld t0 = -G::PI / 2, dtt = G::PI / N; ld acc = 0; for (int k = 0; k <= N; ++k) { ld t = t0 + dtt * k; ld w = k == 0 || k == N ? 1 : k % 2 ? 4 : 2; acc += w * f(m + h * std::sin(t)) * h * std::cos(t); } s += acc * dtt / 3; } return s; }
static ld chord(ld cx, ld r, ld x) { ld z = r * r - (x - cx) * (x - cx); return z > 0 ? std::sqrt(z) : 0; }
SCENARIO(circle_pair, 1200, 10) { scale(rng); i64 R = std::min<i64>(rad(rng), 60); Q a = rq(rng, R), b = rng.pct(10) ? a : rq(rng, R); i64 r1 = rng(1, R), r2 = rng(1, R); if (rng.pct(40)) { static const int t[][3] = { { 3, 4, 5 }, { 5, 12, 13 }, { 8, 15, 17 }, { 0, 1, 1 }, { 1, 0, 1 }, { -4, 3, 5 } }; auto& p = t[rng(0, 5)]; i64 k = rng(1, 4); b = { a.x + p[0] * k, a.y + p[1] * k }; i64 d = p[2] * k; if (rng.coin()) r1 = rng(1, std::max<i64>(1, d - 1)), r2 = std::max<i64>(1, d - r1); else r2 = r1 + d; if (rng.coin()) std::swap(r1, r2); } LOG((double)SC, a, r1, b, r2); if (a == b && r1 == r2) return; Circle c1(pt(a), r1 * SC), c2(pt(b), r2 * SC); i64 D = d2(a, b), s = (r1 + r2) * (r1 + r2), m = (r1 - r2) * (r1 - r2); int w = D > s ? 4 : D == s ? 3 : D > m ? 2 : D == m ? 1 : 0; EQ(G::tangent_num(c1, c2), w); EQ(G::tangent_num(c2, c1), w); auto ps = G::common_point(c1, c2); EQ((int)ps.size(), w == 2 ? 2 : w == 1 || w == 3 ? 1 : 0); for (auto& p : ps) { NEAR(dist(p, c1.center), c1.radius, 1e-7); NEAR(dist(p, c2.center), c2.radius, 1e-7); } if (w == 2) REQUIRE(dist(ps[0], ps[1]) > 1e-6L); auto ts = G::common_tangent(c1, c2); EQ((int)ts.size(), w); for (size_t i = 0; i < ts.size(); ++i) { auto& l = ts[i]; NEAR(dist(l.a, c1.center), c1.radius, 1e-7); NEAR(dist(l.b, c2.center), c2.radius, 1e-7); NEAR(G::dot(l.a - c1.center, l.b - l.a) / (1 + SC * SC * R), 0, 1e-6); NEAR(G::dot(l.b - c2.center, l.b - l.a) / (1 + SC * SC * R), 0, 1e-6); for (size_t j = 0; j < i; ++j) REQUIRE(dist(ts[j].a, l.a) > 1e-7L || dist(ts[j].b, l.b) > 1e-7L); } { Point A = c1.center, B = c2.center; ld x1 = A.real(), x2 = B.real(), l = std::max(x1 - c1.radius, x2 - c2.radius), h = std::min(x1 + c1.radius, x2 + c2.radius); ld want = 0; if (l < h) { std::vector<ld> br{ l, h }; for (auto& p : ps) if (p.real() > l && p.real() < h) br.push_back(p.real()); /* chords' tops / bottoms swap order only at common points */ want = integrate(br, [&](ld x) { ld u = chord(x1, c1.radius, x), v = chord(x2, c2.radius, x); ld top = std::min(A.imag() + u, B.imag() + v), bot = std::max(A.imag() - u, B.imag() - v); return std::max<ld>(0, top - bot); }); } NEAR(G::intersection_area(c1, c2) / (1 + SC * SC), want / (1 + SC * SC), 1e-5); NEAR(G::intersection_area(c2, c1) / (1 + SC * SC), want / (1 + SC * SC), 1e-5); } }
SCENARIO(circle_point_line, 1500, 10) { scale(rng); i64 R = std::min<i64>(rad(rng), 100); Q o = rq(rng, R), a = rq(rng, R), b = rq(rng, R); i64 r = rng(1, R); if (rng.pct(30)) { /* tangent line or point on the circle */ static const int t[][3] = { { 3, 4, 5 }, { 0, 1, 1 }, { -1, 0, 1 }, { 4, -3, 5 } }; auto& p = t[rng(0, 3)]; i64 k = rng(1, 6), m1 = rng(-5, 5), m2 = rng(-5, 5); r = p[2] * k; Q q{ o.x + p[0] * k, o.y + p[1] * k }; a = { q.x - p[1] * m1, q.y + p[0] * m1 }; b = { q.x - p[1] * m2, q.y + p[0] * m2 }; } LOG((double)SC, o, r, a, b); Circle c(pt(o), r * SC); i64 f = d2(o, a) - r * r; REQUIRE(G::contains(c, pt(a)) == (f > 0 ? Containment::OUT : f < 0 ? Containment::IN : Containment::ON)); auto ts = G::tangent_to_circle(c, pt(a)); EQ((int)ts.size(), f > 0 ? 2 : f == 0 ? 1 : 0); for (auto& p : ts) { NEAR(dist(p, c.center), c.radius, 1e-7); NEAR(G::dot(p - c.center, p - pt(a)) / (1 + SC * SC * R), 0, 1e-7); } if (ts.size() == 2) REQUIRE(dist(ts[0], ts[1]) > 1e-6L); if (a == b) return; i64 k = cr(a, b, o), len = d2(a, b); /* dist^2 = k^2 / len */ i64 z = sg(k * k - r * r * len); auto ps = G::common_point(c, Line(pt(a), pt(b))); EQ((int)ps.size(), z > 0 ? 0 : z == 0 ? 1 : 2); for (auto& p : ps) { NEAR(dist(p, c.center), c.radius, 1e-7); NEAR(G::det(pt(b) - pt(a), p - pt(a)) / dist(pt(a), pt(b)), 0, 1e-7); } if (ps.size() == 2) REQUIRE(dist(ps[0], ps[1]) > 1e-6L); /* segment: count roots of |a + t (b - a) - o| = r in [0, 1] */ auto ss = G::common_point(c, Segment(pt(a), pt(b))); ld h = (ld)dt(a, b, o) / len, w = z > 0 ? -1 : std::sqrt(std::max<ld>(0, (ld)(r * r) - (ld)k * k / len)) / std::sqrt((ld)len); int cnt = 0; bool unsure = false; if (z <= 0) { std::vector<ld> tt{ h - w }; if (z < 0) tt.push_back(h + w); for (ld t : tt) { if (t > -1e-12L && t < 1 + 1e-12L) ++cnt; if (std::abs(t) < 1e-7L && d2(o, a) != r * r) unsure = true; if (std::abs(t - 1) < 1e-7L && d2(o, b) != r * r) unsure = true; } } if (!unsure) EQ((int)ss.size(), cnt); for (auto& p : ss) { NEAR(dist(p, c.center), c.radius, 1e-7); } }
SCENARIO(polygon_circle, 300, 6) { scale(rng); i64 R = std::min<i64>(rad(rng), 30); VQ v; if (!simplePoly(rng, v, R, 7)) return; if (area2(v) < 0) std::reverse(v.begin(), v.end()); Q o = rng.pct(25) ? near(rng, v, R) : rq(rng, R); i64 r = rng(1, R + 3); LOG((double)SC, show(v), o, r); int n = v.size(); std::vector<ld> br{ (ld)(o.x - r), (ld)(o.x + r) }; for (auto& q : v) if (q.x > o.x - r && q.x < o.x + r) br.push_back(q.x); for (int i = 0; i < n; ++i) { Q a = v[i], b = v[(i + 1) % n]; ld A = d2(a, b), B = 2 * (ld)((a.x - o.x) * (b.x - a.x) + (a.y - o.y) * (b.y - a.y)), C = d2(a, o) - r * r, dd = B * B - 4 * A * C; if (dd < 0) continue; for (int sgn : { -1, 1 }) { ld t = (-B + sgn * std::sqrt(dd)) / (2 * A); if (t >= 0 && t <= 1) { ld x = a.x + t * (b.x - a.x); if (x > o.x - r && x < o.x + r) br.push_back(x); } } } ld want = integrate(br, [&](ld x) { std::vector<ld> ys; for (int i = 0; i < n; ++i) { Q a = v[i], b = v[(i + 1) % n]; if (((ld)a.x <= x) != ((ld)b.x <= x)) ys.push_back(a.y + (b.y - a.y) * (x - a.x) / (b.x - a.x)); } std::sort(ys.begin(), ys.end()); ld u = chord(o.x, r, x), lo = o.y - u, hi = o.y + u, s = 0; for (size_t i = 0; i + 1 < ys.size(); i += 2) s += std::max<ld>(0, std::min(hi, ys[i + 1]) - std::max(lo, ys[i])); return s; }); NEAR(G::intersection_area(pt(v), Circle(pt(o), r * SC)) / (SC * SC), want, 1e-5); }
SCENARIO(basics, 400) { ld th = rng(-1000, 1000) / 100.0L, rho = rng(0, 1000) / 16.0L; i64 R = 50; Q a = rq(rng, R), b = rq(rng, R); Point A = pt(a = a), B = pt(b); SC = 1; A = pt(a), B = pt(b); ld k = rng(1, 20) * (rng.coin() ? 1 : -1); NP(G::polar(rho, th), Point(rho * std::cos(th), rho * std::sin(th)), 1e-12); NP(G::cis(th), Point(std::cos(th), std::sin(th)), 1e-12); NP(G::rot(A, th), Point(a.x * std::cos(th) - a.y * std::sin(th), a.x * std::sin(th) + a.y * std::cos(th)), 1e-9); NP(G::conj(A), Point(a.x, -a.y), 1e-12); if (a.x || a.y) NEAR(G::arg(A), std::atan2((ld)a.y, (ld)a.x), 1e-12); NP(G::cartesian(a.x, a.y), A, 0); { using namespace suisen::geometry; NP(A + k, Point(a.x + k, a.y), 1e-12); NP(A - k, Point(a.x - k, a.y), 1e-12); NP(A * k, Point(a.x * k, a.y * k), 1e-12); NP(A / k, Point(a.x / k, a.y / k), 1e-12); NP(k + A, Point(k + a.x, a.y), 1e-12); NP(k - A, Point(k - a.x, -a.y), 1e-12); NP(k * A, Point(k * a.x, k * a.y), 1e-12); if (a.x || a.y) { Point q = k / A; NP(q * A, Point(k, 0), 1e-9); } std::ostringstream o; suisen::geometry::operator<<(o, A); EQ(o.str(), std::to_string(a.x) + " " + std::to_string(a.y)); std::istringstream in(o.str()); Point z; suisen::geometry::operator>>(in, z); NP(z, A, 0); } EQ(G::getx(A), (ld)a.x); EQ(G::gety(A), (ld)a.y); { auto [p, q] = Segment(A, B); NP(p, A, 0); NP(q, B, 0); Line l(A, B); auto& [u, v] = l; u = B; NP(l.a, B, 0); v = A; NP(l.b, A, 0); const Ray r(A, B); auto& [x, y] = r; NP(x, A, 0); NP(y, B, 0); Segment e; NP(e.a, G::ZERO, 0); Line e2; NP(e2.b, G::ZERO, 0); Ray e3; NP(e3.a, G::ZERO, 0); Circle e4; EQ(e4.radius, (ld)0); Ray r2(A, B); r2.get<0>() = B; NP(r2.a, B, 0); const Segment cs(A, B); NP(cs.get<1>(), B, 0); const Line cl(A, B); NP(cl.get<0>(), A, 0); Segment ms(A, B); ms.get<1>() = A; NP(ms.b, A, 0); } NP(G::I * G::I, -G::ONE, 1e-15); EQ(G::sgn(1e-10L), 0); EQ(G::sgn(-1e-10L), 0); EQ(G::sgn(2e-9L), 1); EQ(G::sgn(-2e-9L), -1); }
SCENARIO(manhattan_intersections, 500, 10) { int R = rng.coin() ? 6 : 1000000000; int n = rng.size(0, 14), m = rng.size(0, 14); std::vector<std::pair<int, std::pair<int, int>>> ve; std::vector<std::pair<std::pair<int, int>, int>> ho; auto c = [&] { return (int)rng(-R, R); }; for (int i = 0; i < n; ++i) { int x = c(), p = c(), q = c(); ve.push_back({ x, { p, q } }); } for (int i = 0; i < m; ++i) { int p = c(), q = c(), y = c(); ho.push_back({ { p, q }, y }); } if (rng.pct(30)) for (auto& h : ho) if (n) { h.first.first = ve[rng(0, n - 1)].first; h.second = ve[rng(0, n - 1)].second.first; } i64 w = 0; for (auto& [x, ry] : ve) for (auto& [rx, y] : ho) w += std::min(rx.first, rx.second) <= x && x <= std::max(rx.first, rx.second) && std::min(ry.first, ry.second) <= y && y <= std::max(ry.first, ry.second); LOG(ve, ho); EQ(G::segment_intersections(ve, ho), w); }
// the same workloads at realistic sizes
RESCALE(hull, 4, 512);
RESCALE(closest, 4, 128);
RESCALE(polygon, 12, 64);
RESCALE(polygon_circle, 8, 16);
RESCALE(manhattan_intersections, 4, 512);
