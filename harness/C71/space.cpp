#include "mon.hpp"
#include "library/geom/geometry3d.hpp"
#include <sstream>
#include <cmath>
namespace T = suisen::geometry3d;
using T::Point; using T::Line; using T::Ray; using T::Segment; using T::Plane;
using ld = long double;
struct V3 { i64 x, y, z; V3 operator-(V3 o) const { return { x - o.x, y - o.y, z - o.z }; } V3 operator+(V3 o) const { return { x + o.x, y + o.y, z + o.z }; } V3 operator*(i64 k) const { return { x * k, y * k, z * k }; } bool operator==(V3 o) const { return x == o.x && y == o.y && z == o.z; } };
inline std::ostream& operator<<(std::ostream& o, const V3& v) { return o << '(' << v.x << ',' << v.y << ',' << v.z << ')'; }
static i64 dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 crs(V3 a, V3 b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
static Point pt(V3 v) { return Point{ (ld)v.x, (ld)v.y, (ld)v.z }; }
static V3 rv(mon::Rng& rng, i64 R) { return { (i64)rng(-R, R), (i64)rng(-R, R), (i64)rng(-R, R) }; }
static V3 rd(mon::Rng& rng, i64 R) { V3 v; do v = rv(rng, R); while (v == V3{ 0, 0, 0 }); return v; }
static bool zero(V3 v) { return v == V3{ 0, 0, 0 }; }
static const ld INF = 1e30L;
static ld sq(ld x) { return x * x; }
static ld dpt(V3 p, V3 a, V3 u, ld lo, ld hi) { ld t = (ld)dot(p - a, u) / dot(u, u); t = std::min(std::max(t, lo), hi); return std::sqrt(sq(a.x + t * u.x - p.x) + sq(a.y + t * u.y - p.y) + sq(a.z + t * u.z - p.z)); }
// min |a + x u - b - y v| over x in [lx,hx], y in [ly,hy]; kind: 0 line, 1 ray, 2 segment
static ld lo(int k) { return k == 0 ? -INF : 0; } static ld hi(int k) { return k == 2 ? 1 : INF; }
static ld dll(V3 a, V3 u, int ku, V3 b, V3 v, int kv) { i64 uu = dot(u, u), vv = dot(v, v), uv = dot(u, v), den = uu * vv - uv * uv; V3 d = b - a; ld best = INF; if (den != 0) { ld x = (ld)(dot(d, u) * vv - dot(d, v) * uv) / den, y = (ld)(dot(d, u) * uv - dot(d, v) * uu) / den; if (x >= lo(ku) - 1e-12L && x <= hi(ku) + 1e-12L && y >= lo(kv) - 1e-12L && y <= hi(kv) + 1e-12L) best = std::sqrt(sq(a.x + x * u.x - b.x - y * v.x) + sq(a.y + x * u.y - b.y - y * v.y) + sq(a.z + x * u.z - b.z - y * v.z)); } else if (ku == 0) return dpt(b, a, u, -INF, INF); else if (kv == 0) return dpt(a, b, v, -INF, INF);
    if (ku >= 1) best = std::min(best, dpt(a, b, v, lo(kv), hi(kv))); if (ku == 2) best = std::min(best, dpt(a + u, b, v, lo(kv), hi(kv))); if (kv >= 1) best = std::min(best, dpt(b, a, u, lo(ku), hi(ku))); if (kv == 2) best = std::min(best, dpt(b + v, a, u, lo(ku), hi(ku))); return best; }
#define NP(g, w, eps) do { Point g_ = (g), w_ = (w); for (int i_ = 0; i_ < 3; ++i_) NEAR(g_[i_], w_[i_], eps); } while (0)
SCENARIO(vectors, 400) { using namespace suisen::geometry3d; i64 R = rng.coin() ? 5 : 1000; V3 a = rv(rng, R), b = rv(rng, R); ld k = rng(1, 9) * (rng.coin() ? 1 : -1); Point A = pt(a), B = pt(b); NP(A + B, pt(a + b), 0); NP(A - B, pt(a - b), 0); NP(A * B, pt(crs(a, b)), 0); NP(A * k, pt(a * (i64)k), 0); NP(k * A, pt(a * (i64)k), 0); NP((A / k) * k, A, 1e-12); NP(+A, A, 0); NP(-A, pt(a * -1), 0); { Point C = A; C += B; NP(C, pt(a + b), 0); C -= B; NP(C, A, 0); C *= B; NP(C, pt(crs(a, b)), 0); C = A; C *= k; NP(C, pt(a * (i64)k), 0); C /= k; NP(C, A, 1e-12); C *= C; NP(C, (Point{ 0, 0, 0 }), 0); } NEAR(inner_product(A, B), dot(a, b), 0); NEAR(square_abs(A), dot(a, a), 0); NEAR(T::abs(A), std::sqrt((ld)dot(a, a)), 1e-12); NEAR(T::dist(A, B), std::sqrt((ld)dot(a - b, a - b)), 1e-12); EQ(T::equals(A, B), a == b); EQ(T::is_parallel(A, B), zero(crs(a, b))); EQ(T::is_orthogonal(A, B), dot(a, b) == 0); if (!zero(a)) { NEAR(T::abs(normalized(A)), 1, 1e-12); NP(normalized(A) * T::abs(A), A, 1e-9); Point C = A; normalize(C); NEAR(T::abs(C), 1, 1e-12); } EQ(T::signum(1e-10L), 0); EQ(T::signum(-2e-9L), -1); EQ(T::compare(A[0], B[0]), (a.x > b.x) - (a.x < b.x)); std::ostringstream o; T::operator<<(o, A); EQ(o.str(), std::to_string(a.x) + " " + std::to_string(a.y) + " " + std::to_string(a.z)); std::istringstream in(o.str()); Point z; T::operator>>(in, z); NP(z, A, 0); NEAR(T::math::sqrt<double>(2.25), 1.5, 0); NEAR(T::math::sqrt<float>(2.25f), 1.5, 0); NEAR(T::math::sqrt<int>(49), 7, 0); }
static V3 onl(mon::Rng& rng, V3 a, V3 u) { return a + u * rng(-3, 4); }
SCENARIO(point_line, 1000, 10) { i64 R = rng.coin() ? 4 : 30; V3 a = rv(rng, R), u = rd(rng, std::min<i64>(R, 8)), p = rng.pct(30) ? onl(rng, a, u) : rv(rng, R); LOG(a, u, p); Point A = pt(a), B = pt(a + u), P = pt(p); Point h = T::projection(Line(A, B), P); ld t = (ld)dot(p - a, u) / dot(u, u); NP(h, (Point{ a.x + t * u.x, a.y + t * u.y, a.z + t * u.z }), 1e-9); NEAR(T::dist(Line(A, B), P), dpt(p, a, u, -INF, INF), 1e-8); NEAR(T::dist(Ray(A, B), P), dpt(p, a, u, 0, INF), 1e-8); NEAR(T::dist(Segment(A, B), P), dpt(p, a, u, 0, 1), 1e-8); bool col = zero(crs(p - a, u)); i64 z = dot(p - a, u); EQ(T::on(Line(A, B), P), col); EQ(T::on(Ray(A, B), P), col && z >= 0); EQ(T::on(Segment(A, B), P), col && z >= 0 && z <= dot(u, u)); }
SCENARIO(line_line, 2000, 10) { i64 R = rng.coin() ? 3 : 12; V3 a = rv(rng, R), u = rd(rng, R), b = rv(rng, R), v = rng.pct(25) ? u * (rng.coin() ? 1 : -1) * rng(1, 2) : rd(rng, R); if (rng.pct(30)) b = onl(rng, a, u); if (rng.pct(20)) b = b - v * rng(0, 2); if (zero(crs(u, v)) && rng.pct(40)) b = onl(rng, a, u); LOG(a, u, b, v); const Line l(pt(a), pt(a + u)), m(pt(b), pt(b + v)); const Ray lr(pt(a), pt(a + u)), mr(pt(b), pt(b + v)); const Segment ls(pt(a), pt(a + u)), ms(pt(b), pt(b + v)); Line mm = m; NEAR(T::dist(l, m), dll(a, u, 0, b, v, 0), 1e-7); NEAR(T::dist(l, mr), dll(a, u, 0, b, v, 1), 1e-7); NEAR(T::dist(lr, m), dll(a, u, 1, b, v, 0), 1e-7); NEAR(T::dist(l, ms), dll(a, u, 0, b, v, 2), 1e-7); NEAR(T::dist(ls, mm), dll(a, u, 2, b, v, 0), 1e-7); NEAR(T::dist(ls, m), dll(a, u, 2, b, v, 0), 1e-7); NEAR(T::dist(lr, mr), dll(a, u, 1, b, v, 1), 1e-7); NEAR(T::dist(lr, ms), dll(a, u, 1, b, v, 2), 1e-7); NEAR(T::dist(ls, mr), dll(a, u, 2, b, v, 1), 1e-7); NEAR(T::dist(ls, ms), dll(a, u, 2, b, v, 2), 1e-7); bool par = zero(crs(u, v)); EQ(T::is_parallel(l, m), par); EQ(T::is_orthogonal(l, m), dot(u, v) == 0); if (!par) { i64 uu = dot(u, u), vv = dot(v, v), uv = dot(u, v), den = uu * vv - uv * uv; V3 d = b - a; i64 xn = dot(d, u) * vv - dot(d, v) * uv, yn = dot(d, u) * uv - dot(d, v) * uu; bool meet = dot(crs(u, v), d) == 0; auto chk = [&](auto o, int k) { bool ok = meet && (k == 0 || (xn >= 0 && yn >= 0)) && (k < 2 || (xn <= den && yn <= den)); EQ((bool)o, ok, k); if (ok) { ld x = (ld)xn / den; NP(*o, (Point{ a.x + x * u.x, a.y + x * u.y, a.z + x * u.z }), 1e-7); } }; chk(T::cross_point(l, m), 0); chk(T::cross_point(lr, mr), 1); chk(T::cross_point(ls, ms), 2); } }
SCENARIO(planes, 1500, 10) { i64 R = rng.coin() ? 3 : 10; V3 o = rv(rng, R), s = rd(rng, R), t = rd(rng, R); V3 n = crs(s, t); if (zero(n)) return; auto inpl = [&] { return o + s * rng(-2, 2) + t * rng(-2, 2); }; V3 a = rng.pct(25) ? inpl() : rv(rng, R), u = rd(rng, R); if (rng.pct(25)) { u = s * rng(-2, 2) + t * rng(-2, 2); if (zero(u)) u = s; } if (rng.pct(15)) u = n; if (rng.pct(15)) { u = inpl() - a; if (zero(u)) u = n; } LOG(o, s, t, a, u); Plane pl(pt(o), pt(o + s), pt(o + t)); if (rng.coin()) { ld A = n.x, B = n.y, C = n.z, D = -dot(n, o); ld f = rng(1, 3) * (rng.coin() ? 1 : -1); A *= f, B *= f, C *= f, D *= f; pl = Plane(A, B, C, D); } ld nl = std::sqrt((ld)dot(n, n)); V3 b = a + u; i64 da = dot(n, a - o), db = dot(n, b - o); NEAR(T::dist(pl, pt(a)), std::abs((ld)da) / nl, 1e-8); EQ(T::on(pl, pt(a)), da == 0); NP(T::projection(pl, pt(a)), (Point{ a.x - (ld)da * n.x / dot(n, n), a.y - (ld)da * n.y / dot(n, n), a.z - (ld)da * n.z / dot(n, n) }), 1e-8); Line l(pt(a), pt(b)); Ray r(pt(a), pt(b)); Segment g(pt(a), pt(b)); i64 nu = dot(n, u); EQ(T::is_parallel(pl, l), nu == 0); EQ(T::is_orthogonal(pl, l), zero(crs(n, u))); ld d0 = std::abs((ld)da) / nl, d1 = std::abs((ld)db) / nl; NEAR(T::dist(pl, l), nu == 0 ? d0 : 0, 1e-8); bool hitR = (da > 0 && nu < 0) || (da < 0 && nu > 0) || da == 0, hitS = (da >= 0 && db <= 0) || (da <= 0 && db >= 0); NEAR(T::dist(pl, r), hitR ? 0 : d0, 1e-8); NEAR(T::dist(pl, g), hitS ? 0 : std::min(d0, d1), 1e-8); auto chk = [&](auto c, bool w) { EQ((bool)c, w); if (w && nu != 0) { ld x = -(ld)da / nu; NP(*c, (Point{ a.x + x * u.x, a.y + x * u.y, a.z + x * u.z }), 1e-7); } else if (w) REQUIRE(T::on(pl, *c)); }; chk(T::cross_point(pl, l), da == 0 || nu != 0); chk(T::cross_point(pl, r), hitR); chk(T::cross_point(pl, g), hitS); /* triangle o, o+s, o+t: p = o + (i s + j t)/k */ i64 k = rng(1, 4), i = rng(-1, k + 1), j = rng(-1, k + 1); bool off = rng.pct(20); Point p; for (int c = 0; c < 3; ++c) { ld oo[] = { (ld)o.x, (ld)o.y, (ld)o.z }, ss[] = { (ld)s.x, (ld)s.y, (ld)s.z }, tt[] = { (ld)t.x, (ld)t.y, (ld)t.z }, nn[] = { (ld)n.x, (ld)n.y, (ld)n.z }; p[c] = oo[c] + (i * ss[c] + j * tt[c]) / k + (off ? nn[c] / 10 : 0); } EQ(T::on_triangle({ pt(o), pt(o + s), pt(o + t) }, p), !off && i >= 0 && j >= 0 && i + j <= k, i, j, k); }
SCENARIO(plane_literals, 5) { (void)rng; Plane p(0, 0, 2, -4); NEAR(T::dist(p, Point{ 1, 1, 5 }), 3, 1e-12); }
