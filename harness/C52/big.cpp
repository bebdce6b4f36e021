// Operands near the range limits, long continued fractions, unbounded restriction counts.
#include "mon.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <numeric>
#include <optional>
#include <tuple>
#include "library/number/rational.hpp"
#include "library/number/stern_brocot_tree.hpp"
#include "library/number/bezout_equation.hpp"
using namespace suisen; using R = Rational<i64>; using N = sbt_node<i64>; using mon::Rng;
static int sg(i128 x) { return x < 0 ? -1 : x > 0; }
SCENARIO(rational_close, 400) { /* fractions closer to each other than any floating-point type resolves */
    i64 X = rng.in(2, 4000000000000000000LL), k = rng.in(1, 3), t = rng.in(0, 3); i64 a = X + k, b = X, c = t == 0 ? X : t == 1 ? X + k : X + k + 1, d = t == 0 ? X - 1 : t == 1 ? X : X + 1; if (rng.coin()) std::swap(a, b), std::swap(c, d); if (rng.pct(30)) { c = rng.in(1, 4000000000000000000LL), d = rng.in(1, 4000000000000000000LL); } bool ng = rng.coin(); if (ng) a = -a, c = -c; if (rng.pct(10)) c = -c; LOG(a, b, c, d);
    R l(a, b), r(c, d); i64 g = std::gcd(a, b); EQ(l.num, a / g); EQ(l.den, b / g); int e = sg((i128)a * d - (i128)c * b); EQ(R::compare(l, r), e); EQ(R::compare(r, l), -e); EQ(l < r, e < 0); EQ(l > r, e > 0); EQ(l <= r, e <= 0); EQ(l >= r, e >= 0); EQ(l == r, e == 0); EQ(l != r, e != 0); REQUIRE(max(l, r).num == (e >= 0 ? l : r).num && min(l, r).num == (e <= 0 ? l : r).num); REQUIRE(R(-a, -b).num == l.num && R(-a, -b).den == l.den); }
SCENARIO(rational_floor_big, 300) { i64 d = rng.wides(1, 1000000000), q = rng.in(-4000000000000000000LL / d, 4000000000000000000LL / d); i64 n = q * d + rng.pick(std::vector<i64>{ -1, 0, 1, d / 2, d - 1 }); LOG(n, d); R x(n, d); i64 f = n / d - (n % d != 0 && n < 0), c = n / d + (n % d != 0 && n > 0); EQ(x.floor(), f); EQ(x.ceil(), c); EQ((long long)x, (long long)(n / d)); NEAR((double)x / (n ? (double)n / (double)d : 1.), n ? 1. : 0., 1e-12); EQ(x.signum(), sg(n)); R y = -x; EQ(y.floor(), -c); EQ(y.ceil(), -f); REQUIRE(x.abs().num == std::abs(x.num) && x.abs().den == x.den); }
SCENARIO(rational_cancel, 300) { /* results are in range although naive cross products are not */
    auto chk = [&](const R& x, i128 n, i128 d, const char* w) { if (d < 0) n = -n, d = -d; i128 p = n < 0 ? -n : n, q = d; while (q) std::swap(p %= q, q); REQUIRE((i128)x.num == n / p && (i128)x.den == d / p, w, x.num, x.den); };
    i64 g = rng.in(1000000000, 4000000000LL), p = rng.in(1, 40), q = rng.in(1, 40), a = rng.in(-1000000, 1000000), b = rng.in(-1000000, 1000000); LOG(g, p, q, a, b); R l(a, g * p), r(b, g * q); chk(l + r, (i128)a * q + (i128)b * p, (i128)g * p * q, "+"); chk(l - r, (i128)a * q - (i128)b * p, (i128)g * p * q, "-"); { R t = l; t += r; t -= r; REQUIRE(t == l); }
    i64 A = rng.in(1000000000, 4000000000LL), B = rng.in(1000000000, 4000000000LL), u = rng.in(-900, 900), v = rng.in(1, 900), w = rng.in(1, 900), z = rng.in(1, 900); if (rng.coin()) w = -w; LOG(A, B, u, v, w, z); R x(A * u, B * v), y(B * w, A * z); chk(x * y, (i128)u * w, (i128)v * z, "*"); if (u) { chk(x / y.inv(), (i128)u * w, (i128)v * z, "/"); R t = x; t *= y; t /= y; REQUIRE(t.num == x.num && t.den == x.den); } }
SCENARIO(rational_approximate_tight, 60) { int n = (int)rng.in(1, 60), d = (int)rng.in(1, 60), s = (int)rng.in(0, 4); int M = (int)rng.in(60, 400); long double x = (long double)n / d; bool dy = s == 4; if (dy) { d = 1 << rng.in(0, 5); x = (long double)n / d; } else for (int k = 0; k < 2; ++k) x = std::nextafter(x, s & 1 ? 1e9L : 0.0L); bool ng = rng.coin(); LOG(n, d, s, M, ng);
    int e; long double m = std::frexp(x, &e); u64 mi = (u64)std::ldexp(m, 64); int sh = 64 - e; /* x = mi / 2^sh */ auto below = [&](i64 p, i64 q) { return ((unsigned __int128)p << sh) < (unsigned __int128)mi * (u64)q; };
    i64 nl = 0, dl = 1, nr = 1, dr = 0; while (nl + nr <= M && dl + dr <= M) if (below(nl + nr, dl + dr)) nl += nr, dl += dr; else nr += nl, dr += dl; auto [lo, hi] = R::approximate(ng ? -x : x, M, M); if (ng) std::swap(lo, hi); i64 sn = ng ? -1 : 1; EQ(lo.num, sn * nl); EQ(lo.den, dl); EQ(hi.num, sn * nr); EQ(hi.den, dr); }
// continued fractions with many small partial quotients: the run-length path is long
static std::vector<std::pair<bool, i64>> rpath(Rng& rng) { std::vector<std::pair<bool, i64>> p; bool d = rng.coin(); int lim = (int)rng.in(40, 90), mx = (int)rng.in(1, 3); i128 a = 1, b = 0, c = 0, e = 1; for (int i = 0; i < lim; ++i) { i64 k = rng.in(1, mx); i128 na = d ? a + k * b : a, nb = b, nc = d ? c + k * e : c, ne = e; if (!d) nb = b + k * a, ne = e + k * c; if (na + nb > 1000000000000000000LL || nc + ne > 1000000000000000000LL) break; a = na, b = nb, c = nc, e = ne; p.push_back({ d, k }); d = !d; } return p; }
SCENARIO(stern_brocot_long, 150) { auto p = rpath(rng); N x(p); i64 dep = 0; for (auto& q : p) dep += q.second; LOG((int)p.size(), dep); REQUIRE(x.path() == p); EQ(x.depth(), dep); auto [n, m] = x.get(); EQ(std::gcd(n, m), (i64)1); N y(n, m); REQUIRE(y == x && y.path() == p); N z; for (auto& q : p) for (i64 k = 0; k < q.second; ++k) z.move_down(q.first, 1); REQUIRE(z == x && z.path() == p && z.depth() == dep);
    /* a second node that leaves the path at a given depth */ i64 at = rng.coin() ? rng.in(0, dep) : std::max<i64>(0, dep - rng.in(0, 6)); N w = x; REQUIRE(w.move_up(dep - at)); EQ(w.depth(), at); N v = w; std::vector<bool> st; for (auto& q : p) for (i64 k = 0; k < q.second; ++k) st.push_back(q.first); i64 more = at < dep ? rng.in(1, 3) : rng.in(0, 2); auto rg = v.get(); if (rg.first < 200000000000000000LL && rg.second < 200000000000000000LL) { if (at < dep) v.move_down(!st[at], more); else v.move_down(rng.coin(), more); N c = N::lca(x, v); REQUIRE(c == w && c.path() == w.path(), "lca", at); EQ(c.depth(), at); EQ(N::dist(x, v), dep - at + more); REQUIRE(w.is_ancestor_of(v) && w.is_ancestor_of(x)); if (at < dep) { REQUIRE(!v.is_ancestor_of(x) || !more); EQ(x < v, !st[at] ? true : false); } N t = x; i64 go = rng.in(0, dep - at + more); REQUIRE(t.move_to(v, go)); EQ(N::dist(x, t), go); EQ(N::dist(t, v), dep - at + more - go); N t2 = x; REQUIRE(!t2.move_to(v, dep - at + more + 1)); REQUIRE(t2 == x); } }
SCENARIO(bezout_free, 150) { BezoutEquation eq(0, 0); REQUIRE(!eq.solve(rng.coin() ? 1 : -5).has_solution()); auto s = eq.solve(0); REQUIRE(s.has_solution() && !s.count().has_value()); i64 L = rng.coin() ? 20 : 1000000000000000LL, x1 = rng.in(-L, L), x2 = rng.in(x1, L), y1 = rng.in(-L, L), y2 = rng.in(y1, L); LOG(x1, x2, y1, y2); auto t = s; REQUIRE(t.set_x_range(x1, x2)); REQUIRE(!t.count().has_value(), "y is unbounded"); REQUIRE(t.set_min_y(y1)); REQUIRE(!t.count().has_value()); REQUIRE(t.set_max_y(y2)); auto c = t.template count<i128>(); REQUIRE(c.has_value() && *c == (i128)(x2 - x1 + 1) * (y2 - y1 + 1)); EQ(t.xmin_solution().first, (long long)x1); EQ(t.xmax_solution().first, (long long)x2); EQ(t.ymin_solution().second, (long long)y1); EQ(t.ymax_solution().second, (long long)y2); auto u = s; REQUIRE(u.set_y_range(y1, y2)); REQUIRE(!u.count().has_value(), "x is unbounded"); REQUIRE(!t.set_min_x(x2 + 1)); REQUIRE(!t.has_solution() && t.count() == 0); }
