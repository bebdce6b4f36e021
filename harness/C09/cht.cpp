#include "mon.hpp"
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/slope_trick.hpp"
using namespace suisen; using mon::Rng;
template <class T, bool MIN> void run_cht(Rng& rng) {
    ConvexHullTrick<T, MIN> c; std::vector<std::pair<T, T>> ls; int style = rng(0, 3); i64 A = style == 0 ? 3 : style == 1 ? 20 : 1000000000, B = style == 0 ? 5 : style == 1 ? 100 : std::is_same_v<T, int> ? 1000000000 : 1000000000000000000LL; i64 X = style == 0 ? 6 : style == 1 ? 60 : std::is_same_v<T, int> ? 1000000000 : 2000000000;
    EQ(c.has_line(), false);
    for (int q = rng.size(1, 60); q--;) {
        if (ls.empty() || rng.coin()) { T a = (T)rng(-A, A), b = (T)rng(-B, B); if (style == 2 && !std::is_same_v<T, int> && rng.coin()) { a = (T)rng(-40, 40); b = (T)(a * a * rng(0, 2)); if (!MIN) b = -b; } if (!ls.empty() && rng.pct(15)) { a = rng.pick(ls).first; } if (!ls.empty() && rng.pct(35)) { auto [pa, pb] = rng.pick(ls); i128 v = (i128)pb + ((i128)pa - a) * rng(-X, X) + rng(-1, 1); if (v >= -B && v <= B) b = (T)v; } LOG("add", a, b); c.add_line(a, b); ls.emplace_back(a, b); }
        else { T x = (T)(style == 2 && rng.coin() ? rng(-90, 90) : rng(-X, X)); if (ls.size() > 1 && rng.coin()) { auto [pa, pb] = ls.back(); auto [qa, qb] = rng.pick(ls); if (pa != qa) { i128 z = ((i128)qb - pb) / ((i128)pa - qa) + rng(-1, 1); if (z >= -X && z <= X) x = (T)z; } } i128 w = 0; bool f = true; for (auto [a, b] : ls) { i128 v = (i128)a * x + b; if (f || (MIN ? v < w : v > w)) w = v, f = false; } LOG("query", x); EQ((i128)c.query(x), w); EQ(c.has_line(), true); }
    }
    for (i64 x = -std::min<i64>(X, 30); x <= std::min<i64>(X, 30) && !ls.empty(); ++x) { i128 w = 0; bool f = true; for (auto [a, b] : ls) { i128 v = (i128)a * x + b; if (f || (MIN ? v < w : v > w)) w = v, f = false; } EQ((i128)c.query((T)x), w); }
}
SCENARIO(cht, 1500) { switch (rng(0, 3)) { case 0: run_cht<i64, true>(rng); break; case 1: run_cht<i64, false>(rng); break; case 2: run_cht<int, true>(rng); break; default: run_cht<int, false>(rng); } }
template <class T, bool MIN, class Tag> void run_mono(Rng& rng, int dir) {
    MonotonicCHT<T, MIN, Tag> c; std::vector<std::pair<T, T>> ls; int style = rng(0, 2); i64 A = style == 0 ? 3 : style == 1 ? 30 : std::is_floating_point_v<T> ? 1000 : 1000000000; i64 B = style == 0 ? 5 : style == 1 ? 200 : std::is_floating_point_v<T> ? 1000000 : 1000000000000000000LL; i64 X = style == 0 ? 6 : style == 1 ? 60 : std::is_floating_point_v<T> ? 10000 : 2000000000; i64 x = dir == 1 ? -X : X; T lo = 0, hi = 0;
    for (int q = rng.size(1, 80); q--;) {
        if (ls.empty() || rng.coin()) { i64 st = std::max<i64>(1, A / 10); T a, b = (T)rng(-B, B); if (ls.empty()) a = lo = hi = (T)rng(-A, A); else if (rng.coin()) { a = lo = std::max<T>((T)(lo - (T)rng(0, st)), (T)-A); } else a = hi = std::min<T>((T)(hi + (T)rng(0, st)), (T)A); if (!ls.empty() && rng.pct(20)) { auto [la, lb] = ls.back(); T v = (T)(lb + (la - a) * (T)rng(-X, X)); if (style < 2 && std::abs(v) < 100000) b = v; if (style == 2 && std::is_integral_v<T>) { i128 u = (i128)lb + ((i128)la - (i128)a) * rng(-X, X) + rng(-1, 1); if (u >= -B && u <= B) b = (T)u; } } LOG("add", (i64)a, (i64)b); c.add_line(a, b); ls.emplace_back(a, b); }
        else { if (dir == 1) x = std::min(X, x + rng(0, std::max<i64>(1, X / 5))); else if (dir == -1) x = std::max(-X, x - rng(0, std::max<i64>(1, X / 5))); else x = rng(-X, X); LOG("query", x); T w = 0; bool f = true; for (auto [a, b] : ls) { T v = a * (T)x + b; if (f || (MIN ? v < w : v > w)) w = v, f = false; } EQ(c.query((T)x), w); }
    }
}
// all floating point inputs are small integers, so double arithmetic is exact
SCENARIO(monotonic_cht, 1500) { switch (rng(0, 8)) {
    case 0: run_mono<i64, true, inc_query_tag>(rng, 1); break; case 1: run_mono<i64, true, dec_query_tag>(rng, -1); break; case 2: run_mono<i64, true, non_monotonic_query_tag>(rng, 0); break;
    case 3: run_mono<i64, false, inc_query_tag>(rng, 1); break; case 4: run_mono<i64, false, dec_query_tag>(rng, -1); break; case 5: run_mono<i64, false, non_monotonic_query_tag>(rng, 0); break;
    case 6: run_mono<double, true, inc_query_tag>(rng, 1); break; case 7: run_mono<double, false, dec_query_tag>(rng, -1); break; default: run_mono<double, true, non_monotonic_query_tag>(rng, 0); } }
SCENARIO(slope_trick, 1200) {
    const int D = 3000 + 700 * (rng.mag - 1); int lo = -D, hi = D; std::vector<i64> f(2 * D + 1, 0); auto at = [&](int x) -> i64& { return f[x + D]; }; SlopeTrick<i64> s; int w = rng.coin() ? 5 : 50;
    for (int q = rng.size(1, 30); q--;) {
        i64 a = rng(-w, w); int op = rng(0, 11); LOG("op", op, a);
        auto shift = [&](int d) { std::vector<i64> g(f.size()); int nl = std::max(-D, lo + d), nh = std::min(D, hi + d); for (int x = nl; x <= nh; ++x) g[x + D] = at(x - d); f = g; lo = nl; hi = nh; };
        switch (op) {
        case 0: case 1: s.add_right(a); for (int x = lo; x <= hi; ++x) at(x) += std::max<i64>(0, x - a); break;
        case 2: case 3: s.add_left(a); for (int x = lo; x <= hi; ++x) at(x) += std::max<i64>(0, a - x); break;
        case 4: case 5: s.add_abs(a); for (int x = lo; x <= hi; ++x) at(x) += std::abs(x - a); break;
        case 6: s.add_const(a); for (int x = lo; x <= hi; ++x) at(x) += a; break;
        case 7: if (rng.pct(40)) { if (rng.coin()) { s.cumulative_min_left(); for (int x = lo + 1; x <= hi; ++x) at(x) = std::min(at(x), at(x - 1)); } else { s.cumulative_min_right(); for (int x = hi - 1; x >= lo; --x) at(x) = std::min(at(x), at(x + 1)); } } break;
        case 8: s <<= a; shift((int)-a); break;
        case 9: s >>= a; shift((int)a); break;
        case 10: s.translate(a); shift((int)a); break;
        default: { int b = (int)rng(a, w); s.sliding_window_minimum(a, b); std::vector<i64> g(f.size()); int nl = std::max(-D, lo + b), nh = std::min(D, hi + (int)a); std::deque<int> dq; for (int y = nl - b, x = nl; x <= nh; ++x) { for (; y <= x - a; ++y) { while (!dq.empty() && at(dq.back()) >= at(y)) dq.pop_back(); dq.push_back(y); } while (dq.front() < x - b) dq.pop_front(); g[x + D] = at(dq.front()); } f = g; lo = nl; hi = nh; } }
        i64 mn = *std::min_element(f.begin() + lo + D, f.begin() + hi + D + 1); EQ(s.min(), mn);
        auto [l, r] = s.argmin_range(); int L = lo, R = hi; while (at(L) != mn) ++L; while (at(R) != mn) --R; if (L > lo) EQ(l, (i64)L); else REQUIRE(l < -(i64)4e18, "argmin must be unbounded to the left"); if (R < hi) EQ(r, (i64)R); else REQUIRE(r > (i64)4e18, "argmin must be unbounded to the right");
        if (rng.pct(25)) { auto [ng, base, ps] = s.lines(); EQ(base, mn); REQUIRE(std::is_sorted(ng.begin(), ng.end()) && std::is_sorted(ps.begin(), ps.end()), "breakpoints unsorted"); for (int t = 0; t < 60; ++t) { int x = t < 40 ? (int)rng(std::max(lo, -3 * w), std::min(hi, 3 * w)) : (int)rng(lo, hi); i128 v = base; for (i64 p : ng) if (p > -(i64)4e18) v += std::max<i64>(0, p - x); for (i64 p : ps) if (p < (i64)4e18) v += std::max<i64>(0, x - p); EQ(v, (i128)at(x)); } }
    }
}
// the same workloads at realistic sizes
RESCALE(cht, 4, 512);
RESCALE(monotonic_cht, 4, 512);
RESCALE(slope_trick, 4, 32);
