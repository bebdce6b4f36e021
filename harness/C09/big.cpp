// Hulls that really hold >= 10^5 lines, audited by a Li Chao tree over the queried points; slope trick audited by its order-independent closed form.
#include "mon.hpp"
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/slope_trick.hpp"
using namespace suisen; using mon::Rng;
// minimum of lines over a fixed set of points
struct LC { std::vector<i64> xs; std::vector<std::pair<i128, i128>> t; int m = 1; i128 ev(std::pair<i128, i128> f, int i) { return f.first * xs[i] + f.second; }
    LC(std::vector<i64> v) : xs(v) { std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end()); while (m < (int)xs.size()) m *= 2; xs.resize(m, xs.back()); t.assign(2 * m, { 0, (i128)1 << 120 }); }
    void add(i128 a, i128 b) { std::pair<i128, i128> f{ a, b }; int k = 1, l = 0, r = m; while (true) { int c = (l + r) / 2; if (ev(f, c) < ev(t[k], c)) std::swap(f, t[k]); if (r - l == 1) return; if (ev(f, l) < ev(t[k], l)) { k = 2 * k; r = c; } else if (ev(f, r - 1) < ev(t[k], r - 1)) { k = 2 * k + 1; l = c; } else return; } }
    i128 get(i64 x) { int i = (int)(std::lower_bound(xs.begin(), xs.end(), x) - xs.begin()); i128 w = (i128)1 << 120; for (int k = i + m; k; k /= 2) w = std::min(w, ev(t[k], i)); return w; } };
// tangents of the parabola -x^2: every line is on the hull
static std::vector<std::pair<i64, i64>> tangents(Rng& rng, int n, i64 spread) { std::set<i64> ts; while ((int)ts.size() < n) ts.insert(rng.in(-spread, spread)); std::vector<std::pair<i64, i64>> r; for (i64 t : ts) r.emplace_back(-2 * t, t * t); return r; }
template <class T, bool MIN> void big_cht(Rng& rng, i64 spread) {
    const i64 sg = MIN ? 1 : -1; int n = (int)std::min<i64>(66000 + (int)rng.in(0, 2000), spread * 19 / 10); auto ls = tangents(rng, n, spread); int ord = (int)rng.in(0, 2); LOG("n", n, "order", ord); if (ord == 0) rng.shuffle(ls); if (ord == 1) std::reverse(ls.begin(), ls.end()); std::vector<i64> qs; for (int i = 0; i < 20000; ++i) qs.push_back(rng(-spread - 5, spread + 5)); LC o(qs); ConvexHullTrick<T, MIN> c; std::size_t k = 0; int j = 0;
    for (auto [a, b] : ls) { if (rng.pct(8)) { i64 d = rng.in(0, 3); c.add_line((T)(sg * a), (T)(sg * (b + d))); o.add(a, b + d); } c.add_line((T)(sg * a), (T)(sg * b)); o.add(a, b); if (++j % 4 == 0 && k < qs.size()) { i64 x = qs[k++]; EQ((i128)c.query((T)x) * sg, o.get(x)); } }
    for (i64 x : qs) EQ((i128)c.query((T)x) * sg, o.get(x));
    // a few dominating lines flatten most of the hull again
    for (int z = 0; z < 3; ++z) { i64 a = rng(-2 * spread, 2 * spread), b = z == 0 ? spread * spread / 9 : -spread * rng.in(0, spread / 2); c.add_line((T)(sg * a), (T)(sg * b)); o.add(a, b); for (int i = 0; i < 4000; ++i) { i64 x = qs[i]; EQ((i128)c.query((T)x) * sg, o.get(x)); } }
}
SCENARIO(big_cht, 4) { switch (rng.in(0, 3)) { case 0: big_cht<i64, true>(rng, 1000000000); break; case 1: big_cht<i64, false>(rng, 1000000000); break; case 2: big_cht<int, true>(rng, 32700); break; default: big_cht<int, false>(rng, 32700); } }
template <class T, bool MIN, class Tag> void big_mono(Rng& rng, int dir) {
    const i64 spread = std::is_same_v<T, i64> ? 1000000000 : std::is_same_v<T, int> ? 14000 : 2000000; const i64 sg = MIN ? 1 : -1; int n = std::is_same_v<T, int> ? 27000 : 66000 + (int)rng.in(0, 2000); auto ls = tangents(rng, n, spread); if (rng.coin()) std::reverse(ls.begin(), ls.end()); std::vector<i64> qs; for (int i = 0; i < 30000; ++i) qs.push_back(rng(-spread - 5, spread + 5)); if (dir) std::sort(qs.begin(), qs.end()); if (dir < 0) std::reverse(qs.begin(), qs.end()); LC o(qs); MonotonicCHT<T, MIN, Tag> c;
    // grow to both sides from the middle, most lines before the first query
    int mid = (int)rng.in(n / 4, 3 * n / 4), lo = mid - 1, hi = mid; std::size_t k = 0; auto put = [&](int i) { auto [a, b] = ls[i]; c.add_line((T)(sg * a), (T)(sg * b)); o.add(a, b); };
    while (lo >= 0 || hi < n) { bool right = lo < 0 || (hi < n && rng.coin()); put(right ? hi++ : lo--); if (hi - lo > n - 3000 && rng.pct(40) && k < qs.size()) { i64 x = qs[k++]; EQ((i128)c.query((T)x) * sg, o.get(x)); } }
    for (; k < qs.size(); ++k) EQ((i128)c.query((T)qs[k]) * sg, o.get(qs[k]));
}
SCENARIO(big_monotonic_cht, 9) { switch (rng.in(0, 8)) {
    case 0: big_mono<i64, true, inc_query_tag>(rng, 1); break; case 1: big_mono<i64, true, dec_query_tag>(rng, -1); break; case 2: big_mono<i64, true, non_monotonic_query_tag>(rng, 0); break;
    case 3: big_mono<i64, false, inc_query_tag>(rng, 1); break; case 4: big_mono<i64, false, dec_query_tag>(rng, -1); break; case 5: big_mono<i64, false, non_monotonic_query_tag>(rng, 0); break;
    case 6: big_mono<double, true, non_monotonic_query_tag>(rng, 0); break; case 7: big_mono<int, false, non_monotonic_query_tag>(rng, 0); break; default: big_mono<int, true, inc_query_tag>(rng, 1); } }
template <class T> void big_slope(Rng& rng, i64 W, int q) {
    SlopeTrick<T> s; std::vector<i64> up, dn; i64 off = 0; i128 c = 0; LOG("q", q, "W", W);
    // after an audit the model may be rewritten as the two monotone halves around the minimum
    auto halves = [&] { std::vector<i64> all(up); all.insert(all.end(), dn.begin(), dn.end()); std::sort(all.begin(), all.end()); std::size_t k = dn.size(); c = s.min(); dn.assign(all.begin(), all.begin() + k); up.assign(all.begin() + k, all.end()); };
    auto audit = [&] { // f(x) = c + sum max(0, x - u) + sum max(0, d - x)
        std::sort(up.begin(), up.end()); std::sort(dn.begin(), dn.end()); std::vector<i64> all(up); all.insert(all.end(), dn.begin(), dn.end()); std::sort(all.begin(), all.end()); if (all.empty()) { EQ((i128)s.min(), c); return; }
        // slope just right of all[i] is (i + 1) - |dn|
        auto val = [&](i64 x) { i128 v = c; for (i64 u : up) v += std::max<i128>(0, (i128)x - u); for (i64 d : dn) v += std::max<i128>(0, (i128)d - x); return v; };
        i64 k = (i64)dn.size(); i64 l = k ? all[k - 1] : 0, r = k < (i64)all.size() ? all[k] : 0; i128 mn = val(k ? l : r); EQ((i128)s.min(), mn); auto [al, ar] = s.argmin_range(); if (k) EQ((i64)al, l + off); else REQUIRE((i64)al < -(i64)(SlopeTrick<T>::inf / 2)); if (k < (i64)all.size()) EQ((i64)ar, r + off); else REQUIRE((i64)ar > (i64)(SlopeTrick<T>::inf / 2));
        auto [ng, base, ps] = s.lines(); EQ((i128)base, mn); EQ((i64)ng.size(), k + 1); EQ((i64)ps.size(), (i64)all.size() - k + 1); for (i64 i = 0; i < k; ++i) EQ((i64)ng[i + 1], all[i] + off); for (i64 i = k; i < (i64)all.size(); ++i) EQ((i64)ps[i - k], all[i] + off); };
    for (int i = 1; i <= q; ++i) {
        i64 a = rng(-W, W); switch (rng.in(0, 9)) { case 0: case 1: case 2: s.add_right((T)a); up.push_back(a - off); break; case 3: case 4: case 5: s.add_left((T)a); dn.push_back(a - off); break; case 6: case 7: s.add_abs((T)a); up.push_back(a - off); dn.push_back(a - off); break; case 8: s.add_const((T)(a / 1000)); c += a / 1000; break; default: { i64 d = rng.in(-W / 1000, W / 1000); if (std::abs(off + d) > W) d = 0; if (rng.coin()) s.translate((T)d); else if (d > 0) s >>= (T)d; else s <<= (T)-d; off += d; } }
        if (i == 30 || i == q / 2 || i == q || i == q / 3 || i == 2 * (q / 3)) { audit(); if (i != q) { halves(); switch (rng.in(0, 3)) { case 0: s.cumulative_min_left(); up.clear(); LOG("cumulative_min_left"); break; case 1: s.cumulative_min_right(); dn.clear(); LOG("cumulative_min_right"); break; default: { i64 a = rng.in(-W / 100, W / 100), b = rng.in(a, W / 100); s.sliding_window_minimum((T)a, (T)b); for (auto& x : dn) x += a; for (auto& x : up) x += b; LOG("sliding", a, b); } } audit(); } }
    }
}
SCENARIO(big_slope_trick, 6) { switch (rng.in(0, 2)) { case 0: big_slope<i64>(rng, 10000000000000LL, 60000 + (int)rng.in(0, 90000)); break; case 1: big_slope<i64>(rng, 100, 150000); break; default: big_slope<int>(rng, 15000, (int)rng.in(100, 60000)); } }
