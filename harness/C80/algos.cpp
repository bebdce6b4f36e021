// MON: shards=2
// util algorithms: counting pairs by sum, searches, coordinate compression, proxies, variants, timers
#include "mon.hpp"
#include <algorithm>
#include <cmath>
#include <string>
#include <set>
#include "library/util/sum_count.hpp"
#include "library/util/search.hpp"
#include "library/util/coordinate_compressor.hpp"
#include "library/util/update_proxy_object.hpp"
#include "library/util/variant_utils.hpp"
#include "library/util/timer.hpp"
#include "library/util/default_operator.hpp"
using namespace suisen;

template <class T, class R> static void sum_count_small(mon::Rng& rng) {
    T la = rng(-12, 12), ra = la + rng(-2, 14), lb = rng(-12, 12), rb = lb + rng(-2, 14), x = rng(-40, 50);
    i64 eq = 0, le = 0, lt = 0, ge = 0, gt = 0;
    for (T a = la; a <= ra; ++a) for (T b = lb; b <= rb; ++b) { T s = a + b; eq += s == x; le += s <= x; lt += s < x; ge += s >= x; gt += s > x; }
    // sum_count is stated for both ranges; an empty one has no pairs
    EQ((i64)(sum_count<T, R>(la, ra, lb, rb, x)), eq, la, ra, lb, rb, x);
    EQ((i64)(sum_count_leq<T, R>(la, ra, lb, rb, x)), le, la, ra, lb, rb, x);
    EQ((i64)(sum_count_lt<T, R>(la, ra, lb, rb, x)), lt, la, ra, lb, rb, x);
    EQ((i64)(sum_count_geq<T, R>(la, ra, lb, rb, x)), ge, la, ra, lb, rb, x);
    EQ((i64)(sum_count_gt<T, R>(la, ra, lb, rb, x)), gt, la, ra, lb, rb, x);
}
SCENARIO(sum_count_ll, 6000) { sum_count_small<i64, i64>(rng); }
SCENARIO(sum_count_int_ll, 3000) { sum_count_small<int, i64>(rng); }
// wide ranges: int arguments, counts need 64 bits
SCENARIO(sum_count_wide, 3000) {
    auto v = [&] { return (int)(rng.coin() ? rng(-300000000, 300000000) : rng(-1000, 1000)); };
    int la = v(), ra = v(), lb = v(), rb = v(); if (la > ra) std::swap(la, ra); if (lb > rb) std::swap(lb, rb);
    int x = rng.coin() ? (int)rng((i64)la + lb - 3, (i64)ra + rb + 3) : (int)rng(-1000000000, 1000000000);
    auto leq = [&](i128 s) -> i128 {   // # pairs with a + b <= s, inclusion-exclusion on shifted coordinates
        auto tri = [](i128 t) -> i128 { return t < 0 ? 0 : (t + 1) * (t + 2) / 2; };
        i128 A = (i128)ra - la, B = (i128)rb - lb, t = s - la - lb;
        return tri(t) - tri(t - A - 1) - tri(t - B - 1) + tri(t - A - B - 2);
    };
    i128 tot = ((i128)ra - la + 1) * ((i128)rb - lb + 1);
    EQ((sum_count_leq<int, i64>(la, ra, lb, rb, x)), (i64)leq(x), la, ra, lb, rb, x);
    EQ((sum_count_lt<int, i64>(la, ra, lb, rb, x)), (i64)leq((i128)x - 1), la, ra, lb, rb, x);
    EQ((sum_count_geq<int, i64>(la, ra, lb, rb, x)), (i64)(tot - leq((i128)x - 1)), la, ra, lb, rb, x);
    EQ((sum_count_gt<int, i64>(la, ra, lb, rb, x)), (i64)(tot - leq(x)), la, ra, lb, rb, x);
    EQ((sum_count<int, i64>(la, ra, lb, rb, x)), (i64)(leq(x) - leq((i128)x - 1)), la, ra, lb, rb, x);
}
static_assert(sum_count_leq<long long>(0, 3, 0, 3, 2) == 6);

// ---------------------------------------------------------------- searches
SCENARIO(binary_search, 3000) {
    auto go = [&](auto tag, i64 lo, i64 hi) {
        using T = decltype(tag);
        T l = (T)rng(lo, hi), r = (T)rng(lo, hi); if (l > r) std::swap(l, r);
        if (l == r) return;
        T ans = (T)rng((i64)l + 1, (i64)r);
        i64 calls = 0;
        auto f = [&](T x) { ++calls; REQUIRE(l <= x && x <= r, "probe outside the interval"); return x >= ans; };
        T got = suisen::binary_search(l, r, f);
        EQ((i64)got, (i64)ans, (i64)l, (i64)r);
        REQUIRE(calls <= 70);
    };
    go(int{}, -1000, 1000); go(int{}, -1000000000, 1000000000); go(i64{}, -2000000000000000000LL, 2000000000000000000LL); go((unsigned)0, 0, 4000000000LL); go((std::uint8_t)0, 0, 255);
    if (rng.coin()) go(i64{}, -5, 5); else go(int{}, 0, 3);
}
SCENARIO(binary_search_exponential, 3000) {
    i64 l = rng.coin() ? rng(-1000000000, 1000000000) : rng(-20, 20);
    i64 d = rng.coin() ? rng(1, 40) : rng(1, 1000000000000LL);
    i64 far = l;
    auto f = [&](i64 x) { far = std::max(far, x); REQUIRE(x >= l, "probe below"); return x >= l + d; };
    EQ(binary_search_exponential(l, f), l + d, l, d);
    REQUIRE(far - l <= 2 * d + 1, "probes stay within twice the distance");
}
SCENARIO(ternary_integral, 3000) {
    // strictly convex / concave on the integers, possibly with two equal optima
    i64 l = rng.coin() ? rng(-1000000, 1000000) : rng(-10, 10), r = l + (rng.coin() ? rng(0, 12) : rng(0, 1000000));
    i64 c2 = rng(2 * l - 10, 2 * r + 10);           // vertex at c2 / 2
    i64 k = rng(1, 5), off = rng(-1000000, 1000000);
    auto f = [&](i64 x) -> i64 { REQUIRE(l <= x && x <= r, "probe outside"); return k * (2 * x - c2) * (2 * x - c2) + off; };
    i64 best = std::numeric_limits<i64>::max();
    for (i64 x : {l, r, c2 / 2 - 1, c2 / 2, c2 / 2 + 1}) if (l <= x && x <= r) best = std::min(best, f(x));
    i64 x = ternary_search_key<ternary_search_tag::Convex>(l, r, f);
    REQUIRE(l <= x && x <= r); EQ(f(x), best, l, r, c2);
    EQ((ternary_search_value<ternary_search_tag::Convex>(l, r, f)), best, l, r, c2);
    auto g = [&](i64 y) -> i64 { return -f(y); };
    i64 y = ternary_search_key<ternary_search_tag::Concave>(l, r, g);
    EQ(g(y), -best, l, r, c2);
    EQ((ternary_search_value<ternary_search_tag::Concave>(l, r, g)), -best, l, r, c2);
    // the value of the function need not have the argument's type
    if (r - l < 100000 && std::abs(l) < 2000000) {
        int li = (int)l, ri = (int)r;
        auto h = [&](int z) -> double { return (double)(2 * (i64)z - c2) * (double)(2 * (i64)z - c2) + 0.5; };
        double bh = 1e300; for (i64 z : {l, r, c2 / 2 - 1, c2 / 2, c2 / 2 + 1}) if (l <= z && z <= r) bh = std::min(bh, h((int)z));
        EQ((double)(ternary_search_value<ternary_search_tag::Convex>(li, ri, h)), bh, "value type", li, ri, c2);
        auto big = [&](int z) -> i64 { return (i64)(2 * (i64)z - c2) * (2 * (i64)z - c2) + 10000000000LL; };
        i64 bb = std::numeric_limits<i64>::max(); for (i64 z : {l, r, c2 / 2 - 1, c2 / 2, c2 / 2 + 1}) if (l <= z && z <= r) bb = std::min(bb, big((int)z));
        EQ((i64)ternary_search_value<ternary_search_tag::Convex>(li, ri, big), bb, "value type", li, ri, c2);
    }
}
SCENARIO(ternary_real, 1500) {
    double l = rng(-1000, 1000) / 7.0, r = l + rng(0, 1000) / 3.0, c = rng(-1200, 1200) / 7.0;
    int kind = rng(0, 1);
    auto f = [&](double x) { REQUIRE(l - 1e-9 <= x && x <= r + 1e-9, "probe outside"); return kind ? std::abs(x - c) : (x - c) * (x - c); };
    double best = std::clamp(c, l, r);
    double x = ternary_search_key<ternary_search_tag::Convex>(l, r, 150, f);
    NEAR(x, best, 1e-5);
    NEAR((ternary_search_value<ternary_search_tag::Convex>(l, r, 150, f)), f(best), 1e-6);
    auto g = [&](double y) { return -f(y); };
    NEAR((ternary_search_key<ternary_search_tag::Concave>(l, r, 150, g)), best, 1e-5);
    NEAR((ternary_search_value<ternary_search_tag::Concave>(l, r, 150, g)), -f(best), 1e-6);
}
// ---------------------------------------------------------------- coordinate compression
template <class T, class Conv> static void cc_case(mon::Rng& rng, Conv conv) {
    int n = rng.size(0, 60), w = rng.coin() ? 10 : 60;
    std::vector<T> src; for (int i = 0; i < n; ++i) src.push_back(conv(rng(0, w)));
    std::set<T> ms(src.begin(), src.end());
    using B = CoordinateCompressorBuilder<T>;
    auto make = [&]() {
        switch (rng(0, 6)) {
        case 0: return B::build(src);
        case 1: return B::build(std::vector<T>(src));
        case 2: return B::build(n, [&](int i) { return src[i]; });
        case 3: { B b; for (auto& x : src) if (rng.coin()) b.push(x); else b.push(T(x)); return b.build(); }
        case 4: { B b; b.reserve(n); int k = rng(0, n); b.push(src.begin(), src.begin() + k); b.push(std::vector<T>(src.begin() + k, src.end())); return b.build(); }
        case 5: { B b; for (auto& x : src) b.emplace(x); b.build(); return b.build(); }
        default: return typename B::Compressor(std::vector<T>(ms.begin(), ms.end()));
        }
    };
    auto c = make();
    std::vector<T> xs(ms.begin(), ms.end());
    EQ(c.size(), (int)xs.size());
    for (int i = 0; i < (int)xs.size(); ++i) { REQUIRE(c.decomp(i) == xs[i]); EQ(c.comp(xs[i]), i); EQ(c[xs[i]], i); REQUIRE(c.has_key(xs[i])); }
    T dv = conv(1000);
    for (int i = -1; i <= w + 1; ++i) {
        T e = conv(i);
        bool has = ms.count(e);
        int lb = 0, ub = 0; for (auto& x : xs) { lb += x < e; ub += !(e < x); }
        EQ(c.has_key(e), has);
        EQ(c.comp(e), has ? lb : -1); EQ(c.comp(e, 12345), has ? lb : 12345); EQ(c[e], has ? lb : -1);
        EQ(c.min_geq_index(e), lb); EQ(c.min_gt_index(e), ub); EQ(c.max_lt_index(e), lb - 1); EQ(c.max_leq_index(e), ub - 1);
        REQUIRE(c.min_geq(e, dv) == (lb < (int)xs.size() ? xs[lb] : dv)); REQUIRE(c.min_gt(e, dv) == (ub < (int)xs.size() ? xs[ub] : dv));
        REQUIRE(c.max_lt(e, dv) == (lb > 0 ? xs[lb - 1] : dv)); REQUIRE(c.max_leq(e, dv) == (ub > 0 ? xs[ub - 1] : dv));
    }
}
SCENARIO(compress_int, 600) { cc_case<int>(rng, [](i64 i) { return (int)(i * 7 - 100); }); }
SCENARIO(compress_ll, 300) { cc_case<i64>(rng, [](i64 i) { return i == 0 ? std::numeric_limits<i64>::min() + 1 : i == -1 ? std::numeric_limits<i64>::min() : i * 1000000000000000LL; }); }
SCENARIO(compress_string, 200) { cc_case<std::string>(rng, [](i64 i) { return std::string(1, (char)('A' + (i + 1) % 50)) + std::string(i / 40 + 1, 'z'); }); }
SCENARIO(compress_default, 50) {
    CoordinateCompressorBuilder<int>::Compressor c; EQ(c.size(), 0); EQ(c.comp(3), -1); EQ(c.min_geq_index(3), 0); EQ(c.max_leq_index(3), -1); EQ(c.min_gt(0, 5), 5); REQUIRE(!c.has_key(0));
    CoordinateCompressorBuilder<std::pair<int, int>> b; b.emplace(1, 2); b.emplace(0, 3); b.emplace(1, 2); auto d = b.build(); EQ(d.size(), 2); EQ((d[{1, 2}]), 1);
    CoordinateCompressorBuilder<int> e(std::vector<int>{3, 1, 3}); e.push(2); EQ(e.build().size(), 3); e.push(0); auto f = e.build(); EQ(f.size(), 4); EQ(f[3], 3);
    (void)rng;
}
// ---------------------------------------------------------------- proxies
SCENARIO(update_proxy, 600) {
    i64 v = rng(-1000, 1000), m = v; int calls = 0; i64 seen = 0;
    auto upd = [&] { ++calls; seen = v; };
    auto P = [&] { return UpdateProxyObject<i64, decltype(upd)>(v, upd); };
    int want = 0;
    for (int q = 0; q < 20; ++q) {
        i64 x = rng(1, 9);
        switch (rng(0, 11)) {
        case 0: ++P(); ++m; ++want; break;
        case 1: --P(); --m; ++want; break;
        case 2: P() += x; m += x; ++want; break;
        case 3: P() -= x; m -= x; ++want; break;
        case 4: P() *= x; m *= x; ++want; break;
        case 5: P() /= x; m /= x; ++want; break;
        case 6: P() %= 1000 + x; m %= 1000 + x; ++want; break;
        case 7: P() = x; m = x; ++want; break;
        case 8: m = std::abs(m) % 1000; P() = m; ++want; P() <<= x; m <<= x; ++want; break;
        case 9: P() >>= x; m >>= x; ++want; break;
        case 10: P().apply([&](i64 y) { return y ^ x; }); m ^= x; ++want; break;
        case 11: { i64 y = P(); EQ(y, m); } break;
        }
        m %= 1000000007; if (v != m) { v %= 1000000007; seen = v; }
        EQ(v, m); EQ(calls, want, "update called once per modification"); if (want) EQ(seen, m, "update sees the new value");
    }
}
SCENARIO(variant_match, 400) {
    using V = std::variant<int, std::string, double>;
    int k = rng(0, 2); int iv = rng(-9, 9); std::string sv = rng.string(rng(0, 20), 26);
    V v; if (k == 0) v = iv; else if (k == 1) v = sv; else v = 0.25 * iv;
    int hi = 0, hs = 0, ho = 0;
    bool handle_d = rng.coin(); int hd = 0;
    auto run = [&](auto&& m) {
        auto&& r = std::move(m).template with<int>([&](int x) { ++hi; EQ(x, iv); }).template with<std::string>([&](const std::string& s) { ++hs; EQ(s, sv); });
        if (handle_d) std::move(r).template with<double>([&](double d) { ++hd; EQ(d, 0.25 * iv); }).otherwise([&] { ++ho; });
        else std::move(r).otherwise([&] { ++ho; });
    };
    if (rng.coin()) run(Match(v)); else run(Match(V(v)));
    EQ(hi, k == 0); EQ(hs, k == 1); EQ(hd, k == 2 && handle_d); EQ(ho, k == 2 && !handle_d);
}
SCENARIO(timer, 5) {
    auto spin = [&](double ms) { auto s = std::chrono::steady_clock::now(); while (std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - s).count() < ms) {} };
    Timer t; double ms = rng(5, 20); spin(ms);
    double e = t.elapsed(), us = t.elapsed<Timer::microseconds_t>(), ns = t.elapsed<Timer::nanoseconds_t>(), s = t.elapsed<Timer::seconds_t>(), mi = t.elapsed<Timer::minutes_t>();
    // the clock may be adjusted by the host by a little; allow generous slack in both directions
    REQUIRE(e >= ms - 4, e, ms); REQUIRE(us >= (ms - 4) * 1000, us, ms); REQUIRE(ns >= us * 1000 - 4e6, us, ns); REQUIRE(e <= us / 1000 + 4, e, us); REQUIRE(s <= us / 1e6 + 0.1 && mi <= s / 60 + 0.1, s, mi);
    double d = Timer::measure([&] { spin(ms); }); REQUIRE(d >= ms - 4, d, ms);
    double du = Timer::measure<Timer::microseconds_t>([&] { spin(ms); }); REQUIRE(du >= (ms - 4) * 1000, du, ms);
    t.start(); double z = t.elapsed(); REQUIRE(z < e + 60000, z);
}
SCENARIO(default_ops, 300) {
    i64 x = rng(-1000000, 1000000), y = rng(1, 1000) * (rng.coin() ? 1 : -1);
    namespace A = default_operator; namespace B = default_operator_noref;
    EQ(A::zero<i64>(), (i64)0); EQ(A::one<i64>(), (i64)1); EQ(B::zero<i64>(), (i64)0); EQ(B::one<i64>(), (i64)1);
    EQ(A::add(x, y), x + y); EQ(A::sub(x, y), x - y); EQ(A::mul(x, y), x * y); EQ(A::div(x, y), x / y); EQ(A::mod(x, y), x % y); EQ(A::neg(x), -x); EQ(A::inv(0.5), 2.0);
    EQ(B::add(x, y), x + y); EQ(B::sub(x, y), x - y); EQ(B::mul(x, y), x * y); EQ(B::div(x, y), x / y); EQ(B::mod(x, y), x % y); EQ(B::neg(x), -x); EQ(B::inv(0.5), 2.0);
}
// the same workloads at realistic sizes
RESCALE(compress_int, 4, 512);
RESCALE(compress_ll, 4, 512);
RESCALE(compress_string, 4, 512);
