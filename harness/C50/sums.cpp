// C50: quotients, denominators, roots, sums of multiplicative functions, square-free counting
#include "mon.hpp"
#include <optional>
#include <array>
#include "library/number/count_square_free.hpp"
#include "library/number/enumerate_quotient.hpp"
#include "library/number/find_denominators.hpp"
#include "library/number/kth_root_round.hpp"
#include "library/number/sum_of_mobius_function.hpp"
#include "library/number/sum_of_totient_function.hpp"
using namespace mon; using namespace suisen;
template <class T> static void quo_case(Rng& rng, T n) {
    LOG((i64)n); std::vector<T> e; for (i128 l = 1; l <= n;) { T q = n / (T)l; e.push_back(q); l = (i128)(n / q) + 1; } std::reverse(e.begin(), e.end());
    EQ((i64)quotient_num(n), (i64)e.size()); bool big = e.size() > 3000; if (big) REQUIRE(enumerate_quotients(n) == e); else EQV(enumerate_quotients(n), e); std::vector<T> f; foreach_quotients(n, [&](T q) { f.push_back(q); }); if (big) REQUIRE(f == e); else EQV(f, e);
    auto rs = quotient_ranges(n); EQ(rs.size(), e.size()); i128 l = 1; for (size_t i = 0; i < rs.size(); ++i) { auto [a, b, q] = rs[i]; REQUIRE(a == l, "ranges not contiguous"); REQUIRE(n / a == q && n / b == q); if (b < n) REQUIRE(n / (b + 1) < q); l = (i128)b + 1; } if (n) REQUIRE(l == (i128)n + 1);
    (void)rng;
}
SCENARIO(quotients, 150) {
    switch (rng(0, 5)) { case 0: quo_case<int>(rng, rng(0, 200)); break; case 1: quo_case<i64>(rng, rng(0, 3000)); break; case 2: { i64 r = rng(1, 3000); quo_case<i64>(rng, std::max<i64>(0, r * (r + rng(0, 1)) + rng(-1, 1))); break; } case 3: quo_case<int>(rng, INT_MAX - (rng.coin() ? 0 : rng(0, 100000))); break; case 4: quo_case<u32>(rng, UINT_MAX - (rng.coin() ? 0 : rng(0, 1000))); break; default: quo_case<i64>(rng, rng.wides(0, 1LL << 36)); }
}
SCENARIO(quotients_big, 2) { i64 n = (1LL << 42) + rng.wides(0, 1LL << 40); if (rng.coin()) n = rng(1 << 20, 1 << 21) * (i64)(1 << 21); quo_case<i64>(rng, n); if (mon::thorough) quo_case<i64>(rng, (1LL << 53) + rng.wides(-100, 100)); }
template <class C> static void mq_case(Rng& rng, C vs) {
    using T = typename C::value_type; T mx = *std::max_element(vs.begin(), vs.end()); for (auto v : vs) LOG((i64)v); auto rs = multiple_quotients_ranges(vs); i128 l = 1; C prev{}; for (size_t i = 0; i < rs.size(); ++i) { auto& [a, b, q] = rs[i]; REQUIRE(a == l, "not contiguous"); REQUIRE(a <= b); EQ(q.size(), vs.size()); bool next_same = b < std::numeric_limits<T>::max(); for (size_t j = 0; j < vs.size(); ++j) { REQUIRE(vs[j] / a == q[j] && vs[j] / b == q[j]); if (b < std::numeric_limits<T>::max()) next_same &= vs[j] / (b + 1) == q[j]; } REQUIRE(!next_same, "range not maximal"); l = (i128)b + 1; } if (mx > 0) REQUIRE(l > mx, "ranges end early"); else REQUIRE(rs.empty()); (void)rng;
}
SCENARIO(multiple_quotients, 120) { int k = rng(1, 4); bool big = rng.pct(15); auto gen = [&]() -> int { return big && rng.coin() ? INT_MAX - (rng.coin() ? 0 : rng(0, 1000)) : rng.size(0, 3000); }; std::vector<int> v(k); for (auto& x : v) x = gen(); mq_case(rng, v); std::array<i64, 3> a; for (auto& x : a) x = rng.size(0, 100000); mq_case(rng, a); std::vector<u32> u(2); for (auto& x : u) x = gen(); mq_case(rng, u); }
template <class T> static T fl(T n, T x) { T q = n / x; if (n % x != 0 && (n % x < 0) != (x < 0)) --q; return q; }
template <class T> static T ce(T n, T x) { T q = n / x; if (n % x != 0 && (n % x < 0) == (x < 0)) ++q; return q; }
template <class T, class F> static void den_check(std::optional<std::pair<T, T>> r, F ok, T lo, T hi, T bound_lo, T bound_hi) {
    // ok(x): x satisfies; lo..hi small window tested exhaustively, plus interval ends
    for (T x = lo; x <= hi; ++x) if (x != 0) EQ(bool(r && r->first <= x && x <= r->second), ok(x), x);
    if (r) { auto [a, b] = *r; REQUIRE(bound_lo <= a && a <= b && b <= bound_hi); REQUIRE(ok(a) && ok(b), a, b); if (a > bound_lo) REQUIRE(!ok(a - 1)); if (b < bound_hi) REQUIRE(!ok(b + 1)); }
}
template <class T> static void den_case(Rng& rng, T n, T q, T lim) {
    LOG((i64)n, (i64)q, (i64)lim); T w = std::min<T>(lim, 60); T mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
    auto FL = [&](T x) { return x != 0 && fl<T>(n, x) == q; }; auto CE = [&](T x) { return x != 0 && ce<T>(n, x) == q; };
    den_check<T>(fld_denominators_positive<T>(n, q, lim), FL, 1, w, 1, lim); den_check<T>(fld_denominators_negative<T>(n, q, -lim), FL, -w, -1, -lim, -1); den_check<T>(cld_denominators_positive<T>(n, q, lim), CE, 1, w, 1, lim); den_check<T>(cld_denominators_negative<T>(n, q, -lim), CE, -w, -1, -lim, -1);
    den_check<T>(fld_denominators_positive<T>(n, q), FL, 1, w, 1, mx); den_check<T>(fld_denominators_negative<T>(n, q), FL, -w, -1, mn, -1); den_check<T>(cld_denominators_positive<T>(n, q), CE, 1, w, 1, mx); den_check<T>(cld_denominators_negative<T>(n, q), CE, -w, -1, mn, -1); (void)rng;
}
SCENARIO(denominators, 500) { for (int k = 0; k < 4; ++k) { i64 n = rng.coin() ? rng(-30, 30) : rng.wides(-(1LL << 61), 1LL << 61), q = rng.coin() ? rng(-8, 8) : rng.wides(-(1LL << 40), 1LL << 40); if (rng.coin()) { i64 x = rng.wides(1, 1000000); q = rng.coin() ? fl<i64>(n, x) : ce<i64>(n, -x); } den_case<i64>(rng, n, q, rng.coin() ? rng(1, 60) : rng.wides(1, 1LL << 60)); den_case<int>(rng, rng.coin() ? rng(-40, 40) : rng.wides(-(1 << 29), 1 << 29), rng(-40, 40), rng.size(1, 1000)); } }
template <class T> static T ref_root(T x, int k) { auto le = [&](u128 r) { u128 p = 1; for (int i = 0; i < k; ++i) { p *= r; if (p > (u128)x) return false; } return true; }; u64 lo = 0, hi = (u64)x; if (k >= 2) hi = std::min<u64>(hi, 1ULL << 32); while (lo < hi) { u64 m = lo + (hi - lo) / 2 + (hi - lo) % 2; if (le(m)) lo = m; else hi = m - 1; } return (T)lo; }
SCENARIO(kth_root, 600) { for (int t = 0; t < 10; ++t) { int k = rng.coin() ? rng(1, 6) : rng(1, 70); u64 x; switch (rng(0, 3)) { case 0: x = rng.u() >> rng(0, 63); break; case 1: x = rng(0, 100); break; default: { u64 r = ref_root<u64>(~0ULL, k); r = rng.coin() ? r - std::min<u64>(r, rng(0, 3)) : rng.u() % (r < ~0ULL ? r + 1 : r); u64 p = 1; for (int i = 0; i < k && k > 1; ++i) p *= r; if (k == 1) p = r; x = p + rng(-1, 1); break; } } LOG(x, k); u64 f = ref_root<u64>(x, k); u128 p = 1; for (int i = 0; i < k && p <= x && f > 1; ++i) p *= f; if (f <= 1) p = f; u64 c = f + (p < x); EQ(floor_kth_root<u64>(x, k), f); EQ(ceil_kth_root<u64>(x, k), c); if (x >> 63 == 0) { EQ((u64)floor_kth_root<i64>(x, k), f); EQ((u64)ceil_kth_root<i64>(x, k), c); } if (x >> 31 == 0) { EQ((u64)floor_kth_root<int>(x, k), f); EQ((u64)ceil_kth_root<int>(x, k), c); } } }
struct Mod { i64 v; Mod(i64 x = 0) : v(((x % 998244353) + 998244353) % 998244353) {} friend Mod operator+(Mod a, Mod b) { return a.v + b.v; } friend Mod operator*(Mod a, Mod b) { return a.v * b.v; } Mod& operator-=(Mod b) { return *this = Mod(v - b.v); } Mod& operator*=(Mod b) { return *this = *this * b; } };
SCENARIO(sums, 80) {
    static std::vector<i64> sphi, smu; static const int L = 300000; if (sphi.empty()) { std::vector<int> phi(L + 1), mu(L + 1, 0); std::iota(phi.begin(), phi.end(), 0); mu[1] = 1; for (int i = 1; i <= L; ++i) for (int j = 2 * i; j <= L; j += i) mu[j] -= mu[i]; for (int i = 2; i <= L; ++i) if (phi[i] == i) for (int j = i; j <= L; j += i) phi[j] -= phi[j] / i; sphi.resize(L + 1); smu.resize(L + 1); for (int i = 1; i <= L; ++i) sphi[i] = sphi[i - 1] + phi[i], smu[i] = smu[i - 1] + mu[i]; }
    u64 n = rng.coin() ? rng(1, 200) : rng.upto(1, L); LOG(n); SumOfMobiusFunction<i64> m(n); SumOfTotientFunction<i64> t(n); SumOfTotientFunction<Mod> tm(n); EQ(m(), smu[n]); EQ(t(), sphi[n]); EQ(tm().v, sphi[n] % 998244353); auto chk = [&](u64 d) { EQ(m(d), smu[n / d], d); EQ(t(d), sphi[n / d], d); EQ(tm(d).v, sphi[n / d] % 998244353); };
    if (n < 500) for (u64 d = 1; d <= n + 2; ++d) chk(d); else for (int k = 0; k < 200; ++k) chk(rng.upto(1, n)); SumOfMobiusFunction<int> d0; EQ(d0(), 1); SumOfTotientFunction<int> d1; EQ(d1(), 1);
}
SCENARIO(sums_large, 2, 3) { // consistency of one large instance with the defining divisor sums
    u64 n = rng.wides(1000000000LL, 20000000000LL); LOG(n); SumOfMobiusFunction<i64> m(n); SumOfTotientFunction<Mod> t(n); i128 s = 0; Mod st; for (u64 l = 1; l <= n;) { u64 q = n / l, r = n / q; s += (i128)(r - l + 1) * m(l); st -= Mod(-i64((r - l + 1) % 998244353)) * t(l); l = r + 1; } REQUIRE(s == 1, "sum of Mertens over quotients is not 1"); EQ(st.v, i64((u128)n * (n + 1) / 2 % 998244353));
    static const i64 M[] = { 1, -1, 1, 2, -23, -48, 212, 1037, 1928, -222, -33722 }; int e = rng(0, 10); u64 p = 1; for (int i = 0; i < e; ++i) p *= 10; EQ(SumOfMobiusFunction<i64>(p)(), M[e], e);
}
static bool sqfree(u64 n) { for (u64 p = 2; p * p * p <= n; ++p) if (n % p == 0) { n /= p; if (n % p == 0) return false; } u64 r = (u64)std::sqrt((double)n); for (u64 s = r > 1 ? r - 1 : 0; s <= r + 1; ++s) if (s > 1 && s * s == n) return false; return true; }
SCENARIO(count_square_free, 60) {
    static std::vector<int> pre; if (pre.empty()) { pre.resize(200001); for (int i = 1; i <= 200000; ++i) { bool ok = true; for (int d = 2; d * d <= i; ++d) if (i % (d * d) == 0) { ok = false; break; } pre[i] = pre[i - 1] + ok; } }
    EQ(count_square_free(-rng(0, 5)), 0LL); for (int k = 0; k < 60; ++k) { i64 n = rng.coin() ? rng(0, 300) : rng.size(0, 200000); LOG(n); EQ(count_square_free(n), pre[n]); }
    i64 n = rng.wides(1000000, 1000000000000LL); LOG(n); int w = 4; i64 a = count_square_free(n); for (int k = 1; k <= w; ++k) { i64 b = count_square_free(n + k); EQ(b - a, (i64)sqfree(n + k), n + k); a = b; }
}
SCENARIO(count_square_free_huge, 3, 2) { i64 n = rng.pct(50) ? rng(1000000000000LL, 1000000000000000000LL) : rng.wides(1000000000000LL, 1000000000000000000LL); if (rng.pct(40)) { i64 r = rng(1000000, 1000000000); n = r * r - 1; } LOG(n); i64 a = count_square_free(n), b = count_square_free(n + 1); EQ(b - a, (i64)sqfree(n + 1), n); }
SCENARIO(count_square_free_known, 1, 1) { static const i64 V[] = { 1, 7, 61, 608, 6083, 60794, 607926, 6079291, 60792694, 607927124, 6079270942LL, 60792710280LL, 607927102274LL, 6079271018294LL, 60792710185947LL, 607927101854103LL, 6079271018540405LL, 60792710185403794LL, 607927101854022750LL }; i64 p = 1; for (int e = 0; e <= 18; ++e, p *= e <= 18 ? 10 : 1) EQ(count_square_free(p), V[e], e); }
// the same workloads at realistic sizes
RESCALE(multiple_quotients, 4, 512);
RESCALE(denominators, 4, 512);
