// MON: shards=3
// C50: primality, factorization, sieves, Montgomery / Barrett arithmetic
#include "mon.hpp"
#include <optional>
#include "library/number/barrett_reduction.hpp"
#include "library/number/deterministic_miller_rabin.hpp"
#include "library/number/deterministic_miller_rabin_simd.hpp"
#include "library/number/factorized_form.hpp"
#include "library/number/fast_factorize.hpp"
#include "library/number/linear_sieve.hpp"
#include "library/number/mobius_function.hpp"
#include "library/number/montogomery.hpp"
#include "library/number/util.hpp"
using namespace mon; using namespace suisen;
static u64 mulm(u64 a, u64 b, u64 m) { return (u128)a * b % m; }
static u64 powm(u64 a, u64 e, u64 m) { u64 r = 1 % m; a %= m; for (; e; e >>= 1, a = mulm(a, a, m)) if (e & 1) r = mulm(r, a, m); return r; }
static bool ref_prime(u64 n) {   // trial division for small n, 12-base strong test (proved for < 2^64) otherwise
    if (n < 2) return false;
    if (n < (1 << 20)) { for (u64 d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }
    for (u64 p : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) if (n % p == 0) return n == p;
    u64 d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, ++s;
    for (u64 a : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) { u64 x = powm(a, d, n); if (x == 1 || x == n - 1) continue; bool ok = false; for (int i = 1; i < s && !ok; ++i) { x = mulm(x, x, n); ok = x == n - 1; } if (!ok) return false; }
    return true;
}
static u64 any_u64(Rng& rng, int maxbits = 64) { int b = rng(1, maxbits); u64 x = rng.u(); return b == 64 ? x : x & ((1ULL << b) - 1); }
static u64 next_prime(u64 x, u64 lim) { for (u64 y = x | 1; y <= lim && y >= x; y += 2) if (ref_prime(y)) return y; return 3; }
static u64 hard(Rng& rng, u64 lim) {   // lim inclusive
    static const u64 special[] = { 0, 1, 2, 3, 4, 5, 7, 9, 25, 49, 113, 119, 120, 121, 127, 2047, 1373653, 25326001, 3215031751ULL, 2152302898747ULL, 3474749660383ULL, 341550071728321ULL, 3825123056546413051ULL, 341531, 1050535501ULL, 350269456337ULL, 55245642489451ULL, 7999252175582851ULL, 585226005592931977ULL, 4759123141ULL, 1122004669633ULL, 9223372036854775783ULL, 9223372036854775837ULL, 18446744073709551557ULL, 18446744073709551615ULL, 18446744065119617029ULL /* 4294967291^2 */, 2147483647, 4294967291ULL, 2305843009213693951ULL, 561, 1105, 1729, 2465, 2821, 6601, 8911 };
    for (;;) { u64 n; switch (rng(0, 7)) {
        case 0: n = special[rng(0, std::size(special) - 1)]; if (rng.pct(30)) n += rng(-3, 3); break;
        case 1: n = any_u64(rng); break;
        case 2: n = next_prime(any_u64(rng), lim); break;
        case 3: { u64 p = next_prime(any_u64(rng, 32), ~0u); n = p * p; break; }
        case 4: { u64 p = next_prime(any_u64(rng, 32), ~0u), q = rng.coin() ? next_prime(p + 2, ~0u) : next_prime(any_u64(rng, 32), ~0u); n = p * q; break; }
        case 5: { u64 k = any_u64(rng, 16); n = (6 * k + 1) * (12 * k + 1) * (18 * k + 1); break; }
        case 6: { n = 1; while (n < lim / 2) { u64 p = next_prime(any_u64(rng, rng(1, 20)), 1 << 20); if (n > lim / p) break; n *= p; if (rng.pct(10)) break; } break; }
        default: n = lim - rng(0, 100); }
        if (n <= lim) return n; }
}
SCENARIO(miller_rabin, 1500) {
    for (int k = 0; k < 8; ++k) { u64 n = hard(rng, ~0ULL); LOG(n); EQ(miller_rabin::is_prime(n), ref_prime(n)); if (n <= 0x7fffffffffffffffULL) EQ(miller_rabin::is_prime((i64)n), ref_prime(n)); if (n <= ~0u) EQ(miller_rabin::is_prime((u32)n), ref_prime(n)); if (n < 1ULL << 31) { EQ(miller_rabin::is_prime((int)n), ref_prime(n)); EQ(miller_rabin_simd::is_prime(n), ref_prime(n)); } u64 m = hard(rng, 0x7fffffff); LOG(m); EQ(miller_rabin_simd::is_prime(m), ref_prime(m)); EQ(miller_rabin::is_prime((int)m), ref_prime(m)); }
}
SCENARIO(miller_rabin_dense, 60) { u64 b = rng.coin() ? rng(0, 400000) : rng.wides(0, 1LL << 31) - 400; for (u64 n = b; n < b + 400; ++n) if (n < 1ULL << 31) { bool e = ref_prime(n); EQ(miller_rabin::is_prime(n), e, n); EQ(miller_rabin_simd::is_prime(n), e, n); } }
static_assert(miller_rabin::is_prime(998244353) && !miller_rabin::is_prime(998244355) && miller_rabin::is_prime(1000000000000000003LL));
template <class T> static void check_fact(const std::vector<std::pair<T, int>>& f, u64 n, bool sorted) { u64 prod = 1; std::set<u64> seen; u64 last = 0; for (auto [p, c] : f) { REQUIRE(c >= 1); REQUIRE(ref_prime(p), "factor not prime", p); REQUIRE(seen.insert(p).second, "prime repeated", p); if (sorted) REQUIRE(u64(p) > last, "not ascending"); last = p; for (int i = 0; i < c; ++i) prod *= p; } EQ(prod, n); }
SCENARIO(fast_factorize, 250) {
    for (int k = 0; k < 3; ++k) { u64 n = hard(rng, 0x7fffffffffffffffULL >> (rng.coin() ? rng(0, 40) : 0)); if (!n) n = 1; LOG(n); auto f = fast_factorize::factorize((i64)n); check_fact(f, n, false); if (n <= 0x7fffffff) check_fact(fast_factorize::factorize((int)n), n, false); if (n <= ~0u) check_fact(fast_factorize::factorize((u32)n), n, false); check_fact(fast_factorize::factorize((u64)n), n, false); }
    u64 n = rng(1, 1100000); LOG(n); check_fact(fast_factorize::factorize((i64)n), n, false);
    if (rng.pct(20)) { u64 b = hard(rng, ~0ULL) | 1ULL << 63; LOG(b); check_fact(fast_factorize::factorize((u64)b), b, false); }
}
SCENARIO(factorized_form, 100) { PrimePower<i64> p{ rng(2, 100), (int)rng(1, 9) }; auto [a, b] = p; EQ(a, p.prime); EQ(b, p.exponent); auto& [c, d] = p; c = 7; d = 3; EQ(p.prime, 7); EQ(p.exponent, 3); const auto q = p; EQ(q.get<0>(), 7); EQ(q.get<1>(), 3); FactorizedForm<i64> f{ p, { 5, 2 } }; i64 s = 0; for (auto [x, y] : f) s += x * y; EQ(s, 31); }
SCENARIO(util_factorize, 400) {
    u64 lim = rng.coin() ? 100000 : rng.coin() ? 0x7fffffff : (1ULL << 44); u64 n = hard(rng, lim); if (!n) n = 1; LOG(n); check_fact(factorize((i64)n), n, true); check_fact(factorize((u64)n), n, true); if (n <= 0x7fffffff) check_fact(factorize((int)n), n, true); if (n <= ~0u) check_fact(factorize((u32)n), n, true);
    u64 tot = n, lam = 1; int nd = 1; for (auto [p, c] : factorize((i64)n)) { tot = tot / p * (p - 1); u64 t = 1; for (int i = 1; i < c; ++i) t *= p; t *= p - 1; if (p == 2 && c >= 3) t /= 2; lam = lam / std::gcd(lam, t) * t; nd *= c + 1; }
    EQ((u64)totient((i64)n), tot); EQ((u64)carmichael((i64)n), lam); auto d = divisors((i64)n); std::set<i64> ds(d.begin(), d.end()); EQ((int)d.size(), nd); EQ((int)ds.size(), nd); for (auto x : ds) REQUIRE(x > 0 && n % x == 0); if (n <= 0x7fffffff) { EQ((u64)totient((int)n), tot); EQ((u64)carmichael((int)n), lam); EQ((int)divisors((int)n).size(), nd); }
    if (n <= 3000) { u64 t = 0, l = 1; for (u64 a = 1; a <= n; ++a) if (std::gcd(a, n) == 1) { ++t; u64 o = 1, v = a % n; if (n > 1) while (v != 1) v = v * a % n, ++o; l = std::lcm(l, o); } EQ(tot, t); EQ(lam, l); }
}
SCENARIO(util_big_factorize, 12) { u64 s = 1; int e = rng(0, 40); s <<= e; u64 n = s; while (n < (1ULL << 61)) { u64 p = next_prime(any_u64(rng, 14), 1 << 14); n *= p; } LOG(n); check_fact(factorize((u64)n), n, true); if (n >> 63 == 0) { check_fact(factorize((i64)n), n, true); u64 tot = n; for (auto [p, c] : factorize((i64)n)) tot = tot / p * (p - 1); EQ((u64)totient((i64)n), tot); } }
SCENARIO(util_tables, 60) { int n = rng.coin() ? rng(0, 10) : rng(0, 2000); LOG(n); auto t = totient_table(n); auto d = divisors_table(n); EQ((int)t.size(), n + 1); EQ((int)d.size(), n + 1); for (int i = 1; i <= n; ++i) { int c = 0; std::vector<int> e; for (int j = 1; j <= i; ++j) if (i % j == 0) e.push_back(j); EQV(d[i], e); if (n < 300) { for (int j = 1; j <= i; ++j) c += std::gcd(i, j) == 1; EQ(t[i], c); } else EQ(t[i], totient(i)); } }
SCENARIO(powi, 200) { i64 a = rng(-12, 12); int b = rng(0, 40); u64 e = 1; bool ok = true; i128 v = 1; for (int i = 0; i < b; ++i) { e *= a; v *= a; if (v > INT64_MAX || v < INT64_MIN) { ok = false; break; } } LOG(a, b); if (ok) EQ(powi<i64>(a, b), (i64)v); if (ok && v <= INT_MAX && v >= INT_MIN) EQ(powi<int>(a, b), (int)v); if (ok) EQ(powi<u64>((u64)a, b), e); }
SCENARIO(linear_sieve, 80) { int n = rng.coin() ? rng(1, 40) : rng.size(1, 5000); LOG(n); LinearSieve s(n); std::vector<int> pl; auto& m = s.get_min_prime_factor(); EQ((int)m.size(), n + 1); for (int i = 2; i <= n; ++i) { int d = 2; while (i % d) ++d; EQ(m[i], d); if (d == i) pl.push_back(i); } EQV(s.get_prime_list(), pl); EQ(s.prime_num(), (int)pl.size()); for (int k = 0; k < 50; ++k) { int x = rng(1, n); check_fact(s.factorize(x), x, true); } }
template <int N> static void mob_case(Rng& rng) { static const MobiusFunction<N> mf; for (int i = 1; i <= N; ++i) { int x = i, mu = 1, mp = 0; for (int d = 2; x > 1; ++d) { if (d * d > x) d = x; if (x % d == 0) { x /= d; mu = -mu; if (!mp) mp = d; if (x % d == 0) { mu = 0; break; } } } EQ(mf(i), mu); EQ(mf[i], mu); EQ(mf.mobius(i), mu); if (i >= 2) EQ(mf.min_prime_factor(i), mp); EQ(mf.is_prime(i), i >= 2 && mp == i); check_fact(mf.factorize(i), i, true); } EQ(mf.is_prime(0), false); LOG(N); (void)rng; }
SCENARIO(mobius_function, 12) { switch (rng(0, 5)) { case 0: mob_case<1>(rng); break; case 1: mob_case<2>(rng); break; case 2: mob_case<36>(rng); break; case 3: mob_case<1000>(rng); break; case 4: mob_case<2309>(rng); break; default: mob_case<2310>(rng); } }
template <class MG, class I> static void mont_case(Rng& rng) {
    constexpr int B = sizeof(I) * 8; I n = any_u64(rng, B) | 1; if (rng.pct(20)) n = I(~I(0)) - 2 * rng(0, 5); LOG((u64)n); MG mg(n); auto val = [&](I x) { return (u64)mg.reduce(x); };
    for (int k = 0; k < 12; ++k) { I a = rng.u() % n, b = rng.u() % n; if (rng.pct(20)) a = n - 1; if (rng.pct(20)) b = n - 1; if (rng.pct(10)) a = 0; LOG((u64)a, (u64)b); I A = mg.make(a), Bb = mg.make(b); REQUIRE(A < n && Bb < n); EQ(val(A), (u64)a); EQ((u64)A, (u64)(((u128)a << B) % n)); EQ(val(mg.mul(A, Bb)), mulm(a, b, n)); EQ(val(mg.add(A, Bb)), (u64)(((u128)a + b) % n)); EQ(val(mg.sub(A, Bb)), (u64)(((u128)a + n - b) % n)); i64 e = any_u64(rng, 63); EQ(val(mg.pow(A, e)), powm(a, e, n)); EQ(val(mg.pow(A, 0)), u64(1 % n)); }
}
SCENARIO(montgomery, 400) { mont_case<Montgomery32, uint32_t>(rng); mont_case<Montgomery64, uint64_t>(rng); }
SCENARIO(barrett, 400) { u32 m = rng.pct(10) ? 1 : rng.pct(20) ? 0x7fffffff - rng(0, 3) : std::max<u32>(1, any_u64(rng, 31)); LOG(m); barrett b(m); EQ(b.umod(), m); EQ(b.mod(), (int)m); for (int k = 0; k < 30; ++k) { u64 x = rng.pct(20) ? ~0ULL - rng(0, 3) : any_u64(rng); if (rng.pct(30)) { x = x / m * m; if (rng.coin() && x) --x; } LOG(x); EQ(b.quo(x), x / m); EQ((u64)b.rem(x), x % m); auto [q, r] = b.quorem(x); EQ(q, x / m); EQ((u64)r, x % m); if (m != 1) { EQ(b.quo<false>(x), x / m); EQ((u64)b.rem<false>(x), x % m); } u32 u = rng.u(), v = rng.u(); EQ((u64)b.mul(u, v), (u64)u * v % m); } barrett d; EQ(d.umod(), 1u); EQ((u64)d.rem(rng.u()), 0ULL); }
// the same workloads at realistic sizes
RESCALE(linear_sieve, 4, 32);
