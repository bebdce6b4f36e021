// C50 at the sizes where tables, sieves and floating-point shortcuts run out.
// MON: shards=3
#include "mon.hpp"
#include "library/number/count_square_free.hpp"
#include "library/number/deterministic_miller_rabin.hpp"
#include "library/number/enumerate_quotient.hpp"
#include "library/number/fast_factorize.hpp"
#include "library/number/linear_sieve.hpp"
#include "library/number/mobius_function.hpp"
#include "library/number/util.hpp"
#include "near_pseudoprimes.inc"
using namespace mon; using namespace suisen;
struct Spf { std::vector<int> f; explicit Spf(int n) : f(n + 1) { for (i64 p = 2; p <= n; ++p) if (!f[p]) for (i64 q = p; q <= n; q += p) if (!f[q]) f[q] = (int)p; } };
SCENARIO(near_pseudoprimes, 1, 1) { for (u64 n : NEAR_PSEUDOPRIMES) { EQ(miller_rabin::is_prime(n), false, n); if (n >> 63 == 0) { EQ(miller_rabin::is_prime((i64)n), false, n); } } }
SCENARIO(near_pseudoprimes_factorize, 8) { for (int k = 0; k < 25; ++k) { u64 n = NEAR_PSEUDOPRIMES[rng.in(0, (i64)std::size(NEAR_PSEUDOPRIMES) - 1)]; if (n >> 63) continue; LOG(n); auto f = fast_factorize::factorize((i64)n); EQ(f.size(), (size_t)2); EQ((u64)f[0].first * (u64)f[1].first, n); EQ(f[0].second * f[1].second, 1); REQUIRE(f[0].first > 1 && f[1].first > 1); } }
SCENARIO(prime_power_factorize, 60) { // high powers of primes past the trial-division range
    static const Spf S(70000); auto prime = [&](int lo, int hi) { int p; do p = (int)rng.in(lo, hi); while (S.f[p] != p); return (i64)p; }; for (int t = 0; t < 6; ++t) { std::map<i64, int> w; i64 n = 1; int k = (int)rng.in(1, 3); for (int i = 0; i < k; ++i) { i64 p = rng.coin() ? prime(97, 130) : rng.coin() ? prime(101, 2000) : prime(2, 65521); for (int e = (int)rng.in(1, 9); e-- && n <= INT64_MAX / p;) n *= p, ++w[p]; } LOG(n); std::map<i64, int> g; auto f = fast_factorize::factorize(n); for (auto [p, c] : f) { REQUIRE(!g.count(p), "prime repeated", p); g[p] = c; } REQUIRE(g == w); EQ(f.size(), w.size()); std::map<i64, int> h; for (auto [p, c] : fast_factorize::factorize((u64)n)) h[(i64)p] += c; REQUIRE(h == w); } }
SCENARIO(util_large_factors, 6) { auto near_prime = [&](i64 lo, i64 hi) { for (i64 p = rng.in(lo, hi) | 1;; p += 2) { bool ok = true; for (i64 d = 3; d * d <= p && ok; d += 2) ok = p % d; if (ok) return p; } }; i64 p = near_prime(4000000, 40000000), q = rng.coin() ? p : near_prime(4000000, 60000000), s = rng.pick(std::vector<i64>{ 1, 2, 12, 17 }), n = p * q * s; LOG(p, q, s); std::map<i64, int> w, g; for (i64 x : { p, q }) ++w[x]; if (s == 12) w[2] = 2, w[3] = 1; else if (s > 1) ++w[s]; i64 last = 0; for (auto [x, c] : factorize(n)) { REQUIRE(x > last); last = x; g[x] = c; } REQUIRE(g == w); i64 phi = n; for (auto [x, c] : w) phi = phi / x * (x - 1); EQ(totient(n), phi); }
SCENARIO(tables_large, 2) {
    int n = (int)rng.in(1000000, 1200000); LOG(n); Spf S(n); auto phi = totient_table(n); LinearSieve ls(n); auto& mpf = ls.get_min_prime_factor(); std::vector<int> pl; std::vector<int> P(n + 1); P[1] = 1; EQ((int)phi.size(), n + 1); for (int i = 2; i <= n; ++i) { int p = S.f[i], r = i / p; P[i] = P[r] * (r % p ? p - 1 : p); EQ(phi[i], P[i]); EQ(mpf[i], p); if (p == i) pl.push_back(i); } EQV(ls.get_prime_list(), pl); for (int k = 0; k < 3000; ++k) { int x = (int)rng.in(1, n); i64 prod = 1; int last = 0; for (auto [p, c] : ls.factorize(x)) { REQUIRE(p > last && S.f[p] == p); last = p; while (c--) prod *= p; } EQ(prod, (i64)x); }
    auto mf = std::make_unique<MobiusFunction<1000003>>(); std::vector<int> mu(1000004); mu[1] = 1; Spf T(1000003); for (int i = 2; i <= 1000003; ++i) { int p = T.f[i], r = i / p; mu[i] = r % p ? -mu[r] : 0; EQ((*mf)(i), mu[i]); EQ(mf->min_prime_factor(i), p); } EQ((*mf)[1], 1); auto dv = divisors_table(200000); i64 tot = 0, want = 0; for (int i = 1; i <= 200000; ++i) { tot += (i64)dv[i].size(); want += 200000 / i; for (size_t j = 0; j < dv[i].size(); ++j) REQUIRE(i % dv[i][j] == 0 && (!j || dv[i][j - 1] < dv[i][j])); } EQ(tot, want);
}
SCENARIO(quotients_past_2_53, 1) { // every x has n / x exact although n does not fit a double
    i64 k = 100000000 + 2 * rng.in(0, 500000), n = rng.coin() ? k * k - 1 : k * k + (rng.coin() ? k - 1 : k) + (k & 1); LOG(n); i64 h = (i64)sqrtl((long double)n); while (h * h > n) --h; while ((h + 1) * (h + 1) <= n) ++h; i64 m = 2 * h - (h * (h + 1) > n); EQ(quotient_num(n), m); i64 c = 0, bad = -1, last = 0; foreach_quotients(n, [&](i64 q) { if (q <= last && bad < 0) bad = c; last = q; ++c; if (c > m - 2000000 ? q != n / (m - c + 1) : c <= h && q != c) { if (bad < 0) bad = c; } }); EQ(c, m); EQ(bad, (i64)-1); EQ(last, n);
    for (int t = 0; t < 300; ++t) { i64 r = rng.in(1, 3000000000LL), x = r * r + rng.in(-2, 2); if (rng.coin()) x = r * (r + 1) + rng.in(-2, 2); if (x < 1) continue; i64 g = r + 2; while ((i128)g * g > x) --g; EQ(quotient_num(x), 2 * g - ((i128)g * (g + 1) > x), x); }
}
SCENARIO(square_free_steps, 10) { // consecutive counts differ by whether the number is square-free
    i64 i = rng.in(1, 12), k = rng.in(30000000, 120000000), n = i * k * k + (rng.pct(20) ? rng.in(1, 9) : 0); LOG(n); bool sf = true; i64 x = n; if (n % (k * k) == 0) sf = false; for (i64 d = 2; sf && d * d * d <= x; ++d) while (x % d == 0) { x /= d; if (x % d == 0) { sf = false; break; } } if (sf && x > 1) { i64 r = (i64)sqrtl((long double)x); for (i64 y = r - 2; y <= r + 2; ++y) if (y > 1 && y * y == x) sf = false; } EQ(count_square_free(n) - count_square_free(n - 1), (i64)sf); }
