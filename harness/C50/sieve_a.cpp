// C50: wheel sieves
#include "mon.hpp"
#include "library/number/sieve_of_eratosthenes.hpp"
#include "library/number/sieve_of_eratosthenes_constexpr.hpp"
using namespace mon; using namespace suisen;
static bool ref_prime(u64 n) { if (n < 2) return false; for (u64 d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }
template <class T> static void check_fact(const std::vector<std::pair<T, int>>& f, u64 n, bool sorted) { u64 prod = 1; std::set<u64> seen; u64 last = 0; for (auto [p, c] : f) { REQUIRE(c >= 1); REQUIRE(ref_prime(p), "factor not prime", p); REQUIRE(seen.insert(p).second, "prime repeated", p); if (sorted) REQUIRE(u64(p) > last, "not ascending"); last = p; for (int i = 0; i < c; ++i) prod *= p; } EQ(prod, n); }
template <int N> static void sieve_case(Rng& rng) {
    static SimpleSieve<N> ss; static Sieve<N> sv; static const SimpleSieveConstexpr<N> sc; static const SieveConstexpr<N> vc;
    std::vector<bool> pr(N + 1, true); pr[0] = false; if (N >= 1) pr[1] = false; for (i64 i = 2; i * i <= N; ++i) if (pr[i]) for (i64 j = i * i; j <= N; j += i) pr[j] = false;
    std::vector<int> pl; for (int i = 0; i <= N; ++i) { if (pr[i]) pl.push_back(i); bool e = pr[i]; if (i > 5000 && ss.is_prime(i) == e && sv.is_prime(i) == e && sc.is_prime(i) == e && vc.is_prime(i) == e) { if (int p = sv.prime_factor(i), q = vc.prime_factor(i); i % p == 0 && pr[p] && i % q == 0 && pr[q]) continue; } EQ(ss.is_prime(i), e); EQ(sv.is_prime(i), e); EQ(sc.is_prime(i), e); EQ(vc.is_prime(i), e); if (i >= 2) { int p = sv.prime_factor(i), q = vc.prime_factor(i); REQUIRE(i % p == 0 && pr[p], "prime_factor", N, i, p); REQUIRE(i % q == 0 && pr[q]); } }
    EQV(ss.prime_list(), pl); int m = rng(0, N); LOG(N, m); auto pm = pl; while (pm.size() && pm.back() > m) pm.pop_back(); EQV(ss.prime_list(m), pm);
    for (int k = 0; k < 30 && N >= 1; ++k) { int n = k ? rng(1, N) : N; check_fact(sv.factorize(n), n, false); auto d = sv.divisors(n); std::set<int> s(d.begin(), d.end()); EQ(d.size(), s.size()); size_t c = 0; if (n <= 3000) { for (int j = 1; j <= n; ++j) c += n % j == 0; EQ(c, s.size()); } for (int x : s) REQUIRE(n % x == 0); }
}
template <int... N> static void sieve_any(Rng& rng, std::integer_sequence<int, N...>) { using F = void (*)(Rng&); static const F f[] = { sieve_case<N>... }; f[rng(0, sizeof...(N) - 1)](rng); }
SCENARIO(sieves, 100) { sieve_any(rng, std::integer_sequence<int, 1, 2, 5, 6, 10, 30, 31, 49, 59, 120, 169, 359, 841, 900, 8280, 65536>{}); }
SCENARIO(sieve_large, 2, 1) { sieve_case<1000000>(rng); }
