// MON: shards=2
// C51: square roots, discrete logarithms, orders and primitive roots
#include "mon.hpp"
#include "library/number/discrete_logarithm.hpp"
#include "library/number/fast_discrete_logarithm.hpp"
#include "library/number/mod_sqrt.hpp"
#include "library/number/modint.hpp"
#include "library/number/order_Z_mZ.hpp"
#include "library/number/primitive_root.hpp"
using namespace mon; using namespace suisen;
static u64 powm(u64 a, u64 e, u64 m) { u64 r = 1 % m; a %= m; for (; e; e >>= 1, a = (u128)a * a % m) if (e & 1) r = (u128)r * a % m; return r; }
static bool ref_prime(u64 n) { if (n < 2) return false; for (u64 p : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) if (n % p == 0) return n == p; u64 d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, ++s; for (u64 a : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) { u64 x = powm(a, d, n); if (x == 1 || x == n - 1) continue; bool ok = false; for (int i = 1; i < s && !ok; ++i) { x = (u128)x * x % n; ok = x == n - 1; } if (!ok) return false; } return true; }
static u64 a_prime(Rng& rng, u64 lim) { static const u64 sp[] = { 2, 3, 5, 7, 17, 97, 193, 257, 769, 12289, 65537, 40961, 998244353, 469762049, 2013265921, 3221225473ULL, 4179340454199820289ULL /* 29*2^57+1 */, 180143985094819841ULL /* 5*2^55+1 */, 4611686018326724609ULL, 2147483647, 1000000007, 1004535809, 9007199254740881ULL, 1000000000000000003ULL }; if (rng.pct(30)) { u64 p = sp[rng(0, std::size(sp) - 1)]; if (p <= lim && ref_prime(p)) return p; } if (rng.pct(20)) { int e = rng(1, 40); for (int t = 0; t < 2000; ++t) { u64 k = rng(1, 2000), p = (k << e) + 1; if ((p - 1) >> e == k && p <= lim && ref_prime(p)) return p; } } u64 p = rng.wides(2, std::min<u64>(lim, INT64_MAX)); while (!ref_prime(p)) { if (++p > lim) p = 2; } return p; }
static std::vector<std::pair<i64, int>> fac(i64 n) { std::vector<std::pair<i64, int>> r; for (i64 d = 2; d * d <= n; ++d) if (n % d == 0) { int c = 0; while (n % d == 0) n /= d, ++c; r.push_back({ d, c }); } if (n > 1) r.push_back({ n, 1 }); return r; }
SCENARIO(prime_mod_sqrt, 500) { for (int t = 0; t < 4; ++t) { i64 p = a_prime(rng, rng.coin() ? 1000 : 1ULL << 62); i64 x = rng.u() % p; i64 a = rng.coin() ? (i64)((u128)x * x % p) : (i64)(rng.u() % p); if (rng.pct(20)) a = a ? a - p : 0; LOG(p, a); auto s = prime_mod_sqrt(a, p); i64 A = (a % p + p) % p; bool res = A == 0 || p == 2 || powm(A, (p - 1) / 2, p) == 1; EQ(s.has_value(), res); if (s) { REQUIRE(0 <= *s && *s < p); EQ((i64)((u128)*s * *s % p), A); } } }
SCENARIO(composite_mod_sqrt, 500) {
    { i64 m = rng.coin() ? rng(1, 300) : 1 << rng(0, 8); auto f = fac(m); i64 a = rng(-m, m); LOG(a, m); std::optional<i64> s = composite_mod_sqrt(a, f); bool e = false; i64 A = (a % m + m) % m; for (i64 x = 0; x < m && !e; ++x) e = x * x % m == A; EQ(s.has_value(), e); if (s) { REQUIRE(0 <= *s && *s < m); EQ(*s * *s % m, A); } }
    { i64 m = 1; std::vector<std::pair<i64, int>> f; std::set<i64> used; for (int k = rng(1, 4); k--;) { i64 p = rng.coin() ? std::vector<i64>{ 2, 3, 5, 7, 11 }[rng(0, 4)] : (i64)a_prime(rng, rng.coin() ? 1 << 20 : 1LL << 40); if (used.count(p)) continue; int q = 0; i64 lim = 1LL << 61; int want = rng(1, 40); while (q < want && m <= lim / p) m *= p, ++q; if (q) f.push_back({ p, q }), used.insert(p); } i64 x = rng.u() % m; if (rng.pct(40) && f.size()) { i64 p = f[0].first; for (int k = rng(0, 20); k-- && x <= m / p;) x *= p; x %= m; } i64 a = (i64)((u128)x * x % m); if (rng.pct(25)) a -= m; LOG(a, m); for (auto [p, q] : f) LOG("p", p, q); auto s = composite_mod_sqrt(a, f); REQUIRE(s.has_value(), "square has no root"); REQUIRE(0 <= *s && *s < m); EQ((i64)((u128)*s * *s % m), (i64)((a % m + m) % m)); }
}
static int ref_dlog(i64 a, i64 b, i64 m) { i64 v = 1 % m; for (int i = 0; i <= m; ++i) { if (v == b % m) return i; v = v * a % m; } return -1; }
using DM = dynamic_modint<51>;
static void big_dlog(i64 a, i64 b, i64 m, i64 got, i64 ord_hint) { (void)ord_hint; if (got >= 0) EQ((i64)powm(a, got, m), b % m); }
SCENARIO(discrete_logarithm, 300) { for (int t = 0; t < 6; ++t) { i64 m = rng.coin() ? rng(1, 130) : rng.size(1, 3000); if (rng.pct(20)) m = 1 << rng(0, 10); if (rng.pct(20)) { do m = rng(65, 5000); while (!ref_prime(m)); } i64 a = rng.u() % m, b = rng.coin() ? (i64)powm(a, rng.u() % m, m) : (i64)(rng.u() % m); LOG(a, b, m); int e = ref_dlog(a, b, m); DM::set_mod(m); EQ(discrete_logarithm(DM(a), DM(b)), e); EQ(DM::mod(), (int)m); EQ(fast_discrete_logarithm::discrete_logarithm(a, b, m), e); if (std::gcd(a, m) == 1) EQ(discrete_logarithm_coprime(DM(a), DM(b)), e); if (ref_prime(m)) { EQ(fast_discrete_logarithm::IndexCalculus::discrete_logarithm(a, b, m), e); EQ(fast_discrete_logarithm::IndexCalculus::discrete_logarithm(a - m, b - m, m), e); } } }
static i64 ref_order(i64 a, i64 m, i64 mult) { i64 o = mult; for (auto [p, c] : fac(mult)) for (int i = 0; i < c; ++i) if (powm(a, o / p, m) == u64(1 % m)) o /= p; return o; }
static i64 ref_phi(i64 m) { i64 r = m; for (auto [p, c] : fac(m)) r = r / p * (p - 1); return r; }
SCENARIO(discrete_logarithm_big, 120) { i64 m = rng.coin() ? INT_MAX - rng(0, 200) : rng.wides(1 << 16, INT_MAX); if (rng.coin()) m = a_prime(rng, INT_MAX); if (rng.pct(20)) { i64 p = a_prime(rng, 2000); m = p; while (m <= INT_MAX / p) m *= p; } i64 a = rng.u() % m; if (rng.pct(20)) a = rng(0, 3); a %= m; i64 k = rng.u() % m, b = powm(a, k, m); LOG(a, b, m, "known exponent", k); i64 g = fast_discrete_logarithm::discrete_logarithm(a, b, m); REQUIRE(g >= 0 && g <= k, "exponent exists but not found or not minimal", g); EQ((i64)powm(a, g, m), b); DM::set_mod(m); EQ((i64)discrete_logarithm(DM(a), DM(b)), g); EQ((i64)DM::mod(), m); if (std::gcd(a, m) == 1) { i64 o = ref_order(a, m, ref_phi(m)); EQ(g, k % o); } i64 c = rng.u() % m; LOG("c", c); i64 h = fast_discrete_logarithm::discrete_logarithm(a, c, m), h2 = discrete_logarithm(DM(a), DM(c)); EQ(h, h2); if (h >= 0) EQ((i64)powm(a, h, m), c); if (std::gcd(a, m) == 1 && std::gcd(c, m) == 1 && ref_prime(m)) { i64 o = ref_order(a, m, m - 1); EQ(h >= 0, powm(c, o, m) == 1); } }
SCENARIO(index_calculus_history, 60) { fast_discrete_logarithm::IndexCalculus ic; std::vector<i64> ps, as; for (int i = rng(1, 2); i--;) ps.push_back(a_prime(rng, rng.coin() ? 1 << 14 : INT_MAX)); as = { 2, (i64)(rng.u() % 1000000) }; i64 p = ps[0], a = as[0]; for (int k = 0; k < 8; ++k) { if (rng.pct(15)) p = rng.pick(ps); if (rng.pct(20)) a = rng.pick(as); i64 e = rng.u() % p, b = powm(a, e, p); if (rng.pct(20)) b = rng.u() % p; LOG(a, b, p); int r = ic(a % p, b, p); i64 A = a % p; if (p < 20000) EQ(r, ref_dlog(A, b, p)); else if (A == 0 || b == 0) { if (b == 1) EQ(r, 0); } else { i64 o = ref_order(A, p, p - 1); bool ex = powm(b, o, p) == 1; EQ(r >= 0, ex); if (r >= 0) { EQ((i64)powm(A, r, p), b); REQUIRE(r < o, "not minimal"); } } }
    if (p > 2) { OrderMod<int> om((int)p); fast_discrete_logarithm::IndexCalculus ij(om); i64 A = rng(1, std::min<i64>(p - 1, 100)), e = rng.u() % p, b = powm(A, e, p); LOG(A, b, p); int r = ij(A, b, p); REQUIRE(r >= 0 && (i64)powm(A, r, p) == b); r = ij(A, powm(A, e / 2, p), p); REQUIRE(r >= 0 && powm(A, r, p) == powm(A, e / 2, p)); } }
template <class T> static void order_case(Rng& rng, T m) {
    LOG((i64)m); OrderMod<T> om(m); EQ((i64)om.mod(), (i64)m); auto f = fac(m); EQ(om.is_prime(), ref_prime(m)); i64 phi = ref_phi(m), lam = 1; for (auto [p, c] : f) { i64 t = p - 1; for (int i = 1; i < c; ++i) t *= p; if (p == 2 && c >= 3) t /= 2; lam = std::lcm(lam, t); } EQ((i64)om.totient(), phi); EQ((i64)om.carmichael(), lam); std::set<i64> pf; for (auto [p, c] : fac(lam)) pf.insert(p); auto cp = om.carmichael_prime_factors(); REQUIRE((std::set<i64>(cp.begin(), cp.end()) == pf), "prime factors of carmichael");
    bool cyc = lam == phi; for (int k = 0; k < 12; ++k) { i64 a = m < 40 ? rng(0, 2 * m) : i64(rng.u() % m); LOG(a); bool unit = std::gcd<i64>(a, m) == 1; i64 o = unit ? ref_order(a % m, m, lam) : 0; if (unit) EQ((i64)om(a), o); EQ(om.is_primitive_root(a), unit && o == phi); } if (cyc) { i64 g = om.primitive_root(); REQUIRE(0 < g && g < m); EQ(ref_order(g, m, phi), phi); REQUIRE(std::gcd<i64>(g, m) == 1); g = primitive_root(m); EQ(ref_order(g, m, phi), phi); REQUIRE(std::gcd<i64>(g, m) == 1, "not a unit"); }
}
SCENARIO(order, 300) { i64 m; switch (rng(0, 5)) { case 0: m = rng(2, 60); break; case 1: m = rng.wides(2, INT_MAX); break; case 2: m = a_prime(rng, 1LL << 40); break; case 3: { i64 p = a_prime(rng, rng.coin() ? 20 : 1 << 16); m = p; for (int k = rng(0, 12); k-- && m < (1LL << 40) / p;) m *= p; if (rng.coin()) m *= 2; break; } case 4: m = (rng.coin() ? 1LL << 31 : 1LL << 32) + rng(-30, 30); break; default: m = rng.wides(1LL << 30, 1LL << 42); } if (m <= INT_MAX) order_case<int>(rng, m); order_case<i64>(rng, m); }
// every small modulus
SCENARIO(order_small, 32) { int b = (int)rng.in(0, 31); for (int m = 2 + b; m < 1100; m += 32) { if (m & 1) order_case<int>(rng, m); else order_case<i64>(rng, m); if (m <= 64) order_case<int>(rng, m); } }
// the same workloads at realistic sizes
RESCALE(discrete_logarithm, 4, 512);
