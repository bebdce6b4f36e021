// C51: modint classes, extended gcd, Garner, tetration
#include "mon.hpp"
#include <sstream>
#include "library/number/ext_gcd.hpp"
#include "library/number/garner.hpp"
#include "library/number/modint.hpp"
#include "library/number/modint_2^61m1.hpp"
#include "library/number/tetration_mod.hpp"
using namespace mon; using namespace suisen;
static u64 powm(u64 a, u64 e, u64 m) { u64 r = 1 % m; a %= m; for (; e; e >>= 1, a = (u128)a * a % m) if (e & 1) r = (u128)r * a % m; return r; }
static i64 smod(i128 x, i64 m) { i64 r = x % m; return r < 0 ? r + m : r; }
template <class M> static void mint_ops(Rng& rng, i64 m, bool prime) {
    EQ((i64)M::mod(), m); EQ((i64)M::umod(), m); auto gen = [&]() -> i64 { switch (rng(0, 4)) { case 0: return rng(-3, 3); case 1: return m - rng(0, 2); case 2: return rng.wides(INT64_MIN / 2, INT64_MAX / 2) ; case 3: return rng.coin() ? INT64_MAX : INT64_MIN; default: return rng.u() % m; } };
    for (int k = 0; k < 25; ++k) { i64 a = gen(), b = gen(), A = smod(a, m), B = smod(b, m); LOG(m, a, b); M x(a), y(b); EQ((i64)x.val(), A); EQ((i64)y.val(), B); EQ((i64)(x + y).val(), (A + B) % m); EQ((i64)(x - y).val(), smod(A - B, m)); EQ((i64)(x * y).val(), (i64)((i128)A * B % m)); M z = x; z += y; EQ((i64)z.val(), (A + B) % m); z -= y; EQ((i64)z.val(), A); z *= y; EQ((i64)z.val(), (i64)((i128)A * B % m)); z = x; EQ((i64)(z++).val(), A); EQ((i64)z.val(), (A + 1) % m); EQ((i64)(z--).val(), (A + 1) % m); EQ((i64)z.val(), A); EQ((i64)(--z).val(), smod(A - 1, m)); EQ((i64)(++z).val(), A);
        EQ((i64)M(u64(rng.coin() ? ~0ULL : (u64)a)).val() >= 0, true); EQ((i64)M((u64)a).val(), (i64)((u64)a % (u64)m)); EQ((i64)M((u32)a).val(), (i64)((u32)a % m)); EQ((i64)M((int)a).val(), smod((int)a, m)); EQ((i64)M((short)a).val(), smod((short)a, m)); EQ((i64)M(true).val(), 1 % m); EQ((i64)M((unsigned char)a).val(), (i64)((unsigned char)a % m));
        EQ(x == y, A == B); EQ(x != y, A != B); EQ((i64)M::raw(A).val(), A); i64 e = rng.coin() ? rng(0, 5) : i64(rng.u() >> 1); EQ((i64)x.pow(e).val(), (i64)powm(A, e, m)); EQ((i64)pow(x, e).val(), (i64)powm(A, e, m)); if (std::gcd(A, m) == 1 && (m > 1 || !prime)) { i64 iv = x.inv().val(); REQUIRE((i128)iv * A % m == 1 % m && iv < m, "inverse"); EQ((i64)inv(x).val(), iv); EQ((i64)(y / x).val(), (i64)((i128)B * iv % m)); z = y; z /= x; EQ((i64)z.val(), (i64)((i128)B * iv % m)); EQ((i64)x.xpow(-e).val(), (i64)powm(iv, e, m)); EQ((i64)pow(x, -e).val(), (i64)powm(iv, e, m)); } EQ((i64)x.xpow(e).val(), (i64)powm(A, e, m));
        if (prime) { auto s = mod_sqrt(x); if (A == 0 || m == 2 || powm(A, (m - 1) / 2, m) == 1) { REQUIRE(s.has_value(), "residue has no root"); EQ((i64)((*s) * (*s)).val(), A); EQ((i64)(sqrt(x) * sqrt(x)).val(), A); } else REQUIRE(!s, "root of a non-residue"); }
        std::stringstream ss; ss << x; EQ(ss.str(), std::to_string(A)); std::stringstream s2(std::to_string(a)); M w; s2 >> w; EQ((i64)w.val(), A); }
    EQ((i64)M().val(), 0); EQ((i64)exp(M(0)).val(), 1 % m); if (m > 1) EQ((i64)log(M(1)).val(), 0);
}
template <int m> static void st_case(Rng& rng, bool prime) { mint_ops<static_modint<m>>(rng, m, prime); using M = static_modint<m>; i64 a = rng.u() % m; EQ((i64)(-M(a)).val(), smod(-a, m)); EQ((i64)(+M(a)).val(), a); static_assert(is_modint_v<M> && is_static_modint_v<M> && !is_dynamic_modint_v<M>); i128 big = (i128)(i64)rng.u() * (i64)(rng.u() >> 3); EQ((i64)M(big).val(), smod(big, m)); }
SCENARIO(static_modint, 260) { switch (rng(0, 12)) { case 0: st_case<1>(rng, false); break; case 1: st_case<2>(rng, true); break; case 2: st_case<3>(rng, true); break; case 3: st_case<4>(rng, false); break; case 4: st_case<61>(rng, true); break; case 5: st_case<998244353>(rng, true); break; case 6: st_case<1000000007>(rng, true); break; case 7: st_case<2147483647>(rng, true); break; case 8: st_case<2147483646>(rng, false); break; case 9: st_case<1073741824>(rng, false); break; case 10: st_case<754974721>(rng, true); break; case 11: st_case<1105>(rng, false); break; default: st_case<2147483629>(rng, true); } }
static_assert((modint998244353(3) / modint998244353(7) * modint998244353(7)).val() == 3 && modint1000000007(-1).val() == 1000000006u);
static bool prime(i64 n) { if (n < 2) return false; for (i64 d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }
SCENARIO(dynamic_modint, 300) { using M = dynamic_modint<7>; using N = dynamic_modint<8>; EQ(dynamic_modint<99>::mod(), 998244353); static_assert(is_modint_v<M> && is_dynamic_modint_v<M>); N::set_mod(1000003); for (int k = 0; k < 2; ++k) { i64 m = rng.pct(10) ? 1 : rng.coin() ? rng(1, 50) : rng.coin() ? INT_MAX - rng(0, 20) : rng.wides(1, INT_MAX); LOG("mod", m); M::set_mod(m); mint_ops<M>(rng, m, prime(m)); i128 big = (i128)(i64)rng.u() * (i64)(rng.u() >> 3); EQ((i64)M(big).val(), smod(big, m)); EQ((i64)M((u128)rng.u() << 40).val() < m, true); u128 ub = ((u128)rng.u() << 64) | rng.u(); EQ((i64)M(ub).val(), (i64)(ub % (u128)m)); } EQ(N::mod(), 1000003); EQ((i64)N(1000004).val(), 1); }
SCENARIO(modint61, 300) { const u64 m = (1ULL << 61) - 1; for (int k = 0; k < 30; ++k) { auto g = [&]() -> u64 { switch (rng(0, 4)) { case 0: return rng(0, 3); case 1: return m - rng(0, 3); case 2: return ~0ULL - rng(0, 3); case 3: return (1ULL << rng(0, 63)) - rng(0, 1); default: return rng.u(); } }; u64 a = g(), b = g(), A = a % m, B = b % m; LOG(a, b); modint2p61m1 x(a), y(b); EQ(x.val(), A); EQ((x + y).val(), (u64)(((u128)A + B) % m)); EQ((x - y).val(), (u64)(((u128)A + m - B) % m)); EQ((x * y).val(), (u64)((u128)A * B % m)); EQ(x == y, A == B); i64 e = rng.u() >> rng(1, 60); EQ(x.pow(e).val(), powm(A, e, m)); if (A) EQ((x.inv() * x).val(), 1ULL); auto z = x; z += y; z -= y; EQ(z.val(), A); } EQ(modint2p61m1().val(), 0ULL); EQ(modint2p61m1::mod(), m); }
SCENARIO(ext_gcd, 500) { for (int k = 0; k < 10; ++k) { i64 a = rng.coin() ? rng(-20, 20) : rng.wides(-INT64_MAX, INT64_MAX), b = rng.coin() ? rng(-20, 20) : rng.wides(-INT64_MAX, INT64_MAX); if (rng.pct(20)) { i64 g = rng.wides(1, 1LL << 31); a = a % (1LL << 31) * g; b = b % (1LL << 31) * g; } LOG(a, b); auto [x, y, g] = ext_gcd(a, b); EQ(g, std::gcd(a, b)); REQUIRE((i128)a * x + (i128)b * y == g, "Bezout identity"); if (b > 0) { auto [z, h] = gcd_inv(a, b); EQ(h, g); REQUIRE(0 <= z && z < b); REQUIRE(smod((i128)a % b * z, b) == g % b); if (g == 1) { i64 v = inv_mod(a, b); REQUIRE(0 <= v && v < b); REQUIRE(smod((i128)a % b * v, b) == 1 % b); } EQ(safe_mod(a, b), smod(a, b)); } } }
SCENARIO(garner, 300) { int n = rng.size(0, 8); std::vector<std::pair<int, int>> eq; std::vector<int> ms; for (int i = 0; i < n; ++i) for (int t = 0; t < 20; ++t) { int c = rng.coin() ? rng(1, 60) : rng.coin() ? INT_MAX - rng(0, 50) : rng.wides(1, INT_MAX); bool ok = true; for (int d : ms) ok &= std::gcd(c, d) == 1; if (ok) { ms.push_back(c); break; } }
    // x as mixed-radix number: x mod mi and x mod m computed digit by digit
    std::vector<i64> digit; for (int d : ms) digit.push_back(rng.u() % d); auto val = [&](i64 m) { i128 r = 0; for (int i = (int)ms.size() - 1; i >= 0; --i) r = (r * ms[i] + digit[i]) % m; return (i64)r; }; for (int d : ms) { int r = val(d); if (rng.pct(20) && r > 0) r -= d; eq.push_back({ r, d }); } int m = rng.pct(10) ? 1 : rng.coin() ? 998244353 : rng.wides(1, INT_MAX); for (auto [r, d] : eq) LOG(r, d); LOG("m", m); EQ((i64)garner(eq, m), val(m)); }
// tower: value mod m by the rho of k -> a^k mod m, with huge exponents represented as (min(value, CAP), value mod period)
static int ref_tet(i64 a, i64 b, i64 m) {   // direct cycle finding
    if (m == 1) return 0; if (a == 0) return b % 2 == 0; if (b == 0 || a == 1) return 1 % m;
    std::vector<int> seen(m, -1), seq; i64 v = 1 % m; while (seen[v] < 0) { seen[v] = seq.size(); seq.push_back(v); v = (i128)v * a % m; } i64 st = seen[v], len = (i64)seq.size() - st;
    i128 t = 1; const i128 CAP = (i128)1 << 60; for (i64 i = 0; i < b - 1 && t < CAP; ++i) { i128 u = 1; for (i128 j = 0; j < t && u < CAP; ++j) u *= a; t = u; }
    if (t < CAP) return t < (i128)seq.size() ? seq[(i64)t] : seq[st + (i64)((t - st) % len)];
    i64 r = ref_tet(a, b - 1, len); i64 e = r; while (e < st) e += len; return seq[st + (e - st) % len];
}
SCENARIO(tetration_mod, 250) { for (int k = 0; k < 6; ++k) { i64 a = rng.coin() ? rng(0, 12) : rng.wides(0, INT_MAX), b = rng.coin() ? rng(0, 4) : rng.size(0, 1000000000), m = rng.coin() ? rng(1, 64) : rng.size(1, 20000); if (rng.pct(20)) m = 1 << rng(0, 14); LOG(a, b, m); EQ((i64)tetration_mod(a, b, m), (i64)ref_tet(a, b, m)); } }
// the same workloads at realistic sizes
RESCALE(tetration_mod, 4, 512);
RESCALE(garner, 4, 512);
