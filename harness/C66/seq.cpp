// MON: shards=6
#include "mon.hpp"
#include <algorithm>
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/fps.hpp"
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "library/sequence/bell_number.hpp"
#include "library/sequence/bernoulli_number.hpp"
#include "library/sequence/binomial_coefficient.hpp"
#include "library/sequence/binomial_coefficient_small_prime_mod.hpp"
#include "library/sequence/binomial_coefficient_small_r_offline.hpp"
#include "library/sequence/binomial_coefficitnt_enumeration.hpp"
#include "library/sequence/eulerian_number.hpp"
#include "library/sequence/montmort_number.hpp"
#include "library/sequence/partition_number.hpp"
#include "library/sequence/powers.hpp"
#include "library/sequence/stirling_number1.hpp"
#include "library/sequence/stirling_number1_small_prime_mod.hpp"
#include "library/sequence/stirling_number2.hpp"
#include "library/sequence/stirling_number2_small_prime_mod.hpp"
#include "library/sequence/sum_of_powers.hpp"
#include "model.hpp"
using namespace suisen;
using mint = atcoder::modint998244353;
using m7 = atcoder::modint1000000007;
using V = std::vector<u64>;
using Mx = std::vector<V>;
using F9 = FormalPowerSeries<mint>;
using F7 = FPS<m7>;
static bool init7 = (F7::set_multiplication([](const auto& a, const auto& b) { return arbitrary_mod_convolution<m7>(a, b); }), true);
constexpr u64 P9 = 998244353, P7 = 1000000007;
static u64 pw(u64 a, u64 e, u64 p) { u64 r = 1 % p; a %= p; for (; e; e >>= 1, a = (u128)a * a % p) if (e & 1) r = (u128)r * a % p; return r; }

// triangles by their combinatorial recurrences, row n has entries 0..n
static V binrow(int n, u64 p) { V r{ 1 % p }; for (int i = 1; i <= n; ++i) { r.push_back(0); for (int j = i; j >= 1; --j) r[j] = (r[j] + r[j - 1]) % p; } return r; }
static V s1row(int n, u64 p) { V r{ 1 % p }; for (int i = 0; i < n; ++i) { V t(i + 2); for (int j = 0; j <= i; ++j) t[j + 1] = (t[j + 1] + r[j]) % p, t[j] = (t[j] + r[j] * (i % p)) % p; r = t; } return r; }
static V s2row(int n, u64 p) { V r{ 1 % p }; for (int i = 0; i < n; ++i) { V t(i + 2); for (int j = 0; j <= i; ++j) t[j + 1] = (t[j + 1] + r[j]) % p, t[j] = (t[j] + r[j] * (j % p)) % p; r = t; } return r; }
static V eurow(int n, u64 p) { V r; if (n) r = { 1 % p }; for (int i = 1; i < n; ++i) { V t(i + 1); for (int j = 0; j < i; ++j) t[j] = (t[j] + r[j] * ((j + 1) % p)) % p, t[j + 1] = (t[j + 1] + r[j] * ((i - j) % p)) % p; r = t; } return r; }
static int len(mon::Rng& rng) { return rng.pct(15) ? rng(100, 400) : rng.pct(30) ? rng(40, 80) : rng.size(0, 40); }

template <class F, u64 P> static void dense(mon::Rng& rng) {
    using M = typename F::value_type; int n = len(rng); LOG("n", n);
    switch (rng(0, 7)) {
    case 0: { LOG("bell"); V b{ 1 }; for (int i = 0; i < n; ++i) { V c = binrow(i, P); u64 s = 0; for (int j = 0; j <= i; ++j) s = (s + c[j] * b[j]) % P; b.push_back(s); } EQV(un(bell_number<F>(n)), b); break; }
    case 1: { LOG("bernoulli"); auto b = un(bernoulli_number<F>(n)); EQ((int)b.size(), n + 1); /* sum_j C(m+1,j) B_j = [m=0] */ for (int m = 0; m <= n; ++m) { V c = binrow(m + 1, P); u64 s = 0; for (int j = 0; j <= m; ++j) s = (s + c[j] * b[j]) % P; EQ(s, u64(m == 0), m); if (n > 60 && m > 20) m += rng(0, 40); } break; }
    case 2: { LOG("eulerian"); EQV(un(eulerian_number<F>(n)), eurow(n, P)); break; }
    case 3: { LOG("partition"); V d(n + 1); d[0] = 1; for (int k = 1; k <= n; ++k) for (int j = k; j <= n; ++j) d[j] = (d[j] + d[j - k]) % P; EQV(un(partition_number<F>(n)), d); break; }
    case 4: { LOG("stirling1"); V r = s1row(n, P); EQV(un(stirling_number1<F>(n)), r); std::reverse(r.begin(), r.end()); EQV(un(stirling_number1_reversed<F>(n)), r); break; }
    case 5: { LOG("stirling2"); EQV(un(stirling_number2<F>(n)), s2row(n, P)); break; }
    case 6: { int k = std::min<int>(n, 80); i64 t = rng.wide(200); if (rng.pct(10)) t = rng(0, 20000); LOG("sum_of_powers", t, k); V w(k + 1); for (i64 i = 1; i <= t; ++i) { u64 q = 1; for (int e = 0; e <= k; ++e) w[e] = (w[e] + q) % P, q = q * i % P; } EQV(un(sum_of_powers<F>(t, k)), w); if (rng.coin()) EQV(un(sum_of_powers<F>(t, k, bernoulli_number<F>(k + 1 + (int)rng(0, 5)))), w); break; }
    default: { u64 k = rng.pct(30) ? rng(0, 3) : rng.wide(INT64_MAX); LOG("powers", k); V w; for (int i = 0; i <= n; ++i) w.push_back(pw(i, k, P)); EQV(un(powers<M>(n, k)), w); }
    } }
SCENARIO(dense_998, 300, 4) { dense<F9, P9>(rng); }
SCENARIO(dense_1e9p7, 150, 4) { dense<F7, P7>(rng); }
SCENARIO(dense_fps998, 100, 4) { using G = FPS<mint>; G::set_multiplication([](const auto& a, const auto& b) { return atcoder::convolution(a, b); }); dense<G, P9>(rng); }
SCENARIO(tables, 60) { int n = len(rng) / 4; LOG(n); auto b = binom_table<mint>(n); EQ((int)b.size(), n + 1); auto bi = binom_table<u64>(std::min(n, 62)); for (int i = 0; i <= n; ++i) { V r = binrow(i, P9); r.resize(n + 1); EQV(un(b[i]), r); if (i <= 60 && i < (int)bi.size()) for (int j = 0; j <= i; ++j) { i128 c = 1; for (int t = 1; t <= j; ++t) c = c * (i - t + 1) / t; EQ(bi[i][j], (u64)c, i, j); } } auto s1 = stirling_number1_table<mint>(n), s2 = stirling_number2_table<mint>(n), e = eulerian_number_table<mint>(n); EQ((int)s1.size(), n + 1); EQ((int)s2.size(), n + 1); EQ((int)e.size(), n ? n + 1 : 0); for (int i = 0; i <= n; ++i) { EQV(un(s1[i]), s1row(i, P9)); EQV(un(s2[i]), s2row(i, P9)); if (n) EQV(un(e[i]), eurow(i, P9)); } }
SCENARIO(montmort, 100) { int n = len(rng); V d{ 1 }; /* n! = sum C(n,k) D_k */ u64 f = 1; for (int i = 1; i <= n; ++i) { f = f * i % P9; V c = binrow(i, P9); u64 s = f; for (int k = 0; k < i; ++k) s = (s + (P9 - c[k]) * d[k]) % P9; d.push_back(s); if (i > 120) break; } auto g = un(montmort_number<mint>(n)); EQ((int)g.size(), n + 1); for (size_t i = 0; i < d.size(); ++i) EQ(g[i], d[i], i); }
// S1[n, n-i] for huge n: e_i(0,1,..,n-1); checked by the recurrence for small n and as polynomial identity S1[n+1,n+1-i] = S1[n,n-i] + n S1[n,n+1-i] for large n
template <class M> static void s1long(mon::Rng& rng, u64 p) { int k = rng.size(0, 30); i64 n = rng.coin() ? rng.wide(60) : rng.wide(1000000000000000000LL); k = std::min<i64>(k, p - 2); LOG(n, k, p); V g = un(stirling_number1_reversed<M>((long long)n, k)); EQ((int)g.size(), k + 1); if (n <= 3000) { V r = s1row(n, p); std::reverse(r.begin(), r.end()); r.resize(k + 1); EQV(g, r); } V h = un(stirling_number1_reversed<M>((long long)n + 1, k)); for (int i = 0; i <= k; ++i) EQ(h[i], (g[i] + (i ? (u64)n % p * g[i - 1] : 0)) % p, i); EQ(g[0], 1u); if (k >= 1) { i128 t = (i128)n * (n - 1) / 2; EQ(g[1], (u64)(t % p)); } }
SCENARIO(stirling1_long, 300) { switch (rng(0, 2)) { case 0: s1long<mint>(rng, P9); break; case 1: s1long<m7>(rng, P7); break; default: s1long<atcoder::static_modint<101>>(rng, 101); } }

// ---- small prime moduli
template <int P> static void smallp(mon::Rng& rng) { using M = atcoder::static_modint<P>; BinomialCoefficientSmallPrimeMod<M> B; StirlingNumber1SmallPrimeMod<M> S1; StirlingNumber2SmallPrimeMod<M> S2; static Mx b, s1, s2; const int L = std::max(140, 3 * P); if (b.empty()) { for (int i = 0; i <= L; ++i) b.push_back(binrow(i, P)); s1.push_back({ 1 }); s2.push_back({ 1 }); for (int i = 0; i < L; ++i) { V t(i + 2), u(i + 2); for (int j = 0; j <= i; ++j) t[j + 1] = (t[j + 1] + s1[i][j]) % P, t[j] = (t[j] + s1[i][j] * i) % P, u[j + 1] = (u[j + 1] + s2[i][j]) % P, u[j] = (u[j] + s2[i][j] * j) % P; s1.push_back(t), s2.push_back(u); } }
    LOG(P); for (int t = 0; t < 200; ++t) { int n = rng(0, L), k = rng(-2, n + 2); LOG(n, k); u64 wb = k < 0 || k > n ? 0 : b[n][k], w1 = k < 0 || k > n ? 0 : s1[n][k], w2 = k < 0 || k > n ? 0 : s2[n][k]; EQ(B(n, k).val(), wb); EQ(S1(n, k).val(), w1); EQ(S2(n, k).val(), w2); }
    for (int t = 0; t < 30; ++t) { i64 n = rng.wide(1000000000000000000LL); i64 k = rng.coin() ? rng.wide(n) : n - rng.wide(n); if (rng.pct(30)) { k = 0; i64 q = 1; for (i64 x = n; x; x /= P, q *= P) { k += q * rng(0, x % P); if (q > 1000000000000000000LL / P) break; } } LOG(n, k); if (n >= 1 && k >= 0 && k <= n) { /* triangle recurrences at the huge arguments */ EQ((B(n, k)).val(), (B(n - 1, k - 1) + B(n - 1, k)).val()); EQ((S1(n, k)).val(), (S1(n - 1, k - 1) + M((n - 1) % P) * S1(n - 1, k)).val()); EQ((S2(n, k)).val(), (S2(n - 1, k - 1) + M(k % P) * S2(n - 1, k)).val()); EQ(B(n, k).val(), B(n, n - k).val()); } EQ(B(n, 0).val(), 1u); EQ(B(n, n).val(), 1u); EQ(S1(n, n).val(), 1u); EQ(S2(n, n).val(), 1u); EQ(B(n, 1).val(), (u64)n % P); if (n >= 1) EQ(S2(n, 1).val(), 1u); /* Lucas by digits */ u64 w = 1; for (i64 x = n, y = k; x || y; x /= P, y /= P) w = y < 0 ? 0 : x % P < y % P ? 0 : w * b[x % P][y % P] % P; EQ(B(n, k).val(), k < 0 || k > n ? 0 : w); } }
SCENARIO(small_prime, 120) { switch (rng(0, 9)) { case 0: smallp<2>(rng); break; case 1: smallp<3>(rng); break; case 2: smallp<5>(rng); break; case 3: smallp<7>(rng); break; case 4: smallp<11>(rng); break; case 5: smallp<13>(rng); break; case 6: smallp<31>(rng); break; case 7: smallp<97>(rng); break; case 8: smallp<127>(rng); break; default: smallp<257>(rng); } }
// ---- binomials modulo any m with small prime powers
static u64 binmod(i64 n, i64 k, u64 m) { /* exact prime factorisation of C(n,k), small k only */ if (k < 0 || k > n) return 0; k = std::min(k, n - k); std::vector<i64> num; for (i64 i = 0; i < k; ++i) num.push_back(n - i); for (i64 d = 2; d <= k; ++d) { i64 x = d; for (auto& v : num) { i64 g = std::__gcd(v, x); v /= g, x /= g; if (x == 1) break; } } u64 r = 1 % m; for (i64 v : num) r = (u128)r * (v % m) % m; return r; }
SCENARIO(binom_small_mod, 150) { u64 m; switch (rng(0, 5)) { case 0: m = rng(1, 64); break; case 1: m = rng(1, 100000); break; case 2: { m = 1; static const int ps[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 97 }; while (true) { u64 q = ps[rng(0, 9)]; if (m * q > 2000000000ULL) break; u64 t = m * q, pp = 1; while (t % q == 0) t /= q, pp *= q; if (pp > 300000) break; m *= q; if (rng.pct(10)) break; } break; } case 3: m = 1u << rng(0, 18); break; case 4: m = pw(3, rng(1, 11), 1000000007); break; default: m = (u64)rng(1, 300) * rng(1, 300); } LOG(m); binom_small_mod B((int)m); if (m == 1) B = binom_small_mod(); for (int t = 0; t < 60; ++t) { i64 n, k; if (rng.coin()) { n = rng(0, 200), k = rng(-2, n + 2); } else { n = rng.pct(90) ? rng.wide(INT64_MAX) : INT64_MAX - rng(0, 3); k = rng(-1, 40); if (k >= 0 && rng.coin()) k = n - k; } LOG(n, k); EQ((u64)B(n, k), binmod(n, k, m)); }
    for (int t = 0; t < 20; ++t) { i64 n = rng.wide(INT64_MAX - 1) , k = rng.wide(n); if (n >= 1 && k >= 1) EQ((u64)B(n, k), ((u64)B(n - 1, k - 1) + (u64)B(n - 1, k)) % m, n, k, m); } }
// n! with the factors p removed, modulo p^q, by the definition (Granville); Legendre for the exponent
struct PPow { u64 p, m; std::vector<u64> f; PPow(u64 p, u64 m) : p(p), m(m), f(m) { f[0] = 1 % m; for (u64 i = 1; i < m; ++i) f[i] = i % p ? f[i - 1] * i % m : f[i - 1]; }
    u64 part(u64 n) const { u64 r = 1 % m; for (; n; n /= p) r = r * pw(f[m - 1], n / m, m) % m * f[n % m] % m; return r; } static u64 leg(u64 n, u64 p) { u64 e = 0; while (n) n /= p, e += n; return e; }
    u64 inv(u64 a) const { i64 x = 1, y = 0, b = m, t = a; while (b) { i64 q = t / b; t -= q * b, std::swap(t, b); x -= q * y, std::swap(x, y); } return ((x % (i64)m) + (i64)m) % (i64)m; }
    u64 binom(u64 n, u64 k) const { u64 e = leg(n, p) - leg(k, p) - leg(n - k, p), r = 1 % m; for (u64 i = 0; i < e && r; ++i) r = r * p % m; return r * part(n) % m * inv(part(k)) % m * inv(part(n - k)) % m; } };
SCENARIO(binom_small_mod_any_k, 60) { static const int ps[] = { 2, 3, 5, 7, 11, 13, 29, 97, 101, 1009, 10007, 65537, 70001, 100003, 262147 }; std::map<u64, u64> pp; u64 m = 1; int c = rng(1, 4); for (int i = 0; i < 40 && (int)pp.size() < c; ++i) { u64 p = ps[rng(0, 14)]; if (pp.count(p)) continue; u64 x = p; if (m * x > 2000000000ULL) continue; while (x * p <= 300000 && m * x * p <= 2000000000ULL && rng.pct(60)) x *= p; pp[p] = x; m *= x; } LOG(m); binom_small_mod B((int)m); std::vector<PPow> o; for (auto [p, x] : pp) o.emplace_back(p, x); for (int t = 0; t < 60; ++t) { i64 n = rng.coin() ? rng.wide(INT64_MAX) : rng(0, INT64_MAX), k = rng.coin() ? rng(0, n) : (i64)rng.wide(n); if (rng.pct(30)) { auto& q = rng.pick(o); int d = rng(0, 3); u64 P = 1; while (d-- && P < (1ULL << 40)) P *= q.p; n = n / P * P + rng(0, 2), k = std::min<i64>(n, k / P * P + rng(0, 2)); if (n < 0) n = INT64_MAX, k = n / 2; } int g = B(n, k); REQUIRE(0 <= g && (u64)g < m, g); for (auto& q : o) EQ((u64)g % q.m, q.binom(n, k), n, k, q.p); } }
SCENARIO(binom_small_mod_big, 2) { u64 m = rng.coin() ? 19999999 : 16777216; if (rng.pct(30)) m = 14348907; LOG(m); binom_small_mod B((int)m); for (int t = 0; t < 60; ++t) { i64 n = rng.wide(INT64_MAX), k = rng(0, 40); EQ((u64)B(n, k), binmod(n, k, m), n, k); } }
struct DynTag {}; using dyn = atcoder::dynamic_modint<66>;
SCENARIO(enumeration, 300) { u64 m = rng.pct(10) ? 1 : rng.coin() ? rng(1, 200) : rng.wides(1, 2000000000); if (rng.pct(25)) m = 720720; dyn::set_mod(m); int n = len(rng); LOG(n, m); ArbitraryModBinomialCoefficients<dyn> A(n); V w = binrow(n, m); EQV(un(A.get_coeffs()), w); for (int k = 0; k <= n; ++k) EQ(A[k].val(), w[k]); (void)A.get_sieve(); }
// ---- offline queries with small r
SCENARIO(small_r_offline, 250) { int q = rng.size(0, 40); if (rng.pct(10)) q = rng(100, 300); i64 R = rng.pct(60) ? rng(0, 20) : rng(0, 300); std::vector<std::pair<long long, int>> qs; V w; for (int i = 0; i < q; ++i) { int r = rng(0, R); if (rng.pct(20)) r = (1 << rng(0, 8)) % (R + 1); i64 n = rng.pct(50) ? rng.wide(1000000000000000000LL) : rng(0, 2 * R + 2); if (rng.pct(5)) n = P9 * rng(0, 3) + rng(0, 5); qs.push_back({ n, r }); u64 v = 1; for (int t = 0; t < r; ++t) v = v * ((u64)(((n - t) % (i64)P9 + (i64)P9) % (i64)P9)) % P9 * pw(t + 1, P9 - 2, P9) % P9; w.push_back(v); } LOG(q, R); EQV(un(binomial_coefficient_small_r_offline<mint>(qs)), w); }
// the same workloads at realistic sizes
RESCALE(stirling1_long, 4, 32);
RESCALE(small_r_offline, 4, 512);
RESCALE(montmort, 4, 16);
