// MON: shards=3
#include "mon.hpp"
#include <algorithm>
#include <numeric>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/math/binomial_coefficient_sum.hpp"
#include "library/math/factorial.hpp"
#include "library/math/factorial_embeded.hpp"
#include "library/math/factorial_large.hpp"
#include "library/math/inv_mods.hpp"
#include "library/math/modint_extension.hpp"
#include "library/math/pow_mods.hpp"
#include "library/math/sum_i^d_r^i.hpp"
#include "library/math/util.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; constexpr u64 P9 = 998244353;
using m7 = atcoder::modint1000000007;
using V = std::vector<u64>;
static u64 pw(u64 a, u64 e, u64 p) { u64 r = 1 % p; a %= p; for (; e; e >>= 1, a = (u128)a * a % p) if (e & 1) r = (u128)r * a % p; return r; }
static u64 fact(int n, u64 p) { u64 r = 1 % p; for (int i = 2; i <= n; ++i) r = r * i % p; return r; }
static u64 binom(i64 n, i64 r, u64 p) { if (n < 0 || r < 0 || r > n) return 0; u64 a = 1 % p, b = 1 % p; for (i64 i = 0; i < r; ++i) a = a * ((n - i) % p) % p, b = b * ((i + 1) % p) % p; return a * pw(b, p - 2, p) % p; }
template <class M> static V un(const std::vector<M>& a) { V r; for (auto& x : a) r.push_back(x.val()); return r; }
// ---- factorial tables grow on demand, in any order of requests, and never past the modulus
template <class M, class F> static void fac_ops(mon::Rng& rng, F& f, int maxn) { const u64 p = M::mod(); for (int t = 0; t < 12; ++t) { int n = rng.coin() ? rng.wide(maxn) : rng(0, maxn), r = rng(-2, n + 2); LOG(n, r, p); switch (rng(0, 5)) { case 0: EQ(f.fac(n).val(), fact(n, p)); break; case 1: EQ(f.fac_inv(n).val(), pw(fact(n, p), p - 2, p)); break; case 2: { int a = rng.pct(10) ? -n : n; EQ(f.binom(a, r).val(), n && a < 0 ? 0 : binom(n, r, p)); break; } case 3: EQ(f.perm(n, r).val(), r < 0 || r > n ? 0 : binom(n, r, p) * fact(r, p) % p); break; default: { int a = rng(-1, n + 1), b = rng(-1, n + 1); u64 w = a < 0 || b < 0 || a + b > n ? 0 : binom(n, a, p) * binom(n - a, b, p) % p; EQ(f.polynom(n, a, b).val(), w, a, b); EQ(f.polynom(n, a).val(), binom(n, a, p), a); EQ(f.polynom(-1 - n, a).val(), 0u); } } } }
template <int P> static void fac_small(mon::Rng& rng) { using M = atcoder::static_modint<P>; factorial<M> f; if (rng.coin()) f = factorial<M>((int)rng(0, P - 1)); fac_ops<M>(rng, f, P - 1); EQ(f(P - 1).val(), P - 1u); }
SCENARIO(factorial, 300) { switch (rng(0, 6)) { case 0: { factorial<mint> f; fac_ops<mint>(rng, f, rng.pct(5) ? 5000 : 200); break; } case 1: { factorial<m7> f((int)rng(0, 100)); fac_ops<m7>(rng, f, 300); break; } case 2: fac_small<7>(rng); break; case 3: fac_small<11>(rng); break; case 4: fac_small<101>(rng); break; case 5: fac_small<1009>(rng); break; default: { factorial<long double> f; int n = rng(0, 40); long double w = 1; for (int i = 1; i <= n; ++i) w *= i; NEAR((double)(f.fac(n) / w), 1., 1e-12); NEAR((double)(f.fac_inv(n) * w), 1., 1e-12); factorial<u64, double> g; int m = rng(0, 20); u64 u = 1; for (int i = 1; i <= m; ++i) u *= i; EQ(g.fac(m), u); } } }
template <int P> static void fac_large(mon::Rng& rng) { using M = atcoder::static_modint<P>; using F = factorial_large<M>; static V f; if (f.empty()) { f.resize(P); f[0] = 1; for (int i = 1; i < P; ++i) f[i] = f[i - 1] * i % P; } F::threshold = rng.pct(70) ? 0 : rng.coin() ? 2000000 : rng(0, P); LOG(P, F::threshold); auto at = [&]() -> int { switch (rng(0, 3)) { case 0: return rng(0, P - 1); case 1: return P - 1 - rng(0, std::min(P - 1, 1200)); case 2: return std::min<int>(P - 1, std::max<int>(0, (int)rng(0, P >> 9) * 512 + (int)rng(-3, 3) + 256 * (int)rng(0, 1))); default: return rng.wide(P - 1); } }; for (int t = 0; t < 25; ++t) { int n = at(), r = rng.coin() ? at() : (int)rng(-1, 5); LOG(n, r); EQ((F::fac(n) * F::fac_inv(n)).val(), 1u); EQ(F::fac(n).val(), f[n]); EQ(F::fac((long long)P + rng.wide(1000000000000LL)).val(), 0u); u64 w = r < 0 || r > n ? 0 : f[n] * pw(f[r] * f[n - r] % P, P - 2, P) % P; EQ(F::binom(n, r).val(), w); EQ(F::perm(n, r).val(), r < 0 || r > n ? 0 : f[n] * pw(f[n - r], P - 2, P) % P); EQ(F::polynom(n, r).val(), w); int s = rng(0, n), s2 = rng(0, n - s); EQ(F::polynom(n, s, s2).val(), f[n] * pw(f[s] * f[s2] % P * f[n - s - s2] % P, P - 2, P) % P); EQ(F::polynom(n, n, 1 + (int)rng(0, n)).val(), 0u); EQ(F::polynom(-1, 0).val(), 0u); } }
SCENARIO(factorial_large, 24) { switch (rng(0, 4)) { case 0: fac_large<65537>(rng); break; case 1: fac_large<262147>(rng); break; case 2: fac_large<262139>(rng); break; case 3: fac_large<1009>(rng); break; default: fac_large<524309>(rng); } }
SCENARIO(factorial_large_998, 1) { using F = factorial_large<mint>; LOG("998244353"); /* recurrence, Wilson and reflection instead of a table */ for (int t = 0; t < 12; ++t) { int n = rng(2000001, P9 - 2); if (rng.coin()) n = (int)rng(4000, P9 >> 9) * 512 + (int)rng(-3, 3) + 256 * (int)rng(0, 1); n = std::min<int>(n, P9 - 2); u64 a = F::fac(n).val(); EQ(F::fac(n + 1).val(), a * (n + 1) % P9, n); u64 b = F::fac(P9 - 1 - n).val(); EQ(a * b % P9, n % 2 ? 1 : P9 - 1, n); } EQ(F::fac(P9 - 1).val(), P9 - 1); EQ(F::fac(2000000).val(), fact(2000000, P9)); EQ(F::fac(2000001).val(), fact(2000001, P9)); EQ(F::fac(10000000).val(), fact(10000000, P9)); }
// ---- generated source: compiled and executed
template <int MOD, int B> static void emb(std::string dir, std::vector<i64> ns) { std::ostringstream o; write_embeded_factorial<MOD, B>(o); { std::ofstream f(dir + "/g.cpp"); f << "#include <cstdio>\n" << o.str() << "int main() { long long n; while (scanf(\"%lld\", &n) == 1) printf(\"%d\\n\", factorial_embeded(n)); }\n"; std::ofstream q(dir + "/in"); for (i64 n : ns) q << n << "\n"; } std::string c = "cd " + dir + " && g++ -w -std=gnu++17 -fsanitize=undefined,address -fno-sanitize-recover=all -o g g.cpp && ./g < in > out"; int rc = system(c.c_str()); REQUIRE(rc == 0, "generated source must compile and run", MOD, B, rc); std::ifstream in(dir + "/out"); for (i64 n : ns) { long long v = -1; in >> v; EQ((u64)v, n >= MOD ? 0 : fact(n, MOD), n, MOD, B); } }
SCENARIO(embedded, 2, 3) { char d[] = "/tmp/mon_emb_XXXXXX"; REQUIRE(mkdtemp(d) != nullptr); std::string dir = d; auto rm = [&] { for (auto f : { "g", "g.cpp", "in", "out" }) unlink((dir + "/" + f).c_str()); rmdir(d); }; std::vector<i64> ns; int k = rng(0, 3); i64 m = k == 0 ? 7 : k == 1 ? 1009 : k == 2 ? 1009 : 99991; for (int t = 0; t < 60; ++t) ns.push_back(t < 12 ? std::max<i64>(0, m - 6 + t) : rng(0, m - 1)); ns.push_back(1000000000000000000LL); ns.push_back(0); LOG(k); switch (k) { case 0: emb<7, 3>(dir, ns); break; case 1: emb<1009, 100>(dir, ns); break; case 2: emb<1009, 1008>(dir, ns); break; default: emb<99991, 1000>(dir, ns); } rm(); }
// ---- inverse and power tables
SCENARIO(tables, 200) { { inv_mods<mint> v; if (rng.coin()) v = inv_mods<mint>((int)rng(0, 2000)); for (int t = 0; t < 20; ++t) { int i = rng.coin() ? rng.wides(1, 3000) : rng(1, 60); EQ((v[i] * mint(i)).val(), 1u, i); } } { using M = atcoder::static_modint<101>; inv_mods<M> v((int)rng(0, 100)); for (int i = 1; i <= 100; ++i) EQ((v[i] * M(i)).val(), 1u, i); } std::vector<mint> a(rng.size(0, 30)); for (auto& x : a) x = (unsigned long long)rng(1, P9 - 1); auto b = get_invs(a); EQ(b.size(), a.size()); for (size_t i = 0; i < a.size(); ++i) EQ((a[i] * b[i]).val(), 1u, i); u64 base = rng.pct(20) ? 0 : rng(0, P9 - 1); pow_mods<mint> p(mint((unsigned long long)base), (int)rng(0, 100)); for (int t = 0; t < 20; ++t) { int i = rng.wide(600); EQ(p[i].val(), pw(base, i, P9), i, base); } static_pow_mods<2, mint> s; static_pow_mods<-3, m7> s3((int)rng(0, 50)); for (int t = 0; t < 10; ++t) { int i = rng.wide(900); EQ(s[i].val(), pw(2, i, P9), i); EQ(s3[i].val(), pw(1000000004, i, 1000000007), i); } pow_mods<mint> d; EQ(d[0].val(), 1u); }
// ---- square roots and the conversions used by power series, for static and run-time moduli
using dyn = atcoder::dynamic_modint<67>;
template <class M> static void root(mon::Rng& rng) { const u64 p = M::mod(); for (int t = 0; t < 15; ++t) { u64 a = p < 60 ? t % p : rng(0, p - 1); if (rng.coin()) a = (u128)a * a % p; LOG(p, a); bool ex = a == 0 || p == 2 || pw(a, (p - 1) / 2, p) == 1; auto r = safe_sqrt(M((unsigned long long)a)); EQ(r.has_value(), ex); if (r) { EQ((*r * *r).val(), a); EQ((::sqrt(M((unsigned long long)a)) * ::sqrt(M((unsigned long long)a))).val(), a); } if (a) EQ((::inv(M((unsigned long long)a)) * M((unsigned long long)a)).val(), 1 % p); int e = rng(0, 1000000000); EQ((::pow(M((unsigned long long)a), e)).val(), pw(a, e, p)); EQ(::log(M(1)).val(), 0u); EQ(::exp(M(0)).val(), 1 % p); } }
SCENARIO(sqrt, 300) { static const u64 ps[] = { 2, 3, 5, 7, 11, 13, 17, 97, 193, 257, 65537, 998244353, 1000000007, 167772161, 2147483647, 2113929217, 754974721, 1000000009 }; switch (rng(0, 4)) { case 0: root<mint>(rng); break; case 1: root<m7>(rng); break; case 2: root<atcoder::static_modint<2>>(rng); break; case 3: root<atcoder::static_modint<17>>(rng); break; default: for (int t = 0; t < 3; ++t) { dyn::set_mod(ps[rng(0, 17)]); root<dyn>(rng); } }  }
// ---- sums
SCENARIO(binom_sum, 150) { int q = rng.size(0, 60); int M = rng.pct(70) ? 30 : 400; u64 r = rng.pct(30) ? 1 : rng.pct(15) ? P9 - 1 : rng.pct(15) ? 0 : rng(0, P9 - 1); LOG(q, M, r); mint R((unsigned long long)r); std::vector<std::pair<int, int>> qs; V w; auto pre = [&](int n, int m) { u64 s = 0, x = 1; for (int i = 0; i <= std::min(n, m); ++i) s = (s + x * binom(m, i, P9)) % P9, x = x * r % P9; return s; }; for (int i = 0; i < q; ++i) { int m = rng(0, M), n = rng(-3, m + 3); qs.push_back({ n, m }); w.push_back(pre(n, m)); } EQV(un(binom_sum_prefix<mint>(qs, R)), w); if (r == 1) EQV(un(binom_sum_prefix<mint>(qs)), w); std::vector<std::tuple<int, int, int>> ts; V v; for (int i = 0; i < q; ++i) { int m = rng(0, M), a = rng(-3, m + 3), b = rng(a - 1, m + 4); ts.push_back({ a, b, m }); v.push_back((pre(b, m) + P9 - pre(a - 1, m)) % P9); } EQV(un(binom_sum<mint>(ts, R)), v); }
SCENARIO(power_sum, 250) { int d = rng.size(0, 30); u64 r = rng.pct(20) ? 1 : rng.pct(15) ? 0 : rng.pct(20) ? P9 - 1 : rng(0, P9 - 1); LOG(d, r); sum_i_i_pow_d_r_pow_i<mint> S(d, mint((unsigned long long)r)); V pre{ 0 }; u64 x = 1; for (int i = 0; i < 240 + 60 * rng.mag; ++i) { pre.push_back((pre.back() + pw(i, d, P9) * x) % P9); x = x * r % P9; } auto term = [&](i64 i) { return pw(i % P9, d, P9) * (i == 0 || r ? pw(r, i, P9) : 0) % P9; }; /* 0^0 = 1 */ for (int t = 0; t < 8; ++t) { int n = rng(0, 300); EQ(S.sum(n).val(), pre[n], n); i64 N = rng.wide(1000000000000000000LL); EQ(S.sum(N + 1).val(), (S.sum(N).val() + term(N)) % P9, N); } int t = rng(0, 200), m = rng.size(1, 60); EQV(un(S.sum(t, m)), V(pre.begin() + t, pre.begin() + t + m)); { i64 T = rng.wide(1000000000000000LL); auto a = un(S.sum(T, m)); for (int i = 0; i < m; ++i) EQ(a[i], S.sum(T + i).val(), T, i); }
    if (r != 1) { /* the formal sum c satisfies A_d = r * sum_j C(d,j) A_j + [d=0] */ u64 rhs = d == 0; for (int j = 0; j <= d; ++j) rhs = (rhs + r * binom(d, j, P9) % P9 * sum_i_i_pow_d_r_pow_i<mint>(j, mint((unsigned long long)r)).sum().val()) % P9; EQ(S.sum().val(), rhs); } }
SCENARIO(random_walk, 300) { int n = rng.size(0, 12), x = rng(-n - 2, n + 2), y = rng(-n - 2, n + 2); LOG(n, x, y); std::map<std::pair<int, int>, u64> d2{ { { 0, 0 }, 1 } }; std::map<int, u64> d1{ { 0, 1 } }; for (int t = 0; t < n; ++t) { std::map<int, u64> e; for (auto [p, c] : d1) (e[p + 1] += c) %= P9, (e[p - 1] += c) %= P9; d1 = e; std::map<std::pair<int, int>, u64> f; for (auto [p, c] : d2) f[{ p.first + 1, p.second }] += c, f[{ p.first - 1, p.second }] += c, f[{ p.first, p.second + 1 }] += c, f[{ p.first, p.second - 1 }] += c; for (auto& [p, c] : f) c %= P9; d2 = f; } EQ(random_walk_1d<mint>(n, x).val(), d1[x]); u64 w2 = d2[(std::pair<int, int>{ x, y })]; EQ(random_walk_2d<mint>(n, x, y).val(), w2); auto bn = [&](int k) { return mint((unsigned long long)binom(n, k, P9)); }; EQ(random_walk_1d<mint>(n, x, bn).val(), d1[x]); EQ(random_walk_2d<mint>(n, x, y, bn).val(), w2); }
// the same workloads at realistic sizes
RESCALE(tables, 4, 512);
RESCALE(power_sum, 4, 64);
RESCALE(binom_sum, 4, 64);
