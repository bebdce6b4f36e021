// MON: shards=3
#include "mon.hpp"
#include <algorithm>
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/math/set_power_series.hpp"
#include "library/math/array_set_power_series.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; constexpr u64 P = 998244353;
using V = std::vector<u64>;
static u64 pw(u64 a, u64 e) { u64 r = 1; a %= P; for (; e; e >>= 1, a = a * a % P) if (e & 1) r = r * a % P; return r; }
// ring of set functions by definition: (fg)(S) = sum over T subset S of f(T) g(S\T)
static V mul(const V& f, const V& g) { V h(f.size()); for (size_t s = 0; s < f.size(); ++s) for (size_t t = s;; t = (t - 1) & s) { h[s] = (h[s] + f[t] * g[s ^ t]) % P; if (!t) break; } return h; }
static V one(int n) { V r(1 << n); r[0] = 1; return r; }
static V inv(const V& f) { V g(f.size()); u64 iv = pw(f[0], P - 2); for (size_t s = 0; s < f.size(); ++s) { u64 t = s == 0; for (size_t u = s; u; u = (u - 1) & s) t = (t + (P - f[u]) * g[s ^ u]) % P; g[s] = t * iv % P; } return g; }
static V power(V f, u64 k) { V r = V(f.size()); r[0] = 1; for (; k; k >>= 1) { if (k & 1) r = mul(r, f); if (k > 1) f = mul(f, f); } return r; }
// exp(f) for f(0)=0: sum over set partitions; recursive through the block containing the highest element
static V exp_(const V& f) { V g(f.size()); g[0] = 1; for (size_t s = 1; s < f.size(); ++s) { size_t hi = size_t(1) << (63 - __builtin_clzll(s)), r = s ^ hi; for (size_t t = r;; t = (t - 1) & r) { g[s] = (g[s] + f[t | hi] * g[r ^ t]) % P; if (!t) break; } } return g; }
static V compose(const V& f, const V& g, int n) { V r(1 << n); for (size_t i = f.size(); i-- > 0;) { r = mul(r, g); r[0] = (r[0] + f[i]) % P; } return r; }
template <class S> static S mk(const V& a) { std::vector<mint> t; for (u64 x : a) t.push_back((unsigned long long)x); return S(t); }
template <class S> static V un(const S& a) { V r; for (auto& x : a) r.push_back(x.val()); return r; }
static V rnd(mon::Rng& rng, int n) { V a(1 << n); int st = rng(0, 3); for (auto& x : a) x = st == 0 ? rng(0, 2) : st == 1 && rng.pct(70) ? 0 : st == 2 ? P - 1 - rng(0, 2) : rng(0, P - 1); return a; }
template <class S> static void ops(mon::Rng& rng, int maxn) {
    int n = rng.size(0, maxn); V a = rnd(rng, n), b = rnd(rng, n); u64 c = rng(0, P - 1); LOG(n, a, b); S A = mk<S>(a), B = mk<S>(b); mint C((unsigned long long)c); EQ(A.cardinality(), n); V s = a, d = a, m = a, ng = a; for (size_t i = 0; i < a.size(); ++i) s[i] = (a[i] + b[i]) % P, d[i] = (a[i] + P - b[i]) % P, m[i] = a[i] * c % P, ng[i] = (P - a[i]) % P; V ab = mul(a, b);
    EQV(un(A + B), s); EQV(un(A - B), d); EQV(un(A * B), ab); EQV(un(A * C), m); EQV(un(C * A), m); EQV(un(-A), ng); EQV(un(+A), a); if (c) EQV(un(A * C / C), a); EQV(un(S::one(n)), one(n)); EQV(un(S(n)), V(1 << n)); EQV(un(S(n, C)), V(1 << n, c)); EQ(S().size(), 1u);
    { S t = A; t += B; EQV(un(t), s); t -= B; EQV(un(t), a); t *= B; EQV(un(t), ab); t = A; t *= t; EQV(un(t), mul(a, a)); t = A; t *= C; EQV(un(t), m); }
    { auto za = A.zeta(), zb = B.zeta(); EQV(un((za + zb).mobius()), s); EQV(un((za - zb).mobius()), d); EQV(un((za * zb).mobius()), ab); EQV(un((za * C).mobius()), m); EQV(un((C * za).mobius()), m); EQV(un((-za).mobius()), ng); EQV(un((+za).mobius()), a); if (c) EQV(un((za * C / C).mobius()), a); EQV(un(za.mobius_inplace()), a); }
    u64 k = rng.coin() ? rng(0, 5) : rng.wide(1000000000000LL); EQV(un(A.pow(k)), power(a, k)); EQV(un(A.zeta().pow(k).mobius()), power(a, k));
    if (a[0]) { EQV(un(A.inv()), inv(a)); EQV(un(A.zeta().inv().mobius()), inv(a)); }
    { V e = a; e[0] = 0; S E = mk<S>(e); V x = exp_(e); EQV(un(E.exp()), x); EQV(un(E.zeta().exp().mobius()), x); S X = mk<S>(x); EQV(un(X.log()), e); EQV(un(X.zeta().log().mobius()), e); V l = a; l[0] = 1; EQV(un(mk<S>(l).log().exp()), l); }
    { V r = a; if (!r[0]) r[0] = rng(1, P - 1); V sq = mul(r, r); V g = un(mk<S>(sq).sqrt()); REQUIRE(mul(g, g) == sq, "sqrt squared"); V g2 = un(mk<S>(sq).zeta().sqrt().mobius()); REQUIRE(mul(g2, g2) == sq); }
    if (n >= 1) { size_t h = size_t(1) << rng(0, n - 1); EQV(un(A.cut_lower(h)), V(a.begin(), a.begin() + h)); EQV(un(A.cut_upper(h)), V(a.begin() + h, a.begin() + 2 * h)); h = a.size() / 2; S L = A.cut_lower(h); L.concat(A.cut_upper(h)); EQV(un(L), a); S t = A; t.set_cardinality(n + 1); V z = a; z.resize(2 << n); EQV(un(t), z); EQ(t.cardinality(), n + 1); }
}
SCENARIO(sps, 250) { ops<SetPowerSeries<mint>>(rng, 6); }
SCENARIO(array_sps, 150) { ops<ArraySetPowerSeries<mint, 8>>(rng, 6); }
SCENARIO(array_sps_tight, 100) { ops<ArraySetPowerSeries<mint, 5>>(rng, 4); }
SCENARIO(composite, 250) { int n = rng.size(0, 6); V g = rnd(rng, n), f(rng.size(0, 12)); for (auto& x : f) x = rng(0, P - 1); LOG(n, f, g); std::vector<mint> F; for (u64 x : f) F.push_back((unsigned long long)x); EQV(un(SetPowerSeries<mint>::polynomial_composite(F, mk<SetPowerSeries<mint>>(g))), compose(f, g, n)); }
