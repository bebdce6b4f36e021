// MON: shards=4
#include "mon.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include <optional>
#include "library/polynomial/fps_naive.hpp"
#include "library/polynomial/array_fps_naive.hpp"
#include "library/polynomial/formal_power_series_relaxed.hpp"
#include "library/polynomial/vec_sparse_fps.hpp"
#include "model.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using m7 = atcoder::modint1000000007; using R = Ref<998244353>; using V = std::vector<u64>;
template <u64 P, class M> static void naive(mon::Rng& rng) {
    using R = Ref<P>; using F = FPSNaive<M>; auto a = R::random(rng, rng.size(0, 40)), b = R::random(rng, rng.size(0, 40)); LOG(a, b); const F f = mk<F>(a), g = mk<F>(b); auto T = [](const F& x) { return R::trim(un(x)); }; u64 c = rng(0, P - 1); M x((unsigned long long)c); EQ(f.size(), (int)a.size()); EQ(f.deg(), (int)a.size() - 1);
    EQV(T(f + g), R::trim(R::add(a, b))); EQV(T(f - g), R::trim(R::sub(a, b))); EQV(T(f * g), R::trim(R::mul(a, b))); EQV(T(-f), R::trim(R::sub({}, a))); EQV(un(+f), a); EQV(T(f + x), R::trim(R::add(a, { c }))); EQV(T(f - x), R::trim(R::sub(a, { c }))); EQV(T(f * x), R::trim(R::scale(a, c))); EQV(T(x * f), R::trim(R::scale(a, c)));
    { F h = f; ++h; EQV(T(h), R::trim(R::add(a, { 1 }))); --h; EQV(T(h), R::trim(a)); h *= g; EQV(T(h), R::trim(R::mul(a, b))); EQ(f[rng.size(0, 50) + a.size()].val(), 0u); int i = rng(0, 50); EQ(f[i].val(), R::at(a, i)); h = f; h[i] = 7; EQ(h[i].val(), 7u); EQ(h.size(), std::max<int>(i + 1, a.size())); h = f; EQ(h.normalize(), (int)R::trim(a).size() - 1); EQV(un(h), R::trim(a)); REQUIRE(h == f && f == h && !(f != h)); h[i + a.size()] += 1; REQUIRE(h != f && !(f == h)); }
    if (R::trim(b).size()) { auto [q, r] = R::divmod(a, b); auto [q2, r2] = f.div_mod(g); EQV(T(q2), R::trim(q)); EQV(un(r2), r); EQV(T(f / g), R::trim(q)); EQV(T(f % g), r); F h = f; h /= g; EQV(T(h), R::trim(q)); h = f; h %= g; EQV(T(h), r); }
    int s = rng(0, a.size() + 5); { auto w = a; w.insert(w.begin(), s, 0); EQV(un(f << s), w); w = a; w.erase(w.begin(), w.begin() + std::min<size_t>(s, w.size())); EQV(un(f >> s), w); EQV(un(f.cut(s)), s < (int)a.size() ? R::cut(a, s) : a); int n = rng(0, 60); EQV(T(f.mul(g, n)), R::trim(R::cut(R::mul(a, b), n))); EQV(T(f.mul(g)), R::trim(R::cut(R::mul(a, b), a.size()))); }
    EQV(T(f.diff()), R::trim(R::diff(a))); EQV(T(f.intg()), R::trim(R::intg(a))); EQ(f.eval(x).val(), R::eval(a, c)); if (a.empty()) return;
    int sz = a.size(), n = rng.coin() ? sz : rng.size(1, 60), N = n == sz && rng.coin() ? -1 : n;
    { auto p = a; if (!p[0]) p[0] = rng(1, P - 1); const F q = mk<F>(p); EQV(un(q.inv(N)), R::inverse(p, n)); if (N < 0) EQV(un(::inv(q)), R::inverse(p, n)); }
    { auto p = a; p[0] = 1; const F q = mk<F>(p); EQV(un(q.log(N)), R::log(p, n)); if (N < 0) EQV(un(::log(q)), R::log(p, n)); }
    { auto p = a; p[0] = 0; const F q = mk<F>(p); EQV(un(q.exp(N)), R::exp(p, n)); if (N < 0) EQV(un(::exp(q)), R::exp(p, n)); }
    { i64 k = rng.pct(60) ? rng(0, 8) : rng.wide(1000000000000000000LL); EQV(un(f.pow(k, N)), R::power(a, k, n)); if (N < 0) EQV(un(::pow(f, k)), R::power(a, k, n)); }
    { auto p = a; if (rng.pct(60)) p = R::cut(R::mul(p, p), sz); const F q = mk<F>(p); int o = 0; while (o < sz && !p[o]) ++o; auto r = q.safe_sqrt(N); if (o >= std::min(n, sz)) { if (r) { EQ(r->size(), n); auto t = un(*r); EQV(R::cut(R::mul(t, t), n), V(n)); } else REQUIRE(o < sz && (o % 2 == 1 || R::pw(p[o], (P - 1) / 2) != 1)); } else { bool ex = o % 2 == 0 && R::pw(p[o], (P - 1) / 2) == 1; EQ(r.has_value(), ex); if (r) { EQ(r->size(), n); auto t = un(*r); EQV(R::cut(R::mul(t, t), n), R::cut(p, n)); EQV(un(q.sqrt(N)), t); if (N < 0) EQV(un(::sqrt(q)), t); } } } }
SCENARIO(fps_naive, 500) { naive<998244353, mint>(rng); }
SCENARIO(fps_naive_7, 300) { naive<1000000007, m7>(rng); }
template <int N> static void arr(mon::Rng& rng) {
    using F = ArrayFPSNaive<mint, N>; auto a = R::cut(R::random(rng, N), N), b = R::cut(R::random(rng, N), N); if (rng.coin()) for (int i = rng(0, N); i < N; ++i) b[i] = 0; LOG(a, b); auto mk = [](const V& v) { F f; for (int i = 0; i < N; ++i) f[i] = v[i]; return f; }; auto C = [](V v) { v.resize(N); return v; }; const F f = mk(a), g = mk(b); u64 c = rng(0, 998244352); mint x = c; { F e; EQV(un(e), V(N)); F i1{ mint(3) }; V w(N); w[0] = 3; EQV(un(i1), w); }
    EQV(un(f + g), C(R::add(a, b))); EQV(un(f - g), C(R::sub(a, b))); EQV(un(f * g), C(R::mul(a, b))); EQV(un(f.mul(g)), C(R::mul(a, b))); EQV(un(-f), C(R::sub({}, a))); EQV(un(+f), a); EQV(un(f + x), C(R::add(a, { c }))); EQV(un(f - x), C(R::sub(a, { c }))); EQV(un(f * x), C(R::scale(a, c))); EQV(un(x * f), C(R::scale(a, c))); { F h = f; ++h; EQV(un(h), R::add(a, { 1 })); --h; --h; EQV(un(h), R::sub(a, { 1 })); }
    if (R::trim(b).size()) { auto [q, r] = R::divmod(a, b); auto [q2, r2] = div_mod(f, g); EQV(un(q2), C(q)); EQV(un(r2), C(r)); EQV(un(f / g), C(q)); EQV(un(f % g), C(r)); F h = f; h /= g; EQV(un(h), C(q)); h = f; h %= g; EQV(un(h), C(r)); }
    int s = rng(0, N + 3); { auto w = a; w.insert(w.begin(), s, 0); EQV(un(f << s), C(w)); w = a; w.erase(w.begin(), w.begin() + std::min<int>(s, N)); EQV(un(f >> s), C(w)); }
    EQV(un(f.diff()), C(R::diff(a))); EQV(un(f.intg()), C(R::intg(a))); EQ(f.eval(x).val(), R::eval(a, c));
    { auto p = a; if (!p[0]) p[0] = rng(1, 998244352); EQV(un(mk(p).inv()), R::inverse(p, N)); EQV(un(::inv(mk(p))), R::inverse(p, N)); p[0] = 1; EQV(un(mk(p).log()), R::log(p, N)); EQV(un(::log(mk(p))), R::log(p, N)); p[0] = 0; EQV(un(mk(p).exp()), R::exp(p, N)); EQV(un(::exp(mk(p))), R::exp(p, N)); i64 k = rng.pct(60) ? rng(0, 8) : rng.wide(1000000000000000000LL); EQV(un(f.pow(k)), R::power(a, k, N)); EQV(un(::pow(f, k)), R::power(a, k, N)); auto q = C(R::mul(a, a)); int o = 0; while (o < N && !q[o]) ++o; auto r = un(mk(q).sqrt()); EQV(C(R::mul(r, r)), q); EQV(un(::sqrt(mk(q))), r); } }
SCENARIO(array_fps, 400) { switch (rng(0, 5)) { case 0: arr<1>(rng); break; case 1: arr<2>(rng); break; case 2: arr<5>(rng); break; case 3: arr<16>(rng); break; case 4: arr<17>(rng); break; default: arr<40>(rng); } }
SCENARIO(relaxed_ops, 200) {
    int n = rng.pct(80) ? rng.size(1, 80) : rng(100, 300); auto a = R::random(rng, n); a.resize(n); LOG(n, a.size());
    { auto f = a; if (!f[0]) f[0] = 3; auto w = R::inverse(f, n); RelaxedInv<mint> r; for (int i = 0; i < n; ++i) { EQ(r.append((unsigned long long)f[i]).val(), w[i], i); EQ(r[i].val(), w[i]); int j = rng(0, i); EQ(r[j].val(), w[j]); } }
    { auto f = a; f[0] = 0; auto w = R::exp(f, n); RelaxedExp<mint> r; for (int i = 0; i < n; ++i) { EQ(r.append((unsigned long long)f[i]).val(), w[i], i); EQ(r[i].val(), w[i]); } }
    { auto f = a; f[0] = 1; auto w = R::log(f, n); RelaxedLog<mint> r; for (int i = 0; i < n; ++i) { EQ(r.append((unsigned long long)f[i]).val(), w[i], i); EQ(r[i].val(), w[i]); } }
    { i64 k = rng.pct(60) ? rng(0, 8) : rng.wide(1000000000000000000LL); auto w = R::power(a, k, n); RelaxedPow<mint> r(k); LOG(k); for (int i = 0; i < n; ++i) { EQ(r.append((unsigned long long)a[i]).val(), w[i], i); EQ(r[i].val(), w[i]); } }
    { auto f = a; if (!f[0]) f[0] = 1; if (rng.coin()) f[0] = f[0] * f[0] % 998244353; RelaxedSqrt<mint> r; V g; bool ex = R::pw(f[0], 998244352 / 2) == 1; for (int i = 0; i < n; ++i) { auto o = r.append((unsigned long long)f[i]); EQ(o.has_value(), ex); if (!ex) break; g.push_back(o->val()); EQ(r[i].val(), g[i]); } if (ex) EQV(R::cut(R::mul(g, g), n), f); } }
SCENARIO(vec_sparse, 400) {
    using F = VecSparseFPS<i64, mint>; F::set_multiplication([](const std::vector<mint>& a, const std::vector<mint>& b) { return atcoder::convolution(a, b); });
    const i64 lim = rng.coin() ? 60 : 1000000000000000LL; auto gen = [&](std::map<i64, u64>& m) { int k = rng.size(0, 25); std::vector<std::pair<i64, mint>> d; i64 base = rng(0, lim); for (int i = 0; i < k; ++i) { if (rng.pct(20)) base = rng(0, lim); i64 p = base + rng(0, 6); u64 v = rng(0, 998244352); d.push_back({ p, mint((unsigned long long)v) }); m[p] = (m[p] + v) % 998244353; } bool s = rng.coin(); if (s) std::stable_sort(d.begin(), d.end(), [](auto& x, auto& y) { return x.first < y.first; }); return F(d, s); };
    auto chk = [&](F f, std::map<i64, u64> m) { std::map<i64, u64> got; i64 prev = -1; for (auto& [i, v] : f) { REQUIRE(i > prev || v.empty(), i, prev); for (size_t j = 0; j < v.size(); ++j) if (v[j].val()) got[i + j] = v[j].val(); prev = i + (i64)v.size() - 1; } for (auto it = m.begin(); it != m.end();) if (!it->second) it = m.erase(it); else ++it; REQUIRE(got == m, got.size(), m.size()); for (auto& [i, v] : m) for (i64 d = -2; d <= 2; ++d) { auto w = m.find(i + d); EQ(f[i + d].val(), w == m.end() ? 0 : w->second, i, d); } };
    std::map<i64, u64> a, b; F f = gen(a), g = gen(b); LOG(a.size(), b.size()); chk(f, a); chk(g, b); auto ad = [](std::map<i64, u64> x, const std::map<i64, u64>& y, u64 c) { for (auto& [i, v] : y) x[i] = (x[i] + c * v) % 998244353; return x; }; chk(f + g, ad(a, b, 1)); chk(f - g, ad(a, b, 998244352)); chk(-f, ad({}, a, 998244352)); std::map<i64, u64> pr; for (auto& [i, v] : a) for (auto& [j, w] : b) pr[i + j] = (pr[i + j] + v * w) % 998244353; chk(f * g, pr); auto v = R::random(rng, rng.size(0, 9)); std::vector<mint> mv; for (u64 x : v) mv.push_back((unsigned long long)x); pr.clear(); for (auto& [i, x] : a) for (size_t j = 0; j < v.size(); ++j) pr[i + j] = (pr[i + j] + x * v[j]) % 998244353; chk(f * mv, pr); chk(mv * f, pr);
    if (v.empty() || !v[0]) v.insert(v.begin(), rng(1, 998244352)); mv.clear(); for (u64 x : v) mv.push_back((unsigned long long)x);
    if (lim == 60) { V den(200); for (size_t i = 0; i < v.size(); ++i) den[i] = v[i]; auto iv = R::inverse(den, 200); int m = rng(0, 199); u64 w = 0; for (auto& [i, x] : a) if (i <= m) w = (w + x * iv[m - i]) % 998244353; EQ(F::bostan_mori(f, mv, m).val(), w, m); }
    else { i64 m = rng(0, 2 * lim); u64 w = 0; /* 1 / (1 - c x): coefficient c^k */ u64 c = rng(0, 998244352), q0 = rng(1, 998244352); for (auto& [i, x] : a) if (i <= m) w = (w + x * R::pw(c, m - i)) % 998244353; w = w * R::inv(q0) % 998244353; EQ(F::bostan_mori(f, { mint((unsigned long long)q0), -mint((unsigned long long)c) * mint((unsigned long long)q0) }, m).val(), w, m); }
    F h = f; h.clear(); chk(h, {}); }
// the same workloads at realistic sizes
RESCALE(vec_sparse, 4, 2);
RESCALE(fps_naive, 4, 64);
RESCALE(fps_naive_7, 4, 32);
