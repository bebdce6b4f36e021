// MON: shards=6
#include "mon.hpp"
#include <atcoder/modint>
#include <optional>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/fps.hpp"
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "model.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using m7 = atcoder::modint1000000007;
static int init = [] { FPS<mint>::set_multiplication([](const auto& a, const auto& b) { return atcoder::convolution(a, b); }); FPS<m7>::set_multiplication([](const auto& a, const auto& b) { return arbitrary_mod_convolution(a, b); }); return 0; }();
static int len(mon::Rng& rng) { return rng.pct(50) ? rng.size(1, 58) : rng.pct(70) ? rng(56, 75) : rng(60, 200); }
template <class F, u64 P> static void arith(mon::Rng& rng) {
    using R = Ref<P>; using M = typename F::value_type; auto a = R::random(rng, rng.pct(30) ? rng(0, 200) : rng.size(0, 70)), b = R::random(rng, rng.pct(30) ? rng(0, 200) : rng.size(0, 70)); LOG(a.size(), b.size()); const F f = mk<F>(a), g = mk<F>(b); auto T = [](const F& x) { return R::trim(un(x)); }; EQV(un(f), a); EQ(f.size(), (int)a.size()); EQ(f.deg(), (int)a.size() - 1);
    EQV(T(f + g), R::trim(R::add(a, b))); EQV(T(f - g), R::trim(R::sub(a, b))); EQV(T(f * g), R::trim(R::mul(a, b))); EQV(T(g * f), R::trim(R::mul(a, b))); EQV(T(-f), R::trim(R::sub({}, a))); EQV(un(+f), a);
    u64 c = rng(0, P - 1); M x((unsigned long long)c); EQV(T(f * x), R::trim(R::scale(a, c))); EQV(T(x * f), R::trim(R::scale(a, c))); EQV(T(f + x), R::trim(R::add(a, { c }))); EQV(T(x + f), R::trim(R::add(a, { c }))); EQV(T(f - x), R::trim(R::sub(a, { c }))); EQV(T(x - f), R::trim(R::sub({ c }, a))); if (c) EQV(T(f / x), R::trim(R::scale(a, R::inv(c))));
    { F h = f; EQV(un(h++), a); EQV(T(h), R::trim(R::add(a, { 1 }))); EQV(T(--h), R::trim(a)); h--; EQV(T(h), R::trim(R::sub(a, { 1 }))); EQV(T(++h), R::trim(a)); h += g; EQV(T(h), R::trim(R::add(a, b))); h -= g; EQV(T(h), R::trim(a)); h *= g; EQV(T(h), R::trim(R::mul(a, b))); }
    if (R::trim(b).size()) { auto [q, r] = R::divmod(a, b); auto [q2, r2] = f.div_mod(g); EQV(T(q2), R::trim(q)); EQV(un(r2), r); EQV(T(f / g), R::trim(q)); EQV(T(f % g), r); F h = f; h /= g; EQV(T(h), R::trim(q)); h = f; h %= g; EQV(T(h), r); auto ab = f * g; auto [q3, r3] = ab.div_mod(g); EQV(T(q3), R::trim(a)); EQ(T(r3).size(), 0u); }
    int s = rng(0, a.size() + 5); { auto w = a; w.insert(w.begin(), s, 0); EQV(un(f << s), w); w = a; w.erase(w.begin(), w.begin() + std::min<size_t>(s, w.size())); EQV(un(f >> s), w); }
    EQ(f == f, true); { F h = f; h.resize(h.size() + rng(0, 4)); REQUIRE(h == f && !(h != f) && f == h); h.resize(h.size() + 1); h[rng(0, h.size() - 1)] += 1; REQUIRE(h != f && !(f == h)); }
    { F h = f; int n = rng(0, a.size() + 3); h.cut(n); EQV(un(h), n < (int)a.size() ? R::cut(a, n) : a); EQV(un(f.cut_copy(n)), R::cut(a, n)); int l = rng(0, a.size() + 3), r = rng(l, a.size() + 6); auto w = R::cut(a, r); w.erase(w.begin(), w.begin() + l); EQV(un(f.cut_copy(l, r)), w); h = f; h.cut_trailing_zeros(); EQV(un(h), R::trim(a)); h = f; h.ensure(n); EQ(h.size(), std::max<int>(n, a.size())); EQ(f.safe_get(n).val(), R::at(a, n)); EQ(F(f).safe_get(n).val(), R::at(a, n)); h = f; h.safe_get(n) = 5; EQ(h[n].val(), 5u); }
    EQV(T(f.diff()), R::trim(R::diff(a))); EQV(T(f.intg()), R::trim(R::intg(a))); EQ(f.eval(x).val(), R::eval(a, c)); F h = f; h.intg_inplace(); h.diff_inplace(); EQV(T(h), R::trim(a));
    std::vector<F> fs; std::vector<u64> w{ 1 }; int k = rng(0, 6); for (int i = 0; i < k; ++i) { auto p = R::random(rng, rng(1, 30), 3); fs.push_back(mk<F>(p)); w = R::mul(w, p); } EQV(T(F::prod(fs)), R::trim(w));
    auto sp = f.sparse_fps_format(15); size_t nz = 0; for (u64 v : a) nz += v != 0; EQ(sp.has_value(), nz <= 15); if (sp) { EQ(sp->size(), nz); for (size_t i = 0; i < nz; ++i) { REQUIRE(i == 0 || (*sp)[i - 1].first < (*sp)[i].first); EQ((*sp)[i].second.val(), a[(*sp)[i].first]); } } }
template <class F, u64 P> static void series(mon::Rng& rng) {
    using R = Ref<P>; int n = len(rng), sz = rng.pct(50) ? n : rng.pct(50) ? rng.upto(1, n) : n + rng(1, 70); auto a = R::random(rng, sz); LOG(n, sz); bool dflt = n == sz && rng.coin(); int N = dflt ? -1 : n;
    { auto f = a; if (!f[0]) f[0] = rng(1, P - 1); const F g = mk<F>(f); EQV(un(g.inv(N)), R::inverse(f, n)); F h = g; h.inv_inplace(N); EQV(un(h), R::inverse(f, n)); if (dflt) EQV(un(::inv(g)), R::inverse(f, n)); }
    { auto f = a; f[0] = 1; const F g = mk<F>(f); auto w = R::log(f, n); EQV(un(g.log(N)), w); F h = g; h.log_inplace(N); EQV(un(h), w); if (dflt) EQV(un(::log(g)), w); EQV(un(h.exp(n)), R::cut(f, n)); }
    { auto f = a; f[0] = 0; const F g = mk<F>(f); auto w = R::exp(f, n); EQV(un(g.exp(N)), w); F h = g; h.exp_inplace(N); EQV(un(h), w); if (dflt) EQV(un(::exp(g)), w); }
    for (int t = 0; t < 2; ++t) { auto f = a; if (rng.pct(50) && f[0] == 0) f[0] = 1; i64 k = rng.pct(60) ? rng(0, 8) : rng.pct(60) ? rng.wide(1000000000000000000LL) : (i64)P * rng(1, 5) + rng(0, 2); LOG(k); const F g = mk<F>(f); auto w = R::power(f, k, n); EQV(un(g.pow(k, N)), w); F h = g; h.pow_inplace(k, N); EQV(un(h), w); if (dflt) EQV(un(::pow(g, k)), w); }
    { auto f = a; if (rng.pct(60)) { f = R::cut(R::mul(f, f), sz); } if (rng.coin()) { f = R::scale(f, rng(1, P - 1)); } const F g = mk<F>(f); int o = 0; while (o < sz && !f[o]) ++o; auto r = g.safe_sqrt(N); if (o >= std::min(n, sz)) { if (r) { EQ(r->size(), n); auto q = un(*r); EQV(R::cut(R::mul(q, q), n), std::vector<u64>(n)); } else REQUIRE(o < sz && (o % 2 == 1 || R::pw(f[o], (P - 1) / 2) != 1)); } else { bool ex = o % 2 == 0 && R::pw(f[o], (P - 1) / 2) == 1; EQ(r.has_value(), ex, o); if (r) { EQ(r->size(), n); auto q = un(*r); EQV(R::cut(R::mul(q, q), n), R::cut(f, n)); EQV(un(g.sqrt(N)), q); F h = g; h.sqrt_inplace(N); EQV(un(h), q); if (dflt) EQV(un(::sqrt(g)), q); } } } }
SCENARIO(formal_power_series_arith, 300) { arith<FormalPowerSeries<mint>, 998244353>(rng); }
SCENARIO(fps_arith, 200) { arith<FPS<mint>, 998244353>(rng); }
SCENARIO(fps_arith_arbitrary, 100) { arith<FPS<m7>, 1000000007>(rng); }
SCENARIO(formal_power_series, 400) { series<FormalPowerSeries<mint>, 998244353>(rng); }
SCENARIO(fps, 250) { series<FPS<mint>, 998244353>(rng); }
SCENARIO(fps_arbitrary, 100) { series<FPS<m7>, 1000000007>(rng); }
// larger sizes: algebraic identities checked at sampled coefficients
SCENARIO(big, 3) {
    using F = FormalPowerSeries<mint>; using R = Ref<998244353>; int n = rng(1500, 5000); LOG(n); auto a = R::random(rng, n, 4); auto coef = [&](const F& x, const F& y, int k) { mint s = 0; for (int i = 0; i <= k; ++i) if (i < x.size() && k - i < y.size()) s += x[i] * y[k - i]; return s; };
    a[0] = 1; F f = mk<F>(a), iv = f.inv(), lg = f.log(), sq = f.sqrt(), ex = lg.exp(), pw = f.pow(3); REQUIRE(ex == f && ex.size() == n); auto sqs = F(sq * sq).cut(n), dl = lg.diff(), cube = F(F(f * f).cut(n) * f).cut(n); REQUIRE(sqs == f && cube == pw); for (int q = 0; q < 300; ++q) { int k = rng(0, n - 2); EQ(coef(f, iv, k).val(), (u32)(k == 0)); EQ(coef(f, dl, k).val(), (f[k + 1] * (k + 1)).val(), k); EQ(coef(sq, sq, k).val(), f[k].val(), k); }
    int m = rng(200, n - 1); F g = mk<F>(R::random(rng, m, 4)); g.back() = 3; auto [q, r] = f.div_mod(g); REQUIRE(q * g + r == f && r.size() < g.size()); }
// the same workloads at realistic sizes
RESCALE(fps_arith_arbitrary, 4, 128);
RESCALE(fps_arith, 4, 128);
RESCALE(fps, 4, 8);
RESCALE(formal_power_series, 4, 8);
RESCALE(formal_power_series_arith, 4, 8);
RESCALE(fps_arbitrary, 4, 4);
