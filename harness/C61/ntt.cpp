// MON: shards=6
#include "mon.hpp"
#include <atcoder/modint>
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "library/convolution/convolution_2_64.hpp"
#include "library/convolution/convolution_large.hpp"
#include "library/convolution/multi_variate_convolution.hpp"
#include "library/convolution/multi_variate_convolution_circular.hpp"
#include "library/convolution/multiplicative_convolution_mod_2^n.hpp"
#include "library/convolution/relaxed_convolution.hpp"
#include "library/convolution/relaxed_convolution_ntt.hpp"
#include "library/convolution/semi_relaxed_convolution.hpp"
#include "library/convolution/semi_relaxed_convolution_ntt.hpp"
#include "library/transform/chirp_z_transform.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using m7 = atcoder::modint1000000007; using dmint = atcoder::dynamic_modint<61>;
template <class T> static std::vector<T> rv(mon::Rng& rng, int n, u64 hi) { if (rng.pct(15)) hi = std::min<u64>(hi, 2); bool mx = rng.pct(10); std::vector<T> a(n); for (auto& x : a) { u64 v = mx ? hi : hi == UINT64_MAX ? rng.u() : rng.u() % (hi + 1); if constexpr (std::is_integral_v<T>) x = (T)v; else x = T((unsigned long long)v); } return a; }
template <class M> static std::vector<u32> vals(const std::vector<M>& a) { std::vector<u32> r; for (auto& x : a) r.push_back(x.val()); return r; }
// schoolbook product modulo m, on plain integers
template <class M> static std::vector<u32> conv(const std::vector<M>& a, const std::vector<M>& b) { if (a.empty() || b.empty()) return {}; u64 m = M::mod(); std::vector<u64> c(a.size() + b.size() - 1); auto x = vals(a), y = vals(b); for (size_t i = 0; i < x.size(); ++i) if (x[i]) for (size_t j = 0; j < y.size(); ++j) c[i + j] = (c[i + j] + (u64)x[i] * y[j]) % m; return std::vector<u32>(c.begin(), c.end()); }
static std::pair<int, int> sizes(mon::Rng& rng, int thr) { switch (rng(0, 3)) { case 0: return { (int)rng.size(0, 40), (int)rng.size(0, 40) }; case 1: return { (int)rng(thr - 3, thr + 5), (int)rng(thr - 3, thr + 60) }; case 2: return { (int)rng(thr + 1, thr + 200), (int)rng(thr + 1, thr + 200) }; default: { int p = 1 << rng(8, 9); int n = rng(thr + 1, std::max<int>(thr + 2, p - thr)); return { n, (int)std::max<i64>(thr + 1, p - n + rng(-1, 2)) }; } } }
SCENARIO(arbitrary_mod, 120) {
    auto [n, m] = sizes(rng, 120); LOG(n, m); { auto a = rv<m7>(rng, n, 1000000006), b = rv<m7>(rng, m, 1000000006); EQV(vals(arbitrary_mod_convolution(a, b)), conv(a, b)); } { auto a = rv<mint>(rng, n, 998244352), b = rv<mint>(rng, m, 998244352); EQV(vals(arbitrary_mod_convolution(a, b)), conv(a, b)); }
    { using S = atcoder::static_modint<64>; auto a = rv<S>(rng, n, 63), b = rv<S>(rng, m, 63); EQV(vals(arbitrary_mod_convolution(a, b)), conv(a, b)); } { using S = atcoder::static_modint<2147483647>; auto a = rv<S>(rng, n, 2147483646), b = rv<S>(rng, m, 2147483646); EQV(vals(arbitrary_mod_convolution(a, b)), conv(a, b)); }
    int md = rng.pct(20) ? 1 : (int)rng.wides(1, 2147483647); if (md < 1) md = 1; dmint::set_mod(md); LOG(md); { auto a = rv<dmint>(rng, n, md - 1), b = rv<dmint>(rng, m, md - 1); EQV(vals(arbitrary_mod_convolution(a, b)), conv(a, b)); } }
SCENARIO(integer, 80) {
    auto [n, m] = sizes(rng, 120); LOG(n, m); u64 hi = rng.pct(50) ? 2147483647 : rng.wide(2147483647); auto a = rv<int>(rng, n, hi), b = rv<int>(rng, m, hi); std::vector<u128> c(n && m ? n + m - 1 : 0); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c[i + j] += (u128)a[i] * b[j]; auto d = convolution_int(a, b); EQ(d.size(), c.size()); for (size_t i = 0; i < c.size(); ++i) REQUIRE(c[i] == d[i], i, (u64)c[i], (u64)d[i]); }
SCENARIO(mod_2_64, 60) {
    auto [n, m] = sizes(rng, 60); LOG(n, m); auto a = rv<unsigned long long>(rng, n, UINT64_MAX), b = rv<unsigned long long>(rng, m, UINT64_MAX); std::vector<unsigned long long> c(n && m ? n + m - 1 : 0); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c[i + j] += a[i] * b[j]; EQV(convolution_mod_2_64(a, b), c); if (n && m) EQV(internal::convolution_2_64::convolution_6mod(a, b), c); }
template <int P> static void large(mon::Rng& rng) { using S = atcoder::static_modint<P>; int n = rng.pct(30) ? rng.size(0, 70) : rng(55, 300), m = rng.pct(30) ? rng.size(0, 70) : rng(55, 300); LOG(P, n, m); auto a = rv<S>(rng, n, P - 1), b = rv<S>(rng, m, P - 1); EQV(vals(convolution_large(a, b)), conv(a, b)); }
SCENARIO(large_convolution, 150) { switch (rng(0, 6)) { case 0: large<7>(rng); break; case 1: large<13>(rng); break; case 2: large<97>(rng); break; case 3: large<257>(rng); break; case 4: large<7681>(rng); break; case 5: large<12289>(rng); break; default: large<998244353>(rng); } }
SCENARIO(multivariate, 150) {
    std::vector<int> dims; int n = 1; int k = rng(0, 5); for (int i = 0; i < k; ++i) { int d = rng(1, rng.pct(20) ? 60 : 6); if (n * d > 500) d = 1; dims.push_back(d); n *= d; } LOG(dims); auto a = rv<mint>(rng, n, 998244352), b = rv<mint>(rng, n, 998244352); std::vector<mint> c(n), y(n); 
    std::vector<std::vector<int>> D(n); for (int i = 0; i < n; ++i) { int t = i; for (int d : dims) D[i].push_back(t % d), t /= d; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int o = 0, cy = 0, w = 1; bool ok = true; for (size_t t = 0; t < dims.size(); ++t) { int s = D[i][t] + D[j][t]; if (s >= dims[t]) ok = false; o += w * s; cy += w * (s % dims[t]); w *= dims[t]; } mint p = a[i] * b[j]; if (ok) c[o] += p; y[cy] += p; }
    multi_variate_convolution mv(dims); EQ(mv.size(), n); EQ(mv.dim_num(), (int)dims.size()); EQV(vals(mv(a, b)), vals(c)); EQV(vals(mv.convolution(a, b)), vals(c)); if (dims.empty()) EQ(multi_variate_convolution().size(), 1);
    multi_variate_convolution_circular<mint> mc(dims); EQV(vals(mc(a, b)), vals(y)); EQV(vals(mc.convolution_naive(a, b)), vals(y)); EQV(vals(mc.convolution(b, a)), vals(y)); }
SCENARIO(circular_mods, 60) {
    std::vector<int> dims; int n = 1; int k = rng(1, 3); for (int i = 0; i < k; ++i) { int d = rng.pct(40) ? (int)rng(61, 210) : (int)rng(2, 12); if (n * d > 420) d = rng(1, 2); dims.push_back(d); n *= d; } LOG(dims); std::vector<std::vector<int>> D(n); for (int i = 0; i < n; ++i) { int t = i; for (int d : dims) D[i].push_back(t % d), t /= d; }
    auto go = [&](auto one) { using M = decltype(one); LOG(M::mod()); auto a = rv<M>(rng, n, M::mod() - 1), b = rv<M>(rng, n, M::mod() - 1); std::vector<M> y(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int cy = 0, w = 1; for (size_t t = 0; t < dims.size(); ++t) cy += w * ((D[i][t] + D[j][t]) % dims[t]), w *= dims[t]; y[cy] += a[i] * b[j]; } multi_variate_convolution_circular<M> mc(dims); EQV(vals(mc(a, b)), vals(y)); };
    go(m7{}); int q = rng(0, 3); dmint::set_mod(q == 0 ? 2 : q == 1 ? 1000000000 : q == 2 ? 2147483647 : rng(2, 100000)); go(dmint{}); }
SCENARIO(mod_2_n, 60) { int n = 1 << rng(0, rng.pct(15) ? 10 : 8); LOG(n); auto a = rv<mint>(rng, n, 998244352), b = rv<mint>(rng, n, 998244352); std::vector<mint> c(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c[(u64)i * j % n] += a[i] * b[j]; EQV(vals(multiplicative_convolution_mod_2_n(a, b)), vals(c)); }
static std::vector<mint> conv_fn(const std::vector<mint>& a, const std::vector<mint>& b) { auto r = conv(a, b); std::vector<mint> o; for (u32 x : r) o.push_back(mint::raw(x)); return o; }
SCENARIO(relaxed, 80) {
    int n = rng.pct(70) ? rng.size(0, 150) : rng(120, 700); LOG(n); auto f = rv<mint>(rng, n, 998244352), g = rv<mint>(rng, n, 998244352); auto c = conv(f, g); RelaxedConvolutionNTT<mint> r; RelaxedConvolution<mint> s(conv_fn), d; d.set_convolve_function(conv_fn); 
    for (int i = 0; i < n; ++i) { EQ(r.append(f[i], g[i]).val(), c[i], i); EQ(r[i].val(), c[i]); if (n <= 300) { EQ(s.append(f[i], g[i]).val(), c[i], i); EQ(d.append(f[i], g[i]).val(), c[i], i); EQ(s[i].val(), c[i]); } int j = rng(0, i); EQ(r[j].val(), c[j], "an earlier coefficient changed"); } auto h = r.get(); REQUIRE((int)h.size() >= n); for (int i = 0; i < n; ++i) EQ(h[i].val(), c[i]); if (n <= 300) { auto h = s.get(); REQUIRE((int)h.size() >= n); for (int i = 0; i < n; ++i) EQ(h[i].val(), c[i]); }
    // truly online use: g depends on the outputs (Catalan-like recurrence)
    { int m = rng(1, 400); std::vector<mint> x(m); x[0] = 1 + rng(0, 5); RelaxedConvolutionNTT<mint> q; for (int i = 0; i + 1 < m; ++i) x[i + 1] = q.append(x[i], x[i]); for (int i = 0; i + 1 < m; ++i) { mint w = 0; for (int j = 0; j <= i; ++j) w += x[j] * x[i - j]; EQ(x[i + 1].val(), w.val(), i); } } }
SCENARIO(semi_relaxed, 80) {
    int n = rng.pct(70) ? rng.size(0, 150) : rng(120, 700), k = rng.pct(30) ? rng.size(0, 20) : rng.size(0, 700); LOG(n, k); auto f = rv<mint>(rng, k, 998244352), g = rv<mint>(rng, n, 998244352); auto c = conv(f, g); c.resize(std::max<size_t>(c.size(), n)); SemiRelaxedConvolutionNTT<mint> r(f); SemiRelaxedConvolution<mint> s(f, conv_fn), d(f); d.set_convolve_function(conv_fn);
    for (int i = 0; i < n; ++i) { EQ(r.append(g[i]).val(), c[i], i); EQ(r[i].val(), c[i]); if (n <= 300) { EQ(s.append(g[i]).val(), c[i], i); EQ(d.append(g[i]).val(), c[i], i); EQ(s[i].val(), c[i]); } int j = rng(0, i); EQ(r[j].val(), c[j]); } auto h = r.get(); REQUIRE((int)h.size() >= n); for (int i = 0; i < n; ++i) EQ(h[i].val(), c[i]); if (n <= 300) { auto h = s.get(); REQUIRE((int)h.size() >= n); for (int i = 0; i < n; ++i) EQ(h[i].val(), c[i]); }
    if (k) { int m = rng(1, 300); std::vector<mint> x(m); x[0] = 1; SemiRelaxedConvolutionNTT<mint> q(f); for (int i = 0; i + 1 < m; ++i) x[i + 1] = q.append(x[i]); for (int i = 0; i + 1 < m; ++i) { mint w = 0; for (int j = 0; j <= i && j < k; ++j) w += f[j] * x[i - j]; EQ(x[i + 1].val(), w.val(), i); } } }
SCENARIO(chirp_z, 150) {
    int n = rng.pct(50) ? rng.size(0, 59) : rng(58, 200), m = rng.size(0, 150); LOG(n, m); auto f = rv<mint>(rng, n, 998244352); mint a = rng.pct(20) ? rng(0, 2) : rng(0, 998244352), r = rng.pct(20) ? rng(0, 2) : rng(0, 998244352); LOG(a.val(), r.val()); std::vector<mint> w(m); mint x = a; for (int k = 0; k < m; ++k, x *= r) for (int i = n; i-- > 0;) w[k] = w[k] * x + f[i];
    EQV(vals(chirp_z_transform(f, a, r, m)), vals(w)); EQV(vals(chirp_z_transform<mint>(f, a, r, m, conv_fn)), vals(w)); EQV(vals(internal::chirp_z_transform_naive(f, a, r, m)), vals(w)); }
SCENARIO(big, 3) { int n = rng(3000, 9000), m = rng(3000, 9000); LOG(n, m); auto a = rv<m7>(rng, n, 1000000006), b = rv<m7>(rng, m, 1000000006); auto c = vals(arbitrary_mod_convolution(a, b)); auto x = vals(a), y = vals(b); for (int q = 0; q < 200; ++q) { int k = rng.pct(10) ? (rng.coin() ? 0 : n + m - 2) : rng(0, n + m - 2); u64 s = 0; for (int i = std::max(0, k - m + 1); i < n && i <= k; ++i) s = (s + (u64)x[i] * y[k - i]) % 1000000007; EQ(c[k], (u32)s, k); }
    RelaxedConvolutionNTT<mint> r; auto f = rv<mint>(rng, n, 998244352), g = rv<mint>(rng, n, 998244352); SemiRelaxedConvolutionNTT<mint> sr(f); for (int i = 0; i < n; ++i) { mint v = r.append(f[i], g[i]), u = sr.append(g[i]); EQ(v.val(), u.val(), i); if (rng.pct(2)) { mint w = 0; for (int j = 0; j <= i; ++j) w += f[j] * g[i - j]; EQ(v.val(), w.val(), i); } } 
    u64 nn = rng(2000, 5000), mm = rng(2000, 5000); auto p = rv<unsigned long long>(rng, nn, UINT64_MAX), q = rv<unsigned long long>(rng, mm, UINT64_MAX); auto z = convolution_mod_2_64(p, q); for (int t = 0; t < 200; ++t) { int k = rng(0, nn + mm - 2); u64 s = 0; for (int i = std::max<int>(0, k - (int)mm + 1); i < (int)nn && i <= k; ++i) s += p[i] * q[k - i]; EQ(z[k], s, k); } }
// the same workloads at realistic sizes
RESCALE(semi_relaxed, 4, 64);
RESCALE(chirp_z, 4, 64);
RESCALE(relaxed, 4, 32);
RESCALE(arbitrary_mod, 4, 16);
