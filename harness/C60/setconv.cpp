// MON: shards=4
#include "mon.hpp"
#include <atcoder/modint>
#include <algorithm>
#include "library/convolution/and_convolution.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/xor_convolution.hpp"
#include "library/convolution/gcd_convolution.hpp"
#include "library/convolution/lcm_convolution.hpp"
#include "library/convolution/dirichlet_convolution.hpp"
#include "library/convolution/min_plus_convolution.hpp"
#include "library/convolution/subset_convolution.hpp"
#include "library/convolution/array_subset_convolution.hpp"
#include "library/convolution/polynomial_eval.hpp"
#include "library/convolution/convolution_naive.hpp"
#include "library/transform/kronecker.hpp"
#include "library/transform/kronecker_power.hpp"
#include "library/util/step_view.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using m7 = atcoder::modint1000000007;
template <class T> static std::vector<T> rv(mon::Rng& rng, int n, i64 lo = 0, i64 hi = 998244352) { if (rng.pct(20)) hi = std::min<i64>(hi, lo + 3); std::vector<T> a(n); int z = rng.pct(25) ? rng(0, 100) : 0; for (auto& x : a) x = rng.pct(z) ? T(0) : T(rng(lo, hi)); return a; }
template <class M> static std::vector<u32> vals(const std::vector<M>& a) { std::vector<u32> r; for (auto& x : a) r.push_back(x.val()); return r; }
template <class T, class Op> static std::vector<T> brute(const std::vector<T>& a, const std::vector<T>& b, Op op, size_t from = 0) { std::vector<T> c(a.size()); for (size_t i = from; i < a.size(); ++i) for (size_t j = from; j < b.size(); ++j) { size_t k = op(i, j); if (k < c.size()) c[k] += a[i] * b[j]; } return c; }
SCENARIO(bitwise_convolutions, 250) {
    int lg = rng.mag > 1 ? rng(9, 10) : rng(0, rng.pct(10) ? 9 : 6), n = 1 << lg; LOG(n); auto a = rv<mint>(rng, n), b = rv<mint>(rng, n);
    EQV(vals(and_convolution(a, b)), vals(brute(a, b, [](size_t i, size_t j) { return i & j; })));
    EQV(vals(or_convolution(a, b)), vals(brute(a, b, [](size_t i, size_t j) { return i | j; })));
    EQV(vals(xor_convolution(a, b)), vals(brute(a, b, [](size_t i, size_t j) { return i ^ j; })));
    auto sub = [](const std::vector<mint>& a, const std::vector<mint>& b) { std::vector<mint> c(a.size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = i;; j = (j - 1) & i) { c[i] += a[j] * b[i ^ j]; if (!j) break; } return c; };
    EQV(vals(subset_convolution(a, b)), vals(sub(a, b)));
    if (lg <= 9) { auto ra = array_ranked_subset_transform::ranked_zeta<mint, 10>(a), rb = array_ranked_subset_transform::ranked_zeta<mint, 10>(b); for (int i = 0; i < n; ++i) ra[i] = ra[i] * rb[i]; EQV(vals(array_ranked_subset_transform::deranked_mobius<mint, 10>(ra)), vals(sub(a, b))); }
    else { auto ra = array_ranked_subset_transform::ranked_zeta<mint, 11>(a), rb = array_ranked_subset_transform::ranked_zeta<mint, 11>(b); for (int i = 0; i < n; ++i) ra[i] = ra[i] * rb[i]; EQV(vals(array_ranked_subset_transform::deranked_mobius<mint, 11>(ra)), vals(sub(a, b))); }
    auto p = rv<i64>(rng, n, -1000, 1000), q = rv<i64>(rng, n, -1000, 1000);
    EQV(and_convolution(p, q), brute(p, q, [](size_t i, size_t j) { return i & j; })); EQV(or_convolution(p, q), brute(p, q, [](size_t i, size_t j) { return i | j; })); EQV(xor_convolution(p, q), brute(p, q, [](size_t i, size_t j) { return i ^ j; }));
    std::vector<std::vector<mint>> many(rng(1, 4)); for (auto& v : many) v = rv<mint>(rng, n); auto acc = many[0]; for (size_t i = 1; i < many.size(); ++i) acc = brute(acc, many[i], [](size_t i, size_t j) { return i | j; });
    EQV(vals(convolution::transform_convolution<mint, subset_transform::zeta<mint>, subset_transform::mobius<mint>>(many)), vals(acc)); }
SCENARIO(bit_transforms, 250) {
    int lg = rng.mag > 1 ? rng(8, 10) : rng(0, 7), n = 1 << lg; LOG(n); auto a = rv<mint>(rng, n); auto s = a, t = a, w = a; subset_transform::zeta(s); supset_transform::zeta(t); walsh_hadamard_transform::walsh_hadamard(w);
    for (int i = 0; i < n; ++i) { mint x = 0, y = 0, z = 0; for (int j = 0; j < n; ++j) { if ((i & j) == j) x += a[j]; if ((i & j) == i) y += a[j]; z += __builtin_parity(i & j) ? -a[j] : a[j]; } EQ(s[i].val(), x.val(), i); EQ(t[i].val(), y.val(), i); EQ(w[i].val(), z.val(), i); }
    subset_transform::mobius(s); supset_transform::mobius(t); walsh_hadamard_transform::walsh_hadamard_inv(w); EQV(vals(s), vals(a)); EQV(vals(t), vals(a)); EQV(vals(w), vals(a));
    auto b = rv<mint>(rng, n); s = b; subset_transform::mobius(s); subset_transform::zeta(s); EQV(vals(s), vals(b)); t = b; supset_transform::mobius(t); supset_transform::zeta(t); EQV(vals(t), vals(b));
    auto p = rv<i64>(rng, n, -1000000000, 1000000000); auto v = p; walsh_hadamard_transform::walsh_hadamard(v); walsh_hadamard_transform::walsh_hadamard_inv(v); EQV(v, p);
    // k-fold xor power through point-wise evaluation
    int k = rng(0, 5); auto c = polynomial_eval<mint, walsh_hadamard_transform::walsh_hadamard<mint>, walsh_hadamard_transform::walsh_hadamard_inv<mint>>(a, [k](mint x) { return x.pow(k) + 3 * x; });
    std::vector<mint> pw(n); pw[0] = 1; for (int i = 0; i < k; ++i) pw = brute(pw, a, [](size_t i, size_t j) { return i ^ j; }); for (int i = 0; i < n; ++i) pw[i] += 3 * a[i]; EQV(vals(c), vals(pw)); auto a2 = a; EQV(vals(polynomial_eval<mint, walsh_hadamard_transform::walsh_hadamard<mint>, walsh_hadamard_transform::walsh_hadamard_inv<mint>>(std::move(a2), [](mint x) { return x * x; })), vals(brute(a, a, [](size_t i, size_t j) { return i ^ j; }))); }
SCENARIO(gcd_lcm, 250) {
    int n = rng.pct(10) ? rng(0, 500) : rng.size(0, 70); LOG(n); auto a = rv<mint>(rng, n), b = rv<mint>(rng, n); if (n) a[0] = b[0] = 0;
    EQV(vals(gcd_convolution(a, b)), vals(brute(a, b, [](size_t i, size_t j) { return std::gcd(i, j); }, 1))); EQV(vals(lcm_convolution(a, b)), vals(brute(a, b, [](size_t i, size_t j) { return std::lcm(i, j); }, 1)));
    auto p = rv<i64>(rng, n, -1000, 1000), q = rv<i64>(rng, n, -1000, 1000); if (n) p[0] = q[0] = 0; EQV(gcd_convolution(p, q), brute(p, q, [](size_t i, size_t j) { return std::gcd(i, j); }, 1)); EQV(lcm_convolution(p, q), brute(p, q, [](size_t i, size_t j) { return std::lcm(i, j); }, 1));
    auto d = p, m = p; divisor_transform::zeta(d); multiple_transform::zeta(m); for (int i = 1; i < n; ++i) { i64 x = 0, y = 0; for (int j = 1; j < n; ++j) { if (i % j == 0) x += p[j]; if (j % i == 0) y += p[j]; } EQ(d[i], x, i); EQ(m[i], y, i); } divisor_transform::mobius(d); multiple_transform::mobius(m); EQV(d, p); EQV(m, p);
    d = q; m = q; divisor_transform::mobius(d); multiple_transform::mobius(m); divisor_transform::zeta(d); multiple_transform::zeta(m); EQV(d, q); EQV(m, q); }
SCENARIO(dirichlet, 250) {
    int n = rng.size(0, 200); auto a = rv<i64>(rng, rng.pct(50) ? n : rng(0, 250), -100, 100), b = rv<i64>(rng, rng.pct(50) ? n : rng(0, 250), -100, 100); LOG(n, a.size(), b.size()); std::vector<i64> c(n), d(n); for (size_t i = 1; i < a.size(); ++i) for (size_t j = 1; j < b.size(); ++j) if (i * j < (size_t)n) { c[i * j] += a[i] * b[j]; if (std::gcd(i, j) == 1) d[i * j] += a[i] * b[j]; }
    EQV(dirichlet_convolution(a, b, n), c); EQV(dirichlet_convolution_coprime(a, b, n), d); }
SCENARIO(min_plus, 400) {
    auto convex = [&](int n) { std::vector<i64> d(n - 1); int mode = rng(0, 2); for (auto& x : d) x = mode == 0 ? rng(-3, 3) : mode == 1 ? rng(-1000000000, 1000000000) : 0; std::sort(d.begin(), d.end()); std::vector<i64> a(n); a[0] = rng(-1000000000, 1000000000); for (int i = 1; i < n; ++i) a[i] = a[i - 1] + d[i - 1]; return a; };
    int n = rng.size(1, 60), m = rng.size(1, 60); LOG(n, m); auto a = convex(n), b = convex(m), r = rv<i64>(rng, m, -rng.wide(1000000000000) - 5, rng.wide(1000000000000)); auto bf = [](const std::vector<i64>& a, const std::vector<i64>& b) { std::vector<i64> c(a.size() + b.size() - 1, INT64_MAX); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] = std::min(c[i + j], a[i] + b[j]); return c; };
    EQV(min_plus_convolution_convex_convex(a, b), bf(a, b)); EQV(min_plus_convolution_convex_arbitrary(a, b), bf(a, b)); EQV(min_plus_convolution_convex_arbitrary(a, r), bf(a, r)); }
SCENARIO(kronecker, 300) {
    std::vector<int> dims; int n = 1; int k = rng(0, 5); for (int i = 0; i < k; ++i) { int d = rng.pct(10) ? 1 : rng(1, 6); if (n * d > (rng.mag > 1 ? 3000 : 400)) break; dims.push_back(d); n *= d; } LOG(dims); auto dig = [&](int i) { std::vector<int> v; for (int d : dims) v.push_back(i % d), i /= d; return v; }; std::vector<std::vector<int>> D; for (int i = 0; i < n; ++i) D.push_back(dig(i)); auto le = [&](int i, int j) { for (size_t t = 0; t < dims.size(); ++t) if (D[i][t] > D[j][t]) return false; return true; };
    auto a = rv<i64>(rng, n, -1000000, 1000000); auto s = a, t = a; kronecker_transform::sub_zeta(s, dims); kronecker_transform::sup_zeta(t, dims); for (int i = 0; i < n; ++i) { i64 x = 0, y = 0; for (int j = 0; j < n; ++j) { if (le(j, i)) x += a[j]; if (le(i, j)) y += a[j]; } EQ(s[i], x, i); EQ(t[i], y, i); } kronecker_transform::sub_mobius(s, dims); kronecker_transform::sup_mobius(t, dims); EQV(s, a); EQV(t, a); s = t = a; kronecker_transform::sub_mobius(s, dims); kronecker_transform::sub_zeta(s, dims); kronecker_transform::sup_mobius(t, dims); kronecker_transform::sup_zeta(t, dims); EQV(s, a); EQV(t, a);
    // per-dimension transform: each line is visited once with the right stride
    std::vector<int> seen(n); kronecker_transform::transform(seen, dims, [&](int id, StepView<std::vector<int>> v) { EQ((int)v.size(), dims[id]); for (size_t i = 0; i < v.size(); ++i) v[i]++; }); for (int i = 0; i < n; ++i) EQ(seen[i], (int)dims.size());
    // uniform dimension
    int d = rng(2, 4), e = rng(0, d == 2 ? 7 : 4), N = 1; for (int i = 0; i < e; ++i) N *= d; std::vector<int> ud(e, d); auto u = rv<i64>(rng, N, -1000, 1000); auto u1 = u, u2 = u; kronecker_transform::sub_zeta(u1, d); kronecker_transform::sub_zeta(u2, ud); EQV(u1, u2); kronecker_transform::sub_mobius(u1, d); EQV(u1, u); kronecker_transform::sup_zeta(u1, d); u2 = u; kronecker_transform::sup_zeta(u2, ud); EQV(u1, u2); kronecker_transform::sup_mobius(u1, d); EQV(u1, u);
    u1 = u; kronecker_transform::transform(u1, d, [&](StepView<std::vector<i64>> v) { for (size_t i = 1; i < v.size(); ++i) v[i] += v[i - 1]; }); u2 = u; kronecker_transform::sub_zeta(u2, d); EQV(u1, u2);
    // matrix Kronecker power
    std::vector<std::vector<mint>> A(d, std::vector<mint>(d)); for (auto& r : A) r = rv<mint>(rng, d); auto x = rv<mint>(rng, N); std::vector<mint> y(N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { mint c = 1; for (int p = i, q = j, k = 0; k < e; ++k, p /= d, q /= d) c *= A[p % d][q % d]; y[i] += c * x[j]; } auto z = x; kronecker_power_transform::kronecker_power_transform(z, A); EQV(vals(z), vals(y));
    auto w = x; kronecker_power_transform::kronecker_power_transform(w, d, [&](std::vector<mint>& v) { std::reverse(v.begin(), v.end()); }); auto w2 = x; std::reverse(w2.begin(), w2.end()); EQV(vals(w), vals(w2)); }
SCENARIO(step_view, 200) {
    int n = rng(1, 60), step = rng(1, 7), start = rng(0, n - 1), sz = (n - 1 - start) / step + 1; LOG(n, step, start); auto a = rv<i64>(rng, n, -100, 100); const StepView<std::vector<i64>> v(a, start, step, sz); EQ((int)v.size(), sz); for (int i = 0; i < sz; ++i) EQ(v[i], a[start + i * step]); v[sz - 1] = 77; EQ(a[start + (sz - 1) * step], 77);
    using It = StepIterator<std::vector<i64>::iterator>; It b(a.begin() + start, step); It p = b; int at = 0; for (int q = 0; q < 30; ++q) { int to = rng(0, sz - 1); switch (rng(0, 6)) { case 0: p += to - at; at = to; break; case 1: p -= at - to; at = to; break; case 2: p = b + to; at = to; break; case 3: p = to + b; at = to; break; case 4: if (at + 1 < sz) { auto o = p++; REQUIRE(o == b + at); ++at; if (at + 1 < sz) ++p, ++at; } break; case 5: if (at) { auto o = p--; REQUIRE(o == b + at); --at; if (at) --p, --at; } break; default: { auto o = p - (at - to); p = o; at = to; } } EQ(*p, a[start + at * step]); EQ(p - b, at); EQ(p[-at], a[start]); REQUIRE((p == b) == (at == 0) && (p != b) == (at != 0) && (b < p) == (at > 0) && (b <= p) && (p > b) == (at > 0) && (p >= b)); } }
SCENARIO(naive, 100) { int n = rng(1, 20), m = rng(1, 20); auto a = rv<int>(rng, n, 0, 2147483647), b = rv<int>(rng, m, 0, 2147483647); std::vector<i128> c(n + m - 1); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c[i + j] += (i128)a[i] * b[j]; auto d = internal::convolution_naive<int, i128>(a, b); EQ(d.size(), c.size()); for (size_t i = 0; i < c.size(); ++i) REQUIRE(c[i] == d[i], i); }

RESCALE(bitwise_convolutions, 4, 2);
RESCALE(bit_transforms, 4, 2);
RESCALE(kronecker, 6, 2);
// realistic sizes: sparse times dense, all coefficients compared; transforms compared at sampled positions
SCENARIO(set_functions_large, 3) {
    int lg = rng(15, 17), n = 1 << lg; LOG(n); auto b = rv<mint>(rng, n); std::vector<std::pair<int, mint>> sp; std::vector<mint> a(n); for (int i = rng(3, 20); i--;) { int k = rng(0, n - 1); if (a[k] == 0) { a[k] = (unsigned)rng(1, 998244352); sp.emplace_back(k, a[k]); } } a[n - 1] += 5; sp.clear(); for (int i = 0; i < n; ++i) if (a[i] != 0) sp.emplace_back(i, a[i]);
    std::vector<mint> ca(n), co(n), cx(n), cs(n); for (auto [i, x] : sp) for (int j = 0; j < n; ++j) { mint v = x * b[j]; ca[i & j] += v; co[i | j] += v; cx[i ^ j] += v; if (!(i & j)) cs[i | j] += v; }
    EQV(vals(and_convolution(a, b)), vals(ca)); EQV(vals(or_convolution(a, b)), vals(co)); EQV(vals(xor_convolution(a, b)), vals(cx)); EQV(vals(and_convolution(b, a)), vals(ca)); EQV(vals(or_convolution(b, a)), vals(co)); EQV(vals(xor_convolution(b, a)), vals(cx)); if (lg <= 15) { EQV(vals(subset_convolution(a, b)), vals(cs)); EQV(vals(subset_convolution(b, a)), vals(cs)); }
    auto s = b, t = b, w = b; subset_transform::zeta(s); supset_transform::zeta(t); walsh_hadamard_transform::walsh_hadamard(w); for (int q = 0; q < 24; ++q) { int i = q == 0 ? n - 1 : q == 1 ? 0 : q < 12 ? n - 1 - (1 << rng(0, lg - 1)) : (int)rng(0, n - 1); mint x = 0, y = 0, z = 0; for (int j = 0; j < n; ++j) { if ((i & j) == j) x += b[j]; if ((i & j) == i) y += b[j]; z += __builtin_parity(i & j) ? -b[j] : b[j]; } EQ(s[i].val(), x.val(), i); EQ(t[i].val(), y.val(), i); EQ(w[i].val(), z.val(), i); }
    subset_transform::mobius(s); supset_transform::mobius(t); walsh_hadamard_transform::walsh_hadamard_inv(w); EQV(vals(s), vals(b)); EQV(vals(t), vals(b)); EQV(vals(w), vals(b));
}
SCENARIO(divisor_functions_large, 2) {
    int n = rng(70000, 140000); LOG(n); auto b = rv<mint>(rng, n); std::vector<mint> a(n); std::vector<int> nz; b[0] = 0; for (int i = 0; i < 12; ++i) { int k = i < 6 ? (int)rng(1, 400) : (int)rng(1, n - 1); a[k] = (unsigned)rng(1, 998244352); } for (int i = 1; i < n; ++i) if (a[i] != 0) nz.push_back(i);
    std::vector<mint> g(n), l(n), d(n); for (int i : nz) for (int j = 1; j < n; ++j) { int q = std::gcd(i, j); g[q] += a[i] * b[j]; i64 m = (i64)i / q * j; if (m < n) l[m] += a[i] * b[j]; if ((i64)i * j < n) d[i * j] += a[i] * b[j]; }
    EQV(vals(gcd_convolution(a, b)), vals(g)); EQV(vals(lcm_convolution(a, b)), vals(l)); EQV(vals(gcd_convolution(b, a)), vals(g)); EQV(vals(lcm_convolution(b, a)), vals(l)); EQV(vals(dirichlet_convolution(a, b, n)), vals(d)); EQV(vals(dirichlet_convolution(b, a, n)), vals(d));
    auto x = b, y = b; divisor_transform::zeta(x); multiple_transform::zeta(y); for (int q = 0; q < 40; ++q) { int i = q < 20 ? (int)rng(1, n - 1) : (int)rng(1, 300); mint u = 0, v = 0; for (int j = 1; j < n; ++j) { if (i % j == 0) u += b[j]; if (j % i == 0) v += b[j]; } EQ(x[i].val(), u.val(), i); EQ(y[i].val(), v.val(), i); } divisor_transform::mobius(x); multiple_transform::mobius(y); EQV(vals(x), vals(b)); EQV(vals(y), vals(b));
}
// the same workloads at realistic sizes
RESCALE(dirichlet, 4, 256);
RESCALE(min_plus, 4, 128);
RESCALE(gcd_lcm, 4, 16);
