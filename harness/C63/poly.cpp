// MON: shards=6
#include "mon.hpp"
#include <algorithm>
#include <atcoder/modint>
#include <atcoder/convolution>
#include <optional>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/fps.hpp"
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "library/polynomial/berlekamp_massey.hpp"
#include "library/polynomial/bostan_mori.hpp"
#include "library/polynomial/compose.hpp"
#include "library/polynomial/compose_exp.hpp"
#include "library/polynomial/compose_inv.hpp"
#include "library/polynomial/convert_to_newton_basis.hpp"
#include "library/polynomial/lagrange_interpolation.hpp"
#include "library/polynomial/multi_point_eval.hpp"
#include "library/polynomial/polynomial_gcd.hpp"
#include "library/polynomial/polynomial_interpolation.hpp"
#include "library/polynomial/polynomial_taylor_shift.hpp"
#include "library/polynomial/prod_f(r^k_x).hpp"
#include "library/polynomial/rational_fps.hpp"
#include "library/polynomial/rook_polynomial.hpp"
#include "library/polynomial/shift_of_sampling_points.hpp"
#include "library/polynomial/subset_sum.hpp"
#include "library/math/product_of_differences.hpp"
#include "library/convolution/polynomial_eval_multipoint_eval.hpp"
#include "library/transform/walsh_hadamard.hpp"
#include "model.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using m7 = atcoder::modint1000000007; using V = std::vector<u64>;
static constexpr u64 P0 = 998244353; using R = Ref<P0>;
using F = FormalPowerSeries<mint>; using G = FPS<m7>;
static int init = [] { FPS<mint>::set_multiplication([](const auto& a, const auto& b) { return atcoder::convolution(a, b); }); G::set_multiplication([](const auto& a, const auto& b) { return arbitrary_mod_convolution(a, b); }); return 0; }();
template <class M> static std::vector<M> mv(const V& v) { std::vector<M> r; for (u64 x : v) r.push_back(M((unsigned long long)x)); return r; }
static V distinct(mon::Rng& rng, int n, u64 P) { std::set<u64> s; V r; bool small = rng.coin(); while ((int)r.size() < n) { u64 x = small ? rng(0, 2 * n) : rng(0, P - 1); if (s.insert(x).second) r.push_back(x); } return r; }
static int sz(mon::Rng& rng, int lo) { return rng.pct(85) ? rng.size(lo, 40) : rng(60, 180); }
// linear complexity by elimination: least L such that some c satisfies every equation s_i = sum_j c_j s_{i-j}, i >= L
template <u64 P> static bool solvable(const V& s, int L) {
    int m = (int)s.size() - L; if (m <= 0) return true; std::vector<V> a(m, V(L + 1)); for (int i = 0; i < m; ++i) { for (int j = 1; j <= L; ++j) a[i][j - 1] = s[L + i - j]; a[i][L] = s[L + i]; } int r = 0;
    for (int c = 0; c <= L && r < m; ++c) { int p = r; while (p < m && !a[p][c]) ++p; if (p == m) continue; if (c == L) return false; std::swap(a[p], a[r]); u64 iv = Ref<P>::inv(a[r][c]); for (auto& x : a[r]) x = x * iv % P; for (int i = r + 1; i < m; ++i) if (a[i][c]) { u64 k = a[i][c]; for (int j = c; j <= L; ++j) a[i][j] = (a[i][j] + (P - k) * a[r][j]) % P; } ++r; } return true; }
template <u64 P, class M> static void bm(mon::Rng& rng) {
    int n = rng.size(0, 24); V s; if (rng.coin()) { int L = rng(0, 8); V c(L), st(L); for (auto& x : c) x = rng.pct(30) ? 0 : rng(0, P - 1); for (auto& x : st) x = rng.pct(30) ? 0 : rng(0, P - 1); s = st; while ((int)s.size() < n) { u64 v = 0; for (int j = 1; j <= L; ++j) v = (v + c[j - 1] * s[s.size() - j]) % P; s.push_back(v); } s.resize(n); } else { s.resize(n); for (auto& x : s) x = rng.coin() ? 0 : rng(0, rng.coin() ? 1 : P - 1); } LOG(s);
    auto c = un(find_linear_recuurence(mv<M>(s))); REQUIRE(c.size() >= 1u); EQ(c[0], 1u); int L = (int)c.size() - 1; for (int i = L; i < n; ++i) { u64 v = 0; for (int j = 1; j <= L; ++j) v = (v + c[j] * s[i - j]) % P; EQ(v, s[i], i); } int w = 0; while (!solvable<P>(s, w)) ++w; EQ(L, w); }
SCENARIO(berlekamp_massey, 600) { bm<P0, mint>(rng); }
SCENARIO(berlekamp_massey_7, 200) { bm<1000000007, m7>(rng); }
template <class T, u64 P> static void bmori(mon::Rng& rng) {
    using R = Ref<P>; auto p = R::random(rng, rng.size(0, 30)), q = R::random(rng, rng.size(1, 30)); if (!q[0]) q[0] = rng(1, P - 1); int lim = 120 * rng.mag; auto w = R::cut(R::mul(p, R::inverse(q, lim)), lim); LOG(p.size(), q.size()); for (int i = 0; i < 4; ++i) { int n = rng.upto(0, lim - 1); EQ(bostan_mori(mk<T>(p), mk<T>(q), n).val(), w[n], n); }
    { u64 r = rng(0, P - 1), a0 = rng(0, P - 1); i64 n = rng.wide(1000000000000000000LL); EQ(bostan_mori(mk<T>({ a0 }), mk<T>({ 1, (P - r) % P }), n).val(), a0 * R::pw(r, n) % P, n); }
    int K = rng.size(1, 12), A = K + rng(0, 5); V a(A), c(K); for (auto& x : c) x = rng(0, P - 1); for (int i = 0; i < K; ++i) a[i] = rng(0, P - 1); for (int i = K; i < lim; ++i) { u64 v = 0; for (int j = 0; j < K; ++j) v = (v + c[j] * R::at(a, i - 1 - j)) % P; if (i < A) a[i] = v; else a.push_back(v); } V pre(a.begin(), a.begin() + A); LOG(K, A); for (int i = 0; i < 4; ++i) { int n = rng(0, lim - 1); EQ(nth_term_of_linearly_recurrent_sequence(mk<T>(pre), mk<T>(c), n).val(), a[n], n); } }
SCENARIO(bostan_mori, 200) { bmori<F, P0>(rng); }
SCENARIO(bostan_mori_7, 100) { bmori<G, 1000000007>(rng); }
SCENARIO(compose, 300) { auto f = R::random(rng, sz(rng, 0)), g = R::random(rng, sz(rng, 0)); int n = rng.pct(30) ? (int)f.size() : sz(rng, 0); LOG(f.size(), g.size(), n); EQV(un(compose(mv<mint>(f), mv<mint>(g), n)), R::compose(f, g, n)); }
SCENARIO(compose_inv, 200) { int n = sz(rng, 0); auto f = R::random(rng, rng.pct(60) ? std::max(2, n) : sz(rng, 2)); f[0] = 0; if (!f[1]) f[1] = rng(1, P0 - 1); LOG(f.size(), n); auto g = un(compositional_inv(mv<mint>(f), n)); EQ((int)g.size(), n); V x(n); if (n > 1) x[1] = 1; EQV(R::compose(f, g, n), x); EQV(R::compose(g, f, n), x); }
template <class T, u64 P> static void cexp(mon::Rng& rng) { using R = Ref<P>; auto f = R::random(rng, sz(rng, 0)); int n = sz(rng, 1); LOG(f.size(), n); V w(n); u64 fac = 1; std::vector<u64> pw(f.size(), 1); for (int k = 0; k < n; ++k) { if (k) fac = fac * k % P; u64 s = 0; for (size_t i = 0; i < f.size(); ++i) { s = (s + f[i] * pw[i]) % P; pw[i] = pw[i] * i % P; } w[k] = s * R::inv(fac) % P; } EQV(un(compose_exp(mk<T>(f), n)), w); }
SCENARIO(compose_exp, 200) { cexp<F, P0>(rng); }
SCENARIO(compose_exp_7, 60) { cexp<G, 1000000007>(rng); }
template <class T, u64 P> static void points(mon::Rng& rng) {
    using R = Ref<P>; using M = typename T::value_type; int n = sz(rng, 1); auto xs = distinct(rng, n, P); auto f = R::random(rng, n); LOG(n); V ys(n); for (int i = 0; i < n; ++i) ys[i] = R::eval(f, xs[i]); auto X = mv<M>(xs), Y = mv<M>(ys);
    EQV(R::trim(un(polynomial_interpolation<T>(X, Y))), R::trim(f)); for (int q = 0; q < 3; ++q) { u64 t = rng.pct(40) ? rng.pick(xs) : rng(0, P - 1); u64 w = R::eval(f, t); EQ(lagrange_interpolation_naive<M>(X, Y, M((unsigned long long)t)).val(), w, t); EQ((lagrange_interpolation<T, M>(X, Y, M((unsigned long long)t)).val()), w, t); }
    { u64 a = rng(1, P - 1), b = rng(0, P - 1); V z(n), z1(n); for (int i = 0; i < n; ++i) z[i] = R::eval(f, (a * i + b) % P), z1[i] = R::eval(f, i); for (int q = 0; q < 3; ++q) { u64 t = rng.coin() ? (a * rng(0, n - 1) + b) % P : rng(0, P - 1), t1 = rng.coin() ? rng(0, n + 2) : rng(0, P - 1); EQ(lagrange_interpolation_arithmetic_progression(M((unsigned long long)a), M((unsigned long long)b), mv<M>(z), M((unsigned long long)t)).val(), R::eval(f, t), t); EQ(lagrange_interpolation_arithmetic_progression(mv<M>(z1), M((unsigned long long)t1)).val(), R::eval(f, t1), t1); } }
    { auto p = R::random(rng, sz(rng, 0)); V pts(sz(rng, 0)); u64 hi = rng.coin() ? 5 : P - 1; for (auto& x : pts) x = rng(0, hi); V w; for (u64 x : pts) w.push_back(R::eval(p, x)); EQV(un(multi_point_eval(mk<T>(p), mv<M>(pts))), w); V d; for (size_t i = 0; i < pts.size(); ++i) { u64 v = 1; for (size_t j = 0; j < pts.size(); ++j) if (i != j) v = v * (pts[i] + P - pts[j]) % P; d.push_back(v); } EQV(un(product_of_differences<T>(mv<M>(pts))), d); }
    { V p(n); for (auto& x : p) x = rng.coin() ? rng(0, 4) : rng(0, P - 1); auto b = un(convert_to_newton_basis(mk<T>(f), mv<M>(p))); EQ((int)b.size(), n); V s, pr{ 1 }; for (int i = 0; i < n; ++i) { s = R::add(s, R::scale(pr, b[i])); pr = R::mul(pr, { (P - p[i]) % P, 1 }); } EQV(R::trim(s), R::trim(f)); }
    { u64 c = rng.coin() ? rng(0, 3) : rng(0, P - 1); auto w = R::compose(f, { c, 1 }, n); EQV(un(translate(mk<T>(f), M((unsigned long long)c))), w); EQ(R::trim(un(translate(T{}, M(3)))).size(), 0u); } }
SCENARIO(points, 200) { points<F, P0>(rng); }
SCENARIO(points_7, 60) { points<G, 1000000007>(rng); }
SCENARIO(sampling_shift, 200) { int n = sz(rng, 1), m = sz(rng, 0); auto f = R::random(rng, n); u64 t = rng.coin() ? rng(0, n + 3) : rng(0, P0 - 1); LOG(n, m, t); V ys(n), w(m); for (int i = 0; i < n; ++i) ys[i] = R::eval(f, i); for (int i = 0; i < m; ++i) w[i] = R::eval(f, (t + i) % P0); EQV(un(shift_of_sampling_points(mv<mint>(ys), mint((unsigned long long)t), m)), w); using Q = Ref<1000000007>; for (int i = 0; i < n; ++i) f[i] %= 1000000007, ys[i] = 0; for (int i = 0; i < n; ++i) ys[i] = Q::eval(f, i); for (int i = 0; i < m; ++i) w[i] = Q::eval(f, (t + i) % 1000000007); EQV(un(shift_of_sampling_points(mv<m7>(ys), m7((unsigned long long)t), m, [](const std::vector<m7>& a, const std::vector<m7>& b) { return arbitrary_mod_convolution(a, b); })), w); }
template <class T, u64 P> static V euclid(V a, V b) { using R = Ref<P>; a = R::trim(a), b = R::trim(b); while (b.size()) { auto r = R::divmod(a, b).second; a = b; b = r; } if (a.size()) a = R::scale(a, R::inv(a.back())); return a; }
template <class T, u64 P> static void pgcd(mon::Rng& rng, int lo, int hi) {
    using R = Ref<P>; V a, b; int style = rng(0, 3); if (style == 0) a = R::random(rng, rng(lo, hi)), b = R::random(rng, rng(lo, hi)); else if (style == 1) { auto c = R::random(rng, rng(1, std::max(1, hi / 3)), 3); a = R::mul(c, R::random(rng, rng(1, hi), 3)); b = R::mul(c, R::random(rng, rng(1, hi), 3)); } else { /* a remainder sequence with chosen quotient degrees (gaps) */ a = R::random(rng, rng(1, 5), 3); int steps = 0; while ((int)a.size() < hi && steps++ < 400) { auto q = R::random(rng, 2 + (style == 2 ? (rng.pct(10) ? (int)rng(0, hi / 4) : 0) : (int)rng(0, 6)), 3); if (q.back() == 0) q.back() = 1; auto n = R::add(R::mul(q, a), b); b = a; a = n; } } if (rng.coin()) std::swap(a, b); LOG(a.size(), b.size(), style);
    auto g = euclid<T, P>(a, b); const T A = mk<T>(a), B = mk<T>(b); auto [x, y, z] = polynomial_ext_gcd(A, B); EQV(R::trim(un(z)), g); EQV(R::trim(R::add(R::mul(a, un(x)), R::mul(b, un(y)))), g); EQV(R::trim(un(polynomial_gcd(A, B))), g); auto [u, h] = polynomial_gcd_inv(A, B); EQV(R::trim(un(h)), g); if (R::trim(b).size()) { EQV(R::divmod(R::mul(a, un(u)), b).second, R::divmod(g, b).second); if (g == V{ 1 }) EQV(R::divmod(R::mul(a, un(polynomial_inv(A, B))), b).second, R::divmod({ 1 }, b).second); } }
SCENARIO(gcd_small, 300) { pgcd<F, P0>(rng, 0, rng.size(1, 40)); }
SCENARIO(gcd_small_7, 100) { pgcd<G, 1000000007>(rng, 0, rng.size(1, 40)); }
SCENARIO(gcd_half, 16) { pgcd<F, P0>(rng, 200, rng(260, 700)); }
SCENARIO(gcd_half_7, 4) { pgcd<G, 1000000007>(rng, 200, rng(260, 600)); }
template <class T, u64 P> static void prodf(mon::Rng& rng) {
    using R = Ref<P>; using M = typename T::value_type; auto f = R::random(rng, sz(rng, 1)); u64 r = rng.pct(20) ? rng(0, 2) : rng.pct(30) ? P - rng(1, 2) : rng.pct(30) ? R::pw(P == P0 ? 3 : 5, (P - 1) / 2 / (P == P0 ? (1 << rng(0, 4)) : 1)) : rng(0, P - 1); int m = rng.pct(80) ? rng.size(0, 25) : rng(0, 300); int n = rng.coin() ? (int)f.size() : sz(rng, 1), N = n == (int)f.size() && rng.coin() ? -1 : n; LOG(f.size(), r, m, N); V w(n); w[0] = 1; u64 rk = 1; for (int k = 0; k < m; ++k) { V h(f); u64 c = 1; for (auto& x : h) x = x * c % P, c = c * rk % P; w = R::cut(R::mul(w, R::cut(h, n)), n); rk = rk * r % P; } EQV(un(prod_f_rk_x(mk<T>(f), M((unsigned long long)r), m, N)), w); }
SCENARIO(prod_f, 300) { prodf<F, P0>(rng); }
SCENARIO(prod_f_7, 80) { prodf<G, 1000000007>(rng); }
SCENARIO(prod_f_huge_m, 60) { int n = rng.size(1, 40); V f(n); f[0] = 1; if (n > 1) f[1] = rng(0, P0 - 1); for (int i = 2; i < n; ++i) f[i] = rng.coin() ? 0 : rng(0, P0 - 1); u64 r = rng(2, P0 - 1); int m = rng.coin() ? 2147483647 - rng(0, 3) : rng(1, 2147483647); LOG(n, r, m); /* log f(r^k x) summed over k: coefficient i is scaled by the geometric sum */ auto l = R::log(f, n); for (int i = 1; i < n; ++i) { u64 ri = R::pw(r, i), s; if (ri == 1) s = m % P0; else s = (R::pw(ri, m) + P0 - 1) % P0 * R::inv(ri + P0 - 1) % P0; l[i] = l[i] * s % P0; } EQV(un(prod_f_rk_x(mk<F>(f), mint((unsigned long long)r), m)), R::exp(l, n)); V z(n); if (n > 1) { z[1] = 5; EQV(un(prod_f_rk_x(mk<F>(z), mint((unsigned long long)r), std::max(m, n))), V(n)); } }
template <class T, u64 P> static void rational(mon::Rng& rng) {
    using R = Ref<P>; using M = typename T::value_type; using Q = RationalFPS<T>; int n = sz(rng, 1); auto gen = [&](V& num, V& den) { num = R::random(rng, rng.size(1, 12)); den = R::random(rng, rng.size(1, 12)); if (!den[0]) den[0] = rng(1, P - 1); }; V a, b, c, d; gen(a, b), gen(c, d); LOG(n, a, b, c, d); auto ser = [&](const V& x, const V& y) { return R::cut(R::mul(x, R::inverse(y, n)), n); }; auto A = ser(a, b), C = ser(c, d); Q p(mk<T>(a), mk<T>(b)), q(std::make_pair(mk<T>(c), mk<T>(d))); auto S = [&](const Q& x) { return R::cut(un(x.to_fps(n)), n); };
    EQV(un(p.to_fps(n)), A); EQV(S(p + q), R::cut(R::add(A, C), n)); EQV(S(p - q), R::cut(R::sub(A, C), n)); EQV(S(p * q), R::cut(R::mul(A, C), n)); EQV(S(-p), R::cut(R::sub({}, A), n)); EQV(S(+p), A); u64 k = rng(1, P - 1); M K((unsigned long long)k); EQV(S(p * K), R::scale(A, k)); EQV(S(K * p), R::scale(A, k)); EQV(S(p / K), R::scale(A, R::inv(k))); { Q t = p; t += q; EQV(S(t), R::cut(R::add(A, C), n)); t -= q; EQV(S(t), A); t *= q; EQV(S(t), R::cut(R::mul(A, C), n)); t *= K; EQV(S(t), R::scale(R::cut(R::mul(A, C), n), k)); t /= K; EQV(S(t), R::cut(R::mul(A, C), n)); if (a[0]) { EQV(S(p.inv()), ser(b, a)); EQV(S(K / p), R::scale(ser(b, a), k)); t = p; t.inv_inplace(); EQV(S(t), ser(b, a)); } t = p; auto qu = un(t.normalize()); auto [qq, rr] = R::divmod(a, b); EQV(R::trim(qu), R::trim(qq)); EQV(R::trim(un(t.num)), rr); EQV(un(t.den), b); t = p; t.cut(n); EQV(S(t), A); }
    { /* common zeros at the origin cancel */ int s = rng(0, 4); Q t(mk<T>(a) << s, mk<T>(b) << s); EQV(S(t), A); } std::vector<Q> fs; V sm(n), pr(n); pr[0] = 1; int cnt = rng(0, 6); for (int i = 0; i < cnt; ++i) { gen(a, b); fs.emplace_back(mk<T>(a), mk<T>(b)); auto x = ser(a, b); sm = R::cut(R::add(sm, x), n); pr = R::cut(R::mul(pr, x), n); } EQV(S(Q::sum(fs)), sm); EQV(S(Q::prod(fs)), pr); EQV(S(Q(K)), R::cut({ k }, n)); EQV(S(Q()), V(n)); }
SCENARIO(rational, 200) { rational<F, P0>(rng); }
SCENARIO(rational_7, 60) { rational<G, 1000000007>(rng); }
SCENARIO(rook, 250) {
    /* count placements column by column; a row interrupted by a shorter column is two separate rows (rooks do not attack across gaps) */
    auto brute = [&](const std::vector<int>& h) { std::map<std::pair<int, int>, u64> dp{ { { 0, 0 }, 1 } }; for (int x : h) { std::map<std::pair<int, int>, u64> nx; for (auto& [k, v] : dp) { int s = k.first & ((1 << x) - 1); (nx[{ s, k.second }] += v) %= P0; for (int r = 0; r < x; ++r) if (!(s >> r & 1)) (nx[{ s | 1 << r, k.second + 1 }] += v) %= P0; } dp = nx; } V w(h.size() + 1); for (auto& [k, v] : dp) w[k.second] = (w[k.second] + v) % P0; return w; };
    int n = rng.size(1, 8); std::vector<int> h(n); for (auto& x : h) x = rng(0, 7); LOG(h); EQV(R::cut(un(rook_polynomial_skyline_board<F>(h)), n + 1), brute(h)); std::sort(h.begin(), h.end()); EQV(R::cut(un(rook_polynomial_ferrers_board<F>(h)), n + 1), brute(h));
    /* large boards: recurrence for a Ferrers board */
    n = rng(1, 60); std::vector<int> g(n); int lim = rng.coin() ? 80 : 500000000; for (auto& x : g) x = rng(0, lim); std::sort(g.begin(), g.end()); V dp(n + 1); dp[0] = 1; for (int c = 0; c < n; ++c) for (int k = c; k >= 0; --k) { i64 f = g[c] - k; if (f > 0) dp[k + 1] = (dp[k + 1] + dp[k] * (u64)f) % P0; } EQV(R::cut(un(rook_polynomial_ferrers_board<F>(g)), n + 1), dp); EQV(R::cut(un(rook_polynomial_skyline_board<F>(g)), n + 1), dp); EQ(R::trim(un(rook_polynomial_ferrers_board<F>({}))).size(), 1u); }
template <class T, u64 P> static void ssum(mon::Rng& rng) { int n = sz(rng, 0), k = rng.size(0, 40); std::vector<int> it(k); for (auto& x : it) x = rng.pct(5) ? 2147483647 : rng.pct(50) ? rng(0, 5) : rng(0, n + 5); LOG(n, it); V w(n + 1); w[0] = 1; for (int e : it) for (int s = n; s >= 0; --s) if (e <= s) w[s] = (w[s] + w[s - e]) % P; EQV(un(subset_sum<T>(n, it)), w); }
SCENARIO(subset_sum, 300) { ssum<F, P0>(rng); }
SCENARIO(subset_sum_7, 100) { ssum<G, 1000000007>(rng); }
static void wh(std::vector<mint>& a) { walsh_hadamard_transform::walsh_hadamard(a); }
static void whi(std::vector<mint>& a) { walsh_hadamard_transform::walsh_hadamard_inv(a); }
SCENARIO(eval_xor, 100) { int L = rng(0, 5), n = 1 << L; V a(n), f; for (auto& x : a) x = rng(0, P0 - 1); f = R::random(rng, rng.size(0, 12)); LOG(L, f.size()); V w(n), pw(n); pw[0] = 1; for (u64 c : f) { for (int i = 0; i < n; ++i) w[i] = (w[i] + c * pw[i]) % P0; V nx(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) nx[i ^ j] = (nx[i ^ j] + pw[i] * a[j]) % P0; pw = nx; } FPS<mint> ff = mk<FPS<mint>>(f); EQV((un(polynomial_eval<mint, wh, whi>(mv<mint>(a), ff))), w); const auto ca = mv<mint>(a); EQV((un(polynomial_eval<mint, wh, whi>(ca, ff))), w); }
// the same workloads at realistic sizes
RESCALE(berlekamp_massey, 4, 16);
RESCALE(bostan_mori, 4, 128);
RESCALE(bostan_mori_7, 4, 128);
RESCALE(compose_exp_7, 4, 256);
RESCALE(berlekamp_massey_7, 4, 16);
RESCALE(sampling_shift, 4, 128);
RESCALE(compose_inv, 4, 8);
RESCALE(compose, 4, 16);
RESCALE(gcd_small, 4, 128);
RESCALE(gcd_small_7, 4, 64);
RESCALE(points_7, 4, 16);
RESCALE(prod_f_7, 4, 32);
RESCALE(points, 4, 16);
RESCALE(rational, 4, 128);
RESCALE(subset_sum, 4, 512);
RESCALE(eval_xor, 4, 512);
RESCALE(prod_f, 4, 16);
RESCALE(prod_f_huge_m, 4, 256);
RESCALE(rational_7, 4, 64);
RESCALE(rook, 4, 64);
RESCALE(subset_sum_7, 4, 512);
