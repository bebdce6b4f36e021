// MON: shards=4
#include "mon.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include <optional>
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/array_matrix.hpp"
#include "library/linear_algebra/characteristic_polynomial.hpp"
#include "library/linear_algebra/circulant_matrix.hpp"
#include "library/linear_algebra/count_spanning_trees.hpp"
#include "library/linear_algebra/gaussian_elimination.hpp"
#include "library/linear_algebra/hafnian.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using dmint = atcoder::modint;
static constexpr u64 P = 998244353;
using V = std::vector<u64>; using Mx = std::vector<V>;
static u64 pw(u64 a, u64 e, u64 m = P) { u64 r = 1 % m; for (a %= m; e; e >>= 1, a = (u128)a * a % m) if (e & 1) r = (u128)r * a % m; return r; }
static Mx rnd(mon::Rng& rng, int n, int m, u64 p = P) { Mx a(n, V(m)); int st = rng(0, 4); for (auto& r : a) for (auto& x : r) x = st == 0 ? rng(0, std::min<i64>(1, p - 1)) : st == 1 ? (rng.pct(70) ? 0 : rng(0, p - 1)) : st == 2 ? (rng.coin() ? p - 1 : rng(0, p - 1)) : rng(0, p - 1); if (rng.pct(40) && n >= 2) { /* make it singular */ int i = rng(0, n - 1), j = rng(0, n - 1); if (i != j) { u64 c = rng(0, p - 1); for (int k = 0; k < m; ++k) a[i][k] = (u128)a[j][k] * c % p; } } if (rng.pct(20) && n >= 3) { int i = rng(2, n - 1); for (int k = 0; k < m; ++k) a[i][k] = (a[i - 1][k] + a[i - 2][k]) % p; } return a; }
static Mx mul(const Mx& a, const Mx& b, u64 p = P) { Mx c(a.size(), V(b.empty() ? 0 : b[0].size())); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (a[i][j]) for (size_t k = 0; k < b[0].size(); ++k) c[i][k] = (c[i][k] + (u64)((u128)a[i][j] * b[j][k] % p)) % p; return c; }
static Mx eye(int n) { Mx a(n, V(n)); for (int i = 0; i < n; ++i) a[i][i] = 1; return a; }
static Mx mpow(Mx a, u64 e) { Mx r = eye(a.size()); for (; e; e >>= 1, a = mul(a, a)) if (e & 1) r = mul(r, a); return r; }
// determinant by expansion over column subsets: no division, valid for any modulus
static u64 det_sub(const Mx& a, u64 p) { int n = a.size(); V d(1 << n); d[0] = 1 % p; for (int s = 1; s < 1 << n; ++s) { int r = __builtin_popcount(s) - 1; u64 v = 0; for (int j = 0; j < n; ++j) if (s >> j & 1) { u64 t = (u128)d[s ^ 1 << j] * a[r][j] % p; if (__builtin_popcount(s >> (j + 1)) & 1) t = (p - t) % p; v = (v + t) % p; } d[s] = v; } return d.back(); }
template <class M> static Matrix<M> mk(const Mx& a) { std::vector<std::vector<M>> r; for (auto& x : a) { r.emplace_back(); for (u64 v : x) r.back().push_back(M((unsigned long long)v)); } return Matrix<M>(r); }
template <class X> static Mx un(const X& a) { Mx r; for (auto& x : a) { r.emplace_back(); for (auto& v : x) r.back().push_back(v.val()); } return r; }
static V unv(const std::vector<mint>& a) { V r; for (auto x : a) r.push_back(x.val()); return r; }
#define SAME(x, y) REQUIRE(un((x).dat) == (y))
SCENARIO(matrix_ring, 300) {
    int n = rng.size(1, 8), m = rng.size(1, 8), l = rng.size(1, 8); LOG(n, m, l); auto a = rnd(rng, n, m), b = rnd(rng, n, m), c = rnd(rng, m, l); u64 k = rng(1, P - 1); mint K((unsigned long long)k); const auto A = mk<mint>(a), B = mk<mint>(b), C = mk<mint>(c); EQ(A.row_size(), n); EQ(A.col_size(), m); REQUIRE(A.shape() == std::make_pair(n, m)); SAME(A * C, mul(a, c)); auto s = a, d = a, t = a, q = a; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) s[i][j] = (a[i][j] + b[i][j]) % P, d[i][j] = (a[i][j] + P - b[i][j]) % P, t[i][j] = a[i][j] * k % P, q[i][j] = a[i][j] * pw(k, P - 2) % P; SAME(A + B, s); SAME(A - B, d); SAME(A * K, t); SAME(K * A, t); SAME(A / K, q); { auto X = A; X += B; SAME(X, s); X -= B; SAME(X, a); X *= K; SAME(X, t); X /= K; SAME(X, a); X *= C; SAME(X, mul(a, c)); } REQUIRE((A == B) == (a == b) && (A != B) == (a != b)); V x(m), y(n); for (auto& v : x) v = rng(0, P - 1); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[i] = (y[i] + a[i][j] * x[j]) % P; std::vector<mint> X; for (u64 v : x) X.push_back((unsigned long long)v); EQV(unv(A * X), y); int r0 = rng(0, n), r1 = rng(r0, n), c0 = rng(0, m), c1 = rng(c0, m); auto S = A.submatrix(r0, r1, c0, c1); EQ(S.row_size(), r1 - r0); for (int i = r0; i < r1; ++i) for (int j = c0; j < c1; ++j) EQ(S[i - r0][j - c0].val(), a[i][j]); auto Z = B; Z.assign_submatrix(r0, c0, S); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) EQ(Z[i][j].val(), i >= r0 && i < r1 && j >= c0 && j < c1 ? a[i][j] : b[i][j]); SAME(Matrix<mint>::e1(n), eye(n)); SAME(Matrix<mint>::e0(n), Mx(n, V(n))); SAME(Matrix<mint>(n, m, K), Mx(n, V(m, k))); SAME(Matrix<mint>(n), Mx(n, V(n))); }
SCENARIO(matrix_square, 300) {
    int n = rng.size(0, 9); auto a = rnd(rng, n, n); LOG(n); const auto A = mk<mint>(a); u64 e = rng.pct(60) ? rng(0, 6) : rng.wide(1000000000000000000LL); SAME(A.pow(e), mpow(a, e)); u64 dt = det_sub(a, P); EQ(A.det().val(), dt); EQ(A.det_arbitrary_mod().val(), dt); auto iv = A.safe_inv(); EQ(iv.has_value(), dt != 0); if (iv) { SAME(A * *iv, eye(n)); SAME(*iv * A, eye(n)); SAME(A.inv(), un(iv->dat)); if (n) { auto b = rnd(rng, n, n); auto B = mk<mint>(b); SAME((B / A) * A, b); auto X = B; X /= A; SAME(X * A, b); auto k3 = eye(n); for (int i = 0; i < n; ++i) k3[i][i] = 3; SAME((mint(3) / A) * A, k3); } }
    auto cp = unv(characteristic_polynomial(A)); EQ((int)cp.size(), n + 1); EQ(cp[n], 1u); for (int q = 0; q < n + 1; ++q) { u64 x = q; auto m = a; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[i][j] = ((i == j ? x : 0) + P - a[i][j]) % P; u64 v = 0; for (int i = n; i >= 0; --i) v = (v * x + cp[i]) % P; EQ(v, det_sub(m, P), q); } auto H = hessenberg_reduction(A); for (int i = 0; i < n; ++i) for (int j = 0; j + 1 < i; ++j) EQ(H[i][j].val(), 0u); EQ(H.det().val(), dt); EQV(unv(characteristic_polynomial(H)), cp); }
SCENARIO(matrix_composite_det, 300) { u32 m = rng.pct(30) ? rng(2, 20) : rng.coin() ? (u32)rng(2, 2147483647) : (u32)rng.pick(std::vector<int>{ 1 << 30, 1000000000, 2147483647, 6, 12, 720720, 4, 998244353, 46340 * 46340 }); dmint::set_mod(m); int n = rng.size(0, 7); auto a = rnd(rng, n, n, m); LOG(m, n); EQ(mk<dmint>(a).det_arbitrary_mod().val(), det_sub(a, m), m, n); }
SCENARIO(strassen, 8) { int n = rng(60, 150), m = rng(60, 150), l = rng(60, 150); if (rng.pct(80)) { n = std::max(n, 71), m = std::max(m, 71), l = std::max(l, 71); } LOG(n, m, l); auto a = rnd(rng, n, m), b = rnd(rng, m, l); SAME(mk<mint>(a) * mk<mint>(b), mul(a, b)); }
template <int N, int M, int L> static void arr(mon::Rng& rng) {
    using A_ = ArrayMatrix<mint, N, M>; auto mk = [](auto& X, const Mx& a) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) X[i][j] = a[i][j]; }; auto a = rnd(rng, N, M), b = rnd(rng, N, M), c = rnd(rng, M, L); A_ A, B; ArrayMatrix<mint, M, L> C; mk(A, a), mk(B, b), mk(C, c); u64 k = rng(1, P - 1); mint K((unsigned long long)k); REQUIRE(un(A) == a); auto s = a, d = a, t = a, q = a, ng = a; for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) s[i][j] = (a[i][j] + b[i][j]) % P, d[i][j] = (a[i][j] + P - b[i][j]) % P, t[i][j] = a[i][j] * k % P, q[i][j] = a[i][j] * pw(k, P - 2) % P, ng[i][j] = (P - a[i][j]) % P; REQUIRE(un(A + B) == s); REQUIRE(un(A - B) == d); REQUIRE(un(A * K) == t && un(K * A) == t && un(A / K) == q && un(-A) == ng && un(+A) == a); REQUIRE(un(A * C) == mul(a, c)); std::array<mint, M> x; V y(N); for (auto& v : x) v = (unsigned long long)rng(0, P - 1); auto Y = A * x; for (int i = 0; i < N; ++i) { for (int j = 0; j < M; ++j) y[i] = (y[i] + a[i][j] * x[j].val()) % P; EQ(Y[i].val(), y[i]); } REQUIRE(un(A_::e0()) == Mx(N, V(M)) && un(A_::e1()) == eye(M)); EQ(A.row_size(), N); EQ(A.col_size(), M); REQUIRE(A.shape() == std::make_pair(N, M)); { auto X = A; X += B; REQUIRE(un(X) == s); X -= B; REQUIRE(un(X) == a); X *= K; REQUIRE(un(X) == t); X /= K; REQUIRE(un(X) == a); }
    A_ D(K); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) EQ(D[i][j].val(), i == j ? k : 0);
    if constexpr (N == M) { const A_ X = A; EQ(X.size(), N); u64 e = rng.pct(60) ? rng(0, 6) : rng.wide(1000000000000000000LL); REQUIRE(un(X.pow(e)) == mpow(a, e)); u64 dt = det_sub(a, P); EQ(X.det().val(), dt); EQ(X.det_arbitrary_mod().val(), dt); auto iv = X.safe_inv(); EQ(iv.has_value(), dt != 0); if (iv) { REQUIRE(un(X * *iv) == eye(N) && un(*iv * X) == eye(N) && un(X.inv()) == un(*iv)); REQUIRE(un((B / X) * X) == b); auto Z = B; Z /= X; REQUIRE(un(Z * X) == b); auto k3 = eye(N); for (int i = 0; i < N; ++i) k3[i][i] = k; REQUIRE(un((K / X) * X) == k3); Z = B; Z *= X; REQUIRE(un(Z) == mul(b, a)); } } }
SCENARIO(array_matrix, 400) { switch (rng(0, 6)) { case 0: arr<1, 1, 1>(rng); break; case 1: arr<2, 2, 3>(rng); break; case 2: arr<3, 3, 1>(rng); break; case 3: arr<4, 4, 4>(rng); break; case 4: arr<2, 3, 4>(rng); break; case 5: arr<5, 1, 2>(rng); break; default: arr<6, 6, 2>(rng); } }
// a semiring that is not a field: tropical products through the operator parameters
static i64 tadd(i64 a, i64 b) { return std::min(a, b); } static i64 tneg(i64 a) { return a; } static i64 tzero() { return 4000000000000000000LL; } static i64 tmul(i64 a, i64 b) { return a >= tzero() || b >= tzero() ? tzero() : a + b; } static i64 tinv(i64 a) { return -a; } static i64 tone() { return 0; }
SCENARIO(array_matrix_tropical, 100) { using T = SquareArrayMatrix<i64, 4, tadd, tneg, tzero, tmul, tinv, tone>; T A; std::vector<std::vector<i64>> a(4, std::vector<i64>(4)); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) A[i][j] = a[i][j] = rng.pct(30) ? tzero() : rng(0, 1000); int e = rng(0, 20); std::vector<std::vector<i64>> r(4, std::vector<i64>(4, tzero())); for (int i = 0; i < 4; ++i) r[i][i] = 0; for (int s = 0; s < e; ++s) { auto n = std::vector<std::vector<i64>>(4, std::vector<i64>(4, tzero())); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) n[i][k] = std::min(n[i][k], tmul(r[i][j], a[j][k])); r = n; } auto R = A.pow(e); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) EQ(R[i][j], r[i][j], i, j, e); }
SCENARIO(circulant, 200) { using C = CirculantMatrix<mint>; C::set_multiplication([](const std::vector<mint>& a, const std::vector<mint>& b) { return atcoder::convolution(a, b); }); int n = rng.size(1, 12); V a(n), b(n), x(n); for (auto* v : { &a, &b, &x }) for (auto& t : *v) t = rng(0, P - 1); LOG(n); auto full = [&](const V& v) { Mx m(n, V(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[i][j] = v[(i - j + n) % n]; return m; }; auto mv = [](const V& v) { std::vector<mint> r; for (u64 t : v) r.push_back((unsigned long long)t); return r; }; auto F = [&](const C& c) { Mx m(n, V(n)); EQ(c.size(), n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { m[i][j] = c.get(i, j).val(); EQ((c[{ i, j }].val()), m[i][j]); } return m; }; C A(mv(a)), B(mv(b)); REQUIRE(F(A) == full(a)); auto s = full(a), d = s, t = s, ng = s; u64 k = rng(0, P - 1); mint K((unsigned long long)k); auto fb = full(b); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s[i][j] = (t[i][j] + fb[i][j]) % P, d[i][j] = (t[i][j] + P - fb[i][j]) % P, ng[i][j] = (P - t[i][j]) % P, t[i][j] = t[i][j] * k % P; REQUIRE(F(A + B) == s && F(A - B) == d && F(-A) == ng && F(+A) == full(a) && F(A * K) == t && F(K * A) == t && F(A * B) == mul(full(a), fb)); V y(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) y[i] = (y[i] + full(a)[i][j] * x[j]) % P; EQV(unv(A * mv(x)), y); u64 e = rng.pct(60) ? rng(0, 6) : rng.wide(1000000000000000000LL); REQUIRE(F(A.pow(e)) == mpow(full(a), e)); REQUIRE(F(C::e1(n)) == eye(n) && F(C::e0(n)) == Mx(n, V(n))); C X = A; X += B; REQUIRE(F(X) == s); X -= B; REQUIRE(F(X) == full(a)); X *= B; REQUIRE(F(X) == mul(full(a), fb)); X = A; X *= K; REQUIRE(F(X) == t); EQ(C().size(), 0); }
SCENARIO(spanning_trees, 300) { int n = rng.size(1, 7); int m = rng(0, 12); std::vector<std::pair<int, int>> e; for (int i = 0; i < m; ++i) e.push_back({ rng(0, n - 1), rng(0, n - 1) }); LOG(n, m); u64 w = 0; for (int s = 0; s < 1 << m; ++s) if (__builtin_popcount(s) == n - 1) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); std::function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); }; bool ok = true; for (int i = 0; i < m && ok; ++i) if (s >> i & 1) { int a = f(e[i].first), b = f(e[i].second); if (a == b) ok = false; p[a] = b; } w += ok; } EQ(count_spanning_trees<mint>(n, e).val(), w); }
template <class G, class Ad, class Mu> static void check_space(const G& g, int n, int m, const Mx& a, const V& b, u64 p, Ad toU, Mu) {
    /* rank of A and of [A|b] by an independent elimination */
    auto rank = [&](Mx x) { int r = 0, c = x.empty() ? 0 : x[0].size(); for (int j = 0; j < c && r < (int)x.size(); ++j) { int q = r; while (q < (int)x.size() && !x[q][j]) ++q; if (q == (int)x.size()) continue; std::swap(x[q], x[r]); u64 iv = pw(x[r][j], p - 2, p); for (int i = 0; i < (int)x.size(); ++i) if (i != r && x[i][j]) { u64 f = x[i][j] * iv % p; for (int k = 0; k < c; ++k) x[i][k] = (x[i][k] + (p - f) * x[r][k]) % p; } ++r; } return r; };
    auto ab = a; for (int i = 0; i < n; ++i) ab[i].push_back(b[i]); int ra = rank(a), rb = rank(ab); EQ(g.has_solution(), ra == rb, ra, rb); EQ(g.dimension(), ra == rb ? m - ra : -1); EQ(g.has_unique_solution(), ra == rb && ra == m); EQ(g.has_multiple_solutions(), ra == rb && ra < m); auto sol = g.get_solution(); EQ(sol.has_value(), ra == rb); if (!sol) return; auto app = [&](const auto& x) { V y(n); EQ((int)x.size(), m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[i] = (y[i] + a[i][j] * toU(x[j])) % p; return y; }; EQV(app(*sol), b); Mx bs; for (auto& v : g.get_basis()) { EQV(app(v), V(n)); bs.emplace_back(); for (int j = 0; j < m; ++j) bs.back().push_back(toU(v[j])); } EQ((int)bs.size(), m - ra); EQ(rank(bs), m - ra); }
SCENARIO(gauss_mod, 400) { int n = rng.size(1, 9), m = rng.size(1, 9); auto a = rnd(rng, n, m); V b(n); if (rng.coin()) { V x(m); for (auto& v : x) v = rng(0, P - 1); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) b[i] = (b[i] + a[i][j] * x[j]) % P; } else for (auto& v : b) v = rng.coin() ? 0 : rng(0, P - 1); LOG(n, m, a, b); std::vector<mint> B; for (u64 v : b) B.push_back((unsigned long long)v); GaussianEliminationArithmetic<mint> g(mk<mint>(a).dat, B); check_space(g, n, m, a, b, P, [](mint x) -> u64 { return x.val(); }, 0); }
SCENARIO(gauss_f2, 400) { int n = rng.size(1, 9), m = rng.size(1, 9); Mx a = rnd(rng, n, m, 2); V b(n); if (rng.coin()) { V x(m); for (auto& v : x) v = rng(0, 1); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) b[i] ^= a[i][j] & x[j]; } else for (auto& v : b) v = rng(0, 1); LOG(n, m, a, b); std::vector<std::vector<int>> A; for (auto& r : a) A.emplace_back(r.begin(), r.end()); GaussianEliminationF2<int> g(A, std::vector<int>(b.begin(), b.end())); check_space(g, n, m, a, b, 2, [](int x) -> u64 { return x; }, 0); std::vector<std::vector<bool>> A2; for (auto& r : a) A2.emplace_back(r.begin(), r.end()); GaussianEliminationF2<bool> g2(A2, std::vector<bool>(b.begin(), b.end())); check_space(g2, n, m, a, b, 2, [](bool x) -> u64 { return x; }, 0); }
SCENARIO(gauss_double, 300) { int n = rng.size(1, 5), m = rng.size(1, 5); std::vector<std::vector<int>> a(n, std::vector<int>(m)); for (auto& r : a) for (auto& x : r) x = rng.pct(30) ? 0 : rng(-6, 6); if (n > 1 && rng.coin()) { int c = rng(-2, 2); for (int j = 0; j < m; ++j) a[0][j] = c * a[1][j]; } std::vector<int> b(n); if (rng.coin()) { for (int j = 0; j < m; ++j) { int x = rng(-5, 5); for (int i = 0; i < n; ++i) b[i] += a[i][j] * x; } } else for (auto& x : b) x = rng(-9, 9); LOG(n, m, a, b); const u64 Q = 1000000007; Mx A(n, V(m)); V B(n); for (int i = 0; i < n; ++i) { B[i] = (b[i] + (i64)Q) % Q; for (int j = 0; j < m; ++j) A[i][j] = (a[i][j] + (i64)Q) % Q; } auto rank = [&](Mx x) { int r = 0, c = x[0].size(); for (int j = 0; j < c && r < n; ++j) { int q = r; while (q < n && !x[q][j]) ++q; if (q == n) continue; std::swap(x[q], x[r]); u64 iv = pw(x[r][j], Q - 2, Q); for (int i = 0; i < n; ++i) if (i != r && x[i][j]) { u64 f = x[i][j] * iv % Q; for (int k = 0; k < c; ++k) x[i][k] = (x[i][k] + (Q - f) * x[r][k]) % Q; } ++r; } return r; }; /* |minors| < Q, so ranks mod Q are ranks over the rationals */ auto AB = A; for (int i = 0; i < n; ++i) AB[i].push_back(B[i]); int ra = rank(A), rb = rank(AB); std::vector<std::vector<double>> D; for (auto& r : a) D.emplace_back(r.begin(), r.end()); GaussianEliminationArithmetic<double> g(D, std::vector<double>(b.begin(), b.end())); EQ(g.has_solution(), ra == rb); EQ(g.dimension(), ra == rb ? m - ra : -1); if (ra == rb) { auto x = *g.get_solution(); for (int i = 0; i < n; ++i) { double s = 0, mx = 1; for (int j = 0; j < m; ++j) s += a[i][j] * x[j], mx = std::max(mx, std::abs(a[i][j] * x[j])); NEAR(s / mx, b[i] / mx, 1e-7); for (auto& v : g.get_basis()) { double t = 0, my = 1; for (int j = 0; j < m; ++j) t += a[i][j] * v[j], my = std::max(my, std::abs(a[i][j] * v[j])); NEAR(t / my, 0.0, 1e-7); } } } }
SCENARIO(hafnian, 120) { int n = 2 * rng(0, 5); std::vector<std::vector<mint>> a(n, std::vector<mint>(n)); std::vector<std::vector<int>> ai(n, std::vector<int>(n)); bool sm = rng.coin(); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { ai[i][j] = ai[j][i] = sm ? rng(0, 2) : rng(0, P - 1); a[i][j] = a[j][i] = ai[i][j]; } LOG(n); V d(1 << n); d[0] = 1; for (int s = 1; s < 1 << n; ++s) { int i = __builtin_ctz(s); for (int j = i + 1; j < n; ++j) if (s >> j & 1) d[s] = (d[s] + d[s ^ 1 << i ^ 1 << j] * ai[i][j]) % P; } EQ(hafnian<mint>(a).val(), d.back(), n); EQ((hafnian<mint, int>(ai).val()), d.back(), n); }
// the same workloads at realistic sizes
RESCALE(spanning_trees, 4, 512);
RESCALE(circulant, 4, 8);
RESCALE(gauss_mod, 4, 32);
RESCALE(matrix_ring, 4, 32);
RESCALE(gauss_f2, 4, 32);
RESCALE(gauss_double, 4, 64);
// shapes with one short side next to sides beyond the Strassen threshold
SCENARIO(skewed_product, 14) { int w = (int)rng.in(0, 6), n = (int)rng.in(71, 110), m = (int)rng.in(71, 110), l = (int)rng.in(71, 110), s = (int)rng.in(1, 3); if ((w + 1) & 1) n = s; if ((w + 1) & 2) m = s; if ((w + 1) & 4) l = (int)rng.in(1, 3); LOG(n, m, l); auto a = rnd(rng, n, m), b = rnd(rng, m, l); SAME(mk<mint>(a) * mk<mint>(b), mul(a, b)); auto A = mk<mint>(a); auto B = mk<mint>(b); A *= B; SAME(A, mul(a, b)); }
// squares too large for expansion: the determinant by an independent elimination with full row search from the bottom
static u64 det_el(Mx a) { int n = a.size(); u64 d = 1; for (int j = n - 1; j >= 0; --j) { int p = j; while (p >= 0 && !a[p][j]) --p; if (p < 0) return 0; if (p != j) std::swap(a[p], a[j]), d = (P - d) % P; d = d * a[j][j] % P; u64 iv = pw(a[j][j], P - 2); for (int i = 0; i < j; ++i) if (a[i][j]) { u64 f = a[i][j] * iv % P; for (int k = 0; k <= j; ++k) a[i][k] = (a[i][k] + (P - f) * a[j][k]) % P; } } return d; }
SCENARIO(matrix_square_large, 10) { int st = (int)rng.in(0, 4), n = (int)rng.in(20, 75); Mx a(n, V(n)); /* dense, permutation-like, block, low rank, companion */
    if (st == 0) for (auto& r : a) for (auto& x : r) x = rng.in(0, P - 1); else if (st == 1) { auto p = rng.perm(n); for (int i = 0; i < n; ++i) a[i][p[i]] = rng.in(1, P - 1); for (int t = 0; t < 3; ++t) a[rng.in(0, n - 1)][rng.in(0, n - 1)] = rng.in(0, 1); } else if (st == 2) { int h = n / 2; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if ((i < h) != (j < h)) a[i][j] = rng.in(0, P - 1); } else if (st == 3) { int k = (int)rng.in(1, n - 1); Mx x(n, V(k)), y(k, V(n)); for (auto& r : x) for (auto& v : r) v = rng.in(0, P - 1); for (auto& r : y) for (auto& v : r) v = rng.in(0, P - 1); a = mul(x, y); } else { for (int i = 0; i + 1 < n; ++i) a[i + 1][i] = 1; for (int i = 0; i < n; ++i) a[i][n - 1] = rng.in(0, P - 1); }
    LOG(st, n); const auto A = mk<mint>(a); u64 dt = det_el(a); EQ(A.det().val(), dt); EQ(A.det_arbitrary_mod().val(), dt); auto iv = A.safe_inv(); EQ(iv.has_value(), dt != 0); if (iv) { SAME(A * *iv, eye(n)); SAME(*iv * A, eye(n)); }
    u64 e = (u64)rng.in(2, 40); SAME(A.pow(e), mpow(a, e)); auto cp = unv(characteristic_polynomial(A)); EQ((int)cp.size(), n + 1); EQ(cp[n], 1u); for (int q = 0; q < 3; ++q) { u64 x = q ? (u64)rng.in(1, P - 1) : 0; auto t = a; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) t[i][j] = ((i == j ? x : 0) + P - a[i][j]) % P; u64 v = 0; for (int i = n; i >= 0; --i) v = (v * x + cp[i]) % P; EQ(v, det_el(t), q); }
    auto H = un(hessenberg_reduction(A).dat); for (int i = 0; i < n; ++i) for (int j = 0; j + 1 < i; ++j) EQ(H[i][j], 0u); u64 tr = 0, th = 0; for (int i = 0; i < n; ++i) tr += a[i][i], th += H[i][i]; EQ(th % P, tr % P); EQ(det_el(H), dt); }
// small coefficients: solvability is decided relative to 1e-9, not to the size of the entries (scaling by a power of two is exact)
SCENARIO(gauss_double_scaled, 120) { int n = (int)rng.in(1, 3); std::vector<std::vector<double>> a(n, std::vector<double>(n)); std::vector<i64> c(n * n); for (auto& x : c) x = rng.pct(25) ? 0 : rng.in(-6, 6); i64 d = n == 1 ? c[0] : n == 2 ? c[0] * c[3] - c[1] * c[2] : c[0] * (c[4] * c[8] - c[5] * c[7]) - c[1] * (c[3] * c[8] - c[5] * c[6]) + c[2] * (c[3] * c[7] - c[4] * c[6]); double s = std::ldexp(1.0, (int)rng.in(-17, 12)); std::vector<int> x(n); std::vector<double> b(n); for (auto& v : x) v = (int)rng.in(-5, 5); for (int i = 0; i < n; ++i) { i64 t = 0; for (int j = 0; j < n; ++j) a[i][j] = s * (double)c[i * n + j], t += c[i * n + j] * x[j]; b[i] = s * (double)t; } LOG(n, s, c, x, d); GaussianEliminationArithmetic<double> g(a, b); REQUIRE(g.has_solution()); EQ(g.has_unique_solution(), d != 0); auto y = *g.get_solution(); if (d) for (int i = 0; i < n; ++i) NEAR(y[i], (double)x[i], 1e-6); }
