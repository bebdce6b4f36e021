#include "mon.hpp"
#include "library/linear_algebra/gaussian_elimination_f2.hpp"
#include "library/linear_algebra/xor_base.hpp"
using namespace suisen;
using Mx = std::vector<std::vector<int>>;
static Mx rnd(mon::Rng& rng, int n, int m) { Mx a(n, std::vector<int>(m)); int p = rng.pick(std::vector<int>{ 10, 50, 50, 90 }); for (auto& r : a) for (auto& x : r) x = rng.pct(p); if (n > 2 && rng.coin()) { int i = rng(2, n - 1); for (int j = 0; j < m; ++j) a[i][j] = a[0][j] ^ a[1][j]; } return a; }
static MatrixF2 mk(const Mx& a, int m) { MatrixF2 r(a.size(), m); for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < m; ++j) r[i][j] = a[i][j]; return r; }
static bool same(const MatrixF2& A, const Mx& a, int m) { if (A.row_size() != (int)a.size() || A.col_size() != m) return false; for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < m; ++j) if (bool(A[i][j]) != bool(a[i][j])) return false; return true; }
static Mx mul(const Mx& a, const Mx& b, int l) { Mx c(a.size(), std::vector<int>(l)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (a[i][j]) for (int k = 0; k < l; ++k) c[i][k] ^= b[j][k]; return c; }
static Mx eye(int n) { Mx a(n, std::vector<int>(n)); for (int i = 0; i < n; ++i) a[i][i] = 1; return a; }
static int rank(Mx x) { int r = 0, c = x.empty() ? 0 : x[0].size(); for (int j = 0; j < c && r < (int)x.size(); ++j) { int q = r; while (q < (int)x.size() && !x[q][j]) ++q; if (q == (int)x.size()) continue; std::swap(x[q], x[r]); for (int i = 0; i < (int)x.size(); ++i) if (i != r && x[i][j]) for (int k = 0; k < c; ++k) x[i][k] ^= x[r][k]; ++r; } return r; }
static std::vector<int> bits(const DynamicBitSet& b) { std::vector<int> r; for (int i = 0; i < (int)b.size(); ++i) r.push_back(bool(b[i])); return r; }
static DynamicBitSet bs(const std::vector<int>& v) { DynamicBitSet b(v.size()); for (size_t i = 0; i < v.size(); ++i) b[i] = v[i]; return b; }
static int len(mon::Rng& rng, int lo) { return rng.pct(80) ? rng.size(lo, 12) : rng(60, 140); }
SCENARIO(matrix_f2, 250) { int n = len(rng, 1), m = len(rng, 1), l = len(rng, 1); LOG(n, m, l); auto a = rnd(rng, n, m), b = rnd(rng, n, m), c = rnd(rng, m, l); const auto A = mk(a, m), B = mk(b, m), C = mk(c, l); REQUIRE(A.shape() == std::make_pair(n, m)); auto s = a; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) s[i][j] ^= b[i][j]; REQUIRE(same(A + B, s, m) && same(A - B, s, m) && same(A * C, mul(a, c, l), l)); Mx t(m, std::vector<int>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) t[j][i] = a[i][j]; REQUIRE(same(A.transposed(), t, n)); REQUIRE(same(A * true, a, m) && same(A * false, Mx(n, std::vector<int>(m)), m) && same(true * A, a, m) && same(A / true, a, m)); auto X = A; X += B; X -= A; REQUIRE(same(X, b, m) && X == B); X *= C; REQUIRE(same(X, mul(b, c, l), l)); REQUIRE((A == B) == (a == b) && (A != B) == (a != b)); EQ((int)A.rank(), rank(a)); std::vector<int> x(m), y(n); for (auto& v : x) v = rng(0, 1); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[i] ^= a[i][j] & x[j]; EQV(bits(A * bs(x)), y); REQUIRE(same(MatrixF2(n, m, true), Mx(n, std::vector<int>(m, 1)), m)); }
SCENARIO(matrix_f2_square, 250) { int n = rng.pct(85) ? rng.size(0, 9) : rng(62, 80); auto a = rnd(rng, n, n); if (rng.coin()) { a = eye(n); for (int q = 0; n && q < 3 * n; ++q) { int i = rng(0, n - 1), j = rng(0, n - 1); if (i != j) for (int k = 0; k < n; ++k) a[i][k] ^= a[j][k]; } } LOG(n); const auto A = mk(a, n); bool ns = rank(a) == n; EQ(A.det(), ns); auto iv = A.inv(); EQ(iv.has_value(), ns); if (iv) { REQUIRE(same(A * *iv, eye(n), n) && same(*iv * A, eye(n), n)); auto b = rnd(rng, n, n); auto B = mk(b, n); REQUIRE(same((B / A) * A, b, n)); B /= A; REQUIRE(same(B * A, b, n)); } u64 e = rng.pct(60) ? rng(0, 5) : rng.wide(1000000000000000000LL); Mx r = eye(n), p = a; for (u64 f = e; f; f >>= 1, p = mul(p, p, n)) if (f & 1) r = mul(r, p, n); REQUIRE(same(A.pow(e), r, n)); REQUIRE(same(MatrixF2::e1(n), eye(n), n) && same(MatrixF2::e0(n), Mx(n, std::vector<int>(n)), n)); }
static std::set<std::vector<int>> span(const std::vector<std::vector<int>>& b, int m) { std::set<std::vector<int>> s{ std::vector<int>(m) }; for (auto& v : b) { auto t = s; for (auto x : s) { for (int i = 0; i < m; ++i) x[i] ^= v[i]; t.insert(x); } s = t; } return s; }
SCENARIO(system_f2, 400) { int n = len(rng, 1), m = len(rng, 1); auto a = rnd(rng, n, m); std::vector<int> b(n); if (rng.coin()) { for (int j = 0; j < m; ++j) if (rng.coin()) for (int i = 0; i < n; ++i) b[i] ^= a[i][j]; } else for (auto& v : b) v = rng(0, 1); LOG(n, m); auto sp = gaussian_elimination_f2(mk(a, m), bs(b)); auto ab = a; for (int i = 0; i < n; ++i) ab[i].push_back(b[i]); int ra = rank(a); bool ok = ra == rank(ab); EQ(sp.has_solution(), ok); if (!ok) return; EQ(sp.dim(), m - ra); EQ(sp.rank(), ra); auto app = [&](const std::vector<int>& x) { std::vector<int> y(n); EQ((int)x.size(), m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[i] ^= a[i][j] & x[j]; return y; }; EQV(app(bits(sp.solution())), b); Mx q; for (auto& v : sp.basis()) { EQV(app(bits(v)), std::vector<int>(n)); q.push_back(bits(v)); } EQ(rank(q), m - ra); }
SCENARIO(solution_space, 300) { int m = rng.size(1, 8); auto gen = [&](Mx& q) { int n = rng.size(1, 8); auto a = rnd(rng, n, m); auto sp = gaussian_elimination_f2(mk(a, m), DynamicBitSet(n)); for (auto& v : sp.basis()) q.push_back(bits(v)); return sp; }; Mx q1, q2; auto S = gen(q1), T = gen(q2); LOG(m, q1, q2); auto B = [](const SolutionSpace& s) { Mx q; for (auto& v : s.basis()) q.push_back(bits(v)); return q; }; auto s1 = span(q1, m), s2 = span(q2, m); auto N = S.normalized(); REQUIRE(span(B(N), m) == s1 && N.dim() == S.dim() && N.has_solution()); auto both = q1; both.insert(both.end(), q2.begin(), q2.end()); auto U = N + T; REQUIRE(span(B(U), m) == span(both, m)); EQ(U.dim(), rank(both)); std::set<std::vector<int>> is; for (auto& v : s1) if (s2.count(v)) is.insert(v); auto I = N & T; REQUIRE(span(B(I), m) == is); EQ(1u << I.dim(), is.size()); auto I2 = T & N; REQUIRE(span(B(I2), m) == is); auto W = N; W &= T; REQUIRE(span(B(W), m) == is); S.normalize(); std::vector<int> v(m); for (auto& x : v) x = rng(0, 1); bool in = s1.count(v); EQ(S.add_base(bs(v)), !in); q1.push_back(v); REQUIRE(span(B(S), m) == span(q1, m)); S += T; REQUIRE(span(B(S), m).size() == span([&] { auto z = q1; z.insert(z.end(), q2.begin(), q2.end()); return z; }(), m).size()); }
template <class T> static void xb(mon::Rng& rng, T mask) { auto gen = [&] { std::vector<T> a(rng.size(0, 8)); for (auto& x : a) x = rng.pct(20) ? rng(0, 3) : (T)(rng.u() & mask); if (a.size() > 2 && rng.coin()) a[2] = a[0] ^ a[1]; return a; }; auto a = gen(), b = gen(); LOG(a, b); auto sp = [](const std::vector<T>& v) { std::set<T> s{ 0 }; for (T x : v) { auto t = s; for (T y : s) t.insert(x ^ y); s = t; } return s; }; XorBase<T> A(a), B(b); auto sa = sp(a), sb = sp(b); auto chk = [&](const XorBase<T>& X, const std::set<T>& s) { EQ(1ull << X.dim(), s.size()); REQUIRE(sp(X.get_basis()) == s); EQ((int)X.get_basis().size(), X.dim()); }; chk(A, sa); chk(B, sb); std::set<T> is, su; for (T x : sa) { if (sb.count(x)) is.insert(x); for (T y : sb) su.insert(x ^ y); } chk(A + B, su); chk(A & B, is); chk(B & A, is); chk(A.intersection(B), is); auto C = A; C += B; chk(C, su); C = A; C &= B; chk(C, is); T v = rng.u() & mask; C = A; EQ(C.add(v), !sa.count(v)); auto av = a; av.push_back(v); chk(C, sp(av)); chk(A + v, sp(av)); C = A; C += v; chk(C, sp(av)); }
SCENARIO(xor_base, 500) { if (rng.coin()) xb<int>(rng, 15); else if (rng.coin()) xb<i64>(rng, (1LL << 62) - 1); else xb<u64>(rng, ~0ull); }
// the same workloads at realistic sizes
RESCALE(system_f2, 4, 32);
RESCALE(matrix_f2, 4, 32);
RESCALE(solution_space, 4, 2);
