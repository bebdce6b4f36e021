// MON: shards=3
#include "mon.hpp"
#include <algorithm>
#include <functional>
#include <numeric>
#include <sstream>
#include <tuple>
#include <unordered_set>
#include <atcoder/modint>
#include <atcoder/maxflow>
#include <atcoder/dsu>
#include "library/algebra/field/nimber.hpp"
#include "library/algebra/monoid/affine.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
#include "library/dp/grid_connectivity.hpp"
#include "library/dp/longest_increasing_subsequence.hpp"
#include "library/dp/number_of_subsequences.hpp"
#include "library/icpc/parsing.hpp"
#include "library/optimization/alien_dp.hpp"
#include "library/optimization/project_selection_problem.hpp"
#include "library/optimization/k_project_selection_problem.hpp"
using namespace suisen;
using mint = atcoder::modint998244353;
// ---- nimbers: small products by the game definition mex{a'b + ab' + a'b'}, large ones by the Fermat-power recursion
static u64 nmul(u64 x, u64 y, int h = 32) { if (x <= 1 || y <= 1) return x * y; while (h > 1 && !(x >> h) && !(y >> h)) h >>= 1; u64 m = (u64(1) << h) - 1; u64 a = x >> h, b = x & m, c = y >> h, d = y & m; /* (aF+b)(cF+d), F^2 = F + F/2 */ u64 ac = nmul(a, c, std::max(1, h / 2)), bd = nmul(b, d, std::max(1, h / 2)), mid = nmul(a ^ b, c ^ d, std::max(1, h / 2)) ^ bd; return (mid << h) ^ bd ^ nmul(ac, u64(1) << (h - 1), std::max(1, h / 2)); }
static std::vector<std::vector<int>>& mexmul() { static std::vector<std::vector<int>> t; if (t.empty()) { t.assign(64, std::vector<int>(64)); for (int a = 0; a < 64; ++a) for (int b = 0; b < 64; ++b) { std::vector<char> s(512); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) s[t[i][b] ^ t[a][j] ^ t[i][j]] = 1; int m = 0; while (s[m]) ++m; t[a][b] = m; } } return t; }
template <int S> static void nim(mon::Rng& rng) { using N = suisen::internal::nimber::nimber<S>; auto r = [&]() -> u64 { u64 v = rng.u(); if (rng.coin()) v >>= rng(0, 63); if (rng.pct(15)) v = u64(1) << rng(0, 63); return S == 64 ? v : v & ((u64(1) << (S % 64)) - 1); }; for (int t = 0; t < 12; ++t) { u64 a = r(), b = r(), c = r(); LOG(S, a, b, c); N A(a), B(b), C(c); EQ((A * B).val(), nmul(a, b)); EQ((A + B).val(), a ^ b); EQ((A - B).val(), a ^ b); EQ((-A).val(), a); EQ((+A).val(), a); EQ((A * (B + C)).val(), (A * B + A * C).val()); EQ(((A * B) * C).val(), (A * (B * C)).val()); EQ((A * B).val(), (B * A).val()); EQ((A * N::one()).val(), a); EQ((A * N::zero()).val(), 0u); if (a) { EQ((A * A.inv()).val(), 1u); EQ((B / A * A).val(), b); N z = B; z /= A; z *= A; EQ(z.val(), b); } N z = A; z += B; z -= C; EQ(z.val(), a ^ b ^ c); int e = rng(0, 12); u64 w = 1; for (int i = 0; i < e; ++i) w = nmul(w, a); EQ(A.pow(e).val(), w); if (a) { u64 k = rng.u(); EQ((A.pow(k) * A.pow(~k)).val(), 1u, k); } EQ(A == B, a == b); EQ(A != B, a != b); EQ(A < B, a < b); EQ(A <= B, a <= b); EQ(A > B, a > b); EQ(A >= B, a >= b); EQ((bool)A, a != 0); EQ((uint64_t)A, a); EQ(std::hash<N>()(A), std::hash<N>()(N(a))); std::stringstream ss; ss << A; N q; ss >> q; EQ(q.val(), a); } }
SCENARIO(nimber, 300) { switch (rng(0, 6)) { case 0: nim<32>(rng); break; case 1: nim<16>(rng); break; case 2: nim<8>(rng); break; case 3: nim<4>(rng); break; case 4: nim<2>(rng); break; case 5: nim<1>(rng); break; default: nim<64>(rng); } }
SCENARIO(nimber_mex, 4) { auto& t = mexmul(); for (int a = 0; a < 64; ++a) for (int b = 0; b < 64; ++b) { EQ((nimber(a) * nimber(b)).val(), (u64)t[a][b], a, b); EQ(nmul(a, b), (u64)t[a][b], a, b); } (void)rng; }
// ---- affine maps are functions
SCENARIO(affine, 300) { using A = Affine<mint>; auto m = [&] { return mint((unsigned long long)rng(0, 998244352)); }; A f(m(), m()), g(m(), m()); mint x = m(), c = m(); EQ(f(x).val(), (f.a * x + f.b).val()); EQ(f.compose(g)(x).val(), f(g(x)).val()); EQ(A::compose(f, g)(x).val(), f(g(x)).val()); EQ(A::id()(x).val(), x.val()); REQUIRE(A::compose(f, A::id()) == f && A::compose(A::id(), f) == f); EQ((f + g)(x).val(), (f(x) + g(x)).val()); EQ((f - g)(x).val(), (f(x) - g(x)).val()); EQ((f + c)(x).val(), (f(x) + c).val()); EQ((f - c)(x).val(), (f(x) - c).val()); EQ((-f)(x).val(), (-f(x)).val()); EQ((+f)(x).val(), f(x).val()); { A h = f; EQ((h++)(x).val(), f(x).val()); EQ(h(x).val(), (f(x) + 1).val()); EQ((--h)(x).val(), f(x).val()); EQ((++h)(x).val(), (f(x) + 1).val()); EQ((h--)(x).val(), (f(x) + 1).val()); REQUIRE(h == f && !(h != f)); }
    Affine<i64> p(rng(-2, 2), rng(-2, 2)), q(rng(-2, 2), rng(-2, 2)); auto P = std::make_pair(p.a, p.b), Q = std::make_pair(q.a, q.b); EQ(p < q, P < Q); EQ(p <= q, P <= Q); EQ(p > q, P > Q); EQ(p >= q, P >= Q); EQ(p == q, P == Q); std::pair<i64, i64> pr = p; REQUIRE(pr == P); std::tuple<i64, i64> tp = p; REQUIRE(tp == (std::tuple<i64, i64>(p.a, p.b))); std::stringstream ss; ss << p; EQ(ss.str(), std::to_string(p.a) + " " + std::to_string(p.b)); Affine<i64> z; ss >> z; REQUIRE(z == p); EQ((p.template affine<i128>(INT64_MAX) == (i128)p.a * INT64_MAX + p.b), true); }
template <class T> static void clampf(mon::Rng& rng, i64 R) { using C = AffineClamp<T>; auto mkc = [&] { int k = rng(0, 5); if (k == 0) return C::id(); i64 l = rng(-R, R), r = rng(-R, R); if (l > r) std::swap(l, r); C f((T)rng(-2, 2), (T)rng(-R, R), (T)l, (T)r); if (k == 1) f = C(f.a, f.b); if (k == 2) f = C(Affine<T>(f.a, f.b), (T)l); if (k == 3) f = C(f.a, f.b, C::neg_inf, (T)r); return f; }; auto ap = [](const C& f, i128 x) { i128 v = (i128)f.a * x + f.b; return std::min<i128>(std::max<i128>(v, f.l), f.r); }; int n = rng(1, 6); C h = C::id(); std::vector<C> fs; for (int i = 0; i < n; ++i) { C f = mkc(); fs.push_back(f); h = rng.coin() ? C::compose(f, h) : f.compose(h); LOG(f.a, f.b, f.l, f.r); } /* the same chain associated the other way */ C h2 = C::id(); for (int i = n - 1; i >= 0; --i) h2 = C::compose(h2, fs[i]); for (int t = 0; t < 12; ++t) { T x = rng(-3 * R, 3 * R); i128 w = x; bool in = true; for (auto& f : fs) { i128 v = (i128)f.a * w + f.b; if (v < std::numeric_limits<T>::min() || v > std::numeric_limits<T>::max()) in = false; w = ap(f, w); } if (!in) continue; EQ((i64)h(x), (i64)w, (i64)x); EQ((i64)h2(x), (i64)w, (i64)x); EQ((i64)fs[0].affine_clamp(x), (i64)ap(fs[0], x)); } std::tuple<T, T, T, T> tp = h; REQUIRE(tp == (std::tuple<T, T, T, T>(h.a, h.b, h.l, h.r))); std::stringstream ss; ss << h; C z; ss >> z; REQUIRE(z.a == h.a && z.b == h.b && z.l == h.l && z.r == h.r); }
SCENARIO(affine_clamp, 400) { if (rng.coin()) clampf<long long>(rng, rng.coin() ? 20 : 1000000000000000LL); else clampf<int>(rng, rng.coin() ? 20 : 1000000); }
// ---- subsequences
SCENARIO(lis, 400) { int n = rng.size(0, 60); auto a = rng.vec<int>(n, 0, rng.coin() ? 5 : 50); if (rng.pct(10)) for (auto& x : a) x = rng(0, 1) ? INT_MAX : INT_MIN; LOG(a); auto go = [&](auto f, auto cmp) { std::vector<int> d(n, 1); int L = 0; for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) if (cmp(a[j], a[i])) d[i] = std::max(d[i], d[j] + 1); L = std::max(L, d[i]); } auto r = f(a); EQ((int)r.size(), L); for (int i = 0; i < L; ++i) { REQUIRE(0 <= r[i] && r[i] < n); if (i) REQUIRE(r[i - 1] < r[i] && cmp(a[r[i - 1]], a[r[i]])); } }; go([](auto& v) { return longest_increasing_subsequence(v); }, std::less<int>()); go([](auto& v) { return longest_nondecreasing_subsequence(v); }, std::less_equal<int>()); go([](auto& v) { return longest_nonincreasing_subsequence(v); }, std::greater_equal<int>()); go([](auto& v) { return longest_decreasing_subsequence(v); }, std::greater<int>()); }
SCENARIO(count_subsequences, 300) { int n = rng.size(0, 11); auto a = rng.vec<int>(n, 0, rng(0, 4)); LOG(a); std::set<std::vector<int>> s; for (int m = 1; m < 1 << n; ++m) { std::vector<int> v; for (int i = 0; i < n; ++i) if (m >> i & 1) v.push_back(a[i]); s.insert(v); } EQ((u64)number_of_nonempty_subsequences<long long>(a), (u64)s.size()); EQ((number_of_nonempty_subsequences<mint>(a)).val(), s.size()); std::vector<std::string> b; for (int x : a) b.push_back(std::string(x, 'z')); EQ((number_of_nonempty_subsequences<mint>(b)).val(), s.size()); }
// ---- profile DP transition: run row by row over a whole grid and count components
SCENARIO(grid_connectivity, 300) { int h = rng.size(1, 6), w = rng.size(1, 7); std::vector<int> rows(h); for (auto& r : rows) r = rng(0, (1 << w) - 1) & (rng.coin() ? (1 << w) - 1 : rng(0, (1 << w) - 1)); LOG(w, rows); std::vector<int> st(w, -1); int closed = 0; for (int y = 0; y <= h; ++y) { int row = y < h ? rows[y] : 0; auto r = grid_connectivity::transition(st, row); closed += r.forget_comp_num; st = r.next_state; int H = std::min(y + 1, h); /* flood fill of the first y+1 rows */ std::vector<int> id(H * w, -1); int nc = 0; std::function<void(int, int, int)> fl = [&](int i, int j, int c) { if (i < 0 || j < 0 || i >= H || j >= w || !(rows[i] >> j & 1) || id[i * w + j] >= 0) return; id[i * w + j] = c; fl(i + 1, j, c), fl(i - 1, j, c), fl(i, j + 1, c), fl(i, j - 1, c); }; for (int i = 0; i < H; ++i) for (int j = 0; j < w; ++j) if ((rows[i] >> j & 1) && id[i * w + j] < 0) fl(i, j, nc++); std::map<int, int> norm; std::vector<int> ws(w, -1); if (y < h) for (int j = 0; j < w; ++j) if (row >> j & 1) { int c = id[y * w + j]; if (!norm.count(c)) { int k = norm.size(); norm[c] = k; } ws[j] = norm[c]; } EQV(r.next_state, ws); EQ(r.frontier_comp_num, (int)norm.size()); EQ(closed, nc - (int)norm.size()); } }
// ---- expression parser
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() : b(std::cerr.rdbuf(o.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(b); } };
struct Bad {}; struct Huge {};
static i128 lim(i128 v) { if (v > 4000000000000000000LL || v < -4000000000000000000LL) throw Huge{}; return v; }
struct Ref { const std::string& s; size_t p = 0; char c() { return p < s.size() ? s[p] : 0; } i128 e() { i128 v = t(); while (c() == '+' || c() == '-') { char o = c(); ++p; i128 w = t(); v = lim(o == '+' ? v + w : v - w); } return v; } i128 t() { i128 v = f(); while (c() == '*' || c() == '/') { char o = c(); ++p; i128 w = f(); if (o == '/' && w == 0) throw Huge{}; v = lim(o == '*' ? v * w : v / w); } return v; } i128 f() { if (c() == '-') { ++p; return -f(); } if (c() == '(') { ++p; i128 v = e(); if (c() != ')') throw Bad{}; ++p; return v; } if (c() < '0' || c() > '9') throw Bad{}; i128 v = 0; while (c() >= '0' && c() <= '9') v = lim(v * 10 + (c() - '0')), ++p; return v; } };
SCENARIO(parsing, 1500) { Quiet q; std::string s; std::function<void(int)> gen = [&](int d) { int k = rng(0, 9); if (d <= 0 || k < 3) s += rng.pct(5) ? "0" + std::to_string(rng(0, 9)) : std::to_string(rng.wide(100000)); else if (k < 4) s += "-", gen(d - 1); else if (k < 6) s += "(", gen(d - 1), s += ")"; else { gen(d - 1); s += "+-*/"[rng(0, 3)]; gen(d - 1); } }; gen(rng(0, 5)); if (rng.pct(40)) for (int t = rng(1, 3); t--;) { size_t p = rng(0, s.size()); if (rng.coin() && p < s.size()) s.erase(p, 1); else s.insert(p, 1, "0123456789+-*/() x"[rng(0, 17)]); } LOG(s); Ref r{ s }; int st = 0; i128 w = 0; try { w = r.e(); } catch (Bad) { st = 1; } catch (Huge) { return; } auto it = s.cbegin(); bool err = false; long long v = 0; try { v = parsing::normal_expression::parse(it); } catch (parsing::ParseError&) { err = true; } EQ(err, st == 1); if (!err) { EQ((i64)v, (i64)w); EQ((size_t)(it - s.cbegin()), r.p); } }
SCENARIO(parsing_primitives, 300) { Quiet q; std::string s(rng(0, 3), '-'); i64 x = rng.wide(INT64_MAX / 10); bool ng = s.size() % 2; std::string t = s + std::to_string(x) + "z"; auto it = t.cbegin(); EQ(parsing::number(it), ng ? -x : x); EQ(*it, 'z'); auto thr = [&](auto f) { try { f(); return false; } catch (parsing::ParseError&) { return true; } }; EQ(thr([&] { parsing::nonnegative_number(it); }), true); EQ(thr([&] { parsing::assert_range(it, 'a', 'y'); }), true); EQ(thr([&] { parsing::assert_range(it, 'a', 'z'); }), false); EQ(thr([&] { parsing::assert_exact(it, 'y'); }), true); EQ(thr([&] { parsing::assert_exact(it, 'z'); }), false); EQ(parsing::is(it, 'z'), true); EQ(parsing::in(it, 'z', 'z'), true); EQ(parsing::in(it, 'a', 'y'), false); EQ(thr([&] { parsing::consume(it, 'y'); }), true); EQ(*it, 'z'); parsing::consume(it, 'z'); REQUIRE(it == t.cend()); EQ(thr([&] { parsing::consume(it, 'y'); }), true); }
// ---- Lagrangian relaxation
SCENARIO(alien, 500) { int n = rng.size(1, 30); i64 R = rng.pct(50) ? 10 : 1000000; std::vector<i64> sl(n); for (auto& s : sl) s = rng(-R, R); bool cvx = rng.coin(); std::sort(sl.begin(), sl.end()); if (!cvx) std::reverse(sl.begin(), sl.end()); int off = rng(-3, 3); /* domain off..off+n */ std::vector<i64> f{ rng(-R, R) }; for (i64 s : sl) f.push_back(f.back() + s); i64 lo = *std::min_element(sl.begin(), sl.end()), hi = *std::max_element(sl.begin(), sl.end()); if (rng.coin()) lo -= rng(0, 5), hi += rng(0, 5); int x = off + rng(0, n); i64 w = f[x - off]; LOG(cvx, off, f, lo, hi, x); auto best = [&](i64 p) { i64 b = 0; int arg = 0; bool first = true; for (int i = 0; i <= n; ++i) { i64 v = f[i] - p * (i + off); bool better = first || (cvx ? v < b : v > b) || (!cvx && v == b); if (better) b = v, arg = i + off, first = false; } return std::pair<i64, int>{ b, arg }; }; auto g1 = [&](i64 p) -> i64 { return best(p).first; }; auto g2 = [&](i64 p) -> std::pair<i64, int> { return best(p); }; if (cvx) { EQ((alien_convex<i64>(x, lo, hi, g1)), w); EQ((alien_convex<i64>(x, lo, hi, g2)), w); } else { EQ((alien_concave<i64>(x, lo, hi, g1)), w); EQ((alien_concave<i64>(x, lo, hi, g2)), w); } }
// ---- project selection: brute force over all assignments
SCENARIO(project_selection, 500) { int n = rng.size(1, 7); using PS = ProjectSelection<i64>; PS ps(n); std::vector<std::function<i64(int)>> fs; auto bit = [](int s, int i) { return s >> i & 1; }; auto c = [&](i64 l, i64 r) { return (i64)rng(l, r); }; auto it2 = [&](int& i, int& j) { i = rng(0, n - 1); do j = rng(0, n - 1); while (j == i); }; auto check = [&] { i64 bst = INT64_MAX; auto ev = [&](int s) { i64 v = 0; for (auto& f : fs) v += f(s); return v; }; for (int s = 0; s < 1 << n; ++s) bst = std::min(bst, ev(s)); auto [a, x] = ps.min_cost(); EQ(a, bst); EQ((int)x.size(), n); int s = 0; for (int i = 0; i < n; ++i) s |= (int)x[i] << i; EQ(ev(s), bst, s); auto [p, y] = ps.max_profit(); EQ(p, -bst); s = 0; for (int i = 0; i < n; ++i) s |= (int)y[i] << i; EQ(ev(s), bst); }; int m = rng(0, 12); for (int t = 0; t < m; ++t) { int k = rng(0, 17); i64 v = c(-20, 20), u = c(0, 20); int i = rng(0, n - 1), j = i, l = i; LOG(k, v, u); if (k >= 8 && n >= 2) it2(i, j); if ((k == 8 || k == 9 || (k >= 10 && k < 16)) && n < 2) continue; switch (k) {
        case 0: ps.add_cost(v); fs.push_back([=](int) { return v; }); break;
        case 1: ps.add_profit(v); fs.push_back([=](int) { return -v; }); break;
        case 2: ps.add_cost_0(i, v); fs.push_back([=](int s) { return bit(s, i) ? 0 : v; }); break;
        case 3: ps.add_cost_1(i, v); fs.push_back([=](int s) { return bit(s, i) ? v : 0; }); break;
        case 4: ps.add_profit_0(i, v); fs.push_back([=](int s) { return bit(s, i) ? 0 : -v; }); break;
        case 5: ps.add_profit_1(i, v); fs.push_back([=](int s) { return bit(s, i) ? -v : 0; }); break;
        case 6: ps.add_cost(i, PS::CostFunc1{ v, u }); fs.push_back([=](int s) { return bit(s, i) ? u : v; }); break;
        case 7: ps.add_profit(i, PS::CostFunc1{ v, u }); fs.push_back([=](int s) { return bit(s, i) ? -u : -v; }); break;
        case 8: ps.add_cost_01(i, j, u); fs.push_back([=](int s) { return !bit(s, i) && bit(s, j) ? u : 0; }); break;
        case 9: ps.add_cost_10(i, j, u); fs.push_back([=](int s) { return bit(s, i) && !bit(s, j) ? u : 0; }); break;
        case 10: ps.add_cost_not_same(i, j, u); fs.push_back([=](int s) { return bit(s, i) != bit(s, j) ? u : 0; }); break;
        case 11: ps.add_profit_00(i, j, u); fs.push_back([=](int s) { return !bit(s, i) && !bit(s, j) ? -u : 0; }); break;
        case 12: ps.add_profit_11(i, j, u); fs.push_back([=](int s) { return bit(s, i) && bit(s, j) ? -u : 0; }); break;
        case 13: ps.add_profit_same(i, j, u); fs.push_back([=](int s) { return bit(s, i) == bit(s, j) ? -u : 0; }); break;
        case 14: { i64 a = c(-20, 20), b = c(-20, 20), d = c(-20, 20); i64 e = a + d - b + u; /* c10 */ PS::CostFunc2 f{ PS::CostFunc1{ a, b }, PS::CostFunc1{ e, d } }; bool pr = rng.coin(); if (pr) { PS::CostFunc2 g{ PS::CostFunc1{ -a, -b }, PS::CostFunc1{ -e, -d } }; ps.add_profit(i, j, g); } else ps.add_cost(i, j, f); fs.push_back([=](int s) { return f[bit(s, i)][bit(s, j)]; }); break; }
        case 15: { if (n < 3) break; do l = rng(0, n - 1); while (l == i || l == j); /* sum of modular terms and random submodular pieces on three bits */ std::array<i64, 8> f{}; i64 m0[3] = { c(-9, 9), c(-9, 9), c(-9, 9) }, k0 = c(-9, 9), a1 = c(0, 9), a0 = c(0, 9), e2[6]; for (auto& x : e2) x = c(0, 6); for (int s = 0; s < 8; ++s) { int b[3] = { s >> 2 & 1, s >> 1 & 1, s & 1 }; f[s] = k0 + m0[0] * b[0] + m0[1] * b[1] + m0[2] * b[2] - (s == 7 ? a1 : 0) - (s == 0 ? a0 : 0); int q = 0; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) if (x != y) f[s] += e2[q++] * (b[x] && !b[y]); } PS::CostFunc3 g; for (int s = 0; s < 8; ++s) g[s >> 2 & 1][s >> 1 & 1][s & 1] = f[s]; ps.add_cost(i, j, l, g); fs.push_back([=](int s) { return f[bit(s, i) * 4 + bit(s, j) * 2 + bit(s, l)]; }); break; }
        case 16: case 17: { std::vector<int> is; for (int q = 0; q < n; ++q) if (rng.coin()) is.push_back(q); if (k == 16) ps.add_profit_all_0(is, u); else ps.add_profit_all_1(is, u); fs.push_back([=](int s) { for (int q : is) if (bit(s, q) != (k == 17)) return (i64)0; return -u; }); break; } } if (rng.pct(15)) check(); } check(); }
SCENARIO(k_project_selection, 400) { int n = rng.size(1, 4); std::vector<int> ks(n); for (auto& k : ks) k = rng(1, 4); bool same = rng.pct(20); if (same) std::fill(ks.begin(), ks.end(), ks[0]); LOG(ks); using K = KProjectSelection<i64>; K kp(ks); if (same) kp = K(n, ks[0]); std::vector<std::function<i64(const std::vector<int>&)>> fs; int m = rng(0, 8); using X = const std::vector<int>&; for (int t = 0; t < m; ++t) { int i = rng(0, n - 1), j = rng(0, n - 1); i64 v = rng(-20, 20); switch (rng(0, 4)) { case 0: kp.add_cost(v); fs.push_back([=](X) { return v; }); break; case 1: kp.add_profit(v); fs.push_back([=](X) { return -v; }); break; case 2: { auto c = rng.vec<i64>(ks[i], -20, 20); kp.add_cost(i, c); fs.push_back([=](X x) { return c[x[i]]; }); break; } case 3: { auto c = rng.vec<i64>(ks[i], -20, 20); kp.add_profit(i, c); fs.push_back([=](X x) { return -c[x[i]]; }); break; } default: { if (i == j) break; /* Monge matrix: row + column terms minus a non-negative 2-D prefix density */ std::vector<std::vector<i64>> c(ks[i], std::vector<i64>(ks[j])); auto ra = rng.vec<i64>(ks[i], -9, 9), rb = rng.vec<i64>(ks[j], -9, 9); std::vector<std::vector<i64>> d(ks[i], std::vector<i64>(ks[j])); for (auto& r : d) for (auto& z : r) z = rng.pct(40) ? rng(0, 6) : 0; for (int a = 0; a < ks[i]; ++a) for (int b = 0; b < ks[j]; ++b) { c[a][b] = ra[a] + rb[b]; for (int p = 0; p <= a; ++p) for (int q = 0; q <= b; ++q) c[a][b] -= d[p][q]; } kp.add_cost(i, j, c); fs.push_back([=](X x) { return c[x[i]][x[j]]; }); } } } auto ev = [&](X x) { i64 v = 0; for (auto& f : fs) v += f(x); return v; }; i64 best = INT64_MAX; std::vector<int> x(n); std::function<void(int)> go = [&](int i) { if (i == n) { best = std::min(best, ev(x)); return; } for (x[i] = 0; x[i] < ks[i]; ++x[i]) go(i + 1); x[i] = 0; }; go(0); auto [a, y] = kp.min_cost(); EQ(a, best); EQ((int)y.size(), n); for (int i = 0; i < n; ++i) REQUIRE(0 <= y[i] && y[i] < ks[i]); EQ(ev(y), best); auto [p, z] = kp.max_profit(); EQ(p, -best); EQ(ev(z), best); }
// the same workloads at realistic sizes
RESCALE(alien, 4, 512);
RESCALE(lis, 4, 128);
RESCALE(k_project_selection, 4, 4);
