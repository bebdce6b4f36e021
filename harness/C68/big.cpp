// MON: shards=4
#include "mon.hpp"
#include <algorithm>
#include <sstream>
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/math/bigint.hpp"
using namespace suisen;
using U = unsigned_bigint; using B = bigint;
// ---- reference naturals: little-endian base 10^4, schoolbook
struct N_ {
    std::vector<u32> d; void trim() { while (d.size() && !d.back()) d.pop_back(); }
    static N_ of(const std::string& s) { N_ r; for (int i = s.size(); i > 0; i -= 4) { u32 v = 0; for (int j = std::max(0, i - 4); j < i; ++j) v = v * 10 + (s[j] - '0'); r.d.push_back(v); } r.trim(); return r; }
    std::string str() const { if (d.empty()) return "0"; std::string s = std::to_string(d.back()); for (size_t i = d.size() - 1; i-- > 0;) { std::string t = std::to_string(d[i]); s += std::string(4 - t.size(), '0') + t; } return s; }
    static int cmp(const N_& a, const N_& b) { if (a.d.size() != b.d.size()) return a.d.size() < b.d.size() ? -1 : 1; for (size_t i = a.d.size(); i-- > 0;) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; return 0; }
    static N_ add(const N_& a, const N_& b) { N_ r; u32 c = 0; for (size_t i = 0; i < std::max(a.d.size(), b.d.size()) || c; ++i) { c += (i < a.d.size() ? a.d[i] : 0) + (i < b.d.size() ? b.d[i] : 0); r.d.push_back(c % 10000); c /= 10000; } r.trim(); return r; }
    static N_ sub(const N_& a, const N_& b) { N_ r = a; i64 c = 0; for (size_t i = 0; i < a.d.size(); ++i) { i64 v = (i64)a.d[i] - (i < b.d.size() ? b.d[i] : 0) + c; c = v < 0 ? -1 : 0; r.d[i] = v < 0 ? v + 10000 : v; } r.trim(); return r; }
    static N_ mul(const N_& a, const N_& b) { std::vector<u64> t(a.d.size() + b.d.size() + 1); for (size_t i = 0; i < a.d.size(); ++i) for (size_t j = 0; j < b.d.size(); ++j) t[i + j] += (u64)a.d[i] * b.d[j]; N_ r; u64 c = 0; for (u64 v : t) { c += v; r.d.push_back(c % 10000); c /= 10000; } r.trim(); return r; }
};
struct Z_ { bool neg = false; N_ m; static Z_ of(const std::string& s) { Z_ r; if (s[0] == '-') { r.m = N_::of(s.substr(1)); r.neg = !r.m.d.empty(); } else r.m = N_::of(s); return r; } std::string str() const { return (neg ? "-" : "") + m.str(); } static Z_ mk(bool n, N_ m) { Z_ r; r.m = m; r.neg = n && m.d.size(); return r; } static Z_ add(const Z_& a, const Z_& b) { if (a.neg == b.neg) return mk(a.neg, N_::add(a.m, b.m)); int c = N_::cmp(a.m, b.m); return c >= 0 ? mk(a.neg, N_::sub(a.m, b.m)) : mk(b.neg, N_::sub(b.m, a.m)); } Z_ operator-() const { return mk(!neg, m); } static int cmp(const Z_& a, const Z_& b) { if (a.neg != b.neg) return a.neg ? -1 : 1; int c = N_::cmp(a.m, b.m); return a.neg ? -c : c; } };
static std::string digits(mon::Rng& rng, int len) { if (len == 0) return "0"; std::string s(len, '0'); int st = rng(0, 4); for (auto& c : s) c = st == 0 ? '0' : st == 1 ? '9' : st == 2 ? (rng.pct(90) ? '0' : '0' + rng(0, 9)) : st == 3 ? (rng.pct(90) ? '9' : '0' + rng(0, 9)) : '0' + rng(0, 9); if (s[0] == '0') s[0] = '0' + rng(1, 9); if (rng.pct(20)) { /* runs of zero limbs */ for (int t = 0; t < 3; ++t) { int l = rng(0, len - 1), r = rng(l, len - 1); for (int i = l; i <= r; ++i) s[i] = '0'; } if (s[0] == '0') s[0] = '1'; } return s; }
static int len(mon::Rng& rng) { return rng.pct(10) ? rng(500, 2700) : rng.pct(30) ? rng(20, 200) : rng.size(0, 40); }
static std::string S(const U& u) { return std::string(u); } static std::string S(const B& u) { return std::string(u); }
SCENARIO(text, 400) { std::string s = digits(rng, len(rng)); int z = rng.pct(30) ? rng(0, 20) : 0; LOG(s, z); std::string p = std::string(z, '0') + s; U u(p); EQ(S(u), s); EQ(S(U(s.c_str())), s); REQUIRE(u == U(s)); REQUIRE((bool)u == (s != "0")); std::istringstream in(p); U v; in >> v; std::ostringstream o; o << v; EQ(o.str(), s); bool ng = rng.coin(); std::string t = (ng ? "-" : "") + p, c = Z_::of(t).str(); B b(t); EQ(S(b), c); REQUIRE((bool)b == (s != "0")); REQUIRE(b == B(c)); std::istringstream in2(t); B w; in2 >> w; std::ostringstream o2; o2 << w; EQ(o2.str(), c); EQ(S(-b), (-Z_::of(t)).str()); EQ(S(+b), c); if (!ng) EQ(S(U(b)), s); EQ(S(B(u)), s); EQ(S(B(U(u))), s); REQUIRE(S(U()) == "0" && S(B()) == "0" && S(U(U::ZERO)) == "0" && S(U(U::ONE)) == "1" && S(B(B::ZERO)) == "0" && S(B(B::ONE)) == "1"); }
static std::string s128(i128 v) { bool n = v < 0; u128 x = n ? -(u128)v : v; std::string s; do s += '0' + (int)(x % 10), x /= 10; while (x); if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
SCENARIO(native, 600) { i64 v = rng.pct(10) ? (rng.coin() ? INT64_MIN : INT64_MAX) : (rng.coin() ? 1 : -1) * rng.wide(INT64_MAX); LOG(v); EQ(S(B((long long)v)), s128(v)); EQ(S(B((long)v)), s128(v)); EQ(S(B((int)v)), s128((int)v)); EQ(S(B((signed char)v)), s128((signed char)v)); EQ(S(B((unsigned long long)v)), s128((u64)v)); EQ(S(U((u64)v)), s128((u64)v)); EQ(S(U((unsigned)v)), s128((unsigned)v)); EQ(S(U((unsigned short)v)), s128((unsigned short)v)); i128 w = (i128)v * rng.wide(INT64_MAX); EQ(S(B(w)), s128(w)); if (w >= 0) EQ(S(U(w)), s128(w)); B b(w); REQUIRE(static_cast<i128>(b) == w); REQUIRE(static_cast<u128>(b) == (u128)w); EQ(static_cast<long long>(b), (long long)w); EQ(static_cast<long>(b), (long)w); EQ(static_cast<int>(b), (int)w); EQ(static_cast<unsigned>(b), (unsigned)w); EQ(static_cast<unsigned long long>(b), (u64)w); EQ(static_cast<unsigned long>(b), (u64)w); NEAR(static_cast<double>(b) / (w ? (double)w : 1.), w ? 1. : 0., 1e-12); NEAR((double)(static_cast<long double>(b) / (w ? (long double)w : 1.L)), w ? 1. : 0., 1e-12); NEAR((double)static_cast<float>(b) / (w ? (double)w : 1.), w ? 1. : 0., 1e-5); u128 x = w < 0 ? -(u128)w : w; U u(x); REQUIRE(static_cast<u128>(u) == x && static_cast<i128>(u) == (i128)x); EQ(static_cast<u64>(u), (u64)x); EQ(static_cast<int>(u), (int)x); EQ(static_cast<long long>(u), (long long)x); EQ(static_cast<unsigned>(u), (unsigned)x); NEAR(static_cast<double>(u) / (x ? (double)x : 1.), x ? 1. : 0., 1e-12); }
SCENARIO(order, 300) { std::string a = digits(rng, len(rng)), b = rng.pct(20) ? a : digits(rng, rng.coin() ? (int)a.size() : len(rng)); if (rng.pct(30)) { b = a; b[rng(0, b.size() - 1)] = '0' + rng(0, 9); b = N_::of(b).str(); } LOG(a, b); auto go = [&](auto x, auto y, int c) { EQ(x == y, c == 0); EQ(x != y, c != 0); EQ(x < y, c < 0); EQ(x <= y, c <= 0); EQ(x > y, c > 0); EQ(x >= y, c >= 0); }; go(U(a), U(b), N_::cmp(N_::of(a), N_::of(b))); std::string p = (rng.coin() ? "-" : "") + a, q = (rng.coin() ? "-" : "") + b; go(B(p), B(q), Z_::cmp(Z_::of(p), Z_::of(q))); }
SCENARIO(add_sub_mul, 500) { std::string a = digits(rng, len(rng)), b = digits(rng, rng.pct(30) ? (int)a.size() : len(rng)); if (rng.pct(20)) { b = a; if (rng.coin()) b.back() = '0' + rng(0, 9); b = N_::of(b).str(); } LOG(a, b); N_ x = N_::of(a), y = N_::of(b); if (N_::cmp(x, y) < 0) std::swap(x, y), std::swap(a, b); U u(a), v(b); EQ(S(u + v), N_::add(x, y).str()); EQ(S(u - v), N_::sub(x, y).str()); EQ(S(u * v), N_::mul(x, y).str()); EQ(S(v * u), N_::mul(x, y).str()); { U t = u; t += t; EQ(S(t), N_::add(x, x).str()); t = u; t -= t; EQ(S(t), std::string("0")); REQUIRE(!t && t == U(0)); t = u; t *= t; EQ(S(t), N_::mul(x, x).str()); } { U t = u; EQ(S(++t), N_::add(x, N_::of("1")).str()); EQ(S(t--), N_::add(x, N_::of("1")).str()); EQ(S(t), a); EQ(S(t++), a); if (t) { EQ(S(--t), a); } } REQUIRE(S(u) == a && S(v) == b);
    std::string p = (rng.coin() ? "-" : "") + a, q = (rng.coin() ? "-" : "") + b; if (rng.coin()) std::swap(p, q); Z_ X = Z_::of(p), Y = Z_::of(q); B f(p), g(q); EQ(S(f + g), Z_::add(X, Y).str()); EQ(S(f - g), Z_::add(X, -Y).str()); EQ(S(f * g), Z_::mk(X.neg != Y.neg, N_::mul(X.m, Y.m)).str()); { B t = f; t += g; t -= f; REQUIRE(t == g); t *= f; EQ(S(t), Z_::mk(X.neg != Y.neg, N_::mul(X.m, Y.m)).str()); t = f; t += t; EQ(S(t), Z_::add(X, X).str()); t = f; t -= t; REQUIRE(t == B(0) && S(t) == "0"); } B t = rng.pct(30) ? B((int)rng(-2, 2)) : f; Z_ T = Z_::of(S(t)), one = Z_::of("1"); EQ(S(++t), Z_::add(T, one).str()); EQ(S(t++), Z_::add(T, one).str()); EQ(S(t), Z_::add(T, Z_::of("2")).str()); EQ(S(--t), Z_::add(T, one).str()); EQ(S(t--), Z_::add(T, one).str()); EQ(S(t), T.str()); EQ(S(--t), Z_::add(T, -one).str()); REQUIRE(t + B(1) == B(T.str())); int sh = rng(0, 4); std::string zs(9 * sh, '0'); EQ(S(u << sh), a == "0" ? a : a + zs); EQ(S(u >> sh), (int)a.size() <= 9 * sh ? std::string("0") : a.substr(0, a.size() - 9 * sh)); EQ(S(f << sh), Z_::mk(X.neg, N_::of(X.m.str() + zs)).str()); std::string ms = X.m.str(); EQ(S(f >> sh), Z_::mk(X.neg, N_::of((int)ms.size() <= 9 * sh ? std::string("0") : ms.substr(0, ms.size() - 9 * sh))).str()); { U w = u; w <<= sh; w >>= sh; REQUIRE(w == u); } { B w = f; w <<= sh; EQ(S(w), Z_::mk(X.neg, N_::of(X.m.str() + zs)).str()); w >>= sh; REQUIRE(w == f); w >>= sh; EQ(S(w), S(f >> sh)); int full = (int)ms.size() / 9 + 1; w = f; w >>= full; EQ(S(w), std::string("0")); REQUIRE(w == B(0) && !(w < B(0)) && !w); U x = u; x >>= full + (int)a.size(); REQUIRE(x == U(0) && S(x) == "0"); } }
static void divcheck(const std::string& a, const std::string& b, bool na, bool nb) { N_ x = N_::of(a), y = N_::of(b); auto [q, r] = U::divmod(U(a), U(b)); N_ Q = N_::of(S(q)), R = N_::of(S(r)); REQUIRE(N_::cmp(R, y) < 0, "remainder not smaller"); REQUIRE(N_::add(N_::mul(Q, y), R).str() == a, "q*b+r != a", S(q).size()); REQUIRE(U(a) / U(b) == q && U(a) % U(b) == r); REQUIRE(S(q) == Q.str() && S(r) == R.str()); { U t(a); t /= U(b); REQUIRE(t == q); t = U(a); t %= U(b); REQUIRE(t == r); } B f((na ? "-" : "") + a), g((nb ? "-" : "") + b); auto [p, s] = B::divmod(f, g); EQ(S(p), Z_::mk(na != nb, Q).str()); EQ(S(s), Z_::mk(na, R).str()); REQUIRE(p * g + s == f); REQUIRE(f / g == p && f % g == s); B t = f; t /= g; REQUIRE(t == p); t = f; t %= g; REQUIRE(t == s); }
SCENARIO(divide, 500) { std::string b = digits(rng, std::max(1, len(rng))); if (b == "0") b = "7"; std::string a = digits(rng, len(rng)); if (rng.coin()) a = digits(rng, b.size() + rng.size(0, 60)); if (rng.pct(40)) { /* a = b * c + small, with gaps of zero limbs */ N_ c = N_::of(digits(rng, rng.size(0, 80))); N_ t = N_::mul(N_::of(b), c); std::string s = t.str(); if (t.d.size()) { int z = 9 * rng(0, 12) + rng(0, 8); s += std::string(z, '0'); N_ e = N_::of(digits(rng, rng.upto(0, std::max(z, 1)))); t = N_::of(s); t = rng.coin() || N_::cmp(t, e) < 0 ? N_::add(t, e) : N_::sub(t, e); } a = t.str(); } LOG(a.size() < 400 ? a : "long", b.size() < 400 ? b : "long"); divcheck(a, b, rng.coin(), rng.coin()); }
// long operands: the Newton iteration is used when both |b| and |a| - |b| exceed 64 limbs
SCENARIO(divide_long, 80) { int lb = rng(64 * 9, 150 * 9), la = lb + rng(60 * 9, 330 * 9); std::string b = digits(rng, lb), a = digits(rng, la); if (rng.pct(35)) { if (rng.pct(70)) lb = lb / 9 * 9 + 9; b = "1" + std::string(lb, '0'); if (rng.coin()) b[0] = '0' + rng(1, 9); else if (rng.pct(60)) b = rng.pick(std::vector<std::string>{ "125", "2", "4", "8", "16", "32", "64", "5", "25", "625", "3125", "15625", "78125", "512", "1024", "65536", "1953125", "500000001" }) + std::string(lb, '0'); if (rng.pct(15)) b.back() = '1'; } if (rng.pct(30)) { N_ t = N_::mul(N_::of(b), N_::of(digits(rng, la - lb))); if (rng.coin()) t = N_::sub(t, N_::of("1")); else if (rng.coin()) t = N_::add(t, N_::sub(N_::of(b), N_::of("1"))); a = t.str(); } LOG(la, lb, a.substr(0, 30), b.substr(0, 30), b.substr(b.size() - 10)); divcheck(a, b, rng.coin(), rng.coin()); }
SCENARIO(divide_smooth, 90) { /* divisors of powers of the limb base: the reciprocal is exact at some precision */ N_ t = N_::of("1"), p5 = N_::of("1220703125"); int lb = rng(64 * 9, 125 * 9); while ((int)t.d.size() * 4 < lb) t = N_::mul(t, p5); for (int e = rng(0, 12); e--;) t = N_::mul(t, N_::of("5")); for (int e = rng(0, 3); e--;) t = N_::mul(t, N_::of("2")); std::string b = t.str(), a = digits(rng, b.size() + rng(60 * 9, 160 * 9)); if (rng.coin()) a = N_::mul(t, N_::of(a.substr(0, a.size() - b.size()))).str(); if (rng.pct(30)) { int z = rng(0, 20); a += std::string(z, '0'), b += std::string(z, '0'); } LOG(a.size(), b.size(), b); divcheck(a, b, rng.coin(), rng.coin()); }
SCENARIO(mul_long, 12) { std::string a = digits(rng, rng(60 * 9, 260 * 9)), b = digits(rng, rng(60 * 9, 260 * 9)); LOG(a.size(), b.size()); EQ(S(U(a) * U(b)), N_::mul(N_::of(a), N_::of(b)).str()); EQ(S(U(a) * U(a)), N_::mul(N_::of(a), N_::of(a)).str()); }
// the same workloads at realistic sizes
RESCALE(add_sub_mul, 4, 16);
RESCALE(divide, 4, 32);
RESCALE(text, 4, 16);
// divisors of D^K + y and D^K - 1: the reciprocal misses the power of the limb base in the last limb only
SCENARIO(divide_near_power, 24) { int j = 2 * (int)rng.in(33, 66), p = rng.pct(70) ? 2 : 4; bool alt = rng.pct(75); std::string b; i64 y = rng.in(1, p == 2 ? 999 : 63); if (alt) { /* D^(pj) - y D^((p-1)j) + ... + y^p, so that b (D^j + y) = D^((p+1)j) + y^(p+1) */ N_ pos, neg; for (int i = 0; i <= p; ++i) { i64 yp = 1; for (int k = i; k < p; ++k) yp *= y; N_ t = N_::of(std::to_string(yp) + std::string(9 * j * i, '0')); if ((p - i) % 2) neg = N_::add(neg, t); else pos = N_::add(pos, t); } b = N_::sub(pos, neg).str(); } else { for (int i = 0; i <= p; ++i) b = (i ? std::string(9 * j - 1, '0') + "1" : std::string("1")).insert(0, b); }
    N_ nb = N_::of(b); N_ t = N_::of(digits(rng, 9 * j - (int)rng.in(0, 9))); N_ a = N_::mul(nb, t); int st = (int)rng.in(0, 3); if (st == 0) a = N_::sub(a, N_::of("1")); else if (st == 1) a = N_::sub(a, N_::of(digits(rng, (int)rng.in(1, 40)))); else if (st == 2) a = N_::add(a, N_::of(digits(rng, (int)rng.in(1, 40)))); LOG(j, p, y, alt, st); divcheck(a.str(), b, false, rng.coin()); }
