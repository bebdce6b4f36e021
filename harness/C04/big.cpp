// Persistent trees and arrays at contest sizes: several full snapshots are kept and audited against every version.
#include "mon.hpp"
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp"
#include "library/datastructure/persistent_array.hpp"
using namespace suisen; using mon::Rng; using mon::i64; using mon::u64;
static const u64 P = (1ULL << 61) - 1, B = 0x1234567890abcdULL;
static u64 mul(u64 a, u64 b) { return (u64)((unsigned __int128)a * b % P); }
static u64 addm(u64 a, u64 b) { a += b; return a >= P ? a - P : a; }
// word of elements: polynomial hash, B^len, sum of B^k for k < len, len
struct H { u64 h = 0, p = 1, s = 0; i64 n = 0; bool operator==(const H& o) const { return h == o.h && n == o.n; } };
static std::ostream& operator<<(std::ostream& o, const H& x) { return o << "#" << x.h << "/" << x.n; }
static H hop(H a, H b) { return { addm(mul(a.h, b.p), b.h), mul(a.p, b.p), addm(mul(a.s, b.p), b.s), a.n + b.n }; }
static H he() { return {}; }
static H h1(u64 x) { return { x, B, 1, 1 }; }
struct A { u64 a = 1, b = 0; };
static H amap(A f, H x) { x.h = addm(mul(f.a, x.h), mul(f.b, x.s)); return x; }
static A acomp(A f, A g) { return { mul(f.a, g.a), addm(mul(f.a, g.b), f.b) }; }
static A aid() { return {}; }
static u64 ap(A f, u64 x) { return addm(mul(f.a, x), f.b); }
static A ra(Rng& rng) { return { rng.pct(15) ? 0 : rng.u() % P, rng.u() % P }; }
static H word(const std::vector<u64>& a, i64 l, i64 r) { H x; for (i64 i = l; i < r; ++i) x = hop(x, h1(a[i])); return x; }
// sizes just around and above the powers of two
static int bigsize(Rng& rng) { static const int b[] = { 4096, 8192, 16384, 32768, 65536, 65536, 131072 }; int p = b[rng(0, 6)]; return p + (rng.coin() ? (int)rng(-2, 2) : (int)rng(0, p / 4)); }
// ranges: uniform, around aligned blocks, whole, tail, single
static std::pair<int, int> rangeOf(Rng& rng, int n) { int l = rng(0, n), r; switch (rng(0, 4)) { case 0: r = rng(l, n); break; case 1: { int k = rng(0, 17), m = (n >> k) + 1; l = (int)std::min<i64>(n, ((i64)rng(0, m) << k) + rng(0, 1)), r = (int)std::min<i64>(n, (i64)l + (1LL << rng(0, 17))); break; } case 2: { int k = rng(0, 17); r = (int)std::min<i64>(n, (i64)rng(0, (n >> k) + 1) << k); l = std::max(0, r - (int)(1 << rng(0, 17))); break; } case 3: r = std::min(n, l + 1); break; default: r = n; if (rng.pct(20)) l = 0; } return { l, r }; }
template <class T> static void searches(Rng& rng, T& t, const std::vector<u64>& a, int l, int r) {
    int n = a.size(); int lim = rng(0, n - l), lim2 = rng(0, r); std::vector<u64> pre(n - l + 1), suf(r + 1); for (int i = l; i < n; ++i) pre[i - l + 1] = addm(mul(pre[i - l], B), a[i]); { u64 pw = 1; for (int i = r - 1; i >= 0; --i) suf[r - i] = addm(suf[r - i - 1], mul(a[i], pw)), pw = mul(pw, B); }
    EQ(t.max_right(l, [&](H x) { return x.n <= lim && x.h == pre[x.n]; }), l + lim); EQ(t.min_left(r, [&](H x) { return x.n <= lim2 && x.h == suf[x.n]; }), r - lim2);
}

template <class T> static T pickVersion(Rng& rng, std::vector<std::pair<T, std::vector<u64>>>& v, std::vector<u64>& a) { auto& p = rng.pct(60) ? v.back() : v[rng(0, (int)v.size() - 1)]; a = p.second; return p.first; }
SCENARIO(persistent_big_plain, 6, 6) { using T = PersistentSegmentTree<H, hop, he>; int n = bigsize(rng); T::init_pool(2 * n + 20000); std::vector<u64> a(n); std::vector<H> b(n); for (int i = 0; i < n; ++i) b[i] = h1(a[i] = rng.u() % P); std::vector<std::pair<T, std::vector<u64>>> v{ { T(b), a } }; LOG(n);
    for (int q = 0; q < 8; ++q) { T t = pickVersion(rng, v, a); for (int k = 0; k < 100; ++k) { int i = rng(0, n - 1); a[i] = rng.u() % P; t = rng.coin() ? t.set(i, h1(a[i])) : t.apply(i, [&](H) { return h1(a[i]); }); } v.push_back({ t, a }); for (int k = 0; k < 6; ++k) { auto& [u, w] = v[rng(0, (int)v.size() - 1)]; auto [l, r] = rangeOf(rng, n); EQ(u(l, r), word(w, l, r), l, r); searches(rng, u, w, l, r); int i = rng(0, n - 1); EQ(u.get(i), h1(w[i])); } }
    for (auto& [t, w] : v) { EQ(t.prod_all(), word(w, 0, n)); auto d = t.dump(); REQUIRE((int)d.size() == n); for (int i = 0; i < n; ++i) if (!(d[i] == h1(w[i]))) FAIL(i); } }
SCENARIO(persistent_big_lazy, 6, 6) { using T = PersistentLazySegmentTree<H, hop, he, A, amap, acomp, aid>; int n = bigsize(rng); T::init_pool(2 * n + 120000); std::vector<u64> a(n); std::vector<H> b(n); for (int i = 0; i < n; ++i) b[i] = h1(a[i] = rng.u() % P); std::vector<std::pair<T, std::vector<u64>>> v{ { T(b), a } }; LOG(n);
    for (int q = 0; q < 8; ++q) { T t = pickVersion(rng, v, a); for (int k = 0; k < 6; ++k) { auto [l, r] = rangeOf(rng, n); A f = ra(rng); t = t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = ap(f, a[i]); int i = rng(0, n - 1); a[i] = rng.u() % P; t = t.set(i, h1(a[i])); } if (rng.pct(15)) { A f = ra(rng); t = t.apply_all(f); for (auto& x : a) x = ap(f, x); } v.push_back({ t, a }); for (int k = 0; k < 6; ++k) { auto& [u, w] = v[rng(0, (int)v.size() - 1)]; auto [l, r] = rangeOf(rng, n); EQ(u(l, r), word(w, l, r), l, r); searches(rng, u, w, l, r); int i = rng(0, n - 1); EQ(u.get(i), h1(w[i])); } }
    for (auto& [t, w] : v) { EQ(t.prod_all(), word(w, 0, n)); for (int i = 0; i < n; i += 101) EQ(t.get(i), h1(w[i])); } }
struct AE { u64 a = 1, b = 0; bool operator==(const AE& o) const { return a == o.a && b == o.b; } bool operator!=(const AE& o) const { return !(*this == o); } };
static AE aecomp(AE f, AE g) { return { mul(f.a, g.a), addm(mul(f.a, g.b), f.b) }; } static AE aeid() { return {}; }
template <class T> static void bigdual(Rng& rng, bool comm) { int n = bigsize(rng); T::init_pool(2 * n + 120000); std::vector<AE> a(n); std::vector<std::pair<T, std::vector<AE>>> v{ { T(n), a } }; LOG(n);
    for (int q = 0; q < 8; ++q) { auto [t, w] = rng.pct(60) ? v.back() : rng.pick(v); for (int k = 0; k < 8; ++k) { auto [l, r] = rangeOf(rng, n); AE f{ comm ? 1 : rng.u() % P, rng.u() % P }; t = t.apply(l, r, f); for (int i = l; i < r; ++i) w[i] = aecomp(f, w[i]); } v.push_back({ t, w }); }
    for (auto& [t, w] : v) for (int i = rng(0, 3); i < n; i += 4) { AE g = t.get(i); EQ(g.a, w[i].a, i); EQ(g.b, w[i].b, i); } }
SCENARIO(persistent_big_dual, 6, 6) { bigdual<PersistentDualSegmentTree<AE, aecomp, aeid>>(rng, false); }
SCENARIO(persistent_big_dual_commutative, 5, 6) { bigdual<PersistentCommutativeDualSegmentTree<AE, aecomp, aeid>>(rng, true); }
template <int lg> static void bigarray(Rng& rng) { using T = PersistentArray<i64, lg>; int n = bigsize(rng); if (rng.pct(25)) { n = 1; while (n < 20000) n <<= lg; n += (int)rng(-1, 1); } T::init_pool(2 * n + 40000); std::vector<i64> a(n, 7); std::vector<std::pair<T, std::vector<i64>>> v; if (rng.coin()) { for (auto& x : a) x = rng(-1000000, 1000000); v.push_back({ T(a), a }); } else v.push_back({ T(n, 7), a }); LOG(n, lg);
    for (int q = 0; q < 8; ++q) { auto [t, b] = rng.pct(60) ? v.back() : rng.pick(v); EQ(t.size(), n); for (int k = 0; k < 120; ++k) { int i = rng(0, n - 1); i64 x = rng(-1000, 1000); t = t.set(i, x); b[i] = x; } v.push_back({ t, b }); }
    for (auto& [t, b] : v) { for (int k = 0; k < 2000; ++k) { int i = rng(0, n - 1); EQ(t.get(i), b[i], i); } auto d = t.dump(); REQUIRE(d == b); } }
SCENARIO(persistent_big_array_2, 3, 6) { bigarray<1>(rng); }
SCENARIO(persistent_big_array_8, 3, 6) { bigarray<3>(rng); }
SCENARIO(persistent_big_array_16, 4, 6) { bigarray<4>(rng); }
