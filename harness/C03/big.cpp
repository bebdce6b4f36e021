// Segment trees at contest sizes: a non-commutative hash monoid makes whole-range products cheap to audit.
#include "mon.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_beats.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/commutative_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/datastructure/segment_tree/sparse_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
using namespace suisen; using mon::Rng; using mon::i64; using mon::u64;
static const u64 P = (1ULL << 61) - 1, B = 0x1234567890abcdULL;
static u64 mul(u64 a, u64 b) { return (u64)((unsigned __int128)a * b % P); }
static u64 addm(u64 a, u64 b) { a += b; return a >= P ? a - P : a; }
// word of elements: polynomial hash, B^len, sum of B^k for k < len, len
struct H { u64 h = 0, p = 1, s = 0; i64 n = 0; bool operator==(const H& o) const { return h == o.h && n == o.n; } };
static std::ostream& operator<<(std::ostream& o, const H& x) { return o << "#" << x.h << "/" << x.n; }
static H hop(H a, H b) { return { addm(mul(a.h, b.p), b.h), mul(a.p, b.p), addm(mul(a.s, b.p), b.s), a.n + b.n }; }
static H he() { return {}; }
static H h1(u64 x) { return { x, B, 1, 1 }; }
struct A { u64 a = 1, b = 0; };
static H amap(A f, H x) { x.h = addm(mul(f.a, x.h), mul(f.b, x.s)); return x; }
static A acomp(A f, A g) { return { mul(f.a, g.a), addm(mul(f.a, g.b), f.b) }; }
static A aid() { return {}; }
static u64 ap(A f, u64 x) { return addm(mul(f.a, x), f.b); }
static A ra(Rng& rng) { return { rng.pct(15) ? 0 : rng.u() % P, rng.u() % P }; }
static H word(const std::vector<u64>& a, i64 l, i64 r) { H x; for (i64 i = l; i < r; ++i) x = hop(x, h1(a[i])); return x; }
// sizes just around and above the powers of two
static int bigsize(Rng& rng) { static const int b[] = { 4096, 8192, 16384, 32768, 65536, 65536, 131072 }; int p = b[rng(0, 6)]; return p + (rng.coin() ? (int)rng(-2, 2) : (int)rng(0, p / 4)); }
// ranges: uniform, around aligned blocks, whole, tail, single
static std::pair<int, int> rangeOf(Rng& rng, int n) { int l = rng(0, n), r; switch (rng(0, 4)) { case 0: r = rng(l, n); break; case 1: { int k = rng(0, 17), m = (n >> k) + 1; l = (int)std::min<i64>(n, ((i64)rng(0, m) << k) + rng(0, 1)), r = (int)std::min<i64>(n, (i64)l + (1LL << rng(0, 17))); break; } case 2: { int k = rng(0, 17); r = (int)std::min<i64>(n, (i64)rng(0, (n >> k) + 1) << k); l = std::max(0, r - (int)(1 << rng(0, 17))); break; } case 3: r = std::min(n, l + 1); break; default: r = n; if (rng.pct(20)) l = 0; } return { l, r }; }
template <class T> static void searches(Rng& rng, T& t, const std::vector<u64>& a, int l, int r) {
    int n = a.size(); int lim = rng(0, n - l), lim2 = rng(0, r); std::vector<u64> pre(n - l + 1), suf(r + 1); for (int i = l; i < n; ++i) pre[i - l + 1] = addm(mul(pre[i - l], B), a[i]); { u64 pw = 1; for (int i = r - 1; i >= 0; --i) suf[r - i] = addm(suf[r - i - 1], mul(a[i], pw)), pw = mul(pw, B); }
    EQ(t.max_right(l, [&](H x) { return x.n <= lim && x.h == pre[x.n]; }), l + lim); EQ(t.min_left(r, [&](H x) { return x.n <= lim2 && x.h == suf[x.n]; }), r - lim2);
}
SCENARIO(big_plain, 10, 6) { int n = bigsize(rng); std::vector<u64> a(n); std::vector<H> b(n); for (int i = 0; i < n; ++i) b[i] = h1(a[i] = rng.u() % P); SegmentTree<H, hop, he> s(b); LOG(n);
    for (int q = 0; q < 40; ++q) { for (int k = 0; k < 200; ++k) { int i = rng(0, n - 1); a[i] = rng.u() % P; if (rng.coin()) s.set(i, h1(a[i])); else s[i] = h1(a[i]); } auto [l, r] = rangeOf(rng, n); EQ(s(l, r), word(a, l, r), l, r); EQ(s.prefix_prod(r), word(a, 0, r)); EQ(s.suffix_prod(l), word(a, l, n)); searches(rng, s, a, l, r); EQ(s.get(rng(0, n - 1)).n, 1); } EQ(s.all_prod(), word(a, 0, n)); for (int i = 0; i < n; i += 37) EQ(s.get(i), h1(a[i])); }
SCENARIO(big_lazy, 12, 6) { int n = bigsize(rng); std::vector<u64> a(n); std::vector<H> b(n); for (int i = 0; i < n; ++i) b[i] = h1(a[i] = rng.u() % P); LazySegmentTree<H, hop, he, A, amap, acomp, aid> s(b); LOG(n);
    for (int q = 0; q < 40; ++q) { for (int k = 0; k < 5; ++k) { auto [l, r] = rangeOf(rng, n); A f = ra(rng); s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = ap(f, a[i]); int j = rng(0, n - 1); switch (rng(0, 3)) { case 0: s.set(j, h1(a[j] = rng.u() % P)); break; case 1: s.apply(j, f); a[j] = ap(f, a[j]); break; case 2: EQ(s.get(j), h1(a[j])); break; default: s[j] = h1(a[j] = rng.u() % P); } } auto [l, r] = rangeOf(rng, n); if (rng.coin()) EQ(s(l, r), word(a, l, r), l, r); else searches(rng, s, a, l, r); if (rng.pct(20)) EQ(s.all_prod(), word(a, 0, n)); } for (int i = 0; i < n; i += 53) EQ(s.get(i), h1(a[i])); }
static u64 pmap(A f, u64 x) { return ap(f, x); }
static u64 addmap(u64 f, u64 x) { return addm(f, x); } static u64 zero() { return 0; }
SCENARIO(big_dual, 12, 6) { int n = bigsize(rng); std::vector<u64> a(n); for (auto& x : a) x = rng.u() % P; auto c = a; DualSegmentTree<u64, A, pmap, acomp, aid> s(a); CommutativeDualSegmentTree<u64, u64, addmap, addm, zero> t(c); LOG(n);
    for (int q = 0; q < 150; ++q) { auto [l, r] = rangeOf(rng, n); A f = ra(rng); s.apply(l, r, f); t.apply(l, r, f.b); for (int i = l; i < r; ++i) a[i] = ap(f, a[i]), c[i] = addm(c[i], f.b); for (int k = 0; k < 4; ++k) { int i = k < 2 ? rng(0, n - 1) : k == 2 ? std::min(l, n - 1) : std::max(0, r - 1); EQ(s[i], a[i], i); EQ(t.get(i), c[i], i); } } for (int i = 0; i < n; ++i) if (s[i] != a[i] || t[i] != c[i]) FAIL(i); }
// x %= m over a range, with subtree failures at every level (leaves' parents included)
struct Mo { i64 sum = 0, mx = 0; int n = 0; bool fail = false; };
static Mo mop(Mo x, Mo y) { return { x.sum + y.sum, std::max(x.mx, y.mx), x.n + y.n, false }; }
static Mo moe() { return {}; }
static Mo momap(i64 m, Mo x) { if (m == 0 || x.mx < m) return x; if (x.n == 1) { x.sum = x.mx = x.mx % m; return x; } x.fail = true; return x; }
static i64 mocomp(i64 f, i64 g) { return f ? f : g; } static i64 moid() { return 0; }
SCENARIO(beats_modulo, 220, 6) { int n = rng.size(1, 70); i64 top = rng.coin() ? 30 : 1000000000000LL; std::vector<i64> a = rng.vec<i64>(n, 0, top); std::vector<Mo> b(n); for (int i = 0; i < n; ++i) b[i] = { a[i], a[i], 1 }; SegmentTreeBeats<Mo, mop, moe, i64, momap, mocomp, moid> s(b); LOG(a);
    for (int q = rng.size(1, 40); q--;) { int l = rng(0, n), r = rng(l, n); i64 m = rng.coin() ? rng(1, top) : rng(1, std::max<i64>(1, top / 8)); LOG(l, r, m); switch (rng(0, 2)) { case 0: s.apply(l, r, m); for (int i = l; i < r; ++i) a[i] %= m; break; case 1: { int i = rng(0, n - 1); a[i] = rng(0, top); s.set(i, { a[i], a[i], 1 }); break; } default: { int i = rng(0, n - 1); s.apply(i, m), a[i] %= m; } } l = rng(0, n), r = rng(l, n); i64 sm = 0, mx = 0; for (int i = l; i < r; ++i) sm += a[i], mx = std::max(mx, a[i]); Mo g = s.prod(l, r); EQ(g.sum, sm); EQ(g.mx, mx); EQ(g.n, r - l); EQ(s.all_prod().n, n); i64 lim = rng(0, top); int w = l; i64 acc = 0; while (w < n && acc + a[w] <= lim) acc += a[w++]; EQ(s.max_right(l, [&](Mo x) { return x.sum <= lim; }), w); w = r, acc = 0; while (w > 0 && acc + a[w - 1] <= lim) acc += a[--w]; EQ(s.min_left(r, [&](Mo x) { return x.sum <= lim; }), w); } for (int i = 0; i < n; ++i) EQ(s.get(i).sum, a[i]); }
RESCALE(beats_modulo, 5, 256);
SCENARIO(big_compressed, 8, 6) { int n = (int)rng(3000, 20000); std::vector<i64> xs; for (int i = 0; i < n; ++i) xs.push_back(rng.coin() ? (i64)(rng.u() >> 2) * (rng.coin() ? 1 : -1) : rng(-50000, 50000)); CompressedSegmentTree<H, hop, he, 1, i64> s; for (i64 x : xs) s.add_point(x); s.build(); std::sort(xs.begin(), xs.end()), xs.erase(std::unique(xs.begin(), xs.end()), xs.end()); n = xs.size(); std::vector<H> a(n); LOG(n);
    for (int q = 0; q < 60; ++q) { for (int k = 0; k < 200; ++k) { int i = rng(0, n - 1); s.set(xs[i], a[i] = h1(rng.u() % P)); } auto [l, r] = rangeOf(rng, n); i64 L = l < n ? xs[l] : xs[n - 1] + 1, R = r < n ? xs[r] : xs[n - 1] + 1; if (l && l < n && xs[l - 1] + 1 < xs[l] && rng.coin()) L = xs[l - 1] + 1; H w; for (int i = l; i < r; ++i) w = hop(w, a[i]); if (n & (n - 1)) { H g = s.query(L, R); EQ(g.n, w.n); EQ(g, w); } else EQ(s.query(L, R), w); int i = rng(0, n - 1); EQ(s.get(xs[i]), a[i]); i64 z = xs[i] + 1; EQ(s.get_or_identity(z), std::binary_search(xs.begin(), xs.end(), z) ? a[i + 1] : H()); } }
static i64 mxop(i64 a, i64 b) { return std::max(a, b); } static i64 mxe() { return -1; }
SCENARIO(big_2d_sparse, 6, 6) { int n = (int)rng(300, 1500), R = rng.coin() ? 60 : 1000000000; std::map<std::pair<int, int>, i64> a; std::set<int> xsn; std::vector<std::pair<int, int>> ps; for (int i = 0; i < n; ++i) { int x = rng(-R, R), y = rng(-R, R); a[{ x, y }] = -1; xsn.insert(x); } SegmentTree2DSparse<i64, mxop, mxe> s(xsn.size()); for (auto& [p, v] : a) s.add_point(p.first, p.second), ps.push_back(p); s.build(); LOG(n, R); auto near = [&](bool fst) { auto& p = ps[rng(0, (int)ps.size() - 1)]; return (fst ? p.first : p.second) + (int)rng(0, 1); };
    for (int q = 0; q < 120; ++q) { for (int k = 0; k < 8; ++k) { auto p = ps[rng(0, (int)ps.size() - 1)]; i64 v = rng(0, 1000); if (rng.coin()) s.set(p.first, p.second, v); else s[{ p.first, p.second }] = v; a[p] = v; } int l = near(true), r = near(true), d = near(false), u = near(false); if (rng.pct(30)) r = l + 1; if (l > r) std::swap(l, r); if (d > u) std::swap(d, u); i64 w = -1; for (auto& [p, v] : a) if (l <= p.first && p.first < r && d <= p.second && p.second < u) w = std::max(w, v); EQ(s(l, r, d, u), w); i64 lim = rng(-1, 1000); auto f = [&](i64 x) { return x <= lim; }; int up = std::numeric_limits<int>::max(), dn = std::numeric_limits<int>::min(); for (auto& [p, v] : a) if (l <= p.first && p.first < r && v > lim) { if (p.second >= d) up = std::min(up, p.second); if (p.second < u) dn = std::max(dn, p.second + 1); } EQ(s.max_up(l, r, d, f), up); EQ(s.min_down(l, r, u, f), dn); } i64 w = -1; for (auto& [p, v] : a) w = std::max(w, v); EQ(s.all_prod(), w); }
static H sparse_init(i64 l, i64 r) { H x = he(), b = h1(7); for (i64 k = r - l; k > 0; k >>= 1, b = hop(b, b)) if (k & 1) x = hop(x, b); return x; }
SCENARIO(big_sparse, 8, 6) { i64 n = rng.coin() ? 1000000000000000000LL : rng(100000, 1LL << 40); std::map<i64, u64> a; SparseSegmentTree<i64, H, hop, he, sparse_init> s(n); LOG(n); auto model = [&](i64 l, i64 r) { H x; i64 c = l; for (auto it = a.lower_bound(l); it != a.end() && it->first < r; ++it) x = hop(hop(x, sparse_init(c, it->first)), h1(it->second)), c = it->first + 1; return hop(x, sparse_init(c, r)); }; i64 base = rng(0, n - 70000);
    for (int q = 0; q < 300; ++q) { for (int k = 0; k < 30; ++k) { i64 i = rng.coin() ? base + rng(0, 65536) : rng(0, n - 1); u64 v = rng.u() % P; a[i] = v; s.set(i, h1(v)); } if (q % 10) continue; i64 l = rng.coin() ? base + rng(0, 65536) : rng(0, n), r = rng.coin() ? base + rng(0, 65536) : rng(0, n); if (l > r) std::swap(l, r); EQ(s(l, r), model(l, r)); EQ(s.prod_all(), model(0, n)); i64 i = rng(0, n - 1); EQ(s.get(i), h1(a.count(i) ? a[i] : 7)); EQ(s.get(a.begin()->first), h1(a.begin()->second)); } }
struct D { u64 f = 0, b = 0, p = 1; bool operator==(const D& o) const { return f == o.f && b == o.b && p == o.p; } };
static std::ostream& operator<<(std::ostream& o, const D& x) { return o << x.f << "," << x.b; }
static D dop(D x, D y) { return { addm(mul(x.f, y.p), y.f), addm(x.b, mul(y.b, x.p)), mul(x.p, y.p) }; } static D de() { return {}; } static D dtog(D x) { std::swap(x.f, x.b); return x; } static D d1(u64 x) { return { x, x, B }; }
SCENARIO(big_sortable, 5, 6) { int n = (int)rng(2000, 12000); std::vector<std::pair<int, D>> a(n); auto k = rng.perm(4 * n); for (int i = 0; i < n; ++i) a[i] = { k[i], d1(rng.u() % P) }; SortableSegmentTree<D, dop, de, dtog> s(a); LOG(n); int nk = n;
    for (int q = 0; q < 60; ++q) { int m = a.size(); auto [l, r] = rangeOf(rng, m); switch (rng(0, 4)) { case 0: s.sort_asc(l, r); std::sort(a.begin() + l, a.begin() + r, [](auto& x, auto& y) { return x.first < y.first; }); break; case 1: s.sort_dsc(l, r); std::sort(a.begin() + l, a.begin() + r, [](auto& x, auto& y) { return x.first > y.first; }); break; case 2: { int i = rng(0, m - 1); D v = d1(rng.u() % P); s.set_value(i, v), a[i].second = v; break; } case 3: if (nk < 4 * n) { int i = rng(0, m); D v = d1(rng.u() % P); s.insert(i, k[nk], v), a.insert(a.begin() + i, { k[nk], v }), ++nk; } break; default: { int i = rng(0, m - 1); auto e = s.erase(i); EQ(e.first, a[i].first); EQ(e.second, a[i].second); a.erase(a.begin() + i); } } m = a.size(); auto [x, y] = rangeOf(rng, m); D w; for (int i = x; i < y; ++i) w = dop(w, a[i].second); EQ(s.prod(x, y), w); EQ(s.size(), m); } auto ks = s.dump_keys(); for (size_t i = 0; i < a.size(); ++i) if (ks[i] != a[i].first) FAIL(i); REQUIRE(ks.size() == a.size()); }
SCENARIO(big_2d, 3, 6) { int n = (int)rng(60, 300), m = (int)rng(60, 300); std::vector<std::vector<i64>> a(n, std::vector<i64>(m)); for (auto& r : a) for (auto& x : r) x = rng(-1, 1000000); SegmentTree2D<i64, mxop, mxe> s(a); LOG(n, m); for (int q = 0; q < 80; ++q) { for (int k = 0; k < 20; ++k) { int i = rng(0, n - 1), j = rng(0, m - 1); i64 v = rng(-1, 1000000); s.set(i, j, a[i][j] = v); } auto [u, d] = rangeOf(rng, n); auto [l, r] = rangeOf(rng, m); i64 w = -1; for (int i = u; i < d; ++i) for (int j = l; j < r; ++j) w = std::max(w, a[i][j]); EQ(s(u, d, l, r), w); } }
SCENARIO(big_sparse_max, 6, 6) { i64 n = rng(1000, 1LL << 50); auto s = std::make_unique<SparseSegmentTree<i64, i64, mxop, mxe>>(n); std::map<i64, i64> a; LOG(n); for (int q = 0; q < 3000; ++q) { i64 i = rng(0, n - 1), v = rng(0, 1000000); a[i] = v; s->set(i, v); if (q % 50 == 0) { i64 l = rng(0, n), r = rng(l, n), w = -1; for (auto it = a.lower_bound(l); it != a.end() && it->first < r; ++it) w = std::max(w, it->second); EQ(s->prod(l, r), w); } } }
