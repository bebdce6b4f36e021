#include "mon.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/commutative_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/datastructure/segment_tree/sparse_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
// free monoid: any lost, duplicated or reordered element is visible
S cat_op(S a, S b) { return a + b; }
S cat_e() { return ""; }
struct Aff { int a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } };
Aff f_comp(Aff f, Aff g) { return { f.a * g.a % 26, (f.a * g.b + f.b) % 26 }; }
Aff f_id() { return {}; }
char map1(Aff f, char c) { return char('a' + (f.a * (c - 'a') + f.b) % 26); }
S f_map(Aff f, S s) { for (auto& c : s) c = map1(f, c); return s; }
Aff rnd_aff(Rng& rng) { if (rng.pct(25)) return { 0, (int)rng(0, 25) }; return { (int)rng(0, 25), (int)rng(0, 25) }; }
S one(Rng& rng) { return S(1, char('a' + rng(0, 25))); }
bool short_pred(S s) { return s.size() <= 3; }
S join(const std::vector<S>& a, int l, int r) { S s; for (int i = l; i < r; ++i) s += a[i]; return s; }
template <class P> int ref_max_right(const std::vector<S>& a, int l, P p) { S s; int r = l; while (r < (int)a.size() && p(s + a[r])) s += a[r++]; return r; }
template <class P> int ref_min_left(const std::vector<S>& a, int r, P p) { S s; int l = r; while (l > 0 && p(a[l - 1] + s)) s = a[--l] + s; return l; }
// order-sensitive monotone predicates: x is a prefix (suffix) of the expected word, at most lim long
template <class T> void ordered_search(Rng& rng, T& t, const std::vector<S>& a, int l, int r) {
    S w = join(a, l, (int)a.size()), v = join(a, 0, r); int lim = rng(0, (i64)w.size()), lim2 = rng(0, (i64)v.size());
    auto p = [&](S x) { return (int)x.size() <= lim && w.compare(0, x.size(), x) == 0; };
    auto q = [&](S x) { return (int)x.size() <= lim2 && v.compare(v.size() - x.size(), x.size(), x) == 0; };
    EQ(t.max_right(l, p), ref_max_right(a, l, p)); EQ(t.min_left(r, q), ref_min_left(a, r, q));
}
int count_c(const S& s, char c) { return (int)std::count(s.begin(), s.end(), c); }

SCENARIO(point_set_range_product, 500) {
    using Seg = SegmentTree<S, cat_op, cat_e>;
    int n = rng.size(0, 70); std::vector<S> a(n); Seg s;
    bool empties = rng.pct(30);
    auto val = [&] { return empties && rng.coin() ? S() : rng.pct(10) ? rng.string(2, 26) : one(rng); };
    switch (rng(0, 2)) {
    case 0: s = Seg(n); break;
    case 1: for (auto& x : a) x = val(); s = Seg(a); break;
    default: for (auto& x : a) x = val(); s = Seg(n); s.build(a); break;
    }
    auto audit = [&] {
        EQ(s.all_prod(), join(a, 0, n));
        for (int k = 0; k < 6; ++k) { int l = rng(0, n), r = rng(l, n); EQ(s(l, r), join(a, l, r)); EQ(s.prod(l, r), join(a, l, r)); EQ(s.prefix_prod(r), join(a, 0, r)); EQ(s.suffix_prod(l), join(a, l, n)); }
    };
    audit();
    for (int q = rng.size(1, 40); q--;) {
        if (n) { int i = rng.pct(20) ? (rng.coin() ? 0 : n - 1) : rng(0, n - 1); S v = val(); LOG("set", i, v);
            switch (rng(0, 2)) { case 0: s.set(i, v); a[i] = v; break; case 1: s[i] = v; a[i] = v; break; default: s[i] += v; a[i] += v; } if (a[i].size() > 4) s.set(i, a[i] = ""); EQ(s.get(i), a[i]); EQ((S)s[i], a[i]); }
        int l = rng(0, n), lim = rng(0, 12); char c = char('a' + rng(0, 25)); int cl = rng(0, 3);
        auto p1 = [&](S x) { return (int)x.size() <= lim; }; auto p2 = [&](S x) { return count_c(x, c) <= cl; };
        EQ(s.max_right(l, p1), ref_max_right(a, l, p1)); EQ(s.min_left(l, p1), ref_min_left(a, l, p1));
        EQ(s.max_right(l, p2), ref_max_right(a, l, p2)); EQ(s.min_left(l, p2), ref_min_left(a, l, p2));
        EQ(s.max_right<short_pred>(l), ref_max_right(a, l, short_pred)); EQ(s.min_left<short_pred>(l), ref_min_left(a, l, short_pred));
        int r = rng(l, n); EQ(s(l, r), join(a, l, r)); ordered_search(rng, s, a, l, r);
    }
    audit();
    for (int i = 0; i < n; ++i) EQ(s.get(i), a[i]);
}
SCENARIO(range_apply_range_product, 600) {
    using Seg = LazySegmentTree<S, cat_op, cat_e, Aff, f_map, f_comp, f_id>;
    int n = rng.size(0, 70); std::vector<S> a(n); Seg s;
    if (rng.coin()) { for (auto& x : a) x = one(rng); s = Seg(a); } else { s = Seg(n); for (int i = 0; i < n; ++i) s.set(i, a[i] = one(rng)); }
    EQ(s.all_prod(), join(a, 0, n));
    for (int q = rng.size(1, 60); q--;) {
        int l = rng(0, n), r = rng(l, n); if (rng.pct(15)) l = 0; if (rng.pct(15)) r = n;
        Aff f = rnd_aff(rng); int op = rng(0, 9); LOG("op", op, l, r, f.a, f.b);
        switch (op) {
        case 0: case 1: case 2: s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = f_map(f, a[i]); break;
        case 3: if (n) { int p = rng(0, n - 1); s.apply(p, f); a[p] = f_map(f, a[p]); } break;
        case 4: if (n) { int p = rng(0, n - 1); S v = one(rng); if (rng.coin()) s.set(p, v); else s[p] = v; a[p] = v; } break;
        case 5: if (n) { int p = rng(0, n - 1); EQ(s.get(p), a[p]); EQ((S)s[p], a[p]); } break;
        case 6: EQ(s(l, r), join(a, l, r)); EQ(s.prod(l, r), join(a, l, r)); break;
        case 7: EQ(s.prefix_prod(r), join(a, 0, r)); EQ(s.suffix_prod(l), join(a, l, n)); EQ(s.all_prod(), join(a, 0, n)); break;
        case 8: { ordered_search(rng, s, a, l, r); char c = char('a' + rng(0, 25)); int cl = rng(0, 3); auto p = [&](S x) { return count_c(x, c) <= cl; }; EQ(s.max_right(l, p), ref_max_right(a, l, p)); if (rng.pct(30)) EQ(s.max_right<short_pred>(l), ref_max_right(a, l, short_pred)); break; }
        default: { ordered_search(rng, s, a, l, r); char c = char('a' + rng(0, 25)); int cl = rng(0, 3); auto p = [&](S x) { return count_c(x, c) <= cl; }; EQ(s.min_left(r, p), ref_min_left(a, r, p)); if (rng.pct(30)) EQ(s.min_left<short_pred>(r), ref_min_left(a, r, short_pred)); break; }
        }
    }
    EQ(s.prod(0, n), join(a, 0, n));
    for (int i = 0; i < n; ++i) EQ(s.get(i), a[i]);
}
char fc_map(Aff f, char c) { return map1(f, c); }
template <class D> void dual(Rng& rng, bool commutative) {
    int n = rng.size(0, 90); std::vector<char> a(n); 
    D s;
    if (rng.coin()) { for (auto& c : a) c = char('a' + rng(0, 25)); if (rng.coin()) s = D(a); else { auto b = a; s = D(std::move(b)); } } else { char c = char('a' + rng(0, 25)); for (auto& x : a) x = c; s = D(n, c); }
    for (int q = rng.size(1, 60); q--;) {
        int l = rng(0, n), r = rng(l, n); if (rng.pct(15)) l = 0; if (rng.pct(15)) r = n;
        Aff f = commutative ? Aff{ 1, (int)rng(0, 25) } : rnd_aff(rng); LOG("apply", l, r, f.a, f.b);
        s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = map1(f, a[i]);
        if (n) { int i = rng(0, n - 1); EQ(s[i], a[i]); EQ(s.get(i), a[i]); }
    }
    for (int i = 0; i < n; ++i) EQ(s[i], a[i]);
}
SCENARIO(dual_commutative, 500) { dual<CommutativeDualSegmentTree<char, Aff, fc_map, f_comp, f_id>>(rng, true); }
SCENARIO(dual_ordered, 700) { dual<DualSegmentTree<char, Aff, fc_map, f_comp, f_id>>(rng, false); }

// commutative, non-invertible and invertible operations for the multi-dimensional trees
int mx(int a, int b) { return std::max(a, b); } int mx_e() { return -1000000000; }
u64 ad(u64 a, u64 b) { return a + b; } u64 ad_e() { return 0; }
SCENARIO(compressed_1d, 400) {
    using C = CompressedSegmentTree<S, cat_op, cat_e, 1, i64>; C c; int n = rng.size(0, 40); std::map<i64, S> m; std::vector<i64> p;
    for (int i = 0; i < n; ++i) { i64 x = rng.pct(50) ? rng(-20, 20) : rng.wides(-1000000000000, 1000000000000); c.add_point(x); m[x] = ""; p.push_back(x); }
    c.build();
    auto ref = [&](i64 l, i64 r) { S s; for (auto& [k, v] : m) if (l <= k && k < r) s += v; return s; };
    for (int q = rng.size(1, 50); q--;) {
        if (n) { i64 x = rng.pick(p); S v = one(rng); if (rng.pct(70)) { c.set(x, v); m[x] = v; } EQ(c.get(x), m[x]); }
        i64 l = n && rng.coin() ? rng.pick(p) + rng(-1, 1) : rng(-30, 30), r = n && rng.coin() ? rng.pick(p) + rng(-1, 1) : rng(-30, 30); if (l > r) std::swap(l, r);
        EQ(c.query(l, r), ref(l, r));
    }
}
SCENARIO(compressed_1d_apply, 300) {
    using C = CompressedSegmentTree<u64, ad, ad_e>; C c; int n = rng.size(1, 40); std::map<int, u64> m; std::vector<int> p;
    for (int i = 0; i < n; ++i) { int x = (int)rng(-50, 50); c.add_point(x); m[x] = 0; p.push_back(x); }
    c.build();
    for (int q = rng.size(1, 50); q--;) { int x = rng.pick(p); u64 v = rng.u(); if (rng.coin()) c.apply(x, v), m[x] += v; else c.set(x, v), m[x] = v;
        int l = rng(-60, 60), r = rng(l, 61); u64 w = 0; for (auto& [k, y] : m) if (l <= k && k < r) w += y; EQ(c.query(l, r), w); EQ(c.query({ l, r }), w); EQ(c.get(x), m[x]); }
}
template <class T, T(*op)(T, T), T(*e)(), std::size_t K> void compressed_kd(Rng& rng) {
    using C = CompressedSegmentTree<T, op, e, K>; C c; using P = std::array<int, K>; std::vector<P> ps; std::map<P, T> m; int w = rng.coin() ? 4 : 30;
    for (int i = rng.size(0, K == 2 ? 40 : 20); i--;) { P p; for (auto& x : p) x = (int)rng(-w, w); c.add_point(p); ps.push_back(p); m[p] = e(); }
    c.build();
    for (int q = rng.size(1, 40); q--;) {
        if (ps.size()) { P p = rng.pick(ps); T v = (T)rng.in(-100000, 100000); int o = rng(0, 2); LOG("op", o, p, v);
            if (o == 0) c.apply(p, v), m[p] = op(m[p], v); else if (o == 1) c.set(p, v), m[p] = v;
            EQ(c.get(p), m[p]); }
        typename C::cube_type cu; for (auto& [l, r] : cu) { l = (int)rng(-w - 1, w + 1); r = (int)rng(l, w + 2); if (rng.pct(25)) l = -w - 1; if (rng.pct(25)) r = w + 2; }
        T ref = e(); for (auto& [p, v] : m) { bool in = true; for (size_t k = 0; k < K; ++k) in &= cu[k].first <= p[k] && p[k] < cu[k].second; if (in) ref = op(ref, v); }
        EQ(c.query(cu), ref);
    }
}
SCENARIO(compressed_2d_max, 300) { compressed_kd<int, mx, mx_e, 2>(rng); }
SCENARIO(compressed_2d_sum, 300) { compressed_kd<u64, ad, ad_e, 2>(rng); }
SCENARIO(compressed_3d_sum, 200) { compressed_kd<u64, ad, ad_e, 3>(rng); }
template <class T, T(*op)(T, T), T(*e)()> void grid(Rng& rng) {
    using G = SegmentTree2D<T, op, e>; int n = rng.size(1, 20), m = rng.size(1, 20); std::vector<std::vector<T>> a(n, std::vector<T>(m, e()));
    G g; if (rng.coin()) { for (auto& r : a) for (auto& x : r) x = (T)rng.in(-100000, 100000); g = G(a); } else g = G(n, m);
    for (int q = rng.size(1, 50); q--;) {
        int i = rng(0, n - 1), j = rng(0, m - 1); T v = (T)rng.in(-100000, 100000); if (rng.pct(60)) { LOG("set", i, j, v); g.set(i, j, v), a[i][j] = v; } EQ(g.get(i, j), a[i][j]);
        int u = rng(0, n), d = rng(u, n), l = rng(0, m), r = rng(l, m); if (rng.pct(10)) u = 0, d = n; if (rng.pct(10)) l = 0, r = m;
        T w = e(); for (int x = u; x < d; ++x) for (int y = l; y < r; ++y) w = op(w, a[x][y]); EQ(g(u, d, l, r), w);
    }
}
SCENARIO(dense_2d_max, 300) { grid<int, mx, mx_e>(rng); }
SCENARIO(dense_2d_sum, 300) { grid<u64, ad, ad_e>(rng); }
template <class T, T(*op)(T, T), T(*e)()> void sparse2d(Rng& rng, bool bisect) {
    using G = SegmentTree2DSparse<T, op, e>; int k = rng.size(1, 40), w = rng.coin() ? 6 : 40; std::set<int> xs; std::vector<std::pair<int, int>> ps; std::map<std::pair<int, int>, T> m;
    for (int i = 0; i < k; ++i) { int x = (int)rng(-w, w), y = (int)rng(-w, w); if (rng.pct(3)) x = INT_MIN; if (rng.pct(3)) y = INT_MIN; xs.insert(x); ps.push_back({ x, y }); m[{x, y}] = e(); }
    G g((int)xs.size() + (int)rng(0, 3)); for (auto [x, y] : ps) g.add_point(x, y); g.build();
    for (int q = rng.size(1, 50); q--;) {
        auto p = rng.pick(ps); T v = (T)rng.in(0, 1000); int o = rng(0, 2); LOG("op", o, p, v);
        if (o == 0) g.set(p.first, p.second, v), m[p] = v; else if (o == 1) g[p] = v, m[p] = v;
        EQ(g.get(p.first, p.second), m[p]);
        int l = (int)rng(-w - 1, w + 1), r = (int)rng(l, w + 2), d = (int)rng(-w - 1, w + 1), u = (int)rng(d, w + 2); if (rng.pct(10)) l = INT_MIN; if (rng.pct(10)) d = INT_MIN; if (rng.pct(10)) r = INT_MAX; if (rng.pct(10)) u = INT_MAX;
        T ref = e(), all = e(); for (auto& [c, y] : m) { all = op(all, y); if (l <= c.first && c.first < r && d <= c.second && c.second < u) ref = op(ref, y); }
        EQ(g(l, r, d, u), ref); EQ(g.prod(l, r, d, u), ref); EQ(g.all_prod(), all);
        if (bisect) { // largest u' such that f(prod(l,r,d,u')) for threshold predicates on the maximum
            i64 th = rng(0, 1000); auto f = [&](T x) { return (i64)x <= th || x == e(); };
            int want_u = INT_MAX, want_d = INT_MIN;
            for (auto& [c, y] : m) if (l <= c.first && c.first < r && !f(y)) { if (c.second >= d) want_u = std::min(want_u, c.second); if (c.second < u) want_d = std::max(want_d, c.second + 1); }
            EQ(g.max_up(l, r, d, f), want_u); EQ(g.min_down(l, r, u, f), want_d);
        }
    }
}
SCENARIO(sparse_2d_max, 300) { sparse2d<int, mx, mx_e>(rng, true); }
SCENARIO(sparse_2d_sum, 300) { sparse2d<u64, ad, ad_e>(rng, false); }

// implicit (sparse) trees over huge index ranges
S init_none(i64, i64) { return ""; }
SCENARIO(sparse_string_sequence, 400) {
    using T = SparseSegmentTree<i64, S, cat_op, cat_e>; i64 n = rng.pct(40) ? rng(1, 40) : (i64)rng.wide(1000000000000000000LL - 1) + 1; T t(n); std::map<i64, S> m; std::vector<i64> us;
    auto idx = [&] { if (us.size() && rng.pct(50)) { i64 x = rng.pick(us) + rng(-1, 1); return std::clamp<i64>(x, 0, n - 1); } return (i64)rng.wide(n - 1); };
    auto ref = [&](i64 l, i64 r) { S s; for (auto it = m.lower_bound(l); it != m.end() && it->first < r; ++it) s += it->second; return s; };
    T other(n); // nodes come from one shared pool: a second live tree must not be disturbed
    for (int q = rng.size(1, 60); q--;) {
        i64 i = idx(); us.push_back(i); S v = one(rng);
        switch (rng(0, 2)) { case 0: t.set(i, v), m[i] = v; break; case 1: t.apply_fun(i, [&](const S& s) { return v + s; }), m[i] = v + m[i]; if (m[i].size() > 3) t.set(i, ""), m[i] = ""; break; default: other.set(i, v); EQ(other.get(i), v); }
        i = idx(); EQ(t.get(i), m.count(i) ? m[i] : S()); i64 l = idx(), r = idx(); if (l > r) std::swap(l, r); if (rng.coin()) ++r; if (rng.pct(5)) l = 0, r = n;
        EQ(t(l, r), ref(l, r)); EQ(t.prod(l, r), ref(l, r)); EQ(t.prod_all(), ref(0, n));
    }
}
// sum of (i*7+3) over the range as initial content, in a modular ring
u64 init_lin(i64 l, i64 r) { u64 c = (u64)(r - l), s = (u64)l + (u64)r - 1; return r <= l ? 0 : ((c & 1) ? c * ((s) / 2) * 7 : (c / 2) * s * 7) + 3 * c; }
SCENARIO(sparse_initial_values, 400) {
    using T = SparseSegmentTree<i64, u64, ad, ad_e, init_lin>; i64 n = rng.pct(40) ? rng(1, 40) : rng(1, 1000000000000LL); T::reserve(1000); T t(n); std::map<i64, u64> delta; std::vector<i64> us{ 0, n - 1 };
    auto idx = [&] { if (rng.pct(50)) return std::clamp<i64>(rng.pick(us) + rng(-1, 1), 0, n - 1); return rng.in(0, n - 1); };
    auto at = [&](i64 i) { return (u64)i * 7 + 3 + (delta.count(i) ? delta[i] : 0); };
    auto pre = [&](i64 r) { u64 s = 0, k = (u64)r; s = (k % 2 == 0 ? (k / 2) * (k - 1) : k * ((k - 1) / 2)) * 7 + 3 * k; for (auto& [i, d] : delta) if (i < r) s += d; return s; };
    for (int q = rng.size(1, 60); q--;) { i64 i = idx(); us.push_back(i); u64 v = rng.u(); EQ(t.get(i), at(i)); if (rng.coin()) { t.set(i, v); delta[i] = v - ((u64)i * 7 + 3); } else t.apply_fun(i, [&](u64 x) { return x + v; }), delta[i] += v;
        EQ(t.get(i), at(i)); i64 l = idx(), r = idx(); if (l > r) std::swap(l, r); if (rng.coin()) ++r; EQ(t(l, r), pre(r) - pre(l)); EQ(t.prod_all(), pre(n)); }
}
// lazy: affine update on values, ring Z/2^64; element i initially 7i+3
struct A64 { u64 a = 1, b = 0; }; A64 a_comp(A64 f, A64 g) { return { f.a * g.a, f.a * g.b + f.b }; } A64 a_id() { return {}; }
u64 a_map(A64 f, u64 x, i64 l, i64 r) { return f.a * x + f.b * (u64)(r - l); }
SCENARIO(sparse_lazy, 500) {
    using T = SparseLazySegmentTree<i64, u64, ad, ad_e, A64, a_map, a_comp, a_id, init_lin>; i64 n = rng.pct(50) ? rng(1, 40) : rng(1, 1000000000000LL); T::reserve(100000); T t(n);
    // reference: piecewise list of (start -> affine applied to initial)
    std::map<i64, A64> seg{ { 0, {} }, { n, {} } }; auto cut = [&](i64 x) { auto it = seg.lower_bound(x); if (it->first != x) { A64 f = std::prev(it)->second; seg[x] = f; } };
    std::vector<i64> us{ 0, n - 1 }; auto idx = [&] { if (rng.pct(50)) return std::clamp<i64>(rng.pick(us) + rng(-1, 1), 0, n - 1); return rng.in(0, n - 1); };
    auto at = [&](i64 i) { auto it = std::prev(seg.upper_bound(i)); return it->second.a * ((u64)i * 7 + 3) + it->second.b; };
    auto sum = [&](i64 l, i64 r) { u64 s = 0; for (auto it = std::prev(seg.upper_bound(l)); it != seg.end() && it->first < r; ++it) { i64 x = std::max(l, it->first), y = std::min(r, std::next(it)->first); if (x < y) s += it->second.a * init_lin(x, y) + it->second.b * (u64)(y - x); } return s; };
    for (int q = rng.size(1, 60); q--;) {
        i64 i = idx(), l = idx(), r = idx(); us.push_back(i); if (l > r) std::swap(l, r); if (rng.coin()) ++r; if (rng.pct(8)) l = 0, r = n; A64 f{ rng.pct(20) ? 0 : rng.u(), rng.u() }; int o = rng(0, 6); LOG("op", o, i, l, r);
        switch (o) {
        case 0: case 1: if (l < r) { cut(l); cut(r); for (auto it = seg.find(l); it->first < r; ++it) it->second = a_comp(f, it->second); } t.apply(l, r, f); break;
        case 2: t.apply_all(f); for (auto it = seg.begin(); it->first < n; ++it) it->second = a_comp(f, it->second); break;
        case 3: t.set(i, f.b); cut(i); cut(i + 1); seg[i] = { 0, f.b }; break;
        case 4: t.apply(i, f); cut(i); cut(i + 1); seg[i] = a_comp(f, seg[i]); break;
        case 5: t.apply_fun(i, [&](u64 x) { return x + 5; }); cut(i); cut(i + 1); seg[i].b += 5; break;
        default: break;
        }
        i = idx(); EQ(t.get(i), at(i)); EQ(t(l, r), sum(l, r)); EQ(t.prod(l, r), sum(l, r)); EQ(t.prod_all(), sum(0, n)); EQ(t.get(i), at(i));
    }
}
// the same workloads at realistic sizes
RESCALE(range_apply_range_product, 4, 16);
RESCALE(compressed_1d_apply, 4, 512);
RESCALE(dual_ordered, 4, 512);
RESCALE(compressed_2d_max, 4, 512);
RESCALE(compressed_2d_sum, 4, 512);
RESCALE(compressed_1d, 4, 512);
RESCALE(compressed_3d_sum, 4, 256);
RESCALE(point_set_range_product, 4, 32);
RESCALE(sparse_2d_max, 4, 256);
RESCALE(dual_commutative, 4, 512);
RESCALE(sparse_2d_sum, 4, 512);
RESCALE(sparse_lazy, 4, 128);
RESCALE(sparse_initial_values, 4, 256);
RESCALE(dense_2d_sum, 4, 64);
RESCALE(dense_2d_max, 4, 64);
RESCALE(sparse_string_sequence, 4, 128);
