#include "mon.hpp"
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp"
#include "library/datastructure/persistent_array.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
S cat_op(S a, S b) { return a + b; } S cat_e() { return ""; }
struct Aff { int a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } bool operator!=(const Aff& o) const { return !(*this == o); } };
Aff f_comp(Aff f, Aff g) { return { f.a * g.a % 26, (f.a * g.b + f.b) % 26 }; } Aff f_id() { return {}; }
char map1(Aff f, char c) { return char('a' + (f.a * (c - 'a') + f.b) % 26); }
S f_map(Aff f, S s) { for (auto& c : s) c = map1(f, c); return s; }
Aff rnd_aff(Rng& rng) { if (rng.pct(25)) return { 0, (int)rng(0, 25) }; return { (int)rng(0, 25), (int)rng(0, 25) }; }
S join(const std::vector<S>& a, int l, int r) { S s; for (int i = l; i < r; ++i) s += a[i]; return s; }
bool short_pred(S s) { return s.size() <= 3; }
template <class P> int ref_max_right(const std::vector<S>& a, int l, P p) { S s; int r = l; while (r < (int)a.size() && p(s + a[r])) s += a[r++]; return r; }
template <class P> int ref_min_left(const std::vector<S>& a, int r, P p) { S s; int l = r; while (l > 0 && p(a[l - 1] + s)) s = a[--l] + s; return l; }
// order-sensitive monotone predicates: x is a prefix (suffix) of the expected word, at most lim long
template <class T> void ordered_search(Rng& rng, T& t, const std::vector<S>& a, int l, int r) {
    S w = join(a, l, (int)a.size()), v = join(a, 0, r); int lim = rng(0, (i64)w.size()), lim2 = rng(0, (i64)v.size());
    auto p = [&](S x) { return (int)x.size() <= lim && w.compare(0, x.size(), x) == 0; };
    auto q = [&](S x) { return (int)x.size() <= lim2 && v.compare(v.size() - x.size(), x.size(), x) == 0; };
    EQ(t.max_right(l, p), ref_max_right(a, l, p)); EQ(t.min_left(r, q), ref_min_left(a, r, q));
}
S one(Rng& rng) { return S(1, char('a' + rng(0, 25))); }
template <class T> void queries(Rng& rng, T& t, const std::vector<S>& a) {
    int n = (int)a.size(); int l = rng(0, n), r = rng(l, n);
    EQ(t.prod_all(), join(a, 0, n)); EQ(t.prod(l, r), join(a, l, r)); EQ(t(l, r), join(a, l, r));
    if (n) { int i = rng(0, n - 1); EQ(t.get(i), a[i]); EQ(t[i], a[i]); }
    ordered_search(rng, t, a, l, r);
    char c = char('a' + rng(0, 25)); int k = rng(0, 2); auto p = [&](S s) { return std::count(s.begin(), s.end(), c) <= k; };
    EQ(t.max_right(l, p), ref_max_right(a, l, p)); EQ(t.min_left(r, p), ref_min_left(a, r, p));
    EQ(t.template max_right<short_pred>(l), ref_max_right(a, l, short_pred)); EQ(t.template min_left<short_pred>(r), ref_min_left(a, r, short_pred));
}
template <class T> void full(T& t, const std::vector<S>& a) { EQV(t.dump(), a); std::vector<S> d; t.dump(std::back_inserter(d)); EQV(d, a); for (int i = 0; i < (int)a.size(); ++i) EQ(t.get(i), a[i]); }
SCENARIO(persistent_point_set, 400) {
    using T = PersistentSegmentTree<S, cat_op, cat_e>; if (rng.coin()) T::init_pool(3000 * (2 * rng.mag - 1)); else T::init_pool(3000 * (2 * rng.mag - 1)), [&] { T x(std::vector<S>(rng(1, 60), "z")); T::clear_pool(); }();
    int n = rng.size(0, 60); std::vector<S> a(n); std::vector<std::pair<T, std::vector<S>>> v; if (rng.coin()) { for (auto& x : a) x = one(rng); v.push_back({ T(a), a }); } else if (n == 0 && rng.coin()) v.push_back({ T(), a }); else v.push_back({ T(n), a });
    for (int q = rng.size(1, 60); q--;) {
        auto [t, b] = rng.pct(60) ? v.back() : rng.pick(v);
        if (n) { int i = rng(0, n - 1); S x = one(rng); LOG("set", i, x); if (rng.coin()) { T u = t.set(i, x); b[i] = x; v.push_back({ u, b }); } else { T u = t.apply(i, [&](S y) { return y == x ? S() : x; }); b[i] = b[i] == x ? S() : x; v.push_back({ u, b }); } }
        auto& [t2, b2] = v[rng(0, (i64)v.size() - 1)]; queries(rng, t2, b2);
    }
    for (auto& [t, b] : v) full(t, b);
}
SCENARIO(persistent_range_apply, 400) {
    using T = PersistentLazySegmentTree<S, cat_op, cat_e, Aff, f_map, f_comp, f_id>; T::init_pool(30000 * (2 * rng.mag - 1)); if (rng.coin()) { T x(std::vector<S>(rng(1, 60), "z")); x = x.apply(0, 1, Aff{ 0, 3 }); T::clear_pool(); }
    int n = rng.size(0, 60); std::vector<S> a(n); std::vector<std::pair<T, std::vector<S>>> v; if (rng.coin()) { for (auto& x : a) x = one(rng); v.push_back({ T(a), a }); } else if (n == 0 && rng.coin()) v.push_back({ T(), a }); else v.push_back({ T(n), a });
    for (int q = rng.size(1, 60); q--;) {
        auto [t, b] = rng.pct(60) ? v.back() : rng.pick(v); int l = rng(0, n), r = rng(l, n); if (rng.pct(15)) l = 0; if (rng.pct(15)) r = n; Aff f = rnd_aff(rng); int o = rng(0, 5); LOG("op", o, l, r, f.a, f.b); T u = t;
        switch (o) {
        case 0: case 1: case 2: u = t.apply(l, r, f); for (int i = l; i < r; ++i) b[i] = f_map(f, b[i]); break;
        case 3: u = t.apply_all(f); for (auto& x : b) x = f_map(f, x); break;
        case 4: if (n) { int i = rng(0, n - 1); S x = one(rng); u = t.set(i, x); b[i] = x; } break;
        default: if (n) { int i = rng(0, n - 1); S x = one(rng); u = t.apply(i, [&](S y) { return y == x ? S() : x; }); b[i] = b[i] == x ? S() : x; } break;
        }
        v.push_back({ u, b }); auto& [t2, b2] = v[rng(0, (i64)v.size() - 1)]; queries(rng, t2, b2);
    }
    for (auto& [t, b] : v) full(t, b);
}
template <class T> void dual(Rng& rng, bool comm) {
    T::init_pool(30000 * (2 * rng.mag - 1)); if (rng.coin()) { T x((int)rng(1, 60)); x = x.apply(0, 1, Aff{ 1, 3 }); T::clear_pool(); }
    int n = rng.size(0, 60); std::vector<Aff> a(n); std::vector<std::pair<T, std::vector<Aff>>> v; if (n == 0 && rng.coin()) v.push_back({ T(), a }); else v.push_back({ T(n), a });
    for (int q = rng.size(1, 60); q--;) {
        auto [t, b] = rng.pct(60) ? v.back() : rng.pick(v); int l = rng(0, n), r = rng(l, n); if (rng.pct(15)) l = 0; if (rng.pct(15)) r = n; Aff f = comm ? Aff{ 1, (int)rng(0, 25) } : rnd_aff(rng); LOG("apply", l, r, f.a, f.b); T u;
        if (rng.pct(15)) { u = t.apply_all(f); for (auto& g : b) g = f_comp(f, g); } else { u = t.apply(l, r, f); for (int i = l; i < r; ++i) b[i] = f_comp(f, b[i]); }
        v.push_back({ u, b }); if (n) { auto& [t2, b2] = v[rng(0, (i64)v.size() - 1)]; int i = rng(0, n - 1); Aff g = t2.get(i), h = t2[i]; REQUIRE(g == b2[i] && h == b2[i], g.a, g.b, b2[i].a, b2[i].b); }
    }
    for (auto& [t, b] : v) for (int i = 0; i < n; ++i) { Aff g = t.get(i); EQ(g.a, b[i].a); EQ(g.b, b[i].b); }
}
SCENARIO(persistent_dual, 400) { dual<PersistentDualSegmentTree<Aff, f_comp, f_id>>(rng, false); }
SCENARIO(persistent_dual_commutative, 300) { dual<PersistentCommutativeDualSegmentTree<Aff, f_comp, f_id>>(rng, true); }
template <int lg> void parray(Rng& rng) {
    using T = PersistentArray<i64, lg>; T::init_pool(20000 * (2 * rng.mag - 1)); int n = rng.size(0, rng.pct(20) ? 600 : 60); std::vector<i64> a(n, 7); std::vector<std::pair<T, std::vector<i64>>> v;
    if (rng.coin()) { for (auto& x : a) x = rng(-1000, 1000); v.push_back({ T(a), a }); } else v.push_back({ T(n, 7), a });
    if (n) for (int k = rng(0, 3); k--;) { int i = rng(0, n - 1); i64 x = rng(0, 100); EQ(v[0].first.mut_set(i, x), v[0].second[i]); v[0].second[i] = x; } // in place, before any other version exists
    for (int q = rng.size(1, 60); q--;) {
        auto [t, b] = rng.pct(60) ? v.back() : rng.pick(v); EQ(t.size(), n);
        if (n) { int i = rng(0, n - 1); i64 x = rng(-1000, 1000); LOG("set", i, x); T u = t.set(i, x); b[i] = x; v.push_back({ u, b }); auto& [t2, b2] = v[rng(0, (i64)v.size() - 1)]; i = rng(0, n - 1); EQ(t2.get(i), b2[i]); }
        if (rng.pct(10)) v.push_back({ v.back().first.clone(), v.back().second });
    }
    for (auto& [t, b] : v) { EQV(t.dump(), b); for (int i = 0; i < n; ++i) EQ(t.get(i), b[i]); }
}
SCENARIO(persistent_array_2, 150) { parray<1>(rng); }
SCENARIO(persistent_array_8, 150) { parray<3>(rng); }
SCENARIO(persistent_array_16, 150) { parray<4>(rng); }
// the same workloads at realistic sizes
RESCALE(persistent_array_2, 4, 16);
RESCALE(persistent_dual, 4, 32);
RESCALE(persistent_point_set, 4, 16);
RESCALE(persistent_range_apply, 4, 16);
RESCALE(persistent_array_8, 4, 32);
RESCALE(persistent_dual_commutative, 4, 32);
RESCALE(persistent_array_16, 4, 8);
