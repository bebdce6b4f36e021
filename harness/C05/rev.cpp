// MON: shards=4
#include "mon.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
S cat_op(S a, S b) { return a + b; } S cat_e() { return ""; } S rev(S s) { std::reverse(s.begin(), s.end()); return s; }
struct Aff { int a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } };
struct AffN { int a = 1, b = 0; }; // no equality
template <class F> F comp(F f, F g) { return { f.a * g.a % 26, (f.a * g.b + f.b) % 26 }; }
template <class F> F fid() { return {}; }
template <class F> char map1(F f, char c) { return char('a' + (f.a * (c - 'a') + f.b) % 26); }
template <class F> S map_one(F f, S s) { for (auto& c : s) c = map1(f, c); return s; }
template <class F> S map_len(F f, S s, int len) { if ((int)s.size() != len) FAIL("mapping called with length", len, "for", s); return map_one(f, s); }
enum Kind { ARR, SEG, DUAL, LAZY };
template <class T, Kind K, class F = Aff> void run(Rng& rng, int huge = 0) {
    const int mag = huge ? huge : rng.mag;
    if (rng.pct(20)) T::reserve(rng(0, 300));
    using V = std::vector<S>; auto one = [&] { return S(1, char('a' + rng(0, 25))); };
    auto join = [](const V& a, int l, int r) { S s; for (int i = l; i < r; ++i) s += a[i]; return s; };
    int n = huge ? huge + (int)rng(-3, 3) : rng.size(0, 60); V a(n); for (auto& x : a) x = one(); bool sorted = rng.pct(40); if (sorted) std::sort(a.begin(), a.end());
    T t; if (rng.pct(15)) { S f = one(); t = T(n, f); a.assign(n, f); } else if (n) t = T(a); else if (rng.coin()) t = T(V{});
    auto check_iter = [&](const T& t, const V& a) {
        int z = (int)a.size(); const T& c = t;
        { int i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) EQ(*it, a[i]); EQ(i, z); }
        { int i = z; for (auto it = c.rbegin(); it != c.rend(); it++) EQ(*it, a[--i]); EQ(i, 0); }
        if (!z) return;
        { S y(1, char(97 + rng(0, 25))); EQ(std::find(c.begin(), c.end(), y) - c.begin(), std::find(a.begin(), a.end(), y) - a.begin()); EQ(std::find(c.rbegin(), c.rend(), y) - c.rbegin(), std::find(a.rbegin(), a.rend(), y) - a.rbegin()); if (std::is_sorted(a.begin(), a.end())) EQ(std::lower_bound(c.begin(), c.end(), y) - c.begin(), std::lower_bound(a.begin(), a.end(), y) - a.begin()); }
        auto it = rng.coin() ? c.cbegin() : c.cend(); int p = (int)(it - c.cbegin()); auto rt = c.crbegin(); int q = 0;
        for (int k = 0; k < 12; ++k) {
            int np = rng(0, z); switch (rng(0, 4)) { case 0: it += np - p; break; case 1: it -= p - np; break; case 2: if (rng.coin()) it = it + (np - p); else it = (np - p) + it; break; case 3: it = it - (p - np); break; default: if (p < z && rng.coin()) { if (rng.coin()) ++it; else it++; np = p + 1; } else if (p > 0) { if (rng.coin()) --it; else it--; np = p - 1; } else np = p; }
            p = np; EQ(it - c.cbegin(), p); EQ(c.cend() - it, z - p); EQ(it == c.cend(), p == z); EQ(it < c.cend(), p < z); if (p < z) EQ(*it, a[p]);
            int d = rng(0, z - 1); EQ(it[d - p], a[d]);
            int nq = rng(0, z); rt += nq - q; q = nq; if (q < z) EQ(*rt, a[z - 1 - q]); EQ(rt - c.crbegin(), q);
        }
    };
    auto audit = [&](T& t, const V& a) { EQ(t.size(), (int)a.size()); EQ(t.empty(), a.empty()); if constexpr (K == SEG || K == LAZY) EQ(t.prod_all(), join(a, 0, (int)a.size())); if (rng.pct(30)) check_iter(t, a); EQV(t.dump(), a); };
    audit(t, a);
    for (int q = huge ? 15 : rng.size(1, 60); q--;) {
        int z = (int)a.size(), l = rng(0, z), r = rng(l, z), m = rng(l, r), op = rng(0, 24); S x = one(); LOG("op", op, l, r, x, z);
        sorted = std::is_sorted(a.begin(), a.end()); if (!sorted && 19 <= op && op <= 22 && rng.coin()) { std::sort(a.begin(), a.end()); t.free(); t = T(a); sorted = true; }
        switch (op) {
        case 0: case 1: if (z < 120 * mag) { t.insert(l, x); a.insert(a.begin() + l, x); } break;
        case 2: if (z < 120 * mag) { if (rng.coin()) t.push_front(x), a.insert(a.begin(), x); else t.push_back(x), a.push_back(x); } break;
        case 3: if (l < z) { EQ(t.erase(l), a[l]); a.erase(a.begin() + l); } break;
        case 4: if (z) { if (rng.coin()) { EQ(t.pop_front(), a[0]); a.erase(a.begin()); } else { EQ(t.pop_back(), a.back()); a.pop_back(); } } break;
        case 5: { T u = t.split(l); V b(a.begin() + l, a.end()); a.resize(l); audit(t, a); audit(u, b); switch (rng(0, 2)) { case 0: t.merge(u), a.insert(a.end(), b.begin(), b.end()); break; case 1: u.merge(t), t = u, b.insert(b.end(), a.begin(), a.end()), a = b; break; default: if (rng.coin()) u.free(); else u.clear(); EQ(u.size(), 0); } break; }
        case 6: t.rotate(l); std::rotate(a.begin(), a.begin() + l, a.end()); break;
        case 7: t.rotate(l, m, r); std::rotate(a.begin() + l, a.begin() + m, a.begin() + r); break;
        case 8: case 9: t.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); break;
        case 10: t.reverse_all(); std::reverse(a.begin(), a.end()); break;
        case 11: if (z) { const T& c = t; int i = rng(0, z - 1); EQ(c[i], a[i]); EQ(c.front(), a[0]); EQ(c.back(), a.back()); } break;
        case 12: if (l < z) { if constexpr (K == ARR || K == DUAL) { switch (rng(0, 3)) { case 0: t[l] = x; a[l] = x; break; case 1: t.front() = x; a[0] = x; break; case 2: t.back() = x; a.back() = x; break; default: *(t.begin() + l) = x; a[l] = x; } EQ(t[l], a[l]); EQ(t.front(), a[0]); EQ(t.back(), a.back()); int i = 0; for (auto it = t.begin(); it != t.end(); ++it) EQ(*it, a[i++]); EQ(i, z); for (auto it = t.rbegin(); it != t.rend(); ++it) EQ(*it, a[--i]); }
                else { if (rng.coin()) t.set(l, x); else t.apply(l, [&](const S& y) { REQUIRE(y == a[l]); return x; }); a[l] = x; EQ(t.get(l), x); } } break;
        case 13: if constexpr (K == SEG || K == LAZY) { EQ(t.prod(l, r), join(a, l, r)); EQ(t.prod(0, z), join(a, 0, z)); } break;
        case 14: if constexpr (K == SEG || K == LAZY) { S w = join(a, l, z); int lim = rng(0, z - l); auto p = [&](const S& y) { return (int)y.size() <= lim && w.compare(0, y.size(), y) == 0; }; EQ(t.max_right(l, p), l + lim);
                 char c = x[0]; auto p2 = [&](const S& y) { return y.find(c) == S::npos; }; int e = l; while (e < z && a[e][0] != c) ++e; EQ(t.max_right(l, p2), e); } break;
        case 15: if constexpr (K == SEG || K == LAZY) { S w = join(a, 0, r); int lim = rng(0, r); auto p = [&](const S& y) { return (int)y.size() <= lim && w.compare(r - y.size(), y.size(), y) == 0; }; EQ(t.min_left(r, p), r - lim);
                 char c = x[0]; auto p2 = [&](const S& y) { return y.find(c) == S::npos; }; int e = r; while (e > 0 && a[e - 1][0] != c) --e; EQ(t.min_left(r, p2), e); } break;
        case 16: case 17: if constexpr (K == DUAL || K == LAZY) { F f{ (int)rng(0, 25), (int)rng(0, 25) }; if (rng.pct(70)) { t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = map_one(f, a[i]); } else { t.apply_all(f); for (auto& y : a) y = map_one(f, y); } } break;
        case 18: { int i = rng(0, z); auto [pos, v] = t.binary_search([&](const S& y, int k) { REQUIRE(0 <= k && k < z && a[k] == y); return k >= i; }); EQ(pos, i); EQ(v.has_value(), i < z); if (v) EQ(*v, a[i]); break; }
        case 19: if (z < 120 * mag) { int cnt = 0; if (rng.coin()) { // predicate on values, monotone by construction: threshold on sorted content
                 if (!sorted) break; int i = int(std::find_if(a.begin(), a.end(), [&](const S& y) { return y >= x; }) - a.begin()); S y = sorted && rng.coin() ? x : one(); EQ(t.insert_binary_search(y, [&](const S& v) { ++cnt; return v >= x; }), i); a.insert(a.begin() + i, y); }
                 else { if (!sorted) break; int lo = int(std::lower_bound(a.begin(), a.end(), x) - a.begin()), up = int(std::upper_bound(a.begin(), a.end(), x) - a.begin()); if (rng.coin()) { EQ(t.insert_lower_bound(x), lo); a.insert(a.begin() + lo, x); } else { EQ(t.insert_upper_bound(x), up); a.insert(a.begin() + up, x); } } } break;
        case 20: if (sorted) { int lo = int(std::lower_bound(a.begin(), a.end(), x) - a.begin()), up = int(std::upper_bound(a.begin(), a.end(), x) - a.begin()); auto [p, v] = t.lower_bound(x); EQ(p, lo); EQ(v.has_value(), lo < z); if (v) EQ(*v, a[lo]); auto [p2, v2] = t.upper_bound(x); EQ(p2, up); EQ(v2.has_value(), up < z); if (v2) EQ(*v2, a[up]); } break;
        case 21: if (sorted) { int lo = int(std::lower_bound(a.begin(), a.end(), x) - a.begin()), up = int(std::upper_bound(a.begin(), a.end(), x) - a.begin()); int k = rng(0, 3), i; std::optional<std::pair<int, S>> g;
                 bool ok; switch (k) { case 0: g = t.erase_lower_bound(x); i = lo; ok = i < z; break; case 1: g = t.erase_upper_bound(x); i = up; ok = i < z; break; case 2: g = t.erase_if_exists(x); i = lo; ok = i < z && a[i] == x; break; default: { S y = one(); g = t.erase_binary_search([&](const S& v) { return v >= x; }, [&](const S& v) { return v >= y; }); i = lo; ok = i < z && a[i] >= y; } }
                 EQ(g.has_value(), ok); if (g) { EQ(g->first, i); EQ(g->second, a[i]); a.erase(a.begin() + i); } } break;
        case 22: if (sorted) { int lo = int(std::lower_bound(a.begin(), a.end(), x) - a.begin()), up = int(std::upper_bound(a.begin(), a.end(), x) - a.begin()), k = rng(0, 2), i = k == 1 ? up : lo; T u = k == 0 ? t.split_lower_bound(x) : k == 1 ? t.split_upper_bound(x) : t.split_binary_search([&](const S& v) { return v >= x; }); V b(a.begin() + i, a.end()); a.resize(i); audit(t, a); audit(u, b); t.merge(u); a.insert(a.end(), b.begin(), b.end()); } break;
        case 23: { std::sort(a.begin(), a.end()); t.free(); EQ(t.empty(), true); t = T(a); break; }
        default: if (z && rng.pct(20)) { t.clear(); a.clear(); } break;
        }
        if (rng.pct(50)) audit(t, a); else { EQ(t.size(), (int)a.size()); }
    }
    audit(t, a); t.free();
}
SCENARIO(reversible_array, 400) { run<ReversibleDynamicArray<S>, ARR>(rng); }
SCENARIO(reversible_product, 400) { run<ReversibleDynamicSegmentTree<S, cat_op, cat_e, rev>, SEG>(rng); }
SCENARIO(reversible_apply, 400) { run<ReversibleDynamicDualSegmentTree<S, Aff, map_one<Aff>, comp<Aff>, fid<Aff>>, DUAL>(rng); }
SCENARIO(reversible_apply_product, 400) { run<ReversibleDynamicLazySegmentTree<S, cat_op, cat_e, rev, Aff, map_len<Aff>, comp<Aff>, fid<Aff>>, LAZY>(rng); }
SCENARIO(reversible_apply_noeq, 150) { run<ReversibleDynamicDualSegmentTree<S, AffN, map_one<AffN>, comp<AffN>, fid<AffN>>, DUAL, AffN>(rng); }
SCENARIO(reversible_apply_product_noeq, 150) { run<ReversibleDynamicLazySegmentTree<S, cat_op, cat_e, rev, AffN, map_len<AffN>, comp<AffN>, fid<AffN>>, LAZY, AffN>(rng); }
// the same workloads at realistic sizes
RESCALE(reversible_product, 4, 512);
RESCALE(reversible_apply, 4, 256);
RESCALE(reversible_array, 4, 512);
RESCALE(reversible_apply_product_noeq, 4, 32);
RESCALE(reversible_apply_product, 4, 256);
RESCALE(reversible_apply_noeq, 4, 128);
SCENARIO(reversible_array_huge, 2, 4) { run<ReversibleDynamicArray<S>, ARR>(rng, 65536); }
SCENARIO(reversible_product_huge, 2, 4) { run<ReversibleDynamicSegmentTree<S, cat_op, cat_e, rev>, SEG>(rng, 65536); }
SCENARIO(reversible_apply_product_huge, 2, 4) { run<ReversibleDynamicLazySegmentTree<S, cat_op, cat_e, rev, Aff, map_len<Aff>, comp<Aff>, fid<Aff>>, LAZY>(rng, 65536); }
