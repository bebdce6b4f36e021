// MON: shards=4
#include "mon.hpp"
#include "library/datastructure/bbst/implicit_treap.hpp"
#include "library/datastructure/bbst/implicit_treap_segtree.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
S cat_op(S a, S b) { return a + b; } S cat_e() { return ""; }
enum Kind { ARR, SEG };
template <class T, Kind K> void run(Rng& rng, int huge = 0) {
    const int mag = huge ? huge : rng.mag;
    if (rng.pct(20)) T::reserve(rng(0, 300));
    using V = std::vector<S>; auto one = [&] { return S(1, char('a' + rng(0, 25))); };
    auto join = [](const V& a, int l, int r) { S s; for (int i = l; i < r; ++i) s += a[i]; return s; };
    int n = huge ? huge + (int)rng(-3, 3) : rng.size(0, 60); V a(n); for (auto& x : a) x = one(); if (rng.pct(40)) std::sort(a.begin(), a.end());
    T t; if (rng.pct(15)) { S f = one(); t = T(n, f); a.assign(n, f); } else if (n) t = T(a); else if (rng.coin()) t = T(V{});
    auto check_iter = [&](const T& t, const V& a) {
        int z = (int)a.size(); const T& c = t;
        { int i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) EQ(*it, a[i]); EQ(i, z); }
        { int i = z; for (auto it = c.rbegin(); it != c.rend(); it++) EQ(*it, a[--i]); EQ(i, 0); }
        if (!z) return;
        { S y(1, char(97 + rng(0, 25))); EQ(std::find(c.begin(), c.end(), y) - c.begin(), std::find(a.begin(), a.end(), y) - a.begin()); EQ(std::find(c.rbegin(), c.rend(), y) - c.rbegin(), std::find(a.rbegin(), a.rend(), y) - a.rbegin()); if (std::is_sorted(a.begin(), a.end())) EQ(std::lower_bound(c.begin(), c.end(), y) - c.begin(), std::lower_bound(a.begin(), a.end(), y) - a.begin()); }
        auto it = rng.coin() ? c.cbegin() : c.cend(); int p = (int)(it - c.cbegin()); auto rt = c.crbegin(); int q = 0;
        for (int k = 0; k < 12; ++k) {
            int np = rng.coin() ? rng(0, z) : std::clamp<int>(p + rng(-5, 5), 0, z); switch (rng(0, 4)) { case 0: it += np - p; break; case 1: it -= p - np; break; case 2: it = it + (np - p); break; case 3: it = it - (p - np); break; default: if (p < z && rng.coin()) { if (rng.coin()) ++it; else it++; np = p + 1; } else if (p > 0) { if (rng.coin()) --it; else it--; np = p - 1; } else np = p; }
            p = np; EQ(it - c.cbegin(), p); EQ(it.index(), p); EQ(it.size(), z); EQ(c.cend() - it, z - p); EQ(it == c.cend(), p == z); EQ(it < c.cend(), p < z); if (p < z) EQ(*it, a[p]);
            int d = rng(0, z - 1); EQ(it[d - p], a[d]); EQ(*(d - p + it), a[d]);
            int nq = rng.coin() ? rng(0, z) : std::clamp<int>(q + rng(-5, 5), 0, z); rt += nq - q; q = nq; if (q < z) EQ(*rt, a[z - 1 - q]); EQ(rt - c.crbegin(), q);
        }
    };
    auto audit = [&](T& t, const V& a) { EQ(t.size(), (int)a.size()); EQ(t.empty(), a.empty()); if constexpr (K == SEG) EQ(t.prod_all(), join(a, 0, (int)a.size())); check_iter(t, a); EQV(t.dump(), a); };
    auto at = [&](auto it, const V& a, int i) { EQ(it.index(), i); if (i < (int)a.size()) { EQ(*it, a[i]); auto jt = it; int s = std::min<int>(3, (int)a.size() - 1 - i); for (int k = 1; k <= s; ++k) { ++jt; EQ(*jt, a[i + k]); } jt = it; for (int k = 1; k <= std::min(3, i); ++k) { --jt; EQ(*jt, a[i - k]); } } };
    audit(t, a);
    for (int q = huge ? 15 : rng.size(1, 60); q--;) {
        int z = (int)a.size(), l = rng(0, z), r = rng(l, z), m = rng(l, r), op = rng(0, 21); S x = one(); LOG("op", op, l, r, x, z);
        bool sorted = std::is_sorted(a.begin(), a.end()); if (!sorted && (op == 17 || op == 18) && rng.coin()) { std::sort(a.begin(), a.end()); t.free(); t = T(a); sorted = true; }
        switch (op) {
        case 0: case 1: if (z < 120 * mag) { t.insert(l, x); a.insert(a.begin() + l, x); } break;
        case 2: if (z < 120 * mag) { if (rng.coin()) t.push_front(x), a.insert(a.begin(), x); else t.push_back(x), a.push_back(x); } break;
        case 3: case 4: if (l < z) { EQ(t.erase(l), a[l]); a.erase(a.begin() + l); } break;
        case 5: if (z) { if (rng.coin()) { EQ(t.pop_front(), a[0]); a.erase(a.begin()); } else { EQ(t.pop_back(), a.back()); a.pop_back(); } } break;
        case 6: { T u = rng.coin() ? t.split(l) : rng.coin() ? t.split(t.begin() + l) : t.split(t.rbegin() + (z - l)); V b(a.begin() + l, a.end()); a.resize(l); audit(t, a); audit(u, b); switch (rng(0, 2)) { case 0: t.merge(u), a.insert(a.end(), b.begin(), b.end()); break; case 1: u.merge(t), t = u, b.insert(b.end(), a.begin(), a.end()), a = b; break; default: if (rng.coin()) u.free(); else u.clear(); EQ(u.size(), 0); } break; }
        case 7: t.rotate(l); std::rotate(a.begin(), a.begin() + l, a.end()); break;
        case 8: t.rotate(l, m, r); std::rotate(a.begin() + l, a.begin() + m, a.begin() + r); break;
        case 9: if (z < 120 * mag) { switch (rng(0, 2)) { case 0: t.insert(t.begin() + l, x); break; case 1: t.insert(t.rbegin() + (z - l), x); break; default: t.insert(t.cbegin() + l, x); } a.insert(a.begin() + l, x); } break;
        case 10: if (l < z) { S g; if (rng.coin()) g = t.erase(t.begin() + l); else g = t.erase(t.rbegin() + (z - 1 - l)); EQ(g, a[l]); a.erase(a.begin() + l); } break;
        case 11: if (z) { const T& c = t; int i = rng(0, z - 1); EQ(c[i], a[i]); EQ(c.front(), a[0]); EQ(c.back(), a.back()); } break;
        case 12: if (l < z) { if constexpr (K == ARR) { switch (rng(0, 4)) { case 0: t[l] = x; a[l] = x; break; case 1: t.front() = x; a[0] = x; break; case 2: t.back() = x; a.back() = x; break; case 3: *(t.rbegin() + l) = x; a[z - 1 - l] = x; break; default: *(t.begin() + l) = x; a[l] = x; } EQ(t[l], a[l]); EQ(t.front(), a[0]); EQ(t.back(), a.back()); int i = 0; for (auto& y : t) EQ(y, a[i++]); typename T::const_iterator ci = t.begin() + l; EQ(*ci, a[l]); }
                else { if (rng.coin()) t.set(l, x); else t.apply(l, [&](const S& y) { REQUIRE(y == a[l]); return x; }); a[l] = x; EQ(t.get(l), x); } } break;
        case 13: if constexpr (K == SEG) { EQ(t.prod(l, r), join(a, l, r)); EQ(t.prod(0, z), join(a, 0, z)); } break;
        case 14: if constexpr (K == SEG) { S w = join(a, l, z); int lim = rng(0, z - l); auto p = [&](const S& y) { return (int)y.size() <= lim && w.compare(0, y.size(), y) == 0; }; at(t.max_right(l, p), a, l + lim);
                 char c = x[0]; auto p2 = [&](const S& y) { return y.find(c) == S::npos; }; int e = l; while (e < z && a[e][0] != c) ++e; at(t.max_right(l, p2), a, e); } break;
        case 15: if constexpr (K == SEG) { S w = join(a, 0, r); int lim = rng(0, r); auto p = [&](const S& y) { return (int)y.size() <= lim && w.compare(r - y.size(), y.size(), y) == 0; }; at(t.min_left(r, p), a, r - lim);
                 char c = x[0]; auto p2 = [&](const S& y) { return y.find(c) == S::npos; }; int e = r; while (e > 0 && a[e - 1][0] != c) --e; at(t.min_left(r, p2), a, e); } break;
        case 16: { int i = rng(0, z); auto f = [&](auto it) { int k = it.index(); REQUIRE(0 <= k && k < z && a[k] == *it, k); return k >= i; }; if (rng.coin()) at(t.binary_search(f), a, i); else { const T& c = t; at(c.binary_search(f), a, i); } break; }
        case 17: case 18: if (sorted) { int lo = int(std::lower_bound(a.begin(), a.end(), x) - a.begin()), up = int(std::upper_bound(a.begin(), a.end(), x) - a.begin()); const T& c = t; if (rng.coin()) at(t.lower_bound(x), a, lo); else at(c.lower_bound(x), a, lo); if (rng.coin()) at(t.upper_bound(x), a, up); else at(c.upper_bound(x), a, up);
                 if (z < 120 * mag && rng.coin()) { if (rng.coin()) t.insert(t.lower_bound(x), x), a.insert(a.begin() + lo, x); else t.insert(t.upper_bound(x), x), a.insert(a.begin() + up, x); }
                 else if (lo < z && rng.coin()) { EQ(t.erase(t.lower_bound(x)), a[lo]); a.erase(a.begin() + lo); } } break;
        case 19: { std::sort(a.begin(), a.end()); t.free(); EQ(t.empty(), true); t = T(a); break; }
        default: if (z && rng.pct(20)) { t.clear(); a.clear(); } break;
        }
        if (rng.pct(50)) audit(t, a); else { EQ(t.size(), (int)a.size()); }
    }
    audit(t, a); t.free();
}
SCENARIO(treap_array, 400) { run<DynamicArray<S>, ARR>(rng); }
SCENARIO(treap_product, 400) { run<DynamicSegmentTree<S, cat_op, cat_e>, SEG>(rng); }
// the same workloads at realistic sizes
RESCALE(treap_array, 4, 512);
RESCALE(treap_product, 4, 512);
SCENARIO(treap_array_huge, 2, 4) { run<DynamicArray<S>, ARR>(rng, 65536); }
SCENARIO(treap_product_huge, 2, 4) { run<DynamicSegmentTree<S, cat_op, cat_e>, SEG>(rng, 65536); }
