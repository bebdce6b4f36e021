#include "mon.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
#include "library/range_query/range_set_range_composite.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
S cat_op(S a, S b) { return a + b; } S cat_e() { return ""; } S rev(S s) { std::reverse(s.begin(), s.end()); return s; }
int count_c(const S& s, char c) { return (int)std::count(s.begin(), s.end(), c); }
SCENARIO(sort_range, 700) {
    using T = SortableSegmentTree<S, cat_op, cat_e, rev>; using KV = std::pair<int, S>;
    std::vector<KV> a; std::set<int> used; auto key = [&] { int k; do k = (int)rng(-300 * rng.mag, 300 * rng.mag); while (!used.insert(k).second); return k; };
    auto one = [&] { return S(1, char('a' + rng(0, 25))); };
    int n = rng.size(0, 60); for (int i = 0; i < n; ++i) a.push_back({ key(), one() });
    std::unique_ptr<T> tp = a.empty() && rng.coin() ? std::make_unique<T>() : std::make_unique<T>(a); T& t = *tp;
    auto join = [&](int l, int r) { S s; for (int i = l; i < r; ++i) s += a[i].second; return s; };
    for (int q = rng.size(1, 60); q--;) {
        int z = (int)a.size(), l = rng(0, z), r = rng(l, z), op = rng(0, 13); LOG("op", op, l, r);
        switch (op) {
        case 0: case 1: t.sort(l, r); std::sort(a.begin() + l, a.begin() + r); break;
        case 2: t.sort_dsc(l, r); std::sort(a.begin() + l, a.begin() + r, std::greater<>()); break;
        case 3: t.sort_asc(l, r); std::sort(a.begin() + l, a.begin() + r); break;
        case 4: if (z > 90 * rng.mag) break; { KV kv{ key(), one() }; t.insert(l, kv.first, kv.second); a.insert(a.begin() + l, kv); break; }
        case 5: if (z > 90 * rng.mag) break; { KV kv{ key(), one() }; if (rng.coin()) t.push_front(kv.first, kv.second), a.insert(a.begin(), kv); else t.push_back(kv.first, kv.second), a.push_back(kv); break; }
        case 6: if (l < z) { KV kv = t.erase(l); EQ(kv, a[l]); used.erase(a[l].first); a.erase(a.begin() + l); } break;
        case 7: if (z) { KV kv; if (rng.coin()) { kv = t.pop_front(); EQ(kv, a[0]); used.erase(kv.first); a.erase(a.begin()); } else { kv = t.pop_back(); EQ(kv, a.back()); used.erase(kv.first); a.pop_back(); } } break;
        case 8: if (l < z) { S v = one(); if (rng.coin()) { EQ(t.set_value(l, v), a[l].second); } else t[l] = v; a[l].second = v; } break;
        case 9: if (l < z) { KV kv{ key(), one() }; EQ(t.set_key_value(l, kv.first, kv.second), a[l]); used.erase(a[l].first); a[l] = kv; } break;
        case 10: EQ(t.prod(l, r), join(l, r)); if (l < z) { EQ(t.get(l), a[l].second); EQ((S)t[l], a[l].second); } break;
        case 11: { char c = char('a' + rng(0, 25)); int k = rng(0, 2); auto f = [&](S s) { return count_c(s, c) <= k; }; int e = l; while (e < z && f(join(l, e + 1))) ++e; EQ(t.max_right(l, f), std::make_pair(e, join(l, e)));
            int m = rng(0, z - l); S w = join(l, z); auto g = [&](S s) { return (int)s.size() <= m && w.compare(0, s.size(), s) == 0; }; EQ(t.max_right(l, g), std::make_pair(l + m, join(l, l + m))); break; }
        case 12: { char c = char('a' + rng(0, 25)); int k = rng(0, 2); auto f = [&](S s) { return count_c(s, c) <= k; }; int b = r; while (b > 0 && f(join(b - 1, r))) --b; EQ(t.min_left(r, f), std::make_pair(b, join(b, r)));
            int m = rng(0, r); S w = join(0, r); auto g = [&](S s) { return (int)s.size() <= m && w.compare(r - s.size(), s.size(), s) == 0; }; EQ(t.min_left(r, g), std::make_pair(r - m, join(r - m, r))); break; }
        default: { T rest = t.split(l); EQ(t.size(), l); EQ(rest.size(), z - l); if (rng.coin()) { EQ(rest.prod(0, z - l), join(l, z)); t.concat(std::move(rest)); } else { for (int i = l; i < z; ++i) used.erase(a[i].first); a.resize(l); } }
        }
        EQ(t.size(), (int)a.size()); EQ(t.prod(0, (int)a.size()), join(0, (int)a.size()));
    }
    EQ(t.dump_entries(), a); std::vector<int> ks; std::vector<S> vs; for (auto& [k, v] : a) ks.push_back(k), vs.push_back(v); EQ(t.dump_keys(), ks); EQ(t.dump_values(), vs);
    std::vector<KV> b; t.foreach([&](int k, S v) { b.push_back({ k, v }); }, true); std::reverse(b.begin(), b.end()); EQ(b, a);
}
template <bool mn> void lichao(Rng& rng) {
    using T = LiChaoSegmentTree<i64, mn>; bool big = rng.coin(); i64 X = big ? 1000000000 : 30; std::vector<i64> xs; for (int i = rng.size(1, 50); i--;) xs.push_back(rng(-X, X)); T t(xs);
    struct L { i64 l, r, a, b; }; std::vector<L> ls;
    for (int q = rng.size(1, 60); q--;) {
        if (rng.pct(70)) { i64 a = big ? rng.wides(-1000000000, 1000000000) : rng(-5, 5), b = big ? rng.wides(-1000000000000000000, 1000000000000000000) : rng(-40, 40);
            if (rng.pct(30)) { t.add_line(a, b); ls.push_back({ INT64_MIN, INT64_MAX, a, b }); } else { i64 l = rng(-X, X), r = rng(-X, X); if (l > r) std::swap(l, r); if (rng.pct(30)) l = rng.pick(xs), r = std::max(r, l); t.add_segment(l, r, a, b); ls.push_back({ l, r, a, b }); } LOG("seg", ls.back().l, ls.back().r, a, b); }
        i64 x = rng.pick(xs); std::optional<i64> w; for (auto& s : ls) if (s.l <= x && x <= s.r) { i64 v = s.a * x + s.b; if (!w || (mn ? v < *w : v > *w)) w = v; }
        EQ(t(x), w); EQ(t.query(x), w);
    }
}
SCENARIO(li_chao_min, 400) { lichao<true>(rng); }
SCENARIO(li_chao_max, 400) { lichao<false>(rng); }
SCENARIO(chmin_chmax_add, 600) {
    using T = RangeChMinMaxAddRangeSum<i64>; int n = rng.size(0, 60); bool small = rng.coin(); i64 V = small ? 6 : 1000000000000LL; std::vector<i64> a(n); if (rng.pct(80)) for (auto& x : a) x = rng(-V, V); else { i64 c = rng(-V, V); for (auto& x : a) x = c; }
    bool zero = rng.pct(20); if (zero) std::fill(a.begin(), a.end(), 0); T t = zero ? T(n) : T(a);
    for (int q = rng.size(1, 80); q--;) {
        int l = rng(0, n), r = rng(l, n); if (rng.pct(20)) l = 0, r = n; i64 v = rng(-V, V); int op = rng(0, 7); LOG("op", op, l, r, v);
        switch (op) {
        case 0: case 1: t.chmin(l, r, v); for (int i = l; i < r; ++i) a[i] = std::min(a[i], v); break;
        case 2: case 3: t.chmax(l, r, v); for (int i = l; i < r; ++i) a[i] = std::max(a[i], v); break;
        case 4: v /= small ? 1 : 100; t.add(l, r, v); for (int i = l; i < r; ++i) a[i] += v; break;
        case 5: if (rng.pct(30)) { t.update(l, r, v); for (int i = l; i < r; ++i) a[i] = v; } break;
        default: break;
        }
        i64 s = 0, lo = INT64_MAX, hi = INT64_MIN; for (int i = l; i < r; ++i) s += a[i], lo = std::min(lo, a[i]), hi = std::max(hi, a[i]);
        EQ(t.sum(l, r), s);
        if (l < r) { EQ(t.min(l, r), lo); EQ(t.max(l, r), hi);
            auto d = t.prod(l, r); i64 lo2 = INT64_MAX, hi2 = INT64_MIN; int nl = 0, nh = 0; for (int i = l; i < r; ++i) { if (a[i] > lo) lo2 = std::min(lo2, a[i]); else ++nl; if (a[i] < hi) hi2 = std::max(hi2, a[i]); else ++nh; }
            EQ(d.get_sum(), s); EQ(d.get_min_num(), (i64)nl); EQ(d.get_max_num(), (i64)nh); EQ(d.get_min(), lo); EQ(d.get_max(), hi); if (lo < hi) { EQ(d.get_second_min(), lo2); EQ(d.get_second_max(), hi2); } }
        if (rng.pct(30)) { i64 th = rng(-V, V); auto f = [&](auto x) { return x.get_max_num() == 0 || x.get_max() <= th; }; int e = l; while (e < n && a[e] <= th) ++e; EQ(t.max_right(l, f), e); int b = r; while (b > 0 && a[b - 1] <= th) --b; EQ(t.min_left(r, f), b); }
    }
}
SCENARIO(range_set_range_composite, 500) {
    using T = RangeSetRangeComposite<S, cat_op, cat_e>; int n = rng.size(0, 50); std::vector<S> a(n); auto one = [&] { return S(1, char('a' + rng(0, 25))); };
    std::unique_ptr<T> t; if (rng.pct(60)) { for (auto& x : a) x = one(); t = std::make_unique<T>(a); } else if (rng.coin()) { S v = one(); for (auto& x : a) x = v; t = std::make_unique<T>(n, v); } else t = std::make_unique<T>(n);
    for (int q = rng.size(1, 50); q--;) { int l = rng(0, n), r = rng(l, n); if (rng.pct(15)) l = 0; if (rng.pct(15)) r = n; if (rng.coin()) { S v = rng.pct(15) ? S() : one(); LOG("set", l, r, v); t->set(l, r, v); for (int i = l; i < r; ++i) a[i] = v; }
        l = rng(0, n), r = rng(l, n); S w; for (int i = l; i < r; ++i) w += a[i]; EQ(t->prod(l, r), w); }
}
// the same workloads at realistic sizes
RESCALE(sort_range, 4, 512);
RESCALE(chmin_chmax_add, 4, 256);
RESCALE(li_chao_max, 4, 512);
RESCALE(li_chao_min, 4, 256);
RESCALE(range_set_range_composite, 4, 128);
