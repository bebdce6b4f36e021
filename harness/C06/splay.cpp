// MON: shards=4
#include "mon.hpp"
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/lazy_eval_dynamic_sequence.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
S cat_op(S a, S b) { return a + b; } S cat_e() { return ""; }
struct Aff { int a = 1, b = 0; };
Aff comp(Aff f, Aff g) { return { f.a * g.a % 26, (f.a * g.b + f.b) % 26 }; } Aff fid() { return {}; }
char map1(Aff f, char c) { return char('a' + (f.a * (c - 'a') + f.b) % 26); }
S map_s(Aff f, S s) { for (auto& c : s) c = map1(f, c); return s; }
// commutative product: sorted word
S sort_op(S a, S b) { a += b; std::sort(a.begin(), a.end()); return a; } S map_sorted(Aff f, S s) { s = map_s(f, s); std::sort(s.begin(), s.end()); return s; }
S sorted(S s) { std::sort(s.begin(), s.end()); return s; }
enum Kind { PLAIN, FOLD, LAZY };
template <class M, Kind K> void run_map(Rng& rng) {
    using R = std::map<int, S>; M m; R a; int w = rng.coin() ? 8 : 60, kind = rng(0, 4); auto one = [&] { return S(1, char('a' + rng(0, 25))); };
    auto key = [&] { int k = (int)rng(-w, w); return kind == 0 ? k * (std::numeric_limits<int>::max() / w) : k; }; // keys next to each other, or across the whole range of int
    auto fold = [](const R& a, int l, int r) { S s; for (auto it = a.lower_bound(l); it != a.end() && it->first < r; ++it) s += it->second; return s; };
    auto fold_idx = [](const R& a, int l, int r) { S s; int i = 0; for (auto& [k, v] : a) { if (l <= i && i < r) s += v; ++i; } return s; };
    auto audit = [&](M& m, const R& a) { EQ(m.size(), (int)a.size()); if constexpr (K != PLAIN) EQ(m.prod_all(), fold_idx(a, 0, (int)a.size())); int i = 0; std::vector<int> ord; for (auto& kv : a) { EQ(m.kth_entry(i), (std::pair<int, S>(kv))); ++i; } if constexpr (K != PLAIN) EQ(m.prod_all(), fold_idx(a, 0, (int)a.size())); };
    for (int q = rng.size(1, 80); q--;) {
        int k = key(), op = rng(0, 18), z = (int)a.size(); S x = one(); LOG("op", op, k, x, z);
        switch (op) {
        case 0: case 1: case 2: m.insert(k, x); a[k] = x; break;
        case 3: m.insert_if_absent(k, x); a.insert({ k, x }); break;
        case 4: case 5: if (z && rng.coin()) k = std::next(a.begin(), rng(0, z - 1))->first; EQ(m.erase_key(k), a.erase(k) == 1); break;
        case 6: if (z) { int i = rng(0, z - 1); m.erase_index(i); a.erase(std::next(a.begin(), i)); } break;
        case 7: EQ(m.contains(k), a.count(k) == 1); break;
        case 8: { S y = m.get_or_create(k, x); a.insert({ k, x }); EQ(y, a[k]); break; }
        case 9: { if constexpr (K == PLAIN) { S& y = m[k]; EQ(y, a[k]); y = x; a[k] = x; } else { EQ((S)m[k], a[k]); if (rng.coin()) m[k] = x, a[k] = x; else m[k].apply([&](S) { return x; }), a[k] = x; } break; }
        case 10: EQ(m.get_or_default(k, x), a.count(k) ? a[k] : x); EQ(m.size(), (int)a.size()); break;
        case 11: if (z) { int i = rng(0, z - 1); EQ(m.kth_entry(i), (std::pair<int, S>(*std::next(a.begin(), i)))); } break;
        case 12: { int i = rng(0, z); M r = m.split_by_index(i); R b(std::next(a.begin(), i), a.end()); a.erase(std::next(a.begin(), i), a.end()); audit(m, a); audit(r, b); if (rng.pct(70)) m.merge(std::move(r)), a.insert(b.begin(), b.end()); else if (rng.coin()) { m.swap(r); audit(m, b); audit(r, a); a = b; } else { m = std::move(r); a = b; } if (rng.pct(20)) { M& same = m; m = std::move(same); audit(m, a); } break; }
        case 13: { M r = m.split_by_key(k); R b(a.lower_bound(k), a.end()); a.erase(a.lower_bound(k), a.end()); audit(m, a); audit(r, b); if (rng.pct(80)) m.merge(std::move(r)), a.insert(b.begin(), b.end()); break; }
        case 14: { int l = key(), r = key(); if (l > r) std::swap(l, r); if constexpr (K != PLAIN) { EQ(m.prod_by_key(l, r), fold(a, l, r)); EQ(m(l, r), fold(a, l, r)); int i = rng(0, z), j = rng(i, z); EQ(m.prod_by_index(i, j), fold_idx(a, i, j)); EQ(m.prod_all(), fold_idx(a, 0, z)); } break; }
        default: { int l = key(), r = key(); if (l > r) std::swap(l, r); if constexpr (K == LAZY) { Aff f{ (int)rng(0, 25), (int)rng(0, 25) };
                   switch (rng(0, 2)) { case 0: m.apply_by_key(l, r, f); for (auto& [k, v] : a) if (l <= k && k < r) v = map_s(f, v); break;
                   case 1: { int i = rng(0, z), j = rng(i, z), c = 0; m.apply_by_index(i, j, f); for (auto& [k, v] : a) { if (i <= c && c < j) v = map_s(f, v); ++c; } break; }
                   default: m.apply_all(f); for (auto& [k, v] : a) v = map_s(f, v); } } break; }
        }
        if (rng.pct(25)) audit(m, a); else { EQ(m.size(), (int)a.size()); if constexpr (K != PLAIN) if (rng.coin()) EQ(m.prod_all(), fold_idx(a, 0, (int)a.size())); }
    }
    audit(m, a);
}
SCENARIO(splay_map, 400) { run_map<SplayTreeMap<int, S>, PLAIN>(rng); }
SCENARIO(foldable_map, 400) { run_map<RangeFoldableMap<int, S, cat_op, cat_e>, FOLD>(rng); }
SCENARIO(lazy_map, 500) { run_map<LazyEvalMap<int, S, cat_op, cat_e, Aff, map_s, comp, fid>, LAZY>(rng); }
SCENARIO(splay_set, 400) {
    SplayTreeSet<int> s; std::set<int> a; int w = rng.coin() ? 8 : 100;
    auto nth = [&](const std::set<int>& a, int k) { return *std::next(a.begin(), k); };
    auto audit = [&](SplayTreeSet<int>& s, const std::set<int>& a) { EQ(s.size(), (int)a.size()); std::vector<int> g, w(a.begin(), a.end()); for (int i = 0; i < (int)a.size(); ++i) g.push_back(s[i]); EQV(g, w); };
    for (int q = rng.size(1, 100); q--;) {
        int k = rng(-w, w), z = (int)a.size(), op = rng(0, 9); LOG("op", op, k);
        switch (op) {
        case 0: case 1: case 2: s.insert(k); a.insert(k); break;
        case 3: EQ(s.erase(k), a.erase(k) == 1); break;
        case 4: if (z) { k = nth(a, rng(0, z - 1)); EQ(s.erase(k), true); a.erase(k); } break;
        case 5: EQ(s.contains(k), a.count(k) == 1); break;
        case 6: if (z) { int i = rng(0, z - 1); EQ(s[i], nth(a, i)); EQ(s.kth_element(i), nth(a, i)); } break;
        case 7: { int i = rng(0, z); auto r = s.split_by_index(i); std::set<int> b(std::next(a.begin(), i), a.end()); a.erase(std::next(a.begin(), i), a.end()); audit(s, a); audit(r, b); if (rng.pct(70)) s.merge(std::move(r)), a.insert(b.begin(), b.end()); else if (rng.coin()) s.swap(r), a.swap(b); else s = std::move(r), a = b; break; }
        case 8: { auto r = s.split_by_key(k); std::set<int> b(a.lower_bound(k), a.end()); a.erase(a.lower_bound(k), a.end()); audit(s, a); audit(r, b); if (rng.pct(80)) s.merge(std::move(r)), a.insert(b.begin(), b.end()); break; }
        default: audit(s, a);
        }
    }
    audit(s, a);
}
template <class Q, Kind K, bool REV, S(*norm)(S)> void run_seq(Rng& rng) {
    using V = std::vector<S>; Q t; V a; auto one = [&] { return S(1, char('a' + rng(0, 25))); };
    auto join = [](const V& a, int l, int r) { S s; for (int i = l; i < r; ++i) s += a[i]; return norm(s); };
    auto get = [](Q& t, int i) -> S { return t[i]; };
    auto audit = [&](Q& t, const V& a) { EQ(t.size(), (int)a.size()); if constexpr (K != PLAIN) EQ(t.prod_all(), join(a, 0, (int)a.size())); V g; if (rng.coin()) { for (int i = 0; i < (int)a.size(); ++i) g.push_back(get(t, i)); } else { for (int i = (int)a.size() - 1; i >= 0; --i) g.push_back(get(t, i)); std::reverse(g.begin(), g.end()); } EQV(g, a); };
    for (int n = rng.size(0, 40); n--;) { S x = one(); t.push_back(x); a.push_back(x); }
    for (int q = rng.size(1, 80); q--;) {
        int z = (int)a.size(), l = rng(0, z), r = rng(l, z), op = rng(0, 14); S x = one(); LOG("op", op, l, r, x);
        switch (op) {
        case 0: case 1: t.insert(l, x); a.insert(a.begin() + l, x); break;
        case 2: if (rng.coin()) t.push_front(x), a.insert(a.begin(), x); else t.push_back(x), a.push_back(x); break;
        case 3: if (l < z) t.erase(l), a.erase(a.begin() + l); break;
        case 4: if (z) { if (rng.coin()) t.pop_back(), a.pop_back(); else t.pop_front(), a.erase(a.begin()); } break;
        case 5: case 6: if constexpr (REV) { if (rng.pct(70)) t.reverse(l, r), std::reverse(a.begin() + l, a.begin() + r); else t.reverse_all(), std::reverse(a.begin(), a.end()); } break;
        case 7: { Q u = t.split(l); V b(a.begin() + l, a.end()); a.resize(l); if (rng.coin()) audit(t, a), audit(u, b); if constexpr (REV) if (rng.coin()) { u.reverse_all(); std::reverse(b.begin(), b.end()); }
                  switch (rng(0, 3)) { case 0: t.concat(std::move(u)); a.insert(a.end(), b.begin(), b.end()); break; case 1: t.concat_left(std::move(u)); a.insert(a.begin(), b.begin(), b.end()); break; case 2: t += std::move(u); a.insert(a.end(), b.begin(), b.end()); break; default: t = std::move(u); a = b; } break; }
        case 8: if (l < z) { if constexpr (K == PLAIN) { const Q& c = t; EQ(c[l], a[l]); EQ(c.front(), a[0]); EQ(c.back(), a.back()); EQ(t.front(), a[0]); EQ(t.back(), a.back()); } EQ(get(t, l), a[l]); } break;
        case 9: if (l < z) { if constexpr (K == PLAIN) { if (rng.coin()) t[l] = x, a[l] = x; else if (rng.coin()) t.front() = x, a[0] = x; else t.back() = x, a.back() = x; } else { t[l] = x; a[l] = x; } } break;
        case 10: case 11: if constexpr (K != PLAIN) { EQ(t.prod(l, r), join(a, l, r)); EQ(t(l, r), join(a, l, r)); } break;
        default: if constexpr (K == LAZY) { Aff f{ (int)rng(0, 25), (int)rng(0, 25) }; if (rng.pct(70)) { t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = map_s(f, a[i]); } else { t.apply_all(f); for (auto& y : a) y = map_s(f, y); } } break;
        }
        if (rng.pct(25)) audit(t, a); else EQ(t.size(), (int)a.size());
    }
    audit(t, a);
}
S same(S s) { return s; }
SCENARIO(sequence_plain, 400) { run_seq<DynamicSequence<S>, PLAIN, true, same>(rng); }
SCENARIO(sequence_fold, 300) { run_seq<RangeFoldableDynamicSequence<S, cat_op, cat_e>, FOLD, false, same>(rng); }
SCENARIO(sequence_fold_reverse, 300) { run_seq<RangeFoldableDynamicSequence<S, sort_op, cat_e>, FOLD, true, sorted>(rng); }
SCENARIO(sequence_lazy, 300) { run_seq<LazyEvalDynamicSequence<S, cat_op, cat_e, Aff, map_s, comp, fid>, LAZY, false, same>(rng); }
SCENARIO(sequence_lazy_reverse, 300) { run_seq<LazyEvalDynamicSequence<S, sort_op, cat_e, Aff, map_sorted, comp, fid>, LAZY, true, sorted>(rng); }
// the same workloads at realistic sizes
RESCALE(splay_map, 4, 512);
RESCALE(splay_set, 4, 512);
RESCALE(foldable_map, 4, 512);
RESCALE(sequence_plain, 4, 256);
RESCALE(sequence_fold, 4, 32);
RESCALE(lazy_map, 4, 512);
RESCALE(sequence_lazy, 4, 16);
RESCALE(sequence_fold_reverse, 4, 8);
RESCALE(sequence_lazy_reverse, 4, 4);
