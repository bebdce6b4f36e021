// Splay maps, sets and sequences at contest sizes, keys over the whole range of int, sorted runs (degenerate paths).
// MON: shards=4
#include "mon.hpp"
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/lazy_eval_dynamic_sequence.hpp"
using namespace suisen; using mon::Rng; using mon::i64; using mon::u64;
static const u64 P = (1ULL << 61) - 1, B = 0x1234567890abcdULL;
static u64 mul(u64 a, u64 b) { return (u64)((unsigned __int128)a * b % P); }
static u64 addm(u64 a, u64 b) { a += b; return a >= P ? a - P : a; }
// word of elements: polynomial hash, B^len, sum of B^k for k < len, len
struct H { u64 h = 0, p = 1, s = 0; i64 n = 0; bool operator==(const H& o) const { return h == o.h && n == o.n; } };
static std::ostream& operator<<(std::ostream& o, const H& x) { return o << "#" << x.h << "/" << x.n; }
static H hop(H a, H b) { return { addm(mul(a.h, b.p), b.h), mul(a.p, b.p), addm(mul(a.s, b.p), b.s), a.n + b.n }; }
static H he() { return {}; }
static H h1(u64 x) { return { x, B, 1, 1 }; }
struct A { u64 a = 1, b = 0; };
static H amap(A f, H x) { x.h = addm(mul(f.a, x.h), mul(f.b, x.s)); return x; }
static A acomp(A f, A g) { return { mul(f.a, g.a), addm(mul(f.a, g.b), f.b) }; }
static A aid() { return {}; }
static u64 ap(A f, u64 x) { return addm(mul(f.a, x), f.b); }
static A ra(Rng& rng) { return { rng.pct(15) ? 0 : rng.u() % P, rng.u() % P }; }
static H word(const std::vector<u64>& a, i64 l, i64 r) { H x; for (i64 i = l; i < r; ++i) x = hop(x, h1(a[i])); return x; }
// sizes just around and above the powers of two
static int bigsize(Rng& rng) { static const int b[] = { 4096, 8192, 16384, 32768, 65536, 65536, 131072 }; int p = b[rng(0, 6)]; return p + (rng.coin() ? (int)rng(-2, 2) : (int)rng(0, p / 4)); }
// ranges: uniform, around aligned blocks, whole, tail, single
static std::pair<int, int> rangeOf(Rng& rng, int n) { int l = rng(0, n), r; switch (rng(0, 4)) { case 0: r = rng(l, n); break; case 1: { int k = rng(0, 17), m = (n >> k) + 1; l = (int)std::min<i64>(n, ((i64)rng(0, m) << k) + rng(0, 1)), r = (int)std::min<i64>(n, (i64)l + (1LL << rng(0, 17))); break; } case 2: { int k = rng(0, 17); r = (int)std::min<i64>(n, (i64)rng(0, (n >> k) + 1) << k); l = std::max(0, r - (int)(1 << rng(0, 17))); break; } case 3: r = std::min(n, l + 1); break; default: r = n; if (rng.pct(20)) l = 0; } return { l, r }; }

enum Kind { PLAIN, FOLD, LAZY };
// the model: sorted keys and, in step, their values
struct Mdl { std::vector<int> k; std::vector<u64> v; int lb(int x) const { return (int)(std::lower_bound(k.begin(), k.end(), x) - k.begin()); } bool has(int x) const { int i = lb(x); return i < (int)k.size() && k[i] == x; }
    void put(int x, u64 y, bool over) { int i = lb(x); if (i < (int)k.size() && k[i] == x) { if (over) v[i] = y; return; } k.insert(k.begin() + i, x), v.insert(v.begin() + i, y); } void del(int i) { k.erase(k.begin() + i), v.erase(v.begin() + i); } };
template <class M, Kind K> static void bigmap(Rng& rng) {
    auto val = [](u64 x) { if constexpr (K == PLAIN) return x; else return h1(x); }; using V = decltype(val(0));
    int n = bigsize(rng); i64 W = rng.coin() ? 2147483647LL : 2LL * n; M m; Mdl a; auto key = [&] { return (int)rng(-W, W); }; LOG(n, W);
    { std::vector<int> ks; for (int i = 0; i < n; ++i) ks.push_back(key()); int c = rng(0, n / 2), d = std::min(n, c + 500); if (rng.coin()) std::sort(ks.begin() + c, ks.begin() + d); if (rng.coin()) std::sort(ks.begin(), ks.begin() + 300, std::greater<int>()); std::map<int, u64> mm; for (int k : ks) { u64 x = rng.u() % P; m.insert(k, val(x)); mm[k] = x; if (m.size() != (int)mm.size()) FAIL(m.size(), mm.size()); if constexpr (K != PLAIN) if (m.prod_all().n != (int)mm.size()) FAIL(m.prod_all().n, mm.size()); } for (auto& [k, x] : mm) a.k.push_back(k), a.v.push_back(x); }
    for (int q = 0; q < 60; ++q) { int z = (int)a.k.size(); for (int t = 0; t < 12; ++t) { int k = rng.coin() ? key() : a.k[rng(0, (int)a.k.size() - 1)]; u64 x = rng.u() % P; switch (rng(0, 6)) { case 0: m.insert(k, val(x)); a.put(k, x, true); break; case 1: m.insert_if_absent(k, val(x)); a.put(k, x, false); break; case 2: { bool h = a.has(k); EQ(m.erase_key(k), h); if (h) a.del(a.lb(k)); break; } case 3: { int i = rng(0, (int)a.k.size() - 1); m.erase_index(i); a.del(i); break; } case 4: EQ(m.contains(k), a.has(k)); break; case 5: { bool h = a.has(k); EQ(m.get_or_default(k, V{}), h ? val(a.v[a.lb(k)]) : V{}); break; } default: m[k] = val(x); a.put(k, x, true); } }
        z = (int)a.k.size(); EQ(m.size(), z); auto [l, r] = rangeOf(rng, z); int kl = key(), kr = key(); if (kl > kr) std::swap(kl, kr);
        if constexpr (K != PLAIN) { EQ(m.prod_by_index(l, r), word(a.v, l, r), l, r); EQ(m.prod_by_key(kl, kr), word(a.v, a.lb(kl), std::max(a.lb(kl), a.lb(kr)))); EQ(m.prod_all(), word(a.v, 0, z)); }
        if constexpr (K == LAZY) { A f = ra(rng); switch (rng(0, 4)) { case 0: m.apply_by_index(l, r, f); for (int i = l; i < r; ++i) a.v[i] = ap(f, a.v[i]); break; case 1: m.apply_by_key(kl, kr, f); for (int i = a.lb(kl); i < a.lb(kr); ++i) a.v[i] = ap(f, a.v[i]); break; case 2: m.apply_all(f); for (auto& x : a.v) x = ap(f, x); break; default:; } EQ(m.prod_all().n, z); }
        if (rng.pct(30)) { bool byk = rng.coin(); int i = byk ? a.lb(kl) : rng.pct(20) ? z : l; M u = byk ? m.split_by_key(kl) : m.split_by_index(i); EQ(m.size(), i); EQ(u.size(), z - i); if (i) { auto e = m.kth_entry(i - 1); EQ(e.first, a.k[i - 1]); } if (i < z) { auto e = u.kth_entry(0); EQ(e.first, a.k[i]); } m.merge(std::move(u)); EQ(m.size(), z); }
        for (int t = 0; t < 5; ++t) { int i = rng(0, z - 1); auto e = m.kth_entry(i); EQ(e.first, a.k[i]); EQ(e.second, val(a.v[i])); } }
    int z = (int)a.k.size(); for (int i = 0; i < z; ++i) { auto e = m.kth_entry(i); if (e.first != a.k[i] || !(e.second == val(a.v[i]))) FAIL("entry", i); } for (int i = 0; i < 3 * 64; ++i) m.kth_entry(rng(0, z - 1)); }
SCENARIO(big_splay_map, 5, 6) { bigmap<SplayTreeMap<int, u64>, PLAIN>(rng); }
SCENARIO(big_fold_map, 5, 6) { bigmap<RangeFoldableMap<int, H, hop, he>, FOLD>(rng); }
SCENARIO(big_lazy_map, 6, 6) { bigmap<LazyEvalMap<int, H, hop, he, A, amap, acomp, aid>, LAZY>(rng); }
SCENARIO(big_splay_set, 5, 6) { int n = bigsize(rng); i64 W = rng.coin() ? 2147483647LL : 2LL * n; SplayTreeSet<int> s; std::set<int> b; for (int i = 0; i < n; ++i) { int k = rng(-W, W); s.insert(k), b.insert(k); } std::vector<int> a(b.begin(), b.end()); LOG(n, W);
    for (int q = 0; q < 200; ++q) { for (int t = 0; t < 5; ++t) { int k = rng.coin() ? (int)rng(-W, W) : a[rng(0, (int)a.size() - 1)]; auto it = std::lower_bound(a.begin(), a.end(), k); bool h = it != a.end() && *it == k; switch (rng(0, 2)) { case 0: s.insert(k); if (!h) a.insert(it, k); break; case 1: EQ(s.erase(k), h); if (h) a.erase(it); break; default: EQ(s.contains(k), h); } } int z = a.size(); EQ(s.size(), z); int i = rng(0, z - 1); EQ(s[i], a[i]); if (rng.pct(15)) { int k = rng(-W, W), j = rng.coin() ? (int)(std::lower_bound(a.begin(), a.end(), k) - a.begin()) : -1; if (j < 0) { j = rng.pct(30) ? z : (int)rng(0, z); auto u = s.split_by_index(j); EQ(s.size(), j); EQ(u.size(), z - j); s.merge(std::move(u)); } else { auto u = s.split_by_key(k); EQ(s.size(), j); EQ(u.size(), z - j); s.merge(std::move(u)); } EQ(s.size(), z); } }
    for (int i = 0; i < (int)a.size(); ++i) if (s[i] != a[i]) FAIL(i); for (int i = 0; i < 200; ++i) EQ(s.contains(a[rng(0, (int)a.size() - 1)]), true); }
template <class Q, Kind K, bool REV> static void bigseq(Rng& rng) {
    auto val = [](u64 x) { if constexpr (K == PLAIN) return x; else return h1(x); }; using V = decltype(val(0)); int n = bigsize(rng); std::vector<u64> a; Q t; LOG(n); for (int i = 0; i < n; ++i) { u64 x = rng.u() % P; int z = a.size(); if (i >= 512 && rng.pct(2)) { int p = rng(0, z); t.insert(p, val(x)), a.insert(a.begin() + p, x); } else t.push_back(val(x)), a.push_back(x); if (i % 64 == 0) { int p = rng(0, (int)a.size() - 1); V g = t[p]; EQ(g, val(a[p])); } }
    for (int q = 0; q < 60; ++q) { for (int k = 0; k < 6; ++k) { int z = a.size(), p = rng(0, z - 1); u64 x = rng.u() % P; switch (rng(0, 5)) { case 0: t.insert(p, val(x)); a.insert(a.begin() + p, x); break; case 1: t.erase(p); a.erase(a.begin() + p); break; case 2: t.push_front(val(x)); a.insert(a.begin(), x); break; case 3: if (rng.coin()) t.pop_back(), a.pop_back(); else t.pop_front(), a.erase(a.begin()); break; default: t[p] = val(x); a[p] = x; } }
        int z = a.size(); EQ(t.size(), z); auto [l, r] = rangeOf(rng, z); if constexpr (K != PLAIN) { EQ(t.prod(l, r), word(a, l, r), l, r); EQ(t.prod_all(), word(a, 0, z)); }
        if constexpr (REV) { t.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); if (rng.pct(20)) t.reverse_all(), std::reverse(a.begin(), a.end()); }
        if constexpr (K == LAZY) { A f = ra(rng); if (rng.pct(80)) { t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = ap(f, a[i]); } else { t.apply_all(f); for (auto& x : a) x = ap(f, x); } EQ(t.prod_all(), word(a, 0, z)); }
        if (rng.pct(25)) { int p = rng.pct(30) ? z : l; Q u = t.split(p); EQ(t.size(), p); EQ(u.size(), z - p); if (rng.coin()) t.concat(std::move(u)); else t.concat_left(std::move(u)), std::rotate(a.begin(), a.begin() + p, a.end()); EQ(t.size(), z); } for (int k = 0; k < 5; ++k) { int p = rng(0, z - 1); V g = t[p]; EQ(g, val(a[p]), p); } }
    for (int i = 0; i < (int)a.size(); ++i) { V g = t[i]; if (!(g == val(a[i]))) FAIL(i); } for (int k = 0; k < 200; ++k) { V g = t[rng(0, (int)a.size() - 1)]; (void)g; } }
SCENARIO(big_sequence, 5, 6) { bigseq<DynamicSequence<u64>, PLAIN, true>(rng); }
SCENARIO(big_sequence_fold, 5, 6) { bigseq<RangeFoldableDynamicSequence<H, hop, he>, FOLD, false>(rng); }
SCENARIO(big_sequence_lazy, 6, 6) { bigseq<LazyEvalDynamicSequence<H, hop, he, A, amap, acomp, aid>, LAZY, false>(rng); }
