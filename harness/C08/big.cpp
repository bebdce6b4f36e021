// Wavelet matrices, bit vectors, tries and range sets at contest sizes and over the whole range of the key type.
// MON: shards=4
#include "mon.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
#include "library/datastructure/bit_vector.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
using namespace suisen; using mon::Rng; using mon::i64; using mon::u64;
static int bigsize(Rng& rng) { static const int b[] = { 4096, 32768, 65536, 65536, 131072 }; int p = b[rng(0, 4)]; return p + (rng.coin() ? (int)rng(-2, 2) : (int)rng(0, p / 4)); }
template <class W, class T> static void wm(Rng& rng, T lim, bool X) { int n = bigsize(rng), few = rng.coin(); std::vector<T> a(n); for (auto& x : a) x = few ? T(rng.u() % 5) : T(rng.u() % ((u64)lim + 1)); W w(a); LOG(n, few);
    for (int q = 0; q < 12; ++q) { int l = rng(0, n), r = rng.pct(30) ? n : (int)rng(l, n); if (rng.pct(20)) l = 0; T x = X ? T(rng.u() % ((u64)lim + 1)) : T(0), lo = T(rng.coin() ? rng.u() % ((u64)lim + 1) : (u64)a[rng(0, n - 1)]); std::vector<T> s(a.begin() + l, a.begin() + r); T pv = a[rng(0, n - 1)]; EQ(w.rank(pv, r), (int)std::count(a.begin(), a.begin() + r, pv)); int m = r - l; std::sort(s.begin(), s.end()); auto lt = [&](T v) { return (int)(std::lower_bound(s.begin(), s.end(), v) - s.begin()); }; auto le = [&](T v) { return (int)(std::upper_bound(s.begin(), s.end(), v) - s.begin()); }; auto at = [&](int i) { return 0 <= i && i < m ? s[i] : T(-1); };
        for (int t = 0; t < 12; ++t) { int k = rng(0, m); EQ(w.range_kth_smallest(l, r, k), at(k)); EQ(w.range_kth_largest(l, r, k), at(m - 1 - k)); int i = rng(0, n - 1); EQ(w[i], a[i]); T v = t < 6 ? a[i] : T(rng.u() % ((u64)lim + 1)); EQ(w.range_freq(l, r, v), lt(v)); EQ(w.range_freq(l, r, lo, v), std::max(0, lt(v) - lt(lo))); EQ(w.range_min_geq(l, r, v), at(lt(v))); EQ(w.range_max_leq(l, r, v), at(le(v) - 1)); EQ(w.range_min_gt(l, r, v), at(le(v))); EQ(w.range_max_lt(l, r, v), at(lt(v) - 1)); }
        if constexpr (!std::is_same_v<W, CompressedWaveletMatrix<T>>) { for (auto& y : s) y ^= x; std::sort(s.begin(), s.end()); for (int t = 0; t < 6; ++t) { int k = rng(0, m); EQ(w.range_xor_kth_smallest(l, r, k, x), k < m ? T(s[k] ^ x) : T(-1)); EQ(w.range_xor_freq(l, r, x, lo), lt(lo)); lo = T(rng.u() % ((u64)lim + 1)); } } } }
SCENARIO(big_wavelet, 6, 6) { if (rng.coin()) wm<WaveletMatrix<int, 20>, int>(rng, (1 << 20) - 1, true); else wm<WaveletMatrix<u64, 40>, u64>(rng, (1ull << 40) - 1, true); }
SCENARIO(big_compressed_wavelet, 4, 6) { wm<CompressedWaveletMatrix<i64>, i64>(rng, 1000000000000LL, false); }
SCENARIO(big_bit_vector, 5, 6) { int n = 4 * bigsize(rng) + (int)rng(-9, 9), p = rng(1, 99); std::vector<char> a(n); for (auto& c : a) c = rng.pct(p); BitVector b(n, [&](int i) -> bool { return a[i]; }); std::vector<int> pre(n + 1), at[2]; for (int i = 0; i < n; ++i) pre[i + 1] = pre[i] + a[i], at[(int)a[i]].push_back(i + 1); LOG(n, p);
    for (int i = 0; i <= n; ++i) if (b.rank(true, i) != pre[i]) FAIL(i); for (int t = 0; t < 3000; ++t) { bool v = rng.coin(); int k = rng(1, (int)at[v].size() + 2); EQ(b.select(v, k), k <= (int)at[v].size() ? at[v][k - 1] : -1); int l = rng(0, n), r = rng(l, n); EQ(b.rank(false, l, r), r - l - pre[r] + pre[l]); } }
template <class T, class Tr> static void trie(Rng& rng, int B) { using U = std::make_unsigned_t<T>; Tr t; std::vector<U> a; U lim = B == 64 ? ~U(0) : (U)((u64(1) << B) - 1); int n = (int)rng(2000, 70000); u64 base = rng.u(); bool cl = rng.coin(); auto val = [&] { return U((cl && rng.pct(90) ? base ^ (rng.u() & 0xffff) : rng.u()) & lim); }; LOG(n, B);
    for (int i = 0; i < n; ++i) { U v = val(); int c = rng.pct(2) ? (int)rng(1, 3000) : 1; t.insert(v, c); while (c--) a.push_back(v); } std::sort(a.begin(), a.end());
    for (int q = 0; q < 20; ++q) { for (int k = 0; k < 20; ++k) { U v = rng.coin() ? val() : a[rng(0, (int)a.size() - 1)]; auto [f, l] = std::equal_range(a.begin(), a.end(), v); int c = std::min<int>(rng.coin() ? 1 : 5000, l - f), have = l - f, num = c == have && rng.coin() ? 100000 : std::max(c, 1); EQ((int)t.erase(v, num), std::min(have, num)); a.erase(f, f + std::min(have, num)); }
        int z = a.size(); EQ(t.size(), z); U x = rng.coin() ? U(0) : val(); std::vector<U> s(a); if (x) { for (auto& y : s) y ^= x; std::sort(s.begin(), s.end()); } for (int k = 0; k < 20; ++k) { int i = rng(0, z - 1); EQ((U)t.xor_kth_min(x, i), s[i]); EQ((U)t.xor_kth_max(x, i), s[z - 1 - i]); U v = rng.coin() ? val() : s[i]; int lt = std::lower_bound(s.begin(), s.end(), v) - s.begin(), le = std::upper_bound(s.begin(), s.end(), v) - s.begin(); EQ((int)t.xor_count_lt(x, v), lt); EQ((int)t.xor_count_gt(x, v), z - le); EQ((int)t.count(v ^ x), le - lt); } } }
SCENARIO(big_trie, 3, 6) { if (rng.coin()) trie<int, BinaryTrie<int, 30>>(rng, 30); else trie<unsigned, BinaryTrie<unsigned>>(rng, 32); }
SCENARIO(big_patricia, 6, 6) { switch (rng(0, 3)) { case 0: trie<int, BinaryTriePatricia<int, 30>>(rng, 30); break; case 1: trie<u64, BinaryTriePatricia<u64, 64>>(rng, 64); break; case 2: trie<u64, BinaryTriePatricia<u64, 45>>(rng, 45); break; default: trie<unsigned, BinaryTriePatricia<unsigned, 32>>(rng, 32); } }
// ranges with endpoints anywhere in (MIN, MAX) of the key type; lengths may exceed any narrower type
template <class T, bool MERGE> static void rs(Rng& rng) { RangeSet<T, MERGE> s; std::map<T, T> rg; T M = std::numeric_limits<T>::max(); const T half = M / 2; int style = rng(0, 2); auto pt = [&]() -> T { if (!rg.empty() && rng.coin()) { auto it = rg.lower_bound((T)rng(-(i64)half, half)); if (it == rg.end()) --it; return (T)std::clamp<i64>((i64)(rng.coin() ? it->first : it->second) + rng(-2, 2), -(i64)half + 1, (i64)half - 1); } return (T)(style == 0 ? rng(-(i64)half + 1, (i64)half - 1) : style == 1 ? rng(-3000000, 3000000) : rng(-(i64)half + 1, -(i64)half + 5000)); };
    i64 total = 0; int w = rng.coin() ? 60 : 3000;
    for (int q = rng(1, w); q--;) { T l = pt(), r = rng.pct(60) ? T(std::min<i64>((i64)half - 1, (i64)l + rng(0, 50))) : pt(); if (l > r) std::swap(l, r); LOG(l, r);
        if (rng.pct(55)) { T nl = l, nr = r; i64 had = 0; auto it = rg.upper_bound(l); if (it != rg.begin()) --it; while (it != rg.end() && it->first <= r + T(MERGE)) { if (it->second + T(MERGE) >= l) { had += (i64)it->second - it->first + 1; nl = std::min(nl, it->first), nr = std::max(nr, it->second); it = rg.erase(it); } else ++it; } i64 add = (i64)nr - nl + 1 - had; rg[nl] = nr; total += add; EQ(s.insert(l, r), (T)add); }
        else { i64 del = 0; auto it = rg.upper_bound(l); if (it != rg.begin()) --it; while (it != rg.end() && it->first <= r) { auto [x, y] = *it; if (y < l) { ++it; continue; } it = rg.erase(it); del += std::min<i64>(y, r) - std::max<i64>(x, l) + 1; if (x < l) rg[x] = l - 1; if (y > r) { rg[r + 1] = y; break; } } total -= del; EQ(s.erase(l, r), (T)del); }
        EQ((i64)s.size(), total); EQ(s.number_of_ranges(), (int)rg.size()); T x = pt(), y = rng.coin() ? pt() : T(x + 1); auto own = [&](T v) { auto it = rg.upper_bound(v); return it != rg.begin() && (--it)->second >= v ? it : rg.end(); }; auto o = own(x); EQ(s.contains(x), o != rg.end()); EQ(s.in_the_same_range(x, y), o != rg.end() && own(y) == o); if constexpr (MERGE) { EQ(s.minimum_excluded(x), o == rg.end() ? x : T(o->second + 1)); EQ(s.maximum_excluded(x), o == rg.end() ? x : T(o->first - 1)); } }
    std::vector<std::pair<T, T>> g(s.begin(), s.end()), ww(rg.begin(), rg.end()); REQUIRE(g == ww, "range lists differ"); }
SCENARIO(wide_range_set, 200, 6) { switch (rng(0, 3)) { case 0: rs<i64, true>(rng); break; case 1: rs<i64, false>(rng); break; case 2: rs<int, true>(rng); break; default: rs<int, false>(rng); } }
SCENARIO(big_bitset, 5, 6) { int n = bigsize(rng) + (int)rng(0, 130); DynamicBitSet d(n, false); std::vector<char> a(n); LOG(n); for (int q = 0; q < 40; ++q) { int l = rng(0, n), r = rng(l, n); switch (rng(0, 5)) { case 0: d.range_set(l, r); std::fill(a.begin() + l, a.begin() + r, 1); break; case 1: d.range_reset(l, r); std::fill(a.begin() + l, a.begin() + r, 0); break; case 2: d.range_flip(l, r); for (int i = l; i < r; ++i) a[i] ^= 1; break; case 3: { int s = rng.coin() ? l : 64 * (l / 64); d <<= s; for (int i = n; i-- > 0;) a[i] = i >= s ? a[i - s] : 0; break; } case 4: { int s = rng.coin() ? l : 64 * (l / 64); d >>= s; for (int i = 0; i < n; ++i) a[i] = i + s < n ? a[i + s] : 0; break; } default: for (int k = 0; k < 500; ++k) { int i = rng(0, n - 1); bool v = rng.coin(); d[i] = v; a[i] = v; } } EQ(d.count(), (int)std::count(a.begin(), a.end(), 1)); EQ(d.range_count(l, r), (int)std::count(a.begin() + l, a.begin() + r, 1)); int f = std::find(a.begin(), a.end(), 1) - a.begin(); EQ(d.find_first(), f); int p = rng(0, n - 1); EQ(d.find_next(p), (int)(std::find(a.begin() + p + 1, a.end(), 1) - a.begin())); } for (int i = 0; i < n; ++i) if ((bool)std::as_const(d)[i] != (bool)a[i]) FAIL(i); }
