// MON: shards=2
#include "mon.hpp"
#include <sstream>
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
// all answers derived from the sorted list of (x ^ v)
template <class T, class W, bool XOR> void run_wm(Rng& rng, T lim, bool neg = false) {
    int n = rng.size(0, 60); int style = rng(0, 2); auto val = [&]() -> T { if (style == 0) return T(rng(0, std::min<i64>(5, (i64)std::min<u64>((u64)lim, 1u << 30)))) - (neg ? T(2) : T(0)); T v = T(rng.wide((u64)lim)); if (neg && rng.coin()) v = -v; return v; };
    std::vector<T> a(n); for (auto& x : a) x = val(); W wm; if (rng.coin()) wm = W(a); else wm = W(n, [&](int i) { return a[i]; });
    for (int i = 0; i < n; ++i) { EQ(wm[i], a[i]); EQ(wm.access(i), a[i]); }
    for (int q = 0; q < 25; ++q) {
        int l = rng(0, n), r = rng(l, n); T x = XOR && rng.pct(70) ? val() : T(0); T lo = rng.coin() || n == 0 ? val() : T(a[rng(0, n - 1)] ^ x), hi = rng.coin() || n == 0 ? val() : T(a[rng(0, n - 1)] ^ x); T def = rng.coin() ? T(-1) : T(77); LOG("q", l, r, x, lo, hi);
        if (rng.pct(5)) lo = lim; if (rng.pct(5)) hi = lim; if (rng.pct(5)) hi = T(0);
        std::vector<T> s; for (int i = l; i < r; ++i) s.push_back(a[i] ^ x); std::sort(s.begin(), s.end()); int m = r - l, k = rng(-1, m + 1);
        { T y = n && rng.coin() ? a[rng(0, n - 1)] : val(); EQ(wm.rank(y, r), (int)std::count(a.begin(), a.begin() + r, y)); }
        auto at = [&](int i, T d) { return 0 <= i && i < m ? T(s[i] ^ x) : d; };
        auto lt = [&](T v) { return int(std::lower_bound(s.begin(), s.end(), v) - s.begin()); }; auto le = [&](T v) { return int(std::upper_bound(s.begin(), s.end(), v) - s.begin()); };
        if constexpr (XOR) {
            EQ(wm.range_xor_kth_smallest(l, r, k, x, def), at(k, def)); EQ(wm.range_xor_kth_largest(l, r, k, x, def), at(m - 1 - k, def)); if (m) { EQ(wm.range_xor_min(l, r, x), at(0, def)); EQ(wm.range_xor_max(l, r, x), at(m - 1, def)); }
            EQ(wm.range_xor_freq(l, r, x, hi), lt(hi)); EQ(wm.range_xor_freq(l, r, x, lo, hi), std::max(0, lt(hi) - lt(lo)));
            EQ(wm.range_xor_min_geq(l, r, x, lo, def), at(lt(lo), def)); EQ(wm.range_xor_min_gt(l, r, x, lo, def), at(le(lo), def)); EQ(wm.range_xor_max_lt(l, r, x, hi, def), at(lt(hi) - 1, def)); EQ(wm.range_xor_max_leq(l, r, x, hi, def), at(le(hi) - 1, def));
        }
        s.assign(a.begin() + l, a.begin() + r); std::sort(s.begin(), s.end()); x = 0;
        EQ(wm.range_kth_smallest(l, r, k, def), at(k, def)); EQ(wm.range_kth_largest(l, r, k, def), at(m - 1 - k, def)); if (m) { EQ(wm.range_min(l, r), s[0]); EQ(wm.range_max(l, r), s[m - 1]); } if (k < 0 || k >= m) EQ(wm.range_kth_smallest(l, r, k), T(-1));
        EQ(wm.range_freq(l, r, hi), lt(hi)); EQ(wm.range_freq(l, r, lo, hi), std::max(0, lt(hi) - lt(lo)));
        EQ(wm.range_min_geq(l, r, lo, def), at(lt(lo), def)); EQ(wm.range_min_gt(l, r, lo, def), at(le(lo), def)); EQ(wm.range_max_lt(l, r, hi, def), at(lt(hi) - 1, def)); EQ(wm.range_max_leq(l, r, hi, def), at(le(hi) - 1, def));
    }
}
SCENARIO(wavelet_matrix, 900) { switch (rng(0, 5)) { case 0: run_wm<int, WaveletMatrix<int, 3>, true>(rng, 7); break; case 1: run_wm<int, WaveletMatrix<int, 20>, true>(rng, (1 << 20) - 1); break; case 2: run_wm<int, WaveletMatrix<int>, true>(rng, INT_MAX); break; case 3: run_wm<unsigned, WaveletMatrix<unsigned>, true>(rng, ~0u); break; case 4: run_wm<u64, WaveletMatrix<u64, 40>, true>(rng, (1ull << 40) - 1); break; default: run_wm<u64, WaveletMatrix<u64>, true>(rng, ~0ull); } }
SCENARIO(compressed_wavelet_matrix, 600) { switch (rng.mag > 1 ? rng(1, 2) : rng(0, 3)) { case 0: run_wm<int, CompressedWaveletMatrix<int, 7>, false>(rng, INT_MAX, true); break; case 1: run_wm<int, CompressedWaveletMatrix<int>, false>(rng, INT_MAX, true); break; case 2: run_wm<i64, CompressedWaveletMatrix<i64>, false>(rng, LLONG_MAX, true); break; default: run_wm<i64, CompressedWaveletMatrix<i64, 6>, false>(rng, LLONG_MAX, true); } }
template <class T, int B, class Trie, bool PAT> void run_trie(Rng& rng) {
    using U = std::make_unsigned_t<T>; U lim = B == std::numeric_limits<U>::digits ? ~U(0) : (U(1) << B) - 1; int style = rng(0, 2); u64 base = rng.wide((u64)lim);
    auto val = [&]() -> U { U v = style == 0 ? U(rng(0, 7)) : style == 1 ? U(rng.wide((u64)lim)) : U(base ^ (u64(1) << rng(0, B - 1)) ^ (rng.coin() ? u64(1) << rng(0, B - 1) : 0)); return v & lim; };
    Trie t; std::multiset<U> m; auto any = [&] { return *std::next(m.begin(), rng(0, (int)m.size() - 1)); };
    for (int q = rng.size(1, 60); q--;) {
        U v = val(); if (!m.empty() && rng.coin()) v = any(); int c = rng.pct(20) ? rng(2, 4) : 1, op = rng(0, 9); LOG("op", op, v, c);
        if (op < 4) { if constexpr (PAT) { if (rng.coin()) { bool f = m.count(v) == 0; EQ(t.insert_if_absent(v), f); if (f) m.insert(v); } else { if (c == 1 && rng.coin()) t.insert(v); else t.insert(v, c); while (c--) m.insert(v); } } else { for (int i = 0; i < c; ++i) m.insert(v); EQ(t.insert(v, c), (int)m.count(v)); if (rng.pct(5)) EQ(t.insert(v, 0), 0); } }
        else if (op < 7) { int have = (int)m.count(v); if constexpr (!PAT) if (rng.pct(20)) { EQ(t.erase_all(v), have); m.erase(v); continue; } EQ((int)t.erase(v, c), std::min(have, c)); for (int i = 0; i < std::min(have, c); ++i) m.erase(m.find(v)); if (rng.pct(5)) EQ((int)t.erase(v, 0), 0); }
        else if (PAT && op == 7 && rng.pct(20)) { if constexpr (PAT) t.clear(); m.clear(); }
        EQ(t.size(), (int)m.size()); EQ(t.empty(), m.empty()); v = rng.coin() ? val() : v; EQ((int)t.count(v), (int)m.count(v)); EQ(t.contains(v), m.count(v) > 0);
        U x = rng.coin() ? 0 : val(), b = val(); if (!m.empty() && rng.coin()) b = any() ^ x; int n = (int)m.size(); LOG("query", x, b);
        std::vector<U> s; for (U y : m) s.push_back(y ^ x); std::sort(s.begin(), s.end()); int lt = int(std::lower_bound(s.begin(), s.end(), b) - s.begin()), le = int(std::upper_bound(s.begin(), s.end(), b) - s.begin());
        if (n) { int k = rng(0, n - 1); EQ((U)t.xor_kth_min(x, k), s[k]); EQ((U)t.xor_kth_max(x, k), s[n - 1 - k]); EQ((U)t.xor_min(x), s[0]); EQ((U)t.xor_max(x), s[n - 1]); EQ((U)t.kth_min(k), *std::next(m.begin(), k)); }
        EQ((int)t.xor_count_lt(x, b), lt); EQ((int)t.xor_count_leq(x, b), le); EQ((int)t.xor_count_geq(x, b), n - lt); EQ((int)t.xor_count_gt(x, b), n - le);
        std::vector<U> z(m.begin(), m.end()); int zlt = int(std::lower_bound(z.begin(), z.end(), b) - z.begin()), zle = int(std::upper_bound(z.begin(), z.end(), b) - z.begin());
        EQ((int)t.count_lt(b), zlt); EQ((int)t.count_leq(b), zle); EQ((int)t.count_geq(b), n - zlt); EQ((int)t.count_gt(b), n - zle);
        if constexpr (PAT) {
            auto opt = [&](const std::vector<U>& s, int i) { return i >= 0 && i < n ? std::optional<T>(T(s[i])) : std::nullopt; }; auto same = [&](std::optional<T> g, std::optional<T> w) { EQ(g.has_value(), w.has_value()); if (w) EQ(*g, *w); };
            same(t.safe_xor_max_lt(x, b), opt(s, lt - 1)); same(t.safe_xor_max_leq(x, b), opt(s, le - 1)); same(t.safe_xor_min_geq(x, b), opt(s, lt)); same(t.safe_xor_min_gt(x, b), opt(s, le));
            same(t.safe_max_lt(b), opt(z, zlt - 1)); same(t.safe_max_leq(b), opt(z, zle - 1)); same(t.safe_min_geq(b), opt(z, zlt)); same(t.safe_min_gt(b), opt(z, zle));
            if (lt) { EQ((U)t.xor_max_lt(x, b), s[lt - 1]); } if (le) EQ((U)t.xor_max_leq(x, b), s[le - 1]); if (lt < n) EQ((U)t.xor_min_geq(x, b), s[lt]); if (le < n) EQ((U)t.xor_min_gt(x, b), s[le]);
            if (zlt) { EQ((U)t.max_lt(b), z[zlt - 1]); } if (zle) EQ((U)t.max_leq(b), z[zle - 1]); if (zlt < n) EQ((U)t.min_geq(b), z[zlt]); if (zle < n) EQ((U)t.min_gt(b), z[zle]);
            if (n) { int k = rng(0, n - 1); EQ((U)t.kth_max(k), z[n - 1 - k]); }
        } else {
            U d = rng.coin() ? ~U(0) : U(5); auto at = [&](const std::vector<U>& s, int i) { return i >= 0 && i < n ? s[i] : d; };
            EQ(t.xor_lower(x, b, d), at(s, lt - 1)); EQ(t.xor_floor(x, b, d), at(s, le - 1)); EQ(t.xor_higher(x, b, d), at(s, le)); EQ(t.xor_ceil(x, b, d), at(s, lt));
            EQ(t.lower(b, d), at(z, zlt - 1)); EQ(t.floor(b, d), at(z, zle - 1)); EQ(t.higher(b, d), at(z, zle)); EQ(t.ceil(b, d), at(z, zlt));
            if (n) { EQ(t.min(), z[0]); EQ(t.max(), z[n - 1]); }
            unsigned l = rng(0, B - 1); int pc = 0; for (U y : m) pc += (y >> l) == (b >> l); EQ(t.prefix_count(b, l), pc);
            if (n && rng.pct(20)) { std::ostringstream os; os << t; REQUIRE(os.str() == t.to_string()); S txt = os.str(); std::multiset<U> g; for (size_t p = 0; (p = txt.find('(', p)) != S::npos; ++p) { size_t b0 = txt.rfind(' ', p - 2); int cnt = std::stoi(txt.substr(b0 == S::npos ? 0 : b0, p - (b0 == S::npos ? 0 : b0))); U v = (U)std::stoull(txt.substr(p + 1)); while (cnt-- > 0) g.insert(v); } REQUIRE(g == m, "to_string lists other elements"); }
        }
    }
}
SCENARIO(binary_trie, 700) { switch (rng(0, 3)) { case 0: run_trie<int, 5, BinaryTrie<int, 5>, false>(rng); break; case 1: run_trie<int, 30, BinaryTrie<int, 30>, false>(rng); break; case 2: run_trie<unsigned, 32, BinaryTrie<unsigned>, false>(rng); break; default: run_trie<u64, 64, BinaryTrie<u64>, false>(rng); } }
SCENARIO(binary_trie_patricia, 900) { switch (rng(-1, 8)) { case -1: run_trie<int, 32, BinaryTriePatricia<int, 32>, true>(rng); break; case 0: run_trie<int, 5, BinaryTriePatricia<int, 5>, true>(rng); break; case 1: run_trie<int, 30, BinaryTriePatricia<int, 30>, true>(rng); break; case 2: run_trie<unsigned, 32, BinaryTriePatricia<unsigned, 32>, true>(rng); break; case 3: run_trie<u64, 64, BinaryTriePatricia<u64, 64>, true>(rng); break; case 4: run_trie<u64, 33, BinaryTriePatricia<u64, 33>, true>(rng); break; case 5: run_trie<u64, 63, BinaryTriePatricia<u64, 63>, true>(rng); break; case 6: run_trie<i64, 31, BinaryTriePatricia<i64, 31, i64>, true>(rng); break; case 7: run_trie<unsigned char, 8, BinaryTriePatricia<unsigned char, 8>, true>(rng); break; default: run_trie<int, 1, BinaryTriePatricia<int, 1>, true>(rng); } }
// the same workloads at realistic sizes
RESCALE(wavelet_matrix, 4, 512);
RESCALE(compressed_wavelet_matrix, 4, 512);
RESCALE(binary_trie_patricia, 4, 512);
RESCALE(binary_trie, 4, 8);
