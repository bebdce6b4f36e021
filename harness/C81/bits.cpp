// MON: shards=2
// bit tricks and enumerators against bit-by-bit definitions
#include "mon.hpp"
#include <set>
#include <type_traits>
#include "library/util/bit_utils.hpp"
#include "library/util/subset_iterator.hpp"
#include "library/util/iter_util.hpp"
using namespace suisen;

template <class T> static T bits_val(mon::Rng& rng) {
    using U = std::make_unsigned_t<T>;
    U v;
    switch (rng(0, 4)) {
    case 0: v = (U)rng.u(); break;
    case 1: v = (U)(U(1) << rng(0, sizeof(T) * 8 - 1)); break;
    case 2: v = (U)((U(1) << rng(0, sizeof(T) * 8 - 1)) - 1); break;
    case 3: v = (U)(rng.u() & rng.u() & rng.u()); break;
    default: v = (U)rng(0, 3); break;
    }
    return (T)v;
}
template <class T> static void bits_case(mon::Rng& rng) {
    using U = std::make_unsigned_t<T>;
    constexpr int W = sizeof(T) * 8;
    T x = bits_val<T>(rng); U u = (U)x;
    int pc = 0, hi = -1, lo = W;
    for (int i = 0; i < W; ++i) if ((u >> i) & 1) { ++pc; hi = i; if (lo == W) lo = i; }
    EQ(popcount(x), pc, (i64)x, W); EQ(suisen::parity(x), pc & 1, (i64)x);
    EQ(count_lz(x), W - 1 - hi, (i64)x, W); EQ(count_tz(x), lo, (i64)x, W);
    for (int k = 0; k < W; ++k) EQ(kth_bit(x, k), (int)((u >> k) & 1), (i64)x, k);
    if (u) EQ(floor_log2(x), hi, (i64)x, W);
    if (u && !(std::is_signed_v<T> && x < 0)) EQ(ceil_log2(x), hi + (pc > 1), (i64)x, W);
}
SCENARIO(bits_u64, 2000) { bits_case<unsigned long long>(rng); bits_case<unsigned long>(rng); }
SCENARIO(bits_i64, 2000) { bits_case<long long>(rng); }
SCENARIO(bits_u32, 2000) { bits_case<unsigned>(rng); }
SCENARIO(bits_i32, 2000) { bits_case<int>(rng); }
SCENARIO(bits_narrow, 2000) { bits_case<unsigned short>(rng); bits_case<unsigned char>(rng); bits_case<short>(rng); bits_case<signed char>(rng); }

// ---------------------------------------------------------------- subsets
template <class T> static void subset_case(mon::Rng& rng, T s) {
    std::vector<u64> got; for (auto t : all_subset<T>(s)) { got.push_back((u64)(std::make_unsigned_t<T>)t); REQUIRE(got.size() <= 5000, "does not stop"); }
    std::vector<u64> want; u64 S = (u64)(std::make_unsigned_t<T>)s;
    for (u64 t = S;; t = (t - 1) & S) { want.push_back(t); if (!t) break; }
    EQV(got, want);   // every subset once, from s down to the empty set
    (void)rng;
}
template <class T> static T sparse(mon::Rng& rng, int maxbits, int width) {
    u64 s = 0; int k = rng(0, maxbits); while (k--) s |= 1ULL << rng(0, width - 1);
    return (T)s;
}
SCENARIO(all_subset_any, 800) {
    subset_case<int>(rng, sparse<int>(rng, 10, 31)); subset_case<unsigned>(rng, sparse<unsigned>(rng, 10, 32)); subset_case<i64>(rng, sparse<i64>(rng, 10, 63)); subset_case<u64>(rng, sparse<u64>(rng, 10, 64));
    subset_case<unsigned char>(rng, sparse<unsigned char>(rng, 8, 8));
    subset_case<int>(rng, (1 << rng(0, 10)) - 1);
    if (rng.pct(3)) subset_case<unsigned char>(rng, 255), subset_case<signed char>(rng, 127), subset_case<unsigned short>(rng, 4095);
}
static std::vector<u64> sub_k(u64 s, u32 k) {
    std::vector<u64> w;
    for (u64 t = s;; t = (t - 1) & s) { if ((u32)__builtin_popcountll(t) == k) w.push_back(t); if (!t) break; }
    std::sort(w.begin(), w.end()); return w;
}
SCENARIO(all_subset_k32, 1500) {
    u32 s = sparse<u32>(rng, 12, 32); u32 k = rng.pct(10) ? rng(0, 31) : rng(0, 13);
    if (rng.pct(10)) s = 0;
    std::vector<u64> got; for (auto t : all_subset_k(s, k)) { got.push_back(t); REQUIRE(got.size() <= 5000); }
    EQV(got, sub_k(s, k));   // increasing
    u32 n = rng(0, 12);
    std::vector<u64> g2; for (auto t : all_subset_k::nCk(n, k)) { g2.push_back(t); REQUIRE(g2.size() <= 5000); }
    EQV(g2, sub_k((1u << n) - 1, k));
    // almost full universes
    u32 s2 = ~(1u << rng(0, 31)); u32 k2 = rng.pick(std::vector<u32>{0, 1, 2, 29, 30, 31});
    i64 cnt = 0; u64 last = 0; bool first = true;
    for (auto t : all_subset_k(s2, k2)) { REQUIRE((t & ~s2) == 0 && (u32)__builtin_popcount(t) == k2); REQUIRE(first || t > last); first = false; last = t; REQUIRE(++cnt <= 100000); }
    i64 wc = k2 == 0 || k2 == 31 ? 1 : k2 == 1 || k2 == 30 ? 31 : 31 * 30 / 2;
    EQ(cnt, wc, s2, k2);
}
SCENARIO(all_subset_k64, 1500) {
    u64 s = sparse<u64>(rng, 12, 64); u32 k = rng.pct(10) ? rng(0, 63) : rng(0, 13);
    std::vector<u64> got; for (auto t : all_subset_k_64(s, k)) { got.push_back(t); REQUIRE(got.size() <= 5000); }
    EQV(got, sub_k(s, k));
    u64 s2 = ~(1ULL << rng(0, 63)); u32 k2 = rng.pick(std::vector<u32>{0, 1, 2, 61, 62, 63});
    i64 cnt = 0; u64 last = 0; bool first = true;
    for (auto t : all_subset_k_64(s2, k2)) { REQUIRE((t & ~s2) == 0 && (u32)__builtin_popcountll(t) == k2); REQUIRE(first || t > last); first = false; last = t; REQUIRE(++cnt <= 100000); }
    i64 wc = k2 == 0 || k2 == 63 ? 1 : k2 == 1 || k2 == 62 ? 63 : 63 * 62 / 2;
    EQ(cnt, wc, s2, k2);
}
SCENARIO(all_setbit, 1500) {
    u32 a = bits_val<u32>(rng); u64 b = bits_val<u64>(rng);
    std::vector<int> g, w; for (auto i : all_setbit(a)) g.push_back((int)i); for (int i = 0; i < 32; ++i) if (a >> i & 1) w.push_back(i);
    EQV(g, w);
    g.clear(); w.clear(); for (auto i : all_setbit_64(b)) g.push_back((int)i); for (int i = 0; i < 64; ++i) if (b >> i & 1) w.push_back(i);
    EQV(g, w);
}
// ---------------------------------------------------------------- product ranges
SCENARIO(product_range, 600) {
    int a = rng(-1, 5), b = rng(0, 5), c = rng(0, 4);
    if (rng.pct(70)) { a = std::max(a, 1); b = std::max(b, 1); c = std::max(c, 1); }
    std::vector<std::array<int, 3>> g, w;
    for (const auto& [i, j, k] : product_range(a, (i64)b, (short)c)) { g.push_back({i, j, k}); REQUIRE(g.size() <= 1000); }
    for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < c; ++k) w.push_back({i, j, k});
    EQ(g.size(), w.size(), a, b, c); for (std::size_t i = 0; i < g.size(); ++i) REQUIRE(g[i] == w[i], i);
    std::vector<int> g1, w1; for (const auto& [i] : product_range(a)) g1.push_back(i); for (int i = 0; i < a; ++i) w1.push_back(i);
    EQV(g1, w1);
}
