// C40: rolling hashes
#include "mon.hpp"
#include <atcoder/modint>
#include "library/string/rolling_hash.hpp"
#include "library/string/rolling_hash_field.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
using namespace mon; using namespace suisen;
static const u64 P61 = (u64(1) << 61) - 1;
static u64 mul61(u64 a, u64 b) { return u64(u128(a) * b % P61); }
static u64 horner(const std::vector<int>& a, int l, int r, u64 base) { u64 h = 0; for (int i = l; i < r; ++i) h = (mul61(h, base) + u64(a[i])) % P61; return h; }
using mint = atcoder::modint998244353;
SCENARIO(rolling_hash_fixed_base, 300) { // with set bases the value is the documented polynomial
    std::array<modint2p61m1, 2> B{ modint2p61m1(rng.u() % P61), modint2p61m1(rng.u() % P61) }; if (rng.pct(10)) B[1] = B[0]; using RH = RollingHash<2>; RH::set_bases(B); EQ(RH::mod(), P61);
    int n = rng.size(0, 40); auto a = rng.vec<int>(n, 0, rng.coin() ? 3 : 2000000000); LOG(a); RH h(a);
    for (int k = 0; k < 30; ++k) { int l = rng(0, n), r = rng(l, n), l2 = rng(0, n), r2 = rng(l2, n); auto x = h(l, r); auto y = h.concat(x, l2, r2); auto c = std::vector<int>(a.begin() + l, a.begin() + r); c.insert(c.end(), a.begin() + l2, a.begin() + r2); for (int b = 0; b < 2; ++b) { EQ(x[b], horner(a, l, r, B[b].val())); EQ(y[b], horner(c, 0, c.size(), B[b].val())); } }
}
template <class H, class F> static void eqrel(Rng& rng, const std::string& s, H h, F sub, int q) { int n = s.size(); for (int k = 0; k < q; ++k) { int l = rng(0, n), r = rng(l, n), l2 = rng(0, n), r2; if (rng.coin()) r2 = std::min<int>(n, l2 + r - l); else r2 = rng(l2, n); bool same = sub(l, r) == sub(l2, r2); REQUIRE((h(l, r) == h(l2, r2)) == same || (!same && r - l != r2 - l2), s, l, r, l2, r2); } }
SCENARIO(rolling_hash_random_base, 200) {
    int n = rng.size(0, 60); std::string s = rng.rep_string(n, 2); int kind = rng(0, 4); auto sub = [&](int l, int r) { return s.substr(l, r - l); };
    for (auto& c : s) { int d = c - 'a'; if (kind == 1) c = char('A' + d); if (kind == 2) c = rng.pct(10) ? char('a' + d) : char('A' + d); if (kind == 3) c = char('0' + d); }
    LOG(s); auto make = [&](auto tag) { using R = decltype(tag); return kind == 0 ? R::from_lowercase_alphabet(s) : kind == 1 ? R::from_uppercase_alphabet(s) : kind == 2 ? R::from_alphabet(s) : kind == 3 ? R::from_digit(s) : R::from(s, [](char c) { return int(c) + 1; }); };
    auto h1 = make(RollingHash<1>()); eqrel(rng, s, h1, sub, 30); auto h3 = make(RollingHash<3>()); eqrel(rng, s, h3, sub, 30); auto hm = make(RollingHash<3, mint>()); eqrel(rng, s, hm, sub, 20); EQ((u64)hm.mod(), (u64)998244353);
    // equal strings in different objects
    auto g1 = make(RollingHash<1>()); if (n) { int l = rng(0, n), r = rng(l, n); REQUIRE(h1(l, r) == g1(l, r)); }
    if (kind == 2 && n) { // the documented letter values never identify different letters
        std::string all; for (char c = 'a'; c <= 'z'; ++c) all += c; for (char c = 'A'; c <= 'Z'; ++c) all += c; auto ha = RollingHash<2>::from_alphabet(all); for (int i = 0; i < 52; ++i) for (int j = 0; j < i; ++j) REQUIRE(ha(i, i + 1) != ha(j, j + 1), i, j);
    }
}
// the randomly drawn bases are usable ones: the hash of (1, 0) is the base itself
template <class R> static void bases_of(int bn) { R h(std::vector<int>{ 1, 0 }); auto x = h(0, 2); for (int i = 0; i < bn; ++i) { REQUIRE(x[i] >= 128, i, x[i]); for (int j = 0; j < i; ++j) REQUIRE(x[i] != x[j], "two hash components share a base", i, j); } mon::observe(bn); }
SCENARIO(random_bases, 1) { bases_of<RollingHash<4>>(4); bases_of<RollingHash<1>>(1); bases_of<RollingHash<3, mint>>(3); using D = DynamicRollingHash<1>; D::init_pool(10000); D a(std::vector<int>{ 1, 0 }); auto x = a(0, 2); for (int k = 0; k < 300; ++k) { D b(std::vector<int>{ 0, k }); REQUIRE(b(0, 2) != x, "two short sequences share a hash", k); } }
SCENARIO(rolling_hash_larger, 4) { int n = rng.size(2000, 5000); std::string s = rng.rep_string(n, 2); auto h = RollingHash<2>::from_lowercase_alphabet(s); auto sub = [&](int l, int r) { return s.substr(l, r - l); }; eqrel(rng, s, h, sub, 200); }
template <size_t BN> static void field_case(Rng& rng) {
    using RF = RollingHashField<mint, BN>; std::array<mint, BN> B; for (auto& b : B) b = mint((unsigned)rng(1, 998244352)); 
    auto run = [&]() { RF::set_bases(B);
        int n = rng.size(0, 50); std::vector<int> a = rng.vec<int>(n, 0, rng.coin() ? 1 : 5); if (rng.coin()) for (int i = 3; i < n; ++i) if (rng.pct(90)) a[i] = a[i - 3]; LOG(a); std::array<std::function<mint(int)>, BN> f; std::array<mint, BN> mulv; for (size_t i = 0; i < BN; ++i) { mulv[i] = mint((unsigned)rng(1, 998244352)); mint m = mulv[i]; f[i] = [m](int x) { return m * (x + 7); }; }
        auto h = RF::create(a, f); auto ref = [&](int b, int l, int r) { mint v = 0; for (int i = l; i < r; ++i) v = v * B[b] + mulv[b] * (a[i] + 7); return v; };
        for (int k = 0; k < 25; ++k) { int l = rng(0, n), r = rng(l, n), l2 = rng(0, n), r2 = rng(l2, n); auto x = h(l, r), y = h(l2, r2); auto z = RF::concat(x, y, r2 - l2); auto w = RF::pointwise_add(x, y); for (size_t b = 0; b < BN; ++b) { mint e = ref(b, l, r), e2 = ref(b, l2, r2); EQ(x[b].val(), e.val()); EQ(w[b].val(), (e + e2).val()); mint c = e; for (int i = l2; i < r2; ++i) c = c * B[b] + mulv[b] * (a[i] + 7); EQ(z[b].val(), c.val()); } }
        for (int k = 0; k < 25; ++k) { int p = rng(0, n), q = rng(0, n); int e = 0; while (p + e < n && q + e < n && a[p + e] == a[q + e]) ++e; EQ(h.lcp(p, q), e); } };
    run(); if (rng.coin()) run(); for (auto& b : B) b = mint((unsigned)rng(1, 998244352)); run();
}
SCENARIO(rolling_hash_field, 200) { if (rng.coin()) field_case<2>(rng); else field_case<3>(rng); }
template <size_t BN> static void dyn_case(Rng& rng, int ops, int cmps) {
    using D = DynamicRollingHash<BN>; D::init_pool(20000 * (2 * rng.mag - 1)); int n = rng.size(0, 20); std::vector<int> a = rng.vec<int>(n, 0, 1); int hi = rng.coin() ? 1 : 1000000000; D d; if (n && rng.pct(80)) d = D(a); else a.clear();
    D e(std::vector<int>{ 5, 6 }); std::map<std::vector<int>, typename D::hash> seen;
    for (int k = 0; k < ops; ++k) { n = a.size(); int x = rng(0, hi); switch (rng(0, 6)) {
        case 0: if (n) { int i = rng(0, n - 1); d.set(i, x); a[i] = x; LOG("set", i, x); } break;
        case 1: { int i = rng(0, n); d.insert(i, x); a.insert(a.begin() + i, x); LOG("ins", i, x); } break;
        case 2: d.push_back(x); a.push_back(x); LOG("pb", x); break;
        case 3: d.push_front(x); a.insert(a.begin(), x); LOG("pf", x); break;
        case 4: if (n > 1) { int i = rng(0, n - 1); d.erase(i); a.erase(a.begin() + i); LOG("er", i); } break;
        case 5: if (n > 1) { d.pop_back(); a.pop_back(); LOG("pop"); } break;
        default: if (n > 1) { d.pop_front(); a.erase(a.begin()); LOG("popf"); } }
        n = a.size(); for (int q = 0; q < 3; ++q) { int l = rng(0, n), r = rng(l, n); auto h = d(l, r); std::vector<int> w(a.begin() + l, a.begin() + r); auto [it, ins] = seen.try_emplace(w, h); if (!ins) REQUIRE(it->second == h, l, r); }
    }
    n = a.size(); for (int k = 0; k < cmps; ++k) { int l = rng(0, n), r = rng(l, n), w = r - l, l2 = rng(0, n - w); auto h = d(l, r), g = d(l2, l2 + w); REQUIRE((h == g) == (std::vector<int>(a.begin() + l, a.begin() + r) == std::vector<int>(a.begin() + l2, a.begin() + l2 + w)), l, r, l2); }
}
SCENARIO(dynamic_rolling_hash, 200) { if (rng.coin()) dyn_case<1>(rng, 30, 10); else dyn_case<2>(rng, 30, 30); }
// birthday stress: ~2.5e5 pairwise different substrings must keep pairwise different hashes
// (for a hash modulo 2^61-1 the chance of any collision is below 1e-6)
static std::vector<int> distinct_windows(Rng& rng, int n, int w) {
    std::vector<int> a(n); // a permuted counter makes all windows of a fixed length different
    for (int i = 0; i < n; ++i) a[i] = i; rng.shuffle(a); (void)w; return a;
}
SCENARIO(dynamic_rolling_hash_birthday, 1) {
    const int n = 250000, w = rng(4, 9); auto a = distinct_windows(rng, n, w); LOG(n, w);
    using D = DynamicRollingHash<1>; D::init_pool(1000000); D d(a); std::vector<typename D::hash> h; for (int i = 0; i + w <= n; ++i) h.push_back(d(i, i + w));
    std::sort(h.begin(), h.end()); for (size_t i = 1; i < h.size(); ++i) REQUIRE(h[i] != h[i - 1], n, w, i);
}
SCENARIO(rolling_hash_birthday, 1) {
    const int n = 400000, w = rng(4, 9); auto a = distinct_windows(rng, n, w); LOG(n, w);
    RollingHash<1> d(a); std::vector<u64> h; for (int i = 0; i + w <= n; ++i) h.push_back(d(i, i + w)[0]);
    std::sort(h.begin(), h.end()); for (size_t i = 1; i < h.size(); ++i) REQUIRE(h[i] != h[i - 1], n, w, i);
}
// the same workloads at realistic sizes
RESCALE(rolling_hash_fixed_base, 4, 512);
RESCALE(rolling_hash_random_base, 4, 512);
RESCALE(rolling_hash_field, 4, 512);
RESCALE(rolling_hash_larger, 4, 512);
RESCALE(dynamic_rolling_hash, 4, 512);
