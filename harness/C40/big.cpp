// Matchers and hashes on texts longer than 2^16.
// MON: shards=3
#include "bigstr.hpp"
#include <atcoder/modint>
#include "library/string/rolling_hash.hpp"
#include "library/string/rolling_hash_field.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
#include "library/string/morris_pratt.hpp"
#include "library/string/manacher.hpp"
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/compare_substring.hpp"
#include <unordered_map>
using namespace suisen; using namespace bigstr; using mon::Rng; using mint = atcoder::modint998244353;
SCENARIO(big_morris_pratt, 16) {
    int st = (int)rng.in(0, STYLES - 1), n = rng.coin() ? bn(rng) : (int)rng.in(140000, 160000); auto s = gen(rng, n, st); LOG("n", n, "style", st); auto z = zed(s); std::vector<int> b(n + 1, 0); b[0] = -1; for (int i = n - 1; i > 0; --i) if (z[i]) b[i + z[i]] = std::max(b[i + z[i]], z[i]); for (int i = n - 1; i > 0; --i) b[i] = std::max(b[i], b[i + 1] - 1); b[0] = -1; auto mp = morris_pratt::morris_pratt(s); EQV(mp, b);
    std::vector<int> per, full; for (int p = 1; p <= n; ++p) if (p == n || z[p] == n - p) { per.push_back(p); if (n % p == 0) full.push_back(p); } EQV(morris_pratt::all_periods(s.begin(), s.end()), per); EQV(morris_pratt::all_periods(s.begin(), s.end(), false), full); REQUIRE(morris_pratt::min_period(s) == s.substr(0, per[0])); REQUIRE(morris_pratt::min_period(s, false) == s.substr(0, full[0]));
    std::vector<i64> v(s.begin(), s.end()); for (auto& x : v) x = (x << 40) + (x & 1); EQV(morris_pratt::morris_pratt(v), b);
    for (int k = 0; k < 3; ++k) { int m = k == 0 ? (int)rng.in(1, 4) : k == 1 ? (int)rng.in(1, n) : (int)rng.in(30000, n), l = (int)rng.in(0, n - m); auto p = s.substr(l, m); if (rng.pct(20)) p.back() ^= 1; auto q = zed(p + "$" + s); std::vector<int> w; for (int i = 0; i + m <= n; ++i) if (q[m + 1 + i] == m) w.push_back(i); morris_pratt::MatcherMP<std::string> M(p); EQV(M(s), w); EQV(M.enumerate_occurences(s.substr(0, l + m)), std::vector<int>(w.begin(), std::upper_bound(w.begin(), w.end(), l))); }
}
SCENARIO(big_manacher, 16) {
    int st = (int)rng.in(0, STYLES - 1), n = rng.coin() ? bn(rng) : (int)rng.in(140000, 160000); auto s = gen(rng, n, st); if (rng.pct(30)) { for (int i = 0; i < n / 2; ++i) s[n - 1 - i] = s[i]; if (rng.coin()) s[rng.in(0, n - 1)] = 'z'; } LOG("n", n, "style", st); auto r = s; std::reverse(r.begin(), r.end()); Lce a(s), b(r); auto ext = [&](int i, int j) { int lo = 0, hi = std::min(i, n - j); while (lo < hi) { int m = (lo + hi + 1) / 2; if (a.get(j, j + m) == b.get(n - i, n - i + m)) lo = m; else hi = m - 1; } return lo; }; // s[i-k..i) mirrors s[j..j+k)
    Manacher M(s, '$'); for (int i = 0; i < n; ++i) { int o = 2 * ext(i, i + 1) + 1, e = 2 * ext(i, i); EQ(M.odd_length(i), o); EQ(M.even_length(i), e); EQ(M[2 * i + 1], o); } EQ(M.even_length(n), 0); std::vector<i64> v(s.begin(), s.end()); for (auto& x : v) x <<= 33; Manacher W(v, (i64)-1); i64 d = 0; for (int i = 0; i <= 2 * n; ++i) d += W[i] != M[i]; EQ(d, (i64)0);
}
template <class A> static void aho(A& a, Rng& rng, int st) {
    int n = bn(rng); auto s = gen(rng, n, st); std::vector<std::string> ps; int kind = (int)rng.in(0, 3); auto piece = [&](int len) { int l = (int)rng.in(0, n - len); auto p = s.substr(l, len); if (rng.pct(20)) p[rng.in(0, len - 1)] = char('a' + rng.in(0, 25)); return p; };
    if (kind == 0) { ps.push_back(piece((int)rng.in(65540, n))); for (int k = 0; k < 5; ++k) ps.push_back(piece((int)rng.in(1, 30000))); } else if (kind == 1) { int L[4]; for (int& x : L) x = (int)rng.in(1, 40); for (int k = 0; k < 3000; ++k) ps.push_back(piece(L[rng.in(0, 3)])); } else if (kind == 2) { auto p = piece((int)rng.in(1, 3)); for (int k = 0; k < 66000; ++k) ps.push_back(p); ps.push_back(piece(5)); } else for (int k = 1; k <= 300; ++k) ps.push_back(piece(k)); if (kind != 2 && rng.coin()) ps.push_back(ps[rng.in(0, (i64)ps.size() - 1)]); rng.shuffle(ps); LOG("n", n, "style", st, "kind", kind);
    if (kind == 3) n = 20000, s.resize(n); std::map<int, std::unordered_map<u64, int>> by; for (auto& p : ps) a.add(p), ++by[(int)p.size()][Lce(p).get(0, (int)p.size())]; a.build(); Lce h(s); std::vector<int> w(n + 1); for (auto& [len, m] : by) for (int i = len; i <= n; ++i) { auto it = m.find(h.get(i - len, i)); if (it != m.end()) w[i] += it->second; } int cur = a.init_state(); for (int i = 0; i < n; ++i) { cur = a.next_state(cur, s[i]); EQ(a.count_suffix_matching(cur), w[i + 1]); }
}
SCENARIO(big_aho_corasick, 16) { int st = (int)rng.in(0, 2 * STYLES - 1); if (st < STYLES) { AhoCorasick<char> a; aho(a, rng, st); } else { AhoCorasickArray<26, 'a'> a; aho(a, rng, st - STYLES); } }
SCENARIO(big_compare_substring, 8) {
    int st = (int)rng.in(0, STYLES - 1), n = bn(rng); auto s = gen(rng, n, st); LOG("n", n, "style", st); Lce h(s); auto go = [&](const auto& c) { for (int k = 0; k < 4000; ++k) { int l1 = (int)rng.in(0, n), r1 = rng.coin() ? n : (int)rng.in(l1, n), l2 = rng.pct(30) ? (int)std::max<i64>(0, l1 - rng.in(0, 6)) : (int)rng.in(0, n), r2 = rng.pct(30) ? std::min(n, l2 + r1 - l1) : rng.coin() ? n : (int)rng.in(l2, n); if (rng.pct(5)) l2 = l1; if (r2 < l2) r2 = l2; int w = l1 == r1 || l2 == r2 ? 0 : std::min({ h.lcp(l1, l2), r1 - l1, r2 - l2 }); EQ(c.lcp(l1, r1, l2, r2), w); int e = w == r1 - l1 ? (w == r2 - l2 ? 0 : -1) : w == r2 - l2 ? 1 : s[l1 + w] < s[l2 + w] ? -1 : 1; EQ(c.compare(l1, r1, l2, r2), e); auto x = c.substr(l1, r1), y = c.substr(l2, r2); EQ(x < y, e < 0); EQ(x == y, e == 0); EQ(x >= y, e >= 0); } };
    { CompareSubstring<> c(s); go(c); } { CompareSubstring<compare_substring_rmq::SegmentTreeRmQ> c(s); go(c); } std::vector<int> v(s.begin(), s.end()); for (auto& x : v) x = (x - 'a') * 1000003 - 5; { CompareSubstring<> c(v); go(c); } for (auto& x : v) x = (x + 5) / 1000003; { CompareSubstring<> c(v, 25); go(c); }
}
SCENARIO(big_rolling_hash, 8) {
    int st = (int)rng.in(0, STYLES - 1), n = rng.coin() ? bn(rng) : (int)rng.in(200000, 280000); auto s = gen(rng, n, st); LOG("n", n, "style", st); Lce h(s); auto rg = [&] { int l = (int)rng.in(0, n), r = rng.coin() ? n : (int)rng.in(l, n), w = r - l, l2 = rng.pct(50) ? (int)std::max<i64>(0, l - rng.in(0, 6)) : (int)rng.in(0, n - w); return std::array<int, 3>{ l, l2, w }; };
    using RH = RollingHash<1>; u64 base = (u64)rng.in(1000, (i64)P - 2); RH::set_bases({ modint2p61m1(base) }); auto a = RH::from_lowercase_alphabet(s); std::vector<u64> pre(n + 1), pw(n + 1, 1); for (int i = 0; i < n; ++i) pre[i + 1] = (mul(pre[i], base) + (u64)(s[i] - 'a' + 1)) % P, pw[i + 1] = mul(pw[i], base); auto val = [&](int l, int r) { return (pre[r] + P - mul(pre[l], pw[r - l])) % P; };
    auto b3 = RollingHash<3, mint>::from_lowercase_alphabet(s); for (int k = 0; k < 4000; ++k) { auto [l, l2, w] = rg(); EQ(a(l, l + w)[0], val(l, l + w)); EQ(a.concat(a(l, l + w), l2, l2 + w)[0], (mul(val(l, l + w), pw[w]) + val(l2, l2 + w)) % P); bool same = h.get(l, l + w) == h.get(l2, l2 + w); EQ(b3(l, l + w) == b3(l2, l2 + w), same); }
    using RF = RollingHashField<mint, 2>; RF::set_bases({ mint((unsigned)rng.in(1000, 998244352)), mint((unsigned)rng.in(1000, 998244352)) }); std::array<std::function<mint(char)>, 2> f; f[0] = [](char c) { return mint(c); }; f[1] = [](char c) { return mint(3) * c + 1; }; auto fh = RF::create(s, f); for (int k = 0; k < 3000; ++k) { auto [l, l2, w] = rg(); bool same = h.get(l, l + w) == h.get(l2, l2 + w); EQ(fh(l, l + w) == fh(l2, l2 + w), same); EQ(fh.lcp(l, l2), l == n || l2 == n ? 0 : h.lcp(l, l2)); if (l + w <= l2) { auto c = RF::concat(fh(l, l + w), fh(l + w, l2), l2 - l - w); REQUIRE(c == fh(l, l2)); } }
}
SCENARIO(big_dynamic_rolling_hash, 4) {
    int st = rng.pick(std::vector<int>{ 0, 2, 4, 7 }), n = bn(rng); auto s = gen(rng, n, st); std::vector<int> a(s.begin(), s.end()); LOG("n", n, "style", st); using D = DynamicRollingHash<2>; D::init_pool(3000000); D d(a);
    for (int k = 0; k < 250; ++k) { n = (int)a.size(); int x = rng.coin() ? 'a' + (int)rng.in(0, 2) : (int)rng.in(0, 2000000000), i = rng.pct(20) ? 0 : rng.pct(20) ? n - 1 : (int)rng.in(0, n - 1); switch (rng.in(0, 6)) { case 0: d.set(i, x); a[i] = x; break; case 1: d.insert(i, x); a.insert(a.begin() + i, x); break; case 2: d.push_back(x); a.push_back(x); break; case 3: d.push_front(x); a.insert(a.begin(), x); break; case 4: d.erase(i); a.erase(a.begin() + i); break; case 5: d.pop_back(); a.pop_back(); break; default: d.pop_front(); a.erase(a.begin()); } LOG("op", k);
        if (k % 10 == 0) { n = (int)a.size(); Lce h(a); for (int q = 0; q < 40; ++q) { int l = (int)rng.in(0, n), r = rng.coin() ? n : (int)rng.in(l, n), w = r - l, l2 = rng.pct(60) ? (int)std::max<i64>(0, l - rng.in(0, 6)) : (int)rng.in(0, n - w); EQ(d(l, l + w) == d(l2, l2 + w), h.get(l, l + w) == h.get(l2, l2 + w)); } }
    }
    n = (int)a.size(); D e(a); for (int q = 0; q < 200; ++q) { int l = (int)rng.in(0, n), r = (int)rng.in(l, n); REQUIRE(d(l, r) == e(l, r), "content hash depends on the history", l, r); } mon::observe(n);
}
