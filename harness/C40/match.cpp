// C40: Morris-Pratt, Manacher, Aho-Corasick, substring comparison
#include "mon.hpp"
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/compare_substring.hpp"
#include "library/string/manacher.hpp"
#include "library/string/morris_pratt.hpp"
using namespace mon; using namespace suisen;
static std::string gs(Rng& rng, int n) { switch (rng(0, 3)) { case 0: return rng.string(n, 2); case 1: return rng.rep_string(n, 2); case 2: return rng.string(n, 26); default: return rng.rep_string(n, 3); } }
template <class C> static void mp_case(Rng& rng, const C& s, const C& t) {
    int n = s.size(); auto mp = morris_pratt::morris_pratt(s); EQ((int)mp.size(), n + 1); EQ(mp[0], -1);
    auto sub = [](const C& x, int l, int r) { return C(x.begin() + l, x.begin() + r); };
    for (int i = 1; i <= n; ++i) { int b = i - 1; while (sub(s, 0, b) != sub(s, i - b, i)) --b; EQ(mp[i], b); }
    if (n) { std::vector<int> per, full; for (int p = 1; p <= n; ++p) { bool ok = true; for (int i = p; i < n; ++i) ok &= s[i] == s[i - p]; if (ok) { per.push_back(p); if (n % p == 0) full.push_back(p); } }
        EQV(morris_pratt::all_periods(s.begin(), s.end()), per); EQV(morris_pratt::all_periods(s.begin(), s.end(), false), full); REQUIRE(morris_pratt::min_period(s) == sub(s, 0, per[0])); REQUIRE(morris_pratt::min_period(s, false) == sub(s, 0, full[0])); C out; morris_pratt::min_period(s.begin(), s.end(), std::back_inserter(out), false); REQUIRE(out == sub(s, 0, full[0]));
        morris_pratt::MatcherMP<C> m(s); auto chk = [&](const C& u) { std::vector<int> e; for (int i = 0; i + n <= (int)u.size(); ++i) if (sub(u, i, i + n) == s) e.push_back(i); EQV(m(u), e); EQV(m.enumerate_occurences(u), e); }; chk(t); chk(C()); chk(s); C ss = s; ss.insert(ss.end(), s.begin(), s.end()); chk(ss);
        for (int k = 0; k < 2; ++k) { C u = t; u.insert(u.end(), s.begin(), s.end()); for (int j = 0; j < 4; ++j) u.insert(u.end(), s.end() - per[rng(0, std::min<int>(2, per.size() - 1))], s.end()); if (rng.coin()) u[rng(0, u.size() - 1)] = s[0]; chk(u); } } // occurrences overlapping in the borders
}
SCENARIO(morris_pratt, 500) {
    int n = rng.size(0, rng.coin() ? 4 : 25), m = rng.size(0, 40); auto s = gs(rng, n), t = gs(rng, m); if (rng.pct(30)) { for (auto& c : s) if (c == 'a') c = '\0'; for (auto& c : t) if (c == 'a') c = '\0'; } LOG(s, t);
    if (rng.coin()) mp_case(rng, s, t); else mp_case(rng, std::vector<int>(s.begin(), s.end()), std::vector<int>(t.begin(), t.end()));
}
template <class C> static void man_case(const C& s, typename C::value_type dummy) {
    Manacher m(s, dummy); int n = s.size(); for (int i = 0; i < n; ++i) { int r = 0; while (i - r - 1 >= 0 && i + r + 1 < n && s[i - r - 1] == s[i + r + 1]) ++r; EQ(m.odd_length(i), 2 * r + 1); EQ(m[2 * i + 1], 2 * r + 1); } for (int i = 0; i <= n; ++i) { int r = 0; while (i - r - 1 >= 0 && i + r < n && s[i - r - 1] == s[i + r]) ++r; EQ(m.even_length(i), 2 * r); EQ(m[2 * i], 2 * r); }
}
SCENARIO(manacher, 600) { int n = rng.size(0, 50); auto s = gs(rng, n); if (rng.pct(30)) { auto t = s; std::reverse(t.begin(), t.end()); s += t; } LOG(s); if (rng.coin()) man_case(s, rng.coin() ? '$' : 'a'); else man_case(std::vector<i64>(s.begin(), s.end()), -1); }
template <class A, class F> static void ac_case(Rng& rng, A& ac, std::vector<std::string> pats, F conv) {
    auto text = [&] { std::string t; int len = rng.size(0, 40); while ((int)t.size() < len) { if (pats.size() && rng.coin()) t += rng.pick(pats); else t += char('a' + rng(0, 2)); } return t; };
    for (int k = 0; k < 3; ++k) { auto t = text(); int st = ac.init_state(); std::string pre; std::map<int, std::string> longest; for (char c : t) { st = ac.next_state(st, conv(c)); pre += c; int e = 0; std::string best; for (auto& p : pats) { if (p.size() <= pre.size() && pre.compare(pre.size() - p.size(), p.size(), p) == 0) ++e; for (size_t l = p.size(); l > best.size(); --l) if (l <= pre.size() && pre.compare(pre.size() - l, l, p, 0, l) == 0) { best = p.substr(0, l); break; } } EQ(ac.count_suffix_matching(st), e); auto [it, ins] = longest.try_emplace(st, best); REQUIRE(it->second == best, "one state for two different longest suffixes"); } }
}
SCENARIO(aho_corasick, 400) {
    AhoCorasick<char> ac; std::vector<std::string> pats; int rounds = rng(1, 3); for (int r = 0; r < rounds; ++r) { int k = rng.size(0, 6); for (int i = 0; i < k; ++i) { auto p = rng.coin() ? rng.string(rng.size(0, 6), 2) : rng.rep_string(rng.size(1, 9), 3); if (pats.size() && rng.pct(20)) p = rng.pick(pats); LOG("add", p); ac.add(p); pats.push_back(p); } ac.build(); LOG("build"); if (rng.pct(10)) ac.build(); ac_case(rng, ac, pats, [](char c) { return c; }); }
    AhoCorasick<int> ai; for (auto& p : pats) ai.add(std::vector<int>(p.begin(), p.end())); ai.build(); ac_case(rng, ai, pats, [](char c) { return int(c); });
}
SCENARIO(aho_corasick_array, 400) {
    AhoCorasickArray<26, 'a'> ac; AhoCorasickArray<3, 'a'> a3; std::vector<std::string> pats; int k = rng.size(0, 10); std::set<std::string> pre{ "" }; for (int i = 0; i < k; ++i) { auto p = rng.coin() ? rng.string(rng.size(0, 6), 2) : rng.rep_string(rng.size(1, 9), 3); if (pats.size() && rng.pct(20)) p = rng.pick(pats); LOG("add", p); ac.add(p); a3.add(p); pats.push_back(p); for (size_t l = 0; l <= p.size(); ++l) pre.insert(p.substr(0, l)); } ac.build(); a3.build(); EQ(ac.state_num(), (int)pre.size()); ac_case(rng, ac, pats, [](char c) { return int(c); }); ac_case(rng, a3, pats, [](char c) { return int(c); });
}
template <class C, class S> static void cmp_case(Rng& rng, const S& s, const C& c) {
    int n = s.size(); auto sub = [&](int l, int r) { return S(s.begin() + l, s.begin() + r); };
    for (int k = 0; k < 40; ++k) { int l1 = rng(0, n), r1 = rng(l1, n), l2 = rng(0, n), r2 = rng.coin() ? rng(l2, n) : std::min<int>(n, l2 + r1 - l1); if (rng.pct(10)) l2 = l1, r2 = rng(l1, n); auto a = sub(l1, r1), b = sub(l2, r2); int e = a < b ? -1 : a > b ? 1 : 0; int lc = 0; while (lc < (int)a.size() && lc < (int)b.size() && a[lc] == b[lc]) ++lc;
        std::pair<int, int> x{ l1, r1 }, y{ l2, r2 }; EQ(c.lcp(l1, r1, l2, r2), lc); EQ(c.lcp(x, y), lc); auto sg = [](int v) { return (v > 0) - (v < 0); }; EQ(sg(c.compare(l1, r1, l2, r2)), e); EQ(sg(c.compare(x, y)), e); EQ(sg(c(l1, r1, l2, r2)), e); EQ(sg(c(x, y)), e);
        auto u = c.substr(l1, r1), v = c.substr(y); EQ(u.size(), r1 - l1); EQ(u.lcp(v), lc); EQ(sg(u.compare(v)), e); EQ(u == v, a == b); EQ(u != v, a != b); EQ(u < v, a < b); EQ(u <= v, a <= b); EQ(u > v, a > b); EQ(u >= v, a >= b); }
}
SCENARIO(compare_substring, 300) {
    int n = rng.size(1, 40); auto s = gs(rng, n); LOG(s); using C = CompareSubstring<>;
    switch (rng(0, 3)) { case 0: cmp_case(rng, s, C(s)); break; case 1: { std::vector<int> v; for (char c : s) v.push_back(c - 'a'); cmp_case(rng, v, C(v, 25)); } break; case 2: { std::vector<i64> v; for (char c : s) v.push_back(i64(c - 'd') * 1000000000000LL); cmp_case(rng, v, C(v)); } break; default: { auto sa = atcoder::suffix_array(s); cmp_case(rng, s, C(sa, atcoder::lcp_array(s, sa))); } }
    { CompareSubstring<compare_substring_rmq::SegmentTreeRmQ> g(s); cmp_case(rng, s, g); }
}
// the same workloads at realistic sizes
RESCALE(manacher, 4, 512);
RESCALE(compare_substring, 4, 512);
RESCALE(aho_corasick_array, 4, 16);
RESCALE(morris_pratt, 4, 32);
RESCALE(aho_corasick, 4, 8);
