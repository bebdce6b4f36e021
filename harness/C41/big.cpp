// Automata, substring sets, palindromic trees, runs and tries on texts longer than 2^16.
// MON: shards=4
#include "bigstr.hpp"
#include <atcoder/string>
#include "library/string/suffix_automaton.hpp"
#include "library/string/substring_set.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/run_enumerate.hpp"
#include "library/string/trie_array.hpp"
#include "library/string/trie_map.hpp"
#include <unordered_map>
using namespace suisen; using namespace bigstr; using mon::Rng;
struct SufAr { std::vector<int> sa, h; std::vector<i64> pre; SufAr(const std::string& s) : sa(atcoder::suffix_array(s)), h(1, 0) { for (int x : atcoder::lcp_array(s, sa)) h.push_back(x); int n = (int)s.size(); pre.assign(n + 1, 1); for (int i = 0; i < n; ++i) pre[i + 1] = pre[i] + n - sa[i] - h[i]; } };
static std::string pat(Rng& rng, const std::string& s, int k) { int n = (int)s.size(), m = k % 4 == 0 ? (int)rng.in(1, 5) : k % 4 == 1 ? (int)rng.in(1, n) : k % 4 == 2 ? (int)rng.in(n / 2, n) : (int)rng.in(65530, n), l = rng.pct(25) ? 0 : rng.pct(30) ? n - m : (int)rng.in(0, n - m); auto p = s.substr(l, m); if (rng.pct(20)) p[rng.coin() ? m - 1 : rng.in(0, m - 1)] ^= 1; if (rng.pct(15)) p += char('a' + rng.in(0, 3)); return p; }
SCENARIO(big_suffix_automaton, 8) {
    int st = (int)rng.in(0, STYLES - 1), n = bn(rng); auto s = gen(rng, n, st); LOG("n", n, "style", st); SuffixAutomaton<char> sa(s.substr(0, n - 40)); for (int i = n - 40; i < n; ++i) if (i & 1) sa.append(s[i]); else sa += s[i];
    auto cnt = sa.substring_counter(); auto occ = sa.occurrence_enumerator(); auto fst = sa.first_occurence_searcher(); auto tr = sa.suffix_link_tree(); EQ(tr.size(), (int)sa.nodes.size());
    SufAr S(s); i64 distinct = 0; for (size_t v = 1; v < sa.nodes.size(); ++v) distinct += sa.nodes[v].len - sa.nodes[sa.nodes[v].link].len; EQ(distinct, S.pre[n] - 1); i64 kids = 0; for (int v = 0; v < tr.size(); ++v) kids += (i64)tr[v].size(); EQ(kids, (i64)tr.size() - 1);
    for (int k = 0; k < 16; ++k) { auto p = pat(rng, s, k); int m = (int)p.size(); auto q = zed(p + "$" + s); std::vector<int> w; for (int i = 0; i + m <= n; ++i) if (q[m + 1 + i] == m) w.push_back(i); EQ(sa.accept(p), !w.empty()); EQ(cnt.count(p), (i64)w.size()); EQ(fst.first_occurrence(p), w.empty() ? -1 : w[0]); auto o = occ.enumerate_all_occurrence(p); std::sort(o.begin(), o.end()); EQV(o, w); if (w.empty()) EQ(sa.transition(p, -9), -9); }
    for (int k = 0; k < 3; ++k) { std::string t; while ((int)t.size() < (k ? 70000 : 400)) { int m = (int)(k == 1 ? rng.in(1, 300) : rng.in(1, n)), l = (int)rng.in(0, n - m); t += s.substr(l, m); if (rng.coin()) t += '~'; } int M = (int)t.size(); auto [a, b, l] = sa.longest_common_substring(t); auto u = s + '#' + t; SufAr U(u); int best = 0; for (size_t i = 1; i < U.sa.size(); ++i) if ((U.sa[i - 1] < n) != (U.sa[i] < n)) best = std::max(best, U.h[i]); EQ(l, best); REQUIRE(a >= 0 && b >= 0 && a + l <= n && b + l <= M, a, b, l); REQUIRE(s.compare(a, l, t, b, l) == 0); }
}
SCENARIO(big_substring_set, 8) {
    int st = (int)rng.in(0, STYLES - 1), n = bn(rng); auto s = gen(rng, n, st); LOG("n", n, "style", st); SubstringSet<char> ss(rng.coin() ? s : std::string("xyx")); ss.build(s); SufAr S(s); i64 N = S.pre[n]; EQ(ss.size(), N); EQ((i64)(ss.end() - ss.begin()), N);
    auto kth = [&](i64 k) { if (!k) return std::string(); int i = int(std::upper_bound(S.pre.begin(), S.pre.end(), k) - S.pre.begin()) - 1; return s.substr(S.sa[i], S.h[i] + 1 + (k - S.pre[i])); };
    auto lt = [&](const std::string& t) -> i64 { if (t.empty()) return 0; int lo = 0, hi = n; while (lo < hi) { int m = (lo + hi) / 2; if (s.compare(S.sa[m], n, t) < 0) lo = m + 1; else hi = m; } i64 r = S.pre[lo]; if (lo < n) { int l = 0, x = S.sa[lo]; while (l < (int)t.size() && x + l < n && s[x + l] == t[l]) ++l; r += std::max(0, std::min(l, (int)t.size() - 1) - S.h[lo]); } return r; };
    for (int k = 0; k < 12; ++k) { i64 i = k == 0 ? 0 : k == 1 ? N - 1 : rng.coin() ? rng.in(0, N - 1) : (i64)S.pre[rng.in(0, n)] - 1; REQUIRE(ss[i] == kth(i), i); REQUIRE(*(ss.begin() + i) == kth(i), i); auto r = ss.rbegin(); r += i; REQUIRE(*r == kth(N - 1 - i), i); mon::observe(i); }
    for (int k = 0; k < 12; ++k) { auto t = pat(rng, s, k); bool in = s.find(t) != std::string::npos; i64 a = lt(t), b = a + in; EQ(ss.contains(t), in); EQ(ss.count_lt(t), a); EQ(ss.count_leq(t), b); EQ(ss.count_gt(t), N - b); EQ(ss.count_geq(t), N - a); EQ((i64)(ss.lower_bound(t) - ss.begin()), a); EQ((i64)(ss.upper_bound(t) - ss.begin()), b); if (a < N) REQUIRE(ss.min_geq(t) == kth(a)); if (b < N) REQUIRE(ss.min_gt(t) == kth(b)); if (a) REQUIRE(ss.max_lt(t) == kth(a - 1)); if (b) REQUIRE(ss.max_leq(t) == kth(b - 1)); auto f = ss.find(t); EQ((i64)(f - ss.begin()), in ? a : N); }
}
template <class PT, class Q> static void pt_big(Rng& rng, const std::string& s0, char shift) {
    PT pt; int n = 0; auto run = [&](const std::string& s) {
        n = (int)s.size(); Q v(s.begin(), s.end()); for (auto& c : v) c -= shift; std::vector<int> ret; if (rng.coin()) { ret.assign(n, -1); pt.add_all(v); } else for (auto c : v) ret.push_back(pt.add(c));
        auto r = s; std::reverse(r.begin(), r.end()); Lce a(s), b(r); i64 total = 0; std::vector<int> far(2 * n + 1); for (int c = 0; c < 2 * n - 1; ++c) { int i = (c + 1) / 2, j = c / 2 + 1, lo = 0, hi = std::min(i, n - j); while (lo < hi) { int m = (lo + hi + 1) / 2; if (a.get(j, j + m) == b.get(n - i, n - i + m)) lo = m; else hi = m - 1; } far[c] = j + lo; total += lo + (c % 2 == 0); }
        // longest palindromic suffix of every prefix: least centre reaching it
        std::unordered_map<u64, int> first; std::vector<int> len(n + 1), nd(n + 1); int c = 0, fresh = 2; std::vector<int> at(2, -1); for (int e = 1; e <= n; ++e) { while (far[c] < e) ++c; len[e] = 2 * (e - 1) - c + 1; u64 hh = a.get(e - len[e], e) ^ ((u64)len[e] << 40); auto [it, ins] = first.try_emplace(hh, fresh); if (ins) at.push_back(e), ++fresh; nd[e] = it->second; }
        EQ(pt.node_num(), fresh); std::vector<int> mult(fresh); for (int e = 1; e <= n; ++e) { ++mult[nd[e]]; if (ret[e - 1] >= 0) EQ(ret[e - 1], nd[e]); } auto par = pt.parents(); auto fr = pt.frequency_table(); i64 sum = 0;
        for (int i = 2; i < fresh; ++i) { int e = at[i], l = len[e]; EQ(pt.length(i), l); EQ(pt.first_occurence(i), e - l); EQ(pt.node_multiplicity(i), mult[i]); sum += fr[i]; if (l <= 2) EQ(par[i], 2 - l ? 0 : 1); else { EQ(pt.length(par[i]), l - 2); int pf = pt.first_occurence(par[i]); REQUIRE(a.get(pf, pf + l - 2) == a.get(e - l + 1, e - 1), i); } int sl = pt.suffix_link(i), k = pt.length(sl); REQUIRE(sl >= 1 && sl < i && k < l && k >= (l > 1 ? 1 : 0), i, sl); int sf = pt.first_occurence(sl); REQUIRE(a.get(sf, sf + k) == a.get(e - k, e), i, sl); }
        EQ(sum, total); for (int k = 0; k < 6 && fresh > 2; ++k) { int i = k == 0 ? fresh - 1 : (int)rng.in(2, fresh - 1); auto p = s.substr(at[i] - len[at[i]], len[at[i]]); auto q = zed(p + "$" + s); int w = 0; for (size_t x = p.size() + 1; x < q.size(); ++x) w += q[x] == (int)p.size(); EQ(fr[i], w); auto g = pt.get_palindrome(i); std::string gg; for (auto ch : g) gg += char(ch + shift); REQUIRE(gg == p, i); } };
    run(s0); pt.clear(); if (rng.coin()) pt.shrink_to_fit(); run(gen(rng, (int)rng.in(1000, 70000), (int)rng.in(0, STYLES - 1)));
}
SCENARIO(big_palindromic_tree, 11) {
    int st = (int)rng.in(0, STYLES + 2), n = bn(rng); std::string s; if (st < STYLES) s = gen(rng, n, st); else if (st == STYLES + 2) { for (int i = 0; i < 200000; ++i) s += "abc"[i % 3]; } else { s = gen(rng, n / 2, rng.coin() ? 5 : 6); auto t = s; std::reverse(t.begin(), t.end()); s += t; if (st > STYLES) s += s; } LOG("n", n, "style", st);
    switch (rng.in(0, 3)) { case 0: pt_big<PalindromicTree<int>, std::vector<int>>(rng, s, 0); break; case 1: pt_big<PalindromicTreeVec<int>, std::vector<int>>(rng, s, 'a'); break; case 2: pt_big<PalindromicTreeArr<char, 26, std::string>, std::string>(rng, s, 'a'); break; default: pt_big<PalindromicTree<char, std::string>, std::string>(rng, s, 0); }
}
SCENARIO(big_runs, 11) {
    int st = (int)rng.in(0, STYLES + 2), n = bn(rng); std::string s; if (st < STYLES) s = gen(rng, n, st); else { n = (int)rng.in(140000, 200000); int p = (int)rng.in(n / 8, n / 4), m = n / 2; for (int i = 0; i < n; ++i) s += i < p ? char('a' + rng.in(0, 1)) : s[i - p]; int d = (int)rng.in(p / 2, p - 1); s[rng.coin() ? m + d : m - d] = 'x'; } if (st < STYLES && rng.pct(30)) for (int k = 0; k < 3; ++k) s[rng.in(0, n - 1)] = 'd'; LOG("n", n, "style", st); Lce h(s); std::vector<std::array<int, 3>> w; for (int o = 0; o < 2; ++o) { std::vector<int> ly(n); for (int i = n; i-- > 0;) { int j = i + 1; while (j < n) { int k = h.lcp(i, j); if (j + k == n || (s[i + k] < s[j + k]) == (o == 1)) break; j = ly[j]; } ly[i] = j; int p = j - i, L = i - h.lcs(i, j), R = j + (j < n ? h.lcp(i, j) : 0); if (R - L >= 2 * p) w.push_back({ L, R, p }); } }
    std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); auto keep = s; auto g = run_enumerate(s); REQUIRE(s == keep); std::vector<std::array<int, 3>> gv; for (auto& r : g) gv.push_back({ r.l, r.r, r.period }); EQ(gv.size(), w.size()); for (size_t i = 0; i < w.size(); ++i) REQUIRE(gv[i] == w[i], i, gv[i][0], gv[i][1], gv[i][2], w[i][0], w[i][1], w[i][2]); std::vector<i64> v(s.begin(), s.end()); for (auto& x : v) x <<= 34; auto g2 = run_enumerate(v); REQUIRE(g2 == g);
}
struct AN : ArrayTrieNode<26, 'a'> { int cnt = 0; }; struct ANP : ArrayTrieNodeWithParentLink<26, 'a'> { using B = ArrayTrieNodeWithParentLink<26, 'a'>; int cnt = 0; ANP() : B() {} ANP(int p, const int& k) : B(p, k) {} }; struct MN : MapTrieNode<int> { int cnt = 0; }; struct UN : MapTrieNode<int, false> { int cnt = 0; };
template <class T, int off> static void trie_big(Rng& rng, int st) {
    T t; if (rng.coin()) t.reserve((int)rng.in(1, 200000)); int n = bn(rng); auto s = gen(rng, n, st); std::vector<std::string> ws{ s, s.substr(0, (size_t)rng.in(1, n)), s.substr(0, n / 2) + "q", gen(rng, n / 2, 6), gen(rng, n, 5) }; for (int k = 0; k < 4000; ++k) { int l = (int)rng.in(0, n - 20); ws.push_back(s.substr(l, (size_t)rng.in(1, 20))); } rng.shuffle(ws); std::unordered_map<u64, std::pair<int, int>> w; w[0] = { 0, 0 }; int fresh = 1; const T& ct = t; // prefix hash -> node id (creation order), count
    for (auto& x : ws) { auto& nd = t.add(x); ++nd.cnt; Lce h(x); int cur = 0; for (int i = 1; i <= (int)x.size(); ++i) { auto [it, ins] = w.try_emplace(h.get(0, i) ^ ((u64)i << 40), fresh, 0); fresh += ins; int nx = ct[cur][int(x[i - 1]) - off]; EQ(nx, it->second.first); if constexpr (std::is_same_v<T, ArrayTrie<ANP>>) { EQ(ct[nx].par, cur); EQ(ct[nx].key, x[i - 1] - off); } cur = nx; if (i == (int)x.size()) ++it->second.second; } REQUIRE(&t[cur] == &nd); EQ((int)t.nodes.size(), fresh); }
    std::vector<int> c(fresh); for (auto& [k, v] : w) c[v.first] = v.second; for (int i = 0; i < fresh; ++i) EQ(ct[i].cnt, c[i]);
}
SCENARIO(big_tries, 8) { int st = (int)rng.in(0, 15); LOG("style", st); switch (st % 4) { case 0: trie_big<ArrayTrie<AN>, 'a'>(rng, st / 2); break; case 1: trie_big<ArrayTrie<ANP>, 'a'>(rng, st / 2); break; case 2: trie_big<MapTrie<MN>, 0>(rng, st / 2); break; default: trie_big<MapTrie<UN>, 0>(rng, st / 2); } }
