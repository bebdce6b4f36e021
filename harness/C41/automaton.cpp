// C41: suffix automaton, substring set, palindromic tree, runs
#include "mon.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/substring_set.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/run_enumerate.hpp"
using namespace mon; using namespace suisen;
static std::string gs(Rng& rng, int n) { switch (rng(0, 3)) { case 0: return rng.string(n, 2); case 1: return rng.rep_string(n, 2); case 2: return rng.string(n, 26); default: return rng.rep_string(n, 3); } }
template <class Q> static Q pat(Rng& rng, const Q& s) { int n = s.size(); if (rng.pct(70)) { int l = rng(0, n), r = rng(l, std::min<int>(n, l + 8)); Q t(s.begin() + l, s.begin() + r); if (t.size() && rng.pct(25)) t[rng(0, t.size() - 1)] = 'a' + rng(0, 2); if (rng.pct(20)) t.push_back('a' + rng(0, 2)); return t; } auto x = rng.string(rng.size(0, 4), 3); return Q(x.begin(), x.end()); }
template <class SA, class Q> static void sa_check(Rng& rng, const SA& sa, const Q& s) {
    int n = s.size(); auto cnt = sa.substring_counter(); auto occ = sa.occurrence_enumerator(); auto fst = sa.first_occurence_searcher(); auto t = sa.suffix_link_tree(); EQ((int)t.size(), (int)sa.nodes.size()); REQUIRE((int)sa.nodes.size() <= std::max(1, 2 * n));
    for (int k = 0; k < 25; ++k) { Q p = pat(rng, s); std::vector<int> e; for (int i = 0; i + (int)p.size() <= n; ++i) if (std::equal(p.begin(), p.end(), s.begin() + i)) e.push_back(i); EQ(sa.accept(p), !e.empty()); EQ(cnt.count(p), (i64)e.size()); auto g = occ.enumerate_all_occurrence(p); std::sort(g.begin(), g.end()); EQV(g, e); EQ(fst.first_occurrence(p), e.empty() ? -1 : e[0]); if (e.empty()) EQ(sa.transition(p, -7), -7); }
    // every distinct substring is one path; states partition substrings by end positions
    std::map<Q, std::vector<int>> ends; for (int i = 0; i <= n; ++i) for (int j = i; j <= n && n <= 25; ++j) ends[Q(s.begin() + i, s.begin() + j)].push_back(j); std::map<std::vector<int>, int> cls; for (auto& [w, e] : ends) if (w.size()) { int st = sa.transition(w); auto [it, ins] = cls.try_emplace(e, st); EQ(it->second, st); }
    if (n <= 25) EQ(cls.size() + 1, sa.nodes.size());
    auto ord = sa.topological_order(); std::vector<int> pos(ord.size()); for (size_t i = 0; i < ord.size(); ++i) pos[ord[i]] = i; for (size_t u = 0; u < sa.nodes.size(); ++u) for (auto& [c, v] : sa.nodes[u].nxt) REQUIRE(pos[u] < pos[v]); auto rv = sa.topological_order(true); std::reverse(rv.begin(), rv.end()); EQV(rv, ord);
    int tot = 0; for (int i = 0; i < t.size(); ++i) for (int v : t[i]) { EQ(sa.nodes[v].link, i); ++tot; } EQ(tot, t.size() - 1);
    for (int k = 0; k < 6; ++k) { Q q; int m = rng.size(0, 25); while ((int)q.size() < m) { auto p = pat(rng, s); q.insert(q.end(), p.begin(), p.end()); if (p.empty()) q.push_back('a' + rng(0, 3)); } auto [a, b, l] = sa.longest_common_substring(q); int best = 0; int M = q.size(); for (int i = 0; i < n; ++i) for (int j = 0; j < M; ++j) { int z = 0; while (i + z < n && j + z < M && s[i + z] == q[j + z]) ++z; best = std::max(best, z); } EQ(l, best); REQUIRE(a >= 0 && a + l <= n && b >= 0 && b + l <= M, a, b, l); REQUIRE(std::equal(s.begin() + a, s.begin() + a + l, q.begin() + b)); }
}
SCENARIO(suffix_automaton, 250) {
    int n = rng.size(0, rng.coin() ? 15 : 60); auto s = gs(rng, n); LOG(s);
    if (rng.coin()) { SuffixAutomaton<char> sa(s); sa_check(rng, sa, s); for (int k = rng(0, 3); k > 0; --k) { char c = char('a' + rng(0, 2)); if (rng.coin()) sa.append(c); else sa += c; s += c; LOG("append", c); } sa_check(rng, sa, s); }
    else { std::vector<i64> v(s.begin(), s.end()); SuffixAutomaton sa(v); sa_check(rng, sa, v); }
}
template <class SS, class Q> static void ss_check(Rng& rng, const SS& st, const Q& s) {
    int n = s.size(); std::set<Q> S; for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) S.insert(Q(s.begin() + i, s.begin() + j)); std::vector<Q> L(S.begin(), S.end()); i64 N = L.size(); EQ(st.size(), N);
    for (int k = 0; k < 25; ++k) { i64 i = rng(0, N - 1); REQUIRE(st[i] == L[i], i); REQUIRE(st.kth_element(i) == L[i]); }
    for (int k = 0; k < 25; ++k) { Q t = pat(rng, s); i64 lt = std::lower_bound(L.begin(), L.end(), t) - L.begin(), le = std::upper_bound(L.begin(), L.end(), t) - L.begin(); EQ(st.contains(t), lt != le); EQ(st.count_lt(t), lt); EQ(st.count_leq(t), le); EQ(st.count_gt(t), N - le); EQ(st.count_geq(t), N - lt); if (lt < N) REQUIRE(st.min_geq(t) == L[lt]); if (le < N) REQUIRE(st.min_gt(t) == L[le]); if (lt) REQUIRE(st.max_lt(t) == L[lt - 1]); if (le) REQUIRE(st.max_leq(t) == L[le - 1]);
        Q u = pat(rng, s); i64 ult = std::lower_bound(L.begin(), L.end(), u) - L.begin(); if (t < u && !S.count(u)) EQ(st.count_range(t, u), ult - lt); if (u < t) EQ(st.count_range(t, u), 0);
        EQ(st.lower_bound(t) - st.begin(), lt); EQ(st.upper_bound(t) - st.begin(), le); auto f = st.find(t); if (lt == le) REQUIRE(f == st.end()); else { REQUIRE(f != st.end()); REQUIRE(*f == t); EQ(f - st.begin(), lt); } }
    i64 i = 0; for (auto it = st.begin(); it != st.end(); ++it, ++i) REQUIRE(*it == L[i], i); EQ(i, N); i = N; for (auto it = st.rbegin(); it != st.rend(); ++it) REQUIRE(*it == L[--i], i); EQ(i, 0); i = 0; for (auto it = st.cbegin(); it < st.cend(); it += 3, i += 3) { REQUIRE(*it == L[i]); if (i) { --it; REQUIRE(*it == L[i - 1]); ++it; auto b = it - 1; REQUIRE(*b == L[i - 1]); REQUIRE(b < it && b <= it && it > b && it >= b && it <= it && it >= it && !(it < it) && !(it > it) && !(it < b) && !(it <= b) && !(b > it) && !(b >= it)); auto c = b + 1; REQUIRE(c == it); } }
}
SCENARIO(substring_set, 250) {
    int n = rng.size(0, rng.coin() ? 8 : 22); auto s = gs(rng, n); LOG(s);
    if (rng.coin()) { SubstringSet<char> st(s); ss_check(rng, st, s); if (rng.coin()) { auto t = gs(rng, rng.size(0, 20)); LOG("rebuild", t); st.build(t); ss_check(rng, st, t); } } else { std::vector<int> v(s.begin(), s.end()); SubstringSet st(v); ss_check(rng, st, v); SubstringSet<int> em; EQ(em.size(), 1); auto u = gs(rng, rng.size(0, 12)); SubstringSet<int> su(std::vector<int>(u.begin(), u.end())); auto ix = em.begin(), iy = st.begin(); iy = st.end(); ix = iy; --ix; REQUIRE(*ix == st.kth_element(st.size() - 1)); ix = su.begin(); ix += su.size() - 1; REQUIRE(*ix == su.kth_element(su.size() - 1)); }
}
// more than 2^32 distinct substrings: a permutation has n(n+1)/2+1 of them and ranks have a closed form
SCENARIO(substring_set_huge, 1) {
    const int n = 95000; std::vector<int> a(n), pos(n); for (int i = 0; i < n; ++i) a[i] = i; rng.shuffle(a); for (int i = 0; i < n; ++i) pos[a[i]] = i; LOG(n);
    SubstringSet<int> st(a); i64 N = i64(n) * (n + 1) / 2 + 1; EQ(st.size(), N); EQ(i64(st.end() - st.begin()), N);
    std::vector<i64> first(n + 1); first[0] = 1; for (int c = 0; c < n; ++c) first[c + 1] = first[c] + (n - pos[c]);
    for (int k = 0; k < 12; ++k) { int c = k < 4 ? n - 1 - int(rng(0, 50)) : (int)rng(0, n - 1), len = 1 + (int)rng(0, std::min(n - pos[c] - 1, k % 2 ? 300 : n)); std::vector<int> t(a.begin() + pos[c], a.begin() + pos[c] + len); i64 r = first[c] + len - 1;
        REQUIRE(st[r] == t, c, len, r); EQ(st.count_lt(t), r); EQ(st.count_leq(t), r + 1); EQ(st.count_gt(t), N - r - 1); EQ(st.count_geq(t), N - r); auto it = st.lower_bound(t); EQ(i64(it - st.begin()), r); REQUIRE(*it == t); auto f = st.find(t); EQ(i64(f - st.begin()), r); auto rb = st.rbegin(); rb += N - 1 - r; REQUIRE(*rb == t); }
}
template <class PT, class Q> static void pt_check(Rng& rng, PT& pt, const Q& s, const std::vector<int>& ret) {
    int n = s.size(); auto sub = [&](int l, int r) { return Q(s.begin() + l, s.begin() + r); }; auto pal = [&](const Q& q) { return std::equal(q.begin(), q.end(), q.rbegin()); }; std::map<Q, std::vector<int>> occ; for (int i = 0; i < n; ++i) for (int j = i + 1; j <= n; ++j) { Q q = sub(i, j); if (pal(q)) occ[q].push_back(i); }
    EQ(pt.node_num(), (int)occ.size() + 2); auto fr = pt.frequency_table(); auto par = pt.parents(); std::map<Q, int> id; EQ(pt.length(0), -1); EQ(pt.length(1), 0); REQUIRE(pt.get_palindrome(0).empty()); REQUIRE(pt.get_palindrome(1).empty());
    for (int i = 2; i < pt.node_num(); ++i) { Q q = pt.get_palindrome(i); REQUIRE(occ.count(q), i); REQUIRE(id.emplace(q, i).second, "palindrome listed twice"); EQ(pt.length(i), (int)q.size()); EQ(pt.first_occurence(i), occ[q][0]); EQ(fr[i], (int)occ[q].size()); }
    std::vector<int> mult(pt.node_num()); for (int r : ret) ++mult[r];
    for (int i = 2; i < pt.node_num(); ++i) { Q q = pt.get_palindrome(i); int l = q.size(); int e = -1; for (int k = l - 1; k > 0; --k) { Q x(q.end() - k, q.end()); if (pal(x)) { e = id.at(x); break; } } EQ(pt.suffix_link(i), e == -1 ? 1 : e); EQ(pt.node_multiplicity(i), mult[i]); EQ(par[i], l == 1 ? 0 : l == 2 ? 1 : id.at(Q(q.begin() + 1, q.end() - 1))); }
    for (int i = 0; i < n; ++i) { int l = 0; while (!pal(sub(l, i + 1))) ++l; EQ(ret[i], id.at(sub(l, i + 1))); }
}
template <class PT, class Q> static void pt_case(Rng& rng, Q s, typename Q::value_type shift) {
    for (auto& c : s) c -= shift; PT pt; std::vector<int> ret; for (auto c : s) ret.push_back(pt.add(c)); pt_check(rng, pt, s, ret);
    if (rng.coin()) { pt.clear(); pt.shrink_to_fit(); auto t0 = gs(rng, rng.size(0, 20)); Q t(t0.begin(), t0.end()); LOG("clear", t0); for (auto& c : t) c -= shift; ret.clear(); for (auto c : t) ret.push_back(pt.add(c)); pt_check(rng, pt, t, ret); }
    PT p2(s); EQ(p2.node_num() >= 2, true); p2.add_all(s); PT p3; for (int k = 0; k < 2; ++k) for (auto c : s) p3.add(c); EQ(p2.node_num(), p3.node_num()); EQV(p2.frequency_table(), p3.frequency_table());
}
SCENARIO(palindromic_tree, 400) {
    int n = rng.size(0, 40); auto s = gs(rng, n); if (rng.pct(40)) { auto t = s; std::reverse(t.begin(), t.end()); s += t; } LOG(s); std::vector<int> v(s.begin(), s.end());
    switch (rng(0, 5)) { case 0: pt_case<PalindromicTree<int>>(rng, v, 0); break; case 1: pt_case<PalindromicTree<char, std::string>>(rng, s, 0); break; case 2: pt_case<PalindromicTreeVec<int>>(rng, v, 'a'); break; case 3: pt_case<PalindromicTreeArr<int, 26>>(rng, v, 'a'); break; case 4: pt_case<PalindromicTreeVec<char, std::string>>(rng, s, 'a'); break; default: pt_case<PalindromicTreeArr<char, 128, std::string>>(rng, s, 0); }
}
SCENARIO(palindromic_tree_many_nodes, 6) { int n = rng.size(150, 260); auto s = rng.coin() ? std::string(n, 'a') : rng.rep_string(n, 2); LOG(s); std::vector<int> v(s.begin(), s.end()); switch (rng(0, 2)) { case 0: pt_case<PalindromicTreeVec<char, std::string>>(rng, s, 'a'); break; case 1: pt_case<PalindromicTreeArr<char, 3, std::string>>(rng, s, 'a'); break; default: pt_case<PalindromicTree<int>>(rng, v, 0); } }
template <class C> static void runs_case(C s) {
    int n = s.size(); std::vector<std::array<int, 3>> e; for (int p = 1; 2 * p <= n; ++p) for (int l = 0; l + 2 * p <= n;) { int r = l + p; while (r < n && s[r] == s[r - p]) ++r; if (r - l >= 2 * p && (l == 0 || s[l - 1] != s[l + p - 1])) { bool prim = true; for (int q = 1; q < p && prim; ++q) { bool ok = true; for (int i = l + q; i < r; ++i) ok &= s[i] == s[i - q]; if (ok) prim = false; } if (prim) e.push_back({ l, r, p }); } l = std::max(l + 1, r - p + 1); }
    std::sort(e.begin(), e.end()); C keep = s; auto g = run_enumerate(s); REQUIRE(s == keep); std::vector<std::array<int, 3>> gv; for (auto& r : g) gv.push_back({ r.l, r.r, r.period }); std::sort(gv.begin(), gv.end()); EQ(gv.size(), e.size()); for (size_t i = 0; i < e.size(); ++i) REQUIRE(gv[i] == e[i], i, gv[i][0], gv[i][1], gv[i][2], e[i][0], e[i][1], e[i][2]);
}
SCENARIO(runs, 800) { int n = rng.size(0, rng.coin() ? 12 : 70); auto s = gs(rng, n); LOG(s); if (rng.coin()) runs_case(s); else runs_case(std::vector<int>(s.begin(), s.end())); }
SCENARIO(run_order, 20) { for (int k = 0; k < 20; ++k) { Run a(rng(1, 3), rng(0, 2), rng(0, 2)), b(rng(1, 3), rng(0, 2), rng(0, 2)); auto x = std::make_tuple(a.period, a.l, a.r), y = std::make_tuple(b.period, b.l, b.r); EQ(a < b, x < y); EQ(a <= b, x <= y); EQ(a > b, x > y); EQ(a >= b, x >= y); EQ(a == b, x == y); EQ(a != b, x != y); } }
// the same workloads at realistic sizes
RESCALE(substring_set, 4, 16);
RESCALE(suffix_automaton, 4, 64);
RESCALE(runs, 4, 256);
RESCALE(palindromic_tree, 4, 16);
