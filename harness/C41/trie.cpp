// C41: tries
#include "mon.hpp"
#include "library/string/trie_array.hpp"
#include "library/string/trie_map.hpp"
using namespace mon; using namespace suisen;
struct AN : ArrayTrieNode<3, 'a'> { int cnt = 0; }; struct ANP : ArrayTrieNodeWithParentLink<3, 'a'> { using B = ArrayTrieNodeWithParentLink<3, 'a'>; int cnt = 0; ANP() : B() {} ANP(int p, const int& k) : B(p, k) {} };
struct MN : MapTrieNode<int> { int cnt = 0; }; struct UN : MapTrieNode<int, false> { int cnt = 0; };
template <class T, int off> static void run(Rng& rng, int sigma) {
    T t; if (rng.coin()) t.reserve(rng(0, 100)); std::map<std::string, int> cnt; std::set<std::string> pre{ "" }; std::map<std::string, int> id{ { "", 0 } }; auto key = [](char c) { return int(c) - off; };
    int q = rng.size(1, 30); std::vector<std::string> ws; for (int i = 0; i < q; ++i) {
        std::string w = rng.string(rng.size(0, 8), sigma), base; if (ws.size() && rng.coin()) { auto x = rng.pick(ws); base = x.substr(0, rng(0, x.size())); } LOG(base, w);
        int start = 0; if (rng.pct(30)) start = id.at(base); else { w = base + w; base = ""; }
        auto& nd = rng.coin() ? (start == 0 && rng.coin() ? t.add(w) : t.add(w, start)) : start == 0 && rng.coin() ? t.add(std::vector<int>(w.begin(), w.end())) : t.add(std::vector<int>(w.begin(), w.end()), start); ++nd.cnt; std::string full = base + w; ++cnt[full]; ws.push_back(full); for (size_t l = 0; l <= full.size(); ++l) pre.insert(full.substr(0, l)); EQ(t.nodes.size(), pre.size());
        int cur = 0; for (size_t l = 0; l < full.size(); ++l) { const auto& ct = t; int nx = ct[cur][key(full[l])]; REQUIRE(nx > 0 && nx < (int)t.nodes.size(), nx); cur = nx; id[full.substr(0, l + 1)] = cur; } REQUIRE(&t[cur] == &nd);
    }
    std::set<int> seen; for (auto& p : pre) { const auto& ct = t; int cur = 0; for (char c : p) { cur = ct[cur][key(c)]; REQUIRE(cur != T::none); } REQUIRE(seen.insert(cur).second); EQ(ct[cur].cnt, cnt.count(p) ? cnt[p] : 0); for (int c = 0; c < sigma; ++c) { auto nx = p + char('a' + c); EQ(ct[cur][key('a' + c)] == T::none, !pre.count(nx)); } }
    if constexpr (std::is_same_v<T, ArrayTrie<ANP>>) for (auto& p : pre) if (p.size()) { int cur = 0, par = 0; for (char c : p) par = cur, cur = t[cur][c - 'a']; EQ(t[cur].par, par); EQ(t[cur].key, p.back() - 'a'); }
}
SCENARIO(tries, 400) { switch (rng(0, 3)) { case 0: run<ArrayTrie<AN>, 'a'>(rng, 3); break; case 1: run<ArrayTrie<ANP>, 'a'>(rng, 3); break; case 2: run<MapTrie<MN>, 0>(rng, rng(1, 5)); break; default: run<MapTrie<UN>, 0>(rng, rng(1, 5)); } }
// the same workloads at realistic sizes
RESCALE(tries, 4, 2);
