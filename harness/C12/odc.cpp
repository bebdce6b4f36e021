// MON: shards=2
#include "mon.hpp"
#include <algorithm>
#include <cassert>
#include <set>
#include <variant>
#include "library/algorithm/offline_dynamic_connectivity.hpp"
#include "library/algorithm/offline_dynamic_connectivity_component_sum.hpp"
using namespace suisen; using mon::Rng;
namespace {
struct Acc { std::vector<std::multiset<int>> st; };
void mg(Acc& a, const Acc& b) { auto t = a.st.back(); for (int x : b.st.back()) t.insert(x); a.st.push_back(t); }
void ud(Acc& a) { a.st.pop_back(); }
std::vector<int> gv(const Acc& a) { return std::vector<int>(a.st.back().begin(), a.st.back().end()); }
}
SCENARIO(offline_dynamic_connectivity, 600) {
    int n = rng.size(1, 14), q = rng.size(0, 60); OfflineDynamicConnectivity c(n); OfflineDynamicConnectivityComponentSum s; std::vector<std::pair<int, int>> act; std::vector<bool> w; std::vector<std::variant<bool, std::vector<int>>> w2; std::vector<Acc> init(n); for (auto& a : init) a.st.push_back({ (int)rng(0, 9) });
    auto comp = [&](int u) { std::vector<char> v(n); std::vector<int> st{ u }; v[u] = 1; while (st.size()) { int x = st.back(); st.pop_back(); for (auto [a, b] : act) for (int k = 0; k < 2; ++k, std::swap(a, b)) if (a == x && !v[b]) v[b] = 1, st.push_back(b); } return v; };
    for (int t = 0; t < q; ++t) {
        int u = rng(0, n - 1), v = rng(0, n - 1);
        switch (rng(0, 4)) {
        case 0: case 1: c.add_query(u, v); s.add_query(u, v); act.emplace_back(u, v); break;
        case 2: if (act.size()) { int i = rng(0, (int)act.size() - 1); auto [a, b] = act[i]; if (rng.coin()) std::swap(a, b); c.del_query(a, b); s.del_query(a, b); act.erase(act.begin() + i); } break;
        case 3: { bool r = comp(u)[v]; c.connectivity_query(u, v); s.connectivity_query(u, v); w.push_back(r); w2.emplace_back(r); break; }
        default: { s.component_sum_query(u); auto r = comp(u); std::vector<int> m; for (int i = 0; i < n; ++i) if (r[i]) m.push_back(*init[i].st[0].begin()); std::sort(m.begin(), m.end()); w2.emplace_back(m); }
        }
    }
    EQV(c.answer(), w); EQV(c.answer(), w); auto g = s.answer<Acc, mg, ud, std::vector<int>, gv>(init); EQ(g.size(), w2.size()); for (size_t i = 0; i < g.size(); ++i) { EQ(g[i].index(), w2[i].index()); REQUIRE(g[i] == w2[i], "wrong answer for query", i); }
}
// the same workloads at realistic sizes
RESCALE(offline_dynamic_connectivity, 4, 64);
