#pragma once
#include "atcoder/internal_all.hpp"
namespace atcoder {
namespace internal {
struct scc_graph {
    explicit scc_graph(int n) : _n(n), g(n), rg(n) {}
    int num_vertices() { return _n; }
    void add_edge(int from, int to) { g[from].push_back(to); rg[to].push_back(from); }
    std::pair<int, std::vector<int>> scc_ids() {
        std::vector<int> order, vis(_n, 0), ids(_n, -1);
        for (int s = 0; s < _n; ++s) if (!vis[s]) {
            std::vector<std::pair<int, size_t>> st{ { s, 0 } }; vis[s] = 1;
            while (!st.empty()) { auto& [v, i] = st.back(); if (i < g[v].size()) { int w = g[v][i++]; if (!vis[w]) vis[w] = 1, st.push_back({ w, 0 }); } else order.push_back(v), st.pop_back(); }
        }
        int k = 0;
        for (int idx = _n - 1; idx >= 0; --idx) { int s = order[idx]; if (ids[s] != -1) continue; std::vector<int> st{ s }; ids[s] = k; while (!st.empty()) { int v = st.back(); st.pop_back(); for (int w : rg[v]) if (ids[w] == -1) ids[w] = k, st.push_back(w); } ++k; }
        return { k, ids };
    }
    std::vector<std::vector<int>> scc() { auto [k, ids] = scc_ids(); std::vector<std::vector<int>> r(k); for (int i = 0; i < _n; ++i) r[ids[i]].push_back(i); return r; }
    int _n; std::vector<std::vector<int>> g, rg;
};
}
struct scc_graph {
    scc_graph() : internal(0) {}
    explicit scc_graph(int n) : internal(n) {}
    void add_edge(int from, int to) { int n = internal.num_vertices(); assert(0 <= from && from < n); assert(0 <= to && to < n); internal.add_edge(from, to); }
    std::vector<std::vector<int>> scc() { return internal.scc(); }
private:
    internal::scc_graph internal;
};
}
