#pragma once
#include "atcoder/internal_all.hpp"
namespace atcoder {
template <class Cap> struct mf_graph {
public:
    mf_graph() : _n(0) {}
    explicit mf_graph(int n) : _n(n), g(n) {}
    int add_edge(int from, int to, Cap cap) {
        assert(0 <= from && from < _n); assert(0 <= to && to < _n); assert(0 <= cap);
        int m = int(pos.size());
        pos.push_back({ from, int(g[from].size()) });
        int from_id = int(g[from].size()), to_id = int(g[to].size());
        if (from == to) to_id++;
        g[from].push_back(_edge{ to, to_id, cap }); g[to].push_back(_edge{ from, from_id, 0 });
        return m;
    }
    struct edge { int from, to; Cap cap, flow; };
    edge get_edge(int i) { auto _e = g[pos[i].first][pos[i].second]; auto _re = g[_e.to][_e.rev]; return edge{ pos[i].first, _e.to, _e.cap + _re.cap, _re.cap }; }
    std::vector<edge> edges() { std::vector<edge> r; for (int i = 0; i < (int)pos.size(); i++) r.push_back(get_edge(i)); return r; }
    void change_edge(int i, Cap new_cap, Cap new_flow) { auto& _e = g[pos[i].first][pos[i].second]; auto& _re = g[_e.to][_e.rev]; _e.cap = new_cap - new_flow; _re.cap = new_flow; }
    Cap flow(int s, int t) { return flow(s, t, std::numeric_limits<Cap>::max()); }
    Cap flow(int s, int t, Cap flow_limit) {
        Cap flow = 0;
        while (flow < flow_limit) {
            std::vector<int> pv(_n, -1), pe(_n, -1); std::queue<int> q; q.push(s); pv[s] = s;
            while (!q.empty() && pv[t] == -1) { int v = q.front(); q.pop(); for (int i = 0; i < (int)g[v].size(); ++i) { auto& e = g[v][i]; if (e.cap > 0 && pv[e.to] == -1) pv[e.to] = v, pe[e.to] = i, q.push(e.to); } }
            if (pv[t] == -1) break;
            Cap f = flow_limit - flow;
            for (int v = t; v != s; v = pv[v]) f = std::min(f, g[pv[v]][pe[v]].cap);
            for (int v = t; v != s; v = pv[v]) { auto& e = g[pv[v]][pe[v]]; e.cap -= f; g[e.to][e.rev].cap += f; }
            flow += f;
        }
        return flow;
    }
    std::vector<bool> min_cut(int s) {
        std::vector<bool> vis(_n); std::queue<int> q; q.push(s); vis[s] = true;
        while (!q.empty()) { int p = q.front(); q.pop(); for (auto& e : g[p]) if (e.cap && !vis[e.to]) vis[e.to] = true, q.push(e.to); }
        return vis;
    }
private:
    int _n;
    struct _edge { int to, rev; Cap cap; };
    std::vector<std::pair<int, int>> pos;
    std::vector<std::vector<_edge>> g;
};
}
