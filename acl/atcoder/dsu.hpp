#pragma once
#include "atcoder/internal_all.hpp"
namespace atcoder {
struct dsu {
public:
    dsu() : _n(0) {}
    explicit dsu(int n) : _n(n), parent_or_size(n, -1) {}
    int merge(int a, int b) {
        assert(0 <= a && a < _n); assert(0 <= b && b < _n);
        int x = leader(a), y = leader(b);
        if (x == y) return x;
        if (-parent_or_size[x] < -parent_or_size[y]) std::swap(x, y);
        parent_or_size[x] += parent_or_size[y];
        parent_or_size[y] = x;
        return x;
    }
    bool same(int a, int b) { assert(0 <= a && a < _n); assert(0 <= b && b < _n); return leader(a) == leader(b); }
    int leader(int a) { assert(0 <= a && a < _n); if (parent_or_size[a] < 0) return a; return parent_or_size[a] = leader(parent_or_size[a]); }
    int size(int a) { assert(0 <= a && a < _n); return -parent_or_size[leader(a)]; }
    std::vector<std::vector<int>> groups() {
        std::vector<std::vector<int>> r(_n), s;
        for (int i = 0; i < _n; i++) r[leader(i)].push_back(i);
        for (auto& v : r) if (!v.empty()) s.push_back(v);
        return s;
    }
private:
    int _n;
    std::vector<int> parent_or_size;
};
}
