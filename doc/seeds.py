# planted bugs: S(id, property, file, old, new, needs, breaks, demo program)
S("C01-weighted-swap", "C01", "library/datastructure/union_find/weighted_union_find.hpp",
  "                    rd = neg(std::move(rd));\n", "                    if (siz[y] > 1 or siz[x] > 2) rd = neg(std::move(rd));\n",
  "a merge of a small component into a larger one given in the 'wrong' order with non-zero distance, small size <= 2 after swap of a 2-vertex component",
  "potentials recorded with the wrong sign when the smaller component is named first and has one vertex merged into a pair",
  r'''
#include "library/datastructure/union_find/weighted_union_find.hpp"
int main() {
    suisen::WeightedUnionFind<long long> uf(4);
    uf.merge(0, 1, 5);          // v1 = v0 + 5
    uf.merge(2, 0, 7);          // v0 = v2 + 7
    return uf.diff(2, 1) == 12 ? 0 : 1;
}
''')
S("C02-fset-maxleq", "C02", "library/datastructure/fenwick_tree/fenwick_tree_set.hpp",
  "                if (_bs[t - i]) return ((t - i) << LOG_WORD) | top_setbit(_bs[t - i]);",
  "                if (_bs[t - i]) return ((t - i) << LOG_WORD) | top_setbit(_bs[t - i] & (~uint64_t(0) >> (u == 0)));",
  "a predecessor query at a multiple of 64 whose answer is the last element of the previous word",
  "max_leq skips the element v-1 when v is a multiple of 64 that is not in the set",
  r'''
#include <algorithm>
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
int main() {
    suisen::fenwick_tree_set s(200);
    s.insert(3), s.insert(60), s.insert(63), s.insert(130);
    return s.max_leq(64) == 63 && s.max_leq(63) == 63 && s.max_leq(65) == 63 ? 0 : 1;
}
''')

S("C03-lazy-minleft", "C03", "library/datastructure/segment_tree/lazy_segment_tree.hpp",
  "                        if (g(op(data[r], sum))) sum = op(data[r--], sum);", "                        if (g(op(data[r], sum))) sum = op(sum, data[r--]);",
  "min_left with a non-commutative product where the descent accepts a right child after something was already accumulated",
  "min_left multiplies in the wrong order during its descent and returns a wrong boundary",
  r"""
#include <algorithm>
#include <string>
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
using S = std::string;
S op(S a, S b) { return a + b; } S e() { return ""; }
S mp(int, S x) { return x; } int comp(int, int) { return 0; } int id() { return 0; }
int main() {
    S s = "abcdefghijklmnop"; std::vector<S> v; for (char c : s) v.push_back(S(1, c));
    suisen::LazySegmentTree<S, op, e, int, mp, comp, id> t(v);
    for (int r = 0; r <= 16; ++r) for (int l = 0; l <= r; ++l) {
        int got = t.min_left(r, [&](S x) { return (int)x.size() <= r - l && s.substr(r - x.size(), x.size()) == x; });
        if (got != l) return 1;
    }
    return 0;
}
""")
S("C04-prb-apply-leaf", "C04", "library/datastructure/bbst/red_black_lazy_segment_tree.hpp",
  "            node = base_type::clone(node);\n            node->_val = mapping(", "            if (base_type::size(node) > 1) node = base_type::clone(node);\n            node->_val = mapping(",
  "a range update that reaches a single leaf shared with an older version, followed by a read of the older version",
  "an update of one element writes through to older versions",
  r"""
#include "library/datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp"
int op(int a, int b) { return a + b; } int e() { return 0; } int mp(int f, int x, int n) { return x + f * n; } int comp(int f, int g) { return f + g; } int id() { return 0; }
int main() {
    using N = suisen::bbst::lazy_segtree::PersistentRedBlackTreeNode<int, op, e, int, mp, comp, id>; N::init_pool(10000);
    std::vector<int> a{ 1, 2, 3, 4, 5, 6, 7 };
    auto t = N::build(a);
    for (int i = 0; i < 7; ++i) N::apply(t, i, i + 1, 100);
    for (int i = 0; i < 7; ++i) { auto [u, x] = N::prod(t, i, i + 1); if (x != a[i]) return 1; }
    return 0;
}
""")
S("C05-treap-insert-next", "C05", "library/datastructure/bbst/implicit_treap_base.hpp",
  "                        if (is_not_null(tr)) link(new_node, min(tr));", "                        if (is_not_null(tr)) link(new_node, is_null(tl) ? tr : min(tr));",
  "an insertion at the left end of a subtree whose priority loses to the new node and whose root is not its leftmost node, then iteration by the next pointer",
  "iterators skip elements after such an insertion although the sequence itself is stored correctly",
  r"""
#include <cstdlib>
#include <vector>
#include "library/datastructure/bbst/implicit_treap.hpp"
int main() {
    suisen::DynamicArray<int> a; std::vector<int> m; unsigned s = 12345;
    for (int q = 0; q < 3000; ++q) {
        s = s * 1103515245u + 12345u; int k = (s >> 8) % (m.size() + 1); if (q % 3 == 0) k = 0;
        a.insert(k, q), m.insert(m.begin() + k, q);
        if (q % 50 == 0) {
            auto it = a.begin(); size_t i = 0;
            for (; it != a.end(); ++it, ++i) if (i >= m.size() || *it != m[i]) return 1;
            if (i != m.size()) return 1;
        }
    }
    return 0;
}
""")
S("C06-map-insert-existing", "C06", "library/datastructure/splay_tree_map.hpp",
  "        if (r != nullptr and r->key == key) {\n            if (overwrite) {", "        if (r != nullptr and r->key == key) {\n            if (overwrite or r->ch[1] == nullptr) {",
  "a non-overwriting insertion of the largest key of the map when that key exists",
  "the value stored under the maximum key is replaced by a non-overwriting access",
  r"""
#include "library/datastructure/splay_tree_map.hpp"
struct N : suisen::internal::splay_tree_map::SplayTreeMapNode<int, int> {};
int main() {
    using Node = suisen::internal::splay_tree_map::SplayTreeMapNode<int, int>;
    Node* r = nullptr;
    for (int i = 0; i < 10; ++i) r = Node::insert(r, i, 100 + i);
    for (int i = 0; i < 10; ++i) r = Node::insert(r, i, -1, false);
    for (int i = 0; i < 10; ++i) { auto [t, v] = Node::get_or_default(r, i, 7); r = t; if (v != 100 + i) return 1; }
    return 0;
}
""")
S("C07-prisum-erase", "C07", "library/datastructure/util/priority_sum.hpp",
  "                } else if (_head_k.size() and _cmp(v, _head_k.top())) {", "                } else if (_head_k.size() and _tail.size() and _cmp(v, _head_k.top())) {",
  "erasing an element that is not the worst one kept while at most k elements are stored",
  "the erased element stays in the sum and a later element is dropped in its place",
  r"""
#include <cassert>
#include <queue>
#include "library/datastructure/util/priority_sum.hpp"
int main() {
    suisen::MaximumPrioritySum<long long> a(3), *p = &a; suisen::MinimumPrioritySum<long long> b(3);
    for (long long v : { 5, 1, 9 }) a.insert(v), b.insert(v);
    p->erase(5), b.erase(5);
    if (a.get_sum() != 10 || b.get_sum() != 10) return 1;
    a.insert(2), b.insert(2);
    return a.get_sum() == 12 && b.get_sum() == 12 ? 0 : 1;
}
""")
S("C08-range-set-erase", "C08", "library/datastructure/util/range_set.hpp",
  "            if (it != this->begin() and l <= std::prev(it)->second) {\n                it = std::prev(it);\n                tl = it->first;", "            if (it != this->begin() and l < std::prev(it)->second) {\n                it = std::prev(it);\n                tl = it->first;",
  "an erase whose left end is exactly the last element of a stored range",
  "the last element of a range survives its erasure",
  r"""
#include <algorithm>
#include "library/datastructure/util/range_set.hpp"
int main() {
    suisen::RangeSet<int> s; s.insert(3, 9); s.insert(20, 30);
    int e = s.erase(9, 25);
    return e == 7 && !s.contains(9) && s.contains(8) && s.size() == 11 ? 0 : 1;
}
""")
S("C08-wavelet-max-leq", "C08", "library/datastructure/wavelet_matrix.hpp",
  "            return upper == MAX ? range_xor_max(l, r, x) : range_xor_max_lt(l, r, x, upper + 1, default_value);", "            return upper == MAX ? range_xor_max(l, r, 0) : range_xor_max_lt(l, r, x, upper + 1, default_value);",
  "a xored predecessor query with the largest representable bound and a non-zero xor mask",
  "the answer ignores the xor mask",
  r"""
#include "library/datastructure/wavelet_matrix.hpp"
int main() {
    std::vector<int> a{ 1, 2, 4, 7, 3 };
    suisen::WaveletMatrix<int, 3> w(a);
    return w.range_xor_max_leq(0, 5, 5, 7) == 2 && w.range_xor_max_leq(0, 3, 7, 7) == 1 ? 0 : 1;
}
""")
S("C09-slope-shift", "C09", "library/datastructure/slope_trick.hpp",
  "l.push(a - add_l), r.push(l.top() + add_l - add_r), l.pop();", "l.push(a - add_l), r.push(l.top() + add_r - add_l), l.pop();",
  "add_right left of the argmin after a sliding-window minimum of non-zero width",
  "breakpoints moved between the two heaps are shifted in the wrong direction",
  r"""
#include <algorithm>
#include <cassert>
#include <tuple>
#include "library/datastructure/slope_trick.hpp"
int main() {
    unsigned s = 3; auto rnd = [&](int m) { s = s * 1103515245u + 12345u; return int((s >> 12) % m); };
    const int R = 400;
    for (int rep = 0; rep < 100; ++rep) {
        suisen::SlopeTrick<long long> f; std::vector<long long> g(2 * R + 1, 0);
        for (int q = 0; q < 12; ++q) {
            long long a = rnd(61) - 30; int t = rnd(3);
            if (t == 0) { f.add_right(a); for (int i = -R; i <= R; ++i) g[i + R] += std::max(0LL, i - a); }
            else if (t == 1) { f.add_left(a); for (int i = -R; i <= R; ++i) g[i + R] += std::max(0LL, a - i); }
            else {
                int x = rnd(5) - 3, y = x + rnd(5); f.sliding_window_minimum(x, y);
                auto h = g;
                for (int i = -R; i <= R; ++i) { long long m = 1e18; for (int j = std::max(-R, i - y); j <= std::min(R, i - x); ++j) m = std::min(m, g[j + R]); h[i + R] = m; }
                g = h;
            }
            if (f.min() != *std::min_element(g.begin() + 100, g.end() - 100)) return 1;
        }
    }
    return 0;
}
""")
S("C10-mode-left", "C10", "library/range_query/static_range_mode_query.hpp",
  "                do ++freq; while (_check_left_bound(v, pos_index - freq, l));", "                do ++freq; while (_check_left_bound(v, pos_index - freq, l) and v != mode);",
  "a query whose mode is already the candidate and gains at least two occurrences from the right fringe at once",
  "the reported frequency is too small",
  r"""
#include "library/range_query/static_range_mode_query.hpp"
#include <map>
int main() {
    unsigned s = 7;
    for (int rep = 0; rep < 200; ++rep) {
        int n = 1 + rep % 40; std::vector<int> a(n); for (int& x : a) { s = s * 1103515245u + 12345u; x = (s >> 16) % 3; }
        suisen::StaticRangeModeQuery<int> q(a);
        for (int l = 0; l < n; ++l) { std::map<int, int> c; int best = 0; for (int r = l + 1; r <= n; ++r) { best = std::max(best, ++c[a[r - 1]]); auto [m, f] = q.query(l, r); if (f != best || c[m] != best) return 1; } }
    }
    return 0;
}
""")
S("C11-zdd-and-unit", "C11", "library/datastructure/ZDD.hpp",
  "            if (f.is_terminal0() or g.is_terminal0()) return terminal0();\n            if (f.is_terminal1() and g.is_terminal1()) return terminal1();\n\n            if (f.top() < g.top()) std::swap(f, g);\n\n            using namespace internal::zdd;\n            static std::unordered_map<std::tuple<zdd_t, zdd_t>, ZDD> cache;\n            if (auto it = check_cache(cache, f.id, g.id); it != cache.end()) return it->second;\n            \n            ZDD res = f.top() > g.top() ? f[0] & g",
  "            if (f.is_terminal0() or g.is_terminal0()) return terminal0();\n            if (f.is_terminal1() or g.is_terminal1()) return terminal1();\n\n            if (f.top() < g.top()) std::swap(f, g);\n\n            using namespace internal::zdd;\n            static std::unordered_map<std::tuple<zdd_t, zdd_t>, ZDD> cache;\n            if (auto it = check_cache(cache, f.id, g.id); it != cache.end()) return it->second;\n            \n            ZDD res = f.top() > g.top() ? f[0] & g",
  "an intersection whose recursion meets the unit family {{}} on one side and a family without the empty set on the other",
  "intersections contain sets that are not in both families",
  r"""
#include "library/datastructure/ZDD.hpp"
int main() {
    using suisen::ZDD;
    ZDD e = ZDD::terminal1();
    ZDD a = ZDD::change(e, 2), b = ZDD::change(ZDD::change(e, 2), 1); // {{2}}, {{1,2}}
    if (ZDD::card<int>(a & b) != 0) return 1;
    if (ZDD::card<int>((a + b) & a) != 1) return 1;
    return 0;
}
""")
S("C12-horn-recheck", "C12", "library/algorithm/horn_sat.hpp",
  "            std::vector<int> c = cnt;", "            std::vector<int> &c = cnt;",
  "satisfiable() called a second time after more clauses are added",
  "clause counters are consumed by the first solve, so a second solve ignores clauses",
  r"""
#include "library/algorithm/horn_sat.hpp"
int main() {
    suisen::HornSAT s(3);
    s.add_clause(0, true); s.add_clause({ 0 }, 1, true);
    if (!s.satisfiable()) return 1;
    s.add_clause({ 0, 1 }, 2, true);
    if (!s.satisfiable()) return 1;
    auto a = s.answer();
    if (!(a[0] && a[1] && a[2])) return 1;
    s.add_clause({ 1, 2 }, -1, false);
    return s.satisfiable() ? 1 : 0;
}
""")

S("C20-csr-rbegin", "C20", "library/graph/csr_graph.hpp",
  "            reverse_iterator rbegin() const { return _g->_edges.rbegin() + (_g->_edges.size() - (_offset + _siz)); }",
  "            reverse_iterator rbegin() const { return _g->_edges.rbegin() + (_g->_edges.size() - (_offset + _cap)); }",
  "reverse iteration over an adjacency list whose size is below its capacity (after an erase / pop_back / clear or with a capacity given)",
  "reverse iteration starts in the unused tail of the list",
  r"""
#include <cstdint>
#include <iostream>
#include "library/graph/csr_graph.hpp"
int main() {
    std::vector<std::pair<int, int>> es{ { 0, 1 }, { 0, 2 }, { 0, 3 }, { 1, 3 } };
    suisen::Graph<void> g(4, es, suisen::directed_graph_tag{});
    auto& l = g[0]; l.pop_back();
    std::vector<int> a(l.begin(), l.end()), b(l.rbegin(), l.rend());
    return a.size() == 2 && b.size() == 2 && a[0] == b[1] && a[1] == b[0] ? 0 : 1;
}
""")
S("C20-minmax-floyd", "C20", "library/graph/minmax_floyd_warshall.hpp",
  "                        for (const int j : all_setbit_64(s)) add_edge(w_hi | j, v);", "                        for (const int j : all_setbit_64(s)) add_edge(w_hi + (j & 31), v);",
  "a graph with more than 32 vertices in which a predecessor with index >= 32 (mod 64) is reached through the backward closure",
  "bottleneck costs into some vertices are wrong",
  r"""
#include <cassert>
#include "library/graph/minmax_floyd_warshall.hpp"
int main() {
    const int n = 50; unsigned s = 1;
    std::vector<std::vector<int>> c(n, std::vector<int>(n));
    for (auto& r : c) for (int& x : r) { s = s * 1103515245u + 12345u; x = (s >> 10) % 100000; }
    for (int i = 0; i < n; ++i) c[i][i] = 0;
    auto d = suisen::minmax_floyd_warshall(c);
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c[i][j] = std::min(c[i][j], std::max(c[i][k], c[k][j]));
    return c == d ? 0 : 1;
}
""")
S("C21-euler-trail-undo", "C21", "library/graph/undirected_eulerian_graph.hpp",
  "            g[t].pop_back(), inv[t].pop_back();", "            g[t].pop_back();",
  "two trail requests on the same graph with two odd vertices",
  "the virtual closing edge is not fully removed, so the second request works on inconsistent edge partners",
  r"""
#include <cassert>
#include <cstdint>
#include <algorithm>
#include <optional>
#include "library/graph/undirected_eulerian_graph.hpp"
int main() {
    suisen::UndirectedEulerianGraph g(4);
    g.add_edge(0, 1), g.add_edge(1, 2), g.add_edge(2, 0), g.add_edge(2, 3);
    auto a = g.eulerian_trail(); if (!a || a->size() != 5) return 1;
    g.add_edge(3, 0), g.add_edge(0, 3), g.add_edge(3, 1), g.add_edge(1, 3);
    auto b = g.eulerian_trail(); if (!b || b->size() != 9) return 1;
    int m[4][4] = {}; auto add = [&](int u, int v, int w) { m[u][v] += w, m[v][u] += w; };
    add(0, 1, 1), add(1, 2, 1), add(2, 0, 1), add(2, 3, 1), add(3, 0, 1), add(0, 3, 1), add(3, 1, 1), add(1, 3, 1);
    for (size_t i = 0; i + 1 < b->size(); ++i) add((*b)[i], (*b)[i + 1], -1);
    for (auto& r : m) for (int x : r) if (x) return 1;
    return 0;
}
""")
S("C22-edge-cover", "C22", "library/graph/bipartite_matching.hpp",
  "if (not (vl[u] and vr[v])) {\n                vl[u] = vr[v] = true;", "if (not (vl[u] and vr[v])) {\n                vl[u] = true;",
  "a minimum edge cover in which an unmatched right vertex has two or more left neighbours",
  "the edge cover contains redundant edges and is not minimum",
  r"""
#include <cassert>
#include <cstdint>
#include <algorithm>
#include <deque>
#include <utility>
#include "library/graph/bipartite_matching.hpp"
int main() {
    suisen::BipartiteMatching g(2, 3);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) g.add_edge(i, j);
    return g.min_edge_cover().size() == 3 ? 0 : 1;
}
""")
S("C30-hld-noncomm", "C30", "library/tree/heavy_light_decomposition.hpp",
  "                res_u = bin_op(res_u, fold_query_rev(visit[v] + is_edge_query, visit[u] + 1));", "                res_u = bin_op(fold_query_rev(visit[v] + is_edge_query, visit[u] + 1), res_u);",
  "a non-commutative path product from u to an ancestor-side vertex that crosses at least one light edge before the last chain",
  "the product is taken in the wrong order",
  r"""
#include <string>
#include <vector>
#include <algorithm>
#include "library/tree/heavy_light_decomposition.hpp"
int main() {
    const int n = 15; std::vector<std::vector<int>> g(n); std::vector<int> par(n, -1);
    for (int i = 1; i < n; ++i) par[i] = (i - 1) / 2, g[i].push_back(par[i]), g[par[i]].push_back(i);
    suisen::HeavyLightDecomposition h(g);
    std::string a(n, ' '); for (int i = 0; i < n; ++i) a[h.get_visit_time(i)] = char('a' + i);
    auto q = [&](int l, int r) { return a.substr(l, r - l); };
    auto qr = [&](int l, int r) { auto s = a.substr(l, r - l); std::reverse(s.begin(), s.end()); return s; };
    for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v) {
        std::string x, y; int p = u, w = v;
        while (p != w) if (p > w) x += char('a' + p), p = par[p]; else y += char('a' + w), w = par[w];
        x += char('a' + p); std::reverse(y.begin(), y.end());
        if (h.fold_path_noncommutative(u, v, std::string{}, [](std::string s, std::string t) { return s + t; }, q, qr) != x + y) return 1;
    }
    return 0;
}
""")
S("C31-lct-lca-self", "C31", "library/tree/link_cut_tree_base.hpp",
  "            return u == v or node_type::parent(u) ? a : nullptr;", "            return node_type::parent(u) ? a : nullptr;",
  "an LCA request for a vertex with itself",
  "lca(u, u) reports 'not connected'",
  r"""
#include "library/tree/link_cut_tree.hpp"
int main() {
    using T = suisen::LinkCutTree<int>; T::init_pool(100);
    auto v = T::make_nodes({ 1, 2, 3, 4 });
    T::link(v[1], v[0]), T::link(v[2], v[0]);
    T::evert(v[0]);
    return T::lca(v[1], v[2]) == v[0] && T::lca(v[1], v[1]) == v[1] && T::lca(v[3], v[1]) == nullptr ? 0 : 1;
}
""")
S("C32-rerooting-order", "C32", "library/tree/rerooting.hpp",
  "                        DP nxt_sum_l = op(sum_l, add_subtree_root_(get_sum(v), _w[v], w));\n", "",
  "a vertex with at least two children (the left prefix is extended with a child's value after it was re-rooted)",
  "the answer of every later child mixes in the re-rooted value of an earlier sibling",
  r"""
#include <cassert>
#include <vector>
#include <variant>
#include "library/tree/rerooting.hpp"
int main() {
    // sum of distances
    struct D { long long c, s; };
    suisen::internal::rerooting::Rerooting<std::monostate, int> r(5);
    r.add_edge(0, 1, 1), r.add_edge(0, 2, 2), r.add_edge(2, 3, 3), r.add_edge(2, 4, 4);
    auto res = r.run_dp([](D a, D b) { return D{ a.c + b.c, a.s + b.s }; }, []() { return D{ 0, 0 }; },
        [](D a, int w) { return D{ a.c + 1, a.s + w * (a.c + 1) }; }, [](D a) { return D{ a.c + 1, a.s }; });
    long long want[5] = { 1 + 2 + 5 + 6, 1 + 3 + 6 + 7, 2 + 3 + 3 + 4, 5 + 6 + 3 + 7, 6 + 7 + 4 + 7 };
    for (int i = 0; i < 5; ++i) if (res[i].s != want[i] || res[i].c != 5) return 1;
    return 0;
}
""", more=[("library/tree/rerooting.hpp", "sum_l = std::move(nxt_sum_l);", "sum_l = op(sum_l, add_subtree_root_(get_sum(v), _w[v], w));")])
S("C40-hash-alphabet", "C40", "library/string/rolling_hash.hpp",
  "std::islower(e) ? e - 'a' + 27 : e - 'A' + 1;", "std::islower(e) ? e - 'a' + 26 : e - 'A' + 1;",
  "a text over both letter cases that contains 'a' and 'Z' at corresponding positions",
  "two different letters get the same code, so unequal substrings hash equal",
  r"""
#include <cctype>
#include <string>
#include "library/string/rolling_hash.hpp"
int main() {
    auto h = suisen::RollingHash<2>::from_alphabet("xaYxZYxaY");
    return h(0, 3) != h(3, 6) && h(0, 3) == h(6, 9) ? 0 : 1;
}
""")
S("C41-sam-first", "C41", "library/string/suffix_automaton.hpp",
  "                    if (p >= 0 and nodes[p].cloned) dp[p] = std::min(dp[p], dp[u]);", "                    if (p >= 0 and nodes[p].cloned and not nodes[u].cloned) dp[p] = std::min(dp[p], dp[u]);",
  "a text whose automaton has a cloned state below another cloned state that owns the earliest occurrence",
  "the reported first occurrence of a repeated substring is too late or missing",
  r"""
#include <limits>
#include <string>
#include "library/string/suffix_automaton.hpp"
int main() {
    unsigned x = 5;
    for (int rep = 0; rep < 200; ++rep) {
        std::string s; for (int i = 0; i < 20; ++i) { x = x * 1103515245u + 12345u; s += char('a' + (x >> 16) % 2); }
        suisen::SuffixAutomaton sa(s); auto f = sa.first_occurence_searcher();
        for (int i = 0; i < 20; ++i) for (int l = 1; i + l <= 20; ++l) if (f.first_occurrence(s.substr(i, l)) != (int)s.find(s.substr(i, l))) return 1;
    }
    return 0;
}
""")
S("C50-rho-composite", "C50", "library/number/fast_factorize.hpp",
  "                    return pollard_rho(g);", "                    if (g > n / g) return pollard_rho(g);\n                    return g;",
  "a number with at least four prime factors above 100 for which a rho round yields a composite divisor with a composite cofactor",
  "a composite number is reported as a prime factor",
  r"""
#include <vector>
#include "library/number/fast_factorize.hpp"
int main() {
    for (int rep = 0; rep < 300; ++rep) {
        long long n = 103LL * 107 * 109 * 113 * 127 * 131 * 137;
        auto f = suisen::fast_factorize::factorize(n);
        if (f.size() != 7) return 1;
    }
    return 0;
}
""")
S("C51-garner-negative", "C51", "library/number/garner.hpp",
  "            if (a[i] < 0) a[i] += mi;\n", "            if (a[i] < 0 and i + 1 < n) a[i] += mi;\n",
  "a last congruence whose residue is below the value already determined by the earlier ones, and a target modulus that does not divide the product",
  "the reconstructed value is shifted by the product of the moduli (or negative)",
  r"""
#include <vector>
#include "library/number/garner.hpp"
int main() {
    for (int x = 0; x < 105; ++x) if (suisen::garner({ { x % 3, 3 }, { x % 5, 5 }, { x % 7, 7 } }, 1000) != x) return 1;
    return 0;
}
""")
S("C52-rational-floor", "C52", "library/number/rational.hpp",
  "        return num >= 0 ? num / den : -((-num + den - 1) / den);", "        return num / den - (num < 0);",
  "the floor of a negative rational that is an integer",
  "floor(-3/1) is one too small",
  r"""
#include <cassert>
#include <cstdlib>
#include <cmath>
#include <numeric>
#include <iostream>
#include "library/number/rational.hpp"
int main() {
    using R = suisen::Rational<long long>;
    return R(-6, 2).floor() == -3 && R(-7, 2).floor() == -4 && R(7, 2).floor() == 3 && R(0, 5).floor() == 0 ? 0 : 1;
}
""")
S("C60-multiple-zeta", "C60", "library/transform/multiple.hpp",
  "            for (int q = qmax, pq = rmax; q >= 1; --q, pq -= p) {", "            for (int q = 1, pq = p; q <= qmax and rmax; ++q, pq += p) {",
  "a sequence long enough that some index has a multiple by p^2",
  "the multiple-zeta transform misses terms whose quotient is divisible by a square",
  r"""
#include <vector>
#include "library/transform/multiple.hpp"
int main() {
    std::vector<long long> f(9); for (int i = 1; i < 9; ++i) f[i] = i * i + 1;
    auto g = f; suisen::multiple_transform::zeta(g);
    for (int i = 1; i < 9; ++i) { long long s = 0; for (int j = i; j < 9; j += i) s += f[j]; if (g[i] != s) return 1; }
    return 0;
}
""")
S("C61-conv64-high", "C61", "library/convolution/convolution_2_64.hpp",
  "                c[i] = x1 + x2 * M1 + x3 * M1M2 + x4 * M1M2M3 + x5 * M1M2M3M4;", "                c[i] = x1 + x2 * M1 + x3 * M1M2 + x4 * M1M2M3 + (x5 & 0x3ff) * M1M2M3M4;",
  "both inputs longer than 60 with values close to 2^64, so that the fifth Garner digit exceeds ten bits",
  "products modulo 2^64 are wrong for large coefficients",
  r"""
#include <vector>
#include "library/convolution/convolution_2_64.hpp"
int main() {
    int n = 200; std::vector<unsigned long long> a(n), b(n), c(2 * n - 1); unsigned long long x = 88172645463325252ull;
    for (auto* v : { &a, &b }) for (auto& e : *v) x ^= x << 13, x ^= x >> 7, x ^= x << 17, e = x | (1ull << 63);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c[i + j] += a[i] * b[j];
    return suisen::convolution_mod_2_64(a, b) == c ? 0 : 1;
}
""")
S("C62-fps-mul-tail", "C62", "library/polynomial/formal_power_series.hpp",
  "                for (int i = siz_f - dif; i < siz_f; ++i) for (int j = 0; j < siz_g; ++j) {", "                for (int i = siz_f - dif; i < siz_f; ++i) for (int j = 0; j + 1 < siz_g or i + 1 < siz_f; ++j) if (j == siz_g) break; else {",
  "both factors longer than 60 and a product degree at most nine above a power of two",
  "the leading coefficient of the product is lost",
  r"""
#include <vector>
#include <atcoder/modint>
#include "library/polynomial/formal_power_series.hpp"
using mint = atcoder::modint998244353;
int main() {
    for (int n = 61; n <= 140; ++n) for (int m : { 61, 65, 68, 70 }) {
        suisen::FormalPowerSeries<mint> f(n), g(m); for (int i = 0; i < n; ++i) f[i] = i + 1; for (int i = 0; i < m; ++i) g[i] = 3 * i + 2;
        std::vector<mint> h(n + m - 1); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) h[i + j] += f[i] * g[j];
        auto r = f * g; if ((int)r.size() != n + m - 1) return 1;
        for (int i = 0; i < n + m - 1; ++i) if (r[i] != h[i]) return 1;
    }
    return 0;
}
""")
S("C63-lagrange-ap", "C63", "library/polynomial/lagrange_interpolation.hpp",
  "        return res / a.pow(n - 1);", "        return res / (n > 2 ? a.pow(n - 1) : a);",
  "interpolation of a constant from a single sample on a progression with step other than 1",
  "a constant polynomial given by one sample is divided by the step",
  r"""
#include <vector>
#include <cassert>
#include <atcoder/modint>
#include "library/polynomial/lagrange_interpolation.hpp"
using mint = atcoder::modint998244353;
int main() {
    for (int n = 1; n <= 5; ++n) {
        auto P = [&](mint x) { mint r = 7; for (int i = 1; i < n; ++i) r = r * x + (i + 2); return r; };
        mint a = 5, b = 3; std::vector<mint> ys(n); for (int i = 0; i < n; ++i) ys[i] = P(a * i + b);
        if (suisen::lagrange_interpolation_arithmetic_progression<mint>(a, b, ys, 1000) != P(1000)) return 1;
    }
    return 0;
}
""")
S("C65-xorbase-meet", "C65", "library/linear_algebra/xor_base.hpp",
  "                if (e) basis.emplace_back(e, s);\n                else res.add(s);", "                if (not e) res.add(s);",
  "an intersection in which an element of the right space lies in the left space only after adding another, independent, element of the right space",
  "the intersection of two spaces is too small",
  r"""
#include <cassert>
#include <vector>
#include "library/linear_algebra/xor_base.hpp"
int main() {
    suisen::XorBase<int> a({ 1, 2 }), b({ 4 | 1, 4 | 2 });   // a & b = { 0, 3 }
    return (a & b).dim() == 1 && (b & a).dim() == 1 ? 0 : 1;
}
""")
S("C66-stirling1-smallp", "C66", "library/sequence/stirling_number1_small_prime_mod.hpp",
  "(b == p - 1 and d == 0 ? -binom(a, c - 1) :", "(b == p - 1 and d == 0 and c == a + 1 ? -binom(a, c - 1) :",
  "n congruent to -1 modulo p with k - floor(n/p) a multiple of p-1 that is not the maximal one",
  "some Stirling numbers modulo a small prime come out as 0",
  r"""
#include <vector>
#include <cassert>
#include <atcoder/modint>
#include "library/sequence/stirling_number1_small_prime_mod.hpp"
int main() {
    using mint = atcoder::static_modint<5>;
    const int N = 60; std::vector<std::vector<mint>> s(N, std::vector<mint>(N)); s[0][0] = 1;
    for (int n = 1; n < N; ++n) for (int k = 0; k <= n; ++k) s[n][k] = (k ? s[n - 1][k - 1] : mint(0)) + mint(n - 1) * s[n - 1][k];
    for (int n = 0; n < N; ++n) for (int k = 0; k < N; ++k) if (suisen::StirlingNumber1SmallPrimeMod<mint>::s1(n, k) != s[n][k]) return 1;
    return 0;
}
""")
S("C67-factorial-grow", "C67", "library/math/factorial.hpp",
  "            for (int i = new_size - 1; i > sz; --i) _fac_inv[i - 1] = _fac_inv[i] * i;", "            for (int i = new_size - 1; i > sz + (sz > 1); --i) _fac_inv[i - 1] = _fac_inv[i] * i;",
  "a table that is grown at least twice, then an inverse factorial exactly at a former table size",
  "one entry of the inverse factorial table stays zero",
  r"""
#include <vector>
#include <atcoder/modint>
#include "library/math/factorial.hpp"
using mint = atcoder::modint998244353;
int main() {
    suisen::factorial<mint> f(3);
    for (int n = 0; n <= 40; ++n) if (f.fac(n) * f.fac_inv(n) != 1) return 1;
    f.ensure(1000); for (int n = 0; n <= 1000; ++n) if (f.fac(n) * f.fac_inv(n) != 1) return 1;
    return 0;
}
""")
S("C68-bigint-newton", "C68", "library/math/unsigned_bigint.hpp",
  "                if (_compare_powD(bc + b, 2 * k - dB) <= 0) {", "                if (_compare_powD(bc + b, 2 * k - dB) < 0) {",
  "the division of a number of more than 128 limbs by one of more than 64 limbs that divides a power of the base",
  "the Newton reciprocal is not corrected in the exact case and the division aborts",
  r"""
#include <string>
#include <vector>
#include <iostream>
#include <atcoder/modint>
#include "library/math/unsigned_bigint.hpp"
int main() {
    using B = suisen::unsigned_bigint;
    B b = 1, lim(std::string(1000, '9')), five(5), two(2);
    while (b < lim) b = b * five;   // a power of five of some 112 limbs
    for (int e = 0; e < 40; ++e, b = b * (e % 3 ? five : two)) for (int len : { 700, 1203 }) {
        B q(std::string(len, '7')), x = b * q + B(12345);
        auto [d, r] = B::divmod(x, b);
        if (d != q || r != B(12345)) return 1;
    }
    return 0;
}
""")
S("C69-clamp-negative", "C69", "library/algebra/monoid/affine_clamp.hpp",
  "            if (h.l > h.r) std::swap(h.l, h.r);\n", "            if (h.l > h.r) h.l = h.r;\n",
  "a composition whose outer function has negative slope and whose inner function has a finite clamp",
  "composed clamps collapse to one bound",
  r"""
#include <algorithm>
#include <limits>
#include <iostream>
#include <tuple>
#include "library/algebra/monoid/affine_clamp.hpp"
int main() {
    using F = suisen::AffineClamp<long long>;
    F g(2, 1, -10, 10), f(-3, 4, -20, 25); auto h = F::compose(f, g);
    for (long long x = -30; x <= 30; ++x) if (h(x) != f(g(x))) return 1;
    return 0;
}
""")
S("C70-atan2-axis", "C70", "library/integral_geom/sort_points_by_argument.hpp",
  "        if ((x1 < 0) xor (x2 < 0)) return (y1 >= 0) xor (x1 < x2);", "        if ((x1 < 0) xor (x2 < 0)) return (y1 > 0 or y2 > 0) xor (x1 < x2);",
  "two points on the x axis on opposite sides of the origin",
  "the negative x axis is ordered before the positive one",
  r"""
#include <algorithm>
#include <cmath>
#include "library/integral_geom/sort_points_by_argument.hpp"
int main() {
    std::vector<std::pair<int, int>> p{ { -3, 0 }, { 2, 0 }, { 1, 5 }, { -1, -4 }, { 0, 7 }, { -2, 0 }, { 4, 0 } };
    suisen::integral_geometry::sort_points_by_argument(p);
    for (size_t i = 0; i + 1 < p.size(); ++i) if (std::atan2(p[i].second, p[i].first) > std::atan2(p[i + 1].second, p[i + 1].first) + 1e-9) return 1;
    for (int x : { 1, 3 }) for (int y : { 1, 2 }) {
        using P = std::pair<int, int>;
        if (!suisen::integral_geometry::compare_by_atan2(P{ x, 0 }, P{ -y, 0 }) || suisen::integral_geometry::compare_by_atan2(P{ -y, 0 }, P{ x, 0 })) return 1;
    }
    return 0;
}
""")
S("C71-ray-front", "C71", "library/geom/geometry.hpp",
  "dir == ISP::MIDDLE or dir == ISP::FRONT ? square_abs(h - p)", "dir == ISP::MIDDLE ? square_abs(h - p)",
  "the distance from a point whose projection lies beyond the second defining point of a ray",
  "rays are treated as segments",
  r"""
#include <cmath>
#include "library/geom/geometry.hpp"
int main() {
    using namespace suisen::geometry;
    Ray r(Point(0, 0), Point(1, 0));
    return std::abs(distance(Point(10, 3), r) - 3) < 1e-9 && std::abs(distance(Point(-4, 3), r) - 5) < 1e-9 && std::abs(distance(Point(0.5, 2), r) - 2) < 1e-9 ? 0 : 1;
}
""")
S("C80-rle-pop", "C80", "library/util/run_length_encoder.hpp",
  "                if (cnt > num) {", "                if (cnt >= num) {",
  "a pop of exactly the length of the last run, followed by iteration or by pushing the previous value",
  "an empty run stays at the end and equal neighbours are no longer merged",
  r"""
#include <string>
#include <vector>
#include "library/util/run_length_encoder.hpp"
int main() {
    suisen::RunLengthEncoder<std::string> r(std::string("aabbb"));
    if (r.pop_back(3) != 3 || r.length() != 2) return 1;
    r.push_back('a', 2);
    int k = 0; for (auto [c, n] : r) { ++k; if (c != 'a' || n != 4) return 1; }
    return k == 1 ? 0 : 1;
}
""")
S("C81-perm-pow", "C81", "library/util/permutation.hpp",
  "                    res[v] = cycle[(j + k % l) % l];", "                    res[v] = cycle[(j + uint32_t(k) % l) % l];",
  "an exponent of at least 2^32 and a cycle whose length does not divide 2^32",
  "powers with huge exponents are wrong",
  r"""
#include <cassert>
#include <cstdint>
#include <numeric>
#include <algorithm>
#include <vector>
#include "library/util/permutation.hpp"
int main() {
    suisen::Permutation p(std::vector<int>{ 1, 2, 0, 4, 3, 6, 7, 8, 5 });
    long long k = 1000000000007LL; auto a = p.pow(k), b = p.pow(k % 12);
    return a == b && p.pow(5) == p * p * p * p * p ? 0 : 1;
}
""")
S("C82-read-u128", "C82", "library/io/input_stream.hpp",
  "            __uint128_t ret = 0;", "            unsigned long long ret = 0;",
  "reading a 128-bit integer of 2^64 or more",
  "large integers are read modulo 2^64",
  r"""
#include <iostream>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include "library/io/input_stream.hpp"
int main() {
    std::istringstream ss("170141183460469231731687303715884105727 -36893488147419103232 7"); suisen::io::InputStream in{ ss };
    __uint128_t a; __int128_t b; __int128_t c; in.read(a, b, c);
    return a == ((__uint128_t(1) << 127) - 1) && b == -(__int128_t(1) << 65) && c == 7 ? 0 : 1;
}
""")
