// Union-find variants against a naive label-array model.
#include "mon.hpp"
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find_component_sum.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
using namespace suisen;
using mon::Rng;

struct Naive {
    int n; std::vector<int> c;
    explicit Naive(int n = 0) : n(n), c(n) { std::iota(c.begin(), c.end(), 0); }
    bool merge(int x, int y) { int a = c[x], b = c[y]; if (a == b) return false; for (auto& v : c) if (v == b) v = a; return true; }
    bool same(int x, int y) const { return c[x] == c[y]; }
    int size(int x) const { return (int)std::count(c.begin(), c.end(), c[x]); }
    std::vector<int> comp(int x) const { std::vector<int> r; for (int i = 0; i < n; ++i) if (c[i] == c[x]) r.push_back(i); return r; }
    std::vector<std::vector<int>> groups() const { std::map<int, std::vector<int>> m; for (int i = 0; i < n; ++i) m[c[i]].push_back(i); std::vector<std::vector<int>> r; for (auto& [k, v] : m) r.push_back(v); std::sort(r.begin(), r.end()); return r; }
};
static std::vector<std::vector<int>> norm(std::vector<std::vector<int>> g) { for (auto& v : g) std::sort(v.begin(), v.end()); std::sort(g.begin(), g.end()); return g; }

template <class U> void observe_state(U& u, const Naive& nv, Rng& rng, bool full) {
    int n = nv.n;
    if (full) {
        EQ(norm(u.groups()), nv.groups());
        std::map<int, int> root_of;
        for (int i = 0; i < n; ++i) {
            int r = u.root(i);
            REQUIRE(0 <= r && r < n);
            EQ(u[i], r);
            EQ(u.root(r), r);
            REQUIRE(nv.same(i, r), "root must be in the component");
            auto it = root_of.emplace(nv.c[i], r).first;
            EQ(r, it->second);
            EQ(u.size(i), nv.size(i));
        }
    } else if (n) {
        int x = rng(0, n - 1), y = rng(0, n - 1);
        EQ(u.same(x, y), nv.same(x, y));
        EQ(u.size(x), nv.size(x));
        EQ(u.root(x) == u.root(y), nv.same(x, y));
    }
}
// merge order patterns that make deep trees, chains, stars, balanced merges
static std::pair<int, int> pick_edge(Rng& rng, int n, int mode, int step) {
    switch (mode) {
    case 0: { int x = step % n; return { x, (x + 1) % n }; }
    case 1: return { 0, (int)rng(0, n - 1) };
    case 2: { int k = 1 << rng(0, 7); int x = rng(0, n - 1); return { x, (x ^ k) % n }; }
    case 3: { int x = (n - 1 - step % n); return { x, std::max(0, x - 1) }; }
    default: return { (int)rng(0, n - 1), (int)rng(0, n - 1) };
    }
}
template <class U> void basic(Rng& rng) {
    int n = rng.size(0, 150);
    U u(n), u2(n); Naive a(n), a2(n); // two live objects: no state may leak between them
    SAMPLE("n", n);
    observe_state(u, a, rng, true);
    if (!n) return;
    int q = rng.upto(1, 3 * n), mode = rng(0, 5);
    for (int i = 0; i < q; ++i) {
        auto [x, y] = pick_edge(rng, n, mode, i);
        if (rng.coin()) std::swap(x, y);
        LOG("merge", x, y);
        EQ(u.merge(x, y), a.merge(x, y));
        if (rng.pct(30)) { int p = rng(0, n - 1), r = rng(0, n - 1); EQ(u2.merge(p, r), a2.merge(p, r)); observe_state(u2, a2, rng, false); }
        observe_state(u, a, rng, false);
        if (rng.pct(4)) observe_state(u, a, rng, true);
        if (rng.pct(2)) { U c(u); Naive ca(a); int p = rng(0, n - 1), r = rng(0, n - 1); EQ(c.merge(p, r), ca.merge(p, r)); observe_state(c, ca, rng, true); observe_state(u, a, rng, true); }
    }
    observe_state(u, a, rng, true); observe_state(u2, a2, rng, true);
}
SCENARIO(union_find, 1000) { basic<UnionFind>(rng); }
SCENARIO(linked_union_find, 1000) {
    basic<LinkedUnionFind>(rng);
    int n = rng.size(1, 80); LinkedUnionFind u(n); Naive a(n); int mode = rng(0, 5);
    for (int i = 0, q = rng.upto(1, 3 * n); i < q; ++i) {
        auto [x, y] = pick_edge(rng, n, mode, i);
        EQ(u.merge(x, y), a.merge(x, y));
        int z = rng(0, n - 1);
        auto c = u.connected_component(z);
        REQUIRE(std::find(c.begin(), c.end(), z) != c.end());
        std::sort(c.begin(), c.end());
        EQV(c, a.comp(z));
    }
    for (int z = 0; z < n; ++z) { auto c = u.connected_component(z); std::sort(c.begin(), c.end()); EQV(c, a.comp(z)); }
}
static void add_ll(i64& a, i64 b) { a += b; }
static void join(std::multiset<int>& a, std::multiset<int> b) { a.insert(b.begin(), b.end()); }
SCENARIO(component_sum, 1000) {
    int n = rng.size(0, 100);
    { UnionFindComponentSum<i64, add_ll> d(n, 7); for (int i = 0; i < n; ++i) EQ(d.sum(i), 7); UnionFindComponentSum<i64, add_ll> d0; }
    std::vector<i64> v(n); for (auto& x : v) x = rng.wides(-1000000000000LL, 1000000000000LL);
    std::vector<std::multiset<int>> s(n); for (int i = 0; i < n; ++i) s[i] = { (int)rng(0, 9) };
    UnionFindComponentSum<i64, add_ll> u(v); UnionFindComponentSum<std::multiset<int>, join> w(s); Naive a(n);
    if (!n) return;
    int mode = rng(0, 5);
    auto sum = [&](int x) { i64 t = 0; for (int i : a.comp(x)) t += v[i]; return t; };
    auto msum = [&](int x) { std::multiset<int> t; for (int i : a.comp(x)) t.insert(s[i].begin(), s[i].end()); return t; };
    for (int i = 0, q = rng.upto(1, 3 * n); i < q; ++i) {
        auto [x, y] = pick_edge(rng, n, mode, i);
        if (rng.coin()) std::swap(x, y);
        bool r = a.merge(x, y);
        EQ(u.merge(x, y), r); EQ(w.merge(x, y), r);
        int z = rng(0, n - 1);
        EQ(u.sum(z), sum(z)); EQ(w.sum(z), msum(z)); EQ(u.sum(x), sum(x)); EQ(w.sum(y), msum(y));
    }
    observe_state(u, a, rng, true); observe_state(w, a, rng, true);
    for (int z = 0; z < n; ++z) EQ(u.sum(z), sum(z));
}
template <class U> struct HistModel { std::vector<Naive> st; };
SCENARIO(undo_union_find, 1000) {
    int n = rng.size(1, 60); UndoUnionFind u(n); std::vector<Naive> st{ Naive(n) }; // st: states since the last snapshot
    { UndoUnionFind e; EQ(e.groups().size(), 0u); }
    int mode = rng(0, 5), q = rng.size(1, 200);
    int pm = rng(30, 90);
    for (int i = 0; i < q; ++i) {
        int t = rng(0, 99);
        if (t < pm) { auto [x, y] = pick_edge(rng, n, mode, i); if (rng.coin()) std::swap(x, y); LOG("merge", x, y); Naive nx = st.back(); bool r = nx.merge(x, y); EQ(u.merge(x, y), r); if (r) st.push_back(nx); }
        else if (t < 95) { if (st.size() > 1) { LOG("undo"); u.undo(); st.pop_back(); } }
        else if (t < 97) { LOG("snapshot"); u.snapshot(); st.erase(st.begin(), st.end() - 1); }
        else { LOG("rollback"); u.rollback(); st.resize(1, Naive(n)); }
        observe_state(u, st.back(), rng, rng.pct(20));
    }
    const UndoUnionFind& cu = u; observe_state(cu, st.back(), rng, true);
    u.rollback(); observe_state(u, st[0], rng, true);
}
// merge_data pushes a new value, undo_data pops it: T is a stack of sums
static void mg(std::vector<i64>& a, const std::vector<i64>& b) { a.push_back(a.back() + b.back()); }
static void un(std::vector<i64>& a) { a.pop_back(); }
SCENARIO(undo_component_sum, 1000) {
    int n = rng.size(1, 60);
    std::vector<i64> v(n); for (auto& x : v) x = rng(-1000, 1000);
    std::vector<std::vector<i64>> iv(n); for (int i = 0; i < n; ++i) iv[i] = { v[i] };
    using U = UndoUnionFindComponentSum<std::vector<i64>, mg, un>;
    U u = U(iv); std::vector<Naive> st{ Naive(n) };
    { U d(n, { 3 }); for (int i = 0; i < n; ++i) EQ(d.sum(i).back(), 3); U d0; }
    auto sum = [&](int x) { i64 t = 0; for (int i : st.back().comp(x)) t += v[i]; return t; };
    int mode = rng(0, 5), pm = rng(30, 90);
    for (int i = 0, q = rng.size(1, 200); i < q; ++i) {
        int t = rng(0, 99);
        if (t < pm) { auto [x, y] = pick_edge(rng, n, mode, i); if (rng.coin()) std::swap(x, y); LOG("merge", x, y); Naive nx = st.back(); bool r = nx.merge(x, y); EQ(u.merge(x, y), r); if (r) st.push_back(nx); }
        else if (t < 95) { if (st.size() > 1) { LOG("undo"); u.undo(); st.pop_back(); } }
        else if (t < 97) { u.snapshot(); st.erase(st.begin(), st.end() - 1); }
        else { u.rollback(); st.resize(1, Naive(n)); }
        int z = rng(0, n - 1);
        EQ(u.sum(z).back(), sum(z)); EQ(((const U&)u).sum(z).back(), sum(z));
        observe_state(u, st.back(), rng, rng.pct(10));
    }
    // values assigned through sum() on a component root persist
    if (rng.coin()) { int z = rng(0, n - 1); u.sum(z).back() += 5; EQ(u.sum(u.root(z)).back(), sum(z) + 5); }
    for (int z = 0; z < n; ++z) EQ(u.size(z), st.back().size(z));
}
// non-commutative group: affine maps x -> a x + b over Z_p, order matters
constexpr i64 P = 1000003;
static i64 pw(i64 a, i64 e) { i64 r = 1; for (a %= P; e; e >>= 1, a = a * a % P) if (e & 1) r = r * a % P; return r; }
struct Aff { i64 a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } };
inline std::ostream& operator<<(std::ostream& o, const Aff& f) { return o << "aff(" << f.a << "," << f.b << ")"; }
static Aff aop(Aff x, Aff y) { return { x.a * y.a % P, (x.a * y.b + x.b) % P }; } // x∘y
static Aff ae() { return {}; }
static Aff ainv(Aff x) { i64 i = pw(x.a, P - 2); return { i, (P - x.b * i % P) % P }; }
template <class T, class U, class Op, class Neg> void weighted(Rng& rng, U& u, int n, Op op, Neg neg, std::function<T()> gen, T e) {
    // model: potential w[i] relative to the label representative; diff(x,y) = neg(w x) * w y
    std::vector<T> w(n, e); Naive a(n);
    int mode = rng(0, 5);
    for (int i = 0, q = rng.upto(1, 3 * n); i < q; ++i) {
        auto [x, y] = pick_edge(rng, n, mode, i);
        if (rng.coin()) std::swap(x, y);
        T d = gen();
        bool r = !a.same(x, y);
        LOG("merge", x, y, d);
        EQ(u.merge(x, y, d), r);
        if (r) { // shift y's component: for v in comp(y): new w[v] = w[x] d w[y]^-1 w[v]
            T s = op(op(w[x], d), neg(w[y]));
            for (int v : a.comp(y)) w[v] = op(s, w[v]);
            a.merge(x, y);
        }
        for (int k = 0; k < 3; ++k) {
            int p = rng(0, n - 1), qv = rng(0, n - 1);
            EQ(u.same(p, qv), a.same(p, qv));
            if (a.same(p, qv)) EQ(u.diff(p, qv), op(neg(w[p]), w[qv]));
        }
        EQ(u.diff(x, x), e);
    }
    observe_state(u, a, rng, true);
    for (int p = 0; p < n; ++p) { int qv = rng(0, n - 1); if (a.same(p, qv)) EQ(u.diff(p, qv), op(neg(w[p]), w[qv])); }
}
static Aff aopp(Aff x, Aff y) { return aop(x, y); }
SCENARIO(weighted_sum, 800) {
    int n = rng.size(1, 100); WeightedUnionFind<i64> u(n);
    weighted<i64>(rng, u, n, [](i64 x, i64 y) { return x + y; }, [](i64 x) { return -x; }, [&] { return rng.wides(-1000000000000LL, 1000000000000LL); }, 0);
}
static unsigned xop(unsigned a, unsigned b) { return a ^ b; } static unsigned xe() { return 0; } static unsigned xneg(unsigned a) { return a; }
SCENARIO(weighted_xor, 300) {
    int n = rng.size(1, 100); WeightedUnionFind<unsigned, xop, xe, xneg> u(n);
    weighted<unsigned>(rng, u, n, xop, xneg, [&] { return (unsigned)rng.u(); }, 0u);
}
SCENARIO(weighted_affine, 800) {
    int n = rng.size(1, 80); WeightedUnionFind<Aff, aop, ae, ainv> u(n);
    weighted<Aff>(rng, u, n, aopp, ainv, [&] { return Aff{ rng(1, P - 1), rng(0, P - 1) }; }, Aff{});
}
SCENARIO(large_chains, 6) { // amortised cost and recursion depth on adversarial orders
    int n = 200000; int dir = rng(0, 1);
    UnionFind u(n); LinkedUnionFind l(n); WeightedUnionFind<i64> w(n); UndoUnionFind z(n);
    for (int i = 0; i + 1 < n; ++i) { int x = dir ? i : n - 2 - i; u.merge(x, x + 1), l.merge(x + 1, x), w.merge(x, x + 1, 1), z.merge(x, x + 1); }
    EQ(u.size(0), n); EQ(z.size(n - 1), n); EQ(w.diff(0, n - 1), n - 1); EQ((int)l.connected_component(n / 2).size(), n);
    for (int k = 0; k < 100; ++k) { int x = rng(0, n - 1), y = rng(0, n - 1); EQ(w.diff(x, y), y - x); EQ(u.same(x, y), true); }
}

SCENARIO(log_depth, 2, 4) { // chains that grow the root end: without union by size every query walks a path of length n
    int n = 100000; UndoUnionFind z(n); std::vector<std::vector<i64>> iv(n, std::vector<i64>{ 1 }); UndoUnionFindComponentSum<std::vector<i64>, mg, un> w(iv); UnionFind u(n);
    bool d = rng.coin();
    for (int i = n - 2; i >= 0; --i) { if (d) z.merge(i, i + 1), w.merge(i, i + 1), u.merge(i, i + 1); else z.merge(i + 1, i), w.merge(i + 1, i), u.merge(i + 1, i); }
    for (int i = 0; i < 20000; ++i) { EQ(z.size(n - 1 - i), n); EQ(w.sum(n - 1 - i).back(), n); }
    EQ(u.size(n - 1), n);
}
// the same workloads at realistic sizes
RESCALE(union_find, 4, 8);
RESCALE(undo_component_sum, 4, 16);
RESCALE(undo_union_find, 4, 8);
RESCALE(weighted_sum, 4, 64);
RESCALE(linked_union_find, 4, 8);
RESCALE(weighted_affine, 4, 128);
RESCALE(component_sum, 4, 16);
RESCALE(weighted_xor, 4, 128);
