#include "mon.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp"
#include "library/datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/static_rectangle_add_rectangle_sum.hpp"
#include <atcoder/modint>
using namespace suisen; using mon::Rng; using mint = atcoder::modint998244353;
static u64 ad(u64 a, u64 b) { return a + b; } static u64 ze() { return 0; } static u64 ng(u64 a) { return -a; }
static int mx(int a, int b) { return std::max(a, b); } static int mne() { return INT_MIN; }
static i64 coord(Rng& rng, int W, bool big) { i64 c = rng(-W, W); return big ? c * 100000000LL : c; }
template <class Index> std::array<Index, 3> cube_pt(Rng& rng, int W, bool big) { return { (Index)coord(rng, W, big), (Index)coord(rng, W, big), (Index)coord(rng, W, big) }; }
template <class Index, int K> void compressed(Rng& rng) {
    using F = CompressedFenwickTree<u64, ad, ze, ng, K, Index>; using G = CompressedFenwickTreePrefix<int, mx, mne, K, Index>;
    F f; G g; int W = rng(1, 12); bool big = std::is_same_v<Index, i64> && rng.coin();
    int m = rng.size(0, K == 3 ? 20 : 60); std::vector<std::array<Index, 3>> pts; std::vector<std::pair<u64, int>> val;
    auto conv = [&](const std::array<Index, 3>& p) { if constexpr (K == 1) return p[0]; else { std::array<Index, K> r; for (int i = 0; i < K; ++i) r[i] = p[i]; return r; } };
    for (int i = 0; i < m; ++i) { auto p = cube_pt<Index>(rng, W, big); for (int j = K; j < 3; ++j) p[j] = 0; pts.push_back(p); f.add_point(conv(p)); g.add_point(conv(p)); }
    f.build(); g.build();
    std::map<std::array<Index, 3>, u64> A; std::map<std::array<Index, 3>, int> B;
    for (int q = rng.size(1, 60); q--;) {
        if (m && rng.coin()) { auto p = pts[rng(0, m - 1)]; u64 v = rng.u(); int w = rng(-1000, 1000); LOG("apply", p, v, w); f.apply(conv(p), v); A[p] += v; g.apply(conv(p), w); auto it = B.emplace(p, w).first; it->second = std::max(it->second, w); }
        auto l = cube_pt<Index>(rng, W + 1, big), r = cube_pt<Index>(rng, W + 1, big); for (int i = 0; i < 3; ++i) { if (l[i] > r[i]) std::swap(l[i], r[i]); if (i >= K) l[i] = 0, r[i] = 1; }
        u64 e = 0; for (auto& [p, v] : A) { bool in = true; for (int i = 0; i < K; ++i) in &= l[i] <= p[i] && p[i] < r[i]; if (in) e += v; }
        if constexpr (K == 1) { EQ(f.query(l[0], r[0]), e); EQ(f.query({ l[0], r[0] }), e); }
        else { std::array<std::pair<Index, Index>, K> c; for (int i = 0; i < K; ++i) c[i] = { l[i], r[i] }; EQ(f.query(c), e); }
        int b = INT_MIN; for (auto& [p, v] : B) { bool in = true; for (int i = 0; i < K; ++i) in &= p[i] < r[i]; if (in) b = std::max(b, v); }
        EQ(g.prefix_query(conv(r)), b);
    }
}
SCENARIO(compressed_1d, 400) { if (rng.coin()) compressed<int, 1>(rng); else compressed<i64, 1>(rng); }
SCENARIO(compressed_2d, 400) { if (rng.coin()) compressed<int, 2>(rng); else compressed<i64, 2>(rng); }
SCENARIO(compressed_3d, 300) { compressed<int, 3>(rng); }
SCENARIO(sparse_2d, 800) {
    int W = rng(1, 15), sc = rng.coin() ? 1 : 100000000; int m = rng.size(0, 60); std::vector<std::pair<int, int>> pts;
    for (int i = 0; i < m; ++i) pts.emplace_back(rng(-W, W) * sc, rng(-W, W) * sc);
    std::set<int> xs; for (auto& p : pts) xs.insert(p.first);
    FenwickTree2DSparse<i64> f((int)xs.size() + (int)rng(0, 2)); for (auto [x, y] : pts) f.add_point(x, y); f.build();
    std::map<std::pair<int, int>, i64> A;
    for (int q = rng.size(1, 60); q--;) {
        if (m) {
            auto [x, y] = pts[rng(0, m - 1)]; i64 v = rng(-1000000, 1000000);
            switch (rng(0, 3)) {
            case 0: f.add(x, y, v); A[{x, y}] += v; break;
            case 1: f.set(x, y, v); A[{x, y}] = v; break;
            case 2: f.apply(x, y, [&](i64 o) { return 2 * o + v; }); A[{x, y}] = 2 * A[{x, y}] + v; if (std::abs(A[{x, y}]) > 1e12) f.set(x, y, 0), A[{x, y}] = 0; break;
            }
            EQ(f.get(x, y), (A[{x, y}]));
        }
        int l = rng(-W - 1, W + 1) * sc, r = rng(-W - 1, W + 1) * sc, d = rng(-W - 1, W + 1) * sc, u = rng(-W - 1, W + 1) * sc; if (l > r) std::swap(l, r); if (d > u) std::swap(d, u);
        i64 e = 0; for (auto& [p, v] : A) if (l <= p.first && p.first < r && d <= p.second && p.second < u) e += v;
        EQ(f(l, r, d, u), e); EQ(f.sum(l, r, d, u), e);
    }
}
SCENARIO(offline_rect_add_point_get, 800) {
    OfflineRectangleAddPointGet<i64> o; OfflineRectangleAddPointGet<i64, i64> o2; int W = rng(1, 10); struct R { int l, r, d, u; i64 w; }; std::vector<R> rs; std::vector<i64> e; i64 S = 1000000000000LL;
    for (int q = rng.size(0, 80); q--;) {
        if (rng.coin()) { int l = rng(-W, W), r = rng(l, W), d = rng(-W, W), u = rng(d, W); i64 w = rng(-1000000, 1000000); LOG("add", l, r, d, u, w); o.add(l, r, d, u, w); o2.add(l * S, r * S, d * S, u * S, w); rs.push_back({ l, r, d, u, w }); }
        else { int x = rng(-W - 1, W + 1), y = rng(-W - 1, W + 1); LOG("get", x, y); o.get(x, y); o2.get(x * S, y * S); i64 s = 0; for (auto& t : rs) if (t.l <= x && x < t.r && t.d <= y && y < t.u) s += t.w; e.push_back(s); }
    }
    EQV(o.solve(), e); EQV(o2.solve(), e); EQV(o.solve(), e);
}
struct RQ { int l, r, d, u; };
static RQ rect(Rng& rng, int W, int sc) { int l = rng(-W, W), r = rng(l, W), d = rng(-W, W), u = rng(d, W); return { l * sc, r * sc, d * sc, u * sc }; }
static mint inter(const RQ& a, const RQ& b) { i64 x = std::min(a.r, b.r) - (i64)std::max(a.l, b.l), y = std::min(a.u, b.u) - (i64)std::max(a.d, b.d); return x > 0 && y > 0 ? mint(x) * mint(y) : mint(0); }
SCENARIO(rect_add_rect_sum, 600) {
    int W = rng(1, 12), sc = rng.coin() ? 1 : 50000000; int m = rng.size(0, 30); std::vector<RQ> rs; std::set<int> xs;
    for (int i = 0; i < m; ++i) { rs.push_back(rect(rng, W, sc)); xs.insert(rs.back().l), xs.insert(rs.back().r); }
    RectangleAddRectangleSum<mint> t((int)xs.size()); for (auto& r : rs) t.register_add_query_rectangle(r.l, r.r, r.d, r.u); t.build();
    std::vector<std::pair<RQ, mint>> done;
    for (int q = rng.size(1, 40); q--;) {
        if (m && rng.coin()) { auto r = rs[rng(0, m - 1)]; mint v = rng(0, 998244352); t.add(r.l, r.r, r.d, r.u, v); done.push_back({ r, v }); }
        auto s = rect(rng, W, sc); mint e = 0; for (auto& [r, v] : done) e += v * inter(r, s); EQ(t.sum(s.l, s.r, s.d, s.u), e);
    }
    // the offline version on the same data
    std::vector<AddQuery<mint>> aq; std::vector<SumQuery> sq; std::vector<mint> e;
    for (auto& [r, v] : done) aq.emplace_back(r.l, r.r, r.d, r.u, v);
    for (int k = rng(0, 20); k--;) { auto s = rect(rng, W, sc); sq.emplace_back(s.l, s.r, s.d, s.u); mint x = 0; for (auto& [r, v] : done) x += v * inter(r, s); e.push_back(x); }
    EQV(static_rectangle_add_rectangle_sum<mint>(aq, sq), e);
}
// the same workloads at realistic sizes
RESCALE(compressed_1d, 4, 512);
RESCALE(compressed_2d, 4, 512);
RESCALE(sparse_2d, 4, 512);
RESCALE(compressed_3d, 4, 256);
RESCALE(rect_add_rect_sum, 4, 256);
RESCALE(offline_rect_add_point_get, 4, 512);
