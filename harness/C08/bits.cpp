#include "mon.hpp"
#include <sstream>
#include "library/datastructure/util/dynamic_bitset.hpp"
#include "library/datastructure/util/static_bitset.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/datastructure/bit_vector.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
using VB = std::vector<char>;
namespace {
bool less_num(const VB& x, const VB& y) { for (int i = (int)x.size(); i--;) if (x[i] != y[i]) return x[i] < y[i]; return false; }
VB rnd(Rng& rng, int n) { VB v(n); int p = rng.coin() ? 50 : rng(0, 100); for (auto& c : v) c = rng.pct(p); return v; }
}
SCENARIO(dynamic_bitset, 700) {
    static const int edge[] = { 0, 1, 2, 63, 64, 65, 127, 128, 129, 192, 300 };
    auto len = [&] { return rng.coin() ? rng.pick(std::vector<int>(std::begin(edge), std::end(edge))) : (int)rng.size(0, 260); };
    auto mk = [&](const VB& v) { DynamicBitSet d(v.size(), rng.coin()); for (int i = 0; i < (int)v.size(); ++i) d[i] = (bool)v[i]; return d; };
    auto audit = [&](const DynamicBitSet& d, const VB& a) { int n = (int)a.size(); EQ(d.size(), n); EQ(d.empty(), n == 0); int c = 0; for (int i = 0; i < n; ++i) { EQ((int)d[i], (int)a[i]); c += a[i]; } EQ(d.count(), c); EQ(d.any(), c > 0); EQ((bool)d, c > 0); EQ(d.none(), c == 0); EQ(d.all(), c == n); int f = 0; while (f < n && !a[f]) ++f; EQ(d.find_first(), f); std::vector<int> g, w; for (int i = d.find_first(); i < n; i = d.find_next(i)) g.push_back(i); for (int i = 0; i < n; ++i) if (a[i]) w.push_back(i); EQV(g, w); if (n) { int p = rng(0, n - 1), q = p + 1; while (q < n && !a[q]) ++q; EQ(d.find_next(p), q); } };
    int n = len(); bool fv = rng.coin(); DynamicBitSet d(n, fv); VB a(n, fv);
    for (int q = rng.size(1, 40); q--;) {
        n = (int)a.size(); int l = rng(0, n), r = rng(l, n), op = rng(0, 19); LOG("op", op, n, l, r);
        switch (op) {
        case 0: d.range_set(l, r); std::fill(a.begin() + l, a.begin() + r, 1); break;
        case 1: d.range_reset(l, r); std::fill(a.begin() + l, a.begin() + r, 0); break;
        case 2: d.range_flip(l, r); for (int i = l; i < r; ++i) a[i] ^= 1; break;
        case 3: { bool v = rng.coin(); d.range_update(l, r, v); std::fill(a.begin() + l, a.begin() + r, v); break; }
        case 4: EQ(d.range_count(l, r), (int)std::count(a.begin() + l, a.begin() + r, 1)); break;
        case 5: { int m = len(); bool v = rng.coin(); d.resize(m, v); a.resize(m, v); break; }
        case 6: for (int t = rng(1, 70); t--;) { bool v = rng.coin(); d.push_back(v); a.push_back(v); } break;
        case 7: for (int t = rng(1, 70); t-- && !a.empty();) { d.pop_back(); a.pop_back(); } break;
        case 8: { int s = rng.coin() ? rng(0, n + 5) : 64 * rng(0, 4); if (rng.coin()) d = d << s; else d <<= s; VB b(n); for (int i = s; i < n; ++i) b[i] = a[i - s]; a = b; break; }
        case 9: { int s = rng.coin() ? rng(0, n + 5) : 64 * rng(0, 4); if (rng.coin()) d = d >> s; else d >>= s; VB b(n); for (int i = 0; i + s < n; ++i) b[i] = a[i + s]; a = b; break; }
        case 10: d = ~d; for (auto& c : a) c ^= 1; break;
        case 11: case 12: { VB b = rnd(rng, n); auto e = mk(b); int k = rng(0, 5); if (k == 0) d &= e; if (k == 1) d |= e; if (k == 2) d ^= e; if (k == 3) d = d & e; if (k == 4) d = d | e; if (k == 5) d = d ^ e; for (int i = 0; i < n; ++i) a[i] = k % 3 == 0 ? a[i] & b[i] : k % 3 == 1 ? a[i] | b[i] : a[i] ^ b[i]; audit(e, b); break; }
        case 13: case 14: { VB b = a; if (n && rng.pct(70)) b[rng(0, n - 1)] ^= 1; if (rng.pct(20)) b = rnd(rng, n); auto e = mk(b); EQ(d == e, a == b); EQ(d != e, a != b); EQ(d < e, less_num(a, b)); EQ(d <= e, !less_num(b, a)); EQ(d > e, less_num(b, a)); EQ(d >= e, !less_num(a, b)); if (rng.coin()) { b.push_back(0); e.push_back(0); REQUIRE(d != e && !(d == e)); } break; }
        case 15: { VB b = rnd(rng, len()); if (rng.coin()) for (int i = 0; i < (int)std::min(a.size(), b.size()); ++i) if (!rng.pct(1)) b[i] &= !a[i]; bool h = false; for (int i = 0; i < (int)std::min(a.size(), b.size()); ++i) h |= a[i] & b[i]; auto e = mk(b); EQ(d.has_intersection(e), h); EQ(e.has_intersection(d), h); EQ(d.is_disjoint(e), !h); break; }
        case 16: if (n) for (int t = 0; t < 10; ++t) { int i = rng(0, n - 1), j = rng(0, n - 1); bool v = rng.coin(); switch (rng(0, 7)) { case 0: d[i] &= v; a[i] &= v; break; case 1: d[i] |= v; a[i] |= v; break; case 2: d[i] ^= v; a[i] ^= v; break; case 3: d[i] = d[j]; a[i] = a[j]; break; case 4: d[i].set(); a[i] = 1; break; case 5: d[i].reset(); a[i] = 0; break; case 6: d[i].flip(); a[i] ^= 1; break; default: EQ(d[i].test(), (bool)a[i]); EQ((bool)d[i], (bool)a[i]); } } break;
        case 17: d.set(); std::fill(a.begin(), a.end(), 1); break;
        case 18: if (rng.coin()) { d.reset(); std::fill(a.begin(), a.end(), 0); } break;
        default: { a = rnd(rng, n); d = mk(a); } }
        audit(d, a);
    }
}
template <size_t N> void run_sb(Rng& rng) {
    static_bitset<N> d; VB a(N, 0); auto mk = [&](const VB& v) { static_bitset<N> s; for (size_t i = 0; i < N; ++i) if (v[i] || rng.pct(5)) s.set(i, v[i]); return s; };
    auto audit = [&] { const auto& c = d; bool any = false; for (size_t i = 0; i < N; ++i) { EQ((int)c[i], (int)a[i]); any |= a[i]; } EQ((bool)d, any); std::ostringstream os; os << d; S w; for (size_t i = N; i--;) w += char('0' + a[i]); EQ(os.str(), w); auto dat = d.data(); for (size_t i = 0; i < N; ++i) EQ((int)(dat[i >> 6] >> (i & 63) & 1), (int)a[i]); if (rng.pct(10)) { static_bitset<N> e(dat); REQUIRE(e == d); } };
    for (int q = rng.size(1, 30); q--;) {
        int n = N, l = rng(0, n), r = rng(l, n), op = rng(0, 8); LOG("op", op, l, r);
        switch (op) {
        case 0: d.range_set(l, r); std::fill(a.begin() + l, a.begin() + r, 1); break;
        case 1: d.range_set(l, r, false); std::fill(a.begin() + l, a.begin() + r, 0); break;
        case 2: { int i = rng(0, n - 1); bool v = rng.coin(); if (v && rng.coin()) d.set(i); else d.set(i, v); a[i] = v; i = rng(0, n - 1); d.flip(i); a[i] ^= 1; break; }
        case 3: { int s = rng.coin() ? rng(0, n + 5) : 64 * rng(0, 4); if (rng.coin()) d = d << s; else d <<= s; VB b(n); for (int i = s; i < n; ++i) b[i] = a[i - s]; a = b; break; }
        case 4: { int s = rng.coin() ? rng(0, n + 5) : 64 * rng(0, 4); if (rng.coin()) d = d >> s; else d >>= s; VB b(n); for (int i = 0; i + s < n; ++i) b[i] = a[i + s]; a = b; break; }
        case 5: d = ~d; for (auto& c : a) c ^= 1; break;
        case 6: { VB b = rnd(rng, n); auto e = mk(b); int k = rng(0, 5); if (k == 0) d &= e; if (k == 1) d |= e; if (k == 2) d ^= e; if (k == 3) d = d & e; if (k == 4) d = d | e; if (k == 5) d = d ^ e; for (int i = 0; i < n; ++i) a[i] = k % 3 == 0 ? a[i] & b[i] : k % 3 == 1 ? a[i] | b[i] : a[i] ^ b[i]; break; }
        case 7: { VB b = a; if (rng.pct(70)) b[rng(0, n - 1)] ^= 1; if (rng.pct(20)) b = rnd(rng, n); auto e = mk(b); EQ(d == e, a == b); EQ(d != e, a != b); EQ(d < e, less_num(a, b)); EQ(d <= e, !less_num(b, a)); EQ(d > e, less_num(b, a)); EQ(d >= e, !less_num(a, b)); break; }
        default: if (rng.coin()) { d.clear(); std::fill(a.begin(), a.end(), 0); } else { a = rnd(rng, n); d = mk(a); } }
        audit();
    }
}
SCENARIO(static_bitset, 600) { switch (rng(0, 7)) { case 0: run_sb<1>(rng); break; case 1: run_sb<10>(rng); break; case 2: run_sb<63>(rng); break; case 3: run_sb<64>(rng); break; case 4: run_sb<65>(rng); break; case 5: run_sb<128>(rng); break; case 6: run_sb<129>(rng); break; default: run_sb<200>(rng); } }
SCENARIO(bit_vector, 500) {
    int n = rng.coin() ? rng.size(0, 40) : rng.size(0, 1100); VB a = rnd(rng, n); BitVector b; if (rng.coin()) b = BitVector(n, [&](int i) -> bool { return a[i]; }); else { BitVector c(n); c.build([&](int i) -> bool { return a[i]; }); if (rng.coin()) b = c; else b = std::move(c); } BitVector d; if (rng.coin()) { VB o = rnd(rng, rng.coin() ? n : (int)rng(0, n + 20)); d = BitVector((int)o.size(), [&](int i) -> bool { return o[i]; }); } d = b; if (rng.pct(10)) { BitVector& same = d; d = same; }
    std::vector<int> pre(n + 1); for (int i = 0; i < n; ++i) pre[i + 1] = pre[i] + a[i];
    for (int i = 0; i <= n; ++i) { EQ(d.rank(true, i), pre[i]); EQ(d.rank(false, i), i - pre[i]); if (i < n) { EQ((bool)b[i], (bool)a[i]); EQ(b.access(i), (bool)a[i]); } }
    for (int t = 0; t < 10; ++t) { int l = rng(0, n), r = rng(l, n); EQ(b.rank(true, l, r), pre[r] - pre[l]); EQ(b.rank(false, l, r), r - l - pre[r] + pre[l]); }
    for (int t = 0; t < 20; ++t) { bool v = rng.coin(); int k = rng(1, n + 2), w = -7; for (int i = 0; i <= n; ++i) if ((v ? pre[i] : i - pre[i]) == k) { w = i; break; } EQ(b.select(v, k, -7), w); if (w == -7) EQ(b.select(v, k), -1); }
}
template <bool MERGE> void run_rs(Rng& rng) {
    RangeSet<i64, MERGE> s; int w = rng.coin() ? 12 : 60; std::set<int> a; // model: elements
    // MERGE=false: touching ranges stay separate, overlapping ones are joined; model keeps the ranges themselves
    std::map<int, int> rg;
    for (int q = rng.size(1, 60); q--;) {
        int l = rng(-w, w), r = rng.pct(10) ? l - 1 : std::min<int>(w, l + rng.size(0, 10)), op = rng(0, 9); if (rng.pct(30)) r = std::min(r, l); LOG("op", op, l, r);
        if (op < 4) { int c = 0; for (int i = l; i <= r; ++i) c += a.insert(i).second; if (l == r && rng.coin()) EQ(s.insert(l), (i64)c); else EQ(s.insert(l, r), (i64)c);
            if (l <= r) { int nl = l, nr = r; for (auto it = rg.begin(); it != rg.end();) { if (it->first <= r + MERGE && it->second >= l - MERGE) { nl = std::min(nl, it->first); nr = std::max(nr, it->second); it = rg.erase(it); } else ++it; } rg[nl] = nr; } }
        else if (op < 7) { int c = 0; for (int i = l; i <= r; ++i) c += a.erase(i); if (l == r && rng.coin()) EQ(s.erase(l), (i64)c); else EQ(s.erase(l, r), (i64)c);
            if (l <= r) { std::map<int, int> n; for (auto [x, y] : rg) { if (y < l || x > r) n[x] = y; else { if (x < l) n[x] = l - 1; if (y > r) n[r + 1] = y; } } rg = n; } }
        else { int x = rng(-w - 1, w + 1), y = rng(-w - 1, w + 1); if (rng.coin()) y = x + rng(-3, 3); auto own = [&](int x) { for (auto it = rg.begin(); it != rg.end(); ++it) if (it->first <= x && x <= it->second) return it; return rg.end(); };
            EQ(s.contains(x), a.count(x) == 1); auto it = s.find_range(x); auto o = own(x); EQ(it != s.end(), o != rg.end()); if (o != rg.end()) { EQ(it->first, (i64)o->first); EQ(it->second, (i64)o->second); }
            EQ(s.in_the_same_range(x, y), o != rg.end() && own(y) == o);
            if constexpr (MERGE) { int m = x; while (a.count(m)) ++m; EQ(s.minimum_excluded(x), (i64)m); m = x; while (a.count(m)) --m; EQ(s.maximum_excluded(x), (i64)m); m = 0; while (a.count(m)) ++m; EQ(s.minimum_excluded(), (i64)m); } }
        EQ(s.size(), (i64)a.size()); EQ(s.number_of_elements(), (i64)a.size()); EQ(s.number_of_ranges(), (int)rg.size()); std::vector<std::pair<i64, i64>> g(s.begin(), s.end()), ww(rg.begin(), rg.end()); REQUIRE(g == ww, "range lists differ");
    }
}
SCENARIO(range_set_merge, 500) { run_rs<true>(rng); }
SCENARIO(range_set_nomerge, 500) { run_rs<false>(rng); }
// the same workloads at realistic sizes
RESCALE(bit_vector, 4, 512);
RESCALE(range_set_merge, 4, 512);
RESCALE(static_bitset, 4, 512);
RESCALE(range_set_nomerge, 4, 512);
RESCALE(dynamic_bitset, 4, 32);
