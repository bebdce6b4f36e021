// MON: shards=2
// util containers: run length encoder, cumulative sums, default_vector, object pool, 32-bit pointers, step sums/views
#include "mon.hpp"
#include <cstring>
#include <new>
#include <string>
#include <memory>
#include <set>
#include <list>
#include "library/util/run_length_encoder.hpp"
#include "library/util/cumulative_sum.hpp"
#include "library/util/cumulative_sum_2d.hpp"
#include "library/util/default_vector.hpp"
#include "library/util/object_pool.hpp"
#include "library/util/pointer_32bit.hpp"
#include "library/util/step_sum.hpp"
#include "library/util/step_view.hpp"
#include "library/util/zobrist_hash.hpp"
#include "library/util/vector_ops.hpp"
using namespace suisen;

// default-initialised object living in dirty storage, as a local variable would be
template <class T> struct Dirty {
    alignas(T) unsigned char buf[sizeof(T)];
    T* p;
    Dirty() { static int fill = 0; std::memset(buf, (fill += 85) & 255, sizeof buf); p = new (buf) T; }
    ~Dirty() { p->~T(); }
};

// ---------------------------------------------------------------- run length encoding
template <class C, class E>
static void rle_check(const RunLengthEncoder<C>& e, const std::vector<std::pair<E, long long>>& model, const char* where) {
    long long len = 0;
    for (auto& p : model) len += p.second;
    EQ(e.length(), len, where);
    EQ((i64)(e.end() - e.begin()), (i64)model.size(), where);
    EQ((i64)(e.cend() - e.cbegin()), (i64)model.size(), where);
    std::size_t i = 0;
    for (auto it = e.begin(); it != e.end(); ++it, ++i) { REQUIRE(it->first == model[i].first, where, i); EQ(it->second, model[i].second, where, i); }
    i = model.size();
    for (auto it = e.rbegin(); it != e.rend(); ++it) { --i; REQUIRE(it->first == model[i].first, where, i); EQ(it->second, model[i].second, where, i); }
    i = model.size();
    for (auto it = e.crbegin(); it != e.crend(); ++it) { --i; EQ(it->second, model[i].second, where, i); }
    EQ(i, (std::size_t)0);
    if (model.size()) {
        REQUIRE(e.front().first == model.front().first); EQ(e.front().second, model.front().second);
        REQUIRE(e.back().first == model.back().first); EQ(e.back().second, model.back().second);
    }
}
template <class E>
static void model_push(std::vector<std::pair<E, long long>>& m, E v, long long k) {
    if (m.size() && m.back().first == v) m.back().second += k; else m.emplace_back(v, k);
}
template <class E>
static long long model_pop(std::vector<std::pair<E, long long>>& m, long long k) {
    long long done = 0;
    while (k > 0 && m.size()) {
        long long t = std::min(k, m.back().second);
        m.back().second -= t; done += t; k -= t;
        if (m.back().second == 0) m.pop_back();
    }
    return done;
}
template <class C, class Mk>
static void rle_case(mon::Rng& rng, Mk mk) {
    using E = typename C::value_type;
    int n = rng.size(0, 40);
    C c = mk(n);
    std::vector<std::pair<E, long long>> model, model2;
    for (auto v : c) model_push<E>(model, v, 1);
    Dirty<RunLengthEncoder<C>> db;
    RunLengthEncoder<C> a(c), &b = *db.p;
    rle_check(a, model, "ctor");
    rle_check(b, model2, "default ctor");
    C alphabet = mk(6);
    int q = rng(0, 40);
    for (int i = 0; i < q; ++i) {
        switch (rng(0, 7)) {
        case 0: case 1: case 2: if (alphabet.size()) {
            E v = alphabet[rng(0, (i64)alphabet.size() - 1)];
            if (rng.coin()) { a.push_back(v); model_push<E>(model, v, 1); }
            else { long long k = rng.pct(10) ? rng(1, 1'000'000'000'000LL) : rng(1, 5); a.push_back(v, k); model_push<E>(model, v, k); }
        } break;
        case 3: case 4: {
            if (rng.coin()) { EQ(a.pop_back(), model_pop<E>(model, 1), "pop_back()"); }
            else { long long k = rng.pct(10) ? rng(1, 1'000'000'000'000LL) : rng(1, 9); EQ(a.pop_back(k), model_pop<E>(model, k), "pop_back(k)", k); }
        } break;
        case 5: a.swap(b); std::swap(model, model2); break;
        case 6: if (rng.pct(30)) { a.clear(); model.clear(); } break;
        case 7: if (rng.pct(30)) { a.swap(RunLengthEncoder<C>(c)); model.clear(); for (auto v : c) model_push<E>(model, v, 1); } break;
        }
        rle_check(a, model, "a after op");
        rle_check(b, model2, "b after op");
    }
}
SCENARIO(rle_string, 600) { rle_case<std::string>(rng, [&](int n) { return rng.string(n, rng(1, 3)); }); }
SCENARIO(rle_vector, 600) { rle_case<std::vector<int>>(rng, [&](int n) { return rng.vec<int>(n, 0, rng(0, 3)); }); }

// ---------------------------------------------------------------- cumulative sums
SCENARIO(cumsum_1d, 800) {
    int n = rng.size(0, 60);
    auto a = rng.vec<i64>(n, -1000000000, 1000000000);
    bool def = rng.pct(40);
    Dirty<CumulativeSum<i64>> ds;
    CumulativeSum<i64> s = def ? *ds.p : CumulativeSum<i64>(a);
    if (def) a.clear();
    int extra = rng(0, 20);
    for (int step = 0; step <= extra; ++step) {
        if (step) { i64 v = rng(-1000000000, 1000000000); s.push_back(v); a.push_back(v); }
        int m = a.size();
        for (int t = 0; t < 8; ++t) {
            int l = rng(0, m), r = rng(l, m);
            i64 w = 0; for (int i = l; i < r; ++i) w += a[i];
            EQ(s(l, r), w, l, r); EQ(s.sum(l, r), w, l, r);
        }
    }
}
struct XorM { u32 v; bool operator==(const XorM& o) const { return v == o.v; } };
static XorM xz() { return {0}; }
static XorM xa(XorM a, XorM b) { return {a.v ^ b.v}; }
SCENARIO(cumsum_1d_group, 400) {
    int n = rng.size(0, 60);
    std::vector<XorM> a(n);
    for (auto& x : a) x = {(u32)rng.u()};
    CumulativeSum<XorM, xz, xa, xa> s(a);
    for (int k = rng(0, 5); k--;) { XorM v{(u32)rng.u()}; a.push_back(v); s.push_back(v); ++n; }
    for (int t = 0; t < 30; ++t) {
        int l = rng(0, n), r = rng(l, n);
        u32 w = 0; for (int i = l; i < r; ++i) w ^= a[i].v;
        EQ(s(l, r).v, w, l, r);
    }
}
// a non-commutative group: invertible affine maps mod p; sum(l, r) must be sub(s[r], s[l])
SCENARIO(cumsum_2d, 600) {
    int n = rng.size(0, 12), m = n ? rng.size(0, 12) : 0;
    std::vector<std::vector<i64>> a(n, std::vector<i64>(m));
    for (auto& r : a) for (auto& x : r) x = rng(-1000000000, 1000000000);
    CumulativeSum2D<i64> s(a);
    for (int t = 0; t < 60; ++t) {
        int u = rng(0, n), d = rng(u, n), l = rng(0, m), r = rng(l, m);
        i64 w = 0; for (int i = u; i < d; ++i) for (int j = l; j < r; ++j) w += a[i][j];
        EQ(s(u, d, l, r), w, u, d, l, r);
    }
    // out-of-range or reversed rectangles yield zero
    EQ(s(n + 1, n, 0, 0), (i64)0); EQ(s(0, n + 1, 0, m), (i64)0); EQ(s(0, n, 0, m + 1), (i64)0);
    if (n) EQ(s(n, 0, 0, m), (i64)0);
    if (m) EQ(s(0, n, m, 0), (i64)0);
    Dirty<CumulativeSum2D<i64>> dflt;
    EQ((*dflt.p)(0, 1, 0, 1), (i64)0);
}
// ---------------------------------------------------------------- default_vector
SCENARIO(default_vector_ops, 800) {
    int n = rng.size(0, 10);
    auto a = rng.vec<int>(n, -5, 5);
    Dirty<default_vector<int>> dirty; auto& v = *dirty.p;
    if (rng.coin()) v = default_vector<int>(a.begin(), a.end());
    else if (rng.coin()) { v = default_vector<int>(n, 7); a.assign(n, 7); }
    else a.clear(), n = 0;
    int dv = 0; bool set = rng.pct(70);
    if (set) { dv = rng(-100, 100); v.set_default_value(dv); }
    const auto& cv = v;
    for (int q = rng(0, 40); q--;) {
        int i = rng(-3, 30);
        auto model = [&](int k) { return 0 <= k && k < (int)a.size() ? a[k] : dv; };
        switch (rng(0, 7)) {
        case 0: EQ(cv[i], model(i), i); break;
        case 1: EQ(cv.at(i), model(i), i); break;
        case 2: EQ(v.get_or_default(i), model(i), i); break;
        case 3: { int t = rng(-9, 9); EQ(v.get_or_default(i, t), (0 <= i && i < (int)a.size() ? a[i] : t), i); } break;
        case 4: case 5: if (i >= 0) {
            int x = rng(-50, 50);
            if (rng.coin()) v[i] = x; else v.at(i) = x;
            if (i >= (int)a.size()) a.resize(i + 1, dv);
            a[i] = x;
        } break;
        case 6: { int k = rng(0, 20); v.resize(k); a.resize(k, dv); } break;
        case 7: if (rng.coin()) { dv = rng(-100, 100); v.set_default_value(dv); } else { v.push_back(3); a.push_back(3); } break;
        }
        EQ(v.size(), (int)a.size());
        for (int k = 0; k < (int)a.size(); ++k) EQ(cv[k], a[k], k);
        if (rng.pct(5)) { default_vector<int> w = v; v = w; }
    }
}
SCENARIO(default_vector_string, 200) {
    default_vector<std::string> v;
    std::vector<std::string> a; std::string dv;
    for (int q = rng(0, 30); q--;) {
        int i = rng(0, 20);
        if (rng.pct(20)) { dv = rng.string(rng(0, 20), 26); v.set_default_value(dv); }
        if (rng.coin()) { v[i] += "x"; if (i >= (int)a.size()) a.resize(i + 1, dv); a[i] += "x"; }
        EQ(v.get_or_default(i), i < (int)a.size() ? a[i] : dv);
        EQ(v.get_or_default(i + 1, "tmp"), i + 1 < (int)a.size() ? a[i + 1] : std::string("tmp"));
        EQ(v.size(), (int)a.size());
    }
}
// ---------------------------------------------------------------- object pool
struct Node { int tag = -1; int other = 0; };
template <bool ext> static void pool_case(mon::Rng& rng) {
    int cap = ext ? (rng.coin() ? 0 : rng(0, 8)) : rng(0, 40);
    ObjectPool<Node, ext> pool = [&] { if (ext && cap == 0 && rng.coin()) return ObjectPool<Node, ext>(); return ObjectPool<Node, ext>(cap); }();
    EQ(pool.capacity(), cap); EQ(pool.size(), 0);
    std::vector<std::pair<Node*, int>> live; std::set<Node*> addr;
    int stamp = 0;
    for (int q = rng(0, 200); q--;) {
        int op = rng(0, 9);
        if (op <= 5) {
            if (!ext && (int)live.size() == cap) continue;
            Node* p = pool.alloc();
            REQUIRE(p != nullptr);
            REQUIRE(addr.insert(p).second, "object handed out twice");
            p->tag = ++stamp; p->other = -stamp;
            live.emplace_back(p, stamp);
        } else if (op <= 8) {
            if (live.empty()) continue;
            int k = rng(0, (i64)live.size() - 1);
            std::swap(live[k], live.back());
            pool.free(live.back().first); addr.erase(live.back().first); live.pop_back();
        } else if (rng.pct(10)) { pool.clear(); live.clear(); addr.clear(); }
        EQ(pool.size(), (int)live.size());
        REQUIRE(pool.capacity() >= pool.size());
        for (auto [p, s] : live) { EQ(p->tag, s, "live object overwritten"); EQ(p->other, -s); }
    }
}
SCENARIO(object_pool_fixed, 400) { pool_case<false>(rng); }
SCENARIO(object_pool_extend, 400) { pool_case<true>(rng); }
// ---------------------------------------------------------------- ptr32
struct Obj { std::string s; std::vector<int> v; Obj(std::string s = "", int n = 0) : s(std::move(s)), v(n, n) {} };
SCENARIO(ptr32_heap, 400) {
    using P = ptr32<Obj>;
    P::dealloc_all(rng.coin());
    if (rng.coin()) P::reserve(rng(0, 50));
    P nul, nul2(nullptr);
    REQUIRE(nul.is_null() && !nul.is_not_null() && nul == nul2 && !bool(nul) && nul == nullptr);
    std::vector<std::pair<P, std::pair<std::string, int>>> live; std::set<int> ids;
    for (int q = rng(0, 150); q--;) {
        if (live.empty() || rng.pct(60)) {
            std::string s = rng.string(rng(0, 25), 26); int n = rng(0, 5);
            P p;
            if (live.size() && rng.pct(20)) {   // build a copy of an object living in the pool
                auto& src = live[rng(0, (i64)live.size() - 1)];
                s = src.second.first; n = 0;
                p = P::alloc(src.first->s, 0);
            } else p = P::alloc(s, n);
            REQUIRE(p.is_not_null() && !p.is_null() && bool(p) && p != nul);
            REQUIRE(ids.insert(int(p)).second, "id handed out twice");
            EQ(sizeof(p), (std::size_t)4);
            live.push_back({p, {s, n}});
        } else {
            int k = rng(0, (i64)live.size() - 1);
            std::swap(live[k], live.back());
            ids.erase(int(live.back().first)); P::dealloc(live.back().first); live.pop_back();
        }
        for (auto& [p, m] : live) {
            EQ(p->s, m.first); EQ((int)(*p).v.size(), m.second);
            for (int x : p->v) EQ(x, m.second);
        }
        if (live.size() >= 2) {
            P a = live[0].first, b = live[1].first; int x = int(a), y = int(b);
            EQ(a < b, x < y); EQ(a <= b, x <= y); EQ(a > b, x > y); EQ(a >= b, x >= y); EQ(a == b, false); EQ(a != b, true);
            REQUIRE(P(x) == a);
        }
        if (live.size() && rng.pct(10)) { auto& e = live[rng(0, (i64)live.size() - 1)]; e.first->s += "z"; e.second.first += "z"; }
    }
    P::dealloc_all(rng.coin());
}
// ---------------------------------------------------------------- step sums
SCENARIO(step_sum, 800) {
    int n = rng.size(0, 40), st = rng.pct(20) ? rng(1, 60) : rng(1, 6);
    auto a = rng.vec<i64>(n, -1000000000, 1000000000);
    StepSum s(a, st);
    static_assert(std::is_same_v<decltype(s)::value_type, i64>);
    for (int i = 0; i < n; ++i) { i64 w = 0; for (int j = i; j >= 0; j -= st) w += a[j]; EQ(s.data()[i], w, i, st); EQ(std::as_const(s).data()[i], w, i, st); }
    for (int t = 0; t < 40; ++t) {
        int k = rng(0, st - 1), l = rng(0, n + 2), r = rng(0, n + 5);
        i64 w = 0; for (int i = l; i < std::min(r, n); ++i) if (i % st == k) w += a[i];
        EQ(s.sum(k, l, r), w, k, l, r, st, n); EQ(s(k, l, r), w, k, l, r, st, n);
    }
    if (rng.pct(10)) {
        StepSum<int> e; EQ(e(0, 0, 5), 0); EQ(e.sum(0, 0, 0), 0);
        std::list<int> li(a.begin(), a.end());
        StepSum<i64> sl(li, st);
        i64 w = 0; for (int i = 0; i < n; ++i) if (i % st == 0) w += (int)a[i];
        EQ(sl(0, 0, n), w);
    }
}
SCENARIO(step_view, 600) {
    int n = rng.size(1, 60);
    auto a = rng.vec<int>(n, -1000, 1000);
    int st = rng.coin() ? rng(1, 5) : -rng(1, 5);
    int start = rng(0, n - 1);
    int cnt = 0; for (int p = start; 0 <= p && p < n; p += st) ++cnt;
    cnt = rng(0, cnt);
    StepView<std::vector<int>> v(a, start, st, cnt);
    EQ(v.size(), (std::size_t)cnt);
    for (int i = 0; i < cnt; ++i) EQ(v[i], a[start + i * st], i);
    if (st < 0) { for (int i = 0; i < cnt; ++i) { v[i] += 3; EQ(v[i], a[start + i * st]); } return; }
    // random access iterator over a positive step
    using It = StepIterator<std::vector<int>::iterator>;
    int len = (n - 1 - start) / st + 1;
    std::vector<int> ext(a); ext.resize(start + len * st);   // the end position must exist
    It b(ext.begin() + start, st), e = b + len;
    EQ((i64)(e - b), (i64)len);
    std::vector<int> want; for (int i = 0; i < len; ++i) want.push_back(ext[start + i * st]);
    std::vector<int> got(b, e); EQV(got, want);
    for (int t = 0; t < 20; ++t) {
        int i = rng(0, len), j = rng(0, len);
        It x = b + i, y = j + b;
        EQ((i64)(x - y), (i64)(i - j)); EQ(x == y, i == j); EQ(x != y, i != j); EQ(x < y, i < j); EQ(x <= y, i <= j); EQ(x > y, i > j); EQ(x >= y, i >= j);
        if (i < len) { EQ(*x, want[i]); EQ(b[i], want[i]); It z = x; EQ(*z++, want[i]); REQUIRE(z - b == i + 1); It y2 = z--; REQUIRE(y2 - b == i + 1); REQUIRE(z == x); ++z; --z; EQ(*z, want[i]); z += len - i; REQUIRE(z == e); z -= len; REQUIRE(z == b); REQUIRE(e - (len - i) == x); }
    }
    std::sort(b, e); std::sort(want.begin(), want.end());
    std::vector<int> got2(b, e); EQV(got2, want);
    for (int i = 0; i < (int)a.size(); ++i) if (i < start || (i - start) % st) EQ(ext[i], a[i], "untouched element");
    if (len) { int key = want[rng(0, len - 1)]; EQ((i64)(std::lower_bound(b, e, key) - b), (i64)(std::lower_bound(want.begin(), want.end(), key) - want.begin())); }
}
// ---------------------------------------------------------------- zobrist hashes
template <class Z, class K, class H> static void zob_case(mon::Rng& rng, Z& z, K key, H) {
    // keys of distinct elements are distinct (64-bit: collision chance < 2^-50), stable, and sets hash by symmetric difference
    std::map<long long, H> seen; std::map<H, long long> back;
    std::set<long long> set1, set2; H h1 = z.empty_set(), h2 = z.empty_set();
    EQ((u64)h1, (u64)0);
    for (int q = rng(1, 120); q--;) {
        long long i = rng.pct(70) ? rng(0, 20) : rng(0, 60);
        H k = z(key(i));
        auto [it, fresh] = seen.emplace(i, k);
        EQ((u64)it->second, (u64)k, "key of an element changed", i);
        if (fresh) { auto [jt, ok] = back.emplace(k, i); REQUIRE(ok || sizeof(H) < 8, "two elements share a key", i, jt->second); }
        EQ((u64)z.sigleton_set(key(i)), (u64)k);
        auto& S = rng.coin() ? set1 : set2; H& h = &S == &set1 ? h1 : h2;
        h = z.flip(h, key(i));
        if (!S.insert(i).second) S.erase(i);
        H w = 0; for (auto x : S) w ^= seen[x];
        EQ((u64)h, (u64)w, "set hash");
        H wx = 0; for (auto x : set1) if (!set2.count(x)) wx ^= seen[x];
        for (auto x : set2) if (!set1.count(x)) wx ^= seen[x];
        EQ((u64)z.xor_set(h1, h2), (u64)wx);
        if (sizeof(H) == 8 && set1 != set2) REQUIRE(h1 != h2, "distinct sets collide");
    }
}
SCENARIO(zobrist_vec, 150) {
    if (rng.coin()) { VecZobristHash<> z; zob_case(rng, z, [](long long i) { return (std::size_t)i; }, u64{}); }
    else { VecZobristHash<> z(rng(0, 40)); zob_case(rng, z, [](long long i) { return (std::size_t)i; }, u64{}); }
    VecZobristHash<int> z32(rng(0, 40)); zob_case(rng, z32, [](long long i) { return (std::size_t)i; }, u32{});
}
SCENARIO(zobrist_arr, 100) { ArrZobristHash<60> z; zob_case(rng, z, [](long long i) { return (std::size_t)i; }, u64{}); }
SCENARIO(zobrist_map, 100) {
    if (rng.coin()) { MapZobristHash<std::string> z; zob_case(rng, z, [](long long i) { return "k" + std::to_string(i); }, u64{}); }
    else {
        std::vector<long long> uni; for (int k = rng(0, 30); k--;) uni.push_back(rng(0, 60) * 1000000007LL);
        MapZobristHash<long long, long long> z(uni); zob_case(rng, z, [](long long i) { return i * 1000000007LL; }, u64{});
    }
}
// ---------------------------------------------------------------- vector operators
SCENARIO(vector_ops, 600) {
    int n = rng.size(0, 10), m = rng.size(0, 10);
    auto a = rng.vec<int>(n, -9, 9), b = rng.vec<int>(m, -9, 9);
    auto cat = [](std::vector<int> x, const std::vector<int>& y) { x.insert(x.end(), y.begin(), y.end()); return x; };
    EQV((a + b), cat(a, b));
    { auto c = a; auto& r = (c += b); REQUIRE(&r == &c); EQV(c, cat(a, b)); }
    { auto c = a; c += c; EQV(c, cat(a, a)); }
    { auto c = a; int x = 5; c += x; EQV(c, cat(a, {5})); EQV((a + x), cat(a, {5})); }
    { auto c = a; c += 6; EQV(c, cat(a, {6})); EQV((a + 6), cat(a, {6})); }
    int k = rng(0, 5); std::vector<int> w; for (int i = 0; i < k; ++i) w = cat(w, a);
    EQV((a * k), w);
    { auto c = a; auto& r = (c *= k); REQUIRE(&r == &c); EQV(c, w); }
    if (n) { auto c = a; c += c[0]; EQV(c, cat(a, {a[0]})); }
}
// the same workloads at realistic sizes
RESCALE(rle_string, 4, 512);
RESCALE(rle_vector, 4, 512);
RESCALE(cumsum_1d, 4, 512);
RESCALE(cumsum_1d_group, 4, 512);
RESCALE(default_vector_ops, 4, 512);
RESCALE(step_view, 4, 512);
RESCALE(vector_ops, 4, 512);
RESCALE(step_sum, 4, 512);
RESCALE(cumsum_2d, 4, 256);
