// MON: shards=2
#include "mon.hpp"
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/priority_queue.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/util/priority_sum.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
// values: (key, uid) ordered by key only so that ties are real ties but identity is tracked
struct V { int k = 0, id = 0; std::shared_ptr<int> tok; V() {} V(int k, int id) : k(k), id(id), tok(std::make_shared<int>(id)) {} };
struct LessV { int sgn = 1; bool operator()(const V& a, const V& b) const { return sgn * a.k < sgn * b.k; } };
using Ref = std::multimap<int, int>; // sgn*key -> id
template <class F> void take(Ref& m, const V& v, F key) { REQUIRE(v.tok && *v.tok == v.id, "moved-from element returned"); auto [l, r] = m.equal_range(key(v)); for (; l != r; ++l) if (l->second == v.id) { m.erase(l); return; } FAIL("popped an element that is not in the heap"); }
template <class H, bool MIN> void run_bin(Rng& rng) {
    LessV cmp{ rng.coin() ? 1 : -1 }; auto key = [&](const V& v) { return cmp.sgn * v.k; }; Ref m; int id = 0, w = rng.coin() ? 3 : 1000; auto mk = [&] { V v((int)rng(-w, w), id++); return v; };
    std::vector<V> ini; if (rng.coin()) for (int i = rng.size(0, 40); i--;) ini.push_back(mk());
    H h = ini.empty() ? H(cmp) : rng.coin() ? H(ini.begin(), ini.end(), cmp) : H(ini, cmp); for (auto& v : ini) m.emplace(key(v), v.id);
    auto best = [&] { return MIN ? m.begin()->first : m.rbegin()->first; };
    int pp = rng(20, 70);
    for (int q = rng.size(1, 120); q--;) {
        int op = rng(0, 99); LOG("op", op, h.size());
        if (op < pp && !m.empty() && rng.pct(5)) { m.emplace(key(h.top()), h.top().id); h.push(h.top()); } // the argument is one of its own elements
        else if (op < pp) { V v = mk(); if (rng.coin()) h.push(v); else { h.emplace(v.k, v.id); } m.emplace(key(v), v.id); }
        else if (op < 95) { if (m.empty()) continue; int b = best(); EQ(key(h.top()), b); V v = h.pop(); EQ(key(v), b); take(m, v, key); }
        else if (op == 95) { H c = h; Ref n = m; while (!n.empty()) { int b = MIN ? n.begin()->first : n.rbegin()->first; V v = c.pop(); EQ(key(v), b); take(n, v, key); } REQUIRE(c.empty()); }
        else if (op == 96) { auto& d = h.data(); for (int t = rng(0, 3); t--;) { V v = mk(); d.push_back(v); m.emplace(key(v), v.id); } rng.shuffle(d); h.construct_heap(); }
        else if (op == 97 && rng.pct(20)) { h.clear(); m.clear(); h.shrink_to_fit(); }
        else { h.reserve(rng(0, 64)); H t = std::move(h); h = std::move(t); }
        EQ(h.size(), (int)m.size()); EQ(h.empty(), m.empty()); if (!m.empty()) { EQ(key(h.top()), best()); EQ(key(std::as_const(h).data().front()), best()); } if (rng.pct(10)) h.check_heap_property();
    }
    while (!m.empty()) { int b = best(); V v = h.pop(); EQ(key(v), b); take(m, v, key); } REQUIRE(h.empty() && h.size() == 0);
}
SCENARIO(min_binary_heap, 600) { run_bin<MinBinaryHeap<V, LessV>, true>(rng); }
SCENARIO(max_binary_heap, 600) { run_bin<MaxBinaryHeap<V, LessV>, false>(rng); }
SCENARIO(priority_queue_alias, 300) {
    MinPriorityQueue<i64> a; MaxPriorityQueue<i64> b; std::multiset<i64> m;
    MinPriorityQueue<i64, std::greater<i64>> c;
    for (int q = rng.size(1, 80); q--;) { i64 v = rng.pct(30) ? rng.wides(-(i64)9e18, (i64)9e18) : rng(-5, 5); if (rng.pct(60) || m.empty()) { a.push(v); b.push(v); c.push(v); m.insert(v); } else if (rng.coin()) { EQ(a.pop(), *m.begin()); MaxPriorityQueue<i64> n; MinPriorityQueue<i64, std::greater<i64>> n2; m.erase(m.begin()); for (i64 x : m) n.push(x), n2.push(x); b = n; c = n2; } else { EQ(b.pop(), *m.rbegin()); EQ(c.pop(), *m.rbegin()); m.erase(std::prev(m.end())); MinPriorityQueue<i64> n(std::vector<i64>(m.begin(), m.end())); a = n; }
        if (!m.empty()) { EQ(a.top(), *m.begin()); EQ(b.top(), *m.rbegin()); EQ(c.top(), *m.rbegin()); } }
}
template <class H, bool DE> void run_minmax(Rng& rng) {
    LessV cmp{ rng.coin() ? 1 : -1 }; auto key = [&](const V& v) { return cmp.sgn * v.k; }; Ref m; int id = 0, w = rng.coin() ? 3 : 1000; auto mk = [&] { V v((int)rng(-w, w), id++); return v; };
    std::vector<std::unique_ptr<H>> box; // heaps are copied and moved between owners; the old owner dies
    std::vector<V> ini; if constexpr (DE) if (rng.coin()) for (int i = rng.size(0, 40); i--;) ini.push_back(mk());
    std::unique_ptr<H> h; if constexpr (DE) { if (ini.empty()) h.reset(new H(cmp)); else if (rng.coin()) h.reset(new H(ini.begin(), ini.end(), cmp)); else h.reset(new H(ini, cmp)); } else h.reset(new H(cmp));
    for (auto& v : ini) m.emplace(key(v), v.id);
    int pp = rng(20, 70), mode = rng(0, 2);
    auto pop = [&](bool mx, H& h, Ref& m) { int b = mx ? m.rbegin()->first : m.begin()->first; V v; if constexpr (DE) v = mx ? (rng.coin() ? h.pop() : h.pop_max()) : h.pop_min(); else v = mx ? h.pop_max() : h.pop_min(); EQ(key(v), b); take(m, v, key); };
    for (int q = rng.size(1, 150); q--;) {
        if (rng.pct(4)) pp = rng(20, 75), mode = rng(0, 2);
        int op = rng(0, 99); LOG("op", op, h->size());
        if (op < pp && !m.empty() && rng.pct(5)) { const V& v = rng.coin() ? h->max() : h->min(); m.emplace(key(v), v.id); h->push(v); }
        else if (op < pp) { V v = mk(); if (rng.coin()) h->push(v); else h->emplace(v.k, v.id); m.emplace(key(v), v.id); }
        else if (op < 96) { if (!m.empty()) pop(mode == 0 || (mode == 2 && rng.coin()), *h, m); }
        else if (op < 98) { std::unique_ptr<H> c(new H(*h)); if (rng.coin()) { H d = *h; Ref n = m; while (!n.empty()) pop(rng.coin(), d, n); } h = std::move(c); }
        else if constexpr (DE) { auto d = h->dump_sorted(); EQ((int)d.size(), (int)m.size()); int i = 0; for (auto& [k, x] : m) EQ(key(d[i++]), k); Ref n = m; for (auto& v : d) take(n, v, key); }
        else h->check_heap_property();
        EQ(h->size(), (int)m.size()); EQ(h->empty(), m.empty());
        if (!m.empty()) { if (rng.coin()) EQ(key(h->max()), m.rbegin()->first); if (rng.coin()) EQ(key(h->min()), m.begin()->first); if constexpr (DE) if (rng.coin()) EQ(key(h->top()), m.rbegin()->first); }
    }
    while (!m.empty()) pop(rng.coin(), *h, m); REQUIRE(h->empty());
}
SCENARIO(interval_heap, 800) { run_minmax<IntervalHeap<V, LessV>, false>(rng); }
SCENARIO(double_ended_pq, 800) { run_minmax<DoubleEndedPriorityQueue<V, LessV>, true>(rng); }
// sum of the k elements that come first (ascending for the std::less instance, as its test uses it)
template <class P, bool ASC> void run_ps(Rng& rng) {
    int k = rng.coin() ? 0 : rng(0, 10); P p = k ? P(k) : P(); std::multiset<i64> m; i64 w = rng.coin() ? 4 : 1000000000;
    for (int q = rng.size(1, 100); q--;) {
        int op = rng(0, 9); i64 v = rng(-w, w); LOG("op", op, v, k);
        if (op < 5) { p.insert(v); m.insert(v); }
        else if (op < 8) { if (!m.empty()) { v = *std::next(m.begin(), rng(0, (int)m.size() - 1)); p.erase(v); m.erase(m.find(v)); } }
        else if (op == 8) { if (rng.coin()) { p.incr_k(); ++k; } else if (k) { p.decr_k(); --k; } }
        else { k = rng(0, (int)m.size() + 3); p.set_k(k); }
        EQ(p.get_k(), k); EQ(p.size(), (int)m.size()); std::vector<i64> a(m.begin(), m.end()); if (!ASC) std::reverse(a.begin(), a.end()); i64 s = 0; for (int i = 0; i < (int)a.size() && i < k; ++i) s += a[i]; EQ(p.get_sum(), s);
    }
}
SCENARIO(priority_sum_less, 500) { run_ps<MaximumPrioritySum<i64>, true>(rng); }
SCENARIO(priority_sum_greater, 500) { run_ps<MinimumPrioritySum<i64>, false>(rng); }
// the same workloads at realistic sizes
RESCALE(max_binary_heap, 4, 512);
RESCALE(interval_heap, 4, 512);
RESCALE(min_binary_heap, 4, 512);
RESCALE(priority_queue_alias, 4, 256);
RESCALE(priority_sum_less, 4, 256);
RESCALE(priority_sum_greater, 4, 128);
RESCALE(double_ended_pq, 4, 64);
