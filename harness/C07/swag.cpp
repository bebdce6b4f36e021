#include "mon.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/sliding_window_minimum.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
S cat_op(S a, S b) { return a + b; } S cat_e() { return ""; }
S app(S a, int c) { return a + char('a' + c); }
struct Res { S s; }; Res mrg(S a, S b) { std::reverse(a.begin(), a.end()); return { a + b }; }
template <class It, class A> void iter_audit(Rng& rng, It b, It e, const A& a) {
    int n = (int)a.size(); EQ((int)(e - b), n); int i = 0; for (auto it = b; it != e; ++it) { EQ(*it, a[i]); EQ((int)(it - b), i); ++i; } EQ(i, n);
    for (auto it = e; it != b;) { if (rng.coin()) --it; else it--; --i; EQ(*it, a[i]); }
    for (int t = 0; t < 3 && n; ++t) { int x = rng(0, n), y = rng(0, n); auto p = b + x; auto q = e - (n - y); EQ((int)(q - p), y - x); EQ(p == q, x == y); EQ(p != q, x != y); EQ(p < q, x < y); EQ(p <= q, x <= y); EQ(p > q, x > y); EQ(p >= q, x >= y); p += y - x; REQUIRE(p == q, "it += d"); p -= y - x; if (x < n) EQ(*p, a[x]); auto r = (y - x) + p; REQUIRE(r == q, "d + it"); if (y < n) { EQ(p[y - x], a[y]); auto s = r++; EQ(*s, a[y]); if (y + 1 < n) EQ(*r, a[y + 1]); } }
}
SCENARIO(queue_aggregation, 700) {
    using Q = QueueAggregation<int, S, cat_e, app, Res, mrg>; std::deque<int> a; Q s; if (rng.coin()) { auto v = rng.vec<int>(rng.size(0, 20), 0, 25); a.assign(v.begin(), v.end()); s = rng.coin() ? Q(v) : Q(v.begin(), v.end()); } int pp = rng(30, 70);
    auto text = [&] { S t; for (int x : a) t += char('a' + x); return t; };
    for (int q = rng.size(1, 100); q--;) { int op = rng(0, 99); if (rng.pct(5)) pp = rng(20, 80); LOG("op", op);
        if (op < pp && !a.empty() && rng.pct(6)) { a.push_back(a.front()); s.push_back(s.front()); } else if (op < pp) { int v = rng(0, 25); s.push_back(v); a.push_back(v); } else if (op < 97) { if (!a.empty()) s.pop_front(), a.pop_front(); } else if (op < 98) s.clear(), a.clear(); else if (op < 99) s.shrink_to_fit(); else { Q t = s; s = t; }
        EQ(s.size(), (int)a.size()); EQ(s.prod().s, text()); if (!a.empty()) { EQ(s.front(), a.front()); EQ(s.back(), a.back()); for (int i = 0; i < (int)a.size(); ++i) EQ(s[i], a[i]); }
        if (rng.pct(20)) { iter_audit(rng, s.begin(), s.end(), a); iter_audit(rng, s.cbegin(), s.cend(), a); } }
}
SCENARIO(deque_aggregation, 900) {
    using D = DequeAggregation<S, cat_op, cat_e>; std::deque<S> a; D s; auto one = [&] { return S(1, char('a' + rng(0, 25))); };
    if (rng.coin()) { std::vector<S> v; for (int i = rng.size(0, 20); i--;) v.push_back(one()); a.assign(v.begin(), v.end()); s = rng.coin() ? D(v) : D(v.begin(), v.end()); } int pp = rng(30, 70), side = rng(0, 100);
    for (int q = rng.size(1, 120); q--;) { int op = rng(0, 99); if (rng.pct(5)) pp = rng(20, 80), side = rng(0, 2) * 50; LOG("op", op, s.size());
        if (op < pp && !a.empty() && rng.pct(6)) { int i = rng(0, (int)a.size() - 1); S v = a[i]; if (rng.coin()) s.push_back(s[i]), a.push_back(v); else s.push_front(s[i]), a.push_front(v); } else if (op < pp) { S v = one(); if (rng.pct(side)) s.push_back(v), a.push_back(v); else s.push_front(v), a.push_front(v); }
        else if (op < 97) { if (!a.empty()) { if (rng.pct(100 - side)) s.pop_back(), a.pop_back(); else s.pop_front(), a.pop_front(); } } else if (op < 98) s.clear(), a.clear(); else if (op < 99) s.shrink_to_fit(); else { D t = s; s = t; }
        S t; for (auto& x : a) t += x; EQ(s.size(), (int)a.size()); EQ(s.prod(), t); if (!a.empty()) { EQ(s.front(), a.front()); EQ(s.back(), a.back()); for (int i = 0; i < (int)a.size(); ++i) EQ(s[i], a[i]); }
        if (rng.pct(20)) { iter_audit(rng, s.begin(), s.end(), a); iter_audit(rng, s.cbegin(), s.cend(), a); } }
}
template <class W> void run_sw(Rng& rng, bool mn, bool left) {
    int n = rng.size(1, 60); auto a = rng.vec<int>(n, 0, rng.coin() ? 3 : 1000); W w(n, [&](int i) { return a[i]; }); int l = 0, r = 0;
    auto chk = [&] { EQ(w.get_left(), l); EQ(w.get_right(), r); EQ(w.get_window_size(), r - l); if (l == r) return; int b = l; for (int i = l; i < r; ++i) { bool better = mn ? a[i] < a[b] : a[i] > a[b]; if (better || (!left && a[i] == a[b])) b = i; } EQ(w.arg_query(), b); EQ(w.query(), a[b]); };
    while (l < n) { switch (rng(0, 5)) { case 0: case 1: if (r < n) w.proc_right(), ++r; break; case 2: if (l < r) w.proc_left(), ++l; break; case 3: { int t = rng(r > 0 ? r - 1 : 0, n); if (rng.pct(30)) { w.proc_right(t); r = std::max(r, t); } break; } case 4: { int t = rng(0, r); if (rng.pct(30)) { w.proc_left(t); l = std::max(l, t); } break; } default: { int nl = rng(l, std::min(n, l + 5)), nr = rng(std::max(nl, r), std::min(n, std::max(nl, r) + 5)); w.proc(nl, nr); l = nl; r = nr; } } chk(); }
}
SCENARIO(sliding_window, 800) {
    switch (rng(0, 4)) { case 0: run_sw<sliding_window_minimum<int>>(rng, true, true); break; case 1: run_sw<sliding_window_minimum<int, prioritizing_mode::right_most_min<int>>>(rng, true, false); break; case 2: run_sw<sliding_window_minimum<int, prioritizing_mode::left_most_max<int>>>(rng, false, true); break; case 3: run_sw<sliding_window_minimum<int, prioritizing_mode::right_most_max<int>>>(rng, false, false); break; default: run_sw<sliding_window_minimum<int, prioritizing_mode::left_most_min<int>>>(rng, true, true); }
}
// the same workloads at realistic sizes
RESCALE(deque_aggregation, 4, 512);
RESCALE(sliding_window, 4, 512);
RESCALE(queue_aggregation, 4, 512);
