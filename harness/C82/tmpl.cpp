// MON: shards=2
// the contest template: division helpers, loop macros, sorting helpers, nd-vectors, type traits
#include "mon.hpp"
#include "library/type_traits/operator.hpp"
#include "library/template.hpp"

SCENARIO(fld_cld, 4000) {
    auto go = [&](auto tag, i64 lo, i64 hi) {
        using T = decltype(tag);
        T x = (T)(rng.coin() ? rng(lo, hi) : rng(std::max<i64>(lo, -20), std::min<i64>(hi, 20))), y = (T)(rng.coin() ? rng(lo, hi) : rng(std::max<i64>(lo, -9), std::min<i64>(hi, 9)));
        if (rng.pct(5)) x = (T)lo; if (rng.pct(5)) x = (T)hi; if (rng.pct(3)) y = (T)lo; if (rng.pct(3)) y = (T)hi; if (!y) y = 1;
        if (y == (T)-1 && std::is_signed_v<T> && (i64)x == lo) return;
        i128 X = x, Y = y, q = X / Y, r = X % Y; i128 f = q - (r != 0 && ((r < 0) != (Y < 0))), c = q + (r != 0 && ((r < 0) == (Y < 0)));
        EQ((i64)suisen::fld(x, y), (i64)f, (i64)x, (i64)y); EQ((i64)suisen::cld(x, y), (i64)c, (i64)x, (i64)y);
    };
    go(int{}, INT_MIN, INT_MAX); go(i64{}, LLONG_MIN, LLONG_MAX); go((unsigned)0, 0, UINT_MAX); go((short)0, SHRT_MIN, SHRT_MAX); go((u64)0, 0, LLONG_MAX);
    int n = rng(-99, 99); EQ(suisen::pow_m1(n), n % 2 ? -1 : 1); i64 m = rng.coin() ? LLONG_MAX - rng(0, 5) : rng(-9, 9); EQ(suisen::pow_m1(m), m % 2 ? -1 : 1); EQ(suisen::pow_m1((unsigned)std::abs(n)), n % 2 ? -1 : 1);
    int a = rng(-5, 5), b = rng(-5, 5), a0 = a; EQ(suisen::chmin(a, b), b < a0); EQ(a, std::min(a0, b)); a = a0; EQ(suisen::chmax(a, b), b > a0); EQ(a, std::max(a0, b));
    std::string s = rng.string(rng(0, 3), 2), t = rng.string(rng(0, 3), 2), s0 = s; EQ(suisen::chmin(s, t), t < s0); EQ(s, std::min(s0, t));
}
static_assert(suisen::fld(-7, 2) == -4 && suisen::cld(-7, 2) == -3 && suisen::pow_m1(3) == -1);

template <class T> static void rep_case(mon::Rng& rng, T lo, T hi, T smax) {
    T l = (T)rng((i64)lo, (i64)hi), r = (T)rng((i64)lo, (i64)hi), st = (T)rng(1, (i64)smax), n = (T)rng((i64)std::max<T>(lo, 0), (i64)hi);
    std::vector<i64> g, w; auto reset = [&] { g.clear(); w.clear(); };
    auto put = [&](T i) { g.push_back((i64)i); REQUIRE(g.size() <= 2000, "loop does not stop"); };
    REP(i, n) put(i); for (i64 i = 0; i < (i64)n; ++i) w.push_back(i); EQV(g, w); reset();
    REP(i, l, r) put(i); for (i64 i = l; i < (i64)r; ++i) w.push_back(i); EQV(g, w); reset();
    REP(i, l, r, st) put(i); for (i64 i = l; i < (i64)r; i += st) w.push_back(i); EQV(g, w); reset();
    RREP(i, n) put(i); for (i64 i = (i64)n - 1; i >= 0; --i) w.push_back(i); EQV(g, w); reset();
    RREP(i, l, r) put(i); for (i64 i = (i64)r - 1; i >= (i64)l; --i) w.push_back(i); EQV(g, w); reset();
    RREP(i, l, r, st) put(i); for (i64 i = l; i < (i64)r; i += st) w.push_back(i); std::reverse(w.begin(), w.end()); EQV(g, w); reset();
    int c = 0; LOOP(n) { ++c; REQUIRE(c <= 2000); } EQ((i64)c, (i64)n);
    REPINF(i, l) { put(i); if (g.size() == 5) break; } for (int i = 0; i < 5; ++i) w.push_back((i64)l + i); EQV(g, w); reset();
    REPINF(i, l, st) { put(i); if (g.size() == 5) break; } for (int i = 0; i < 5; ++i) w.push_back((i64)l + (i64)st * i); EQV(g, w);
}
SCENARIO(rep_int, 800) { rep_case<int>(rng, -30, 30, 9); }
SCENARIO(rep_ll, 800) { rep_case<i64>(rng, -30, 30, 9); }
SCENARIO(rep_unsigned, 400) { rep_case<unsigned>(rng, 0, 40, 9); }
SCENARIO(rep_size_t, 400) { rep_case<std::size_t>(rng, 0, 40, 9); }
SCENARIO(rep_mixed, 400) {
    std::vector<i64> g, w; i64 r = rng(-5, 30); int l = rng(-5, 10), st = rng(1, 5);
    REP(i, l, r) g.push_back(i); for (i64 i = l; i < r; ++i) w.push_back(i); EQV(g, w); g.clear(); w.clear();
    REP(i, l, r, st) g.push_back(i); for (i64 i = l; i < r; i += st) w.push_back(i); EQV(g, w); g.clear(); std::reverse(w.begin(), w.end());
    RREP(i, l, r, st) g.push_back(i); EQV(g, w); g.clear();
    std::vector<int> a = rng.vec<int>(rng(0, 9), 0, 9), b; FOR(e, a) { e += 1; } CFOR(e, a) b.push_back(e); EQV(a, b); std::sort(ALL(a)); REQUIRE(std::is_sorted(a.begin(), a.end()));
}
SCENARIO(sorting_helpers, 800) {
    int n = rng.size(0, 40); auto a = rng.vec<int>(n, -1000000, 1000000); for (int i = 0; i < n; ++i) a[i] = a[i] * 64 + i;
    auto p = suisen::sorted_indices(n, [&](int i) { return a[i]; }), q = suisen::sorted_indices(n, [&](int i, int j) { return a[i] > a[j]; });
    EQ((int)p.size(), n); EQ((int)std::set<int>(p.begin(), p.end()).size(), n); EQ((int)std::set<int>(q.begin(), q.end()).size(), n);
    for (int i = 0; i + 1 < n; ++i) { REQUIRE(a[p[i]] < a[p[i + 1]]); REQUIRE(a[q[i]] > a[q[i + 1]]); }
    auto c = suisen::comparator<int>([](int x) { return x % 10; }); auto d = suisen::comparator<int>([](int x) { return x % 10; }, std::greater<>());
    for (int t = 0; t < 10; ++t) { int x = rng(0, 99), y = rng(0, 99); EQ(c(x, y), x % 10 < y % 10); EQ(d(x, y), x % 10 > y % 10); }
    auto pq = suisen::priority_queue_with_comparator<int>(d); suisen::min_priority_queue<int> mn; suisen::max_priority_queue<int> mx; std::multiset<int> ms;
    for (int i = 0; i < n; ++i) { int v = std::abs(a[i]) % 1000; pq.push(v); mn.push(v); mx.push(v); ms.insert(v); EQ(mn.top(), *ms.begin()); EQ(mx.top(), *ms.rbegin()); int best = 10; for (int z : ms) best = std::min(best, z % 10); EQ(pq.top() % 10, best); }
    auto b = rng.vec<int>(n, 0, 9); std::set<int> s(b.begin(), b.end()); suisen::sort_unique_erase(b); EQV(b, std::vector<int>(s.begin(), s.end()));
}
SCENARIO(ndvec, 400) {
    int x = rng(0, 4), y = rng(0, 4), z = rng(0, 4), v = rng(-9, 9);
    suisen::Dim d3{x, (i64)y, (short)z}; auto a = suisen::ndvec<int>(d3, v); static_assert(std::is_same_v<decltype(a), std::vector<std::vector<std::vector<int>>>>);
    EQ((int)a.size(), x); for (auto& b : a) { EQ((int)b.size(), y); for (auto& c : b) { EQ((int)c.size(), z); for (int e : c) EQ(e, v); } }
    auto o = suisen::ndvec<std::string>(suisen::Dim{x}); EQ((int)o.size(), x); for (auto& e : o) EQ(e, std::string()); auto t = suisen::ndvec<i64>(suisen::Dim{x, y}); EQ((int)t.size(), x); for (auto& r : t) { EQ((int)r.size(), y); for (auto e : r) EQ(e, (i64)0); }
    EQ(suisen::Yes + suisen::No + suisen::YES + suisen::NO, std::string("YesNoYESNO"));
}
// ---------------------------------------------------------------- type traits
struct Plain {}; struct It { int* begin() const { return nullptr; } int* end() const { return nullptr; } };
struct Rw { friend std::ostream& operator<<(std::ostream& o, const Rw&) { return o; } friend std::istream& operator>>(std::istream& i, Rw&) { return i; } };
struct Ops { Ops operator-() const; Ops operator+(int) const; bool operator<(const Ops&) const; int operator%(const Plain&) const; };
template <class A, class B> static bool same() { return std::is_same_v<A, B>; }
SCENARIO(traits, 30) {
    (void)rng; using namespace suisen;
    EQ(bitnum_v<int>, 32); EQ(bitnum_v<unsigned>, 32); EQ(bitnum_v<long long>, 64); EQ(bitnum_v<unsigned char>, 8); EQ(bitnum_v<signed char>, 8); EQ(bitnum_v<short>, 16); EQ(bitnum_v<Plain>, 0); EQ(bitnum_v<double>, 0);
    EQ((is_nbit_v<int, 32>), true); EQ((is_nbit_v<int, 64>), false); EQ((is_nbit_v<long long, 64>), true); EQ((is_nbit_v<u64, 64>), true);
    EQ((same<safely_multipliable_t<int>, long long>()), true); EQ((same<safely_multipliable_t<unsigned>, unsigned long long>()), true); EQ((same<safely_multipliable_t<long long>, __int128_t>()), true); EQ((same<safely_multipliable_t<u64>, __uint128_t>()), true); EQ((same<safely_multipliable_t<double>, double>()), true); EQ((same<safely_multipliable_t<Plain>, Plain>()), true);
    EQ((same<rec_value_type_t<int>, int>()), true); EQ((same<rec_value_type_t<std::vector<std::vector<std::set<char>>>>, char>()), true); EQ((same<rec_value_type_t<std::string>, char>()), true);
    EQ(is_iterable_v<std::vector<int>>, true); EQ(is_iterable_v<std::string>, true); EQ(is_iterable_v<int>, false); EQ(is_iterable_v<Plain>, false); EQ(is_iterable_v<It>, true);
    EQ(is_writable_v<int>, true); EQ(is_writable_v<std::string>, true); EQ(is_writable_v<std::vector<int>>, false); EQ(is_writable_v<Plain>, false); EQ(is_writable_v<Rw>, true); EQ(is_writable_v<__int128_t>, false);
    EQ(is_readable_v<int>, true); EQ(is_readable_v<std::string>, true); EQ(is_readable_v<std::vector<int>>, false); EQ(is_readable_v<Plain>, false); EQ(is_readable_v<Rw>, true); EQ(is_readable_v<__uint128_t>, false);
    EQ(has_operator_negate_v<Ops>, true); EQ(has_operator_negate_v<Plain>, false); EQ((has_operator_plus_v<Ops, int>), true); EQ(has_operator_plus_v<Ops>, false); EQ((has_operator_plus_v<int, Ops>), false); EQ(has_operator_less_v<Ops>, true); EQ(has_operator_greater_v<Ops>, true == has_operator_greater_v<int> && false); EQ((has_operator_modulus_v<Ops, Plain>), true); EQ(has_operator_modulus_v<int>, true); EQ(has_operator_modulus_v<double>, false);
    EQ(has_operator_minus_v<int>, true); EQ(has_operator_minus_v<std::string>, false); EQ(has_operator_plus_v<std::string>, true); EQ(has_operator_multiplies_v<double>, true); EQ(has_operator_multiplies_v<std::string>, false); EQ(has_operator_divides_v<int>, true); EQ(has_operator_divides_v<Plain>, false);
    EQ(has_operator_bit_not_v<int>, true); EQ(has_operator_bit_not_v<double>, false); EQ(has_operator_bit_and_v<int>, true); EQ(has_operator_bit_and_v<double>, false); EQ(has_operator_bit_or_v<int>, true); EQ(has_operator_bit_or_v<Plain>, false); EQ(has_operator_bit_xor_v<u64>, true); EQ(has_operator_bit_xor_v<double>, false);
    EQ(has_operator_logical_not_v<int>, true); EQ(has_operator_logical_not_v<Plain>, false); EQ(has_operator_logical_and_v<int>, true); EQ(has_operator_logical_and_v<Plain>, false); EQ(has_operator_logical_or_v<bool>, true); EQ(has_operator_logical_or_v<Plain>, false);
    EQ(has_operator_equal_to_v<std::string>, true); EQ(has_operator_equal_to_v<Plain>, false); EQ(has_operator_not_equal_to_v<int>, true); EQ(has_operator_not_equal_to_v<Plain>, false); EQ(has_operator_less_equal_v<int>, true); EQ(has_operator_less_equal_v<Ops>, false); EQ(has_operator_greater_equal_v<int>, true); EQ(has_operator_greater_equal_v<Plain>, false); EQ(has_operator_less_v<Plain>, false); EQ(has_operator_greater_v<std::string>, true);
}
// the same workloads at realistic sizes
RESCALE(sorting_helpers, 4, 32);
