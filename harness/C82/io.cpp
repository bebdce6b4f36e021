// MON: shards=2
// stream wrappers: what is printed can be read back, 128-bit integers included; container helpers
#include "mon.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include "library/util/container_utils.hpp"
namespace io = suisen::io;

static i128 wide128(mon::Rng& rng) {
    u128 v = ((u128)rng.u() << 64) | rng.u();
    switch (rng(0, 5)) {
    case 0: return (i128)v;
    case 1: return (i128)(v >> rng(0, 127));
    case 2: return (i128)((u128)1 << 127);                       // minimum
    case 3: return (i128)(((u128)1 << 127) - 1 - (u128)rng(0, 3));
    case 4: { i128 p = 1; for (int k = rng(0, 38); k--;) p *= 10; i128 d = rng(-1, 1); return rng.coin() ? p + d : -p + d; }
    default: return rng(-20, 20);
    }
}
static std::string dec(u128 v) { std::string s; do { s += char('0' + (int)(v % 10)); v /= 10; } while (v); std::reverse(s.begin(), s.end()); return s; }
static std::string dec(i128 v) { return v < 0 ? "-" + dec((u128)0 - (u128)v) : dec((u128)v); }
struct Swap { std::ios& s; std::streambuf* old; Swap(std::ios& s, std::streambuf* b) : s(s), old(s.rdbuf(b)) {} ~Swap() { s.rdbuf(old); } };

SCENARIO(int128_roundtrip, 3000) {
    i128 a = wide128(rng); u128 b = (u128)wide128(rng);
    std::ostringstream ss; io::OutputStream os{ss};
    os << a << ' ' << b << '\n';
    REQUIRE(ss.str() == dec(a) + " " + dec(b) + "\n", ss.str());
    std::istringstream in(ss.str()); io::InputStream is{in};
    i128 x = 77; u128 y = 77; is >> x >> y;
    REQUIRE(x == a, dec(x), dec(a)); REQUIRE(y == b, dec(y), dec(b));
    REQUIRE(suisen::stoi128(dec(a)) == a); REQUIRE(suisen::stou128(dec(b)) == b);
    { std::istringstream in2(ss.str()); io::InputStream is2{in2}; i128 p = is2.read(); u128 q = is2.read(); REQUIRE(p == a && q == b); }
}
SCENARIO(print_forms, 1500) {
    int x = rng(-1000, 1000); i64 y = rng(-1000000000000LL, 1000000000000LL); std::string s = rng.string(rng(1, 8), 26); char c = (char)rng('a', 'z');
    auto v = rng.vec<int>(rng(0, 6), -9, 9); std::vector<std::vector<int>> vv; for (int k = rng(0, 4); k--;) vv.push_back(rng.vec<int>(rng(0, 3), 0, 9));
    i128 w = wide128(rng);
    auto J = [](const std::vector<int>& a) { std::string r; for (std::size_t i = 0; i < a.size(); ++i) r += (i ? " " : "") + std::to_string(a[i]); return r; };
    std::string JV; for (std::size_t i = 0; i < vv.size(); ++i) JV += (i ? " " : "") + J(vv[i]);
    auto X = std::to_string(x), Y = std::to_string(y);
    std::ostringstream ss; Swap sw(std::cout, ss.rdbuf());
    std::string want;
    auto line = [&](const std::string& t) { want += t; };
    for (int q = 0; q < 8; ++q) switch (rng(0, 12)) {
    case 0: suisen::print(); line("\n"); break;
    case 1: suisen::print(x); line(X + "\n"); break;
    case 2: suisen::print(x, y, s, c); line(X + " " + Y + " " + s + " " + c + "\n"); break;
    case 3: suisen::print(v); line(J(v) + "\n"); break;
    case 4: suisen::print(vv, x); line(JV + " " + X + "\n"); break;
    case 5: suisen::print(std::make_pair(x, s)); line(X + " " + s + "\n"); break;
    case 6: suisen::print(std::make_tuple(x, y, c), std::tuple<>(), std::make_tuple(s)); line(X + " " + Y + " " + c + "  " + s + "\n"); break;
    case 7: suisen::print(w, std::vector<i128>{w, 1}); line(dec(w) + " " + dec(w) + " 1\n"); break;
    case 8: suisen::print_all(v); line(J(v) + "\n"); break;
    case 9: { suisen::print_all(v, ", ", ";"); std::string r; for (std::size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + std::to_string(v[i]); line(r + ";"); } break;
    case 10: { suisen::print_all(vv, "\n", "\n"); std::string r; for (std::size_t i = 0; i < vv.size(); ++i) r += (i ? "\n" : "") + J(vv[i]); line(r + "\n"); } break;
    case 11: { std::set<int> st(v.begin(), v.end()); suisen::print(st, "lit", std::pair<int, std::pair<int, int>>{1, {2, 3}}); line(J(std::vector<int>(st.begin(), st.end())) + " lit 1 2 3\n"); } break;
    case 12: { std::array<int, 2> a{x, 7}; std::map<int, int> m{{1, x}, {2, 5}}; io::cout << a << '|' << m << "|" << std::deque<std::string>{s, "e"} << '\n'; line(X + " 7|1 " + X + " 2 5|" + s + " e\n"); } break;
    }
    REQUIRE(ss.str() == want, "printed", ss.str(), "expected", want);
}
SCENARIO(read_forms, 1500) {
    int x = rng(-1000, 1000); i64 y = rng(-1000000000000LL, 1000000000000LL); std::string s = rng.string(rng(1, 8), 26); char c = (char)rng('a', 'z'); double d = rng(-99, 99) / 4.0;
    auto v = rng.vec<int>(rng(0, 6), -9, 9); std::vector<std::vector<i64>> vv; for (int k = rng(0, 4); k--;) vv.push_back(rng.vec<i64>(rng(0, 3), 0, 9));
    i128 w = wide128(rng); u128 z = (u128)wide128(rng);
    std::string text; auto ws = [&] { const char* t[] = {" ", "\n", "  \n ", "\t"}; return std::string(t[rng(0, 3)]); };
    auto add = [&](const std::string& t) { text += ws() + t; };
    add(std::to_string(x)); add(std::to_string(y)); add(s); add(std::string(1, c)); { std::ostringstream o; o << d; add(o.str()); }
    for (int e : v) add(std::to_string(e)); for (auto& r : vv) for (auto e : r) add(std::to_string(e));
    add(dec(w)); add(dec(z)); add(std::to_string(x)); add(s); add(std::to_string(y)); add(dec(w)); add("3"); add("4"); add("5"); add("tail");
    auto test = [&](auto&& is) {
        int x1; i64 y1; std::string s1; char c1; double d1;
        is.read(x1, y1, s1, c1); is >> d1;
        EQ(x1, x); EQ(y1, y); EQ(s1, s); EQ(c1, c); EQ(d1, d);
        std::vector<int> v1(v.size()); std::vector<std::vector<i64>> vv1; for (auto& r : vv) vv1.emplace_back(r.size());
        is >> v1 >> vv1; EQV(v1, v); REQUIRE(vv1 == vv);
        i128 w1; u128 z1; is.read(w1, z1); REQUIRE(w1 == w && z1 == z);
        std::pair<int, std::string> p; std::tuple<i64, i128> t; is >> p >> t; EQ(p.first, x); EQ(p.second, s); EQ(std::get<0>(t), y); REQUIRE(std::get<1>(t) == w);
        std::array<int, 2> a; is >> a; EQ(a[0], 3); EQ(a[1], 4); int five = is.read(); EQ(five, 5); std::string tl = is.read(); EQ(tl, std::string("tail"));
        REQUIRE(bool(is.get_stream())); int extra; is >> extra; REQUIRE(!is.get_stream(), "end of input is visible");
    };
    switch (rng(0, 2)) {
    case 0: { std::istringstream in(text); io::InputStream is{in}; test(is); } break;
    case 1: { io::InputStream is{std::istringstream{text}}; test(is); } break;
    default: {
        std::istringstream in(text); Swap sw(std::cin, in.rdbuf()); std::cin.clear();
        if (rng.coin()) test(io::cin);
        else { int x1 = suisen::io::read(); i64 y1; std::string s1; suisen::io::read(y1, s1); EQ(x1, x); EQ(y1, y); EQ(s1, s); }
        std::cin.clear();
    }
    }
}
// ---------------------------------------------------------------- container_utils
SCENARIO(sorted_queries, 800) {
    int n = rng.size(0, 30); auto v = rng.vec<int>(n, -10, 10); std::sort(v.begin(), v.end());
    std::set<int> st(v.begin(), v.end()); std::multiset<i64> ms(v.begin(), v.end()); std::map<int, int> mp; for (int x : v) mp[x] = -x;
    for (int k = -12; k <= 12; ++k) {
        int lt = 0, le = 0; for (int x : v) { lt += x < k; le += x <= k; }
        EQ(suisen::count_lt(v, k), lt); EQ(suisen::count_leq(v, k), le); EQ(suisen::count_geq(v, k), n - lt); EQ(suisen::count_gt(v, k), n - le);
        auto opt = [](bool h, int x) { return h ? std::optional<int>(x) : std::nullopt; };
        auto a = opt(lt < n, lt < n ? v[lt] : 0), b = opt(le < n, le < n ? v[le] : 0), c = opt(le > 0, le > 0 ? v[le - 1] : 0), d = opt(lt > 0, lt > 0 ? v[lt - 1] : 0);
        REQUIRE(suisen::min_geq(v, k) == a, k); REQUIRE(suisen::min_gt(v, k) == b, k); REQUIRE(suisen::max_leq(v, k) == c, k); REQUIRE(suisen::max_lt(v, k) == d, k);
        REQUIRE(suisen::min_geq(st, k) == a, k); REQUIRE(suisen::min_gt(st, k) == b, k); REQUIRE(suisen::max_leq(st, k) == c, k); REQUIRE(suisen::max_lt(st, k) == d, k);
        REQUIRE(suisen::min_geq(ms, k) == a, k); REQUIRE(suisen::max_lt(ms, k) == d, k);
        auto e = suisen::min_gt(mp, k); REQUIRE(e.has_value() == b.has_value()); if (e) { EQ(e->first, *b); EQ(e->second, -*b); }
        auto f = suisen::max_leq(mp, k); REQUIRE(f.has_value() == c.has_value()); if (f) EQ(f->first, *c);
    }
}
SCENARIO(split_join, 1000) {
    std::string s = rng.string(rng.size(0, 30), rng(1, 3)); char dl = (char)('a' + rng(0, 2));
    std::vector<std::string> w(1); for (char ch : s) { if (ch == dl) w.emplace_back(); else w.back() += ch; }
    auto g = suisen::split(s, dl); EQ(g.size(), w.size()); for (std::size_t i = 0; i < w.size(); ++i) EQ(g[i], w[i]);
    EQ(suisen::join(g, std::string(1, dl), ""), s); EQ(suisen::join(g, "", "!"), [&] { std::string r; for (auto& t : w) r += t; return r + "!"; }());
    auto v = rng.vec<int>(rng.size(0, 20), 0, 3); auto gv = suisen::split(v, 0); std::vector<std::vector<int>> wv(1); for (int x : v) { if (!x) wv.emplace_back(); else wv.back().push_back(x); } REQUIRE(gv == wv);
    auto a = rng.vec<int>(rng.size(0, 12), -9, 9), b = rng.vec<int>(rng.size(0, 12), -9, 9); auto ab = a; ab.insert(ab.end(), b.begin(), b.end());
    EQV(suisen::concatenated(a, b), ab); auto c = a; suisen::concat(c, b); EQV(c, ab); c = a; suisen::concat(c, c); auto aa = a; aa.insert(aa.end(), a.begin(), a.end()); EQV(c, aa);
    EQ(suisen::concatenated(s, std::string("xy")), s + "xy");
    auto sq = suisen::mapped_vec([](int x) { return (i64)x * 100000; }, a); std::vector<i64> wsq; for (int x : a) wsq.push_back((i64)x * 100000); EQV(sq, wsq);
    auto cp = suisen::copied_vec<i64>(std::list<int>(a.begin(), a.end())); EQV(cp, std::vector<i64>(a.begin(), a.end())); 
    EQ(suisen::charmap::fd((char)('0' + rng(0, 0))), 0); for (int i = 0; i < 26; ++i) { EQ(suisen::charmap::fa((char)('a' + i)), i); EQ(suisen::charmap::fA((char)('A' + i)), i); EQ(suisen::charmap::faA((char)('A' + i)), i); EQ(suisen::charmap::faA((char)('a' + i)), 26 + i); } for (int i = 0; i < 10; ++i) EQ(suisen::charmap::fd((char)('0' + i)), i);
}
template <int B> static void ds(mon::Rng& rng, u64 v) { std::size_t w = rng(0, 70); auto s = suisen::digits_str<B>(v, w); REQUIRE(s.size() >= w); u128 t = 0; for (std::size_t i = s.size(); i--;) { REQUIRE('0' <= s[i] && s[i] < '0' + B); t = t * B + (s[i] - '0'); } REQUIRE(t == v); if (s.size() > w && s.size()) REQUIRE(s.back() != '0'); }
SCENARIO(digits, 1500) {
    u64 v = rng.coin() ? rng.u() : rng(0, 1000); ds<2>(rng, v); ds<3>(rng, v); ds<10>(rng, v); ds<7>(rng, v);
    EQ(suisen::digits_str((int)5, 4), std::string("1010"));
    int b = rng(2, 40); auto d = suisen::digits(v, b); REQUIRE(d.size() >= 1); u128 t = 0; for (std::size_t i = d.size(); i--;) { REQUIRE(0 <= d[i] && d[i] < b); t = t * b + d[i]; } REQUIRE(t == v); if (d.size() > 1) REQUIRE(d.back() != 0);
    i64 z = v >> 1; auto e = suisen::digits(z); u128 q = 0; for (std::size_t i = e.size(); i--;) q = q * 10 + e[i]; REQUIRE((i64)q == z); EQ((int)e.size(), (int)std::to_string(z).size());
}
// the same workloads at realistic sizes
RESCALE(sorted_queries, 4, 512);
RESCALE(split_join, 4, 512);
