#include "mon.hpp"
#include "library/datastructure/bbst/persistent_red_black_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_reversible_lazy_segment_tree.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
S cat_op(S a, S b) { return a + b; } S cat_e() { return ""; }
struct Aff { int a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } bool operator!=(const Aff& o) const { return !(*this == o); } };
Aff f_comp(Aff f, Aff g) { return { f.a * g.a % 26, (f.a * g.b + f.b) % 26 }; } Aff f_id() { return {}; }
char map1(Aff f, char c) { return char('a' + (f.a * (c - 'a') + f.b) % 26); }
S f_map(Aff f, S s, int len) { if ((int)s.size() != len) FAIL("mapping called with length", len, "for", s); for (auto& c : s) c = map1(f, c); return s; }
// commutative product for the reversible tree: multiset of letters
using M = std::array<int, 27>; // counts + [26] unused
M m_op(M a, M b) { for (int i = 0; i < 27; ++i) a[i] += b[i]; return a; } M m_e() { return M{}; }
M m_map(Aff f, M x, int len) { int s = 0; M y{}; for (int i = 0; i < 26; ++i) y[(f.a * i + f.b) % 26] += x[i], s += x[i]; if (s != len) FAIL("mapping called with length", len, "for", s); return y; }
M m_of(const S& s) { M m{}; for (char c : s) ++m[c - 'a']; return m; }
Aff rnd_aff(Rng& rng) { if (rng.pct(25)) return { 0, (int)rng(0, 25) }; return { (int)rng(0, 25), (int)rng(0, 25) }; }
enum Kind { PLAIN, SEG, LAZY, REVLAZY };
// the model of a sequence is the string of its (one letter) elements
template <class N, Kind kind> void run(Rng& rng, int huge = 0) {
    const int mag = huge ? huge / 40 : rng.mag;
    using T = typename N::tree_type; using V = typename N::value_type;
    auto val = [](char c) { if constexpr (kind == PLAIN) return c; else if constexpr (kind == REVLAZY) return m_of(S(1, c)); else return S(1, c); };
    auto unval = [](const V& v) -> char { if constexpr (kind == PLAIN) return v; else if constexpr (kind == REVLAZY) { for (int i = 0; i < 26; ++i) if (v[i]) return char('a' + i); return '?'; } else return v.size() == 1 ? v[0] : '?'; };
    N::init_pool(huge ? 30 * huge + 200000 : 60000 * (2 * rng.mag - 1)); auto ch = [&] { return char('a' + rng(0, 25)); };
    auto build = [&](const S& s) { std::vector<V> x; for (char c : s) x.push_back(val(c)); return N::build(x); };
    auto dump = [&](T t) { std::vector<V> d; N::dump(t, std::back_inserter(d)); S s; for (auto& x : d) s += unval(x); return s; };
    std::vector<std::pair<T, S>> v; S s = rng.string(huge ? huge + (int)rng(-3, 3) : rng.size(0, 40), 26); v.push_back({ build(s), s }); v.push_back({ N::empty_tree(), "" });
    auto audit = [&](T t, const S& s) { EQ(dump(t), s); EQ(N::size(t), (int)s.size()); EQ(N::empty(t), s.empty()); if (t) N::check_rbtree_properties(t);
        if constexpr (kind == SEG || kind == LAZY) EQ(N::prod_all(t), s); if constexpr (kind == REVLAZY) EQ(N::prod_all(t), m_of(s)); };
    for (int q = huge ? 18 : rng.size(1, 40); q--;) {
        auto [t, a] = rng.pct(60) ? v.back() : rng.pick(v); int z = (int)a.size(), l = rng(0, z), r = rng(l, z), op = rng(0, 17); char c = ch(); LOG("op", op, l, r, c);
        if (z > 80 * mag) { int r4 = std::min(r, l + 40 * mag); auto x = N::cut(t, l, r4); v.push_back({ x, a.substr(l, r4 - l) }); audit(v.back().first, v.back().second); continue; }
        switch (op) {
        case 0: case 1: v.push_back({ N::insert(t, l, val(c)), a.substr(0, l) + c + a.substr(l) }); break;
        case 2: v.push_back({ N::push_front(t, val(c)), c + a }); break;
        case 3: v.push_back({ N::push_back(t, val(c)), a + c }); break;
        case 4: if (l < z) { auto [u, x] = N::erase(t, l); EQ(unval(x), a[l]); S b = a; b.erase(l, 1); v.push_back({ u, b }); } break;
        case 5: if (z) { if (rng.coin()) { auto [u, x] = N::pop_front(t); EQ(unval(x), a[0]); v.push_back({ u, a.substr(1) }); } else { auto [u, x] = N::pop_back(t); EQ(unval(x), a.back()); v.push_back({ u, a.substr(0, z - 1) }); } } break;
        case 6: { auto [x, y] = N::split(t, l); v.push_back({ x, a.substr(0, l) }); audit(x, a.substr(0, l)); v.push_back({ y, a.substr(l) }); break; }
        case 7: { auto [x, y, w] = N::split_range(t, l, r); audit(x, a.substr(0, l)); audit(w, a.substr(r)); v.push_back({ y, a.substr(l, r - l) }); break; }
        case 8: { auto [u, b] = rng.pick(v); v.push_back({ N::merge(t, u), a + b }); break; }
        case 9: if (l < z) { auto [u, x] = N::get(t, l); EQ(unval(x), a[l]); v.push_back({ u, a }); } break;
        case 10: if (l < z) { S b = a; b[l] = c; v.push_back({ N::set(t, l, val(c)), b }); } break;
        case 11: if (l < z) { S b = a; b[l] = c; v.push_back({ N::update_value(t, l, [&](const V& x) { REQUIRE(unval(x) == a[l]); return val(c); }), b }); } break;
        case 12: v.push_back({ N::cut(t, l, r), a.substr(l, r - l) }); break;
        case 13: { auto [u, b] = rng.pick(v); int z2 = (int)b.size(), l2 = rng(0, z2), r2 = rng(l2, z2); auto [x, y] = N::swap(t, l, r, u, l2, r2); v.push_back({ x, a.substr(0, l) + b.substr(l2, r2 - l2) + a.substr(r) }); audit(v.back().first, v.back().second); v.push_back({ y, b.substr(0, l2) + a.substr(l, r - l) + b.substr(r2) }); break; }
        case 14: { auto [u, b] = rng.pick(v); v.push_back({ N::replace(u, t, l, r), a.substr(0, l) + b + a.substr(r) }); break; }
        case 15: { auto [u, b] = rng.pick(v); if ((int)b.size() <= z) { int p = rng(0, z - (int)b.size()); S w = a; w.replace(p, b.size(), b); v.push_back({ N::replace(u, t, p), w }); } break; }
        case 16: if constexpr (kind != PLAIN) { auto [u, x] = N::prod(t, l, r); if constexpr (kind == REVLAZY) EQ(x, m_of(a.substr(l, r - l))); else EQ(x, a.substr(l, r - l)); v.push_back({ u, a }); } break;
        default: if constexpr (kind == LAZY || kind == REVLAZY) { Aff f = rnd_aff(rng); S b = a; if (rng.pct(70)) { for (int i = l; i < r; ++i) b[i] = map1(f, b[i]); v.push_back({ N::apply(t, l, r, f), b }); } else { for (auto& x : b) x = map1(f, x); v.push_back({ N::apply_all(t, f), b }); }
                 if constexpr (kind == REVLAZY) { auto [t2, a2] = v.back(); S b2 = a2; if (rng.pct(70)) { std::reverse(b2.begin() + l, b2.begin() + r); v.push_back({ N::reverse(t2, l, r), b2 }); } else { std::reverse(b2.begin(), b2.end()); v.push_back({ N::reverse_all(t2), b2 }); } } }
        }
        if ((int)v.back().second.size() > 300 * mag) v.pop_back(); else audit(v.back().first, v.back().second);
    }
    for (auto& [t, a] : v) audit(t, a); // no version was changed by later operations
    if constexpr (kind == PLAIN) { auto& [t, a] = v.back(); S w = "["; for (size_t i = 0; i < a.size(); ++i) w += (i ? ", " : "") + S(1, a[i]); EQ(N::to_string(t), w + "]"); }
    auto [t, a] = rng.pick(v); T u = N::rebuild(t); audit(u, a); // drops every other version
}
SCENARIO(persistent_rb_sequence, 250) { run<bbst::PersistentRedBlackTreeNode<char>, PLAIN>(rng); }
SCENARIO(persistent_rb_product, 250) { run<bbst::segtree::PersistentRedBlackTreeNode<S, cat_op, cat_e>, SEG>(rng); }
SCENARIO(persistent_rb_lazy, 250) { run<bbst::lazy_segtree::PersistentRedBlackTreeNode<S, cat_op, cat_e, Aff, f_map, f_comp, f_id>, LAZY>(rng); }
SCENARIO(persistent_rb_reversible, 250) { run<bbst::reversible_lazy_segtree::PersistentRedBlackTreeNode<M, m_op, m_e, Aff, m_map, f_comp, f_id>, REVLAZY>(rng); }
static int hg(Rng& rng) { static const int b[] = { 1024, 16384, 32768, 65536 }; return b[rng(0, 3)]; }
SCENARIO(persistent_rb_sequence_huge, 3, 4) { run<bbst::PersistentRedBlackTreeNode<char>, PLAIN>(rng, hg(rng)); }
SCENARIO(persistent_rb_product_huge, 3, 4) { run<bbst::segtree::PersistentRedBlackTreeNode<S, cat_op, cat_e>, SEG>(rng, hg(rng)); }
SCENARIO(persistent_rb_lazy_huge, 3, 4) { run<bbst::lazy_segtree::PersistentRedBlackTreeNode<S, cat_op, cat_e, Aff, f_map, f_comp, f_id>, LAZY>(rng, hg(rng)); }
SCENARIO(persistent_rb_reversible_huge, 3, 4) { run<bbst::reversible_lazy_segtree::PersistentRedBlackTreeNode<M, m_op, m_e, Aff, m_map, f_comp, f_id>, REVLAZY>(rng, hg(rng)); }
// the same workloads at realistic sizes
RESCALE(persistent_rb_product, 4, 128);
RESCALE(persistent_rb_sequence, 4, 128);
RESCALE(persistent_rb_lazy, 4, 128);
RESCALE(persistent_rb_reversible, 4, 32);
