#include "mon.hpp"
#include "library/datastructure/bbst/red_black_tree.hpp"
#include "library/datastructure/bbst/red_black_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_reversible_lazy_segment_tree.hpp"
using namespace suisen; using mon::Rng; using S = std::string;
S cat_op(S a, S b) { return a + b; } S cat_e() { return ""; }
struct Aff { int a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } bool operator!=(const Aff& o) const { return !(*this == o); } };
Aff f_comp(Aff f, Aff g) { return { f.a * g.a % 26, (f.a * g.b + f.b) % 26 }; } Aff f_id() { return {}; }
char map1(Aff f, char c) { return char('a' + (f.a * (c - 'a') + f.b) % 26); }
S f_map(Aff f, S s, int len) { if ((int)s.size() != len) FAIL("mapping called with length", len, "for", s); for (auto& c : s) c = map1(f, c); return s; }
// commutative product for the reversible tree: multiset of letters
using M = std::array<int, 27>; // counts + [26] unused
M m_op(M a, M b) { for (int i = 0; i < 27; ++i) a[i] += b[i]; return a; } M m_e() { return M{}; }
M m_map(Aff f, M x, int len) { int s = 0; M y{}; for (int i = 0; i < 26; ++i) y[(f.a * i + f.b) % 26] += x[i], s += x[i]; if (s != len) FAIL("mapping called with length", len, "for", s); return y; }
M m_of(const S& s) { M m{}; for (char c : s) ++m[c - 'a']; return m; }
Aff rnd_aff(Rng& rng) { if (rng.pct(25)) return { 0, (int)rng(0, 25) }; return { (int)rng(0, 25), (int)rng(0, 25) }; }
enum Kind { PLAIN, SEG, LAZY, REVLAZY };
// linear (non-persistent) use: a set of disjoint trees, each operation consumes its arguments
template <class N, Kind kind> void run(Rng& rng, int huge = 0) {
    const int mag = huge ? std::max(1, huge / 40) : rng.mag;
    using T = typename N::tree_type; using V = typename N::value_type;
    auto val = [](char c) { if constexpr (kind == PLAIN) return c; else if constexpr (kind == REVLAZY) return m_of(S(1, c)); else return S(1, c); };
    auto unval = [](const V& v) -> char { if constexpr (kind == PLAIN) return v; else if constexpr (kind == REVLAZY) { for (int i = 0; i < 26; ++i) if (v[i]) return char('a' + i); return '?'; } else return v.size() == 1 ? v[0] : '?'; };
    N::init_pool(huge ? 10 * huge + 2000 : (rng.coin() ? 4000 : 1500) * (2 * rng.mag - 1));
    auto ch = [&] { return char('a' + rng(0, 25)); };
    auto build = [&](const S& s) { std::vector<V> x; for (char c : s) x.push_back(val(c)); return N::build(x); };
    auto dump = [&](T t) { std::vector<V> d; N::dump(t, std::back_inserter(d)); S s; for (auto& x : d) s += unval(x); return s; };
    std::vector<std::pair<T, S>> v; for (int k = rng(1, 3); k--;) { S s = rng.string(huge ? (rng.coin() ? huge : huge / 2) + (int)rng(-3, 3) : rng.size(0, 40), 26); v.push_back({ build(s), s }); }
    auto audit = [&](T t, const S& s) { EQ(dump(t), s); EQ(N::size(t), (int)s.size()); EQ(N::empty(t), s.empty()); if (t) N::check_rbtree_properties(t);
        if constexpr (kind == SEG || kind == LAZY) EQ(N::prod_all(t), s); if constexpr (kind == REVLAZY) EQ(N::prod_all(t), m_of(s)); };
    for (int q = huge ? 25 : rng.size(1, 150); q--;) {
        int id = rng(0, (i64)v.size() - 1); auto& [t, a] = v[id]; int z = (int)a.size(), l = rng(0, z), r = rng(l, z), op = rng(0, 17); char c = ch(); LOG("op", op, l, r, c);
        switch (op) {
        case 0: case 1: if (z > 150 * mag) break; t = N::insert(t, l, val(c)); a.insert(a.begin() + l, c); break;
        case 2: if (z > 150 * mag) break; t = N::push_front(t, val(c)); a = c + a; break;
        case 3: if (z > 150 * mag) break; t = N::push_back(t, val(c)); a += c; break;
        case 4: if (l < z) { auto [u, x] = N::erase(t, l); EQ(unval(x), a[l]); t = u; a.erase(l, 1); } break;
        case 5: if (z) { if (rng.coin()) { auto [u, x] = N::pop_front(t); EQ(unval(x), a[0]); t = u; a.erase(0, 1); } else { auto [u, x] = N::pop_back(t); EQ(unval(x), a.back()); t = u; a.pop_back(); } } break;
        case 6: { auto [x, y] = N::split(t, l); S b = a.substr(l); t = x; a = a.substr(0, l); audit(t, a); audit(y, b); if (v.size() < 6) v.push_back({ y, b }); else { N::free(y); } break; }
        case 7: { auto [x, y, w] = N::split_range(t, l, r); audit(x, a.substr(0, l)); audit(y, a.substr(l, r - l)); audit(w, a.substr(r)); if (rng.coin()) { t = N::merge(x, w); N::free(y); a.erase(l, r - l); } else { t = N::merge(N::merge(w, y), x); a = a.substr(r) + a.substr(l, r - l) + a.substr(0, l); } break; }
        case 8: case 9: if (v.size() > 1 && z < 150 * mag) { int j = rng(0, (i64)v.size() - 1); if (j != id && (int)v[j].second.size() < 150 * mag) { t = N::merge(t, v[j].first); a += v[j].second; audit(t, a); v.erase(v.begin() + j); continue; } } break;
        case 10: if (l < z) { auto [u, x] = N::get(t, l); EQ(unval(x), a[l]); t = u; } break;
        case 11: if (l < z) { t = N::set(t, l, val(c)); a[l] = c; } break;
        case 12: if (l < z) { S b = a; b[l] = c; t = N::update_value(t, l, [&](const V& x) { REQUIRE(unval(x) == a[l]); return val(c); }); a = b; } break;
        case 13: if (rng.pct(20)) { N::free(t); S s = rng.string(rng.size(0, 60), 26); t = build(s); a = s; } break;
        case 14: case 15: if constexpr (kind != PLAIN) { auto [u, x] = N::prod(t, l, r); if constexpr (kind == REVLAZY) EQ(x, m_of(a.substr(l, r - l))); else EQ(x, a.substr(l, r - l)); t = u; } break;
        default: if constexpr (kind == LAZY || kind == REVLAZY) { Aff f = rnd_aff(rng); if (rng.pct(70)) { for (int i = l; i < r; ++i) a[i] = map1(f, a[i]); t = N::apply(t, l, r, f); } else { for (auto& x : a) x = map1(f, x); t = N::apply_all(t, f); }
                 if constexpr (kind == REVLAZY) { if (rng.pct(70)) { std::reverse(a.begin() + l, a.begin() + r); t = N::reverse(t, l, r); } else { std::reverse(a.begin(), a.end()); t = N::reverse_all(t); } } }
        }
        audit(v[id].first, v[id].second);
    }
    size_t total = 0; for (auto& [t, a] : v) audit(t, a), total += a.empty() ? 0 : 2 * a.size() - 1; // nothing was lost, shared or clobbered between the trees
    (void)total;
    if constexpr (kind == PLAIN) { auto& [t, a] = v.back(); S w = "["; for (size_t i = 0; i < a.size(); ++i) w += (i ? ", " : "") + S(1, a[i]); EQ(N::to_string(t), w + "]"); }
}
SCENARIO(red_black_sequence, 250) { run<bbst::RedBlackTreeNode<char>, PLAIN>(rng); }
SCENARIO(red_black_product, 250) { run<bbst::segtree::RedBlackTreeNode<S, cat_op, cat_e>, SEG>(rng); }
SCENARIO(red_black_lazy, 250) { run<bbst::lazy_segtree::RedBlackTreeNode<S, cat_op, cat_e, Aff, f_map, f_comp, f_id>, LAZY>(rng); }
SCENARIO(red_black_reversible, 250) { run<bbst::reversible_lazy_segtree::RedBlackTreeNode<M, m_op, m_e, Aff, m_map, f_comp, f_id>, REVLAZY>(rng); }
static int hg(Rng& rng) { static const int b[] = { 1024, 16384, 32768, 65536 }; return b[rng(0, 3)]; }
SCENARIO(red_black_sequence_huge, 3, 4) { run<bbst::RedBlackTreeNode<char>, PLAIN>(rng, hg(rng)); }
SCENARIO(red_black_product_huge, 3, 4) { run<bbst::segtree::RedBlackTreeNode<S, cat_op, cat_e>, SEG>(rng, hg(rng)); }
SCENARIO(red_black_lazy_huge, 3, 4) { run<bbst::lazy_segtree::RedBlackTreeNode<S, cat_op, cat_e, Aff, f_map, f_comp, f_id>, LAZY>(rng, hg(rng)); }
SCENARIO(red_black_reversible_huge, 3, 4) { run<bbst::reversible_lazy_segtree::RedBlackTreeNode<M, m_op, m_e, Aff, m_map, f_comp, f_id>, REVLAZY>(rng, hg(rng)); }
// the same workloads at realistic sizes
RESCALE(red_black_sequence, 4, 64);
RESCALE(red_black_reversible, 4, 16);
RESCALE(red_black_product, 4, 32);
RESCALE(red_black_lazy, 4, 32);
