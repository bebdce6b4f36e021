#include "mon.hpp"
#include <tuple>
#include "library/datastructure/ZDD.hpp"
using namespace suisen; using mon::Rng; using Fam = std::set<unsigned>;
SCENARIO(zdd, 500) {
    int n = rng.size(1, 6); std::vector<internal::zdd::zdd_lev_t> lv(n); for (auto& x : lv) x = ZDD::new_level(); for (int i = 1; i < n; ++i) REQUIRE(lv[i] > lv[i - 1], "levels must increase");
    // direct construction of a family: recursively on the highest variable
    auto mk = [&](auto&& self, const Fam& f, int k) -> ZDD { if (f.empty()) return ZDD::terminal0(); if (k < 0) return ZDD::terminal1(); Fam a, b; for (unsigned s : f) if (s >> k & 1) b.insert(s ^ (1u << k)); else a.insert(s); return ZDD::create_zdd(self(self, a, k - 1), self(self, b, k - 1), lv[k]); };
    auto make = [&](const Fam& f) { return mk(mk, f, n - 1); };
    auto read = [&](ZDD z) { Fam r; auto rec = [&](auto&& self, ZDD z, unsigned s, internal::zdd::zdd_lev_t above) -> void { if (z.is_terminal0()) return; if (z.is_terminal1()) { REQUIRE(r.insert(s).second, "set stored twice"); return; } REQUIRE(z.top() < above, "levels do not decrease downwards"); REQUIRE(!z[1].is_terminal0(), "zero-suppression rule broken"); int k = int(std::find(lv.begin(), lv.end(), z.top()) - lv.begin()); REQUIRE(k < n); self(self, z[0], s, z.top()); self(self, z[1], s | 1u << k, z.top()); }; rec(rec, z, 0, UINT_MAX); return r; };
    auto nodes = [&](const Fam& f) { std::set<Fam> seen; auto rec = [&](auto&& self, const Fam& f) -> void { unsigned u = 0; for (unsigned s : f) u |= s; if (u == 0 || !seen.insert(f).second) return; int k = 31 - __builtin_clz(u); Fam a, b; for (unsigned s : f) if (s >> k & 1) b.insert(s ^ (1u << k)); else a.insert(s); self(self, a); self(self, b); }; rec(rec, f); return (int)seen.size(); };
    auto rnd = [&] { Fam f; int c = rng.size(0, 1 << n); for (int i = 0; i < c; ++i) f.insert((unsigned)rng(0, (1 << n) - 1)); return f; };
    std::vector<std::pair<ZDD, Fam>> pool; for (int i = 0; i < 3; ++i) { Fam f = rnd(); pool.emplace_back(make(f), f); }
    auto chk = [&](ZDD z, const Fam& w) { Fam g = read(z); REQUIRE(g == w, "family differs"); REQUIRE((z ^ make(w)).is_terminal0(), "same family, different diagram"); EQ(ZDD::card<i64>(z), (i64)w.size()); EQ(z.is_terminal0(), w.empty()); EQ(z.is_terminal1(), w == Fam{ 0u }); int best = INT_MIN; for (unsigned s : w) best = std::max(best, __builtin_popcount(s)); EQ(ZDD::len(z), best); auto it = ZDD::max_len_item(z); EQ(it.has_value(), !w.empty()); if (it) { unsigned s = 0; for (int x : *it) { int k = int(std::find(lv.begin(), lv.end(), (internal::zdd::zdd_lev_t)x) - lv.begin()); REQUIRE(k < n && !(s >> k & 1), "bad item"); s |= 1u << k; } REQUIRE(w.count(s), "max_len_item not in the family"); EQ((int)it->size(), best); } EQ(ZDD::size(z), nodes(w)); };
    for (int q = rng.size(1, 30); q--;) {
        auto [f, F] = rng.pick(pool); auto [g, G] = rng.pick(pool); int op = rng(0, 11), k = rng(0, n - 1); unsigned b = 1u << k; Fam w; ZDD z; LOG("op", op, k, F, G);
        auto sub = [](unsigned a, unsigned b) { return (a & b) == a; };
        switch (op) {
        case 0: z = f & g; for (unsigned s : F) if (G.count(s)) w.insert(s); break;
        case 1: z = f + g; w = F; w.insert(G.begin(), G.end()); break;
        case 2: z = f - g; for (unsigned s : F) if (!G.count(s)) w.insert(s); break;
        case 3: z = f ^ g; for (unsigned s : F) if (!G.count(s)) w.insert(s); for (unsigned s : G) if (!F.count(s)) w.insert(s); break;
        case 4: z = ZDD::change(f, lv[k]); for (unsigned s : F) w.insert(s ^ b); break;
        case 5: z = ZDD::onset0(f, lv[k]); for (unsigned s : F) if (s & b) w.insert(s ^ b); break;
        case 6: z = ZDD::onset1(f, lv[k]); for (unsigned s : F) if (s & b) w.insert(s); break;
        case 7: z = ZDD::offset(f, lv[k]); for (unsigned s : F) if (!(s & b)) w.insert(s); break;
        case 8: z = ZDD::restrict(f, g); for (unsigned s : F) for (unsigned t : G) if (sub(t, s)) w.insert(s); break;
        case 9: z = ZDD::permit(f, g); for (unsigned s : F) for (unsigned t : G) if (sub(s, t)) w.insert(s); break;
        default: w = rng.pct(20) ? Fam{} : rng.pct(20) ? Fam{ 0u } : rnd(); z = make(w); }
        chk(z, w); if (pool.size() < 8) pool.emplace_back(z, w); else pool[rng(0, 7)] = { z, w };
    }
}
// the same workloads at realistic sizes
RESCALE(zdd, 4, 2);
