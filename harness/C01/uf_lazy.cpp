#include "mon.hpp"
#include "library/datastructure/union_find/union_find_lazy.hpp"
using namespace suisen; using mon::Rng;
constexpr i64 P = 998244353;
static i64 pw(i64 a, i64 e) { i64 r = 1; for (a %= P; e; e >>= 1, a = a * a % P) if (e & 1) r = r * a % P; return r; }
struct F { i64 a = 1, b = 0; };
static void msum(i64& a, i64 b) { a = (a + b) % P; }
static i64 neg(i64 a) { return (P - a) % P; }
static void mapping(F f, i64& s, int num) { s = (f.a * s + f.b * num) % P; }
static F comp(F f, F g) { return { f.a * g.a % P, (f.a * g.b + f.b) % P }; }
static F id() { return {}; }
static F inv(F f) { i64 i = pw(f.a, P - 2); return { i, (P - f.b * i % P) % P }; }
using U = UnionFindLazy<i64, msum, neg, F, mapping, comp, id, inv>;
SCENARIO(lazy_component_apply, 1500) {
    int n = rng.size(0, 60); std::vector<i64> v(n); for (auto& x : v) x = rng(0, P - 1);
    U u(v); { U d(n, 9); for (int i = 0; i < n; ++i) EQ(d.get_point(i), 9); U d0; }
    std::vector<int> c(n); std::iota(c.begin(), c.end(), 0);
    if (!n) return;
    auto members = [&](int x) { std::vector<int> r; for (int i = 0; i < n; ++i) if (c[i] == c[x]) r.push_back(i); return r; };
    for (int q = rng.size(1, 150); q--;) {
        int x = rng(0, n - 1), y = rng(0, n - 1);
        F f{ rng(1, P - 1), rng(0, P - 1) };
        switch (rng(0, 6)) {
        case 0: case 1: { LOG("merge", x, y); bool r = c[x] != c[y]; EQ(u.merge(x, y), r); int b = c[y], a = c[x]; for (auto& z : c) if (z == b) z = a; break; }
        case 2: LOG("apply_component", x, f.a, f.b); u.apply_component(x, f); for (int i : members(x)) v[i] = (f.a * v[i] + f.b) % P; break;
        case 3: LOG("apply_point", x); u.apply_point(x, f); v[x] = (f.a * v[x] + f.b) % P; break;
        case 4: LOG("set_point", x); u.set_point(x, f.b); v[x] = f.b; break;
        case 5: LOG("propagate", x); u.propagate(x); for (int i : members(x)) EQ(u.raw_value(i), v[i]), EQ(((const U&)u).raw_value(i), v[i]); break;
        }
        int z = rng(0, n - 1); i64 s = 0; for (int i : members(z)) s += v[i];
        EQ(u.get_point(z), v[z]); EQ(u.get_component(z), s % P); EQ(u.size(z), (int)members(z).size()); EQ(u.same(x, z), c[x] == c[z]);
        auto cc = u.connected_component(z); std::sort(cc.begin(), cc.end()); EQV(cc, members(z));
    }
    for (int i = 0; i < n; ++i) EQ(u.get_point(i), v[i]);
}
// the same workloads at realistic sizes
RESCALE(lazy_component_apply, 4, 64);
