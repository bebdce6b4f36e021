// the floating-point and the integer geometry used together in one program
#include "mon.hpp"
#include "library/geom/geometry.hpp"
#include "library/geom/closest_pair.hpp"
#include "library/geom/convex_hull.hpp"
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/closest_pair.hpp"
#include "library/integral_geom/convex_hull.hpp"
namespace F = suisen::geometry; namespace N = suisen::integral_geometry;
SCENARIO(agree, 300) { int n = rng.size(1, 20); int R = rng.coin() ? 5 : 1000; std::vector<F::Point> f; std::vector<N::Point> g; for (int i = 0; i < n; ++i) { int x = rng(-R, R), y = rng(-R, R); f.emplace_back(x, y); g.emplace_back(x, y); } auto [a, b] = F::closest_pair(f); auto [c, d] = N::closest_pair(g); NEAR(F::square_abs(a - b), (long double)N::square_abs(c - d), 1e-9); auto h = F::convex_hull(f), k = N::convex_hull(g); EQ(h.size(), k.size()); for (size_t i = 0; i < h.size(); ++i) REQUIRE(g[h[i]] == g[k[i]]); if (n >= 3) { NEAR(F::area(f), N::area_doubled(g) / 2.0L, 1e-9); EQ(F::isp(f[0], f[1], f[2]), N::isp(g[0], g[1], g[2])); } }
// the same workloads at realistic sizes
RESCALE(agree, 4, 512);
