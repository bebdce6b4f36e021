#pragma once
// schoolbook truncated power series over Z/p on plain integers: the reference model
template <u64 P> struct Ref {
    using V = std::vector<u64>;
    static u64 pw(u64 a, u64 e) { u64 r = 1 % P; a %= P; for (; e; e >>= 1, a = a * a % P) if (e & 1) r = r * a % P; return r; }
    static u64 inv(u64 a) { return pw(a, P - 2); }
    static u64 at(const V& a, size_t i) { return i < a.size() ? a[i] : 0; }
    static V cut(V a, size_t n) { a.resize(n); return a; }
    static V trim(V a) { while (a.size() && !a.back()) a.pop_back(); return a; }
    static V add(const V& a, const V& b) { V c(std::max(a.size(), b.size())); for (size_t i = 0; i < c.size(); ++i) c[i] = (at(a, i) + at(b, i)) % P; return c; }
    static V sub(const V& a, const V& b) { V c(std::max(a.size(), b.size())); for (size_t i = 0; i < c.size(); ++i) c[i] = (at(a, i) + P - at(b, i)) % P; return c; }
    static V scale(V a, u64 x) { for (auto& v : a) v = v * (x % P) % P; return a; }
    static V mul(const V& a, const V& b) { if (a.empty() || b.empty()) return {}; V c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) if (a[i]) for (size_t j = 0; j < b.size(); ++j) c[i + j] = (c[i + j] + a[i] * b[j]) % P; return c; }
    static std::pair<V, V> divmod(V a, V b) { a = trim(a); b = trim(b); if (a.size() < b.size()) return { {}, a }; V q(a.size() - b.size() + 1); u64 iv = inv(b.back()); for (size_t i = q.size(); i-- > 0;) { u64 c = a[i + b.size() - 1] * iv % P; q[i] = c; for (size_t j = 0; j < b.size(); ++j) a[i + j] = (a[i + j] + (P - c) * b[j]) % P; } return { q, trim(a) }; }
    static V diff(const V& a) { V c; for (size_t i = 1; i < a.size(); ++i) c.push_back(a[i] * i % P); return c; }
    static V intg(const V& a) { V c{ 0 }; for (size_t i = 0; i < a.size(); ++i) c.push_back(a[i] * inv(i + 1) % P); return c; }
    static V inverse(const V& f, int n) { V g(n); u64 iv = inv(f[0]); for (int i = 0; i < n; ++i) { u64 s = i == 0; for (int j = 1; j <= i; ++j) s = (s + (P - at(f, j)) * g[i - j]) % P; g[i] = s * iv % P; } return g; }
    static V exp(const V& f, int n) { V g(n); g[0] = 1; for (int i = 1; i < n; ++i) { u64 s = 0; for (int j = 1; j <= i; ++j) s = (s + at(f, j) * j % P * g[i - j]) % P; g[i] = s * inv(i) % P; } return g; }
    static V log(const V& f, int n) { return cut(intg(cut(mul(diff(f), inverse(f, n)), n - 1)), n); }
    // f^k mod x^n by binary powering (no shared idea with the library)
    static V power(V f, u64 k, int n) { f.resize(n); V r(n); r[0] = 1; while (k) { if (k & 1) r = cut(mul(r, f), n); k >>= 1; if (k) f = cut(mul(f, f), n); } return r; }
    static u64 eval(const V& f, u64 x) { u64 r = 0; for (size_t i = f.size(); i-- > 0;) r = (r * x + f[i]) % P; return r; }
    static V compose(const V& f, const V& g, int n) { V r(n); for (size_t i = f.size(); i-- > 0;) { r = cut(mul(r, cut(g, n)), n); if (n) r[0] = (r[0] + f[i]) % P; } return r; }
    static V random(mon::Rng& rng, int n, int style = -1) { V a(n); if (style < 0) style = rng(0, 6); for (auto& x : a) x = style == 0 ? rng(0, 2) : style == 1 ? (rng.pct(10) ? rng(0, P - 1) : 0) : rng(0, P - 1); if (style == 2 && n > 16) { V s(n); for (int i = 0; i < (int)rng(0, 17); ++i) s[rng(0, n - 1)] = rng(1, P - 1); a = s; } if (rng.pct(25) && n) { int z = rng.upto(0, n); std::fill(a.begin(), a.begin() + z, 0); } if (rng.pct(10)) while (rng.coin() && a.size()) a.back() = 0, a.pop_back(), a.insert(a.begin(), 0); return a; }
};
template <class F> static F mk(const std::vector<u64>& a) { F f; for (u64 x : a) f.push_back(typename F::value_type((unsigned long long)x)); return f; }
template <class F> static std::vector<u64> un(const F& f) { std::vector<u64> r; for (auto& x : f) r.push_back(x.val()); return r; }
