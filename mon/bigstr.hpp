// Long texts with structure, and an independent LCE oracle (prefix hashes modulo 2^61-1, fixed base).
#pragma once
#include "mon.hpp"
namespace bigstr {
    using mon::Rng; constexpr u64 P = (u64(1) << 61) - 1, B = 1234567890123456789ULL % P;
    inline u64 mul(u64 a, u64 b) { u64 r; unsigned __int128 x = (unsigned __int128)a * b; r = (u64)(x >> 61) + (u64)(x & P); return r >= P ? r - P : r; }
    constexpr int STYLES = 8;
    // 0: one letter; 1: one letter, one defect; 2: period 2..5; 3: long period; 4: Fibonacci; 5: random over 2; 6: random over 26; 7: mirrored blocks
    inline std::string gen(Rng& rng, int n, int st) {
        std::string s; switch (st) {
        case 0: return std::string(n, char('a' + rng.in(0, 25))); case 1: s = std::string(n, 'b'); s[rng.coin() ? rng.in(0, n - 1) : rng.pick(std::vector<int>{ 0, n / 2, n - 1 })] = rng.coin() ? 'a' : 'c'; return s;
        case 2: { int p = (int)rng.in(2, 5); for (int i = 0; i < n; ++i) s += i < p ? char('a' + rng.in(0, 2)) : s[i - p]; return s; }
        case 3: { int p = (int)rng.in(n / 5, n / 2 - 1); for (int i = 0; i < n; ++i) s += i < p ? char('a' + rng.in(0, 1)) : s[i - p]; return s; }
        case 4: { std::string a = "a", b = "ab"; while ((int)b.size() < n) { auto c = b + a; a = b; b = c; } int o = rng.coin() ? 0 : (int)rng.in(0, (i64)b.size() - n); return b.substr(o, n); }
        case 5: case 6: for (int i = 0; i < n; ++i) s += char('a' + rng.in(0, st == 5 ? 1 : 25)); return s;
        default: { s = "a"; while ((int)s.size() < n) { auto t = s; std::reverse(t.begin(), t.end()); s += rng.coin() ? std::string(1, char('a' + rng.in(0, 3))) + t : t; } s.resize(n); return s; } }
    }
    struct Lce { int n; std::vector<u64> h, pw; template <class C> Lce(const C& s) : n((int)s.size()), h(n + 1), pw(n + 1, 1) { for (int i = 0; i < n; ++i) h[i + 1] = (mul(h[i], B) + (u64)s[i] + 1) % P, pw[i + 1] = mul(pw[i], B); }
        u64 get(int l, int r) const { u64 x = h[r] + P - mul(h[l], pw[r - l]); return x >= P ? x - P : x; }
        int lcp(int i, int j) const { if (i == j) return n - i; int lo = 0, hi = n - std::max(i, j); while (lo < hi) { int m = (lo + hi + 1) / 2; if (get(i, i + m) == get(j, j + m)) lo = m; else hi = m - 1; } return lo; }
        int lcs(int i, int j) const { int lo = 0, hi = std::min(i, j); while (lo < hi) { int m = (lo + hi + 1) / 2; if (get(i - m, i) == get(j - m, j)) lo = m; else hi = m - 1; } return lo; } }; // of the prefixes of lengths i, j
    template <class C> std::vector<int> zed(const C& s) { int n = (int)s.size(); std::vector<int> z(n); if (n) z[0] = n; for (int i = 1, l = 0, r = 0; i < n; ++i) { if (i < r) z[i] = std::min(r - i, z[i - l]); while (i + z[i] < n && s[z[i]] == s[i + z[i]]) ++z[i]; if (i + z[i] > r) l = i, r = i + z[i]; } return z; }
    inline int bn(Rng& rng) { return (int)(rng.coin() ? 65536 + rng.in(0, 5) : rng.in(66000, 90000)); }
}
