#pragma once
#include "atcoder/modint.hpp"
namespace atcoder {
namespace internal {
// Decimation-in-frequency NTT; output in bit-reversed order, as ACL's butterfly.
template <class mint> mint ntt_root(int k, bool inverse) { // primitive 2^k-th root
    mint g = mint(primitive_root<mint::mod()>).pow((mint::mod() - 1) >> k);
    return inverse ? g.inv() : g;
}
template <class mint, is_static_modint_t<mint>* = nullptr> void butterfly(std::vector<mint>& a) {
    int n = (int)a.size(); int h = ceil_pow2(n);
    assert(n == (1 << h)); assert((mint::mod() - 1) % n == 0);
    for (int ph = h; ph >= 1; --ph) { // blocks of length 2^ph
        int len = 1 << ph, half = len >> 1;
        mint w = ntt_root<mint>(ph, false);
        std::vector<mint> pw(half); if (half) pw[0] = 1;
        for (int i = 1; i < half; ++i) pw[i] = pw[i - 1] * w;
        for (int s = 0; s < n; s += len) for (int i = 0; i < half; ++i) {
            mint x = a[s + i], y = a[s + i + half];
            a[s + i] = x + y; a[s + i + half] = (x - y) * pw[i];
        }
    }
}
template <class mint, is_static_modint_t<mint>* = nullptr> void butterfly_inv(std::vector<mint>& a) {
    int n = (int)a.size(); int h = ceil_pow2(n);
    assert(n == (1 << h));
    for (int ph = 1; ph <= h; ++ph) {
        int len = 1 << ph, half = len >> 1;
        mint w = ntt_root<mint>(ph, true);
        std::vector<mint> pw(half); if (half) pw[0] = 1;
        for (int i = 1; i < half; ++i) pw[i] = pw[i - 1] * w;
        for (int s = 0; s < n; s += len) for (int i = 0; i < half; ++i) {
            mint x = a[s + i], y = a[s + i + half] * pw[i];
            a[s + i] = x + y; a[s + i + half] = x - y;
        }
    }
}
}
template <class mint, internal::is_static_modint_t<mint>* = nullptr>
std::vector<mint> convolution(std::vector<mint> a, std::vector<mint> b) {
    int n = int(a.size()), m = int(b.size());
    if (!n || !m) return {};
    int z = (int)internal::bit_ceil((unsigned int)(n + m - 1));
    if (std::min(n, m) <= 60 || (mint::mod() - 1) % z != 0) {
        assert((mint::mod() - 1) % z == 0);
        std::vector<mint> r(n + m - 1);
        for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) r[i + j] += a[i] * b[j];
        return r;
    }
    a.resize(z); b.resize(z);
    internal::butterfly(a); internal::butterfly(b);
    for (int i = 0; i < z; i++) a[i] *= b[i];
    internal::butterfly_inv(a);
    a.resize(n + m - 1);
    mint iz = mint(z).inv();
    for (int i = 0; i < n + m - 1; i++) a[i] *= iz;
    return a;
}
template <unsigned int mod = 998244353, class T, std::enable_if_t<internal::is_integral<T>::value>* = nullptr>
std::vector<T> convolution(const std::vector<T>& a, const std::vector<T>& b) {
    using mint = static_modint<mod>;
    std::vector<mint> a2(a.size()), b2(b.size());
    for (size_t i = 0; i < a.size(); i++) a2[i] = mint(a[i]);
    for (size_t i = 0; i < b.size(); i++) b2[i] = mint(b[i]);
    if (a.empty() || b.empty()) return {};
    auto c2 = convolution(std::move(a2), std::move(b2));
    std::vector<T> c(c2.size());
    for (size_t i = 0; i < c.size(); i++) c[i] = c2[i].val();
    return c;
}
inline std::vector<long long> convolution_ll(const std::vector<long long>& a, const std::vector<long long>& b) {
    int n = int(a.size()), m = int(b.size());
    if (!n || !m) return {};
    std::vector<long long> r(n + m - 1);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) r[i + j] = (long long)((unsigned long long)r[i + j] + (unsigned long long)a[i] * (unsigned long long)b[j]);
    return r;
}
}
