#pragma once
#include "atcoder/internal_all.hpp"
namespace atcoder {
template <class T> std::vector<int> suffix_array(const std::vector<T>& s) {
    int n = int(s.size());
    std::vector<T> u(s); std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
    std::vector<int> sa(n), rk(n), tmp(n), by(n);
    for (int i = 0; i < n; ++i) sa[i] = i, rk[i] = int(std::lower_bound(u.begin(), u.end(), s[i]) - u.begin());
    std::stable_sort(sa.begin(), sa.end(), [&](int x, int y) { return rk[x] < rk[y]; });
    for (int k = 1, classes = int(u.size()); classes < n; k *= 2) { // prefix doubling with counting sort
        int t = 0;
        for (int i = n - k; i < n; ++i) if (i >= 0) by[t++] = i;
        for (int i : sa) if (i >= k) by[t++] = i - k;
        std::vector<int> cnt(classes + 1);
        for (int i = 0; i < n; ++i) ++cnt[rk[i] + 1];
        for (int c = 0; c < classes; ++c) cnt[c + 1] += cnt[c];
        for (int i : by) sa[cnt[rk[i]]++] = i;
        auto second = [&](int i) { return i + k < n ? rk[i + k] : -1; };
        tmp[sa[0]] = 0;
        for (int i = 1; i < n; ++i) tmp[sa[i]] = tmp[sa[i - 1]] + (rk[sa[i - 1]] != rk[sa[i]] || second(sa[i - 1]) != second(sa[i]));
        rk.swap(tmp);
        classes = rk[sa[n - 1]] + 1;
    }
    return sa;
}
inline std::vector<int> suffix_array(const std::vector<int>& s, int) { return suffix_array(s); }
inline std::vector<int> suffix_array(const std::string& s) { std::vector<int> v(s.begin(), s.end()); return suffix_array(v); }
template <class T> std::vector<int> lcp_array(const std::vector<T>& s, const std::vector<int>& sa) {
    int n = int(s.size()); assert(n >= 1);
    std::vector<int> lcp(n - 1), rk(n);
    for (int i = 0; i < n; ++i) rk[sa[i]] = i;
    for (int i = 0, h = 0; i < n; ++i) {
        if (h) --h;
        if (rk[i] == 0) { h = 0; continue; }
        int j = sa[rk[i] - 1];
        while (i + h < n && j + h < n && s[i + h] == s[j + h]) ++h;
        lcp[rk[i] - 1] = h;
    }
    return lcp;
}
inline std::vector<int> lcp_array(const std::string& s, const std::vector<int>& sa) { std::vector<int> v(s.begin(), s.end()); return lcp_array(v, sa); }
template <class T> std::vector<int> z_algorithm(const std::vector<T>& s) {
    int n = int(s.size());
    if (n == 0) return {};
    std::vector<int> z(n); z[0] = n;
    for (int i = 1, j = 0; i < n; i++) {
        int& k = z[i];
        k = (j + z[j] <= i || j == 0) ? 0 : std::min(j + z[j] - i, z[i - j]);
        while (i + k < n && s[k] == s[i + k]) k++;
        if (j == 0 || j + z[j] < i + z[i]) j = i;
    }
    return z;
}
inline std::vector<int> z_algorithm(const std::string& s) { std::vector<int> v(s.begin(), s.end()); return z_algorithm(v); }
}
