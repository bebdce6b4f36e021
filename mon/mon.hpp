// Runtime-monitor core: scenario registry, PRNG, oracle comparison, event accounting.
// Every harness includes this file, drives the real library code and compares each
// observation with an independent reference model through EQ / REQUIRE.
#pragma once
#include <bits/stdc++.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>

namespace mon {
using u64 = unsigned long long;
using i64 = long long;
using u32 = unsigned int;
using i128 = __int128_t;
using u128 = __uint128_t;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline u64 hash_str(const char* s) {
    u64 h = 1469598103934665603ULL;
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ULL;
    return h;
}

// ---------------------------------------------------------------- state
struct Status { // shared with the runner (mmap), survives a crash
    char scenario[120];
    u64 iter;
    u64 events;
    u64 cases;
    u64 hang;
};
inline Status status_dummy{};
inline Status* status = &status_dummy;
inline bool verbose = false;
inline bool logging = false;     // record operations of this case as a sample
inline bool thorough = false;
inline u64 case_sig = 0;
inline u64 case_events = 0;
inline u64 total_events = 0;
inline std::string sample_buf;   // short description of the current case
inline std::string cur_scenario;
inline u64 cur_iter = 0;

inline void fold(u64 v) { case_sig = mix(case_sig ^ v); }

// ---------------------------------------------------------------- printing / hashing of observed values
inline std::string str128(u128 y, bool neg) {
    std::string s; do s += char('0' + (int)(y % 10)), y /= 10; while (y);
    if (neg) s += '-';
    return std::string(s.rbegin(), s.rend());
}
template <class T, class = void> struct has_range : std::false_type {};
template <class T> struct has_range<T, std::void_t<decltype(std::declval<const T&>().begin(), std::declval<const T&>().end())>> : std::true_type {};
template <class T, class = void> struct has_val : std::false_type {};
template <class T> struct has_val<T, std::void_t<decltype(std::declval<const T&>().val())>> : std::true_type {};
template <class T, class = void> struct has_print : std::false_type {};
template <class T> struct has_print<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};
template <class T> struct is_pair : std::false_type {};
template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};
template <class T> struct is_tuple : std::false_type {};
template <class... A> struct is_tuple<std::tuple<A...>> : std::true_type {};
template <class T> struct is_opt : std::false_type {};
template <class A> struct is_opt<std::optional<A>> : std::true_type {};
template <class T> std::string str(const T& x) {
    if constexpr (std::is_same_v<T, bool>) return x ? "true" : "false";
    else if constexpr (std::is_same_v<T, char>) return std::string(1, x);
    else if constexpr (std::is_same_v<T, std::string>) return '"' + x + '"';
    else if constexpr (std::is_convertible_v<T, const char*>) return (const char*)x;
    else if constexpr (std::is_same_v<T, i128>) return str128(x < 0 ? -(u128)x : (u128)x, x < 0);
    else if constexpr (std::is_same_v<T, u128>) return str128(x, false);
    else if constexpr (std::is_floating_point_v<T>) { std::ostringstream o; o << std::setprecision(18) << x; return o.str(); }
    else if constexpr (std::is_enum_v<T>) return std::to_string((long long)x);
    else if constexpr (std::is_arithmetic_v<T>) return std::to_string(x);
    else if constexpr (is_pair<T>::value) return "(" + str(x.first) + "," + str(x.second) + ")";
    else if constexpr (is_tuple<T>::value) { std::string s = "("; std::apply([&](const auto&... y) { ((s += str(y) + ","), ...); }, x); return s + ")"; }
    else if constexpr (is_opt<T>::value) return x ? "some(" + str(*x) + ")" : std::string("none");
    else if constexpr (has_range<T>::value) {
        std::string s = "["; size_t k = 0;
        for (auto it = x.begin(); it != x.end(); ++it) { if (k) s += ","; if (++k > 400) { s += "..."; break; } s += str(std::decay_t<decltype(*it)>(*it)); }
        return s + "]";
    }
    else if constexpr (has_val<T>::value) return str(x.val());
    else if constexpr (has_print<T>::value) { std::ostringstream o; o << x; return o.str(); }
    else return "<object>";
}
template <size_t N> std::string str(const char (&x)[N]) { return x; }

// ---------------------------------------------------------------- reporting
[[noreturn]] inline void violation(const char* file, int line, const std::string& what) {
    std::fflush(stdout);
    std::fprintf(stderr, "MONITOR-VIOLATION scenario=%s iter=%llu at %s:%d: %s\n", cur_scenario.c_str(), (u64)cur_iter, file, line, what.c_str());
    std::fflush(stderr);
    _exit(77);
}
inline void observe(u64 h) { ++case_events; ++total_events; fold(h); }
template <class G, class W>
inline void eq(const G& g, const W& w, const char* file, int line, const char* expr) {
    if (!(g == w)) violation(file, line, std::string(expr) + " observed " + str(g) + " expected " + str(w));
    if constexpr (std::is_arithmetic_v<W>) { if constexpr (std::is_floating_point_v<W>) { double d = w; u64 h; std::memcpy(&h, &d, 8); observe(h); } else observe((u64)w); }
    else observe(1);
}
template <class T> inline void eqv(const std::vector<T>& g, const std::vector<T>& w, const char* file, int line, const char* expr) {
    if (g.size() != w.size()) violation(file, line, std::string(expr) + " size observed " + std::to_string(g.size()) + " expected " + std::to_string(w.size()) + " " + str(g) + " vs " + str(w));
    for (size_t i = 0; i < g.size(); ++i) {
        if (!(g[i] == w[i])) violation(file, line, std::string(expr) + " differ at " + std::to_string(i) + ": observed " + str(g) + " expected " + str(w));
    }
    total_events += g.size();
    if constexpr (std::is_integral_v<T>) for (size_t i = 0; i < g.size(); ++i) fold((u64)w[i]);
    observe(g.size());
}
inline bool close_enough(long double a, long double b, long double eps) {
    if (std::isnan((double)a) || std::isnan((double)b)) return false;
    return std::fabs(a - b) <= eps * std::max<long double>(1, std::max(std::fabs(a), std::fabs(b)));
}
#define REQUIRE(c, ...) do { ++mon::case_events; ++mon::total_events; if (!(c)) mon::violation(__FILE__, __LINE__, std::string(#c " ") + mon::cat(__VA_ARGS__)); } while (0)
#define EQ(g, w, ...) mon::eq((g), (w), __FILE__, __LINE__, #g)
#define EQV(g, w) mon::eqv((g), (w), __FILE__, __LINE__, #g)
#define NEAR(g, w, eps) do { long double _g = (g), _w = (w); if (!mon::close_enough(_g, _w, eps)) mon::violation(__FILE__, __LINE__, std::string(#g) + " observed " + mon::str((double)_g) + " expected " + mon::str((double)_w)); mon::observe((u64)(long long)(_w * 16)); } while (0)
#define FAIL(...) mon::violation(__FILE__, __LINE__, mon::cat(__VA_ARGS__))
template <class... A> std::string cat(const A&... a) { std::string s; ((s += str(a), s += ' '), ...); return s; }
inline void log_line(const std::string& s) {
    if (sample_buf.size() < 300) sample_buf += s + "; ";
    if (verbose) { std::printf("  %s\n", s.c_str()); std::fflush(stdout); }
}
#define LOG(...) do { if (mon::logging) mon::log_line(mon::cat(__VA_ARGS__)); } while (0)

// ---------------------------------------------------------------- PRNG
inline u64 size_calls = 0;
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix(seed)) {}
    u64 u() { return mix(s += 0x9e3779b97f4a7c15ULL); }
    // scenarios of few cases: the first choice of a case (usually which type or operation mix to run) cycles with the case number
    bool stratify = false; u64 turn = 0;
    bool first_draw(u64& k, u64 w) { if (!stratify) return false; stratify = false; if (w >= 40) return false; k = turn % (w + 1); return true; }
    using result_type = u64;
    static constexpr u64 min() { return 0; }
    static constexpr u64 max() { return ~0ULL; }
    u64 operator()() { return u(); }
    // uniform in [l, r]
    i64 in(i64 l, i64 r) { if (u64 k; first_draw(k, (u64)r - (u64)l)) return (i64)((u64)l + k); u128 w = (u128)((u64)r - (u64)l) + 1; return (i64)((u64)l + (u64)((u128)u() * (u64)w >> 64) * (w >> 64 ? 0 : 1) + (w >> 64 ? u() : 0)); }
    // as in(), with wide ranges biased towards their ends, 0 and power-of-two offsets (block and word boundaries)
    i64 operator()(i64 l, i64 r) {
        if (r <= l || (u64)r - (u64)l < 40) return in(l, r);
        u64 z = u();
        if (z % 14) return in(l, r);
        u64 w = (u64)r - (u64)l; z >>= 8;
        u64 p = 1ULL << (z % (64 - __builtin_clzll(w))); z >>= 8;
        i64 d = (i64)(z % 3) - 1; z >>= 8;
        switch (z % 6) {
        case 0: return l;
        case 1: return r;
        case 2: if (l < 0 && r > 0) return d; return (i64)((u64)r - std::min(p, w));
        default: { u64 o = p + (u64)d; return (i64)((u64)l + std::min(o, w)); }
        }
    }
    bool pct(int p) { return in(0, 99) < p; }
    bool coin() { u64 k; if (first_draw(k, 1)) return k; return u() >> 63; }
    // sizes biased towards small values, powers of two and their neighbours
    int mag = 1; // magnified cases (RESCALE) draw mostly from the upper part of a range `mag` times as wide
    int upto(int lo, int hi) { int m = mag; mag = 1; int r = size(lo, hi); mag = m; return r; } // never magnified
    int size(int lo, int hi) {
        if (lo >= hi) return lo;
        if (mag > 1) {
            ++size_calls;
            i64 h = lo + (i64)(hi - lo) * mag;
            switch (in(0, 5)) {
            case 0: return (int)in(lo, h);
            case 1: { i64 p = 1; while (2 * p <= h) p *= 2; p += in(-1, 1); return (int)std::clamp<i64>(p, lo, h); }
            default: return (int)in(lo + (h - lo) * 3 / 4, h);
            }
        }
        switch (in(0, 7)) {
        case 0: return (int)std::min<i64>(hi, in(lo, lo + 3));
        case 1: { i64 p = 1LL << in(0, 16); p += in(-1, 1); return (int)std::clamp<i64>(p, lo, hi); }
        case 2: case 3: return (int)in(lo, std::min<i64>(hi, lo + 12));
        case 4: return (int)in(lo, std::min<i64>(hi, lo + 40));
        default: return (int)in(lo, hi);
        }
    }
    // value of random bit length, biased to boundary patterns, in [0, maxv]
    u64 wide(u64 maxv = ~0ULL) {
        u64 v;
        switch (in(0, 5)) {
        case 0: v = in(0, 5); break;
        case 1: v = maxv - (u64)in(0, 5); break;
        case 2: v = (1ULL << in(0, 63)) + (u64)in(-2, 2); break;
        case 3: v = u() >> in(0, 63); break;
        default: v = u(); break;
        }
        if (v > maxv) v = maxv == ~0ULL ? v : v % (maxv + 1);
        return v;
    }
    i64 wides(i64 lo, i64 hi) { return (i64)((u64)lo + wide((u64)hi - (u64)lo)); }
    template <class T = int> std::vector<T> vec(int n, i64 lo, i64 hi) { std::vector<T> v(n); for (auto& x : v) x = (T)in(lo, hi); return v; }
    std::vector<int> perm(int n) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); shuffle(p); return p; }
    template <class V> void shuffle(V& v) { for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[in(0, i)]); }
    template <class V> auto pick(const V& v) -> decltype(v[0]) { return v[in(0, (i64)v.size() - 1)]; }
    std::string string(int n, int sigma, char base = 'a') { std::string s(n, base); for (auto& c : s) c = char(base + in(0, sigma - 1)); return s; }
    // strings with much repetition
    std::string rep_string(int n, int sigma, char base = 'a') {
        switch (in(0, 4)) {
        case 0: return string(n, sigma, base);
        case 1: { int k = (int)in(1, std::max(1, n / 2)); std::string p = string(std::max(1, k), sigma, base), s; while ((int)s.size() < n) s += p; s.resize(n);
                  if (n && coin()) s[in(0, n - 1)] = char(base + in(0, sigma - 1)); return s; }
        case 2: { std::string a(1, base), b(1, char(base + (sigma > 1))); while ((int)b.size() < n) { std::string c = b + a; a = b; b = c; } b.resize(n); return b; }
        case 3: { std::string s = string(n, sigma, base); for (int i = 0; i < n / 2; ++i) if (pct(90)) s[n - 1 - i] = s[i]; return s; }
        default: { std::string s(n, base); for (int k = (int)in(0, 3); n && k--;) s[in(0, n - 1)] = char(base + in(0, sigma - 1)); return s; }
        }
    }
    // random tree on n vertices: list of edges, several shapes, labels shuffled
    std::vector<std::pair<int, int>> tree(int n, bool relabel = true) {
        std::vector<std::pair<int, int>> e;
        int shape = (int)in(0, 6);
        int hub = (int)in(1, 4);
        for (int i = 1; i < n; ++i) {
            int p;
            switch (shape) {
            case 0: p = i - 1; break;                                   // path
            case 1: p = 0; break;                                       // star
            case 2: p = (i - 1) / 2; break;                             // binary
            case 3: p = (int)in(std::max(0, i - 3), i - 1); break;      // long
            case 4: p = (i % 2 == 0) ? i - 1 : std::max(0, i - 2); break; // caterpillar
            case 5: p = (int)in(0, std::min(i - 1, hub)); break;        // few hubs
            default: p = (int)in(0, i - 1); break;
            }
            e.emplace_back(p, i);
        }
        if (relabel) {
            auto p = perm(n);
            for (auto& [a, b] : e) { a = p[a], b = p[b]; if (coin()) std::swap(a, b); }
            shuffle(e);
        }
        return e;
    }
    std::vector<std::vector<int>> tree_adj(int n, bool relabel = true) {
        std::vector<std::vector<int>> g(n);
        for (auto [a, b] : tree(n, relabel)) g[a].push_back(b), g[b].push_back(a);
        return g;
    }
};

// ---------------------------------------------------------------- scenarios
struct Scenario { const char* name; void (*fn)(Rng&); u64 quick; u64 mult; bool known; int mag; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(const char* n, void (*f)(Rng&), u64 q, u64 m, bool known = false, int mag = 1) { scenarios().push_back({ n, f, q, m, known, mag }); } };
// SCENARIO(name, quick_cases[, thorough multiplier])
#define SCEN3(name, q, m) static void scen_##name(mon::Rng& rng); static mon::Reg reg_##name(#name, scen_##name, q, m); static void scen_##name([[maybe_unused]] mon::Rng& rng)
#define SCEN2(name, q) SCEN3(name, q, 20)
#define SCEN_SEL(_1, _2, _3, N, ...) N
#define SCENARIO(...) SCEN_SEL(__VA_ARGS__, SCEN3, SCEN2)(__VA_ARGS__)
// RESCALE(name, quick_cases, mag): the same workload and monitors with every size range `mag` times as wide
#define RESCALE(name, q, m) static mon::Reg reg_scaled_##name(#name "_scaled", scen_##name, q, 6, false, m)
// a scenario that exercises one listed defect only (see known_findings.json)
#define KNOWN_SCENARIO(name) static void scen_##name(mon::Rng& rng); static mon::Reg reg_##name(#name, scen_##name, 1, 1, true); static void scen_##name([[maybe_unused]] mon::Rng& rng)

inline u64 last_seen_case = ~0ULL; inline int stuck_ticks = 0; inline u64 case_counter = 0;
inline int hang_ticks = 60; // CPU seconds spent in a single case
inline void on_tick(int) {
    if (last_seen_case == case_counter) {
        if (++stuck_ticks >= hang_ticks) {
            status->hang = 1;
            const char m[] = "MONITOR-HANG: one case used more CPU than the budget\n";
            ssize_t r = write(2, m, sizeof m - 1); (void)r;
            _exit(78);
        }
    } else last_seen_case = case_counter, stuck_ticks = 0;
}
#define SAMPLE(...) LOG(__VA_ARGS__)

inline std::string jesc(const std::string& s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') o += '\\', o += c; else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}

inline int run(int argc, char** argv) {
    u64 seed = 1; std::string only; i64 only_iter = -1; int shard = 0, shards = 1; std::string out, stat; bool known = false; double scale = 1; int mag = 0;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&] { return std::string(argv[++i]); };
        if (a == "--seed") seed = std::stoull(nxt());
        else if (a == "--scenario") only = nxt();
        else if (a == "--iter") only_iter = std::stoll(nxt());
        else if (a == "--shard") shard = std::stoi(nxt());
        else if (a == "--shards") shards = std::stoi(nxt());
        else if (a == "--out") out = nxt();
        else if (a == "--status") stat = nxt();
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") verbose = true;
        else if (a == "--known") known = true;
        else if (a == "--scale") scale = std::stod(nxt());
        else if (a == "--list") list = true;
        else if (a == "--mag") mag = std::stoi(nxt());
        else if (a == "--hang-ticks") hang_ticks = std::stoi(nxt());
    }
    if (list) { for (auto& s : scenarios()) std::printf("%s %d\n", s.name, (int)s.known); return 0; }
    if (stat.size()) {
        int fd = open(stat.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Status))) { std::perror("status"); return 3; }
        void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) { std::perror("mmap"); return 3; }
        status = (Status*)p;
    }
    struct sigaction sa {}; sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    itimerval tv{ {1, 0}, {1, 0} }; setitimer(ITIMER_PROF, &tv, nullptr);
    std::string json = "[";
    bool firstj = true;
    for (auto& sc : scenarios()) {
        if (only.size() ? only != sc.name : sc.known != known) continue;
        cur_scenario = sc.name;
        std::strncpy(status->scenario, sc.name, sizeof(status->scenario) - 1);
        u64 iters = std::max<u64>(1, (u64)(scale * (double)(sc.quick * (thorough && !sc.known ? sc.mult : 1))));
        std::unordered_set<u64> sigs; u64 cases = 0, ev = 0; std::vector<std::string> samples;
        u64 h = hash_str(sc.name);
        for (u64 it = 0; it < iters; ++it) {
            if (only_iter >= 0 ? (u64)only_iter != it : (int)(it % shards) != shard) continue;
            cur_iter = it; status->iter = it; ++case_counter;
            case_sig = 0; case_events = 0; sample_buf.clear();
            Rng rng(mix(seed * 0x51ed2701 + h) ^ mix(it + 12345));
            rng.mag = mag ? mag : sc.mag; rng.stratify = sc.quick <= 100; rng.turn = it + mix(seed + h) % 1000;
            logging = verbose || samples.size() < 2;
            if (verbose) std::printf("case %s seed=%llu iter=%llu\n", sc.name, seed, it);
            u64 before = total_events;
            sc.fn(rng);
            ++cases; ++status->cases; ev += total_events - before; status->events = total_events;
            if (case_events >= 2) sigs.insert(case_sig);
            if (samples.size() < 2 && sample_buf.size()) samples.push_back("case " + std::to_string(it) + ": " + sample_buf.substr(0, 300) + " -> " + std::to_string(total_events - before) + " observations");
        }
        if (!firstj) json += ",";
        firstj = false;
        json += "{\"scenario\":\"" + jesc(sc.name) + "\",\"cases\":" + std::to_string(cases) + ",\"observations\":" + std::to_string(ev) + ",\"distinct\":" + std::to_string(sigs.size()) + ",\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) json += (i ? ",\"" : "\"") + jesc(samples[i]) + "\"";
        json += "]}";
    }
    json += "]";
    if (mag) std::fprintf(stderr, "size_calls=%llu\n", (unsigned long long)size_calls);
    if (out.size()) { std::ofstream o(out); o << json << "\n"; }
    else std::printf("%s\n", json.c_str());
    return 0;
}
} // namespace mon
using mon::i64; using mon::u64; using mon::u32; using mon::i128; using mon::u128;
int main(int argc, char** argv) { return mon::run(argc, argv); }
