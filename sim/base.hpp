// Small shared helpers of the simulator: PRNG, hashing, text encoding.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <cstdio>
#include <cstdlib>

namespace sim {

struct Rng {                     // splitmix64: one integer decides everything
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class V> const typename V::value_type& pick(const V& v) { return v[below(v.size())]; }
    template <class V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

inline std::string hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
inline std::string num(double d) {          // exact, readable both ways
    char b[40];
    if (std::isnan(d)) return "nan";
    snprintf(b, sizeof b, "%.17g", d);
    if (char* c = strchr(b, ',')) *c = '.';           // whatever the locale
    return b;
}
inline std::string enc(const std::string& s) {
    std::string r; char b[4];
    if (s.empty()) return "%";
    for (unsigned char c : s)
        if (c <= ' ' || c == '%' || c >= 127) { snprintf(b, 4, "%%%02x", c); r += b; } else r += (char)c;
    return r;
}
inline std::string dec(const std::string& s) {
    std::string r;
    if (s == "%") return r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else r += s[i];
    return r;
}
inline std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r; std::string cur;
    for (char x : s) if (x == c) { r.push_back(cur); cur.clear(); } else cur += x;
    r.push_back(cur); return r;
}
inline std::vector<std::string> words(const std::string& s) {
    std::vector<std::string> r; std::string cur;
    for (char x : s) if (x == ' ') { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += x;
    if (!cur.empty()) r.push_back(cur);
    return r;
}
inline std::string join(const std::vector<std::string>& v, const std::string& sep) {
    std::string r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += v[i]; } return r;
}
inline bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

} // namespace sim
