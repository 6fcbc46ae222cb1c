// Workload and monitor framework: units of numbered cases, deterministic per (seed, unit, case).
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <utility>
#include <tuple>
#include <algorithm>
#include <functional>
#include <iostream>
#include <sstream>

namespace vm {

typedef __int128 i128;
typedef unsigned __int128 u128;

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const char* s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    uint32_t u32() { return uint32_t(u64() >> 32); }
    // uniform in [0, n)
    uint64_t below(uint64_t n) { return n ? uint64_t((u128(u64()) * n) >> 64) : 0; }
    // uniform in [lo, hi]
    int64_t range(int64_t lo, int64_t hi) { uint64_t n = uint64_t(hi) - uint64_t(lo) + 1; return int64_t(uint64_t(lo) + (n ? below(n) : u64())); }
    bool coin(int num = 1, int den = 2) { return below(den) < (uint64_t)num; }
    // random magnitude: uniform number of bits up to `bits`
    uint64_t bits(int bits) { int b = (int)below(bits + 1); return b == 0 ? 0 : (u64() >> (64 - b)); }
    // interesting 64-bit values limited to [lo, hi]: limits, powers of two, small, uniform, log-uniform
    int64_t edgy(int64_t lo, int64_t hi) {
        for (int t = 0; t < 8; t++) {
            int64_t v;
            switch (below(7)) {
            case 0: v = int64_t(uint64_t(lo) + below(4)); break;
            case 1: v = int64_t(uint64_t(hi) - below(4)); break;
            case 2: v = int64_t(below(17)) - 8; break;
            case 3: v = int64_t((uint64_t(1) << below(63)) + below(5) - 2); if (coin()) v = int64_t(0 - uint64_t(v)); break;
            case 4: v = int64_t(bits(63)); if (coin()) v = -v; break;
            default: return range(lo, hi);
            }
            if (lo <= v && v <= hi) return v;
        }
        return range(lo, hi);
    }
    uint64_t edgyu(uint64_t hi) {
        for (int t = 0; t < 8; t++) {
            uint64_t v;
            switch (below(6)) {
            case 0: v = below(10); break;
            case 1: v = hi - below(4); break;
            case 2: v = (uint64_t(1) << below(64)) + below(5) - 2; break;
            case 3: v = bits(64); break;
            default: return hi == ~0ull ? u64() : below(hi + 1);
            }
            if (v <= hi) return v;
        }
        return hi == ~0ull ? u64() : below(hi + 1);
    }
    template<typename C> const typename C::value_type& pick(const C& c) { return c[below(c.size())]; }
    template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template<typename V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
};

// ---- to-string of compared values
inline std::string str(const std::string& s) { return "\"" + s + "\""; }
inline std::string str(const char* s) { return std::string("\"") + s + "\""; }
inline std::string str(bool b) { return b ? "true" : "false"; }
inline std::string str(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + int(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
inline std::string str(i128 v) { return v < 0 ? "-" + str(u128(0) - u128(v)) : str(u128(v)); }
inline std::string str(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline std::string str(float d) { return str(double(d)); }
inline std::string str(long double d) { char b[64]; snprintf(b, sizeof b, "%.21Lg", d); return b; }
template<typename T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value && (sizeof(T) < 16), std::string>::type
str(T v) { return std::to_string(v); }
template<typename A, typename B> std::string str(const std::pair<A, B>& p);
template<typename T> std::string str(const std::vector<T>& v);
template<typename T> std::string str(const std::set<T>& v);
template<typename K, typename V> std::string str(const std::map<K, V>& v);
template<typename It> std::string str_range(It b, It e) {
    std::string s = "["; int n = 0;
    for (; b != e; ++b) { if (n) s += ","; if (++n > 60) { s += "..."; break; } s += str(*b); }
    return s + "]";
}
template<typename A, typename B> std::string str(const std::pair<A, B>& p) { return "(" + str(p.first) + "," + str(p.second) + ")"; }
template<typename T> std::string str(const std::vector<T>& v) { return str_range(v.begin(), v.end()); }
template<> inline std::string str(const std::vector<bool>& v) { std::string s; for (bool b : v) s += b ? '1' : '0'; return s; }
template<typename T> std::string str(const std::set<T>& v) { return "{" + str_range(v.begin(), v.end()) + "}"; }
template<typename K, typename V> std::string str(const std::map<K, V>& v) { return "{" + str_range(v.begin(), v.end()) + "}"; }

// same, also finding overloads declared later next to the type (argument-dependent lookup)
template<typename T> std::string S(const T& v) { return str(v); }

struct Failure { std::string tag, msg; };

struct Ctx {
    Rng rng;
    uint64_t index = 0;   // case number
    uint64_t count = 0;   // number of cases of the unit in this tier
    bool thorough = false;
    const char* unit = "";
    // describes the input of the current case (kept where it survives a crash)
    void input(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(const std::string& s);         // appends to the description
    void nontrivial(uint64_t h);             // this case is non-trivial; h identifies the input
    void nontrivial_input();                 // same, hashing the description
    void event(const char* name, uint64_t n = 1);
    void checks(uint64_t n = 1);
    [[noreturn]] void fail(const std::string& tag, const std::string& msg);
    template<typename A, typename B> void eq(const A& got, const B& want, const char* tag) {
        checks();
        if (!(got == want)) fail(tag, std::string(tag) + ": got " + str(got) + ", want " + str(want));
    }
    void ok(bool cond, const char* tag, const std::string& msg = "") {
        checks();
        if (!cond) fail(tag, std::string(tag) + ": condition violated " + msg);
    }
    template<typename E, typename F> void throws(F f, const char* tag) {
        checks();
        bool t = false;
        try { f(); } catch (const E&) { t = true; }
        if (!t) fail(tag, std::string(tag) + ": expected exception not thrown");
    }
};

struct Unit {
    const char* name;
    uint64_t quick, thorough;
    void (*fn)(Ctx&);
    const char* rule;
    Unit* next;
    Unit(const char* name, uint64_t quick, uint64_t thorough, const char* rule, void (*fn)(Ctx&));
};

// UNIT(name, quick_cases, thorough_cases, "what a case is") { ... c.rng ... }
#define UNIT(id, quick, thorough, rule) \
    static void unit_##id(vm::Ctx& c); \
    static vm::Unit unit_reg_##id(#id, quick, thorough, rule, unit_##id); \
    static void unit_##id(vm::Ctx& c)

// live allocation balance (bytes currently allocated through the sanitizer's allocator)
size_t allocated_bytes();

// Element type that counts live instances and detects use of dead instances.
struct Tracked {
    static int64_t live;
    static int64_t bad;
    int v;
    uint32_t magic;
    enum : uint32_t { ALIVE = 0xA11CE5u, DEAD = 0xDEADu };
    Tracked(int v = 0) : v(v), magic(ALIVE) { live++; }
    Tracked(const Tracked& o) : v(o.v), magic(ALIVE) { if (o.magic != ALIVE) bad++; live++; }
    Tracked& operator=(const Tracked& o) { if (o.magic != ALIVE || magic != ALIVE) bad++; v = o.v; return *this; }
    ~Tracked() { if (magic != ALIVE) bad++; magic = DEAD; live--; }
    bool operator<(const Tracked& o) const { if (o.magic != ALIVE || magic != ALIVE) bad++; return v < o.v; }
    bool operator==(const Tracked& o) const { if (o.magic != ALIVE || magic != ALIVE) bad++; return v == o.v; }
};
inline std::string str(const Tracked& t) { return "T" + std::to_string(t.v); }

} // namespace vm
