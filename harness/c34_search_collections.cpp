// C34: bisection against the threshold the predicate was built from; collection helpers against naive definitions; tuple hashes.
#include "vm.h"
#include <deque>
#include <list>
#include <math.h>
#include <unordered_map>
#include "altruct/algorithm/search/binary_search.h"
#include "altruct/algorithm/collections/collections.h"
#include "altruct/algorithm/hash/std_tuple_hash.h"

namespace as = altruct::search; namespace ac = altruct::collections;
namespace vm { template<typename T> std::string str(const std::list<T>& v) { return str_range(v.begin(), v.end()); } template<typename T> std::string str(const std::deque<T>& v) { return str_range(v.begin(), v.end()); } }

namespace {
typedef vm::i128 i128;
template<typename I> void bisect(vm::Ctx& c, const char* type) {
    auto& r = c.rng; const I mn = std::numeric_limits<I>::min(), mx = std::numeric_limits<I>::max();
    auto draw = [&]() -> I { return std::is_signed<I>::value ? (I)r.edgy((int64_t)mn, (int64_t)mx) : (I)r.edgyu((uint64_t)mx); };
    I lo = draw(), hi = r.coin(1, 3) ? (I)((uint64_t)lo + std::min<uint64_t>(r.below(20), (uint64_t)mx - (uint64_t)lo)) : draw(); if (lo > hi) std::swap(lo, hi); if (r.coin(1, 8)) lo = mn, hi = mx;
    I t; switch (r.below(4)) { case 0: t = lo; break; case 1: t = hi; break; default: t = (I)((uint64_t)lo + (((uint64_t)hi - (uint64_t)lo) == ~0ull ? r.u64() : r.below((uint64_t)hi - (uint64_t)lo + 1))); }
    c.input("%s lo %s hi %s threshold %s", type, vm::str(lo).c_str(), vm::str(hi).c_str(), vm::str(t).c_str()); uint64_t calls = 0;
    auto seen = [&](I x) { calls++; if (!(lo <= x && x < hi)) c.fail("search:predicate called outside the range", "predicate called outside the range at " + vm::str(x)); if (calls > 200) c.fail("search:termination", "more than 200 calls"); };
    c.eq(as::binary_search_pred(lo, hi, [&](I x) { seen(x); return x >= t; }), t, "binary_search_pred"); c.event("predicate calls", calls);
    calls = 0; c.eq(as::binary_search_num(lo, hi, (I)1, [&](I x) { seen(x); return x >= t; }), t, "binary_search_num"); c.event("predicate calls", calls);
    // f is a monotone step: below, equal to, above val
    I u = (I)((uint64_t)t + (((uint64_t)hi - (uint64_t)t) ? r.below(std::min<uint64_t>((uint64_t)hi - (uint64_t)t, 40) + 1) : 0)); int val = (int)r.range(-5, 5); bool dec = r.coin();
    auto f = [&](I x) { seen(x); int s = x < t ? -1 : x < u ? 0 : 1; return dec ? val - 2 * s : val + 3 * s; };
    calls = 0; c.eq(as::lower_bound_num(lo, hi, (I)1, val, f, dec), t, "lower_bound_num"); calls = 0; c.eq(as::upper_bound_num(lo, hi, (I)1, val, f, dec), u, "upper_bound_num");
    if (!dec) { calls = 0; c.eq(as::lower_bound_num(lo, hi, (I)1, val, f), t, "lower_bound_num:default"); calls = 0; c.eq(as::upper_bound_num(lo, hi, (I)1, val, f), u, "upper_bound_num:default"); }
    if ((i128)hi - (i128)lo > (i128)mx) c.event("ranges wider than the type"); if (lo < hi) c.nontrivial_input();
}
template<typename F> void bisect_real(vm::Ctx& c, const char* type) {
    auto& r = c.rng; auto draw = [&]() -> F { switch (r.below(5)) { case 0: return (F)r.range(-5, 5); case 1: return (F)ldexp((double)r.range(-1000000, 1000000), (int)r.range(-60, 30)); case 2: return (F)ldexp(1.0, (int)r.range(-100, 100)) * (r.coin() ? 1 : -1); case 3: return 0; default: return (F)r.range(-1000000, 1000000) / 1000; } };
    F lo = draw(), hi = draw(); if (lo > hi) std::swap(lo, hi); F t; switch (r.below(4)) { case 0: t = lo; break; case 1: t = hi; break; case 2: t = lo + (hi - lo) * (F)r.below(1001) / 1000; break; default: t = draw(); } if (t < lo) t = lo; if (t > hi) t = hi; F eps = 0; if (r.coin()) eps = (hi - lo) * (F)ldexp(1.0, -(int)r.range(1, 40));
    F mag = std::max(std::fabs(lo), std::fabs(hi)), ulp = mag * std::numeric_limits<F>::epsilon(), tol = eps + 4 * ulp; c.input("%s lo %s hi %s threshold %s eps %s", type, vm::str(lo).c_str(), vm::str(hi).c_str(), vm::str(t).c_str(), vm::str(eps).c_str()); uint64_t calls = 0;
    auto seen = [&](F x) { if (++calls > 2000) c.fail("search:termination", "more than 2000 calls"); if (!(lo <= x && x <= hi)) c.fail("search:predicate called outside the range", "predicate called outside the range at " + vm::str(x)); };
    auto close = [&](F got, F want, const char* tag) { c.ok(std::fabs(got - want) <= tol, tag, vm::str(got)); };
    close(as::binary_search_num(lo, hi, eps, [&](F x) { seen(x); return x >= t; }), t, "binary_search_num:real"); c.event("predicate calls", calls);
    F u = t + (hi - t) * (F)r.below(11) / 10; bool dec = r.coin(); int val = (int)r.range(-5, 5); auto f = [&](F x) { seen(x); int s = x < t ? -1 : x < u ? 0 : 1; return dec ? val - 2 * s : val + 3 * s; };
    calls = 0; close(as::lower_bound_num(lo, hi, eps, val, f, dec), t, "lower_bound_num:real"); calls = 0; close(as::upper_bound_num(lo, hi, eps, val, f, dec), u, "upper_bound_num:real"); c.event(eps > 0 ? "real with eps" : "real without eps"); if (lo < hi) c.nontrivial_input();
}
template<typename C> void collection(vm::Ctx& c, const C& a, const C& b) {
    typedef typename C::value_type T; auto& r = c.rng; std::vector<T> v(a.begin(), a.end()), w(b.begin(), b.end()); const C a0 = a;
    { std::vector<T> s = v; for (size_t i = 1; i < s.size(); i++) for (size_t j = i; j && s[j] < s[j - 1]; j--) std::swap(s[j], s[j - 1]); c.eq(ac::sorted(a), s, "sorted"); c.eq(ac::sorted(a.begin(), a.end()), s, "sorted:iterators"); }
    { std::vector<T> s; for (size_t i = v.size(); i--; ) s.push_back(v[i]); c.eq(ac::reversed(a), s, "reversed"); c.eq(ac::reversed(a.begin(), a.end()), s, "reversed:iterators"); }
    { size_t n = r.coin(1, 8) ? (size_t)-1 : r.below(v.size() + 4); std::vector<T> s; for (size_t i = 0; i < v.size() && i < n; i++) s.push_back(v[i]); c.eq(ac::take(a, n), s, "take"); c.eq(ac::take(a.begin(), a.end(), n), s, "take:iterators"); }
    { auto p = [](const T& x) { return std::hash<T>()(x) % 3 != 1; }; std::vector<T> s; for (auto& x : v) if (p(x)) s.push_back(x); c.eq(ac::filter(a, p), s, "filter"); c.eq(ac::filter(a.begin(), a.end(), p), s, "filter:iterators"); }
    { int n = 0; auto f = [&n](const T& x) { n++; return std::to_string(std::hash<T>()(x) % 1000) + "!"; }; std::vector<std::string> s; for (auto& x : v) s.push_back(std::to_string(std::hash<T>()(x) % 1000) + "!"); c.eq(ac::transform(a, f), s, "transform"); c.eq(ac::transform(a.begin(), a.end(), f), s, "transform:iterators"); c.eq((size_t)n, 2 * v.size(), "transform:calls"); }
    { std::vector<std::pair<T, int>> s; for (size_t i = 0; i < v.size(); ) { size_t j = i; while (j < v.size() && v[j] == v[i]) j++; s.push_back({ v[i], (int)(j - i) }); i = j; } c.eq(ac::run_length(a), s, "run_length"); c.eq(ac::run_length(a.begin(), a.end()), s, "run_length:iterators"); if (s.size() < v.size()) c.event("runs"); }
    { auto cmp = [](std::vector<T> x, std::vector<T> y, size_t m) { if (x.size() > m) x.resize(m); if (y.size() > m) y.resize(m); return x < y ? -1 : y < x ? 1 : 0; };
      size_t m = r.below(v.size() + 3); c.eq(ac::compare(a.begin(), a.end(), b.begin(), b.end()), cmp(v, w, ~size_t(0)), "compare"); c.eq(ac::compare(a.begin(), a.end(), b.begin(), b.end(), m), cmp(v, w, m), "compare:max_len"); c.eq(ac::compare(b.begin(), b.end(), a.begin(), a.end(), m), cmp(w, v, m), "compare:max_len"); c.eq(ac::compare(a.begin(), a.end(), v.begin(), v.end()), 0, "compare:itself"); }
    for (int i = 0; i < 3; i++) { T x = !v.empty() && r.coin() ? v[r.below(v.size())] : !w.empty() ? w[r.below(w.size())] : T(); bool in = false; for (auto& y : v) in |= y == x; c.eq(ac::contains(a, x), in, "contains"); c.eq(ac::contains(a.begin(), a.end(), x), in, "contains:iterators"); }
    c.ok(a == a0, "collection unchanged"); c.event("elements", v.size());
}
}
UNIT(bisection, 40000, 8000000, "an integer range of any width up to the whole type, a threshold in it, and a monotone step function around the threshold") { switch (c.rng.below(8)) { case 0: bisect<int8_t>(c, "int8"); break; case 1: bisect<uint8_t>(c, "uint8"); break; case 2: bisect<int16_t>(c, "int16"); break; case 3: bisect<int>(c, "int32"); break; case 4: bisect<uint32_t>(c, "uint32"); break; case 5: bisect<uint64_t>(c, "uint64"); break; default: bisect<int64_t>(c, "int64"); } }
UNIT(bisection_real, 20000, 3000000, "a range of reals, a threshold in it, a tolerance or none") { if (c.rng.coin(1, 3)) bisect_real<float>(c, "float"); else bisect_real<double>(c, "double"); }
UNIT(bisection_iterators, 5000, 500000, "a sorted vector, deque or array searched through iterators and pointers") {
    auto& r = c.rng; int n = (int)r.below(r.pick({3, 12, 200})), m = (int)r.pick({2, 10, 1000}); std::vector<int> v(n); for (auto& x : v) x = (int)r.below(m); std::sort(v.begin(), v.end()); std::deque<int> d(v.begin(), v.end()); c.input("%s", vm::str(v).c_str());
    for (int k = 0; k < 4; k++) { int q = (int)r.range(-1, m); size_t w = 0; while (w < v.size() && v[w] < q) w++; c.eq((size_t)(as::binary_search_pred(v.begin(), v.end(), [&](std::vector<int>::iterator it) { return *it >= q; }) - v.begin()), w, "binary_search_pred:iterator"); c.eq((size_t)(as::binary_search_pred(d.begin(), d.end(), [&](std::deque<int>::iterator it) { return *it >= q; }) - d.begin()), w, "binary_search_pred:deque"); const int* p = v.data(); c.eq((size_t)(as::binary_search_pred(p, p + n, [&](const int* it) { return *it >= q; }) - p), w, "binary_search_pred:pointer"); c.eq((size_t)(as::binary_search_pred(v.rbegin(), v.rend(), [&](std::vector<int>::reverse_iterator it) { return *it < q; }) - v.rbegin()), v.size() - w, "binary_search_pred:reverse"); }
    if (n > 1) c.nontrivial_input();
}
UNIT(collections_of_all_kinds, 8000, 800000, "two sequences (sharing a prefix) as vector, list, deque, set or string, through the container and the iterator forms of every helper") {
    auto& r = c.rng; int n = (int)r.below(r.pick({2, 6, 40, 200})), m = (int)r.pick({1, 2, 5, 1000}); std::vector<int> a(n), b; for (auto& x : a) x = (int)r.below(m) - m / 3; b = a; if (!b.empty()) { b.resize(r.below(b.size() + 1)); } for (int k = (int)r.below(4); k; k--) b.push_back((int)r.below(m) - m / 3); if (!b.empty() && r.coin(1, 3)) b[r.below(b.size())] += r.coin() ? 1 : -1; c.input("%s %s", vm::str(a).c_str(), vm::str(b).c_str());
    switch (r.below(6)) { case 0: collection(c, a, b); break; case 1: collection(c, std::list<int>(a.begin(), a.end()), std::list<int>(b.begin(), b.end())); break; case 2: collection(c, std::deque<int>(a.begin(), a.end()), std::deque<int>(b.begin(), b.end())); break; case 3: collection(c, std::set<int>(a.begin(), a.end()), std::set<int>(b.begin(), b.end())); break;
    case 4: { std::string s, t; for (int x : a) s.push_back((char)x); for (int x : b) t.push_back((char)x); collection(c, s, t); break; } default: { std::vector<std::string> s, t; for (int x : a) s.push_back(std::to_string(x)); for (int x : b) t.push_back(std::to_string(x)); collection(c, s, t); } }
    if (n > 1) c.nontrivial_input();
}
UNIT(reserve, 2000, 100000, "appending with reserve_more: contents kept, capacity sufficient, reallocations logarithmic in the total") {
    auto& r = c.rng; std::vector<int> v; std::vector<int> ref; int steps = 50 + (int)r.below(r.pick({50, 3000})); size_t realloc = 0; int mode = (int)r.below(3); c.input("steps %d mode %d", steps, mode); for (int i = 0; i < steps; i++) { size_t k = mode == 0 ? 1 : mode == 1 ? r.below(5) : r.below(r.pick({3, 50})); size_t cap = v.capacity(); ac::reserve_more(v, k); c.ok(v.capacity() >= v.size() + k, "reserve_more:capacity"); if (v.capacity() != cap) realloc++; for (size_t j = 0; j < k; j++) { int x = (int)r.u32(); v.push_back(x); ref.push_back(x); } } c.eq(v, ref, "reserve_more:contents"); c.ok((double)realloc <= 12 + 4 * log2((double)ref.size() + 2), "reserve_more:exponential growth", std::to_string(realloc) + " reallocations for " + std::to_string(ref.size())); std::string s = "abc"; ac::reserve_more(s, 100); c.eq(s, std::string("abc"), "reserve_more:string"); c.ok(s.capacity() >= 103, "reserve_more:string"); c.event("reallocations", realloc); c.nontrivial_input();
}
UNIT(tuple_hash, 2000, 200000, "tuples and pairs of several types as keys of unordered containers; equal keys hash equally; every component matters") {
    auto& r = c.rng; typedef std::tuple<int, std::string, uint64_t> K; auto key = [&]() { return K{ (int)r.below(6), std::string(1 + r.below(2), (char)('a' + r.below(3))), r.below(4) }; };
    std::unordered_map<K, int> m; std::map<K, int> ref; std::unordered_map<std::pair<int, int>, int> pm; std::map<std::pair<int, int>, int> pref; std::unordered_set<std::pair<std::string, std::tuple<int>>> ns; std::set<std::pair<std::string, std::tuple<int>>> nref; c.input("case %llu", (unsigned long long)c.index);
    for (int i = 0; i < 60; i++) { K k = key(); int x = (int)r.below(100); switch (r.below(3)) { case 0: m[k] = x; ref[k] = x; break; case 1: c.eq(m.erase(k), ref.erase(k), "tuple_hash:erase"); break; default: c.eq(m.count(k), ref.count(k), "tuple_hash:count"); if (ref.count(k)) c.eq(m[k], ref[k], "tuple_hash:value"); } K k2 = k; c.eq(std::hash<K>()(k), std::hash<K>()(k2), "tuple_hash:equal keys");
        std::pair<int, int> p{ (int)r.range(-3, 3), (int)r.range(-3, 3) }; if (r.coin(2, 3)) { pm[p] = x; pref[p] = x; } else c.eq(pm.erase(p), pref.erase(p), "pair_hash:erase"); std::pair<std::string, std::tuple<int>> q{ std::get<1>(k), std::make_tuple(x) }; ns.insert(q); nref.insert(q); }
    c.eq(std::map<std::pair<int, int>, int>(pm.begin(), pm.end()), pref, "pair_hash:contents"); c.ok(std::map<K, int>(m.begin(), m.end()) == ref, "tuple_hash:contents"); c.eq(ns.size(), nref.size(), "nested hash:size"); for (auto& q : nref) c.ok(ns.count(q) == 1, "nested hash:lookup");
    { uint64_t a = r.u64(), b = r.u64(), d = r.u64(); std::set<size_t> h[5]; for (uint64_t i = 0; i < 32; i++) { h[0].insert(std::hash<std::tuple<uint64_t, uint64_t, uint64_t>>()(std::make_tuple(a + i, b, d))); h[1].insert(std::hash<std::tuple<uint64_t, uint64_t, uint64_t>>()(std::make_tuple(a, b + i, d))); h[2].insert(std::hash<std::tuple<uint64_t, uint64_t, uint64_t>>()(std::make_tuple(a, b, d + i))); h[3].insert(std::hash<std::pair<uint64_t, uint64_t>>()(std::make_pair(a + i, b))); h[4].insert(std::hash<std::pair<uint64_t, uint64_t>>()(std::make_pair(a, b + i))); } for (auto& s : h) c.ok(s.size() >= 8, "hash:every component matters", std::to_string(s.size()) + " hashes for 32 keys"); }
    { std::set<size_t> h; for (int x = 0; x < 24; x++) for (int y = 0; y < 24; y++) h.insert(std::hash<std::pair<int, int>>()(std::make_pair(x, y))); c.ok(h.size() >= 200, "hash:order matters", std::to_string(h.size()) + " hashes for 576 pairs"); }
    c.event("hashed keys", 60 * 3); c.nontrivial(r.s);
}
