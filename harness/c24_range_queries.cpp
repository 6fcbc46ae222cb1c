// C24: range-query structures against a naive left-to-right fold.
#include "vm.h"
#include <string>
#include <functional>
#include "altruct/structure/container/segment_tree.h"
#include "altruct/structure/container/lazy_segment_tree.h"
#include "altruct/structure/math/fenwick_tree.h"
#include "altruct/structure/container/range_minimum_query.h"

using namespace altruct::container;
typedef uint32_t u32;

namespace {
size_t pick_size(vm::Ctx& c) { auto& r = c.rng; switch (r.below(6)) { case 0: return r.below(4); case 1: return (size_t(1) << r.below(8)) + r.below(3) - (r.coin() ? 1 : 0); case 2: return size_t(1) << r.below(8); default: return r.below(r.pick({9, 40, 130})); } }

// non-commutative monoid: composition of affine maps modulo 2^32
struct Aff { u32 a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } };
std::string str(const Aff& x) { return "(" + std::to_string(x.a) + "," + std::to_string(x.b) + ")"; }
struct Compose { Aff operator()(const Aff& x, const Aff& y) const { return Aff{ x.a * y.a, x.a * y.b + x.b }; } };
struct Concat { std::string operator()(const std::string& x, const std::string& y) const { return x + y; } };
struct MinOp { int operator()(int a, int b) const { return a < b ? a : b; } };

inline bool same(const Aff& a, const Aff& b) { return a == b; }
inline bool same(const std::string& a, const std::string& b) { return a == b; }
inline bool same(int a, int b) { return a == b; }

template<typename T, typename F, typename G> void seg(vm::Ctx& c, F f, T id, G gen) {
    auto& r = c.rng; size_t n = pick_size(c); int ops = (int)r.below(r.pick({10, 60, 200}));
    bool std_fn = r.coin();
    c.input("segment n=%zu ops=%d", n, ops);
    std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(gen());
    auto run = [&](auto tree) {
        c.ok(tree.size() >= n, "seg_size");
        auto check = [&](size_t a, size_t b) { T w = id; for (size_t i = a; i < b; i++) w = f(w, v[i]); c.ok(same(tree.get(a, b), w), "seg_fold", "[" + std::to_string(a) + "," + std::to_string(b) + ")"); };
        auto upd = [&](size_t i) { T w = gen(); tree.set(i, w); v[i] = w; };
        check(0, n);
        for (int q = 0; q < ops; q++) {
            size_t a = r.below(n + 1), b = r.below(n + 1); if (a > b) std::swap(a, b);
            switch (r.below(8)) {
            case 0: case 1: case 2: if (n) upd(r.below(n)); break;
            case 3: if (n) { size_t i = r.below(n); v[i] = gen(); tree[i] = v[i]; tree.rebuild(i); } break;
            case 4: for (size_t i = a; i < b; i++) { v[i] = gen(); tree[i] = v[i]; } tree.rebuild(a, b); break;
            case 5: for (size_t i = a; i < b; i += 1 + r.below(3)) { v[i] = gen(); tree[i] = v[i]; } tree.rebuild(); break;
            case 6: if (n) { size_t i = r.below(n); const auto& ct = tree; c.ok(same(ct.get(i), v[i]) && same(ct[i], v[i]), "seg_element"); } break;
            default: { auto copy = tree; if (n) { upd(r.below(n)); } tree = r.coin() ? copy : tree; if (n && same(tree.get(0, n), copy.get(0, n))) for (size_t i = 0; i < n; i++) v[i] = tree[i]; break; }
            }
            check(a, b); if (r.coin(1, 8)) check(0, n);
        }
        if (n <= 20) for (size_t a = 0; a <= n; a++) for (size_t b = a; b <= n; b++) check(a, b);
    };
    if (std_fn) {
        if (r.coin()) run(segment_tree<T>(v.begin(), v.end(), f, id));
        else { segment_tree<T> t(n, f, id); c.ok(same(t.get(0, n), id), "seg_initial_identity"); for (size_t i = 0; i < n; i++) t.set(i, v[i]); run(t); }
    } else run(segment_tree<T, F>(v.begin(), v.end(), f, id));
    if (n && ops) c.nontrivial_input();
}

// lazy: affine updates on values; aggregate = ordered hash, sum, min-free
struct Node { u32 cnt = 0, sum = 0, hash = 0, pw = 1, ones = 0, mul = 1, add = 0; static const u32 B = 1000003;
    Node() {} explicit Node(u32 v) : cnt(1), sum(v), hash(v), pw(B), ones(1) {}
    void affine(u32 m, u32 a) { sum = sum * m + a * cnt; hash = hash * m + a * ones; mul *= m; add = add * m + a; } };
struct Up { void operator()(Node& p, const Node& l, const Node& r) const { u32 cnt = l.cnt + r.cnt, sum = l.sum + r.sum, hash = l.hash * r.pw + r.hash, ones = l.ones * r.pw + r.ones, pw = l.pw * r.pw; p.cnt = cnt; p.sum = sum; p.hash = hash; p.ones = ones; p.pw = pw; } };
struct Down { void operator()(Node& p, Node& l, Node& r) const { l.affine(p.mul, p.add); r.affine(p.mul, p.add); p.mul = 1; p.add = 0; } };
template<typename T> void lazy_run(vm::Ctx& c, T& t, std::vector<u32>& v, int ops) {
    auto& r = c.rng; size_t n = v.size(); typedef unsigned long long ull;
    auto check = [&](size_t a, size_t b) { u32 s = 0, h = 0; for (size_t i = a; i < b; i++) { s += v[i]; h = h * Node::B + v[i]; } Node g = t.get(a, b); c.eq(g.cnt, u32(b - a), "lazy_count"); c.eq(g.sum, s, "lazy_sum"); c.eq(g.hash, h, "lazy_order"); };
    check(0, n);
    for (int q = 0; q < ops; q++) {
        size_t a = r.below(n + 1), b = r.below(n + 1); if (a > b) std::swap(a, b);
        switch (r.below(9)) {
        case 0: case 1: case 2: { u32 m = r.u32(), ad = r.u32(); t.update(a, b, [&](Node& x) { x.affine(m, ad); return true; }); for (size_t i = a; i < b; i++) v[i] = v[i] * m + ad; break; }
        case 3: { u32 s = r.u32(); t.update(a, b, [&](Node& x) { x.affine(0, s); return true; }); for (size_t i = a; i < b; i++) v[i] = s; break; }
        case 4: { // not applicable to whole segments: v ^= m on leaves only
            u32 m = r.u32(); t.update(a, b, [&](Node& x) { if (x.cnt != 1) return x.cnt == 0; x.affine(0, x.sum ^ m); return true; }); for (size_t i = a; i < b; i++) v[i] ^= m; break; }
        case 5: { t.restore(a, b); for (size_t i = a; i < b; i++) c.eq(t[i].sum, v[i], "lazy_restored"); break; }
        case 6: { t.restore(a, b); for (size_t i = a; i < b; i++) { v[i] = r.u32(); t[i] = Node(v[i]); } t.rebuild(a, b); break; }
        case 7: { if (n) { size_t i = r.below(n); u32 m = r.u32(); t.update(i, i + 1, [&](Node& x) { x.affine(m, 1); return true; }); v[i] = v[i] * m + 1; } break; }
        default: { T d = t; if (n) d.update(0, n, [&](Node& x) { x.affine(3, 5); return true; }); break; }
        }
        check(a, b); size_t x = r.below(n + 1), y = r.below(n + 1); if (x > y) std::swap(x, y); check(x, y); (void)sizeof(ull);
    }
    if (n <= 16) for (size_t a = 0; a <= n; a++) for (size_t b = a; b <= n; b++) check(a, b);
    check(0, n);
}
} // namespace

UNIT(segment_affine, 6000, 60000, "one history on a segment tree of affine maps (non-commutative)") { seg<Aff>(c, Compose(), Aff(), [&] { return Aff{ c.rng.u32() | 1, c.rng.u32() }; }); }
UNIT(segment_strings, 3000, 30000, "one history on a segment tree of strings under concatenation") { seg<std::string>(c, Concat(), std::string(), [&] { std::string s; int l = (int)c.rng.below(4); while (l--) s += char('a' + c.rng.below(26)); return s; }); }
UNIT(segment_min, 3000, 30000, "one history on a segment tree of minima") { seg<int>(c, MinOp(), 2147483647, [&] { return int(c.rng.edgy(-2147483647 - 1, 2147483647)); }); }
UNIT(lazy_history, 8000, 90000, "one history of range updates and queries on a lazy segment tree") {
    auto& r = c.rng; size_t n = pick_size(c); int ops = (int)r.below(r.pick({10, 60, 200}));
    c.input("lazy n=%zu ops=%d", n, ops);
    std::vector<u32> v; std::vector<Node> nodes; for (size_t i = 0; i < n; i++) { v.push_back(r.u32()); nodes.push_back(Node(v.back())); }
    if (r.coin()) { lazy_segment_tree<Node> t(nodes.begin(), nodes.end(), Up(), Down()); lazy_run(c, t, v, ops); }
    else { lazy_segment_tree<Node, Up, Down> t(n, Up(), Down()); c.ok(t.size() >= n, "lazy_size"); for (size_t i = 0; i < n; i++) t[i] = nodes[i]; t.rebuild(); lazy_run(c, t, v, ops); }
    if (n && ops) c.nontrivial_input();
}
UNIT(lazy_min_identity, 4000, 40000, "one history of range additions and assignments with range minima on a lazy segment tree whose neutral element is +infinity, not the default value, and the number of combinations per operation") {
    auto& r = c.rng; size_t n = pick_size(c); int ops = (int)r.below(60); typedef long long L; const L INF = 1ll << 60; struct M { L lo, add; }; static uint64_t calls; c.input("lazy min n=%zu ops=%d", n, ops);
    auto up = [](M& p, const M& l, const M& q) { calls++; p.lo = std::min(l.lo, q.lo); }; auto down = [](M& p, M& l, M& q) { calls++; for (M* x : {&l, &q}) x->lo += p.add, x->add += p.add; p.add = 0; };
    std::vector<L> v; std::vector<M> nodes; for (size_t i = 0; i < n; i++) v.push_back(r.range(1, 1000)), nodes.push_back(M{v.back(), 0});
    lazy_segment_tree<M> t(nodes.begin(), nodes.end(), up, down, M{INF, 0}); if (r.coin()) { lazy_segment_tree<M> q(n, up, down, M{INF, 0}); for (size_t i = 0; i < n; i++) q[i] = nodes[i]; q.rebuild(); if (r.coin()) t = q; else t = lazy_segment_tree<M>(q); }
    size_t lg = 1; while ((size_t(1) << lg) < n + 1) lg++;
    auto ask = [&](size_t a, size_t b) { calls = 0; M g = t.get(a, b); c.ok(calls <= 16 * lg + 16, "cost", vm::S(calls) + " combinations"); L w = INF; for (size_t i = a; i < b; i++) w = std::min(w, v[i]); if (a < b) c.eq(g.lo, w, "lazy_min"); else c.ok(g.lo > INF / 2, "lazy_min_empty"); };
    for (int q = 0; q < ops; q++) { size_t a = r.below(n + 1), b = r.below(n + 1); if (a > b) std::swap(a, b); L d = r.range(-5, 500); calls = 0; t.update(a, b, [&](M& x) { x.lo += d; x.add += d; return true; }); c.ok(calls <= 16 * lg + 16, "cost", vm::S(calls) + " combinations"); for (size_t i = a; i < b; i++) v[i] += d; ask(a, b); a = r.below(n + 1), b = r.below(n + 1); if (a > b) std::swap(a, b); ask(a, b); }
    t.restore(0, n); for (size_t i = 0; i < n; i++) c.eq(t[i].lo, v[i], "lazy_restored"); ask(0, n); ask(n, n); ask(0, 0);
    if (n && ops) c.nontrivial_input();
}
UNIT(fenwick, 6000, 60000, "one history on a Fenwick tree (sum, xor, running maximum)") {
    auto& r = c.rng; size_t n = 1 + pick_size(c); int ops = (int)r.below(100), kind = (int)r.below(3);
    c.input("fenwick n=%zu ops=%d kind=%d", n, ops, kind);
    auto f = [kind](int64_t a, int64_t b) { return kind == 0 ? int64_t(uint64_t(a) + uint64_t(b)) : kind == 1 ? (a ^ b) : std::max(a, b); };
    int64_t id = kind == 2 ? INT64_MIN : 0;
    altruct::math::fenwick_tree<int64_t> t(n, f, id); std::vector<int64_t> v(n, id);
    for (int q = 0; q < ops; q++) {
        if (r.coin(1, 40)) { if (kind < 2 && r.coin()) t.reset(); else t.reset(id); v.assign(n, id); }
        size_t i = r.below(n); int64_t x = kind == 2 ? int64_t(r.u64()) : r.edgy(-1000000000000, 1000000000000);
        if (r.coin(2, 3)) { t.add(i, x); v[i] = f(v[i], x); }
        size_t k = r.below(n); int64_t w = id; for (size_t j = 0; j <= k; j++) w = f(w, v[j]);
        c.eq(kind < 2 && r.coin() ? t.get_sum(k) : t.get_sum(k, id), w, "fenwick_prefix");
    }
    int64_t w = id; for (size_t j = 0; j < n; j++) { w = f(w, v[j]); c.eq(t.get_sum(j, id), w, "fenwick_prefix"); }
    c.eq(t.get_sum(size_t(0) - 1, id), id, "fenwick_empty_prefix");
    if (ops) c.nontrivial_input();
}
template<typename R, typename T, typename C> static void rmq_check(vm::Ctx& c, const R& q, const std::vector<T>& v, C comp, bool all) {
    size_t n = v.size(); if (!n) return;
    auto one = [&](size_t a, size_t b) { size_t m = a; for (size_t i = a; i < b; i++) if (comp(v[i], v[m])) m = i;
        int g = q.get_index((int)a, (int)b); c.ok(size_t(g) >= a && size_t(g) < b, "rmq_index_in_range"); c.ok(!comp(v[m], v[g]) && !comp(v[g], v[m]), "rmq_minimal", "[" + std::to_string(a) + "," + std::to_string(b) + ")");
        c.ok(!comp(v[m], q.get_value((int)a, (int)b)), "rmq_value"); };
    if (all) { for (size_t a = 0; a < n; a++) for (size_t b = a + 1; b <= n; b++) one(a, b); }
    else for (int i = 0; i < 300; i++) { size_t a = c.rng.below(n), b = c.rng.below(n); if (a > b) std::swap(a, b); one(a, b + 1); }
}
template<int B> static void rmq_case(vm::Ctx& c) {
    auto& r = c.rng; size_t n = r.below(r.pick({5, 20, 70, 200, c.thorough ? 3000 : 600})); int kind = (int)r.below(5);
    c.input("rmq block=%d n=%zu kind=%d", B, n, kind);
    std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(kind == 0 ? (int)r.range(-1, 1) : kind == 1 ? (int)i : kind == 2 ? -(int)i : kind == 3 ? (int)r.edgy(-2147483647 - 1, 2147483647) : 5 + (int)r.below(3));
    bool all = n <= 70;
    if (r.coin()) { direct_rmq<int, std::less<int>, int, B> q; q.build(v.begin(), v.end()); rmq_check(c, q, v, std::less<int>(), all);
        std::vector<int> w(v.rbegin(), v.rend()); w.resize(n / 2 + r.below(20), 3); q.build(w.begin(), w.end()); rmq_check(c, q, w, std::less<int>(), all); c.event("rebuilt"); }
    else { typedef direct_rmq<int, std::greater<int>, int, B> Q; Q* q = new Q; q->build(v.begin(), v.end()); Q d(*q); Q e; e = d; rmq_check(c, *q, v, std::greater<int>(), false); std::vector<int> w(17, 1); q->build(w.begin(), w.end()); delete q; c.event("copied"); rmq_check(c, d, v, std::greater<int>(), all); { Q m(std::move(d)); rmq_check(c, m, v, std::greater<int>(), false); } rmq_check(c, e, v, std::greater<int>(), false); }
    if (n > 1) c.nontrivial_input();
}
UNIT(rmq_long, 6, 40, "one array of hundreds of thousands of elements in small blocks: range minima over random long ranges against a sparse table") {
    auto& r = c.rng; size_t n = (size_t)r.range(150000, c.thorough ? 1200000 : 320000); int kind = (int)r.below(3); c.input("rmq_long n=%zu kind=%d", n, kind); std::vector<int> v(n); int w = 0; for (size_t i = 0; i < n; i++) v[i] = kind == 0 ? (int)r.u64() : kind == 1 ? (w += (int)r.below(3) - 1) : (int)i;
    std::vector<std::vector<int>> t{ v }; for (size_t l = 1; 2 * l <= n; l *= 2) { auto& p = t.back(); std::vector<int> q(n - 2 * l + 1); for (size_t i = 0; i < q.size(); i++) q[i] = std::min(p[i], p[i + l]); t.push_back(q); }
    auto run = [&](const auto& q) { for (int k = 0; k < 20000; k++) { size_t a = r.below(n), b = r.below(n); if (r.coin(1, 4)) a = r.below(9); if (r.coin(1, 4)) b = n - 1 - r.below(9); if (r.coin(1, 5)) b = std::min(n - 1, a + (size_t(1) << r.below(19)) + r.below(5)); if (a > b) std::swap(a, b); b++; int j = 63 - __builtin_clzll(b - a); int m = std::min(t[j][a], t[j][b - (size_t(1) << j)]); size_t g = (size_t)q.get_index((int)a, (int)b); c.ok(g >= a && g < b, "rmq_index_in_range"); c.eq(v[g], m, "rmq_minimal"); c.eq(q.get_value((int)a, (int)b), m, "rmq_value"); } };
    if (c.index % 2) { direct_rmq<int, std::less<int>, int, 1> q; q.build(v.begin(), v.end()); run(q); } else { direct_rmq<int, std::less<int>, int, 2> q; q.build(v.begin(), v.end()); run(q); } c.nontrivial(vm::mix64(n * 3 + kind));
}
UNIT(rmq, 2000, 20000, "one array with range-minimum queries over all or random ranges, for several block sizes, after rebuilding and copying") {
    switch (c.rng.below(4)) { case 0: rmq_case<8>(c); break; case 1: rmq_case<4>(c); break; case 2: rmq_case<1>(c); break; default: rmq_case<5>(c); break; }
}
