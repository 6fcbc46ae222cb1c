// C25: heaps, disjoint sets, keyed maps, graph container and pool allocator under random histories.
#include "vm.h"
#include <functional>
#include <stdexcept>
#include <new>
#include <limits>
#include "altruct/structure/container/link_cut_tree.h"
#include "altruct/structure/container/binary_heap.h"
#include "altruct/structure/container/sqrt_map.h"
#include "altruct/structure/container/lohi_map.h"
#include "altruct/structure/container/bounded_contiguous_allocator.h"
#include "altruct/structure/container/binary_search_tree.h"
#include "altruct/structure/container/treap.h"
#include "altruct/structure/graph/disjoint_set.h"
#include "altruct/structure/graph/graph.h"

using namespace altruct::container;
using namespace altruct::graph;
using vm::Tracked;

namespace {
struct ModLess { int m; explicit ModLess(int m = 5) : m(m) {} bool operator()(int a, int b) const { return ((a % m) + m) % m < ((b % m) + m) % m; } };

template<typename CMP> void heap_history(vm::Ctx& c, CMP cmp) {
    auto& r = c.rng; int ops = (int)r.below(r.pick({10, 60, 300})), range = r.pick({2, 10, 1000});
    c.input("heap ops=%d range=%d", ops, range);
    std::vector<int> v; int n0 = (int)r.below(r.pick({4, 40})); for (int i = 0; i < n0; i++) v.push_back((int)r.range(-range, range));
    typedef binary_heap<int, CMP> H;
    H h = r.coin() ? H(v, cmp) : H(v.begin(), v.end(), cmp);
    std::multiset<int> m(v.begin(), v.end());
    auto front_ok = [&] { if (m.empty()) return; for (int x : m) c.ok(!cmp(x, h.front()), "heap_front_extremal"); c.ok(m.count(h.front()) > 0, "heap_front_member"); };
    auto members = [&] { std::multiset<int> g(h.v.begin(), h.v.end()); c.ok(g == m, "heap_members"); c.eq(h.size(), m.size(), "heap_size"); };
    front_ok(); members();
    for (int q = 0; q < ops; q++) {
        switch (r.below(8)) {
        case 0: case 1: case 2: case 3: { int x = (int)r.range(-range, range); h.insert(x); m.insert(x); break; }
        case 4: case 5: if (!m.empty()) { int x = h.front(); h.pop_front(); c.ok(m.count(x) > 0, "heap_pop_member"); m.erase(m.find(x)); } break;
        case 6: { H d = h; d.sort(); for (size_t i = 1; i < d.v.size(); i++) c.ok(!cmp(d.v[i], d.v[i - 1]), "heap_sorted"); std::multiset<int> g(d.v.begin(), d.v.end()); c.ok(g == m, "heap_sort_members"); if (r.coin(1, 4)) { d.rebuild(); h = d; } break; }
        default: { // modify in place, then rebuild
            for (int& x : h.v) if (r.coin(1, 3)) x = (int)r.range(-range, range); m = std::multiset<int>(h.v.begin(), h.v.end()); h.rebuild(); break; }
        }
        front_ok();
    }
    members();
    int last = 0; bool any = false;
    while (h.size()) { int x = h.front(); if (any) c.ok(!cmp(x, last), "heap_drain_order"); last = x; any = true; m.erase(m.find(x)); h.pop_front(); }
    c.ok(m.empty(), "heap_drained");
    if (ops > 2) c.nontrivial_input();
}
} // namespace

UNIT(heap, 5000, 60000, "one history on a binary heap (less, greater, or equivalence by residue)") {
    switch (c.rng.below(3)) { case 0: heap_history(c, std::less<int>()); break; case 1: heap_history(c, std::greater<int>()); break; default: heap_history(c, ModLess((int)c.rng.range(1, 9))); break; }
}
UNIT(heap_defaults, 200, 1000, "default comparator of the given type, default-constructed and sized heaps, non-trivial elements") {
    binary_heap<int, std::greater<int>> h; int n = (int)c.rng.below(30); std::vector<int> v; for (int i = 0; i < n; i++) { int x = (int)c.rng.range(-9, 9); v.push_back(x); h.insert(x); }
    c.input("%s", vm::str(v).c_str());
    std::sort(v.rbegin(), v.rend()); for (int x : v) { c.eq(h.front(), x, "heap_greater_order"); h.pop_front(); }
    int64_t live = Tracked::live, bad = Tracked::bad;
    { binary_heap<int, ModLess> t(size_t(2), ModLess(7)); for (int x : v) t.insert(x); ModLess ml(7); std::vector<int> w(v); w.insert(w.end(), 2, 0); std::sort(w.begin(), w.end(), ml); for (int x : w) { c.ok(!ml(x, t.front()) && !ml(t.front(), x), "heap_sized_order"); t.pop_front(); } }
    { binary_heap<Tracked> t(size_t(3)); c.eq(t.size(), size_t(3), "heap_sized"); for (int x : v) t.insert(Tracked(x)); std::vector<int> w(v); w.insert(w.end(), 3, 0); std::sort(w.begin(), w.end()); for (int x : w) { c.eq(t.front().v, x, "heap_tracked"); t.pop_front(); } }
    c.eq(Tracked::live, live, "heap_live"); c.eq(Tracked::bad, bad, "heap_bad");
    if (n > 1) c.nontrivial_input();
}

UNIT(disjoint_set, 6000, 80000, "one history of unions and queries, mirrored on explicit labels") {
    auto& r = c.rng; size_t n = r.below(r.pick({3, 12, 60})); int ops = (int)r.below(r.pick({10, 60, 250})); int shape = (int)r.below(3);
    c.input("dset n=%zu ops=%d shape=%d", n, ops, shape);
    disjoint_set d(n); std::vector<int> lab(n), cnt(n, 1); for (size_t i = 0; i < n; i++) lab[i] = (int)i;
    auto grow = [&](size_t x) { while (lab.size() <= x) { lab.push_back((int)lab.size()); cnt.push_back(1); } };
    auto classes = [&] { return std::set<int>(lab.begin(), lab.end()).size(); };
    for (int q = 0; q < ops; q++) {
        size_t lim = lab.size() + (r.coin(1, 10) ? 5 : 0); if (!lim) lim = 1;
        size_t x = r.below(lim), y = shape == 1 && x > 0 ? x - 1 : r.below(lim);
        switch (r.below(7)) {
        case 0: case 1: case 2: { bool w; grow(x); grow(y); int a = lab[x], b = lab[y]; w = a != b; if (w) { for (int& l : lab) if (l == b) l = a; cnt[a] += cnt[b]; } c.eq(d.unite(x, y), w, "dset_unite"); break; }
        case 3: { grow(x); grow(y); c.eq(d.find(x) == d.find(y), lab[x] == lab[y], "dset_same"); c.eq(lab[d.find(x)], lab[x], "dset_representative_in_class"); c.eq(d.find(d.find(x)), d.find(x), "dset_idempotent"); break; }
        case 4: { grow(x); c.eq(d.count(x), size_t(cnt[lab[x]]), "dset_count"); break; }
        case 5: { grow(x); size_t k = r.below(5); d.add_count(x, k); cnt[lab[x]] += (int)k; break; }
        default: if (r.coin(1, 12)) { size_t m = r.below(20); d.clear(m); lab.resize(m); cnt.assign(m, 1); for (size_t i = 0; i < m; i++) lab[i] = (int)i; } else { disjoint_set e = d; e.unite(x, y); } break;
        }
        c.eq(d.size(), lab.size(), "dset_size"); c.eq(d.distinct(), classes(), "dset_distinct");
    }
    for (size_t i = 0; i < lab.size(); i++) { c.eq(d.count(i), size_t(cnt[lab[i]]), "dset_count"); size_t j = r.below(lab.size()); c.eq(d.find(i) == d.find(j), lab[i] == lab[j], "dset_same"); }
    c.eq(d.distinct(), classes(), "dset_distinct");
    if (n && ops) c.nontrivial_input();
}

template<typename M, typename GetKey> static void map_history(vm::Ctx& c, M& m, GetKey key, int ops, int64_t& maxv, bool sqrt_like) {
    std::map<int64_t, int64_t> ref; auto& r = c.rng;
    for (int q = 0; q < ops; q++) {
        int64_t k = key(); int64_t v = r.range(1, 1000000); bool has = ref.count(k) > 0; const M& cm = m;
        switch (r.below(8)) {
        case 0: case 1: { auto p = m.insert({ k, v }); c.eq(p.second, !has, "map_insert"); c.eq(int64_t(p.first), k, "map_insert_key"); if (!has) ref[k] = v; break; }
        case 2: { m[k] = v; ref[k] = v; break; }
        case 3: { c.eq(int64_t(m[k]), ref[k], "map_subscript_default"); break; }
        case 4: { c.eq(m.erase(k), has ? 1 : 0, "map_erase"); ref.erase(k); break; }
        case 5: if (has) { c.eq(int64_t(cm.at(k)), ref[k], "map_at"); m.at(k) += 1; ref[k] += 1; } else { c.throws<std::out_of_range>([&] { (void)cm.at(k); }, "map_at_missing"); c.throws<std::out_of_range>([&] { (void)m.at(k); }, "map_at_missing"); } break;
        case 6: { M d = m; d[k] = v + 1; if (has) c.eq(int64_t(m.at(k)), ref[k], "map_copy_independent"); break; }
        default: break;
        }
        c.eq(m.count(k), int(ref.count(k)), "map_count");
        int64_t k2 = key(); c.eq(m.count(k2), int(ref.count(k2)), "map_count");
    }
    for (auto& e : ref) c.eq(int64_t(m.at(e.first)), e.second, "map_final");
    (void)maxv; (void)sqrt_like;
}
UNIT(lohi_map, 4000, 40000, "one history on a low/high map") {
    int64_t lo = c.rng.below(40); int ops = (int)c.rng.below(150); int64_t mv = 0; c.input("lohi lo=%d ops=%d", (int)lo, ops);
    lohi_map<int64_t, int64_t> m(lo); map_history(c, m, [&] { return c.rng.coin() ? (int64_t)c.rng.below(lo + 1) : c.rng.coin() ? lo + (int64_t)c.rng.below(3) : c.rng.edgy(0, INT64_MAX); }, ops, mv, false);
    if (ops > 3) c.nontrivial_input();
}
UNIT(sqrt_map, 4000, 40000, "one history on a quotient-keyed map, with unchecked access, swaps and a changed maximum") {
    auto& r = c.rng; int64_t n = r.coin() ? r.range(1, 60) : r.range(1, 5000), q = 0; while ((q + 1) * (q + 1) <= n) q++;
    int64_t lo = q + (r.coin() ? 0 : (int64_t)r.below(q + 3)); int ops = (int)r.below(150); int64_t mv = n;
    c.input("sqrt_map n=%d lo=%d ops=%d", (int)n, (int)lo, ops);
    auto key = [&]() -> int64_t { return r.coin() ? n / (1 + (int64_t)r.below(std::min(n, lo + 1))) : (int64_t)r.below(std::min(n, lo) + 1); };
    if (r.coin()) { sqrt_map<int64_t, int64_t> m(lo, n); map_history(c, m, key, ops, mv, true);
        sqrt_map<int64_t, int64_t> e(lo, n), f(lo + 3, n + 5); e[n] = 7; e[1] = 8; f[1] = 9; e.swap(f); c.eq(f.at(n), int64_t(n == 1 ? 8 : 7), "sqrt_swap"); c.eq(f.at(1), int64_t(8), "sqrt_swap"); c.eq(e.at(1), int64_t(9), "sqrt_swap");
        if (n > lo) c.eq(e.count(n + 5), 0, "sqrt_swap_count");
    } else { sqrt_map<int64_t, int64_t> m(lo);
        m.reset_max(n); for (int64_t k = 1; k <= n; k++) m[n / k] = n / k; for (int64_t k = 1; k <= std::min(n, lo); k++) m[k] = k;
        for (int64_t k = 1; k <= n; k++) { c.eq(m.at(n / k), n / k, "sqrt_at"); c.eq(m.el(n / k), n / k, "sqrt_el"); c.eq(m(n / k), n / k, "sqrt_call"); const auto& cm = m; c.eq(cm[n / k], n / k, "sqrt_const_subscript"); if (n / k <= lo) c.eq(m.lo(n / k), n / k, "sqrt_lo"); else c.eq(m.hi(n / (n / k)), n / k, "sqrt_hi"); }
        // a new maximum: low keys survive, high keys are gone
        int64_t n2 = r.range(1, (lo + 1) * (lo + 1) - 1); m.reset_max(n2);
        for (int64_t k = 1; k <= n2; k++) if (n2 / k > lo) { c.eq(m.count(n2 / k), 0, "sqrt_reset_count"); }
        for (int64_t k = 1; k <= n2; k++) if (n2 / k > lo) { auto& x = m[n2 / k]; if (x == 0) x = n2 / k; c.eq(x, n2 / k, "sqrt_reset_default"); }
        for (int64_t k = 1; k <= std::min(lo, n); k++) c.eq(m.at(k), k, "sqrt_reset_low");
    }
    c.nontrivial_input();
}

namespace {
typedef std::vector<std::vector<std::pair<int, int>>> Adj; // (v, w), w tells edges apart
Adj view(const graph<weighted_edge<int>>& g) { Adj a(g.size()); for (int u = 0; u < g.size(); u++) { for (auto& e : g[u]) a[u].push_back({ e.v, e.w }); std::sort(a[u].begin(), a[u].end()); } return a; }
Adj sorted(Adj a) { for (auto& l : a) std::sort(l.begin(), l.end()); return a; }
}
UNIT(graph_container, 6000, 60000, "one history on the adjacency-list graph, mirrored on a list of labelled edges") {
    auto& r = c.rng; int n = (int)r.below(8), ops = (int)r.below(40), w = 0;
    c.input("graph n=%d ops=%d", n, ops);
    graph<weighted_edge<int>> g(n); Adj a(n);
    bool exact = true; // labels known exactly
    for (int q = 0; q < ops; q++) {
        n = (int)a.size(); int u = n ? (int)r.below(n) : 0, v = n ? (int)r.below(n) : 0; if (r.coin(1, 5)) v = n - 1; if (r.coin(1, 8)) u = n - 1;
        switch (r.below(10)) {
        case 0: c.eq(g.add_node(), n, "graph_add_node"); a.push_back({}); break;
        case 1: case 2: case 3: if (n) { ++w; g.add_edge(u, { v, w }); a[u].push_back({ v, w }); } break;
        case 4: case 5: if (n) { ++w; g.add_edge2(u, { v, w }); a[u].push_back({ v, w }); a[v].push_back({ u, w }); } break;
        case 6: if (n) { g.delete_edge(u, v); a[u].erase(std::remove_if(a[u].begin(), a[u].end(), [&](const std::pair<int, int>& e) { return e.first == v; }), a[u].end()); } break;
        case 7: if (n > 1 || (n && r.coin())) { g.delete_node(u); int last = n - 1; // the last node takes the place
            a[u] = a[last]; a.pop_back(); for (auto& l : a) { l.erase(std::remove_if(l.begin(), l.end(), [&](const std::pair<int, int>& e) { return e.first == u; }), l.end()); for (auto& e : l) if (e.first == last) e.first = u; } } break;
        case 8: if (n > 1 && u != v) { g.contract(u, v); // u absorbs v, no parallel edges remain
            for (int x : { u, v }) a[x].erase(std::remove_if(a[x].begin(), a[x].end(), [&](const std::pair<int, int>& e) { return e.first == (x == u ? v : u); }), a[x].end());
            a[u].insert(a[u].end(), a[v].begin(), a[v].end()); a[v].clear(); for (auto& l : a) for (auto& e : l) if (e.first == v) e.first = u;
            int last = n - 1; a[v] = a[last]; a.pop_back(); for (auto& l : a) for (auto& e : l) if (e.first == last) e.first = v;
            Adj gv = view(g); c.eq(gv.size(), a.size(), "graph_contract_size");
            for (size_t x = 0; x < a.size(); x++) { std::set<int> want, got; for (auto& e : a[x]) want.insert(e.first); for (auto& e : gv[x]) { c.ok(got.insert(e.first).second, "graph_contract_simple"); c.ok(std::count(a[x].begin(), a[x].end(), e) > 0, "graph_contract_label"); } c.ok(want == got, "graph_contract_edges"); }
            a = gv; } break;
        default: if (n) { Adj before = a; g.deduplicate_edges(u); Adj gv = view(g); std::set<int> want, got; for (auto& e : a[u]) want.insert(e.first); for (auto& e : gv[u]) { c.ok(got.insert(e.first).second, "graph_dedup"); c.ok(std::count(before[u].begin(), before[u].end(), e) > 0, "graph_dedup_label"); } c.ok(want == got, "graph_dedup_edges"); a[u] = gv[u]; } break;
        }
        c.ok(view(g) == sorted(a), "graph_edges"); c.eq(g.size(), (int)a.size(), "graph_size"); int e = 0; for (auto& l : a) e += (int)l.size(); c.eq(g.num_edges(), e, "graph_num_edges");
    }
    graph<weighted_edge<int>> h = g; c.ok(h == g && !(h < g), "graph_equal"); if (h.size()) { h.add_edge(0, { 0, 1 }); c.ok(!(h == g) && (g < h), "graph_less"); }
    full_edge x((int)r.below(3), (int)r.below(3)), y((int)r.below(3), (int)r.below(3));
    c.eq(x < y, std::make_pair(x.u, x.v) < std::make_pair(y.u, y.v), "full_edge_less"); c.eq(x == y, x.u == y.u && x.v == y.v, "full_edge_eq"); if (x == y) c.eq(std::hash<full_edge>()(x), std::hash<full_edge>()(y), "full_edge_hash");
    (void)exact; if (ops > 2) c.nontrivial_input();
}

UNIT(pool_allocator, 5000, 50000, "one history of allocations from bounded pools with copies, moves, swaps and exhaustion") {
    auto& r = c.rng; size_t cap = r.below(9); int ops = (int)r.below(60); c.input("pool cap=%zu ops=%d", cap, ops);
    c.event("pool_exhausted", 0); c.throws<std::bad_alloc>([] { throw std::bad_alloc(); }, "warm_up"); size_t bytes0 = vm::allocated_bytes();
    {
        typedef bounded_contiguous_allocator<double> A; A a(cap), b(cap + 1); std::set<double*> la, lb;
        for (int q = 0; q < ops; q++) {
            switch (r.below(9)) {
            case 0: case 1: case 2: case 3:
                if (la.size() < a.capacity()) { double* p = a.allocate(1); c.ok(la.insert(p).second && !lb.count(p), "pool_slot_reused"); a.construct(p, double(q)); }
                else { c.throws<std::bad_alloc>([&] { (void)a.allocate(1); }, "pool_exhausted"); c.event("pool_exhausted"); }
                c.throws<std::bad_alloc>([&] { (void)a.allocate(2); }, "pool_only_one"); break;
            case 4: case 5: if (!la.empty()) { auto it = la.begin(); std::advance(it, r.below(la.size())); double* p = *it; la.erase(it); a.destroy(p); a.deallocate(p, 1); } break;
            case 6: { A d(a); std::set<double*> ld; for (size_t i = 0; i < d.capacity(); i++) { double* p = d.allocate(1); c.ok(ld.insert(p).second && !la.count(p) && !lb.count(p), "pool_copy_shares_slots"); } c.eq(d.capacity(), a.capacity(), "pool_copy_capacity"); if (r.coin()) { A e(3); e.allocate(1); e = d; for (size_t i = 0; i < e.capacity(); i++) c.ok(!ld.count(e.allocate(1)), "pool_assign_shares_slots"); c.throws<std::bad_alloc>([&] { (void)e.allocate(1); }, "pool_assign_full"); } break; }
            case 7: if (r.coin()) { typedef bounded_contiguous_allocator<int64_t> B; size_t k1 = r.below(7), k2 = r.below(7); B b1(k1); A d(b1), e(k2); if (k2 && r.coin()) e.allocate(1); e = b1; for (A* x : { &d, &e }) { c.eq(x->capacity(), k1, "pool_converted_capacity"); std::set<double*> s; for (size_t i = 0; i < k1; i++) { double* p = x->allocate(1); *p = 2.5; c.ok(s.insert(p).second, "pool_converted_slot"); } c.throws<std::bad_alloc>([&] { (void)x->allocate(1); }, "pool_converted_full"); } break; } else { A& self = a; size_t k = a.capacity(); a = self; c.eq(a.capacity(), k, "pool_self_assign"); break; } // live slots stay live
            default: std::swap(a, b); la.swap(lb); break;
            }
            for (double* p : la) *p = 1.5; 
        }
        size_t cap2 = a.capacity(); A m(std::move(a)); c.eq(m.capacity(), cap2, "pool_move_capacity");
        while (la.size() < cap2) c.ok(la.insert(m.allocate(1)).second, "pool_moved_slot_reused");
        m.clear(); std::set<double*> again; for (size_t i = 0; i < cap2; i++) c.ok(again.insert(m.allocate(1)).second, "pool_cleared_slot");
    }
    c.eq(vm::allocated_bytes(), bytes0, "pool_bytes");
    if (ops > 3 && cap) c.nontrivial_input();
}
template<typename Tree> static void pool_tree(vm::Ctx& c, Tree t, size_t cap) {
    auto& r = c.rng; std::set<int> s; int ops = (int)r.below(80);
    for (int q = 0; q < ops; q++) {
        int k = (int)r.range(-12, 12);
        switch (r.below(8)) {
        case 0: case 1: case 2: case 3: if (s.count(k) || s.size() < cap) { t.insert(k); s.insert(k); } else { c.throws<std::bad_alloc>([&] { t.insert(k); }, "pool_tree_full"); c.event("pool_tree_full"); } break;
        case 4: case 5: t.erase(k); s.erase(k); break;
        case 6: { Tree d(t); d.erase(k); c.eq(d.size(), int(s.size() - s.count(k)), "pool_tree_copy"); if (r.coin()) { d.clear(); c.eq(d.size(), 0, "pool_tree_clear"); t.swap(d); t = d; } break; }
        default: { Tree d(std::move(t)); t = std::move(d); break; }
        }
        c.eq(t.size(), (int)s.size(), "pool_tree_size"); c.ok(std::equal(s.begin(), s.end(), t.begin()), "pool_tree_contents");
    }
}
// an allocator that knows which arena every node came from: a node goes back to its own arena, also through copies, moves, swaps and assignments
static std::map<void*, int> arena_of; static int64_t arena_bad, arena_live;
template<typename T> struct ArenaAlloc { typedef T value_type; int id; ArenaAlloc(int id = 0) : id(id) {} template<typename U> ArenaAlloc(const ArenaAlloc<U>& o) : id(o.id) {}
    T* allocate(size_t n) { T* p = (T*)::operator new(n * sizeof(T)); arena_of[p] = id; arena_live++; return p; } void deallocate(T* p, size_t) { auto it = arena_of.find(p); if (it == arena_of.end() || it->second != id) arena_bad++; else arena_of.erase(it), arena_live--; ::operator delete(p); }
    template<typename U, typename... A> void construct(U* p, A&&... a) { new ((void*)p) U(std::forward<A>(a)...); } template<typename U> void destroy(U* p) { p->~U(); } };
template<typename Tree, typename MK> static void arena_tree(vm::Ctx& c, MK mk) {
    auto& r = c.rng; arena_bad = 0; arena_live = 0; arena_of.clear(); { int next = 1; std::vector<Tree> ts; std::vector<std::set<int>> ref; std::vector<Tree> dummy; ts.reserve(8); for (int i = 0; i < 3; i++) { ts.push_back(mk(next++)); ref.emplace_back(); }
      int ops = (int)r.below(120); std::string h; for (int q = 0; q < ops; q++) { int i = (int)r.below(3), j = (int)r.below(3), k = (int)r.range(-9, 9), op = (int)r.below(12); h += char('a' + op); switch (op) { case 0: case 1: case 2: case 3: ts[i].insert(k); ref[i].insert(k); break; case 4: ts[i].erase(k); ref[i].erase(k); break; case 5: ts[i].swap(ts[j]); std::swap(ref[i], ref[j]); break; case 6: ts[i] = ts[j]; ref[i] = ref[j]; break; case 7: { Tree d(ts[j]); ts[i] = std::move(d); ref[i] = ref[j]; break; } case 8: { if (i != j) { std::swap(ts[i], ts[j]); std::swap(ref[i], ref[j]); } break; } case 9: { Tree d(std::move(ts[i])); d.insert(k); ref[i].insert(k); ts[i] = std::move(d); break; } case 10: if (r.coin(1, 3)) { ts[i].clear(); ref[i].clear(); } break; default: { Tree d = mk(next++); d.insert(k); ts[i].swap(d); ref[i] = { k }; break; } }
        c.ok(arena_bad == 0, "arena_owner", "a node was returned to another arena after " + h); c.eq(ts[i].size(), (int)ref[i].size(), "arena_size"); c.ok(std::equal(ref[i].begin(), ref[i].end(), ts[i].begin()), "arena_contents"); c.event("arena_operations"); } }
    c.ok(arena_bad == 0, "arena_owner", "a node was returned to another arena at the end"); c.eq(arena_live, (int64_t)0, "arena_all_returned");
}
UNIT(arena_trees, 3000, 30000, "one history on three search trees or treaps with stateful allocators: every node goes back to the arena it came from") {
    typedef ArenaAlloc<bst_node<int>> A; c.input("arena treap=%d", int(c.index % 2));
    if (c.index % 2 == 0) { typedef binary_search_tree<int, int, bst_duplicate_handling::IGNORE, std::less<int>, A> T; arena_tree<T>(c, [](int id) { return T(std::less<int>(), A(id)); }); }
    else { typedef treap<int, int, bst_duplicate_handling::IGNORE, std::less<int>, std::function<int()>, A> T; arena_tree<T>(c, [](int id) { return T(std::less<int>(), rand, A(id)); }); }
    c.nontrivial(vm::mix64(c.index ^ 0xa7e9a));
}
UNIT(arena_links, 600, 6000, "link-cut trees with stateful allocators: through copies, assignments and destruction every node goes back to the arena it came from") {
    auto& r = c.rng; typedef ArenaAlloc<link_cut_node<int>> A; typedef std::function<void(int&, const int&, const int&)> F; typedef link_cut_tree<int, F, A> T; arena_bad = 0; arena_live = 0; arena_of.clear(); c.input("arena link-cut");
    { F f = [](int&, const int&, const int&) {}; T a(f, 0, A(1)), b(f, 0, A(2)); std::vector<int> pa{ 0 }, pb{ 0 }; auto grow = [&](T& t, std::vector<int>& p, int n) { while (n-- > 0) { int x = t.add(n); c.eq(x, (int)p.size(), "arena_link_index"); int q = r.coin(1, 4) ? 0 : (int)r.below(x); if (q) t.link(x, q); p.push_back(q); } };
      for (int s = (int)r.below(10); s >= 0; s--) { grow(a, pa, (int)r.below(6)); grow(b, pb, (int)r.below(6)); switch (r.below(5)) { case 0: a = b; pa = pb; break; case 1: b = a; pb = pa; break; case 2: { T d(a); std::vector<int> pd = pa; grow(d, pd, 2); if (r.coin()) { b = d; pb = pd; } break; } case 3: { T d(f, 0, A(3 + s)); std::vector<int> pd{ 0 }; grow(d, pd, 3); a = d; pa = pd; break; } default: { T& self = a; a = self; } }
        for (int x = 1; x < (int)pa.size(); x++) c.eq(a.find_parent(x), pa[x], "arena_link_parent"); for (int x = 1; x < (int)pb.size(); x++) c.eq(b.find_parent(x), pb[x], "arena_link_parent"); c.ok(arena_bad == 0, "arena_owner", "a link-cut node was returned to another arena"); } }
    c.ok(arena_bad == 0, "arena_owner", "a link-cut node was returned to another arena at the end"); c.eq(arena_live, (int64_t)0, "arena_all_returned"); c.nontrivial(vm::mix64(c.index ^ 0x1c7));
}
UNIT(pool_trees, 3000, 30000, "one history on a search tree or treap whose nodes come from a bounded pool, with exhaustion, copies and swaps") {
    typedef bounded_contiguous_allocator<bst_node<int>> A; size_t cap = 1 + c.rng.below(20); c.input("pool tree cap=%zu treap=%d", cap, int(c.index % 2));
    if (c.index % 2 == 0) pool_tree(c, binary_search_tree<int, int, bst_duplicate_handling::IGNORE, std::less<int>, A>(std::less<int>(), A(cap + 1)), cap);
    else pool_tree(c, treap<int, int, bst_duplicate_handling::IGNORE, std::less<int>, std::function<int()>, A>(std::less<int>(), rand, A(cap + 1)), cap);
    c.nontrivial(vm::mix64(c.index ^ cap));
}
UNIT(scale, 12, 120, "a heap and a disjoint-set forest of tens of thousands of elements, unions in the worst orders, deep chains included") {
    auto& r = c.rng; int n = (int)r.range(20000, c.thorough ? 300000 : 60000), kind = (int)(c.index % 4); c.input("n=%d kind=%d", n, kind);
    { altruct::graph::disjoint_set d(n); std::vector<int> lab(n); for (int i = 0; i < n; i++) lab[i] = i; std::vector<int> rep(n); for (int i = 0; i < n; i++) rep[i] = i; std::function<int(int)> f = [&](int x) { while (rep[x] != x) x = rep[x] = rep[rep[x]]; return x; };
      for (int i = 1; i < n; i++) { int u, v; switch (kind) { case 0: u = i - 1; v = i; break; case 1: u = i; v = i - 1; break; case 2: u = n - i; v = n - i - 1; break; default: u = (int)r.below(n); v = (int)r.below(n); } if (kind < 3 && r.coin(1, 2000)) continue; d.unite(u, v); rep[f(u)] = f(v); }
      std::vector<int> cnt(n, 0); int comps = 0; for (int i = 0; i < n; i++) { comps += f(i) == i; cnt[f(i)]++; } bool ok = true; for (int i = 0; i < n; i++) ok = ok && d.count(i) == cnt[f(i)]; c.ok(ok, "scale_set_sizes"); std::unordered_map<int, int> m; for (int i = 0; i < n; i++) { int x = d.find(i); auto it = m.emplace(x, f(i)).first; ok = ok && it->second == f(i); } c.ok(ok && (int)m.size() == comps, "scale_sets"); }
    { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? (int)r.below(10) : (int)r.below(1 << 30); binary_heap<int> h(v.begin(), v.end()); std::vector<int> w = v; std::sort(w.begin(), w.end()); bool ok = true; { auto g = h; g.sort(); ok = g.v == w; } c.ok(ok, "scale_heap_sort"); for (int i = 0; i < n; i++) { ok = ok && h.front() == w[i]; h.pop_front(); } c.ok(ok && h.size() == 0, "scale_heap_drain"); for (int x : v) h.insert(x); for (int i = 0; i < n; i++) { ok = ok && h.front() == w[i]; h.pop_front(); } c.ok(ok, "scale_heap_inserted"); }
    c.nontrivial(vm::mix64(n * 4 + kind));
}
