// C21: binary search trees and treaps against a reference sorted sequence under random histories.
#include "vm.h"
#include <cstdlib>
#include <limits>
#include <functional>
#include "altruct/structure/container/treap.h"

using namespace altruct::container;
using vm::Tracked;
namespace bdh = altruct::container::bst_duplicate_handling;

namespace {

struct Cmp { // stateful comparator
    int mode = 0;
    int f(int x) const { return mode == 1 ? -x : mode == 2 ? x >> 2 : x; }
    bool operator()(const Tracked& a, const Tracked& b) const { if (a.magic != Tracked::ALIVE || b.magic != Tracked::ALIVE) Tracked::bad++; return f(a.v) < f(b.v); }
    bool operator()(int a, int b) const { return f(a) < f(b); }
};

// element access for set-like and map-like trees
struct SetE { typedef int K; typedef int T;
    static T make(int k, int) { return k; }
    static int key(const T& t) { return t; }
    static int id(const T&) { return 0; }
    static K K_(int k) { return k; } };
struct MapE { typedef Tracked K; typedef std::pair<const Tracked, int> T;
    static T make(int k, int id) { return T(Tracked(k), id); }
    static int key(const T& t) { if (t.first.magic != Tracked::ALIVE) Tracked::bad++; return t.first.v; }
    static int id(const T& t) { return t.second; }
    static K K_(int k) { return Tracked(k); } };

struct Ref { int key, id, cnt; };

template<class I> auto advance_by(I& it, int k, int) -> decltype(it += k, true) { it += k; return true; }
template<class I> bool advance_by(I&, int, long) { return false; } // treap const iterators do not jump
template<typename E, int DUP> using Bst = binary_search_tree<typename E::K, typename E::T, DUP, Cmp>;
template<typename E, int DUP> using Trp = treap<typename E::K, typename E::T, DUP, Cmp>;

struct RandSource { uint64_t s; int kind; int operator()() { s = vm::mix64(s); uint32_t x = uint32_t(s);
    switch (kind) { case 0: return int(x & 0x7fffffff); case 1: return int(x); case 2: return int(x % 3); case 3: return 0; case 4: return int(x % 5) - 2; default: return int(s >> 60); } } };

template<typename Tree> Tree make_tree(const Cmp& c, RandSource, int) { return Tree(c); }
template<typename E, int DUP> struct Maker {};

template<typename It> auto bal(It it, int) -> decltype(it.balance()) { return it.balance(); }
template<typename It> int bal(It it, long) { return it.it.balance(); }

template<typename E, int DUP, typename Tree, bool TREAP>
struct Model {
    typedef typename Tree::iterator It;
    typedef typename Tree::const_iterator CIt;
    vm::Ctx& c; Tree t; Cmp cmp; std::vector<Ref> ref; std::string what;
    Model(vm::Ctx& c, Tree&& tr, Cmp cmp) : c(c), t(std::move(tr)), cmp(cmp) {}
    Model(const Model& o) : c(o.c), t(o.t), cmp(o.cmp), ref(o.ref) {}

    int total() const { int s = 0; for (auto& r : ref) s += r.cnt; return s; }
    size_t lo(int k) const { size_t i = 0; while (i < ref.size() && cmp(ref[i].key, k)) i++; return i; }
    size_t up(int k) const { size_t i = 0; while (i < ref.size() && !cmp(k, ref[i].key)) i++; return i; }
    int before(size_t i) const { int s = 0; for (size_t j = 0; j < i; j++) s += ref[j].cnt; return s; }

    It at(size_t i) { It it = t.begin(); for (; i > 0; i--) ++it; return it; }

    // structure seen through the node links
    int walk(CIt n, CIt par, int depth, std::vector<CIt>& order, int& h) {
        if (n == t.cend()) return 0;
        h = std::max(h, depth);
        c.ok(n.parent() == par, "parent_link", what);
        if (TREAP && par != t.cend()) c.ok(bal(par, 0) <= bal(n, 0), "heap_order", what);
        int l = walk(n.left(), n, depth + 1, order, h);
        order.push_back(n);
        int r = walk(n.right(), n, depth + 1, order, h);
        c.ok(n.count() >= 1, "count_positive", what);
        c.eq(n.size(), l + r + n.count(), "subtree_size");
        return n.size();
    }
    void structure() {
        std::vector<CIt> order; int h = 0;
        int s = walk(t.croot(), t.cend(), 1, order, h);
        c.eq(s, total(), "tree_total");
        c.eq(order.size(), ref.size(), "tree_nodes");
        c.eq(t.size(), s, "size");
        c.eq(t.empty(), s == 0, "empty");
        for (size_t i = 0; i < order.size(); i++) match(order[i], i, "tree_inorder");
        c.event("max_height", 0);
    }
    void match(CIt it, size_t i, const char* tag) {
        if (i >= ref.size()) { c.ok(it == t.cend(), tag, what + " expected end"); return; }
        c.ok(it != t.cend(), tag, what + " unexpected end");
        c.eq(E::key(*it), ref[i].key, tag); 
        if (!std::is_same<E, SetE>::value) c.eq(E::id(*it), ref[i].id, tag);
        c.eq(it.count(), ref[i].cnt, tag);
    }
    void contents() {
        size_t i = 0;
        for (It it = t.begin(); it != t.end(); ++it, i++) { match(it, i, "forward"); if (i > ref.size()) break; }
        c.eq(i, ref.size(), "forward_count");
        i = ref.size();
        for (auto it = t.rbegin(); it != t.rend(); ++it) { c.ok(i > 0, "reverse", what); i--; c.eq(E::key(*it), ref[i].key, "reverse"); }
        c.eq(i, size_t(0), "reverse_count");
        const Tree& ct = t; i = 0;
        for (CIt it = ct.begin(); it != ct.end(); it++, i++) match(it, i, "cforward");
        i = ref.size();
        for (auto it = ct.crbegin(); it != ct.crend(); it++) { i--; c.eq(E::key(*it), ref[i].key, "creverse"); }
        i = ref.size(); for (auto it = ct.rbegin(); it != ct.rend(); ++it) { i--; c.eq(E::key(*it), ref[i].key, "const_reverse"); } if (DUP != bdh::COUNT && !ref.empty()) { size_t k = ref.size() / 2; CIt it = ct.begin(); if (advance_by(it, (int)k, 0)) match(it, k, "const_advance"); } CIt e = ct.cend(); i = ref.size();
        while (i > 0) { i--; match(--e, i, "backward"); }
        c.ok(e == ct.cbegin(), "backward_begin", what);
    }
    void queries(int k) {
        const Tree& ct = t; auto K = E::K_(k);
        size_t l = lo(k), u = up(k);
        match(t.lower_bound(K), l, "lower_bound"); match(ct.lower_bound(K), l, "lower_bound_const");
        match(t.upper_bound(K), u, "upper_bound"); match(ct.upper_bound(K), u, "upper_bound_const");
        match(t.equal_range(K).first, l, "equal_range_first"); match(ct.equal_range(K).second, u, "equal_range_second");
        match(t.find(K), l < u ? l : ref.size(), "find"); match(ct.find(K), l < u ? l : ref.size(), "find_const");
        c.eq(ct.count(K), before(u) - before(l), "count");
        c.eq(ct.count_less(K), before(l), "count_less");
        c.eq(ct.count_less_or_equal(K), before(u), "count_less_or_equal");
    }
    void kth(int k) {
        const Tree& ct = t;
        if (k < 0) k = 0;
        size_t i = 0; int q = k; while (i < ref.size() && q >= ref[i].cnt) { q -= ref[i].cnt; i++; }
        match(t.find_kth(k), i, "find_kth"); match(ct.find_kth(k), i, "find_kth_const");
    }
    void positions() {
        if (DUP == bdh::COUNT || ref.empty()) return;
        int n = (int)ref.size();
        int i = (int)c.rng.below(n + 1), j = (int)c.rng.below(n + 1);
        c.eq(at(i).pos(), i, "pos"); c.eq(CIt(at(i)).pos(), i, "const_pos");
        match(at(i).add(j - i), j, "add"); match(CIt(at(i)).add(j - i), j, "const_add");
    }
    void steps() { // postfix forms return the old position, prefix forms the new one
        size_t n = ref.size(), i = c.rng.below(n + 1);
        It it = at(i); CIt ci = it;
        if (i < n) {
            It o = it++; match(o, i, "postfix_inc"); match(it, i + 1, "postfix_inc"); CIt co = ci++; match(co, i, "const_postfix_inc"); match(ci, i + 1, "const_postfix_inc");
            c.ok(o != it && co != ci && CIt(it) == ci, "iterator_equality", what);
            o = it--; match(o, i + 1, "postfix_dec"); match(it, i, "postfix_dec"); co = ci--; match(co, i + 1, "const_postfix_dec"); match(ci, i, "const_postfix_dec");
            c.eq(it.size(), ci.size(), "iterator_size"); c.eq(it.count(), ref[i].cnt, "iterator_count");
            c.ok(&*it == &*ci && it.operator->() == &*it && ci.operator->() == &*ci, "iterator_arrow", what);
        }
        if (i > 0) { match(--it, i - 1, "prefix_dec"); match(--ci, i - 1, "const_prefix_dec"); match(++it, i, "prefix_inc"); match(++ci, i, "const_prefix_inc"); }
        It rt = t.root(); c.ok(CIt(rt) == t.croot(), "root", what);
        if (n) { c.ok(rt.parent() == t.end() && CIt(rt).parent() == t.cend(), "root_parent", what);
            if (rt.left() != t.end()) c.ok(rt.left().parent() == rt, "left_parent", what);
            if (rt.right() != t.end()) c.ok(rt.right().parent() == rt, "right_parent", what); }
    }

    void insert(int k, int id, int cnt) {
        if (DUP != bdh::COUNT) { }
        size_t l = lo(k), u = up(k);
        It it = cnt == 1 && c.rng.coin() ? t.insert(E::make(k, id)) : t.insert(E::make(k, id), cnt);
        size_t p;
        if (DUP == bdh::STORE) { p = u; ref.insert(ref.begin() + u, Ref{k, id, 1}); }
        else if (l < u) { p = l; if (DUP == bdh::COUNT) ref[l].cnt += cnt; }
        else { p = l; ref.insert(ref.begin() + l, Ref{k, id, DUP == bdh::COUNT ? cnt : 1}); }
        match(it, p, "insert_result");
    }
    void insert_before(int id) {
        // a position and a key that keep the order
        size_t p = c.rng.below(ref.size() + 1);
        int k;
        bool strict = DUP != bdh::STORE;
        int tries = 20;
        for (;; ) {
            if (tries-- == 0) return;
            k = (int)c.rng.range(-60, 60);
            if (!strict && c.rng.coin() && !ref.empty()) k = ref[c.rng.coin() && p > 0 ? p - 1 : p < ref.size() ? p : 0].key;
            bool okl = p == 0 || (strict ? cmp(ref[p - 1].key, k) : !cmp(k, ref[p - 1].key));
            bool okr = p == ref.size() || (strict ? cmp(k, ref[p].key) : !cmp(ref[p].key, k));
            if (okl && okr) break;
        }
        int cnt = DUP == bdh::COUNT ? (int)c.rng.range(1, c.rng.coin(1, 6) ? 5000 : 5) : 1;
        It it = t.insert_before(at(p), E::make(k, id), cnt);
        ref.insert(ref.begin() + p, Ref{k, id, cnt});
        match(it, p, "insert_before_result");
        c.event("insert_before");
    }
    void erase_at(size_t p, int cnt, bool def) {
        It nx = at(p); ++nx; It pv = at(p); --pv; bool first = p == 0;
        if (def) t.erase(CIt(at(p))); else t.erase(CIt(at(p)), cnt);
        bool partial = DUP == bdh::COUNT && !def && cnt < ref[p].cnt;
        if (partial) ref[p].cnt -= cnt; else ref.erase(ref.begin() + p);
        // other iterators stay valid
        match(nx, partial ? p + 1 : p, "iterator_after_erase");
        if (!first) match(pv, p - 1, "iterator_before_erase");
        c.event(partial ? "partial_erase" : "erase");
    }
    void erase_key(int k, int cnt, bool def) {
        size_t l = lo(k), u = up(k);
        if (def) t.erase(E::K_(k)); else t.erase(E::K_(k), cnt);
        if (l == u) { c.event("erase_missing"); return; }
        if (DUP == bdh::COUNT && !def && cnt < ref[l].cnt) ref[l].cnt -= cnt;
        else ref.erase(ref.begin() + l, ref.begin() + u);
    }
    void erase_range(size_t i, size_t j, int cnt, bool def) {
        if (def) t.erase(CIt(at(i)), CIt(at(j))); else t.erase(CIt(at(i)), CIt(at(j)), cnt);
        std::vector<Ref> n;
        for (size_t q = 0; q < ref.size(); q++) {
            if (q < i || q >= j) n.push_back(ref[q]);
            else if (DUP == bdh::COUNT && !def && cnt < ref[q].cnt) { n.push_back(ref[q]); n.back().cnt -= cnt; }
        }
        ref = n;
    }
    // relational operators against another model with the same comparator
    void relate(Model& o) {
        int r = 0; size_t i = 0;
        for (; !r && i < ref.size() && i < o.ref.size(); i++) r = cmp(ref[i].key, o.ref[i].key) ? -1 : cmp(o.ref[i].key, ref[i].key) ? 1 : 0;
        if (!r) r = ref.size() < o.ref.size() ? -1 : ref.size() > o.ref.size();
        c.eq(t == o.t, r == 0, "op=="); c.eq(t != o.t, r != 0, "op!="); c.eq(t < o.t, r < 0, "op<");
        c.eq(t > o.t, r > 0, "op>"); c.eq(t <= o.t, r <= 0, "op<="); c.eq(t >= o.t, r >= 0, "op>=");
    }
};

template<typename E, int DUP> struct MkBst { typedef Bst<E, DUP> T; static T mk(Cmp c, RandSource) { return T(c); }
    template<typename I> static T mk(I b, I e, Cmp c, RandSource) { return T(b, e, c); } };
template<typename E, int DUP> struct MkTrp { typedef Trp<E, DUP> T; static T mk(Cmp c, RandSource r) { return T(c, r); }
    template<typename I> static T mk(I b, I e, Cmp c, RandSource r) { return T(b, e, c, r); } };

template<typename E, int DUP, template<typename, int> class MK, bool TREAP>
void history(vm::Ctx& c) {
    typedef typename MK<E, DUP>::T Tree;
    typedef Model<E, DUP, Tree, TREAP> M;
    auto& r = c.rng;
    Cmp cmp; cmp.mode = (int)r.below(3);
    RandSource rs{ r.u64(), (int)r.below(6) };
    int range = r.pick({2, 5, 16, 60});
    int ops = (int)r.below(r.pick({8, 40, 120, c.thorough ? 600 : 160}));
    int shape = (int)r.below(4); // key distribution
    int bias = (int)r.below(3);  // insertion or erasure heavy
    c.input("dup=%d treap=%d cmp=%d rand=%d range=%d ops=%d shape=%d bias=%d", DUP, TREAP, cmp.mode, rs.kind, range, ops, shape, bias);
    for (const char* e : {"max_height", "insert_before", "partial_erase", "erase", "erase_missing", "erase_range", "clear", "copy_assign", "copy", "swap", "move", "self", "peak_nodes", "operations"}) c.event(e, 0);
    size_t bytes0 = vm::allocated_bytes(); int64_t live0 = Tracked::live, bad0 = Tracked::bad;
    uint64_t h = 0; size_t peak = 0;
    {
        int id = 0;
        Cmp cmpb = cmp; if (r.coin(1, 3)) cmpb.mode = (int)r.below(3); // swaps and assignments carry the comparator along
        M a(c, MK<E, DUP>::mk(cmp, rs), cmp), b(c, MK<E, DUP>::mk(cmpb, rs), cmpb);
        if (r.coin(1, 3)) { // built from a range
            std::vector<typename E::T> v; int n = (int)r.below(12);
            for (int i = 0; i < n; i++) {
                int k = (int)r.range(-range, range); v.push_back(E::make(k, ++id));
                size_t l = a.lo(k), u = a.up(k);
                if (DUP == bdh::STORE || l == u) a.ref.insert(a.ref.begin() + u, Ref{k, id, 1});
                else if (DUP == bdh::COUNT) a.ref[l].cnt++;
            }
            a.t = MK<E, DUP>::mk(v.begin(), v.end(), cmp, rs);
            a.contents(); a.structure();
        }
        for (int i = 0; i < ops; i++) {
            int k = shape == 0 ? (int)r.range(-range, range) : shape == 1 ? i - 50 : shape == 2 ? 50 - i : (int)(i % 7) * 8 + (int)r.below(3);
            int op = (int)r.below(20);
            int cnt = (int)r.range(1, DUP == bdh::COUNT && r.coin(1, 6) ? 5000 : 4);
            char buf[64]; snprintf(buf, sizeof buf, "op#%d=%d k=%d", i, op, k); a.what = buf;
            h = vm::mix64(h ^ (uint64_t(op) << 32) ^ uint32_t(k));
            if (bias == 1 && op >= 8 && op < 12) op = 0;
            if (bias == 2 && op < 5 && r.coin()) op = 8 + (int)r.below(4);
            if (DUP == bdh::COUNT && op >= 8 && r.coin(1, 8)) cnt = 0; // erasing zero occurrences leaves everything in place
            switch (op) {
            case 0: case 1: case 2: case 3: case 4: case 5: a.insert(k, ++id, cnt); break;
            case 6: case 7: a.insert_before(++id); break;
            case 8: case 9: if (!a.ref.empty()) a.erase_at(r.below(a.ref.size()), cnt, r.coin()); break;
            case 10: a.erase_key(k, cnt, r.coin()); break;
            case 11: { size_t x = r.below(a.ref.size() + 1), y = r.below(a.ref.size() + 1); if (x > y) std::swap(x, y); if (y > x + 6 && r.coin(2, 3)) y = x + 6; a.erase_range(x, y, cnt, r.coin()); c.event("erase_range"); break; }
            case 12: if (r.coin(1, 4)) { a.t.clear(); a.ref.clear(); c.event("clear"); } break;
            case 13: { M d(a); d.contents(); d.structure(); if (!d.ref.empty()) d.erase_at(r.below(d.ref.size()), 1, true); d.insert(k, ++id, 1); d.structure(); if (r.coin()) { a.t = d.t; a.ref = d.ref; c.event("copy_assign"); } c.event("copy"); break; }
            case 14: { if (r.coin()) { a.t.swap(b.t); } else { std::swap(a.t, b.t); } std::swap(a.ref, b.ref); std::swap(a.cmp, b.cmp); if (r.coin()) { b.insert(k, ++id, 1); b.queries(k); } c.event("swap"); break; }
            case 15: { Tree m(std::move(a.t)); a.t = std::move(m); c.event("move"); break; }
            case 16: { if (r.coin(1, 3)) { Tree& self = a.t; a.t = self; a.t.swap(self); c.event("self"); } break; }
            case 17: a.queries(k); a.queries((int)r.range(-range - 2, range + 2)); break;
            case 18: a.kth((int)r.below(a.total() + 2)); a.positions(); a.steps(); break;
            default: if (a.cmp.mode == b.cmp.mode) a.relate(b); { M d(a); a.relate(d); if (!d.ref.empty() && r.coin()) { d.erase_at(d.ref.size() - 1, 1, true); a.relate(d); d.relate(a); } } break;
            }
            a.structure();
            if (r.coin(1, 6)) a.contents();
            peak = std::max(peak, a.ref.size());
        }
        a.contents(); b.contents(); b.structure();
        for (int k = -range - 1; k <= range + 1; k += 1 + range / 8) a.queries(k);
        for (int k = 0; k <= a.total(); k += 1 + a.total() / 16) a.kth(k);
        a.positions(); b.positions(); a.steps(); b.steps();
        if (r.coin()) { b.t = a.t; b.ref = a.ref; b.cmp = a.cmp; for (int q = 0; q < 6; q++) b.insert((int)r.range(-range, range), ++id, 1); b.structure(); b.queries((int)r.range(-range, range)); a.contents(); }
    }
    c.eq(Tracked::live, live0, "elements_alive_after_destruction");
    c.eq(Tracked::bad, bad0, "dead_element_access");
    c.eq(vm::allocated_bytes(), bytes0, "bytes_after_destruction");
    c.event("peak_nodes", peak); c.event("operations", ops);
    if (ops > 3) c.nontrivial(h);
}

template<template<typename, int> class MK, bool TREAP> void any(vm::Ctx& c) {
    switch (c.index % 6) {
    case 0: history<SetE, bdh::IGNORE, MK, TREAP>(c); break;
    case 1: history<SetE, bdh::COUNT, MK, TREAP>(c); break;
    case 2: history<SetE, bdh::STORE, MK, TREAP>(c); break;
    case 3: history<MapE, bdh::IGNORE, MK, TREAP>(c); break;
    case 4: history<MapE, bdh::COUNT, MK, TREAP>(c); break;
    default: history<MapE, bdh::STORE, MK, TREAP>(c); break;
    }
}
} // namespace

UNIT(bst_history, 6000, 60000, "one random history on an unbalanced search tree, mirrored on a sorted sequence") { any<MkBst, false>(c); }
UNIT(treap_history, 6000, 60000, "one random history on a treap, mirrored on a sorted sequence, with the given priority source") { any<MkTrp, true>(c); }

// every order of inserting and erasing a few keys, in each mode
template<typename E, int DUP, template<typename, int> class MK, bool TREAP> static void perm_case(vm::Ctx& c, uint64_t code) {
    typedef typename MK<E, DUP>::T Tree;
    c.event("erase", 0); c.event("partial_erase", 0); c.event("max_height", 0);
    size_t bytes0 = vm::allocated_bytes();
    {
        RandSource rs{ c.rng.u64(), (int)c.rng.below(3) };
        Model<E, DUP, Tree, TREAP> m(c, MK<E, DUP>::mk(Cmp(), rs), Cmp());
        std::vector<int> p = {0, 1, 2, 3, 4, 5}, q = {0, 1, 2, 3, 4, 5};
        uint64_t x = code % 720, y = code / 720 % 720;
        for (int i = 5; i > 0; i--) { std::swap(p[i], p[x % (i + 1)]); x /= (i + 1); std::swap(q[i], q[y % (i + 1)]); y /= (i + 1); }
        for (int k : p) { m.insert(k, k, 1 + k % 2); m.structure(); }
        m.contents();
        for (int k : q) { size_t l = m.lo(k); m.erase_at(l, 1, c.rng.coin()); m.structure(); m.queries(k); }
    }
    c.eq(vm::allocated_bytes(), bytes0, "bytes_after_destruction");
}
UNIT(erase_orders, 4000, 60000, "one (insertion order, erasure order) pair of six keys out of 720*720, on trees and treaps in the three modes") {
    uint64_t code = c.thorough ? (c.index * 0x9E3779B1ull) % (720 * 720) : c.rng.below(720 * 720);
    c.input("insert order %d, erase order %d", int(code % 720), int(code / 720));
    perm_case<MapE, bdh::IGNORE, MkBst, false>(c, code);
    perm_case<MapE, bdh::COUNT, MkBst, false>(c, code);
    perm_case<SetE, bdh::STORE, MkBst, false>(c, code);
    perm_case<MapE, bdh::IGNORE, MkTrp, true>(c, code);
    perm_case<SetE, bdh::COUNT, MkTrp, true>(c, code);
    perm_case<MapE, bdh::STORE, MkTrp, true>(c, code);
    c.nontrivial(code);
}

UNIT(initializer_list_and_default, 200, 1000, "default comparator/random source, initializer lists, map-like pairs, treap height stays logarithmic") {
    auto& r = c.rng;
    std::vector<int> v; int n = (int)r.below(200); bool asc = r.coin();
    for (int i = 0; i < n; i++) v.push_back(asc ? i : (int)r.range(-30, 30));
    c.input("n=%d asc=%d", n, asc); c.note(vm::str(v));
    treap<int> t(v.begin(), v.end()); std::set<int> s(v.begin(), v.end());
    c.ok(std::equal(s.begin(), s.end(), t.begin()) && (int)s.size() == t.size(), "treap_vs_set");
    treap<int, int, bdh::STORE> ts(v.begin(), v.end()); std::multiset<int> ms(v.begin(), v.end());
    c.ok(std::equal(ms.begin(), ms.end(), ts.begin()) && (int)ms.size() == ts.size(), "treap_vs_multiset");
    binary_search_tree<int> b{3, 1, 2, 3}; c.eq(b.size(), 3, "init_list"); c.eq(*b.begin(), 1, "init_list");
    treap<int, std::pair<const int, int>> m; std::map<int, int> rm;
    for (int i = 0; i < n; i++) { m.insert({v[i], i}); rm.insert({v[i], i}); }
    for (auto& e : rm) { auto it = m.find(e.first); c.ok(it != m.end(), "map_find"); c.eq(it->second, e.second, "map_value"); it->second += 7; }
    for (auto& e : rm) c.eq(m.find(e.first)->second, e.second + 7, "map_update");
    if (n > 2) c.nontrivial_input();
}

static uint64_t tree_height(const treap<int>::const_iterator& root, const treap<int>::const_iterator& end) { // iterative, no recursion on a degenerate tree
    uint64_t h = 0; std::vector<std::pair<treap<int>::const_iterator, uint64_t>> st; if (root != end) st.push_back({root, 1});
    while (!st.empty()) { auto [n, d] = st.back(); st.pop_back(); h = std::max(h, d); if (n.left() != end) st.push_back({n.left(), d + 1}); if (n.right() != end) st.push_back({n.right(), d + 1}); }
    return h;
}
static std::function<int()> counted(int* n, int id) { return [=] { ++n[id]; static uint32_t s = 1; s = s * 1664525u + 1013904223u; return int(s >> 2); }; }
UNIT(generator_travels, 200, 2000, "the priority source is part of a treap: it goes along with copies, assignments, moves and swaps, and every later insertion draws from it") {
    auto& r = c.rng; int n[2] = {0, 0}; typedef treap<int> Tr; Tr a(std::less<int>(), counted(n, 0)), b(std::less<int>(), counted(n, 1)); int ia = 0, ib = 1, k = 0; std::string h;
    auto grow = [&](Tr& t, int id) { int x = n[id], y = n[1 - id]; t.insert(++k); c.ok(n[id] > x && n[1 - id] == y, "insertion draws from the treap's own source", h); };
    for (int i = (int)r.below(6); i-- > 0;) r.coin() ? grow(a, ia) : grow(b, ib);
    for (int s = 1 + (int)r.below(8); s-- > 0;) { int op = (int)r.below(6); h += char('0' + op); switch (op) { case 0: a.swap(b); std::swap(ia, ib); break; case 1: a = b; ia = ib; break; case 2: b = a; ib = ia; break; case 3: { Tr d(a); grow(d, ia); break; } case 4: { Tr d(std::less<int>(), counted(n, ib)); d = std::move(a); grow(d, ia); a = std::move(d); break; } default: std::swap(a, b); std::swap(ia, ib); } grow(a, ia); grow(b, ib); }
    c.input("%s", h.c_str()); c.nontrivial_input();
}
UNIT(treap_height, 60, 600, "thousands of keys in adversarial orders with a uniform priority source: the height of the treap, and of its copies under further growth, stays within a small multiple of log n") {
    auto& r = c.rng; int n = 1000 + (int)r.below(4000), ord = (int)r.below(4); c.input("treap n=%d order=%d", n, ord);
    RandSource rs{ r.u64(), 0 }; treap<int> t(std::less<int>(), rs); uint64_t h = 0;
    auto key = [&](int i) { return ord == 0 ? i : ord == 1 ? -i : ord == 2 ? (i % 2 ? i : -i) : (i % 64) * 4096 + i / 64; };
    auto check = [&](treap<int>& x, const char* what) { uint64_t q = tree_height(x.croot(), x.cend()); h = std::max(h, q); double lg = std::log2(double(x.size() + 2)); c.ok(q <= 6 * lg + 10, "height", std::string(what) + ": height " + vm::S(q) + " for " + vm::S(x.size()) + " keys"); };
    for (int i = 0; i < n; i++) t.insert(key(i));
    check(t, "after insertions");
    treap<int> d(t); for (int i = n; i < 2 * n; i++) d.insert(key(i)); check(d, "copy after more insertions"); c.eq(d.size(), 2 * n, "size"); c.eq(t.size(), n, "size");
    for (int i = 0; i < n; i++) if (i % 8) d.erase(key(i)); check(d, "copy after erasures"); c.eq(d.size(), n + (n + 7) / 8, "size");
    t = d; for (int i = 2 * n; i < 3 * n; i++) t.insert(key(i)); check(t, "assigned copy after more insertions"); treap<int> m(std::move(t)); m.swap(d); for (int i = 3 * n; i < 4 * n; i++) d.insert(key(i)); check(d, "moved and swapped tree after more insertions");
    c.event("treap_height", h); c.nontrivial_input();
}
