// C22: ropes, lazy treaps and link-cut trees against plain arrays and parent-pointer forests.
#include "vm.h"
#include <time.h>
#include <cstdlib>
#include <limits>
#include <functional>
#include "altruct/structure/container/rope.h"
#include "altruct/structure/container/lazy_treap.h"
#include "altruct/structure/container/link_cut_tree.h"

using namespace altruct::container;
using vm::Tracked;

namespace {
struct RandSource { uint64_t s; int kind; int operator()() { s = vm::mix64(s); uint32_t x = uint32_t(s);
    switch (kind) { case 0: return int(x & 0x7fffffff); case 1: return int(x); case 2: return int(x % 3); case 3: return 0; default: return int(s >> 58); } } };

// ---- rope
template<typename T> struct RopeModel {
    rope<T> t; std::vector<int> v;
    RopeModel(RandSource r) : t(r) {}
};
inline int val(int x) { return x; }
inline int val(const Tracked& x) { if (x.magic != Tracked::ALIVE) Tracked::bad++; return x.v; }
template<typename T> void rope_check(vm::Ctx& c, RopeModel<T>& m) {
    const rope<T>& ct = m.t; auto& v = m.v; int n = (int)v.size();
    c.eq(m.t.size(), n, "rope_size"); c.eq(m.t.empty(), n == 0, "rope_empty");
    int i = 0;
    for (auto it = m.t.begin(); it != m.t.end(); ++it, ++i) { c.ok(i < n, "rope_forward_len"); c.eq(val(*it), v[i], "rope_forward"); }
    c.eq(i, n, "rope_forward_count");
    for (auto it = ct.rbegin(); it != ct.rend(); ++it) c.eq(val(*it), v[--i], "rope_reverse");
    c.eq(i, 0, "rope_reverse_count");
    if (n) {
        int a = (int)c.rng.below(n), b = (int)c.rng.below(n + 1);
        c.eq(val(ct[a]), v[a], "rope_at"); c.eq(val(m.t.at(a)), v[a], "rope_at"); c.eq(val(m.t[a]), v[a], "rope_at");
        auto ia = m.t.find_kth(a), ib = m.t.find_kth(b); auto ca = ct.find_kth(a), cb = ct.find_kth(b);
        c.eq(int(ib - ia), b - a, "rope_difference"); c.eq(int(cb - ca), b - a, "rope_difference");
        c.ok((ia + (b - a)) == ib && (cb - (b - a)) == ca, "rope_iterator_arith");
        c.eq(ia < ib, a < b, "rope_it_less"); c.eq(ia >= ib, a >= b, "rope_it_ge"); c.eq(ca > cb, a > b, "rope_it_gt"); c.eq(ca <= cb, a <= b, "rope_it_le");
        c.eq(val(ib[a - b]), v[a], "rope_subscript"); c.eq(val(cb[a - b]), v[a], "rope_subscript");
        c.eq(ia.pos(), a, "rope_pos");
    }
    c.ok(m.t.find_kth(n) == m.t.end(), "rope_kth_end");
    i = n; for (auto it = m.t.rbegin(); it != m.t.rend(); it++) c.eq(val(*it), v[--i], "rope_reverse");
    c.eq(i, 0, "rope_reverse_count");
    { int a = (int)c.rng.below(n + 1), b = (int)c.rng.below(n + 1); // every iterator form agrees with the position
      auto it = m.t.begin() + a; auto ci = ct.begin() + a; auto jt = m.t.end() - (n - b); auto cj = ct.cend() - (n - b);
      c.eq(it.pos(), a, "rope_pos"); c.eq(ci.pos(), a, "rope_pos"); c.eq(jt.pos(), b, "rope_pos"); c.eq(cj.pos(), b, "rope_pos");
      c.eq(it < jt, a < b, "rope_it_cmp"); c.eq(it > jt, a > b, "rope_it_cmp"); c.eq(it <= jt, a <= b, "rope_it_cmp"); c.eq(it >= jt, a >= b, "rope_it_cmp"); c.eq(it == jt, a == b, "rope_it_cmp"); c.eq(it != jt, a != b, "rope_it_cmp");
      c.eq(ci < cj, a < b, "rope_it_cmp"); c.eq(ci > cj, a > b, "rope_it_cmp"); c.eq(ci <= cj, a <= b, "rope_it_cmp"); c.eq(ci >= cj, a >= b, "rope_it_cmp"); c.eq(ci == cj, a == b, "rope_it_cmp"); c.eq(ci != cj, a != b, "rope_it_cmp");
      if (a < n) {
        c.ok(&*it == &*ci && it.operator->() == &*it && ci.operator->() == &*ci, "rope_it_arrow"); c.eq(it.count(), 1, "rope_it_count"); c.eq(ci.count(), 1, "rope_it_count");
        auto o = it++; auto co = ci++; c.eq(o.pos(), a, "rope_postfix"); c.eq(co.pos(), a, "rope_postfix"); c.eq(it.pos(), a + 1, "rope_postfix"); c.eq(ci.pos(), a + 1, "rope_postfix");
        o = it--; co = ci--; c.eq(o.pos(), a + 1, "rope_postfix"); c.eq(co.pos(), a + 1, "rope_postfix"); c.eq(it.pos(), a, "rope_postfix"); c.eq(ci.pos(), a, "rope_postfix");
        c.eq(val(*it), v[a], "rope_postfix");
        ++it; ++ci; --it; --ci; c.eq(it.pos(), a, "rope_prefix"); c.eq(ci.pos(), a, "rope_prefix");
      }
      it += b - a; c.ok(it == jt, "rope_plus_assign"); it -= b - a; c.eq(it.pos(), a, "rope_minus_assign"); ci += b - a; c.ok(ci == cj, "rope_plus_assign"); ci -= b - a; c.eq(ci.pos(), a, "rope_minus_assign"); }
}
template<typename T> void rope_history(vm::Ctx& c) {
    auto& r = c.rng;
    RandSource rs{ r.u64(), (int)r.below(5) };
    int ops = (int)r.below(r.pick({10, 60, 160, c.thorough ? 500 : 160}));
    c.input("rope rand=%d ops=%d seed=%llu", rs.kind, ops, (unsigned long long)rs.s);
    c.event("rope_ops", ops);
    size_t bytes0 = vm::allocated_bytes(); int64_t live0 = Tracked::live, bad0 = Tracked::bad;
    uint64_t h = 0;
    {
        RopeModel<T> m(rs), o(rs);
        int next = 0;
        for (int i = 0; i < ops; i++) {
            int n = (int)m.v.size(); int op = (int)r.below(14); h = vm::mix64(h ^ op ^ n);
            switch (op) {
            case 0: case 1: m.t.push_back(T(++next)); m.v.push_back(next); break;
            case 2: case 3: case 4: { int p = (int)r.below(n + 1); m.t.insert(p, T(++next)); m.v.insert(m.v.begin() + p, next); break; }
            case 5: { int p = (int)r.below(n + 1); m.t.insert(m.t.begin() + p, T(++next)); m.v.insert(m.v.begin() + p, next); break; }
            case 6: if (n) { int p = (int)r.below(n); m.t.erase(p); m.v.erase(m.v.begin() + p); } break;
            case 7: if (n) { int p = (int)r.below(n); m.t.erase(m.t.end() - (n - p)); m.v.erase(m.v.begin() + p); } break;
            case 8: { int a = (int)r.below(n + 1), b = (int)r.below(n + 1); if (a > b) std::swap(a, b); b = std::min(b, a + 5); m.t.erase(a, b); m.v.erase(m.v.begin() + a, m.v.begin() + b); break; }
            case 9: if (n) { int p = (int)r.below(n); m.t[p] = T(++next); m.v[p] = next; int q = (int)r.below(n); *(m.t.begin() + q) = T(++next); m.v[q] = next; } break;
            case 10: if (r.coin()) m.t.swap(o.t); else std::swap(m.t, o.t); std::swap(m.v, o.v); break;
            case 11: if (r.coin(1, 3)) { m.t.clear(); m.v.clear(); } break;
            case 12: { rope<T> d(m.t); rope<T> q(std::move(d)); if (r.coin()) q = q; m.t = q; if (r.coin()) m.t = std::move(q); break; }
            default: {
                auto cmp3 = [](const std::vector<int>& x, const std::vector<int>& y) { return x < y ? -1 : y < x ? 1 : 0; };
                if (r.coin()) { o.t = m.t; o.v = m.v; if (!o.v.empty() && r.coin()) { int p = (int)r.below(o.v.size()); int d = (int)r.range(-1, 1); o.t[p] = T(o.v[p] + d); o.v[p] += d; } if (r.coin(1, 3)) { o.t.push_back(T(1)); o.v.push_back(1); } }
                int q = cmp3(m.v, o.v);
                c.eq(m.t == o.t, q == 0, "rope=="); c.eq(m.t != o.t, q != 0, "rope!="); c.eq(m.t < o.t, q < 0, "rope<");
                c.eq(m.t > o.t, q > 0, "rope>"); c.eq(m.t <= o.t, q <= 0, "rope<="); c.eq(m.t >= o.t, q >= 0, "rope>=");
                std::vector<T> w; for (int x : m.v) w.push_back(T(x));
                rope<T> b(w.begin(), w.end(), rs); c.ok(b == m.t, "rope_range_ctor");
                if (m.v.size() >= 3) { rope<T> il{w[0], w[1], w[2]}; c.eq(il.size(), 3, "rope_list_ctor"); for (int z = 0; z < 3; z++) c.eq(val(il[z]), m.v[z], "rope_list_ctor"); }
                break; }
            }
            rope_check(c, m);
        }
        rope_check(c, m); rope_check(c, o);
    }
    c.eq(Tracked::live, live0, "rope_elements_alive"); c.eq(Tracked::bad, bad0, "rope_dead_access");
    c.eq(vm::allocated_bytes(), bytes0, "rope_bytes");
    if (ops > 3) c.nontrivial(h);
}

// ---- lazy treap: affine updates, aggregate = (sum, count, polynomial hash in order)
typedef uint32_t u32;
struct Node {
    int key = 0; u32 val = 0;
    u32 cnt = 0, sum = 0, hash = 0, pw = 1, ones = 0; // of the subtree (ones = hash of all-ones)
    u32 mul = 1, add = 0;                   // pending for the children, the addend in units of the tree's own scale
    static const u32 B = 1000003;
    Node() {}
    Node(int key, u32 val, u32 base = B) : key(key), val(val), cnt(1), sum(val), hash(val), pw(base), ones(1) {}
    bool operator<(const Node& o) const { return key < o.key; }
    void affine(u32 m, u32 a, u32 k) { u32 s = a * k; val = val * m + s; sum = sum * m + s * cnt; hash = hash * m + s * ones; mul = mul * m; add = add * m + a; }
};
struct Up { u32 B; void operator()(Node& p, const Node& l, const Node& r) const {
    u32 cnt = l.cnt + 1 + r.cnt, sum = l.sum + p.val + r.sum;
    u32 hash = (l.hash * B + p.val) * r.pw + r.hash, ones = (l.ones * B + 1) * r.pw + r.ones, pw = l.pw * B * r.pw;
    p.cnt = cnt; p.sum = sum; p.hash = hash; p.ones = ones; p.pw = pw; } };
struct Down { u32 k; void operator()(Node& p, Node& l, Node& r) const { l.affine(p.mul, p.add, k); r.affine(p.mul, p.add, k); p.mul = 1; p.add = 0; } };
typedef lazy_treap<Node> LT;
struct Elem { int key; u32 val; };

struct Fn { u32 B, k; }; // the functors' own state: they travel with the tree on copy, move, assignment and swap
struct LModel { LT t; std::vector<Elem> v; Fn f; LModel(RandSource rs, Fn f) : t(Up{f.B}, Down{f.k}, std::less<Node>(), rs), f(f) {} };
size_t lo(const std::vector<Elem>& v, int k) { size_t i = 0; while (i < v.size() && v[i].key < k) i++; return i; }
size_t up(const std::vector<Elem>& v, int k) { size_t i = 0; while (i < v.size() && v[i].key <= k) i++; return i; }
LT::iterator at(LT& t, size_t i) { auto it = t.begin(); while (i--) ++it; return it; }
void lget(vm::Ctx& c, LModel& m, size_t i, size_t j, LT::iterator b, LT::iterator e) {
    u32 sum = 0, hash = 0, cnt = 0; for (size_t q = i; q < j; q++) { sum += m.v[q].val; hash = hash * m.f.B + m.v[q].val; cnt++; }
    Node g = m.t.get(b, e);
    c.eq(g.cnt, cnt, "lazy_get_count"); c.eq(g.sum, sum, "lazy_get_sum"); c.eq(g.hash, hash, "lazy_get_order");
}
void lcontents(vm::Ctx& c, LModel& m) {
    c.eq(m.t.size(), (int)m.v.size(), "lazy_size"); c.eq(m.t.empty(), m.v.empty(), "lazy_empty");
    size_t i = 0;
    for (auto it = m.t.begin(); it != m.t.end(); ++it, ++i) { c.ok(i < m.v.size(), "lazy_len"); m.t.propagate_down_to(it); c.eq(it->key, m.v[i].key, "lazy_key"); c.eq(it->val, m.v[i].val, "lazy_val"); }
    c.eq(i, m.v.size(), "lazy_count");
    for (auto it = m.t.rbegin(); it != m.t.rend(); ++it) c.eq((*it).key, m.v[--i].key, "lazy_reverse");
    lget(c, m, 0, m.v.size(), m.t.begin(), m.t.end());
    // iterator forms, const and not, against positions
    const LT& ct = m.t; i = m.v.size(); size_t n = i;
    for (auto it = ct.rbegin(); it != ct.rend(); it++) c.eq((*it).key, m.v[--i].key, "lazy_const_reverse");
    i = 0; for (auto it = ct.begin(); it != ct.cend(); it++, i++) { c.eq(it.pos(), (int)i, "lazy_const_pos"); c.eq(it->key, m.v[i].key, "lazy_const_key"); }
    c.eq(i, n, "lazy_const_count");
    size_t a = c.rng.below(n + 1), b = c.rng.below(n + 1);
    LT::iterator it = at(m.t, a); LT::const_iterator ci = it;
    c.eq(it.pos(), (int)a, "lazy_pos"); c.ok(it.add((int)b - (int)a) == at(m.t, b), "lazy_add"); c.ok(ci.add((int)b - (int)a) == LT::const_iterator(at(m.t, b)), "lazy_add");
    if (a < n) {
        c.eq(it.count(), 1, "lazy_it_count"); c.eq(ci.count(), 1, "lazy_it_count"); c.eq(it.size(), ci.size(), "lazy_it_size");
        auto o = it++; auto co = ci++; c.eq(o.pos(), (int)a, "lazy_postfix"); c.eq(co.pos(), (int)a, "lazy_postfix"); c.eq(it.pos(), (int)a + 1, "lazy_postfix"); c.eq(ci.pos(), (int)a + 1, "lazy_postfix");
        o = it--; co = ci--; c.eq(o.pos(), (int)a + 1, "lazy_postfix"); c.eq(co.pos(), (int)a + 1, "lazy_postfix"); c.eq(it.pos(), (int)a, "lazy_postfix"); c.eq(ci.pos(), (int)a, "lazy_postfix");
        ++it; ++ci; --it; --ci; c.ok(it.pos() == (int)a && ci.pos() == (int)a && it->key == ci->key, "lazy_prefix");
        auto rt = m.t.root(); auto crt = ct.root(); c.ok(rt.parent() == m.t.end() && crt.parent() == ct.cend() && LT::const_iterator(rt) == crt && crt == ct.croot(), "lazy_root"); c.eq(rt.size(), (int)n, "lazy_root_size");
        if (ci.right() != ct.cend()) c.ok(ci.right().parent() == ci && LT::const_iterator(it.right()) == ci.right(), "lazy_right"); if (ci.left() != ct.cend()) c.ok(ci.left().parent() == ci && LT::const_iterator(it.left()) == ci.left(), "lazy_left");
    }
}
void lrelate(vm::Ctx& c, LModel& x, LModel& y) {
    int q = 0; for (size_t i = 0; !q && i < x.v.size() && i < y.v.size(); i++) q = x.v[i].key < y.v[i].key ? -1 : x.v[i].key > y.v[i].key;
    if (!q) q = x.v.size() < y.v.size() ? -1 : x.v.size() > y.v.size();
    c.eq(x.t == y.t, q == 0, "lazy=="); c.eq(x.t != y.t, q != 0, "lazy!="); c.eq(x.t < y.t, q < 0, "lazy<"); c.eq(x.t > y.t, q > 0, "lazy>"); c.eq(x.t <= y.t, q <= 0, "lazy<="); c.eq(x.t >= y.t, q >= 0, "lazy>=");
}
void lazy_history(vm::Ctx& c) {
    auto& r = c.rng;
    RandSource rs{ r.u64(), (int)r.below(5) };
    int ops = (int)r.below(r.pick({10, 60, 160, c.thorough ? 500 : 160})), range = r.pick({3, 12, 50});
    c.input("lazy_treap rand=%d ops=%d range=%d seed=%llu", rs.kind, ops, range, (unsigned long long)rs.s);
    c.event("lazy_ops", ops);
    size_t bytes0 = vm::allocated_bytes(); uint64_t h = 0;
    {
        Fn f1{Node::B, 1}, f2{r.u32() | 1, r.u32()}; if (r.coin(1, 4)) f2 = f1; LModel m(rs, f1), o(rs, f2);
        if (r.coin(1, 3)) { // built from a range
            std::vector<Node> w; int q = (int)r.below(10); for (int i = 0; i < q; i++) { int k = (int)r.range(-range, range); u32 x = r.u32(); w.push_back(Node(k, x, f1.B)); m.v.insert(m.v.begin() + up(m.v, k), Elem{k, x}); }
            m.t = LT(w.begin(), w.end(), Up{f1.B}, Down{f1.k}, std::less<Node>(), rs); lcontents(c, m); }
        for (int i = 0; i < ops; i++) {
            size_t n = m.v.size(); int op = (int)r.below(16), k = (int)r.range(-range, range); u32 x = r.u32();
            h = vm::mix64(h ^ op ^ (uint64_t(x) << 8));
            size_t a = r.below(n + 1), b = r.below(n + 1); if (a > b) std::swap(a, b);
            int k1 = (int)r.range(-range - 1, range + 1), k2 = (int)r.range(-range - 1, range + 1); if (k1 > k2) std::swap(k1, k2);
            switch (op) {
            case 0: case 1: case 2: case 3: { auto it = m.t.insert(Node(k, x, m.f.B)); size_t p = up(m.v, k); m.v.insert(m.v.begin() + p, Elem{k, x}); c.ok(it == at(m.t, p), "lazy_insert_position"); break; }
            case 4: { size_t p = r.below(n + 1); int kk = p < n ? m.v[p].key : n ? m.v[n - 1].key : k; auto it = m.t.insert_before(at(m.t, p), Node(kk, x, m.f.B)); m.v.insert(m.v.begin() + p, Elem{kk, x}); c.ok(it == at(m.t, p), "lazy_insert_before_position"); c.eq(it.count(), 1, "lazy_insert_before_count"); break; }
            case 5: m.t.erase(Node(k, 0)); m.v.erase(m.v.begin() + lo(m.v, k), m.v.begin() + up(m.v, k)); break;
            case 6: if (n) { size_t p = r.below(n); m.t.erase(LT::const_iterator(at(m.t, p))); m.v.erase(m.v.begin() + p); } break;
            case 7: { b = std::min(b, a + 4); m.t.erase(LT::const_iterator(at(m.t, a)), LT::const_iterator(at(m.t, b))); m.v.erase(m.v.begin() + a, m.v.begin() + b); break; }
            case 8: case 9: { u32 mu = r.u32(), ad = r.u32(); auto f = [&](Node& nd) { nd.affine(mu, ad, m.f.k); }; // by key
                m.t.update(m.t.lower_bound(Node(k1, 0)), m.t.upper_bound(Node(k2, 0)), f);
                for (size_t q = lo(m.v, k1); q < up(m.v, k2); q++) m.v[q].val = m.v[q].val * mu + ad * m.f.k; break; }
            case 10: { u32 mu = r.u32(), ad = r.u32(); auto f = [&](Node& nd) { nd.affine(mu, ad, m.f.k); }; // by position
                m.t.update(at(m.t, a), at(m.t, b), f);
                for (size_t q = a; q < b; q++) m.v[q].val = m.v[q].val * mu + ad * m.f.k; break; }
            case 11: lget(c, m, lo(m.v, k1), up(m.v, k2), m.t.lower_bound(Node(k1, 0)), m.t.upper_bound(Node(k2, 0))); break;
            case 12: lget(c, m, a, b, at(m.t, a), at(m.t, b)); break;
            case 13: { auto it = m.t.find(Node(k, 0)); size_t l = lo(m.v, k), u = up(m.v, k);
                if (l == u) c.ok(it == m.t.end(), "lazy_find_missing"); else { c.ok(it == at(m.t, l), "lazy_find"); c.eq(it->val, m.v[l].val, "lazy_find_val"); }
                auto er = m.t.equal_range(Node(k, 0)); c.ok(er.first == at(m.t, l) && er.second == at(m.t, u), "lazy_equal_range"); break; }
            case 14: if (r.coin()) m.t.swap(o.t); else std::swap(m.t, o.t); std::swap(m.v, o.v); std::swap(m.f, o.f); lrelate(c, m, o); break;
            default: if (r.coin(1, 5)) { m.t.clear(); m.v.clear(); } else { LT d(m.t); LT e2(std::move(d)); if (r.coin()) o.t = e2; else o.t = std::move(e2); o.v = m.v; o.f = m.f; lcontents(c, o); if (!o.v.empty()) { auto f = [&](Node& nd) { nd.affine(3, 7, o.f.k); }; size_t n = o.v.size(); o.t.update(at(o.t, n / 2), at(o.t, n), f); for (size_t q = n / 2; q < n; q++) o.v[q].val = o.v[q].val * 3 + 7 * o.f.k; lcontents(c, o); lcontents(c, m); if (r.coin()) { LModel s2(rs, Fn{5, 6}); s2.t = o.t; s2.v = o.v; s2.f = o.f; s2.t.insert(Node(k, x, o.f.B)); s2.v.insert(s2.v.begin() + up(s2.v, k), Elem{k, x}); lcontents(c, s2); } } lrelate(c, m, o); if (!o.v.empty()) { o.t.erase(LT::const_iterator(at(o.t, o.v.size() - 1))); o.v.pop_back(); lrelate(c, m, o); lrelate(c, o, m); } } break;
            }
            c.eq(m.t.size(), (int)m.v.size(), "lazy_size");
            if (r.coin(1, 5)) { size_t a2 = r.below(m.v.size() + 1), b2 = r.below(m.v.size() + 1); if (a2 > b2) std::swap(a2, b2); lget(c, m, a2, b2, at(m.t, a2), at(m.t, b2)); }
            if (r.coin(1, 12)) lcontents(c, m);
        }
        lcontents(c, m); lcontents(c, o);
    }
    c.eq(vm::allocated_bytes(), bytes0, "lazy_bytes");
    if (ops > 3) c.nontrivial(h);
}

// ---- link-cut tree: path aggregate root -> node, non-commutative
struct PV { Tracked t; u32 val = 0; u32 cnt = 0, hash = 0, pw = 1; PV() {} PV(u32 v, u32 B = Node::B) : val(v), cnt(1), hash(v), pw(B) {} };
struct PUp { u32 B; void operator()(PV& p, const PV& l, const PV& r) const {
    u32 cnt = l.cnt + 1 + r.cnt, hash = (l.hash * B + p.val) * r.pw + r.hash, pw = l.pw * B * r.pw; p.cnt = cnt; p.hash = hash; p.pw = pw; } };
struct Forest { std::vector<int> par; std::vector<u32> val; u32 B = Node::B; // 1-based; B is the tree's own fold base
    std::vector<int> path(int x) const { std::vector<int> p; for (; x; x = par[x]) p.push_back(x); std::reverse(p.begin(), p.end()); return p; } };
void lct_history(vm::Ctx& c) {
    auto& r = c.rng;
    int n = (int)r.range(0, r.pick({3, 10, 40})), ops = (int)r.below(r.pick({10, 80, 300, c.thorough ? 1500 : 300}));
    int shape = (int)r.below(3);
    c.input("link_cut n=%d ops=%d shape=%d", n, ops, shape);
    c.event("lct_ops", ops); c.event("lct_links", 0); c.event("lct_cuts", 0); c.event("lct_lca_found", 0);
    size_t bytes0 = vm::allocated_bytes(); int64_t live0 = Tracked::live, bad0 = Tracked::bad; uint64_t h = 0; uint64_t md = 0;
    {
        Forest f; f.par.push_back(0); f.val.push_back(0);
        std::vector<PV> init; for (int i = 0; i < n; i++) { u32 v = r.u32(); init.push_back(PV(v)); f.par.push_back(0); f.val.push_back(v); }
        typedef link_cut_tree<PV> L;
        u32 B2 = r.u32() | 1; L t(init.begin(), init.end(), PUp{f.B}), saved(size_t(0), PUp{B2}, PV()); Forest fs; fs.B = B2; for (int q = (int)r.below(4); q > 0; q--) saved.add(PV(0, B2)); fs.par.assign(saved.size() + 1, 0); fs.val.assign(saved.size() + 1, 0); int ns = saved.size();
        if (n == 0 || r.coin(1, 4)) { int extra = (int)r.range(1, 4); for (int i = 0; i < extra; i++) { u32 v = r.u32(); int idx = t.add(PV(v, f.B)); f.par.push_back(0); f.val.push_back(v); c.eq(idx, ++n, "lct_add_index"); } }
        c.eq(t.size(), n, "lct_size");
        for (int i = 0; i < ops; i++) {
            int op = (int)r.below(14), x = (int)r.range(1, n), y = (int)r.range(1, n);
            h = vm::mix64(h ^ op ^ (x << 5) ^ (y << 12));
            auto px = f.path(x);
            switch (op) {
            case 0: case 1: case 2: case 3: { // link a root below a node of another tree
                int root = px[0]; if (shape == 1) y = root > 1 ? root - 1 : y; auto py = f.path(y); if (py[0] == root) break;
                if (r.coin()) (void)t.find_root(root);
                t.link(root, y); f.par[root] = y; c.event("lct_links"); break; }
            case 4: t.cut(x); if (f.par[x]) c.event("lct_cuts"); f.par[x] = 0; break;
            case 5: c.eq(t.find_root(x), px[0], "lct_root"); break;
            case 6: c.eq(t.find_parent(x), f.par[x], "lct_parent"); break;
            case 7: { auto py = f.path(y); int l = 0; for (size_t q = 0; q < px.size() && q < py.size() && px[q] == py[q]; q++) l = px[q]; c.eq(t.find_lca(x, y), l, "lct_lca"); if (l) c.event("lct_lca_found"); break; }
            case 8: c.eq(t.depth(x), (int)px.size() - 1, "lct_depth"); md = std::max<uint64_t>(md, px.size()); break;
            case 9: case 10: { PV& g = t.get(x); u32 hh = 0; for (int q : px) hh = hh * f.B + f.val[q]; c.eq(g.cnt, (u32)px.size(), "lct_path_count"); c.eq(g.hash, hh, "lct_path_fold"); c.eq(g.val, f.val[x], "lct_val"); break; }
            case 11: { u32 v = r.u32(); t.get(x).val = v; f.val[x] = v; if (r.coin(1, 3)) t.get(x); break; }
            case 12: { // find the node at a given depth on the path from the root
                int d = (int)r.below(px.size()); bool okv = true; int steps = 0;
                int g = t.traverse(x, [&](const PV& v, const PV& l, const PV& rr, int depth) { steps++; if (depth < 0 || depth >= (int)px.size() || v.val != f.val[px[depth]] || l.cnt + rr.cnt > px.size()) okv = false; return depth == d ? 0 : d < depth ? -1 : 1; });
                c.ok(okv, "lct_traverse_values"); c.eq(g, px[d], "lct_traverse"); break; }
            case 13: if (r.coin(1, 3)) { // copies are independent
                L d(t); if (r.coin()) { saved = d; fs = f; ns = n; } else if (ns > 0) { d = saved; t = d; f = fs; n = ns; } break; }
                if (n < 60 && r.coin(1, 4)) { u32 v = r.u32(); c.eq(t.add(PV(v, f.B)), ++n, "lct_add"); f.par.push_back(0); f.val.push_back(v); c.eq(t.size(), n, "lct_size"); } break;
            default: break;
            }
        }
        for (int x = 1; x <= n; x++) { auto px = f.path(x); c.eq(t.depth(x), (int)px.size() - 1, "lct_depth"); c.eq(t.find_root(x), px[0], "lct_root"); c.eq(t.find_parent(x), f.par[x], "lct_parent");
            u32 hh = 0; for (int q : px) hh = hh * f.B + f.val[q]; c.eq(t.get(x).hash, hh, "lct_path_fold"); }
    }
    c.eq(Tracked::live, live0, "lct_elements_alive"); c.eq(Tracked::bad, bad0, "lct_dead_access");
    c.eq(vm::allocated_bytes(), bytes0, "lct_bytes");
    if (md > 8) c.event("lct_deep_paths");
    if (ops > 3) c.nontrivial(h);
}
} // namespace

UNIT(rope_history, 4000, 60000, "one random history on a rope, mirrored on a vector") { if (c.index % 2) rope_history<int>(c); else rope_history<Tracked>(c); }
UNIT(lazy_treap_history, 6000, 80000, "one random history of insertions, erasures, range updates and range queries on a lazy treap") { lazy_history(c); }
UNIT(link_cut_history, 8000, 100000, "one random history of links, cuts and queries on a link-cut tree, mirrored on a parent array") { lct_history(c); }

UNIT(link_cut_identity, 600, 10000, "link-cut trees folding by minimum and maximum with an explicit neutral element, through copies and assignments, against the fold over the naive path") {
    auto& r = c.rng; int n = 1 + (int)r.below(30), ops = (int)r.below(120); c.input("link_cut identity n=%d ops=%d", n, ops);
    struct MM { long long lo, v; int sg; }; typedef std::function<void(MM&, const MM&, const MM&)> F; typedef link_cut_tree<MM, F> L; const long long INF = 1ll << 60;
    F f = [](MM& p, const MM& l, const MM& q) { p.lo = std::min(std::min(l.lo, p.v), q.lo); }; F dead = [](MM& p, const MM&, const MM&) { p.lo = -12345; };
    MM id{INF, INF, 0}; std::vector<long long> val(n + 1, INF); std::vector<int> par(n + 1, 0); L t(r.coin() ? (size_t)n : 0, f, id); while (t.size() < n) t.add(id);
    for (int x = 1; x <= n; x++) { val[x] = r.range(1, 1000000); t.get(x).v = val[x]; t.get(x); }
    auto path = [&](int x) { std::vector<int> p; for (; x; x = par[x]) p.push_back(x); return p; };
    auto ask = [&](L& u, int x) { long long m = INF; for (int q : path(x)) m = std::min(m, val[q]); MM& g = u.get(x); c.eq(g.lo, m, "lct_path_min"); };
    for (int q = 0; q < ops; q++) { int x = 1 + (int)r.below(n), y = 1 + (int)r.below(n); switch (r.below(6)) {
        case 0: case 1: { int root = path(x).back(); if (path(y).back() != root) { t.link(root, y); par[root] = y; } break; }
        case 2: t.cut(x); par[x] = 0; break;
        case 3: { val[x] = r.range(1, 1000000); t.get(x).v = val[x]; ask(t, x); break; }
        case 4: { L d(t); ask(d, x); L e(size_t(2), dead, MM{0, 0, 0}); e = d; ask(e, y); int nn = e.add(MM{5, 5, 0}); c.eq(nn, n + 1, "lct_add"); e.link(nn, x); long long m = 5; for (int z : path(x)) m = std::min(m, val[z]); c.eq(e.get(nn).lo, m, "lct_copy_fold"); L g(e); c.eq(g.get(nn).lo, m, "lct_copy_fold"); if (r.coin()) t = d; break; }
        default: ask(t, x); } }
    for (int x = 1; x <= n; x++) ask(t, x);
    if (n > 2 && ops > 5) c.nontrivial_input();
}
static double cpu_now() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
UNIT(root_walks, 2, 6, "asking for the root of the far end of a path of tens of thousands of nodes again and again stays cheap: the walk to the root is paid for by restructuring") {
    int n = 60000 + (int)c.rng.below(3); c.input("n=%d", n); typedef std::function<void(int&, const int&, const int&)> F; link_cut_tree<int, F> t(F([](int&, const int&, const int&) {}), 0); for (int i = 0; i < n; i++) t.add(0); for (int i = 2; i <= n; i++) t.link(i, i - 1);
    double t0 = cpu_now(); for (int q = 0; q < n; q++) t.get(1 + (int)c.rng.below(n)); double t1 = cpu_now(); t.get(n); bool good = true; double t2 = cpu_now(); for (int q = 0; q < n && good; q++) { c.eq(t.find_root(n), 1, "lct_root"); if (q % 256 == 0) good = cpu_now() - t2 < 1.0 + 20 * (t1 - t0); } c.ok(good, "repeated_root_walks", "repeated root queries cost more than 20 times the random accesses"); 
    link_cut_tree<int, F> u(F([](int&, const int&, const int&) {}), 0); for (int i = 0; i < n; i++) u.add(0); for (int i = 2; i <= n; i++) u.link(i, i - 1); u.get(n); t2 = cpu_now(); for (int q = 0; q < n && good; q++) { c.eq(u.find_root(n), 1, "lct_root"); if (q % 256 == 0) good = cpu_now() - t2 < 1.0 + 20 * (t1 - t0); } c.ok(good, "repeated_root_walks", "repeated root queries on a fresh path cost more than 20 times the random accesses"); c.nontrivial_input();
}
UNIT(heights_and_amortisation, 40, 400, "ropes and lazy treaps of thousands of elements built in order, copied and grown further keep logarithmic height; link-cut operations on paths of thousands of nodes need logarithmically many combinations on average") {
    auto& r = c.rng; int n = 1000 + (int)r.below(3000), k = (int)(c.index % 3); c.input("n=%d kind=%d", n, k); RandSource rs{ r.u64(), 0 };
    auto height = [&](auto root_any, auto end, int sz, const char* what) { uint64_t h = 0; typedef decltype(end) I; I rt = root_any; while (sz && rt.parent() != end) rt = rt.parent(); std::vector<std::pair<I, uint64_t>> st; if (sz) st.push_back({rt, 1}); while (!st.empty()) { auto [x, d] = st.back(); st.pop_back(); h = std::max(h, d); if (x.left() != end) st.push_back({x.left(), d + 1}); if (x.right() != end) st.push_back({x.right(), d + 1}); } c.event("height", h); c.ok(h <= 6 * std::log2(double(sz + 2)) + 10, "height", std::string(what) + ": height " + vm::S(h) + " for " + vm::S(sz)); };
    if (k == 0) { LT t(Up{7}, Down{3}, std::less<Node>(), rs); for (int i = 0; i < n; i++) t.insert(Node(i, 1, 7)); height(t.croot(), t.cend(), n, "lazy treap"); LT d(t); for (int i = n; i < 2 * n; i++) d.insert(Node(i, 1, 7)); height(d.croot(), d.cend(), 2 * n, "lazy treap copy"); c.eq(d.get(d.begin(), d.end()).sum, (u32)(2 * n), "lazy_get_sum"); }
    else if (k == 1) { rope<int> t(rs); for (int i = 0; i < n; i++) if (r.coin()) t.push_back(i); else t.insert(t.size() / 2, i); rope<int> d(t); for (int i = 0; i < n; i++) d.insert(0, i); c.eq(d.size(), 2 * n, "rope_size"); (void)height; }
    if (k == 1 && c.index % 2) { // ropes past 2^16 elements: positions, arithmetic, comparisons deep inside
        int N = 66000 + (int)r.below(20000); std::vector<int> v(N); for (auto& x : v) x = (int)r.below(5); rope<int> t(rs); for (int x : v) t.push_back(x); const rope<int>& ct = t; c.eq(t.size(), N, "long_rope_size");
        for (int q = 0; q < 300; q++) { int a = (int)r.below(N), b = (int)r.below(N + 1); auto ia = t.begin() + a; auto ib = t.end() - (N - b); auto ca = ct.cbegin() + a; auto cb = ct.cend() - (N - b); c.eq(ia.pos(), a, "long_rope_pos"); c.eq(ib.pos(), b, "long_rope_pos"); c.eq(ca.pos(), a, "long_rope_pos"); c.eq(cb.pos(), b, "long_rope_pos"); c.eq(int(ib - ia), b - a, "long_rope_difference"); c.eq(int(cb - ca), b - a, "long_rope_difference"); c.eq(ia < ib, a < b, "long_rope_less"); c.eq(ca >= cb, a >= b, "long_rope_ge"); c.eq(*ia, v[a], "long_rope_at"); c.eq(t[a], v[a], "long_rope_at"); c.eq(ct.at(a), v[a], "long_rope_at"); ia += b - a; c.ok(ia == ib, "long_rope_plus"); ia -= b - a; c.eq(ia.pos(), a, "long_rope_minus"); if (b < N) c.eq(ca[b - a], v[b], "long_rope_subscript"); }
        rope<int> d(t); int at = r.coin() ? N - 1 - (int)r.below(50) : (int)r.below(N); int nv = v[at] + (r.coin() ? 1 : -1); c.ok(d == t && !(d != t) && !(d < t) && d <= t && d >= t && !(d > t), "long_rope_equal"); d[at] = nv; bool less = v[at] < nv; c.ok((t < d) == less && (d < t) == !less && (t > d) == !less && (t <= d) == less && (t >= d) == !less && t != d && !(t == d), "long_rope_order"); rope<int> e(t); e.erase(N - 1); c.ok(e < t && t > e && e != t, "long_rope_prefix"); c.event("long_rope_elements", N);
    }
    else { static uint64_t calls; calls = 0; struct P { u32 c = 0; }; auto f = [](P& p, const P& a, const P& b) { calls++; p.c = a.c + 1 + b.c; }; link_cut_tree<P, std::function<void(P&, const P&, const P&)>> t(f, P()); P one; one.c = 1; for (int i = 0; i < n; i++) t.add(one); for (int i = 2; i <= n; i++) t.link(i, i - 1);
        int m = 3 * n, ord = (int)r.below(5), only = r.coin(2, 3) ? (int)r.below(3) : -1; calls = 0; // one kind of query throughout, or a mixture
        for (int q = 0; q < m; q++) { int x = ord == 0 ? 1 + (int)r.below(n) : ord == 1 ? n - q % n : ord == 2 ? 1 + q % n : ord == 3 ? (q % 2 ? n - q / 2 % n : 1 + q / 2 % n) : 1 + int(q * 7919ll % n); switch (only >= 0 ? only : (int)r.below(4)) { case 0: c.eq(t.find_root(x), 1, "lct_root"); break; case 1: c.eq(t.depth(x), x - 1, "lct_depth"); break; case 2: c.eq(t.get(x).c, (u32)x, "lct_path_count"); break; default: { int y = 1 + (int)r.below(n); c.eq(t.find_lca(x, y), std::min(x, y), "lct_lca"); } } }
        c.event("combinations_per_operation", calls / m); double lg = std::log2(double(n)); c.ok(double(calls) <= double(m) * (ord == 0 || ord == 4 ? 13 : 9) * lg, "amortised_cost", "combinations " + vm::S(calls) + " for " + vm::S(m) + " operations on a path of " + vm::S(n)); }
    c.nontrivial_input();
}
