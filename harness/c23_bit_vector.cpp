// C23: bit vectors against a plain array of bits, every word type, offset and length.
#include "vm.h"
#include "altruct/structure/container/bit_vector.h"

using altruct::container::bit_vector;

namespace {
typedef std::vector<int> Bits;
std::string text(const Bits& b, size_t i, size_t j) { std::string s; for (; i < j; i++) s += char('0' + b[i]); return s; }

template<typename W> struct P { // a vector and its model
    bit_vector<W> v; Bits b;
    explicit P(size_t n = 0) : v(n), b(n, 0) {}
};
template<typename W> void same(vm::Ctx& c, const P<W>& p, const char* tag) {
    c.eq(p.v.size(), p.b.size(), tag);
    std::string s; for (size_t i = 0; i < p.b.size(); i++) s += char('0' + p.v.bit_at(i));
    c.eq(s, text(p.b, 0, p.b.size()), tag);
}
template<typename W> P<W> random_p(vm::Rng& r, size_t n) {
    Bits b(n); int kind = (int)r.below(5);
    for (size_t i = 0; i < n; i++) b[i] = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? (int)r.below(2) : kind == 3 ? r.coin(1, 12) : int(i / (1 + n / 5) % 2);
    P<W> p; p.v = bit_vector<W>(b.begin(), b.end()); p.b = b; return p;
}
int op_bit(int o, int x, int y) { switch (o) { case 0: return y; case 1: return !y; case 2: return x & y; case 3: return x | y; case 4: return x ^ y; case 5: return !(x & y); case 6: return !(x | y); default: return x == y; } }
template<typename W> void apply_op(int o, bit_vector<W>& v1, size_t b1, const bit_vector<W>& v2, size_t b2, size_t len) {
    typedef bit_vector<W> V;
    switch (o) {
    case 0: V::apply(v1, b1, v2, b2, len, V::op_set); break;
    case 1: V::apply(v1, b1, v2, b2, len, V::op_setn); break;
    case 2: V::apply(v1, b1, v2, b2, len, V::op_and); break;
    case 3: V::apply(v1, b1, v2, b2, len, V::op_or); break;
    case 4: V::apply(v1, b1, v2, b2, len, V::op_xor); break;
    case 5: V::apply(v1, b1, v2, b2, len, V::op_nand); break;
    case 6: V::apply(v1, b1, v2, b2, len, V::op_nor); break;
    default: V::apply(v1, b1, v2, b2, len, V::op_eq); break;
    }
}
int cmp3(const Bits& x, const Bits& y) { return x < y ? -1 : y < x ? 1 : 0; }

template<typename W> void ranges(vm::Ctx& c, P<W>& p, P<W>& q, size_t a, size_t b) {
    typedef bit_vector<W> V; auto& r = c.rng; size_t n = p.b.size();
    c.eq(p.v.to_string(a, b), text(p.b, a, b), "to_string");
    // scan
    std::string s; size_t expect = 0; bool pos_ok = true;
    p.v.scan(a, b, [&](W w, size_t pos, int l) { pos_ok &= pos == expect && l >= 0 && l <= V::L; expect += l; for (int k = 0; k < l; k++) s += char('0' + int((w >> k) & 1)); return true; });
    c.ok(pos_ok, "scan_positions"); c.eq(s, text(p.b, a, b), "scan");
    // second range, in q and in p itself
    size_t len = b - a;
    if (q.b.size() >= len) {
        size_t d = r.below(q.b.size() - len + 1), dist = 0;
        for (size_t i = 0; i < len; i++) dist += p.b[a + i] != q.b[d + i];
        c.eq(V::hamming_distance(p.v, a, q.v, d, len), dist, "hamming");
    }
    size_t d = r.below(q.b.size() + 1), e = d + r.below(q.b.size() - d + 1);
    if (r.coin() && q.b.size() - d >= len) e = d + len;
    c.eq(V::compare(p.v, a, b, q.v, d, e), cmp3(Bits(p.b.begin() + a, p.b.begin() + b), Bits(q.b.begin() + d, q.b.begin() + e)), "compare");
    { size_t x = r.below(n - len + 1); c.eq(V::compare(p.v, a, b, p.v, x, x + len), cmp3(Bits(p.b.begin() + a, p.b.begin() + b), Bits(p.b.begin() + x, p.b.begin() + x + len)), "compare_self"); }
}
template<typename W> void relate(vm::Ctx& c, const P<W>& p, const P<W>& q) {
    int z = cmp3(p.b, q.b);
    c.eq(p.v == q.v, z == 0, "=="); c.eq(p.v != q.v, z != 0, "!="); c.eq(p.v < q.v, z < 0, "<"); c.eq(p.v > q.v, z > 0, ">"); c.eq(p.v <= q.v, z <= 0, "<="); c.eq(p.v >= q.v, z >= 0, ">=");
}

template<typename W> void history(vm::Ctx& c) {
    typedef bit_vector<W> V; auto& r = c.rng; const int L = V::L;
    auto len = [&]() -> size_t { switch (r.below(5)) { case 0: return r.below(4); case 1: return r.below(2 * L + 2); case 2: return size_t(L) * r.below(5); case 3: return std::max<int64_t>(0, int64_t(L) * int64_t(r.below(5)) + r.range(-2, 2)); default: return r.below(6 * L); } };
    P<W> p = random_p<W>(r, len()), q = random_p<W>(r, len());
    int ops = (int)r.range(1, r.pick({1, 4, 12, 40}));
    c.input("W=%d n=%zu m=%zu ops=%d", L, p.b.size(), q.b.size(), ops); c.note("p=" + text(p.b, 0, p.b.size()) + " q=" + text(q.b, 0, q.b.size()));
    same(c, p, "construct");
    uint64_t h = vm::hash_str(text(p.b, 0, p.b.size()).c_str());
    for (int i = 0; i < ops; i++) {
        size_t n = p.b.size(); int op = (int)r.below(22);
        size_t a = r.below(n + 1), b = r.below(n + 1); if (a > b) std::swap(a, b);
        if (r.coin(1, 6)) a = a / L * L; if (r.coin(1, 6)) b = std::max(a, b / L * L);
        char nb[96]; snprintf(nb, sizeof nb, " #%d n=%zu [%zu,%zu)", op, n, a, b); if (i < 6) c.note(nb);
        h = vm::mix64(h ^ (op * 1000003ull + a * 1009 + b));
        switch (op) {
        case 0: if (n) { size_t x = r.below(n); int v = (int)r.range(-1, 1); p.v.set(x, v); p.b[x] = v < 0 ? !p.b[x] : v; } break;
        case 1: if (n) { size_t x = r.below(n), y = r.below(n); int v = (int)r.below(2);
            switch (r.below(7)) { case 0: p.v[x] = v; p.b[x] = v; break; case 1: p.v[x] ^= v; p.b[x] ^= v; break; case 2: p.v[x] |= v; p.b[x] |= v; break; case 3: p.v[x] &= v; p.b[x] &= v; break;
            case 4: p.v[x] = p.v[y]; p.b[x] = p.b[y]; break; case 5: p.v[x] ^= p.v[y]; p.b[x] ^= p.b[y]; break; default: c.eq(int(p.v[x]), p.b[x], "proxy_read"); } } break;
        case 2: { int v = (int)r.below(2); p.v.push_back(v); p.b.push_back(v); break; }
        case 3: if (n) { p.v.pop_back(); p.b.pop_back(); } break;
        case 4: { size_t m = len(); p.v.resize(m); p.b.resize(m, 0); break; }
        case 5: { size_t m = len(); p.v.reserve(m); if (p.b.size() < m) p.b.resize(m, 0); break; }
        case 6: { int o = (int)r.below(4);
            if (o == 0) p.v.apply(a, b, V::op_set0); else if (o == 1) p.v.apply(a, b, V::op_set1); else if (o == 2) p.v.apply(a, b, V::op_nop); else p.v.apply(a, b, V::op_flip);
            for (size_t x = a; x < b; x++) p.b[x] = o == 0 ? 0 : o == 1 ? 1 : o == 2 ? p.b[x] : !p.b[x]; break; }
        case 7: case 8: if (q.b.size() >= b - a) { // from the other vector
            size_t d = r.below(q.b.size() - (b - a) + 1); int o = (int)r.below(8);
            apply_op(o, p.v, a, q.v, d, b - a); for (size_t x = 0; x < b - a; x++) p.b[a + x] = op_bit(o, p.b[a + x], q.b[d + x]); } break;
        case 9: { // overlapping, same vector
            size_t d = r.below(n - (b - a) + 1); int o = (int)r.below(8); Bits old = p.b;
            apply_op(o, p.v, a, p.v, d, b - a); for (size_t x = 0; x < b - a; x++) p.b[a + x] = op_bit(o, old[a + x], old[d + x]); break; }
        case 10: p.v.reverse(a, b); std::reverse(p.b.begin() + a, p.b.begin() + b); break;
        case 11: { size_t cnt = r.below(2 * (b - a) + 3); p.v.rotate_left(a, b, cnt); if (b > a) std::rotate(p.b.begin() + a, p.b.begin() + a + cnt % (b - a), p.b.begin() + b); break; }
        case 12: { size_t cnt = r.below(2 * (b - a) + 3); p.v.rotate_right(a, b, cnt); if (b > a) std::rotate(p.b.begin() + a, p.b.begin() + (b - cnt % (b - a)), p.b.begin() + b); break; }
        case 13: { size_t x[4] = { r.below(n + 1), r.below(n + 1), r.below(n + 1), r.below(n + 1) }; std::sort(x, x + 4);
            if (r.coin()) p.v.swap(x[0], x[1], x[2], x[3]); else p.v.swap(x[2], x[3], x[0], x[1]);
            if (x[0] == x[2]) break; // both empty or first empty at the same place
            Bits o(p.b.begin(), p.b.begin() + x[0]); o.insert(o.end(), p.b.begin() + x[2], p.b.begin() + x[3]); o.insert(o.end(), p.b.begin() + x[1], p.b.begin() + x[2]); o.insert(o.end(), p.b.begin() + x[0], p.b.begin() + x[1]); o.insert(o.end(), p.b.begin() + x[3], p.b.end()); p.b = o; break; }
        case 14: case 15: { int k = (int)(r.coin() ? r.below(n + 3) : r.coin() ? L * r.below(n / L + 3) : r.below(2 * L)); bool left = op == 14; bool inplace = r.coin();
            P<W> res; res.b.assign(n, 0); for (size_t x = 0; x < n; x++) { if (left && x >= size_t(k)) res.b[x] = p.b[x - k]; if (!left && x + k < n) res.b[x] = p.b[x + k]; }
            c.note(" shift " + std::to_string(k));
            if (inplace) { if (left) p.v <<= k; else p.v >>= k; p.b = res.b; } else { res.v = left ? p.v << k : p.v >> k; same(c, res, left ? "shl" : "shr"); same(c, p, "shift_operand"); p = res; } break; }
        case 16: { int o = (int)r.below(3); P<W> res; size_t m = std::max(n, q.b.size()); res.b.assign(m, 0);
            for (size_t x = 0; x < m; x++) { int u = x < n ? p.b[x] : 0, w = x < q.b.size() ? q.b[x] : 0; res.b[x] = o == 0 ? u & w : o == 1 ? u | w : u ^ w; }
            if (r.coin()) { res.v = o == 0 ? p.v & q.v : o == 1 ? p.v | q.v : p.v ^ q.v; same(c, p, "bool_operand"); p = res; }
            else { if (o == 0) p.v &= q.v; else if (o == 1) p.v |= q.v; else p.v ^= q.v; p.b = res.b; } same(c, q, "bool_operand2"); break; }
        case 17: { P<W> res; res.v = ~p.v; res.b = p.b; for (int& x : res.b) x = !x; same(c, res, "not"); if (r.coin()) p = res; break; }
        case 18: if (n) { // whole words at any position inside
            size_t x = r.below(n); W w = p.v.word_at(x); std::string g; for (size_t k = 0; k < size_t(L) && x + k < n; k++) g += char('0' + int((w >> k) & 1)); c.eq(g, text(p.b, x, std::min(n, x + L)), "word_at"); } break;
        case 19: std::swap(p, q); break;
        case 20: if (r.coin()) { q = p; if (!q.b.empty() && r.coin()) { size_t x = r.below(q.b.size()); q.v.set(x, -1); q.b[x] ^= 1; } if (r.coin(1, 3)) { q.v.push_back(0); q.b.push_back(0); } } relate(c, p, q); { P<W> d; d.v = p.v.clone(); d.b = p.b; relate(c, p, d); } break;
        default: ranges(c, p, q, a, b); break;
        }
        same(c, p, "bits"); 
    }
    relate(c, p, q); ranges(c, p, q, 0, p.b.size());
    // hidden bits must not reappear
    size_t n = p.b.size(); p.v.resize(n + 2 * L); p.b.resize(n + 2 * L, 0); same(c, p, "grown");
    if (n > 1) c.nontrivial(h);
}
template<typename W> void all_ranges(vm::Ctx& c, size_t n, size_t a, size_t b) {
    // one (size, begin, end): reversal, copies to every offset, rotations
    typedef bit_vector<W> V; auto& r = c.rng;
    P<W> p = random_p<W>(r, n);
    c.event("ranges");
    { P<W> t = p; t.v.reverse(a, b); std::reverse(t.b.begin() + a, t.b.begin() + b); same(c, t, "reverse"); }
    for (size_t d = 0; d + (b - a) <= n; d++) {
        P<W> t = p; V::apply(t.v, d, t.v, a, b - a, V::op_set); std::copy(p.b.begin() + a, p.b.begin() + b, t.b.begin() + d); same(c, t, "self_copy");
        size_t dist = 0; for (size_t i = 0; i < b - a; i++) dist += p.b[a + i] != p.b[d + i];
        c.eq(V::hamming_distance(p.v, a, p.v, d, b - a), dist, "hamming");
        c.eq(V::compare(p.v, a, b, p.v, d, d + b - a), cmp3(Bits(p.b.begin() + a, p.b.begin() + b), Bits(p.b.begin() + d, p.b.begin() + d + b - a)), "compare");
    }
    { P<W> t = p; size_t k = r.below(b - a + 1); t.v.rotate_left(a, b, k); if (b > a) std::rotate(t.b.begin() + a, t.b.begin() + a + k % (b - a), t.b.begin() + b); same(c, t, "rotate"); }
    { P<W> t = p; t.v.apply(a, b, V::op_flip); for (size_t i = a; i < b; i++) t.b[i] ^= 1; same(c, t, "flip"); }
    c.eq(p.v.to_string(a, b), text(p.b, a, b), "to_string");
}
} // namespace

UNIT(history8, 6000, 100000, "one random history on vectors of 8-bit words") { history<uint8_t>(c); }
UNIT(history16, 4000, 50000, "one random history on vectors of 16-bit words") { history<uint16_t>(c); }
UNIT(history32, 6000, 80000, "one random history on vectors of 32-bit words") { history<uint32_t>(c); }
UNIT(history64, 6000, 100000, "one random history on vectors of 64-bit words") { history<uint64_t>(c); }
UNIT(exhaustive_ranges8, 60, 200, "every range of one size, with every destination of that range") {
    size_t n = c.index % (c.thorough ? 100 : 34); c.input("n=%zu", n);
    for (size_t a = 0; a <= n; a++) for (size_t b = a; b <= n; b += 1 + (n > 50 ? c.rng.below(4) : 0)) all_ranges<uint8_t>(c, n, a, b);
    c.nontrivial(n);
}
UNIT(ranges64, 400, 4000, "random ranges of 64-bit vectors with every destination") {
    size_t n = c.rng.pick({63, 64, 65, 127, 128, 129, 191, 192, 200}); size_t a = c.rng.below(n + 1), b = a + c.rng.below(n - a + 1);
    c.input("n=%zu [%zu,%zu)", n, a, b); all_ranges<uint64_t>(c, n, a, b); c.nontrivial_input();
}
UNIT(all_shifts, 300, 3000, "all shift amounts 0..size+2*word of one vector") {
    size_t n = c.rng.below(300); c.input("n=%zu", n);
    auto go = [&](auto w) { typedef decltype(w) W; P<W> p = random_p<W>(c.rng, n);
        for (size_t k = 0; k <= n + 2 * bit_vector<W>::L; k += 1 + (k > 20 ? c.rng.below(3) : 0)) { P<W> l(n), g(n);
            for (size_t x = 0; x < n; x++) { if (x >= k) l.b[x] = p.b[x - k]; if (x + k < n) g.b[x] = p.b[x + k]; }
            l.v = p.v << int(k); g.v = p.v >> int(k); same(c, l, "shl"); same(c, g, "shr"); } };
    if (c.index % 2) go(uint8_t()); else go(uint64_t());
    c.nontrivial_input();
}
