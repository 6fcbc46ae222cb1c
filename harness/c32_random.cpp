// C32: generators against independently written reference streams; ranges, reachability of both ends, absence of bias.
#include "vm.h"
#include <random>
#include <sstream>
#include <math.h>
#include <memory>
#include "altruct/algorithm/random/mersenne_twister.h"
#include "altruct/algorithm/random/xorshift.h"
#include "altruct/algorithm/random/random.h"

using namespace altruct::random;

namespace {
typedef vm::u128 u128;

// ---- reference Mersenne Twister: mt19937ar, transcribed from its recurrences with a plain index (no block reload)
struct ref_mt {
    std::vector<uint32_t> x; // whole sequence so far; x[k+624] = f(x[k], x[k+1], x[k+397])
    size_t k = 0;
    void init(uint32_t s) { x.assign(624, 0); x[0] = s; for (uint32_t i = 1; i < 624; i++) x[i] = 1812433253u * (x[i - 1] ^ (x[i - 1] >> 30)) + i; k = 0; }
    void init_array(const std::vector<uint32_t>& key) {
        init(19650218u); uint32_t i = 1, j = 0;
        for (size_t n = std::max<size_t>(624, key.size()); n; n--) { x[i] = (x[i] ^ ((x[i - 1] ^ (x[i - 1] >> 30)) * 1664525u)) + key[j] + j; if (++i >= 624) { x[0] = x[623]; i = 1; } if (++j >= key.size()) j = 0; }
        for (int n = 623; n; n--) { x[i] = (x[i] ^ ((x[i - 1] ^ (x[i - 1] >> 30)) * 1566083941u)) - i; if (++i >= 624) { x[0] = x[623]; i = 1; } }
        x[0] = 0x80000000u;
    }
    uint32_t next() {
        uint32_t y = (x[k] & 0x80000000u) | (x[k + 1] & 0x7fffffffu), v = x[k + 397] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0u); x.push_back(v); k++;
        v ^= v >> 11; v ^= (v << 7) & 0x9d2c5680u; v ^= (v << 15) & 0xefc60000u; return v ^ (v >> 18);
    }
};
struct ref_xs64 { uint64_t x; uint64_t next() { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return uint64_t(u128(x) * 2685821657736338717ull); } };
// x[n] = f(x[n-1], x[n-16]): the first draw combines s[0] (as the latest) with s[1] (as the oldest)
struct ref_xs1024 { std::vector<uint64_t> q; ref_xs1024() {} explicit ref_xs1024(const std::vector<uint64_t>& s) : q(s.begin() + 1, s.end()) { q.push_back(s[0]); } uint64_t next() { uint64_t a = q[q.size() - 1], b = q[q.size() - 16]; b ^= b << 31; b ^= b >> 11; a ^= a >> 30; q.push_back(a ^ b); return uint64_t(u128(a ^ b) * 1181783497276652981ull); } };

void check_freq(vm::Ctx& c, uint64_t hits, uint64_t n, double p, const char* tag) { c.checks(); double sd = sqrt((double)n * p * (1 - p)) + 1; if (fabs((double)hits - (double)n * p) > 7.5 * sd) c.fail(tag, std::string(tag) + ": frequency " + std::to_string(hits) + "/" + std::to_string(n) + ", expected share " + vm::str(p)); }

// a generator under test with its reference
struct mt_pair { mtrand g; ref_mt r; };

template<typename U, typename V> void range_case(vm::Ctx& c, U val, V lo, V hi) { V v = integer_to_range<U, V>(val, lo, hi); c.input("integer_to_range %zu/%zu %s [%s,%s]", sizeof(U), sizeof(V), vm::str(val).c_str(), vm::str(lo).c_str(), vm::str(hi).c_str()); c.ok(lo <= v && v <= hi, "integer_to_range:bounds", vm::str(v)); }
template<typename U> void unbiased(vm::Ctx& c, U lo, U hi, int rejects) {
    // result as a function of a single accepted draw: every value of the range is the image of the same number of draws
    struct second {};
    std::vector<uint32_t> hist((size_t)(U)(hi - lo) + 1); uint64_t acc = 0, total = 1ull << (8 * sizeof(U)); int rejected = -1;
    for (uint64_t v = 0; v < total; v++) {
        int calls = 0; U res; bool used1 = true;
        try { res = uniform_next<U>([&]() -> U { if (calls++) throw second(); return (U)v; }, lo, hi); } catch (second) { used1 = false; rejected = (int)v; }
        if (!used1) continue;
        if (!(lo <= res && res <= hi)) c.fail("uniform_next:bounds", "uniform_next out of range " + vm::str(res)); hist[(U)(res - lo)]++; acc++;
    }
    c.checks(total); for (auto h : hist) c.eq(h, hist[0], "uniform_next:unbiased"); c.ok(acc > 0 && hist[0] > 0, "uniform_next:reachable"); c.ok(acc * 2 > total, "uniform_next:acceptance");
    c.event("accepted draws", acc); c.event("ranges");
    if (rejected >= 0) { // after some rejected draws the outcome is still uniform: what is accepted as a first draw is what is accepted later
        c.event("ranges with rejection"); std::fill(hist.begin(), hist.end(), 0); 
        uint64_t st = total > 256 ? 1 + c.rng.below(3) : 1; (void)st;
        for (uint64_t v = 0; v < total; v++) { int calls = 0; U res; bool ok = true; try { res = uniform_next<U>([&]() -> U { int k = calls++; if (k < rejects) return (U)rejected; if (k > rejects) throw second(); return (U)v; }, lo, hi); } catch (second) { ok = false; } if (ok) { if (!(lo <= res && res <= hi)) c.fail("uniform_next:bounds", "out of range after rejections"); hist[(U)(res - lo)]++; } }
        for (auto h : hist) c.eq(h, hist[0], "uniform_next:unbiased after rejections");
        uint64_t calls = 0; U res = uniform_next<U>([&]() -> U { if (++calls > 100000) c.fail("uniform_next:termination", "more than 100000 draws"); return (U)rejected; }, lo, hi); c.ok(lo <= res && res <= hi, "uniform_next:bounded draws stay in range"); c.event("adversarial sources");
    }
}
}

UNIT(mt_histories, 400, 60000, "a history of draws, bounded draws, reals, copies, assignments, saves and restores over a set of Mersenne Twisters, each with its own reference stream") {
    auto& r = c.rng; std::vector<std::unique_ptr<mt_pair>> v;
    auto fresh = [&]() {
        std::unique_ptr<mt_pair> p; 
        if (r.coin()) { uint32_t s = (uint32_t)r.edgyu(~0u); p.reset(new mt_pair{ mtrand(s), ref_mt() }); p->r.init(s); c.note(" seed " + std::to_string(s)); std::mt19937 std_mt(s); mtrand q(s); for (int i = 0; i < 3; i++) c.eq(q.randInt(), (uint32_t)std_mt(), "mt:standard library stream"); }
        else { size_t n = r.pick({1, 2, 3, 4, 10, 622, 623, 624, 625, 626, 1000, 1300}); std::vector<uint32_t> k(n); int m = (int)r.below(3); for (auto& x : k) x = m == 0 ? 0 : m == 1 ? (uint32_t)r.u64() : (uint32_t)r.edgyu(~0u); auto k0 = k;
            if (r.coin()) { p.reset(new mt_pair{ mtrand(k.data(), (uint32_t)n), ref_mt() }); } else { p.reset(new mt_pair{ mtrand(5u), ref_mt() }); for (int i = (int)r.below(700); i; i--) p->g.randInt(); p->g.seed(k.data(), (uint32_t)n); }
            p->r.init_array(k); c.eq(k, k0, "mt:seed array unchanged"); c.note(" array " + std::to_string(n)); c.event("array seeds"); }
        return p;
    };
    v.push_back(fresh()); int ops = 4 + (int)r.below(r.pick({8, 40})); bool copied = false; uint64_t h = r.s;
    auto drain = [&](mt_pair& p, int n) { for (int i = 0; i < n; i++) c.eq(p.g.randInt(), p.r.next(), "mt:stream"); c.event("mt draws", n); };
    for (int o = 0; o < ops; o++) {
        mt_pair& p = *v[r.below(v.size())];
        switch (r.below(13)) {
        case 0: drain(p, (int)r.below(10)); break;
        case 1: drain(p, (int)r.pick({1, 100, 396, 397, 398, 622, 623, 624, 625, 1300})); break;
        case 2: { uint32_t x = p.r.next(); double d = p.g.rand(); c.ok(d >= 0 && d <= 1 && fabs(d - x / 4294967295.0) < 1e-9, "mt:rand"); x = p.r.next(); double n = ldexp(1 + (double)r.below(1000) / 1000, (int)r.range(-20, 20)); d = p.g.rand(n); c.ok(d >= 0 && d <= n && fabs(d - x / 4294967295.0 * n) < 1e-9 * n, "mt:rand(n)"); break; }
        case 3: { uint32_t x = p.r.next(); double d = p.g.randExc(); c.ok(d >= 0 && d < 1 && fabs(d - x / 4294967296.0) < 1e-9, "mt:randExc"); x = p.r.next(); double n = ldexp(1 + (double)r.below(1000) / 1000, (int)r.range(-20, 20)); d = p.g.randExc(n); c.ok(d >= 0 && d < n && fabs(d - x / 4294967296.0 * n) < 1e-9 * n, "mt:randExc(n)"); break; }
        case 4: { uint32_t x = p.r.next(); double d = p.g.randDblExc(); c.ok(d > 0 && d < 1 && fabs(d - x / 4294967296.0) < 1e-9, "mt:randDblExc"); x = p.r.next(); double n = ldexp(1 + (double)r.below(1000) / 1000, (int)r.range(-20, 20)); d = p.g.randDblExc(n); c.ok(d > 0 && d < n && fabs(d - x / 4294967296.0 * n) < 1e-9 * n, "mt:randDblExc(n)"); break; }
        case 5: { if (p.r.next() % 2) { double x = p.r.next() / 4294967295.0; c.ok(fabs((p.g.randInt(), p.g()) - x) < 1e-12, "mt:operator()"); break; } else p.g.randInt(); uint64_t a = p.r.next() >> 5, b = p.r.next() >> 6; double d = p.g.rand53(); c.ok(d >= 0 && d < 1, "mt:rand53 range"); c.eq(d, (double)(a * 67108864 + b) / 9007199254740992.0, "mt:rand53"); break; }
        case 6: { // bounded draws: in range; a copy of the reference tells how many were used (masking and rejecting tosses whole draws)
            uint32_t n = (uint32_t)r.edgyu(~0u); if (r.coin(1, 3)) n = (uint32_t)((uint64_t(1) << r.below(33)) - 1 + r.below(2)); int cnt = 1 + (int)r.below(20); bool lo = false, hi = false;
            for (int i = 0; i < cnt; i++) { uint32_t x = p.g.randInt(n); c.ok(x <= n, "mt:randInt(n) bounds", std::to_string(x) + " > " + std::to_string(n)); lo |= x == 0; hi |= x == n; }
            // resynchronise: the generator is saved, the reference takes over from the saved state
            uint32_t sv[mtrand::SAVE]; p.g.save(sv); mtrand q(1u); q.load(sv); for (int i = 0; i < 3; i++) { mtrand& g = p.g; uint32_t a = g.randInt(), b = q.randInt(); c.eq(a, b, "mt:save/load"); }
            // find the position in the reference stream
            uint32_t w[4]; for (auto& x : w) x = p.g.randInt(); size_t lim = 100000, got = 0; std::vector<uint32_t> win; bool ok = false; for (; got < lim; got++) { win.push_back(p.r.next()); size_t m = win.size(); if (m >= 4 && win[m - 1] == w[3] && win[m - 2] == w[2] && win[m - 3] == w[1] && win[m - 4] == w[0]) { ok = true; break; } } c.ok(ok, "mt:stream after bounded draws"); c.event("bounded draws", cnt); break; }
        case 7: { if (v.size() < 5) { v.push_back(std::unique_ptr<mt_pair>(new mt_pair(p))); copied = true; c.event("copies"); if (r.coin()) { drain(p, (int)r.below(5)); } } break; }
        case 8: { mt_pair& q = *v[r.below(v.size())]; q.g = p.g; if (&q != &p) q.r = p.r; copied = true; c.event("assignments"); break; }
        case 9: { mt_pair& q = *v[r.below(v.size())]; uint32_t sv[mtrand::SAVE]; p.g.save(sv); q.g.load(sv); if (&q != &p) q.r = p.r; c.event("save/load"); break; }
        case 10: { mt_pair& q = *v[r.below(v.size())]; std::stringstream ss; ss << p.g; if (r.coin()) ss << " 77"; ss >> q.g; if (&q != &p) q.r = p.r; c.event("stream save"); break; }
        case 11: { if (v.size() > 1 && r.coin()) { v.erase(v.begin() + r.below(v.size())); c.event("destroyed sources"); } else { uint32_t s = (uint32_t)r.u64(); p.g.seed(s); p.r.init(s); } break; }
        default: v.push_back(fresh()); if (v.size() > 5) v.erase(v.begin()); break;
        }
    }
    for (auto& p : v) drain(*p, r.coin() ? 3 : 630);
    if (copied) c.nontrivial(h);
}
UNIT(mt_extremes, 300, 20000, "a generator restored to a state whose next outputs are chosen, with the smallest and largest words among them: reals inside their intervals, bounded draws, shifted and scaled deviates") {
    auto& r = c.rng; auto untemper = [](uint32_t y) { auto rs = [](uint32_t v, int k) { uint32_t x = v; for (int i = 0; i < 32; i += k) x = v ^ (x >> k); return x; }; auto ls = [](uint32_t v, int k, uint32_t m) { uint32_t x = v; for (int i = 0; i < 32; i += k) x = v ^ ((x << k) & m); return x; }; y = rs(y, 18); y = ls(y, 15, 0xefc60000u); y = ls(y, 7, 0x9d2c5680u); return rs(y, 11); };
    uint32_t sv[mtrand::SAVE]; std::vector<uint32_t> out(mtrand::N); for (int i = 0; i < mtrand::N; i++) { uint32_t w = r.coin() ? (r.coin() ? ~0u - (uint32_t)r.below(r.pick({1, 3, 1000})) : (uint32_t)r.below(r.pick({1, 3, 1000}))) : (uint32_t)r.edgyu(~0u); out[i] = w; sv[i] = untemper(w); } int used = (int)r.below(500); sv[mtrand::N] = mtrand::N - used; mtrand g((uint32_t)r.u64()); g.load(sv); size_t at = used; c.input("from %d words %u %u %u ...", used, out[at], out[at + 1], out[at + 2]);
    auto next = [&] { return out[at++]; };
    while (at + 4 < out.size()) switch (r.below(7)) {
    case 0: { c.eq(g.randInt(), next(), "mt:chosen word"); break; }
    case 1: { uint32_t x = next(); double d = g.rand(); c.ok(d >= 0 && d <= 1 && (d == 0) == (x == 0) && (x != ~0u || d == 1), "mt:rand ends"); break; }
    case 2: { uint32_t x = next(); double d = g.randExc(); c.ok(d >= 0 && d < 1 && (d == 0) == (x == 0), "mt:randExc ends", vm::str(d)); break; }
    case 3: { next(); double d = g.randDblExc(); c.ok(d > 0 && d < 1, "mt:randDblExc ends", vm::str(d)); break; }
    case 4: { next(); next(); double d = g.rand53(); c.ok(d >= 0 && d < 1, "mt:rand53 ends", vm::str(d)); break; }
    case 5: { uint32_t x = out[at]; uint32_t n = r.coin() ? ~0u : (uint32_t)((uint64_t(1) << r.range(1, 32)) - 1); c.eq(g.randInt(n), x & n, "mt:all-ones bound keeps the low bits"); next(); break; }
    default: { mtrand q(g), e(g); double m = (double)r.range(-50, 50), s = ldexp(1, (int)r.range(-3, 5)); double z = q.randNorm(0, 1), y = g.randNorm(m, s); c.ok(z == z && std::isfinite(z) && fabs(z) < 12, "mt:randNorm finite"); c.ok(fabs(y - (m + s * z)) < 1e-9 * (1 + fabs(m) + s * fabs(z)), "mt:randNorm shifted and scaled"); at += 2; break; }
    }
    c.nontrivial(r.s);
}
UNIT(mt_auto_seed, 10, 300, "generators seeded by themselves: distinct streams, draws in range, saved state continues") {
    mtrand a, b; uint32_t sv[mtrand::SAVE]; a.save(sv); mtrand q(1u); q.load(sv); bool differ = false; for (int i = 0; i < 1300; i++) { uint32_t x = a.randInt(); c.eq(q.randInt(), x, "mt:auto save/load"); differ |= b.randInt() != x; } c.ok(differ, "mt:auto-seeded generators differ"); mtrand d(7u); d.seed(); std::mt19937 s(7); differ = false; for (int i = 0; i < 700; i++) differ |= d.randInt() != s(); c.ok(differ, "mt:seed() reseeds"); c.nontrivial(c.index);
}
UNIT(mt_uniform, 60, 4000, "the frequencies of bounded integer draws, of the ends of the range, and of the sub-intervals of reals and normal deviates") {
    auto& r = c.rng; uint32_t seed = (uint32_t)r.u64(); mtrand g(seed); uint32_t n = (uint32_t)r.pick({1, 2, 3, 4, 5, 6, 7, 9, 10, 15, 16, 17, 23}); c.input("seed %u n %u", seed, n); std::vector<uint64_t> h(n + 1); uint64_t N = 6000; for (uint64_t i = 0; i < N; i++) { uint32_t x = g.randInt(n); if (x > n) c.fail("mt:randInt(n) bounds", "bounds"); h[x]++; } for (auto x : h) check_freq(c, x, N, 1.0 / (n + 1), "mt:randInt(n) uniform");
    uint32_t big = 3u << 30; uint64_t low = 0; for (uint64_t i = 0; i < N; i++) { uint32_t x = g.randInt(big - 1); if (x >= big) c.fail("mt:randInt(n) bounds", "bounds"); low += x < (1u << 30); } check_freq(c, low, N, 1.0 / 3, "mt:randInt(n) uniform on a wide range");
    for (int rep = 0; rep < 6; rep++) { // every bit below the top one of n takes both values, and every value of a bit pair about equally often
        int b = 2 + (int)r.below(30); uint32_t m = r.coin(1, 4) ? (uint32_t)((2ull << b) - 1) : (1u << b) | (uint32_t)(r.u64() & ((1u << r.below(b + 1)) - 1)); uint32_t any = 0, all = ~0u; uint64_t D = 1200; std::vector<uint64_t> ones(b); for (uint64_t i = 0; i < D; i++) { uint32_t x = g.randInt(m); c.ok(x <= m, "mt:randInt(n) bounds"); any |= x; all &= x; for (int k = 0; k < b; k++) ones[k] += x >> k & 1; }
        for (int k = 0; k < b; k++) { uint64_t cnt1 = 0, N1 = uint64_t(m) + 1, per = 2ull << k; cnt1 = N1 / per * (per / 2) + (N1 % per > per / 2 ? N1 % per - per / 2 : 0); check_freq(c, ones[k], D, double(cnt1) / double(N1), "mt:randInt(n) uniform in every bit"); } c.event("bits of wide ranges", b); }
    uint64_t q[4] = {}, neg = 0, one = 0; double mean = (double)r.range(-100, 100); for (uint64_t i = 0; i < N; i++) { double d = i & 1 ? g.rand() : g.rand53(); q[std::min(3, (int)(d * 4))]++; double z = g.randNorm(mean, 1.0); if (!(z == z) || fabs(z - mean) > 12) c.fail("mt:randNorm", "randNorm " + vm::str(z)); neg += z < mean; one += fabs(z - mean) < 1; } for (auto x : q) check_freq(c, x, N, 0.25, "mt:reals uniform"); check_freq(c, neg, N, 0.5, "mt:randNorm symmetric"); check_freq(c, one, N, 0.6826894921, "mt:randNorm spread"); c.event("sampled draws", 4 * N); c.nontrivial_input();
}
UNIT(xorshift_histories, 3000, 400000, "a history of draws, ranged and uniform draws, copies and reseedings of both xorshift generators next to their reference streams") {
    auto& r = c.rng; uint64_t s = r.edgyu(~0ull); if (!s) s = 1; bool big = r.coin(); c.input("%s seed %llu", big ? "1024" : "64", (unsigned long long)s);
    auto drive = [&](auto& g, auto& f, auto reseed) {
        typedef typename std::decay<decltype(g)>::type G; c.eq(G::min(), uint64_t(0), "xorshift:min"); c.eq(G::max(), ~0ull + 0ull == G::max() ? G::max() : 0, "xorshift:max"); int ops = 1 + (int)r.below(30);
        for (int o = 0; o < ops; o++) switch (r.below(9)) {
        case 0: for (int i = (int)r.below(40); i; i--) c.eq(g.next(), f.next(), "xorshift:stream"); break;
        case 1: c.eq(g(), f.next(), "xorshift:call operator"); break;
        case 2: { uint64_t a = r.edgyu(~0ull), b = r.edgyu(~0ull); if (a > b) std::swap(a, b); if (r.coin(1, 6)) a = 0, b = ~0ull; uint64_t raw = f.next(), x = g.next(a, b); c.ok(a <= x && x <= b, "xorshift:next(min,max) bounds"); if (a == 0 && b == ~0ull) c.eq(x, raw, "xorshift:full range"); break; }
        case 3: { uint64_t a = r.edgyu(~0ull), b = r.edgyu(~0ull); if (a > b) std::swap(a, b); if (r.coin(1, 6)) a = 0, b = ~0ull; auto f0 = f; uint64_t x = g.next_uniform(a, b); c.ok(a <= x && x <= b, "xorshift:next_uniform bounds"); auto g2 = g; uint64_t w0 = g2.next(), w1 = g2.next(); bool ok = false; for (int k = 0; k < 64 && !ok; k++) { f.next(); auto t = f; ok = t.next() == w0 && t.next() == w1; } c.ok(ok, "xorshift:stream after a uniform draw"); break; }
        case 4: { uint64_t raw = f.next(); double d = g.next_0_1(); c.ok(d >= 0 && d <= 1 && fabs(d - (double)raw / 18446744073709551616.0) < 1e-9, "xorshift:next_0_1"); break; }
        case 5: { G k = g; auto kf = f; for (int i = 0; i < 20; i++) c.eq(k.next(), kf.next(), "xorshift:copy"); if (r.coin()) { g = k; f = kf; } break; }
        case 6: { std::uniform_int_distribution<int> d(-3, 12); int x = d(g); c.ok(x >= -3 && x <= 12, "xorshift:as a generator for the standard distributions"); reseed(); break; }
        case 7: if (r.coin(1, 3)) reseed(); break;
        default: for (int i = 0; i < 5; i++) c.eq(g.next(), f.next(), "xorshift:stream"); break;
        }
        c.event("xorshift operations", ops);
    };
    if (!big) { xorshift_64star g(s); ref_xs64 f{ s }; if (s == 1 && r.coin()) g = xorshift_64star(); drive(g, f, [&] { uint64_t t = r.u64() | 1; g.seed(t); f.x = t; }); }
    else { auto fill = [&](uint64_t t) { ref_xs64 k{ t }; std::vector<uint64_t> st(16); for (auto& x : st) x = k.next(); return ref_xs1024(st); }; ref_xs1024 f; std::unique_ptr<xorshift_1024star> g;
        if (r.coin()) { if (s == 1 && r.coin()) g.reset(new xorshift_1024star()); else g.reset(new xorshift_1024star(s)); f = fill(s); } else { std::vector<uint64_t> st(16); for (auto& x : st) x = r.edgyu(~0ull); st[r.below(16)] |= 1; auto s0 = st; g.reset(new xorshift_1024star(st.data())); f = ref_xs1024(st); c.eq(st, s0, "xorshift:seed array unchanged"); st.assign(16, 0); }
        drive(*g, f, [&] { if (r.coin()) { uint64_t t = r.u64() | 1; g->seed(t); f = fill(t); } else { std::vector<uint64_t> st(16); for (auto& x : st) x = r.u64(); g->seed(st.data()); f = ref_xs1024(st); } }); }
    c.nontrivial_input();
}
UNIT(xorshift_uniform, 60, 4000, "the frequencies of ranged and uniform draws on narrow and very wide ranges") {
    auto& r = c.rng; uint64_t s = r.u64() | 1; c.input("seed %llu", (unsigned long long)s); xorshift_64star a(s); xorshift_1024star b(s); uint64_t N = 4000;
    { uint64_t w = 1 + r.below(20), lo = r.edgyu(~0ull - w); std::vector<uint64_t> h(w), k(w); for (uint64_t i = 0; i < N; i++) { uint64_t x = i & 1 ? a.next(lo, lo + w - 1) : b.next(lo, lo + w - 1), y = i & 1 ? a.next_uniform(lo, lo + w - 1) : b.next_uniform(lo, lo + w - 1); if (x - lo >= w || y - lo >= w) c.fail("xorshift:bounds", "out of range"); h[x - lo]++; k[y - lo]++; } for (auto x : h) check_freq(c, x, N, 1.0 / (double)w, "xorshift:next(min,max) uniform"); for (auto x : k) check_freq(c, x, N, 1.0 / (double)w, "xorshift:next_uniform"); }
    { uint64_t w = (1ull << 63) + (r.u64() >> 2) + (1ull << 60), cut = 0 - w, lo = r.below(0 - w), n = 0, m = 0; /* 2^64 - w values are hit twice as often when nothing is rejected */ for (uint64_t i = 0; i < N; i++) { uint64_t x = a.next_uniform(lo, lo + w - 1) - lo, y = b.next_uniform(lo, lo + w - 1) - lo; if (x >= w || y >= w) c.fail("xorshift:bounds", "out of range"); n += x < cut; m += y < cut; } double p = (double)cut / (double)w; check_freq(c, n, N, p, "xorshift:next_uniform on a wide range"); check_freq(c, m, N, p, "xorshift:next_uniform on a wide range"); }
    c.event("sampled draws", 4 * N); c.nontrivial_input();
}
UNIT(uniform_next_8, 2000, 65536, "a range of 8-bit integers: over all first draws, and over all draws after rejected ones, every value of the range comes out equally often") {
    uint64_t k = c.thorough ? c.index : c.rng.below(65536); uint8_t lo = (uint8_t)(k >> 8), hi = (uint8_t)k; if (!c.thorough && c.index < 5) { lo = 0; hi = c.index == 0 ? 255 : (uint8_t)(127 + c.index); } if (lo > hi) std::swap(lo, hi); c.input("[%d,%d]", lo, hi); unbiased<uint8_t>(c, lo, hi, 1 + (int)c.rng.below(15)); c.nontrivial_input();
}
UNIT(uniform_next_16, 12, 600, "a range of 16-bit integers, as above") {
    auto& r = c.rng; uint16_t lo = (uint16_t)r.edgyu(65535), hi = (uint16_t)r.edgyu(65535); if (lo > hi) std::swap(lo, hi); if (c.index == 0) lo = 0, hi = 65535; c.input("[%d,%d]", lo, hi); unbiased<uint16_t>(c, lo, hi, 1 + (int)r.below(15)); c.nontrivial_input();
}
UNIT(uniform_next_wide, 20000, 4000000, "one uniform selection from a 32- or 64-bit range fed draws at the ends of the type: in range, and a draw is rejected only if the range does not divide the type") {
    auto& r = c.rng;
    auto go = [&](auto z) { typedef decltype(z) U; U top = (U)~U(0); U lo = (U)r.edgyu(top), hi = (U)r.edgyu(top); if (lo > hi) std::swap(lo, hi); if (r.coin(1, 10)) lo = 0, hi = top; if (r.coin(1, 4)) { lo = 0; hi = (U)((U(1) << r.below(8 * sizeof(U))) - 1); } u128 w = (u128)hi - lo + 1, sz = (u128)1 << (8 * sizeof(U)); std::vector<U> d; for (int i = 0; i < 60; i++) d.push_back((U)r.edgyu(top)); int k = 0; c.input("%zu bytes [%llu,%llu]", sizeof(U), (unsigned long long)lo, (unsigned long long)hi);
        U x = uniform_next<U>([&]() -> U { return d[k++ % 60]; }, lo, hi); c.ok(lo <= x && x <= hi, "uniform_next:bounds"); if (sz % w == 0) { c.eq(k, 1, "uniform_next:draws on a range that divides the type"); c.event("dividing ranges"); } if (k > 1) c.event("rejections");
        U bm = biggest_multiple<U>((U)w); u128 want = w == sz ? sz : sz - sz % w; c.eq(vm::str((u128)bm), vm::str((u128)(U)want), "biggest_multiple"); if (k > 1) c.nontrivial_input(); };
    switch (r.below(4)) { case 0: go(uint32_t()); break; case 1: go(uint64_t()); break; case 2: go(uint16_t()); break; default: go(uint8_t()); }
}
UNIT(integer_mapping, 20000, 4000000, "an unsigned integer mapped to a range of signed or unsigned integers of any width, and to [0,1]") {
    auto& r = c.rng; uint64_t v = r.edgyu(~0ull);
    switch (r.below(10)) {
    case 0: { uint64_t a = r.edgyu(~0ull), b = r.edgyu(~0ull); if (a > b) std::swap(a, b); range_case<uint64_t, uint64_t>(c, v, a, b); break; }
    case 1: { int64_t a = r.edgy(INT64_MIN, INT64_MAX), b = r.edgy(INT64_MIN, INT64_MAX); if (a > b) std::swap(a, b); range_case<uint64_t, int64_t>(c, v, a, b); break; }
    case 2: { int a = (int)r.edgy(INT32_MIN, INT32_MAX), b = (int)r.edgy(INT32_MIN, INT32_MAX); if (a > b) std::swap(a, b); range_case<uint32_t, int>(c, (uint32_t)v, a, b); break; }
    case 3: { int a = (int)r.edgy(INT32_MIN, INT32_MAX), b = (int)r.edgy(INT32_MIN, INT32_MAX); if (a > b) std::swap(a, b); range_case<uint64_t, int>(c, v, a, b); break; }
    case 4: { int8_t a = (int8_t)r.edgy(-128, 127), b = (int8_t)r.edgy(-128, 127); if (a > b) std::swap(a, b); range_case<uint8_t, int8_t>(c, (uint8_t)v, a, b); range_case<uint64_t, int8_t>(c, v, a, b); break; }
    case 5: { uint8_t a = (uint8_t)r.edgyu(255), b = (uint8_t)r.edgyu(255); if (a > b) std::swap(a, b); range_case<uint8_t, uint8_t>(c, (uint8_t)v, a, b); range_case<uint32_t, uint8_t>(c, (uint32_t)v, a, b); break; }
    case 6: { int64_t a = r.edgy(INT64_MIN, INT64_MAX), b = r.edgy(INT64_MIN, INT64_MAX); if (a > b) std::swap(a, b); range_case<uint32_t, int64_t>(c, (uint32_t)v, a, b); break; }
    case 7: { // reachability: a narrow range is covered by consecutive inputs, uniformly up to one
        int w = 1 + (int)r.below(40); int64_t lo = r.edgy(INT64_MIN, INT64_MAX - 40); c.input("cover %lld +%d", (long long)lo, w); std::vector<int> h(w); uint64_t b = r.below(1ull << 40); int k = (int)r.below(5); for (int i = 0; i < w * (k + 1); i++) h[integer_to_range<uint64_t, int64_t>(b + i, lo, lo + w - 1) - lo]++; for (int x : h) c.eq(x, k + 1, "integer_to_range:uniform"); break; }
    case 8: { double d = integer_to_double_0_1<uint64_t>(v); c.ok(d >= 0 && d <= 1 && fabs(d - (double)v / 18446744073709551615.0) < 1e-12, "integer_to_double_0_1"); uint32_t u = (uint32_t)v; d = integer_to_double_0_1<uint32_t>(u); c.ok(d >= 0 && d <= 1 && fabs(d - u / 4294967295.0) < 1e-12, "integer_to_double_0_1:32"); d = integer_to_double_0_1<uint8_t>((uint8_t)v); c.ok(d >= 0 && d <= 1 && fabs(d - (uint8_t)v / 255.0) < 1e-12, "integer_to_double_0_1:8"); d = integer_to_double_0_1<uint16_t>((uint16_t)v); c.ok(d >= 0 && d <= 1 && fabs(d - (uint16_t)v / 65535.0) < 1e-12, "integer_to_double_0_1:16"); break; }
    default: { double d0 = integer_to_double_0_1<uint64_t>(0), d1 = integer_to_double_0_1<uint64_t>(~0ull); c.eq(d0, 0.0, "integer_to_double_0_1:0"); c.eq(d1, 1.0, "integer_to_double_0_1:1"); c.eq(integer_to_double_0_1<uint32_t>(~0u), 1.0, "integer_to_double_0_1:1"); uint64_t w = v > 1 ? v - 1 : 1; c.ok(integer_to_double_0_1<uint64_t>(w) <= integer_to_double_0_1<uint64_t>(std::max(v, w)), "integer_to_double_0_1:monotone"); break; }
    }
    c.nontrivial(v);
}
