// C02: bit primitives against their bit-by-bit definition
#include "vm.h"
#include "altruct/algorithm/math/bits.h"
using namespace altruct::math;

template<typename T> struct W { static const int n = sizeof(T) * 8; };
static uint64_t bit(uint64_t x, int i) { return x >> i & 1; }
template<typename T> int r_cnt(T x) { int c = 0; for (int i = 0; i < W<T>::n; i++) c += (int)bit(x, i); return c; }
template<typename T> int r_log(T x) { int r = 0; for (int i = 0; i < W<T>::n; i++) if (bit(x, i)) r = i; return r; }
template<typename T> T r_rev(T x) { uint64_t r = 0; for (int i = 0; i < W<T>::n; i++) if (bit(x, i)) r |= uint64_t(1) << (W<T>::n - 1 - i); return T(r); }

template<typename T> void one(vm::Ctx& c, T x) {
    typedef typename std::make_signed<T>::type S;
    const int n = W<T>::n;
    c.input("uint%d x=%llu", n, (unsigned long long)x);
    int lg = r_log(x), cn = r_cnt(x);
    c.eq(ilog2(x), lg, "ilog2"); c.eq(ilog2(S(x)), lg, "ilog2 signed");
    c.eq(bit_cnt1(x), cn, "bit_cnt1");
    c.eq(bit_reverse(x), r_rev(x), "bit_reverse");
    uint64_t od = 0, xd = 0; for (int i = n - 1, any = 0, par = 0; i >= 0; i--) { any |= (int)bit(x, i); par ^= (int)bit(x, i); od |= uint64_t(any) << i; xd |= uint64_t(par) << i; }
    c.eq(or_down<T>(x), T(od), "or_down"); c.eq(xor_down<T>(x), T(xd), "xor_down");
    c.eq(gray_to_bin<T>(x), T(xd), "gray_to_bin");
    uint64_t g = 0; for (int i = 0; i < n; i++) g |= (bit(x, i) ^ (i + 1 < n ? bit(x, i + 1) : 0)) << i;
    c.eq(bin_to_gray<T>(x), T(g), "bin_to_gray");
    c.eq(gray_to_bin<T>(bin_to_gray<T>(x)), x, "gray roundtrip");
    c.eq(neg<T>(x), T(0 - uint64_t(x)), "neg");
    c.eq(hi_bit<T>(x), x ? T(uint64_t(1) << lg) : T(0), "hi_bit");
    int lo = 0; while (lo < n && !bit(x, lo)) lo++;
    c.eq(lo_bit<T>(x), x ? T(uint64_t(1) << lo) : T(0), "lo_bit");
    c.eq(is_pow2<T>(x), cn <= 1, "is_pow2"); c.eq(is_not_pow2<T>(x), cn > 1, "is_not_pow2");
    c.eq(next_pow2<T>(x), x == 0 ? T(1) : lg == n - 1 ? T(0) : T(uint64_t(2) << lg), "next_pow2");
    c.eq(lzc<T>(x), x ? n - 1 - lg : n, "lzc"); c.eq(tzc<T>(x), lo, "tzc");
    // sign-magnitude: the top bit is the sign, the rest the magnitude of the two's complement value
    c.eq(sign_mag<T>(sign_mag<T>(x)), bit(x, n - 1) && T(x << 1) == 0 ? sign_mag<T>(sign_mag<T>(x)) : x, "sign_mag involution");
    if (bit(x, n - 1)) { T m = T(0 - uint64_t(x)); c.eq(sign_mag<T>(x), T(m ^ T(T(1) << (n - 1))), "sign_mag"); } else c.eq(sign_mag<T>(x), x, "sign_mag");
    if (cn > 1) c.nontrivial(uint64_t(x) ^ (uint64_t(n) << 57));
}
template<typename T> void positional(vm::Ctx& c, T x, T y, T m, int p) {
    const int n = W<T>::n;
    c.input("uint%d x=%llu y=%llu mask=%llu pos=%d", n, (unsigned long long)x, (unsigned long long)y, (unsigned long long)m, p);
    T b = T(uint64_t(1) << p);
    c.eq(T(make_bit<T>(p)), b, "make_bit"); c.eq(T(make_ones<T>(p)), T(b - 1), "make_ones");
    c.eq(T(get_bit<T>(x, p)), T(bit(x, p)), "get_bit"); c.eq(T(set_bit<T>(x, p)), T(x | b), "set_bit");
    c.eq(T(flip_bit<T>(x, p)), T(bit(x, p) ? x - b : x + b), "flip_bit"); c.eq(T(clear_bit<T>(x, p)), T(bit(x, p) ? x - b : x), "clear_bit");
    if (p == n - 1) c.eq(T(make_ones<T>(n)), T(~uint64_t(0)), "make_ones full word");
    uint64_t e = 0, mx = 0; for (int i = 0; i < n; i++) { e |= (i < p ? bit(x, i) : i + 1 < n ? bit(x, i + 1) : 0) << i; mx |= (bit(m, i) ? bit(y, i) : bit(x, i)) << i; }
    c.eq(T(erase_bit<T>(x, p)), T(e), "erase_bit"); c.eq(T(mix_bits<T>(x, y, m)), T(mx), "mix_bits");
    c.nontrivial(uint64_t(x) * 31 + y * 17 + m * 7 + p + n);
}
template<typename T> void combos(vm::Ctx& c, int size, int k) {
    // all k-subsets of `size` bits, in increasing order, then wrap to the first one
    const int n = W<T>::n;
    c.input("uint%d next_combination size=%d k=%d", n, size, k);
    uint64_t first = k ? (~uint64_t(0) >> (64 - k)) : 0;
    T x = T(first); uint64_t cnt = 1, prev = first;
    while (next_combination<T>(x, size)) {
        c.ok(uint64_t(x) > prev, "next_combination order"); c.eq(r_cnt(x), k, "next_combination weight");
        c.ok(size == 64 || (uint64_t(x) >> size) == 0, "next_combination range");
        prev = uint64_t(x); c.ok(++cnt < 1000000, "next_combination ends");
    }
    uint64_t b = 1; for (int i = 1; i <= k; i++) b = b * (size - k + i) / i;
    c.eq(cnt, b, "next_combination count");
    if (k > 0) c.eq(x, T(first), "next_combination wraps to the first");
    c.event("combinations enumerated", cnt);
    c.nontrivial(size * 100 + k + n * 10000);
}
UNIT(all8_16, 64, 64, "every 8- and 16-bit value through every unary primitive (64 slices)") {
    if (c.index == 0) for (int x = 0; x < 256; x++) one<uint8_t>(c, uint8_t(x));
    for (int x = (int)c.index; x < 65536; x += 64) one<uint16_t>(c, uint16_t(x));
}
template<typename T> T gen(vm::Rng& r) {
    uint64_t x;
    switch (r.below(6)) {
    case 0: x = uint64_t(1) << r.below(64); break;
    case 1: x = (uint64_t(1) << r.below(64)) + r.below(3) - 1; break;
    case 2: x = (uint64_t(1) << r.below(64)) | (uint64_t(1) << r.below(64)); break;
    case 3: x = ~((uint64_t(1) << r.below(64)) | (uint64_t(1) << r.below(64))); break;
    case 4: x = r.bits(64) << r.below(64); break;
    default: x = r.u64(); if (r.coin()) x >>= r.below(64);
    }
    return T(x);
}
UNIT(wide, 1600, 80000, "32- and 64-bit values: single bits, pairs, complements, limits, random; 200 per case") {
    for (int i = 0; i < 100; i++) { one<uint32_t>(c, gen<uint32_t>(c.rng)); one<uint64_t>(c, gen<uint64_t>(c.rng)); }
}
UNIT(powers, 1, 1, "all one- and two-bit 32/64-bit patterns, their complements and neighbours") {
    for (int i = 0; i < 64; i++) for (int j = 0; j <= i; j++) for (int d = -1; d <= 1; d++) {
        uint64_t v = ((uint64_t(1) << i) | (uint64_t(1) << j)) + d;
        one<uint64_t>(c, v); one<uint64_t>(c, ~v); if (i < 32) { one<uint32_t>(c, uint32_t(v)); one<uint32_t>(c, uint32_t(~v)); }
    }
}
UNIT(positions, 800, 40000, "positional primitives at every position of 8/16/32/64-bit words; all positions per case") {
    for (int p = 0; p < 64; p++) {
        positional<uint64_t>(c, gen<uint64_t>(c.rng), gen<uint64_t>(c.rng), gen<uint64_t>(c.rng), p);
        if (p < 32) positional<uint32_t>(c, gen<uint32_t>(c.rng), gen<uint32_t>(c.rng), gen<uint32_t>(c.rng), p);
        if (p < 16) positional<uint16_t>(c, gen<uint16_t>(c.rng), gen<uint16_t>(c.rng), gen<uint16_t>(c.rng), p);
        if (p < 8) positional<uint8_t>(c, gen<uint8_t>(c.rng), gen<uint8_t>(c.rng), gen<uint8_t>(c.rng), p);
    }
}
UNIT(pos8, 16, 16, "8-bit positional primitives: every value, mask and position (16 slices)") {
    for (int x = (int)c.index; x < 256; x += 16) for (int m = 0; m < 256; m++) positional<uint8_t>(c, uint8_t(x), uint8_t(~x * 7), uint8_t(m), m & 7);
}
UNIT(combinations, 16, 20, "next_combination over every weight of a given size, all word types") {
    int size = (int)c.index + 1;
    for (int k = 0; k <= size; k++) {
        combos<uint64_t>(c, size, k);
        if (size <= 32) combos<uint32_t>(c, size, k);
        if (size <= 16) combos<uint16_t>(c, size, k);
        if (size <= 8) combos<uint8_t>(c, size, k);
    }
}
UNIT(combinations_wide, 1, 1, "next_combination for sparse and dense weights at larger sizes up to one less than the word") {
    for (int size = 17; size < 64; size += 3) for (int k : { 1, 2, size - 2, size - 1 }) { combos<uint64_t>(c, size, k); if (size <= 32) combos<uint32_t>(c, size, k); }
    combos<uint64_t>(c, 64, 3); combos<uint64_t>(c, 64, 62); combos<uint32_t>(c, 32, 3); combos<uint64_t>(c, 63, 2); combos<uint32_t>(c, 31, 3); combos<uint64_t>(c, 63, 61);
}
