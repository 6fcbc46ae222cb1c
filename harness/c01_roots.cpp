// C01: integer roots, division, powers, gcd
#include "vm.h"
#include "altruct/algorithm/math/base.h"
using namespace altruct::math;
using vm::i128; using vm::u128;

template<typename T> const char* tn();
template<> const char* tn<int8_t>() { return "int8"; }
template<> const char* tn<uint8_t>() { return "uint8"; }
template<> const char* tn<int16_t>() { return "int16"; }
template<> const char* tn<uint16_t>() { return "uint16"; }
template<> const char* tn<int32_t>() { return "int32"; }
template<> const char* tn<uint32_t>() { return "uint32"; }
template<> const char* tn<int64_t>() { return "int64"; }
template<> const char* tn<uint64_t>() { return "uint64"; }
template<> const char* tn<long long>() { return "longlong"; }
template<> const char* tn<unsigned long long>() { return "ulonglong"; }
template<> const char* tn<i128>() { return "int128"; }
template<> const char* tn<u128>() { return "uint128"; }
template<typename T> struct Lim { static const bool sgn = T(-1) < T(0); static const int bits = sizeof(T) * 8;
    static T max() { return sgn ? T(~(u128(1) << (bits - 1)) & ((bits == 128) ? ~u128(0) : ((u128(1) << bits) - 1))) : T(~T(0)); } };

// reference roots of |x| by bisection, exact in 128 bits
static u128 ref_root(u128 x, int k) {
    u128 lo = 0, hi = k == 2 ? (u128(1) << 64) - 1 : (u128)6981463658331ull; // cbrt(2^128)=6981463658331.5
    while (lo < hi) {
        u128 m = lo + (hi - lo + 1) / 2;
        bool le = k == 2 ? (m * m <= x) : (m * m <= x / m);
        if (le) lo = m; else hi = m - 1;
    }
    return lo;
}
template<typename T> T edgy(vm::Rng& r) {
    if (sizeof(T) <= 8) return Lim<T>::sgn ? T(r.edgy(sizeof(T) == 8 ? INT64_MIN + 1 : -int64_t(Lim<T>::max()), int64_t(Lim<T>::max()))) : T(r.edgyu(uint64_t(Lim<T>::max())));
    u128 v = (u128(r.u64()) << 64 | r.u64()) >> r.below(128);
    v &= u128(Lim<T>::max());
    return (Lim<T>::sgn && r.coin()) ? T(-i128(v)) : T(v);
}
// close to a perfect k-th power
template<typename T> T near_power(vm::Rng& r, int k) {
    u128 m = u128(Lim<T>::max());
    u128 top = ref_root(m, k);
    u128 q = r.coin(1, 3) ? top - r.below(4) : (u128(r.u64()) << 64 | r.u64()) % (top + 1);
    if (r.coin(1, 4)) q >>= r.below(40);
    u128 v = k == 2 ? q * q : q * q * q;
    int64_t d = int64_t(r.below(5)) - 2;
    if (d < 0 && v < u128(-d)) d = 0;
    v += d;
    if (v > m) v = m;
    return (Lim<T>::sgn && r.coin(1, 5)) ? T(-i128(v)) : T(v);
}
template<typename T> void check_roots(vm::Ctx& c, T x) {
    c.input("%s x=%s", tn<T>(), vm::str(i128(x)).c_str());
    if (u128(x) == ~u128(0)) return;
    bool neg = x < 0;
    u128 a = neg ? u128(-i128(x)) : u128(x);
    u128 s = ref_root(a, 2), t = ref_root(a, 3);
    auto sg = [&](u128 v) { return T(neg ? -i128(v) : i128(v)); };
    c.eq(sqrtT<T>(x), sg(s), "sqrtT");
    c.eq(cbrtT<T>(x), sg(t), "cbrtT");
    if (sizeof(T) < 16) {
        c.eq(is_square<T>(x), !neg && s * s == a, "is_square");
        c.eq(is_cube<T>(x), t * t * t == a, "is_cube");
    }
    if (a > 1) c.nontrivial(uint64_t(a) * 31 + sizeof(T) * 7 + neg);
}
UNIT(roots_small, 4, 4, "8- and 16-bit types, every value, sqrtT/cbrtT/is_square/is_cube") {
    switch (c.index) {
    case 0: for (int x = -127; x <= 127; x++) check_roots<int8_t>(c, int8_t(x)); break;
    case 1: for (int x = 0; x <= 255; x++) check_roots<uint8_t>(c, uint8_t(x)); break;
    case 2: for (int x = -32767; x <= 32767; x++) check_roots<int16_t>(c, int16_t(x)); break;
    case 3: for (int x = 0; x <= 65535; x++) check_roots<uint16_t>(c, uint16_t(x)); break;
    }
}
UNIT(roots_minimum, 1, 1, "the most negative 32- and 64-bit values") { c.input("INT64_MIN"); c.eq(sqrtT<int64_t>(INT64_MIN), int64_t(-3037000499ll), "sqrtT"); c.eq(cbrtT<int64_t>(INT64_MIN), int64_t(-2097152), "cbrtT"); c.eq(sqrtT<int32_t>(INT32_MIN), int32_t(-46340), "sqrtT"); c.eq(cbrtT<int32_t>(INT32_MIN), int32_t(-1290), "cbrtT"); c.ok(!is_square<int64_t>(INT64_MIN) && is_cube<int64_t>(INT64_MIN) && !is_square<int32_t>(INT32_MIN), "perfect powers"); c.nontrivial(1); }
UNIT(roots, 6000, 400000, "32/64/128-bit values at type limits and next to perfect squares and cubes, 60 per case") {
    for (int i = 0; i < 60; i++) {
        int k = c.rng.coin() ? 2 : 3; bool e = c.rng.coin(1, 4);
        switch (c.rng.below(7)) {
        case 0: check_roots<int32_t>(c, e ? edgy<int32_t>(c.rng) : near_power<int32_t>(c.rng, k)); break;
        case 1: check_roots<uint32_t>(c, e ? edgy<uint32_t>(c.rng) : near_power<uint32_t>(c.rng, k)); break;
        case 2: check_roots<int64_t>(c, e ? edgy<int64_t>(c.rng) : near_power<int64_t>(c.rng, k)); break;
        case 3: check_roots<uint64_t>(c, e ? edgy<uint64_t>(c.rng) : near_power<uint64_t>(c.rng, k)); break;
        case 5: check_roots<long long>(c, e ? edgy<long long>(c.rng) : near_power<long long>(c.rng, k)); break;
        case 6: check_roots<unsigned long long>(c, e ? edgy<unsigned long long>(c.rng) : near_power<unsigned long long>(c.rng, k)); break;
        case 4: { // generic Newton iteration on 128-bit values
            i128 x = e ? edgy<i128>(c.rng) : near_power<i128>(c.rng, k);
            x /= 4; check_roots<i128>(c, x); break; }
        }
    }
}
UNIT(isqrt_icbrt, 6000, 400000, "isqrt/isqrtc/icbrt/icbrtc/isq/icb on int64 values whose result fits, 80 per case") {
    for (int i = 0; i < 80; i++) {
        int64_t x = c.rng.coin(1, 4) ? edgy<int64_t>(c.rng) : near_power<int64_t>(c.rng, 2);
        x = std::max<int64_t>(std::min<int64_t>(x, 4611686018427387903LL), -4611686018427387903LL);
        c.input("isqrt x=%lld", (long long)x);
        bool neg = x < 0; u128 a = neg ? -i128(x) : x; u128 s = ref_root(a, 2);
        u128 sc = s * s == a ? s : s + 1;
        c.eq(i128(isqrt(x)), neg ? -i128(s) : i128(s), "isqrt");
        if (sc < (1ull << 31)) c.eq(i128(isqrtc(x)), neg ? -i128(sc) : i128(sc), "isqrtc");
        int64_t y = c.rng.coin(1, 4) ? edgy<int64_t>(c.rng) : near_power<int64_t>(c.rng, 3);
        c.input("icbrt x=%lld", (long long)y);
        neg = y < 0; a = neg ? -i128(y) : y; s = ref_root(a, 3); sc = s * s * s == a ? s : s + 1;
        c.eq(i128(icbrt(y)), neg ? -i128(s) : i128(s), "icbrt");
        c.eq(i128(icbrtc(y)), neg ? -i128(sc) : i128(sc), "icbrtc");
        int64_t q = c.rng.edgy(-3037000499LL, 3037000499LL); c.eq(isq(q), int64_t(i128(q) * q), "isq"); c.eq(sqT<int64_t>(q), int64_t(i128(q) * q), "sqT");
        q = c.rng.edgy(-2097151, 2097151); c.eq(icb(q), int64_t(i128(q) * q * q), "icb"); c.eq(cbT<int64_t>(q), int64_t(i128(q) * q * q), "cbT");
        c.nontrivial(uint64_t(x) * 31 + y);
    }
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b, r = a % b; return (r != 0 && ((r < 0) != (b < 0))) ? q - 1 : q; }
template<typename T> void check_div(vm::Ctx& c, T a, T b) {
    if (b == 0) return;
    c.input("%s a=%s b=%s", tn<T>(), vm::str(i128(a)).c_str(), vm::str(i128(b)).c_str());
    i128 A = a, B = b;
    i128 fl = fdiv(A, B), ce = -fdiv(-A, B);
    c.eq(i128(div_floor<T>(a, b)), fl, "div_floor");
    c.eq(i128(div_ceil<T>(a, b)), ce, "div_ceil");
    // nearest, halves away from zero
    i128 aa = A < 0 ? -A : A, bb = B < 0 ? -B : B; i128 q = (2 * aa + bb) / (2 * bb); if ((A < 0) != (B < 0)) q = -q;
    // odd divisors never produce a tie
    c.eq(i128(div_round<T>(a, b)), q, "div_round");
    if (A > 0 && (fdiv(B - 1, A) + 1) * A <= i128(Lim<T>::max())) c.eq(i128(multiple<T>(a, b)), -fdiv(-B, A) * A, "multiple");
    if (a > 1 || a < -1) c.nontrivial(uint64_t(a) * 0x9e37 + uint64_t(b) * 31 + sizeof(T));
}
UNIT(div_small, 64, 64, "8-bit types, every operand pair (64 slices)") {
    for (int a = -127; a <= 127; a++) for (int b = -127 + int(c.index); b <= 127; b += 64) check_div<int8_t>(c, a, b);
    for (int a = 0; a <= 255; a++) for (int b = int(c.index); b <= 255; b += 64) check_div<uint8_t>(c, a, b);
}
template<typename T> void div_rand(vm::Ctx& c) {
    T a = edgy<T>(c.rng), b = edgy<T>(c.rng);
    if (c.rng.coin()) b = T(i128(b) >> c.rng.below(sizeof(T) * 8 - 1));
    if (c.rng.coin(1, 3) && b != 0) { // next to a (half) multiple
        i128 m = (i128(a) / b) * b + i128(c.rng.below(3)) - 1 + (c.rng.coin() ? i128(b) / 2 : 0);
        if (m <= i128(Lim<T>::max()) && m >= -i128(Lim<T>::max()) && (Lim<T>::sgn || m >= 0)) a = T(m);
    }
    check_div<T>(c, a, b);
}
UNIT(div, 4000, 300000, "16/32/64-bit operands at limits and next to multiples and half multiples, 100 per case") {
    for (int i = 0; i < 17; i++) { div_rand<int16_t>(c); div_rand<uint16_t>(c); div_rand<int32_t>(c); div_rand<uint32_t>(c); div_rand<int64_t>(c); div_rand<uint64_t>(c); }
}
static u128 ref_gcd(u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; }
template<typename T> void check_gcd(vm::Ctx& c, T a, T b) {
    c.input("%s a=%s b=%s", tn<T>(), vm::str(i128(a)).c_str(), vm::str(i128(b)).c_str());
    u128 A = a < 0 ? -i128(a) : i128(a), B = b < 0 ? -i128(b) : i128(b);
    u128 g = ref_gcd(A, B);
    auto ab = [](i128 v) { return u128(v < 0 ? -v : v); };
    c.eq(ab(gcd<T>(a, b)), g, "gcd");
    c.eq(ab(gcd_ex<T>(a, b)), g, "gcd_ex");
    { int st = -1, w = 0; T x = a, y = b; while (y != 0) { T t = T(x % y); x = y; y = t; w++; } gcd_ex<T>(a, b, nullptr, nullptr, &st); c.eq(st, w, "gcd_ex steps"); }
    if (g != 0) {
        u128 l = A / g * B;
        if (l <= u128(Lim<T>::max())) c.eq(ab(lcm<T>(a, b)), l, "lcm");
    }
    if (!Lim<T>::sgn && sizeof(T) == 2) return; // products of unsigned 16-bit values do not fit the int they promote to
    T x = 77, y = 77; int s = -1;
    T h = gcd_ex<T>(a, b, &x, &y, &s);
    c.eq(ab(h), g, "gcd_ex");
    c.ok(T(u128(a) * u128(x) + u128(b) * u128(y)) == T(h), "bezout", "a*x+b*y=g, x=" + vm::str(i128(x)) + " y=" + vm::str(i128(y)) + " g=" + vm::str(i128(h)));
    if (Lim<T>::sgn) c.ok(i128(a) * x + i128(b) * y == i128(h), "bezout_exact", "x=" + vm::str(i128(x)) + " y=" + vm::str(i128(y)));
    T x2 = 77, y2 = 77; gcd_ex<T>(a, b, &x2); gcd_ex<T>(a, b, (T*)nullptr, &y2);
    c.ok(x2 == x && y2 == y, "gcd_ex_partial");
    if (A > 1 && B > 1) c.nontrivial(uint64_t(A) * 0x9e37 + uint64_t(B) * 31 + sizeof(T));
}
UNIT(gcd_small, 32, 32, "8-bit types, every operand pair (32 slices)") {
    for (int a = -127; a <= 127; a++) for (int b = -127 + int(c.index); b <= 127; b += 32) check_gcd<int8_t>(c, a, b);
    for (int a = 0; a <= 255; a++) for (int b = int(c.index); b <= 255; b += 32) check_gcd<uint8_t>(c, a, b);
}
template<typename T> void gcd_rand(vm::Ctx& c) {
    T a = edgy<T>(c.rng), b = edgy<T>(c.rng);
    if (c.rng.coin(1, 12)) { // consecutive terms of a Fibonacci-like sequence: the longest division chains
        u128 x = 1 + c.rng.below(2), y = x + c.rng.below(3); if (x > y) std::swap(x, y); while (x + y <= u128(Lim<T>::max())) { u128 t = x + y; x = y; y = t; if (c.rng.coin(1, 200)) break; }
        a = T(x), b = T(y); if (c.rng.coin()) std::swap(a, b); if (Lim<T>::sgn && c.rng.coin()) b = -b;
    } else if (c.rng.coin()) { // plant a common factor
        int h = sizeof(T) * 4; u128 g = c.rng.bits(h - 1), p = c.rng.bits(h - 1), q = c.rng.bits(h);
        u128 A = g * p, B = g * q; if (A <= u128(Lim<T>::max()) && B <= u128(Lim<T>::max())) { a = T(A), b = T(B); if (Lim<T>::sgn && c.rng.coin()) a = -a; }
    }
    check_gcd<T>(c, a, b);
}
UNIT(gcd, 3000, 200000, "16/32/64-bit operand pairs incl. planted common factors and zeros, 60 per case") {
    for (int i = 0; i < 10; i++) { gcd_rand<int16_t>(c); gcd_rand<uint16_t>(c); gcd_rand<int32_t>(c); gcd_rand<uint32_t>(c); gcd_rand<int64_t>(c); gcd_rand<uint64_t>(c); }
}
UNIT(gcd_max, 1000, 60000, "gcd_max(a,b): largest divisor of b made of primes of a; 50 pairs per case") {
    for (int i = 0; i < 50; i++) {
        int64_t a = c.rng.coin(1, 3) ? c.rng.range(0, 60) : c.rng.bits(24), b = c.rng.coin(1, 3) ? c.rng.range(1, 3000) : c.rng.bits(30) + 1;
        if (c.rng.coin(1, 3)) { b = 1; while (b < (1 << 24)) b *= c.rng.pick({2, 3, 5, 7, 11}); a = 1; for (int j = 0; j < 3; j++) a *= c.rng.pick({2, 3, 5, 7, 13}); }
        c.input("gcd_max a=%lld b=%lld", (long long)a, (long long)b);
        int64_t r = b, want = 1;
        for (int64_t p = 2; p * p <= r; p++) while (r % p == 0) { r /= p; if (a % p == 0) want *= p; }
        if (r > 1 && a % r == 0) want *= r;
        c.eq(gcd_max<int64_t>(a, b), want, "gcd_max");
        c.nontrivial(a * 31 + b);
    }
}
UNIT(pow, 2400, 200000, "powT on built-in integers, exact where representable and modulo 2^w for unsigned types; 40 per case") {
    for (int i = 0; i < 40; i++) {
        int64_t x = c.rng.coin() ? c.rng.range(-20, 20) : c.rng.edgy(-INT64_MAX, INT64_MAX); int y = (int)c.rng.below(70);
        c.input("powT x=%lld y=%d", (long long)x, y);
        i128 r = 1; bool fits = true;
        for (int k = 0; k < y; k++) { r *= x; if (r > INT64_MAX || r < INT64_MIN) { fits = false; break; } }
        if (fits) { c.eq(powT<int64_t>(x, y), int64_t(r), "powT"); c.event("powT exact signed"); }
        if (fits && r <= INT32_MAX && r >= INT32_MIN && x <= INT32_MAX && x >= INT32_MIN) c.eq(powT<int32_t>(int32_t(x), y), int32_t(r), "powT32");
        uint64_t u = c.rng.edgyu(~0ull); uint64_t e = c.rng.coin() ? c.rng.below(300) : c.rng.edgyu(~0ull);
        c.input("powT x=%llu y=%llu mod 2^64", (unsigned long long)u, (unsigned long long)e);
        // reference: left-to-right binary
        uint64_t w = 1; for (int b = 63; b >= 0; b--) { w *= w; if (e >> b & 1) w *= u; }
        c.eq(powT<uint64_t>(u, e), w, "powT_u64"); c.eq(powT<uint32_t>(uint32_t(u), e), uint32_t(w), "powT_u32");
        c.nontrivial(u * 31 + e);
    }
}
UNIT(order, 80, 800, "absT/minT/maxT/boundT on random and equal values, 100 per case") {
    for (int i = 0; i < 100; i++) {
        int64_t x = edgy<int64_t>(c.rng), l = edgy<int64_t>(c.rng), r = edgy<int64_t>(c.rng); if (l > r) std::swap(l, r);
        if (c.rng.coin(1, 8)) x = l; if (c.rng.coin(1, 8)) x = r;
        c.input("x=%lld l=%lld r=%lld", (long long)x, (long long)l, (long long)r);
        c.eq(absT(x), x < 0 ? -x : x, "absT"); c.eq(minT(x, l), std::min(x, l), "minT"); c.eq(maxT(x, l), std::max(x, l), "maxT");
        c.eq(boundT(x, l, r), x < l ? l : x > r ? r : x, "boundT");
        { double d = (double)c.rng.bits(1 + (int)c.rng.below(60)) * std::pow(2.0, (double)c.rng.range(-60, 60)); float f = (float)d; long double e = d;
          auto near = [](long double got, long double want, long double eps) { return std::fabs(got - want) <= eps * want; };
          c.ok(near(sqrtT(d), std::sqrt(d), 1e-15L) && near(sqrtT(e), std::sqrt(e), 1e-15L), "sqrtT of reals"); c.ok(near(cbrtT(d), std::cbrt(d), 1e-15L), "cbrtT of reals");
          if (std::isfinite(f) && f > 1e-30f) c.ok(near(sqrtT(f), std::sqrt(f), 2e-7L) && near(cbrtT(f), std::cbrt(f), 2e-7L), "roots of floats"); }
        c.eq(castOf<int64_t>(x), x, "cast to the same type"); c.eq(castOf(l, x), x, "cast to the type of a reference"); c.eq(castOf<double>((int32_t)x), (double)(int32_t)x, "cast to double"); c.eq(castOf<uint32_t>(x), (uint32_t)x, "cast to a narrower type");
        c.eq(identityOf(x), (int64_t)1, "identityOf"); c.eq(zeroOf(x), (int64_t)0, "zeroOf");
        c.nontrivial_input();
    }
}
