// C36: composed wide integers of 8- to 1024-bit against GMP arithmetic modulo 2^bits.
#include "vm.h"
#include <gmp.h>
#include <memory>
#include "altruct/structure/math/double_int.h"

namespace am = altruct::math;

namespace {
// carry, borrow and full product of a machine word, as the header asks its user for
template<typename U, typename W> struct intr {
    U adc(U x, U y, int& carry) const { W r = W(x) + W(y) + W(carry); carry = (int)(r >> (8 * sizeof(U))); return U(r); }
    U sbb(U x, U y, int& borrow) const { W r = W(x) - W(y) - W(borrow); borrow = (int)((r >> (8 * sizeof(U))) & 1); return U(r); }
    U umul(U x, U y, U* hi) const { W r = W(x) * W(y); *hi = U(r >> (8 * sizeof(U))); return U(r); }
};
typedef am::prim_int<int8_t, uint8_t, intr<uint8_t, uint32_t>> p8; typedef am::prim_int<int16_t, uint16_t, intr<uint16_t, uint32_t>> p16; typedef am::prim_int<int32_t, uint32_t, intr<uint32_t, uint64_t>> p32; typedef am::prim_int<int64_t, uint64_t, intr<uint64_t, unsigned __int128>> p64;
template<typename T, int K> struct nest { typedef am::double_int<typename nest<T, K - 1>::type> type; };
template<typename T> struct nest<T, 0> { typedef T type; };

struct Z { mpz_t v; Z() { mpz_init(v); } Z(const Z& o) { mpz_init_set(v, o.v); } Z(long x) { mpz_init_set_si(v, x); } Z& operator=(const Z& o) { mpz_set(v, o.v); return *this; } ~Z() { mpz_clear(v); }
    Z u(int bits) const { Z r; mpz_fdiv_r_2exp(r.v, v, bits); return r; } Z s(int bits) const { Z r = u(bits); if (mpz_tstbit(r.v, bits - 1)) { Z m; mpz_setbit(m.v, bits); mpz_sub(r.v, r.v, m.v); } return r; }
    bool operator==(const Z& o) const { return mpz_cmp(v, o.v) == 0; } bool operator<(const Z& o) const { return mpz_cmp(v, o.v) < 0; } };
#define ZOP(op, fn) Z operator op(const Z& a, const Z& b) { Z r; fn(r.v, a.v, b.v); return r; }
ZOP(+, mpz_add) ZOP(-, mpz_sub) ZOP(*, mpz_mul) ZOP(/, mpz_tdiv_q) ZOP(%, mpz_tdiv_r) ZOP(&, mpz_and) ZOP(|, mpz_ior) ZOP(^, mpz_xor)
Z shl(const Z& a, int n) { Z r; mpz_mul_2exp(r.v, a.v, n); return r; } Z shr(const Z& a, int n) { Z r; mpz_fdiv_q_2exp(r.v, a.v, n); return r; }
std::string hex(const Z& z, int bits) { char* s = mpz_get_str(nullptr, 16, z.v); std::string r(s); void (*fr)(void*, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(s, r.size() + 1); while ((int)r.size() < bits / 4) r = "0" + r; return r; }

// the unsigned value of a library number, read from its words; and the other way round
template<typename S, typename U, typename I> void get(const am::prim_int<S, U, I>& x, Z& out, int at) { Z w; uint64_t u = (U)x.v; mpz_import(w.v, 1, -1, 8, 0, 0, &u); out = out + shl(w, at); }
template<typename T> void get(const am::double_int<T>& x, Z& out, int at) { get(x.lo, out, at); get(x.hi, out, at + T::type_bits); }
template<typename X> Z val(const X& x) { Z z; get(x, z, 0); return z; }
template<typename S, typename U, typename I> void set(am::prim_int<S, U, I>& x, const Z& z, int at) { Z w = shr(z, at).u(8 * sizeof(U)); uint64_t u = 0; mpz_export(&u, nullptr, -1, 8, 0, 0, w.v); x.v = (S)(U)u; }
template<typename T> void set(am::double_int<T>& x, const Z& z, int at) { set(x.lo, z, at); set(x.hi, z, at + T::type_bits); }

Z gen(vm::Rng& r, int bits) {
    Z z; int mode = (int)r.below(7);
    for (int i = 0; i < bits; i += 8) { uint64_t b; switch (mode) { case 0: b = r.below(256); break; case 1: b = r.coin() ? 0 : 255; break; case 2: b = r.pick({0, 255, 1, 128, 127, 254, 85}); break; default: b = r.below(256); } Z w((long)b); z = z + shl(w, i); }
    switch (mode) { case 3: z = shr(z, (int)r.below(bits + 1)); break; case 4: z = Z((long)r.below(20)); if (r.coin()) z = Z(0) - z; break; case 5: { z = shl(Z(1), (int)r.below(bits)); z = z + Z((long)r.range(-2, 2)); if (r.coin()) z = Z(0) - z; break; } case 6: { int k = 8 << r.below(4); for (Z m = z.u(std::min(bits, k)); k < bits; k *= 2) m = r.coin() ? m + shl(m, k) : shl(m, k), z = m; break; } }
    return z.u(bits);
}
template<typename X> X make(const Z& z) { X x; set(x, z, 0); return x; }
template<typename X> struct tester {
    vm::Ctx& c; const int B = X::type_bits; Z a, b; X x, y;
    tester(vm::Ctx& c) : c(c), a(gen(c.rng, X::type_bits)), b(c.rng.coin(1, 8) ? a : gen(c.rng, X::type_bits)), x(make<X>(a)), y(make<X>(b)) { c.input("%d bits %s %s", B, hex(a, B).c_str(), hex(b, B).c_str()); }
    void is(const X& got, const Z& want, const char* tag) { c.checks(); Z g = val(got), w = want.u(B); if (!(g == w)) c.fail(tag, std::string(tag) + ": got " + hex(g, B) + ", want " + hex(w, B)); }
    void common() {
        Z sa = a.s(B), sb = b.s(B); int k = c.rng.coin(1, 4) ? (int)c.rng.pick({1, 7, 8, 9, B / 2 - 1, B / 2, B / 2 + 1, B - 1}) : 1 + (int)c.rng.below(B - 1); k = std::min(std::max(k, 1), B - 1);
        is(x + y, a + b, "+"); is(x - y, a - b, "-"); is(x * y, a * b, "*"); is(-x, Z(0) - a, "unary -"); is(+x, a, "unary +"); is(~x, Z(-1) - a, "~"); is(x & y, a & b, "&"); is(x | y, a | b, "|"); is(x ^ y, a ^ b, "^"); is(x << k, shl(a, k), "<<"); is(x >> k, shr(sa, k), ">>"); is(X::unsigned_mul(x, y), a * b, "unsigned_mul");
        { X t = x; X& q = (t += y); is(q, a + b, "+="); c.ok(&q == &t, "+= returns the object"); t = x; is(t -= y, a - b, "-="); t = x; is(t *= y, a * b, "*="); t = x; is(t &= y, a & b, "&="); t = x; is(t |= y, a | b, "|="); t = x; is(t ^= y, a ^ b, "^="); t = x; is(t <<= k, shl(a, k), "<<="); t = x; is(t >>= k, shr(sa, k), ">>="); is(t, shr(sa, k), ">>= stores"); t = x; is(t += t, a + a, "+= itself"); t = x; is(t -= t, Z(0), "-= itself"); t = x; is(t *= t, a * a, "*= itself"); t = x; is(t.negate(), Z(0) - a, "negate"); is(t, Z(0) - a, "negate stores"); }
        { X t = x; is(++t, a + Z(1), "++x"); is(t, a + Z(1), "++x stores"); t = x; is(--t, a - Z(1), "--x"); t = x; is(t++, a, "x++"); is(t, a + Z(1), "x++ stores"); t = x; is(t--, a, "x--"); is(t, a - Z(1), "x-- stores"); }
        { X t = x; is(t.assign_unsigned_shr(k), shr(a, k), "assign_unsigned_shr"); t = x; is(t.assign_extended_shr(k, 0), shr(a, k), "assign_extended_shr:0"); t = x; is(t.assign_extended_shr(k, -1), shr(a, k) + shl(shl(Z(1), k) - Z(1), B - k), "assign_extended_shr:1"); }
        { int cy = (int)c.rng.below(2), c0 = cy; X t = x; t.assign_adc(y, cy); Z w = a + b + Z(c0); is(t, w, "assign_adc"); c.eq(cy, w == w.u(B) ? 0 : 1, "assign_adc:carry"); int bo = c0; t = x; t.assign_sbb(y, bo); w = a - b - Z(c0); is(t, w, "assign_sbb"); c.eq(bo, w == w.u(B) ? 0 : 1, "assign_sbb:borrow"); if (cy || bo) c.event("carries and borrows"); }
        { auto f = X::unsigned_mul_full(x, y); Z g = val(f), w = a * b; c.checks(); if (!(g == w)) c.fail("unsigned_mul_full", "unsigned_mul_full: got " + hex(g, 2 * B) + ", want " + hex(w, 2 * B)); }
        c.eq(x == y, a == b, "=="); c.eq(x != y, !(a == b), "!="); c.eq(x < y, sa < sb, "<"); c.eq(x > y, sb < sa, ">"); c.eq(x <= y, !(sb < sa), "<="); c.eq(x >= y, !(sa < sb), ">="); c.eq(x.unsigned_lt(y), a < b, "unsigned_lt"); c.eq(x.unsigned_gt(y), b < a, "unsigned_gt"); c.eq(x.unsigned_lte(y), !(b < a), "unsigned_lte"); c.eq(x.unsigned_gte(y), !(a < b), "unsigned_gte");
        c.eq(x.is_negative(), sa < Z(0), "is_negative"); c.eq(x.leading_zeros_count(), a == Z(0) ? B : B - (int)mpz_sizeinbase(a.v, 2), "leading_zeros_count"); c.eq(x.to_string16(), hex(a, B), "to_string16"); uint64_t lowest = 0; Z l = a.u(64); mpz_export(&lowest, nullptr, -1, 8, 0, 0, l.v); c.eq(x.to_uint64(), lowest, "to_uint64");
        Z d = b.u(B); if (!(d == Z(0))) { X r; is(X::unsigned_div(x, y, &r), a / b, "unsigned_div"); is(r, a % b, "unsigned_div:remainder"); is(X::unsigned_div(x, y), a / b, "unsigned_div:no remainder asked"); Z mn = Z(0) - shl(Z(1), B - 1); bool over = sa == mn && sb == Z(-1); if (!over || B > 64) { is(x / y, sa / sb, "/"); is(x % y, sa % sb, "%"); X t = x; is(t /= y, sa / sb, "/="); t = x; is(t %= y, sa % sb, "%="); } c.event("divisions"); if (!(a < b)) c.event("divisions with a nonzero quotient"); }
        is(x, a, "operand unchanged"); is(y, b, "operand unchanged"); c.event("operand pairs"); if (!(a == Z(0)) && !(b == Z(0))) c.nontrivial_input();
    }
    template<typename P> void composed() { // construction from words, and shifts by nothing and by everything
        common(); Z sa = a.s(B); typename X::half_type hi, lo; set(hi, a, B / 2); set(lo, a, 0); is(X(hi, lo), a, "from halves"); is(X(lo), a.u(B / 2).s(B / 2), "from a half"); { X t(x); is(t, a, "copy"); t = y; is(t, b, "assignment"); is(x, a, "source unchanged"); } int v = c.rng.coin() ? (int)c.rng.range(-100, 100) : (int)c.rng.edgy(P::type_bits >= 32 ? INT32_MIN : -(1 << (P::type_bits - 1)), P::type_bits >= 32 ? INT32_MAX : (1 << (P::type_bits - 1)) - 1); is(X(v), Z(v), "from int"); is(x + v, a + Z(v), "+ int"); is(X(), Z(0), "default"); is(am::identityT<X>::of(x), Z(1), "identityT"); is(am::zeroT<X>::of(x), Z(0), "zeroT");
        is(x << 0, a, "<< 0"); is(x >> 0, sa, ">> 0"); int k = B + (int)c.rng.below(2) * (int)c.rng.below(40); is(x << k, Z(0), "<< all"); is(x >> k, sa < Z(0) ? Z(-1) : Z(0), ">> all"); X t = x; is(t.assign_unsigned_shr(k), Z(0), "assign_unsigned_shr all"); X r; if (!(b == Z(0))) { is(X::signed_div(x, y, &r), sa / b.s(B), "signed_div"); is(r, sa % b.s(B), "signed_div:remainder"); }
    }
};
template<typename P, int K> void one(vm::Ctx& c) { tester<typename nest<P, K>::type>(c).template composed<P>(); }
}
UNIT(words, 6000, 1000000, "a pair of single machine words of 8, 16, 32 or 64 bits through every operation") { switch (c.rng.below(4)) { case 0: tester<p8>(c).common(); break; case 1: tester<p16>(c).common(); break; case 2: tester<p32>(c).common(); break; default: tester<p64>(c).common(); } }
UNIT(wide_of_small_words, 6000, 800000, "a pair of 16- to 256-bit integers composed of 8-, 16- or 32-bit words through every operation") { switch (c.rng.below(8)) { case 0: one<p8, 1>(c); break; case 1: one<p8, 2>(c); break; case 2: one<p8, 3>(c); break; case 3: one<p8, 4>(c); break; case 4: one<p16, 1>(c); break; case 5: one<p16, 3>(c); break; case 6: one<p32, 1>(c); break; default: one<p32, 3>(c); } }
UNIT(wide_of_large_words, 4000, 500000, "a pair of 128- to 1024-bit integers composed of 64-bit words through every operation") { switch (c.rng.below(8)) { case 0: case 1: case 2: one<p64, 1>(c); break; case 3: case 4: one<p64, 2>(c); break; case 5: case 6: one<p64, 3>(c); break; default: one<p64, 4>(c); } }
