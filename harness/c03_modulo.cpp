// C03: residue-class arithmetic
#include "vm.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/polynom.h"
using namespace altruct::math;
using vm::i128; using vm::u128;

template<typename T> struct Lim { static const bool sgn = std::is_signed<T>::value; static const uint64_t max = uint64_t(std::numeric_limits<T>::max()); };
template<typename T> std::string tn() { return std::string(std::is_signed<T>::value ? "int" : "uint") + std::to_string(sizeof(T) * 8) + (std::is_same<T, long long>::value || std::is_same<T, unsigned long long>::value ? "ll" : ""); }
static uint64_t rmul(uint64_t a, uint64_t b, uint64_t m) { return uint64_t(u128(a) * b % m); }
static uint64_t rpow(uint64_t a, uint64_t e, uint64_t m) { uint64_t r = 1 % m; for (int i = 63; i >= 0; i--) { r = rmul(r, r, m); if (e >> i & 1) r = rmul(r, a, m); } return r; }
static uint64_t rgcd(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
static uint64_t rnorm(i128 v, uint64_t m) { i128 r = v % i128(m); if (r < 0) r += m; return uint64_t(r); }
template<typename T> bool inv_domain(uint64_t M) { return !(sizeof(T) == 2 && !Lim<T>::sgn && M > 32768); } // uint16: cofactor products must fit int

// all operations on one pair of residues; `mk` builds a residue in the storage mode under test
template<typename MOD, typename T, typename MK> void ops(vm::Ctx& c, MK mk, uint64_t M, uint64_t x, uint64_t y) {
    MOD a = mk(T(x)), b = mk(T(y));
    auto val = [](const MOD& m) { return uint64_t(m.v); };
    c.eq(val(a), x, "normalize"); c.eq(val(b), y, "normalize");
    c.eq(uint64_t(a.M()), M, "modulus");
    c.eq(val(a + b), uint64_t((u128(x) + y) % M), "add");
    c.eq(val(a - b), uint64_t((u128(x) + M - y) % M), "sub");
    c.eq(val(a * b), rmul(x, y, M), "mul");
    c.eq(val(-a), x ? M - x : 0, "neg"); c.eq(val(a.neg()), x ? M - x : 0, "neg");
    { MOD t = a; t += b; t -= a; c.eq(val(t), y, "add-assign/sub-assign"); t = a; t *= b; c.eq(val(t), rmul(x, y, M), "mul-assign"); t = a; t += t; c.eq(val(t), uint64_t(u128(x) * 2 % M), "self add"); t = a; t *= t; c.eq(val(t), rmul(x, x, M), "self mul"); t = a; t -= t; c.eq(val(t), uint64_t(0), "self sub"); }
    c.ok((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "compare");
    c.eq(uint64_t(identityOf(a).v), 1 % M, "identity"); c.eq(uint64_t(zeroOf(a).v), uint64_t(0), "zero"); c.eq(uint64_t(identityOf(a).M()), M, "identity modulus");
    if (y) c.eq(val(a % b), x % y, "rem");
    if (!inv_domain<T>(M)) return;
    uint64_t g = rgcd(x, M);
    MOD i = a.inv();
    if (g == 1) { c.ok(val(i) < M, "inv range", vm::str(val(i))); c.eq(rmul(x, val(i), M), 1 % M, "inv"); c.event("inverse exists"); }
    else { c.eq(val(i), uint64_t(0), "inv of a non-unit"); c.event("no inverse"); }
    uint64_t h = rgcd(y, M);
    if (x % h == 0) { // b*z=a has a solution
        MOD q = a / b;
        c.ok(val(q) < M, "div range", vm::str(val(q))); c.eq(rmul(y, val(q), M), x, "div");
        MOD t = a; t /= b; c.eq(val(t), val(q), "div-assign");
        c.event(h == 1 ? "division by unit" : "division with common factor");
    }
    if (y < M && x) c.nontrivial(M * 0x9e3779b97f4a7c15ull + x * 31 + y);
}
template<typename T> void one_instance(vm::Ctx& c, uint64_t M, uint64_t x, uint64_t y) {
    typedef moduloX<T> mod;
    c.input("instance %s M=%llu x=%llu y=%llu", tn<T>().c_str(), (unsigned long long)M, (unsigned long long)x, (unsigned long long)y);
    ops<mod, T>(c, [&](T v) { return mod(v, T(M)); }, M, x, y);
}
template<typename T, uint64_t ID> void one_static(vm::Ctx& c, uint64_t M, uint64_t x, uint64_t y) {
    typedef modulo<T, ID, modulo_storage::STATIC> mod;
    c.input("static %s M=%llu x=%llu y=%llu", tn<T>().c_str(), (unsigned long long)M, (unsigned long long)x, (unsigned long long)y);
    mod::M() = T(M);
    ops<mod, T>(c, [&](T v) { return mod(v); }, M, x, y);
}
template<typename T, uint64_t ID> void one_const(vm::Ctx& c, uint64_t x, uint64_t y) {
    typedef modulo<T, ID, modulo_storage::CONSTANT> mod;
    c.input("constant %s M=%llu x=%llu y=%llu", tn<T>().c_str(), (unsigned long long)ID, (unsigned long long)x, (unsigned long long)y);
    ops<mod, T>(c, [&](T v) { return mod(v); }, ID, x, y);
}
UNIT(all8, 256, 256, "8-bit residues: every modulus, every operand pair, per-instance and static modulus (one modulus per case)") {
    uint64_t M = c.index; if (M == 0) { c.checks(); return; }
    for (uint64_t x = 0; x < M; x++) for (uint64_t y = 0; y < M; y++) {
        if (M <= 127) one_instance<int8_t>(c, M, x, y);
        one_static<uint8_t, 300>(c, M, x, y);
        if ((x + y) % 5 == 0) one_instance<uint8_t>(c, M, x, y);
    }
}
template<typename T> uint64_t gen_mod(vm::Rng& r) {
    uint64_t mx = Lim<T>::max, M;
    switch (r.below(6)) {
    case 0: M = mx - r.below(20); break;
    case 1: M = mx / 2 + 1 + r.below(40) - 20; break;
    case 2: M = 1 + r.below(40); break;
    case 3: { M = 1; while (M < mx / 64) M *= r.pick({2, 3, 4, 5, 6, 7}); break; }
    case 4: M = r.edgyu(mx); break;
    default: M = r.bits(64) & mx;
    }
    return M == 0 || M > mx ? mx : M;
}
static uint64_t gen_res(vm::Rng& r, uint64_t M) {
    uint64_t x;
    switch (r.below(6)) {
    case 0: x = M - 1 - r.below(3) % M; break;
    case 1: x = r.below(4); break;
    case 2: x = M / 2 + r.below(3); break;
    case 3: { uint64_t g = 1 + r.below(30); x = r.below(M / g + 1) * g; break; }
    case 4: x = r.bits(64); break;
    default: x = r.below(M);
    }
    return x % M;
}
template<typename T> void round(vm::Ctx& c) {
    uint64_t M = gen_mod<T>(c.rng), x = gen_res(c.rng, M), y = gen_res(c.rng, M);
    if (c.rng.coin(1, 4)) { uint64_t g = rgcd(M, gen_res(c.rng, M)); if (g) { x = x / g * g; y = y / g * g; } }
    if (c.rng.coin()) one_instance<T>(c, M, x, y); else one_static<T, 1234567>(c, M, x, y);
}
UNIT(wide, 3000, 200000, "16/32/64-bit signed and unsigned residues, moduli up to the type maximum, 60 operand pairs per case") {
    for (int i = 0; i < 10; i++) { round<int16_t>(c); round<uint16_t>(c); round<int32_t>(c); round<uint32_t>(c); round<int64_t>(c); round<uint64_t>(c); round<long long>(c); round<unsigned long long>(c); }
}
template<typename T, uint64_t ID> void cround(vm::Ctx& c) { one_const<T, ID>(c, gen_res(c.rng, ID), gen_res(c.rng, ID)); }
UNIT(constant, 3000, 100000, "compile-time moduli (1, 2, primes, composites, type maxima) in all widths") {
    cround<int8_t, 127>(c); cround<uint8_t, 251>(c); cround<uint8_t, 255>(c); cround<int8_t, 1>(c); cround<int16_t, 32767>(c); cround<uint16_t, 30030>(c);
    cround<int32_t, 1000000007>(c); cround<int32_t, 2147483647>(c); cround<int32_t, 2>(c); cround<int32_t, 1>(c); cround<int32_t, 1024>(c); cround<int32_t, 998244353>(c);
    cround<uint32_t, 4294967291u>(c); cround<uint32_t, 4294967295u>(c); cround<uint32_t, 2147483648u>(c); cround<int64_t, 1000000000039LL>(c); cround<int64_t, 9223372036854775783LL>(c);
    cround<int64_t, 9223372036854775807LL>(c); cround<uint64_t, 18446744073709551557ull>(c); cround<uint64_t, 18446744073709551615ull>(c); cround<uint64_t, 6>(c); cround<long long, 1000000007>(c); cround<unsigned long long, 1000000000000000003ull>(c);
}
// construction from every integer type
template<typename T, typename I> void from_int(vm::Ctx& c) {
    uint64_t M = gen_mod<T>(c.rng);
    I v = std::is_signed<I>::value ? I(c.rng.edgy(int64_t(std::numeric_limits<I>::min()), int64_t(std::numeric_limits<I>::max()))) : I(c.rng.edgyu(uint64_t(std::numeric_limits<I>::max())));
    if (c.rng.coin(1, 4)) v = I(i128(M) * int64_t(c.rng.below(9)) - 4 + int64_t(c.rng.below(9)));
    c.input("normalize %s(%s) mod %s %llu", tn<I>().c_str(), vm::str(i128(v)).c_str(), tn<T>().c_str(), (unsigned long long)M);
    uint64_t want = rnorm(i128(v), M);
    c.eq(uint64_t(moduloX<T>(v, T(M)).v), want, "construct instance");
    typedef modulo<T, 99, modulo_storage::STATIC> ms; ms::M() = T(M);
    c.eq(uint64_t(ms(v).v), want, "construct static");
    c.eq(uint64_t(castOf<ms>(v).v), want, "cast static");
    c.eq(uint64_t(castOf(moduloX<T>(T(0), T(M)), v).v), want, "cast with reference");
    if (std::is_same<T, I>::value) c.eq(uint64_t(modT<T>(T(v), T(M))), want, "modT");
    c.nontrivial_input();
}
template<typename T> void from_all(vm::Ctx& c) {
    from_int<T, int8_t>(c); from_int<T, uint8_t>(c); from_int<T, int16_t>(c); from_int<T, uint16_t>(c); from_int<T, int32_t>(c);
    from_int<T, uint32_t>(c); from_int<T, int64_t>(c); from_int<T, uint64_t>(c);
}
UNIT(construct, 1500, 80000, "construction from all 8 integer types into all 8 value types, incl. the most negative values") {
    from_all<int8_t>(c); from_all<uint8_t>(c); from_all<int16_t>(c); from_all<uint16_t>(c); from_all<int32_t>(c); from_all<uint32_t>(c); from_all<int64_t>(c); from_all<uint64_t>(c);
}
template<typename T> void pows(vm::Ctx& c) {
    uint64_t M = gen_mod<T>(c.rng), x = gen_res(c.rng, M), e = c.rng.coin() ? c.rng.below(40) : c.rng.edgyu(~0ull);
    c.input("pow %s M=%llu x=%llu e=%llu", tn<T>().c_str(), (unsigned long long)M, (unsigned long long)x, (unsigned long long)e);
    uint64_t want = rpow(x, e, M);
    c.eq(uint64_t(powT(moduloX<T>(T(x), T(M)), e).v), want, "powT");
    c.eq(uint64_t(modulo_power<T, uint64_t>(T(x), e, T(M))), want, "modulo_power");
    typedef modulo<T, 98, modulo_storage::STATIC> ms; ms::M() = T(M);
    c.eq(uint64_t(powT(ms(T(x)), e).v), want, "powT static");
    c.nontrivial_input();
}
UNIT(power, 1000, 60000, "exponentiation with exponents up to 2^64 in all value types") {
    for (int i = 0; i < 3; i++) { pows<int8_t>(c); pows<uint8_t>(c); pows<int16_t>(c); pows<uint16_t>(c); pows<int32_t>(c); pows<uint32_t>(c); pows<int64_t>(c); pows<uint64_t>(c); pows<long long>(c); }
}
UNIT(chain, 1200, 60000, "random expression chains of 40 operations on mixed storage modes kept in step with 128-bit arithmetic") {
    uint64_t M = gen_mod<int64_t>(c.rng);
    typedef modulo<int64_t, 97, modulo_storage::STATIC> ms; ms::M() = int64_t(M);
    uint64_t r = gen_res(c.rng, M); ms a((int64_t)r); moduloX<int64_t> b((int64_t)r, (int64_t)M); moduloX<uint64_t> u(r, M);
    c.input("chain M=%llu start=%llu", (unsigned long long)M, (unsigned long long)r);
    for (int i = 0; i < 40; i++) {
        uint64_t y = gen_res(c.rng, M); int op = (int)c.rng.below(4);
        moduloX<int64_t> yb((int64_t)y, (int64_t)M); ms ya((int64_t)y); moduloX<uint64_t> yu(y, M);
        if (op == 0) r = uint64_t((u128(r) + y) % M), a += ya, b += yb, u += yu;
        if (op == 1) r = uint64_t((u128(r) + M - y) % M), a -= ya, b -= yb, u -= yu;
        if (op == 2) r = rmul(r, y, M), a *= ya, b *= yb, u *= yu;
        if (op == 3) { if (rgcd(y, M) != 1) continue; a /= ya, b /= yb, u /= yu; c.ok(uint64_t(a.v) < M, "chain range"); c.eq(rmul(uint64_t(a.v), y, M), r, "chain div"); r = uint64_t(a.v); }
        c.eq(uint64_t(a.v), r, "chain static"); c.eq(uint64_t(b.v), r, "chain instance"); c.eq(u.v, r, "chain unsigned");
    }
    c.nontrivial(M * 31 + r);
}
// extension fields: residues of polynomials over Z_p modulo an irreducible polynomial
UNIT(gf, 300, 20000, "Z_p[x]/(f) for irreducible f: products, inverses, division and powers against schoolbook reduction") {
    typedef modulo<int, 96, modulo_storage::STATIC> zp; typedef polynom<zp> poly; typedef moduloX<poly> gf;
    struct { int p; std::vector<int> f; } F[] = { {2, {1, 1, 1}}, {2, {1, 1, 0, 1}}, {2, {1, 1, 0, 1, 1, 0, 0, 0, 1}}, {3, {1, 0, 1}}, {3, {1, 2, 0, 1}}, {5, {2, 0, 1}}, {7, {1, 0, 1}}, {7, {2, 0, 0, 1}}, {101, {2, 0, 1}} };
    auto& q = F[c.rng.below(9)]; int p = q.p, d = (int)q.f.size() - 1;
    zp::M() = p;
    auto mkp = [](const std::vector<int>& v) { std::vector<zp> w; for (int x : v) w.push_back(zp(x)); return poly(w); };
    poly f = mkp(q.f);
    auto rnd = [&]() { std::vector<int> v(d); for (int& x : v) x = (int)c.rng.below(p); return v; };
    auto red = [&](std::vector<int> v) { while ((int)v.size() > d) { int t = v.back(), s = (int)v.size() - 1 - d; for (int i = 0; i <= d; i++) v[s + i] = ((v[s + i] - t * q.f[i]) % p + p) % p; v.pop_back(); } v.resize(d); return v; };
    auto mul = [&](const std::vector<int>& a, const std::vector<int>& b) { std::vector<int> r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = (r[i + j] + a[i] * b[j]) % p; return red(r); };
    auto mk = [&](const std::vector<int>& v) { return gf(mkp(v), f); };
    auto get = [&](const gf& g) { std::vector<int> v; for (int i = 0; i < d; i++) v.push_back(g.v.at(i).v); return v; };
    auto a = rnd(), b = rnd();
    c.input("GF(%d^%d) a=%s b=%s", p, d, vm::str(a).c_str(), vm::str(b).c_str());
    gf A = mk(a), B = mk(b);
    std::vector<int> s(d), m(d), n(d); bool bz = true; for (int i = 0; i < d; i++) s[i] = (a[i] + b[i]) % p, m[i] = (a[i] - b[i] + p) % p, n[i] = (p - a[i]) % p, bz &= b[i] == 0;
    c.eq(get(A + B), s, "gf add"); c.eq(get(A - B), m, "gf sub"); c.eq(get(-A), n, "gf neg"); c.eq(get(A * B), mul(a, b), "gf mul");
    std::vector<int> one(d); one[0] = 1;
    auto pw = one; int e = (int)c.rng.below(30); for (int i = 0; i < e; i++) pw = mul(pw, a);
    c.eq(get(powT(A, e)), pw, "gf pow");
    if (!bz) { c.eq(mul(get(B.inv()), b), one, "gf inv"); c.eq(mul(get(A / B), b), a, "gf div"); }
    // an over-long representative is reduced on construction
    auto L = rnd(); auto hi = rnd(); L.insert(L.end(), hi.begin(), hi.end());
    c.eq(get(gf(mkp(L), f)), red(L), "gf normalize");
    c.nontrivial_input();
}

template<typename I> static void gcdex(vm::Ctx& c, const char* tag) {
    auto& r = c.rng; I mx = std::numeric_limits<I>::max(); typedef __int128 W;
    for (int k = 0; k < 30; k++) { I a = (I)(1 + r.below((uint64_t)mx)), b = (I)(1 + r.below((uint64_t)mx)); if (r.coin()) a = (I)(2 + r.below(60)); if (r.coin()) b = (I)(2 + r.below(60)); if (r.coin(1, 5) && a <= mx / 64) b = (I)(a * (1 + r.below(60))); if (r.coin()) std::swap(a, b); c.input("%s n1=%llu n2=%llu", tag, (unsigned long long)a, (unsigned long long)b);
        I x = 77, y = 77, g = modulo_gcd_ex(a, b, x, y); W h = a, t = b; while (t) { W u = h % t; h = t; t = u; } c.ok((W)g == h, "gcd"); c.ok(x >= 0 && y >= 0 && ((W)x < (W)b || b == 1) && ((W)y < (W)a || a == 1), "coefficients reduced", vm::str((long long)x) + " " + vm::str((long long)y)); c.ok(((W)x % b * (a % b) - h) % b == 0 && ((W)y % a * (b % a) - h) % a == 0, "coefficients are inverses modulo each other", vm::str((long long)x) + " " + vm::str((long long)y)); if (a > 2 && b > 2) c.nontrivial_input(); }
}
UNIT(bezout, 600, 20000, "modulo_gcd_ex in signed and unsigned 32/64-bit types, with common factors and divisors") { gcdex<int32_t>(c, "int32"); gcdex<int64_t>(c, "int64"); gcdex<int16_t>(c, "int16"); }
