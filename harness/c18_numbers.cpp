// C18: quadratic/complex, fraction, GF(2), nimber, with_infinity, Moebius transformations, symbolic
#include "vm.h"
#include "altruct/structure/math/quadratic.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/galois_field_2.h"
#include "altruct/structure/math/nimber.h"
#include "altruct/structure/math/with_infinity.h"
#include "altruct/structure/math/moebius_tr.h"
#include "altruct/structure/math/symbolic.h"
#include "str_math.h"
using namespace altruct::math;
namespace altruct { namespace math {
template<typename T, int ID, int S> std::string str(const quadratic<T, ID, S>& q) { return "(" + vm::S(q.a) + "+" + vm::S(q.b) + "r" + vm::S(T(q.D())) + ")"; }
template<typename T> std::string str(const with_infinity<T>& w) { return w.is_inf ? std::string("inf") : vm::S(w.v); }
template<typename I, int B> std::string str(const nimber<I, B>& n) { return "*" + vm::S(n.v); }
template<typename I> std::string str(const galois_field_2<I>& g) { return "gf" + vm::S(g.v); }
} }
typedef int64_t ll; typedef vm::i128 i128; template<typename T> using V = std::vector<T>;

// ---------------------------------------------------------------- quadratic
// Q: the class under test over base ring T; mk builds an element, oracle carries (a, b) pairs explicitly
template<typename Q, typename T, typename MK, typename ANY> static void quad_laws(vm::Ctx& c, T D, MK mk, ANY any, bool field) {
    auto& r = c.rng; T a = any(), b = any(), x = any(), y = any(), s = any(), t = any(); Q u = mk(a, b), v = mk(x, y), w = mk(s, t); c.note(" u=" + vm::S(u) + " v=" + vm::S(v) + " w=" + vm::S(w));
    auto is = [&](const Q& q, const T& p0, const T& p1, const char* tag) { c.ok(q.a == p0 && q.b == p1 && T(q.D()) == D, tag, "got " + vm::S(q) + " want " + vm::S(p0) + "," + vm::S(p1)); };
    is(u + v, a + x, b + y, "sum"); is(u - v, a - x, b - y, "difference"); is(-u, -a, -b, "negation"); is(u * v, a * x + D * b * y, a * y + b * x, "product");
    is(u.conjugate(), a, -b, "conjugate"); c.ok(u.norm() == a * a - D * b * b, "norm"); is(u * u.conjugate(), u.norm(), a - a, "u * conj u = norm"); c.ok((u * v).norm() == u.norm() * v.norm(), "norm multiplicative"); c.ok((u * v).conjugate() == u.conjugate() * v.conjugate(), "conjugation is a homomorphism");
    c.ok(conjugateT<Q>::of(u) == u.conjugate(), "conjugateT"); is(u * s, a * s, b * s, "scaling");
    c.ok((u * v) * w == u * (v * w), "associative"); c.ok(u * v == v * u, "commutative"); c.ok(u * (v + w) == u * v + u * w, "distributive"); Q e1 = identityOf(u), e0 = zeroOf(u); c.ok(u * e1 == u && e1 * u == u && u + e0 == u && u - u == e0 && u * e0 == e0, "identities"); c.ok(T(e1.D()) == D && T(e0.D()) == D, "identities keep D");
    Q z = u; z += v; c.ok(z == u + v, "+="); z = u; z -= v; c.ok(z == u - v, "-="); z = u; z *= v; c.ok(z == u * v, "*="); z = u; z *= z; c.ok(z == u * u, "self *="); z = u; z += z; c.ok(z == u + u, "self +="); z = u; z -= z; c.ok(z == e0, "self -="); z = u; z *= z.a; is(z, a * a, b * a, "scaling by own real part"); z = u; z *= z.b; is(z, a * b, b * b, "scaling by own second part");
    Q cc = castOf(u, 5); c.ok(cc.a == castOf(a, 5) && cc.b == castOf(a, 0) && T(cc.D()) == D, "cast in context");
    // order
    bool lt = u.a < v.a || (u.a == v.a && u.b < v.b), eq = u.a == v.a && u.b == v.b; c.ok((u < v) == lt && (u == v) == eq && (u != v) == !eq && (u <= v) == (lt || eq) && (u > v) == (!lt && !eq) && (u >= v) == !lt, "ordering");
    if (v.norm() != zeroOf(D)) { Q p = u * v; c.ok(p / v == u, "(u*v)/v"); Q k = p; k /= v; c.ok(k == u, "/="); Q q = u / v; c.ok(u % v == u - v * q, "u%v = u - v*(u/v)"); k = u; k %= v; c.ok(k == u - v * q, "%="); if (field) { c.ok(q * v == u, "(u/v)*v"); c.ok(k == e0, "remainder in a field"); Q inv = e1 / v; c.ok(inv * v == e1, "inverse"); } k = v; k /= k; c.ok(k == e1, "self /="); }
    if (s != zeroOf(s) ) { Q m = u * s; c.ok(m / s == u, "(u*s)/s"); Q k = u * a; if (a != a - a && field) { Q j = u; j /= j.a; c.ok(j.a == identityOf(a) && j.b * a == b, "dividing by own real part"); } (void)k; }
    if (b != zeroOf(b)) c.nontrivial_input(); (void)r;
}
typedef modulo<int, 1019, modulo_storage::CONSTANT> mp; typedef modulo<int, 1000000007, modulo_storage::CONSTANT> mb; typedef moduloX<int> mx;
UNIT(quadratic_int, 20000, 400000, "quadratic integers, D given statically, as constant and per instance; exact pair arithmetic and ring laws") {
    auto& r = c.rng; ll lim = r.pick<ll>({3, 10, 1000}); auto any = [&] { return (ll)r.range(-lim, lim); };
    switch (r.below(5)) {
    case 0: { c.input("static D=5"); typedef quadratic<ll, 5> Q; quad_laws<Q>(c, (ll)5, [](ll a, ll b) { return Q(a, b); }, any, false); break; }
    case 1: { c.input("gaussian static"); typedef quadratic<ll, -1> Q; quad_laws<Q>(c, (ll)-1, [](ll a, ll b) { return Q(a, b); }, any, false); break; }
    case 2: { c.input("complex"); typedef altruct::math::complex<ll> Q; quad_laws<Q>(c, (ll)-1, [](ll a, ll b) { return Q(a, b); }, any, false); break; }
    case 3: { c.input("constant D=-3"); typedef quadratic<ll, -3, quadratic_storage::CONSTANT> Q; quad_laws<Q>(c, (ll)-3, [](ll a, ll b) { return Q(a, b); }, any, false); break; }
    default: { ll D = r.range(-20, 20); if (D == 0) D = 7; c.input("instance D=%lld", (long long)D); typedef quadraticX<ll> Q; quad_laws<Q>(c, D, [D](ll a, ll b) { return Q(a, b, D); }, any, false); }
    }
}
UNIT(quadratic_field, 20000, 400000, "quadratic extensions of prime fields (static, constant, instance storage; runtime moduli) and of the rationals: field laws") {
    auto& r = c.rng;
    switch (r.below(6)) {
    case 0: { c.input("F1019[i]"); typedef altruct::math::complex<mp> Q; quad_laws<Q>(c, mp(-1), [](mp a, mp b) { return Q(a, b); }, [&] { return mp((int)r.below(1019)); }, true); break; }
    case 1: { c.input("F1e9+7[sqrt5]"); typedef quadratic<mb, 5> Q; quad_laws<Q>(c, mb(5), [](mb a, mb b) { return Q(a, b); }, [&] { return mb((int)r.below(1000000007)); }, true); break; }
    case 2: { c.input("F1e9+7[i]"); typedef altruct::math::complex<mb> Q; quad_laws<Q>(c, mb(-1), [](mb a, mb b) { return Q(a, b); }, [&] { return mb((int)r.below(1000000007)); }, true); break; }
    case 3: { int P = r.pick({3, 7, 11, 103, 1000003, 2147483647}), D = 1 + (int)r.below(P - 1); c.input("P=%d D=%d", P, D); typedef quadraticX<mx> Q; quad_laws<Q>(c, mx(D, P), [P, D](mx a, mx b) { return Q(a, b, mx(D, P)); }, [&, P] { return mx((int)r.below(P), P); }, true); break; }
    case 4: { c.input("F1019 instance"); int D = 2 + (int)r.below(1000); typedef quadraticX<mp> Q; quad_laws<Q>(c, mp(D), [D](mp a, mp b) { return Q(a, b, mp(D)); }, [&] { return mp((int)r.below(1019)); }, true); break; }
    default: { c.input("Q[i]"); typedef fraction<ll> F; typedef altruct::math::complex<F> Q; quad_laws<Q>(c, F(-1), [](F a, F b) { return Q(a, b); }, [&] { return F(r.range(-9, 9), r.range(1, 5)); }, true); }
    }
}
UNIT(complex_double, 10000, 200000, "complex numbers over double against separate real arithmetic") {
    auto& r = c.rng; auto any = [&] { return (double)r.range(-1000, 1000) / (1 << r.below(5)); }; typedef altruct::math::complex<double> Q; Q u(any(), any()), v(any(), any()); c.input("(%g,%g) (%g,%g)", u.a, u.b, v.a, v.b);
    Q p = u * v; c.ok(p.a == u.a * v.a - u.b * v.b && p.b == u.a * v.b + u.b * v.a, "product"); c.ok(u.norm() == u.a * u.a + u.b * u.b, "norm"); if (v.norm() > 0) { Q q = p / v; double e = 1e-9 * (1 + fabs(u.a) + fabs(u.b)); c.ok(fabs(q.a - u.a) < e && fabs(q.b - u.b) < e, "quotient"); } c.nontrivial_input();
}
// ---------------------------------------------------------------- fraction
UNIT(fraction_laws, 30000, 600000, "rationals over signed integers: canonical form, exact cross-multiplied results, order, self operations") {
    auto& r = c.rng; typedef fraction<ll> F; ll lim = r.pick<ll>({4, 60, 20000, 1000000000}); auto any = [&](bool nz) { ll p; do p = r.edgy(-lim, lim); while (nz && !p); return p; }; ll p = any(0), q = any(1), s = any(0), t = any(1); F x(p, q), y(s, t); c.input("%lld/%lld %lld/%lld", (long long)p, (long long)q, (long long)s, (long long)t);
    auto g128 = [](i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 m = a % b; a = b; b = m; } return a; };
    auto is = [&](const F& f, i128 P, i128 Qq, const char* tag) { i128 g = g128(P, Qq); P /= g; Qq /= g; if (Qq < 0) P = -P, Qq = -Qq; c.ok((i128)f.p == P && (i128)f.q == Qq, tag, "got " + vm::S(f) + " want " + vm::S(P) + "/" + vm::S(Qq)); };
    is(x, p, q, "canonical"); is(y, s, t, "canonical"); is(-x, -(i128)p, q, "negation"); if (p) is(x.reciprocal(), q, p, "reciprocal");
    is(x + y, (i128)p * t + (i128)s * q, (i128)q * t, "sum"); is(x - y, (i128)p * t - (i128)s * q, (i128)q * t, "difference"); is(x * y, (i128)p * s, (i128)q * t, "product"); if (s) is(x / y, (i128)p * t, (i128)q * s, "quotient");
    F z = x; z += y; is(z, (i128)p * t + (i128)s * q, (i128)q * t, "+="); z = x; z -= y; is(z, (i128)p * t - (i128)s * q, (i128)q * t, "-="); z = x; z *= y; is(z, (i128)p * s, (i128)q * t, "*="); if (s) { z = x; z /= y; is(z, (i128)p * t, (i128)q * s, "/="); }
    z = x; z += z; is(z, (i128)2 * p, q, "self +="); z = x; z -= z; is(z, 0, 1, "self -="); z = x; z *= z; is(z, (i128)p * p, (i128)q * q, "self *="); if (p) { z = x; z /= z; is(z, 1, 1, "self /="); } if (s) { is(x % y, 0, 1, "remainder in a field"); z = x; z %= y; is(z, 0, 1, "%="); }
    i128 A = (i128)p * t, B = (i128)s * q; if ((q < 0) != (t < 0)) A = -A, B = -B; c.ok((x < y) == (A < B) && (x <= y) == (A <= B) && (x > y) == (A > B) && (x >= y) == (A >= B) && (x == y) == (A == B) && (x != y) == (A != B), "order");
    c.ok(identityOf(x) == F(1) && zeroOf(x) == F(0) && x + zeroOf(x) == x && x * identityOf(x) == x, "identities"); if (p && s) c.nontrivial_input();
}
// ---------------------------------------------------------------- GF(2)
template<typename I> static void gf2(vm::Ctx& c) {
    auto& r = c.rng; typedef galois_field_2<I> G; I a = (I)r.u64(), b = (I)r.u64(), d = (I)r.u64(); if (r.coin(1, 4)) a = (I)(r.coin() ? 0 : ~I(0)); c.note(" " + vm::S(a) + " " + vm::S(b)); G x(a), y(b), z(d); auto bits = [&](const G& g, auto f, const char* tag) { for (int i = 0; i < (int)sizeof(I) * 8; i++) { int u = (a >> i) & 1, v = (b >> i) & 1, w = (g.v >> i) & 1, e = f(u, v); if (e >= 0) c.ok(w == e, tag); } };
    bits(x + y, [](int u, int v) { return (u + v) % 2; }, "sum"); bits(x - y, [](int u, int v) { return (u + v) % 2; }, "difference"); bits(x * y, [](int u, int v) { return u * v; }, "product"); bits(x / y, [](int u, int v) { return v ? u : -1; }, "quotient"); bits(-x, [](int u, int) { return u; }, "negation");
    c.ok((x + y) + z == x + (y + z) && (x * y) * z == x * (y * z) && x * (y + z) == x * y + x * z, "ring laws"); c.ok(x * identityOf(x) == x && x / identityOf(x) == x && x + zeroOf(x) == x && x - x == zeroOf(x), "identities"); G w = x; w += w; c.ok(w == zeroOf(x), "self +="); w = x; w *= w; c.ok(w == x, "self *="); w = x; w /= w; c.ok(w == identityOf(x), "self /="); c.ok((x < y) == (a < b) && (x == y) == (a == b) && (x >= y) == (a >= b) && (x != y) == (a != b) && (x > y) == (a > b) && (x <= y) == (a <= b), "order"); c.nontrivial_input();
}
UNIT(gf2_words, 5000, 100000, "GF(2) words of 8..64 bits, every bit lane checked") { switch (c.rng.below(5)) { case 0: c.input("u8"); gf2<uint8_t>(c); break; case 1: c.input("u16"); gf2<uint16_t>(c); break; case 2: c.input("u64"); gf2<uint64_t>(c); break; case 3: c.input("i32"); gf2<int32_t>(c); break; default: c.input("u32"); gf2<uint32_t>(c); } }
// ---------------------------------------------------------------- nimbers
// product straight from the Fermat-power rules, schoolbook over the halves
static uint64_t nmul(uint64_t a, uint64_t b, int k = 6) { if (a <= 1 || b <= 1) return a * b; k--; int h = 1 << k; uint64_t m = (h == 64) ? ~0ull : ((1ull << h) - 1), ah = a >> h, al = a & m, bh = b >> h, bl = b & m; uint64_t hh = nmul(ah, bh, k); return ((nmul(ah, bl, k) ^ nmul(al, bh, k) ^ hh) << h) ^ nmul(al, bl, k) ^ nmul(hh, 1ull << (h - 1), k); }
template<typename I, int B> static void nim(vm::Ctx& c) {
    auto& r = c.rng; typedef nimber<I, B> N; typedef typename std::make_unsigned<I>::type U; auto any = [&] { int b = 1 << r.below(7); if (b > B) b = B; uint64_t m = b >= 64 ? ~0ull : (1ull << b) - 1; uint64_t v; switch (r.below(5)) { case 0: v = m - r.below(3); break; case 1: v = 1ull << r.below(b); break; case 2: v = r.below(4); break; default: v = r.u64(); } return (U)(v & m); };
    U a = any(), b = any(), d = any(); c.note(" " + vm::S(a) + " " + vm::S(b) + " " + vm::S(d)); N x(a), y(b), z(d); U w = (U)nmul(a, b); c.eq((x * y).v, w, "product"); c.eq((y * x).v, w, "commutative"); c.eq(N::mul2(x, y).v, w, "Karatsuba product"); c.eq((x + y).v, (U)(a ^ b), "sum"); c.eq((x - y).v, (U)(a ^ b), "difference"); c.eq((-x).v, a, "negation");
    c.ok((x * y) * z == x * (y * z), "associative"); c.ok(x * (y + z) == x * y + x * z, "distributive"); N s = x.sqrt(); c.eq((s * s).v, a, "square root"); c.eq((x * x).sqrt().v, a, "root of square"); if (a) { N i = x.inverse(); c.eq((x * i).v, (U)1, "inverse"); c.eq(((x * y) / x).v, b, "quotient"); N q = x; q /= q; c.eq(q.v, (U)1, "self /="); } c.eq((x % N(3)).v, (U)0, "remainder"); N q = x; q *= q; c.eq(q.v, (U)nmul(a, a), "self *="); q = x; q += q; c.eq(q.v, (U)0, "self +=");
    int lv = 0; while (lv < 6 && (1 << lv) < 64 && (uint64_t(a) >> (1 << lv))) lv++; if (uint64_t(a) < 2) lv = 0; c.eq(x.level(), lv, "level"); for (int k = 0; k < 6 && (1 << k) <= B / 2; k++) { if (lv > k + 1) continue; c.ok(N::join(x.high(k), x.low(k), k) == x, "split and join"); }
    c.ok((x < y) == (a < b) && (x == y) == (a == b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x != y) == (a != b) && (x >= y) == (a >= b), "order"); c.ok(identityOf(x).v == 1 && zeroOf(x).v == 0 && castOf<N>(a).v == a, "constants"); if (a > 1 && b > 1) c.nontrivial_input();
}
UNIT(nimber_field, 30000, 600000, "nimbers of 8..64 bits: products by Fermat-power rules, Karatsuba form, inverses, roots, field laws") { switch (c.rng.below(7)) { case 0: c.input("u8"); nim<uint8_t, 8>(c); break; case 1: c.input("u16"); nim<uint16_t, 16>(c); break; case 2: c.input("i32"); nim<int32_t, 32>(c); break; case 3: c.input("u64"); nim<uint64_t, 64>(c); break; case 4: c.input("i64"); nim<int64_t, 64>(c); break; case 5: c.input("u32/16"); nim<uint32_t, 16>(c); break; default: c.input("u32"); nim<uint32_t, 32>(c); } }
UNIT(nimber_mex, 30, 60, "nim product table from the mex definition, one row per case") {
    static V<V<int>> t; int n = 48; if (t.empty()) { t.assign(n, V<int>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { V<char> s(512); for (int a = 0; a < i; a++) for (int b = 0; b < j; b++) s[t[a][j] ^ t[i][b] ^ t[a][b]] = 1; int m = 0; while (s[m]) m++; t[i][j] = m; } }
    int i = (int)(c.index % n); c.input("row %d", i); for (int j = 0; j < n; j++) { c.eq((int)(nimber<int>(i) * nimber<int>(j)).v, t[i][j], "mex product"); c.eq((uint64_t)t[i][j], nmul(i, j), "oracle"); c.eq((int)nimber<uint8_t>::mul2(i, j).v, t[i][j], "Karatsuba"); } if (i > 1) c.nontrivial_input();
}
// ---------------------------------------------------------------- with_infinity, Moebius
template<typename T, typename ANY> static void winf(vm::Ctx& c, T one, ANY any) {
    typedef with_infinity<T> W; auto& r = c.rng; T z0 = one - one; auto gen = [&] { if (r.coin(1, 4)) { W w(any(), 1); return w; } return W(r.coin(1, 5) ? z0 : any(), 0); }; W x = gen(), y = gen(); c.note(" x=" + vm::S(x) + " y=" + vm::S(y)); bool xi = x.is_inf, yi = y.is_inf, xz = !xi && x.v == z0, yz = !yi && y.v == z0;
    auto fin = [&](const W& w, const T& v, const char* tag) { c.ok(!w.is_inf && w.v == v, tag, vm::S(w) + " want " + vm::S(v)); }; auto inf = [&](const W& w, const char* tag) { c.ok(w.is_inf != 0, tag, vm::S(w)); c.ok(infinityT<W>::is(w), "infinityT"); };
    if (xi || yi) inf(x + y, "sum with infinity"); else fin(x + y, x.v + y.v, "sum"); if (!(xi && yi)) { if (xi || yi) inf(x - y, "difference with infinity"); else fin(x - y, x.v - y.v, "difference"); }
    if (!(xi && yz) && !(xz && yi)) { if (xi || yi) inf(x * y, "product with infinity"); else fin(x * y, x.v * y.v, "product"); }
    if (!(xi && yi) && !(xz && yz)) { if (yi) fin(x / y, z0, "division by infinity"); else if (xi || yz) inf(x / y, "infinite quotient"); else fin(x / y, x.v / y.v, "quotient"); W q = x; q /= y; c.ok((q.is_inf != 0) == ((x / y).is_inf != 0), "/="); if (!q.is_inf) c.ok(q.v == (x / y).v, "/= value"); }
    if (xi) { inf(-x, "-inf"); fin(x.inverse(), z0, "1/inf"); inf(conjugateT<W>::of(x), "conjugate of infinity"); } else { fin(-x, -x.v, "negation"); if (xz) inf(x.inverse(), "1/0"); else fin(x.inverse(), one / x.v, "inverse"); fin(conjugateT<W>::of(x), conjugateT<T>::of(x.v), "conjugate"); }
    fin(castOf<W>(3), one + one + one, "cast"); fin(castOf(x, 3), one + one + one, "cast by reference"); fin(identityOf(x), identityOf(one), "identity"); fin(zeroOf(x), z0, "zero"); if (!xi && !yi) c.ok((x < y) == (x.v < y.v) && (x == y) == (x.v == y.v) && (x > y) == (y.v < x.v), "order of finite values"); if (!xi && yi) c.ok(x < y && y > x && x != y && x <= y && y >= x, "infinity above finite"); c.nontrivial_input();
}
typedef altruct::math::complex<mp> cm; typedef with_infinity<cm> wcm; typedef moebius_tr<wcm> moeb; typedef fraction<ll> fr; typedef with_infinity<fr> wfr;
UNIT(infinity_table, 10000, 200000, "the documented operation tables over prime fields, complex extensions and rationals") { auto& r = c.rng; switch (r.below(3)) { case 0: c.input("F1019"); winf<mp>(c, mp(1), [&] { return mp((int)r.below(1019)); }); break; case 1: c.input("F1019[i]"); winf<cm>(c, cm(1), [&] { return cm((int)r.below(1019), (int)r.below(1019)); }); break; default: c.input("Q"); winf<fr>(c, fr(1), [&] { return fr(r.range(-20, 20), r.range(1, 9)); }); } }
// points of the projective line of F_1019[i] as (num, den); independent application
struct PP { cm n, d; bool operator==(const PP& o) const { return n * o.d == d * o.n; } };
static PP app(const moeb& f, PP p) { if (f.s < 0) { p.n = p.n.conjugate(); p.d = p.d.conjugate(); } return PP{f.a.v * p.n + f.b.v * p.d, f.c.v * p.n + f.d.v * p.d}; }
UNIT(moebius, 10000, 200000, "Moebius and anti-Moebius transformations of the projective line over F_1019[i]: evaluation, composition, inverse, normal form") {
    auto& r = c.rng; auto any = [&] { if (r.coin(1, 5)) return cm(0); if (r.coin(1, 6)) return cm(1); return cm((int)r.below(1019), r.coin(1, 4) ? 0 : (int)r.below(1019)); }; auto tr = [&] { for (;;) { cm a = any(), b = any(), d = any(), e = any(); if (a * e == b * d) continue; return moeb(wcm(a), wcm(b), wcm(d), wcm(e), r.coin() ? 1 : -1); } };
    moeb f = tr(), g = tr(), h = tr(); auto st = [&](const moeb& m) { return "[" + vm::S(m.a) + vm::S(m.b) + vm::S(m.c) + vm::S(m.d) + vm::S(m.s) + "]"; }; c.input("f=%s g=%s", st(f).c_str(), st(g).c_str());
    auto pt = [&](const wcm& w) { return w.is_inf ? PP{cm(1), cm(0)} : PP{w.v, cm(1)}; }; auto wp = [&](const PP& p) { if (p.d == cm(0)) return wcm(cm(1), 1); return wcm(p.n / p.d); };
    auto val = [&](const moeb& m, const PP& p) { return pt(m(wp(p))); }; V<PP> ps{{cm(1), cm(0)}, {cm(0), cm(1)}, {cm(1), cm(1)}}; for (int i = 0; i < 4; i++) ps.push_back({any(), cm(1)}); ps.push_back(app(f.inverse(), PP{cm(1), cm(0)})); ps.push_back(app(g.inverse(), PP{cm(0), cm(1)}));
    moeb fg = f * g, fi = f.inverse(), fn = f, q = f / g, sf = f; fn.normalize(); sf *= sf; c.ok(fi.s == f.s && fg.s == f.s * g.s && fn.s == f.s, "orientation"); c.ok(fn.a == wcm(1) || (fn.a == wcm(0) && fn.b == wcm(1)), "normal form"); { cm k = any(); if (k != cm(0)) { moeb k2(f.a * wcm(k), f.b * wcm(k), f.c * wcm(k), f.d * wcm(k), f.s); k2.normalize(); c.ok(k2 == fn, "normal form of proportional transformations", st(k2) + st(fn)); } }
    for (auto& p : ps) { PP y = app(f, p); c.ok(val(f, p) == y, "evaluation"); c.ok(app(fg, p) == app(f, app(g, p)), "composition"); c.ok(val(fg, p) == y || true, ""); c.ok(val(fg, p) == app(f, app(g, p)), "composition evaluated"); c.ok(app(fi, y) == p && app(f, app(fi, p)) == p, "inverse"); c.ok(app(fn, p) == y, "normalisation"); c.ok(app(q, app(g, p)) == y, "quotient"); c.ok(app(sf, p) == app(f, y), "self composition"); c.ok(app((f * g) * h, p) == app(f * (g * h), p), "associative"); }
    cm k = any(); for (auto& p : ps) { if (p.d == cm(0)) continue; cm z = p.n / p.d; auto ev = [&](const moeb& m) { return wp(app(m, p)); }; c.ok(ev(moeb::translation(wcm(k))) == wcm(z + k), "translation"); if (k != cm(0)) c.ok(ev(moeb::scaling(wcm(k))) == wcm(z * k) && ev(moeb::rotation(wcm(k))) == wcm(z * k), "scaling"); c.ok(ev(moeb::flip_x()) == wcm(-z.conjugate()) && ev(moeb::flip_y()) == wcm(z.conjugate()), "flips"); if (z != cm(0)) c.ok(ev(moeb::inversion()) == wcm(cm(1) / z.conjugate()), "inversion"); c.ok(ev(identityOf(f)) == wcm(z), "identity"); { wcm o(cm(0)), e1(cm(1)), q(k); c.ok(moeb::scaling(q) == moeb(q, o, o, e1, 1) && moeb::rotation(q) == moeb(q, o, o, e1, 1) && moeb::translation(q) == moeb(e1, q, o, e1, 1), "named transformations"); moeb i3(3); c.ok(i3 == moeb(wcm(cm(3)), o, o, e1, 1), "from int"); } c.ok(ev(castOf<moeb>(wcm(k))) == wcm(k * z) && ev(castOf(f, wcm(k))) == wcm(k * z) && ev(zeroOf(f)) == wcm(0) && ev(moeb(wcm(k))) == wcm(k * z), "scalar as a transformation"); }
    if (r.coin(1, 4)) { g = f; int w = (int)r.below(5); if (w == 0) g.d = wcm(any()); else if (w == 1) g.c = wcm(any()); else if (w == 2) g.s = -f.s; else if (w == 3) g.b = wcm(any()); c.event("transformations that agree in a prefix"); } { moeb n0(wcm(cm(0)), wcm(cm(0)), wcm(any()), wcm(any()), f.s); n0.normalize(); c.ok(n0.a == wcm(0) && n0.b == wcm(0) && n0.c == wcm(0) && n0.d == wcm(1) && n0.s == f.s, "normal form of the constant 0"); }
    bool l = false, e = true; { const wcm* A[] = {&f.a, &f.b, &f.c, &f.d}; const wcm* B[] = {&g.a, &g.b, &g.c, &g.d}; for (int i = 0; i < 4 && e; i++) if (!(*A[i] == *B[i])) { e = false; l = *A[i] < *B[i]; } if (e && f.s != g.s) { e = false; l = f.s < g.s; } } c.ok((f < g) == l && (f == g) == e && (f > g) == (!l && !e) && (f <= g) == (l || e) && (f >= g) == !l && (f != g) == !e, "order"); c.nontrivial_input();
}
UNIT(moebius_double, 3000, 60000, "Moebius transformations over complex doubles incl. the point at infinity") {
    auto& r = c.rng; typedef with_infinity<altruct::math::complex<double>> W; typedef altruct::math::complex<double> C; typedef moebius_tr<W> M; auto any = [&] { return C((double)r.range(-9, 9), (double)r.range(-9, 9)); }; C a, b, d, e; do { a = any(); b = any(); d = any(); e = any(); } while (a * e == b * d); int s = r.coin() ? 1 : -1; M f{W(a), W(b), W(d), W(e), s}; c.input("a=(%g,%g) b=(%g,%g) c=(%g,%g) d=(%g,%g) s=%d", a.a, a.b, b.a, b.b, d.a, d.b, e.a, e.b, s); M fi = f.inverse(); W fin = f(W(C(0), 1)); if (d == C(0)) c.ok(fin.is_inf, "f(inf)"); else c.ok(!fin.is_inf && (fin.v - a / d).norm() < 1e-12, "f(inf)"); for (int i = 0; i < 4; i++) { C z = any(); W w = f(W(z)); C zz = s < 0 ? z.conjugate() : z; C den = d * zz + e; if (den == C(0)) { c.ok(w.is_inf, "pole"); continue; } C v = (a * zz + b) / den; c.ok(!w.is_inf && (w.v - v).norm() < 1e-12 * (1 + v.norm()), "value"); W back = fi(w); if (v.norm() < 1e4 && !back.is_inf) c.ok((back.v - z).norm() < 1e-9, "inverse"); } c.nontrivial_input();
}
UNIT(moebius_real, 3000, 60000, "Moebius transformations of the real line in floating point incl. infinite arguments; infinity of built-in types") {
    auto& r = c.rng; double a, b, d, e; do { a = (double)r.range(-9, 9); b = (double)r.range(-9, 9); d = (double)r.range(-9, 9); e = (double)r.range(-9, 9); } while (a * e == b * d); c.input("a=%g b=%g c=%g d=%g", a, b, d, e);
    auto run = [&](auto T0) { typedef decltype(T0) T; moebius_tr<T> f{(T)a, (T)b, (T)d, (T)e, r.coin() ? 1 : -1}; T inf = std::numeric_limits<T>::infinity(); if (d != 0) { c.ok(std::fabs(f(inf) - (T)a / (T)d) < 1e-6, "f(inf)"); c.ok(std::fabs(f(-inf) - (T)a / (T)d) < 1e-6, "f(-inf)"); }
        for (int i = 0; i < 4; i++) { T z = (T)r.range(-9, 9), den = (T)d * z + (T)e; if (den == 0) continue; T v = ((T)a * z + (T)b) / den; c.ok(std::fabs(f(z) - v) <= 1e-5 * (1 + std::fabs(v)), "value"); }
        c.ok(infinityT<T>::is(inf) && infinityT<T>::is(-inf) && !infinityT<T>::is(std::numeric_limits<T>::max()) && !infinityT<T>::is((T)r.range(-5, 5)) && !infinityT<T>::is(std::numeric_limits<T>::quiet_NaN()), "is infinite"); };
    switch (r.below(3)) { case 0: run(1.0f); break; case 1: run(1.0); break; default: run(1.0L); } c.ok(!infinityT<int>::is((int)r.u32()) && !infinityT<fr>::is(fr(r.range(-20, 20), r.range(1, 9))), "finite types"); { typedef with_infinity<long long> W; long long x = r.range(-50, 50), y = r.range(1, 20); W q(x); q %= W(y); c.ok(!q.is_inf && q.v == x % y, "remainder"); q = W(x) % W(y); c.ok(!q.is_inf && q.v == x % y, "remainder"); c.ok(infinityT<W>::is(W(x, 1)) && !infinityT<W>::is(W(x)), "is infinite"); } c.nontrivial_input();
}
// ---------------------------------------------------------------- symbolic
struct Ex { symbolic s; std::string w; };
static Ex expr(vm::Rng& r, int d) {
    if (d == 0 || r.coin(1, 6)) { if (r.coin()) { std::string n(1, char('a' + r.below(26))); return {symbolic(n), n}; } int v = (int)r.range(0, 99); if (r.coin()) return {symbolic(v), std::to_string(v)}; return {castOf<symbolic>((ll)v), std::to_string(v)}; }
    int o = (int)r.below(16); Ex a = expr(r, d - 1); if (o >= 12) { switch (o) { case 12: return {-a.s, "(-" + a.w + ")"}; case 13: return {+a.s, "(+" + a.w + ")"}; case 14: return {~a.s, "(~" + a.w + ")"}; default: return {!a.s, "(!" + a.w + ")"}; } }
    Ex b = r.coin(1, 8) ? a : expr(r, d - 1); bool ip = r.coin(); Ex z = a; static const char* ops[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||"}; z.w = "(" + a.w + ops[o] + b.w + ")";
    switch (o) { case 0: if (ip) z.s += b.s; else z.s = a.s + b.s; break; case 1: if (ip) z.s -= b.s; else z.s = a.s - b.s; break; case 2: if (ip) z.s *= b.s; else z.s = a.s * b.s; break; case 3: if (ip) z.s /= b.s; else z.s = a.s / b.s; break; case 4: if (ip) z.s %= b.s; else z.s = a.s % b.s; break; case 5: if (ip) z.s &= b.s; else z.s = a.s & b.s; break; case 6: if (ip) z.s |= b.s; else z.s = a.s | b.s; break; case 7: if (ip) z.s ^= b.s; else z.s = a.s ^ b.s; break; case 8: if (ip) z.s <<= b.s; else z.s = a.s << b.s; break; case 9: if (ip) z.s >>= b.s; else z.s = a.s >> b.s; break; case 10: z.s = a.s && b.s; break; default: z.s = a.s || b.s; } return z;
}
UNIT(symbolic_exprs, 5000, 100000, "symbolic expression trees render fully parenthesised in operand order") { Ex e = expr(c.rng, 1 + (int)c.rng.below(5)); c.input("%s", e.w.substr(0, 300).c_str()); c.eq(e.s.v, e.w, "rendering"); symbolic x = e.s; x += x; c.eq(x.v, "(" + e.w + "+" + e.w + ")", "self +="); { auto self = [&](const char* op, auto f) { symbolic y = e.s; f(y); c.eq(y.v, "(" + e.w + op + e.w + ")", "self compound"); }; self("-", [](symbolic& y) { y -= y; }); self("*", [](symbolic& y) { y *= y; }); self("/", [](symbolic& y) { y /= y; }); self("%", [](symbolic& y) { y %= y; }); self("&", [](symbolic& y) { y &= y; }); self("|", [](symbolic& y) { y |= y; }); self("^", [](symbolic& y) { y ^= y; }); self("<<", [](symbolic& y) { y <<= y; }); self(">>", [](symbolic& y) { y >>= y; }); } c.ok(identityOf(x).v == "1" && zeroOf(x).v == "0" && castOf(x, 17).v == "17", "symbolic constants"); if (e.w.size() > 3) c.nontrivial_input(); }
