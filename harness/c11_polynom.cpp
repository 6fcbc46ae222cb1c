// C11: polynomial arithmetic
#include "vm.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/algorithm/math/polynom_mod.h"
#include "altruct/structure/math/fraction.h"
#include "str_math.h"
using namespace altruct::math;
typedef int64_t ll; typedef long long LL; typedef vm::u128 u128;
typedef moduloX<int> mx; typedef moduloX<int64_t> ml; typedef moduloX<uint32_t> mu; typedef modulo<int, 1000000007> mc; typedef modulo<int, 1009> ms; typedef modulo<int64_t, 1> mls; typedef modulo<uint32_t, 4294967291u, modulo_storage::CONSTANT> mcu; typedef modulo<int, 998244353, modulo_storage::CONSTANT> mci; typedef fraction<ll> fr;

template<typename T> struct Ring { T one; std::function<T()> any; std::function<T()> unit; bool field; };
template<typename T> T sc(const T& id, ll v) { return castOf(id, v); }
template<typename T> int degv(const std::vector<T>& v, const T& z) { for (int i = (int)v.size() - 1; i > 0; i--) if (!(v[i] == z)) return i; return 0; }
template<typename T> std::vector<T> mulv(const std::vector<T>& a, const std::vector<T>& b, const T& z) { if (a.empty() || b.empty()) return {z}; std::vector<T> r(a.size() + b.size() - 1, z); for (size_t i = 0; i < a.size(); i++) if (!(a[i] == z)) for (size_t j = 0; j < b.size(); j++) r[i + j] = r[i + j] + a[i] * b[j]; return r; }
// equality of a library polynomial with reference coefficients, every coefficient through operator[], beyond both ends too
template<typename T> void same(vm::Ctx& c, const polynom<T>& p, const std::vector<T>& w, const T& z, const char* tag) {
    c.checks(); int n = std::max(p.size(), (int)w.size()) + 2;
    for (int i = 0; i < n; i++) { T x = i < (int)w.size() ? w[i] : z; if (!(p[i] == x)) c.fail(tag, std::string(tag) + ": coefficient " + vm::S(i) + " is " + vm::S(p[i]) + ", want " + vm::S(x)); }
    if (p.deg() != degv(w, z)) c.fail(tag, std::string(tag) + ": degree " + vm::S(p.deg()) + ", want " + vm::S(degv(w, z)));
}
template<typename T> std::vector<T> gen(vm::Ctx& c, const Ring<T>& R, int n) { // n coefficients, sometimes sparse or with zero tail
    T z = R.one - R.one; std::vector<T> v; int k = (int)c.rng.below(6); for (int i = 0; i < n; i++) v.push_back(k == 0 && c.rng.coin(3, 4) ? z : k == 1 ? z - R.one : R.any()); if (k == 2) for (int i = 0; i < n && i < (int)c.rng.below(4); i++) v[n - 1 - i] = z; if (k == 3 && n) { for (auto& x : v) x = z; v[n - 1] = R.one; } return v;
}
template<typename T> void arith(vm::Ctx& c, const Ring<T>& R, int n1, int n2) {
    auto& r = c.rng; T e1 = R.one, z = e1 - e1; typedef polynom<T> P;
    auto a = gen(c, R, n1), b = gen(c, R, n2); P p(a), q(b); if (n1 == 0) p.ZERO_COEFF = z; if (n2 == 0) q.ZERO_COEFF = z;
    size_t L = std::max(a.size(), b.size()); auto at = [&](const std::vector<T>& v, size_t i) { return i < v.size() ? v[i] : z; };
    std::vector<T> s, d, ng; for (size_t i = 0; i < L; i++) s.push_back(at(a, i) + at(b, i)), d.push_back(at(a, i) - at(b, i)); for (auto& x : a) ng.push_back(z - x);
    auto w = mulv(a, b, z);
    same(c, p, a, z, "construct"); same(c, p + q, s, z, "+"); same(c, p - q, d, z, "-"); same(c, -p, ng, z, "negate"); same(c, p * q, w, z, "*"); same(c, p, a, z, "operand unchanged"); same(c, q, b, z, "operand unchanged");
    { P t = p; t += q; same(c, t, s, z, "+="); t -= q; same(c, t, a, z, "-="); t = p; t *= q; same(c, t, w, z, "*="); t = q; P::mul(t, p, t); same(c, t, w, z, "mul into second operand"); t = p; t *= t; same(c, t, mulv(a, a, z), z, "self *="); t = p; t += t; std::vector<T> a2 = a; for (auto& x : a2) x = x + x; same(c, t, a2, z, "self +="); t = p; t -= t; same(c, t, {z}, z, "self -="); }
    { int lr = (int)r.below(n1 + n2 + 4); P t; t = p; P::mul(t, p, q, lr); auto wt = w; wt.resize(lr + 1, z); same(c, t, wt, z, "truncated mul"); c.eq(t.size(), lr + 1, "truncated mul size"); t = p; P::mul(t, t, q, lr); same(c, t, wt, z, "truncated mul in place"); t = q; P::mul(t, p, t, lr); same(c, t, wt, z, "truncated mul into second"); auto sq = mulv(a, a, z); sq.resize(lr + 1, z); t = p; P::mul(t, t, t, lr); same(c, t, sq, z, "truncated square in place"); }
    { T k = R.any(); std::vector<T> m; for (auto& x : a) m.push_back(x * k); same(c, p * k, m, z, "scalar *"); P t = p; t *= k; same(c, t, m, z, "scalar *="); if (n1) { int i = (int)r.below(n1); m.clear(); for (auto& x : a) m.push_back(x * a[i]); t = p; t *= t.c[i]; same(c, t, m, z, "scaled by own coefficient"); }
      T u = R.unit(); m.clear(); for (auto& x : a) m.push_back(x / u); same(c, p / u, m, z, "scalar /"); if (R.field && n1) { int i = (int)r.below(n1); if (!(a[i] == z)) { m.clear(); for (auto& x : a) m.push_back(x / a[i]); t = p; t /= t.c[i]; same(c, t, m, z, "divided by own coefficient"); } } }
    // trailing zeros in operands do not matter
    { auto a2 = a, b2 = b; a2.resize(n1 + r.below(4), z); b2.resize(n2 + r.below(4), z); if (!a2.empty() && !b2.empty()) { P p2(a2), q2(b2); same(c, p2 * q2, w, z, "* with trailing zeros"); c.ok(p2 == p || n1 == 0, "== ignores trailing zeros"); } }
    { T x = R.any(), v = z, y = e1; for (auto& k : a) v = v + k * y, y = y * x; c.eq(p(x), v, "evaluation"); c.eq(p.template eval<T>(x), v, "eval"); }
    { std::vector<T> dv, rv(a.begin(), a.begin() + (n1 ? degv(a, z) + 1 : 0)); for (int i = 1; i < n1; i++) { T m = z; for (int j = 0; j < i; j++) m = m + a[i]; dv.push_back(m); } if (n1 < 300) same(c, p.derivative(), dv, z, "derivative"); std::reverse(rv.begin(), rv.end()); same(c, p.reverse(), rv, z, "reverse"); }
    { P t = p; t.shrink_to_fit(); same(c, t, a, z, "shrink_to_fit"); c.eq(t.size(), degv(a, z) + 1, "shrink size"); int lo = 0; for (int i = 0; i < n1; i++) if (!(a[i] == z)) { lo = i; break; } c.eq(p.lowest(), lo, "lowest"); P x = p, y = q; x.swap(y); same(c, x, b, z, "swap"); same(c, y, a, z, "swap"); }
    int cm = 0; for (size_t i = L; i-- > 0;) { if (at(a, i) < at(b, i)) { cm = -1; break; } if (at(b, i) < at(a, i)) { cm = 1; break; } }
    c.ok((p < q) == (cm < 0) && (p > q) == (cm > 0) && (p == q) == (cm == 0) && (p != q) == (cm != 0) && (p <= q) == (cm <= 0) && (p >= q) == (cm >= 0), "comparisons");
    if (R.field && n1) { P I = p.integral(z); for (int i = 0; i < n1; i++) { T k = sc(e1, i + 1); if (k == z) goto noint; } for (int i = 0; i < n1; i++) { if (!(I[i + 1] * sc(e1, i + 1) == a[i])) c.fail("integral", "coefficient " + vm::S(i + 1)); } c.eq(I[0], z, "integral constant"); c.ok(p.integral() == I, "integral without a constant"); same(c, I.derivative(), a, z, "derivative of integral"); noint:; }
    if (n1 > 1 && n2 > 1) c.nontrivial_input();
}
template<typename T> void division(vm::Ctx& c, const Ring<T>& R, int n1, int n2) {
    typedef polynom<T> P; T e1 = R.one, z = e1 - e1; auto& r = c.rng; auto a = gen(c, R, n1), b = gen(c, R, n2); int l2 = degv(b, z);
    if (!R.field || b[l2] == z) b[l2] = R.unit(); l2 = degv(b, z); P p(a), d(b); int l1 = p.deg();
    // schoolbook reference
    std::vector<T> rem = a, quo(std::max(l1 - l2 + 1, 1), z); T il = e1 / b[l2]; for (int i = l1; i >= l2; i--) { T s = rem[i] * il; quo[i - l2] = s; if (!(s == z)) for (int j = 0; j <= l2; j++) rem[i - l2 + j] = rem[i - l2 + j] - s * b[j]; } rem.resize(std::min<size_t>(rem.size(), std::max(l2, 1)), z); if (l2 == 0) rem.assign(1, z);
    P Q = p / d, M = p % d; same(c, Q, quo, z, "/"); same(c, M, rem, z, "%"); same(c, p, a, z, "dividend unchanged"); same(c, d, b, z, "divisor unchanged"); c.ok(M.size() == 0 || l2 == 0 || M.deg() < l2, "degree of remainder");
    c.ok(Q * d + M == p, "p = q*d + r"); P t = p; t /= d; same(c, t, quo, z, "/="); t = p; t %= d; same(c, t, rem, z, "%=");
    std::vector<T> qr(std::max<size_t>(l1, l2) + 1, z); if (l1 >= l2) { for (int i = 0; i < l2; i++) qr[i] = i < (int)rem.size() ? rem[i] : z; for (int i = 0; i <= l1 - l2; i++) qr[l2 + i] = quo[i]; } else for (size_t i = 0; i < a.size() && i < qr.size(); i++) qr[i] = a[i];
    P::quot_rem_long(t, p, d); same(c, t, qr, z, "quot_rem_long"); P::quot_rem_hensel(t, p, d); same(c, t, qr, z, "quot_rem_hensel"); t = p; P::quot_rem(t, t, d); same(c, t, qr, z, "quot_rem in place");
    { auto a2 = a, b2 = b; a2.resize(a2.size() + r.below(5), z); b2.resize(b2.size() + r.below(5), z); same(c, P(a2) / P(b2), quo, z, "/ with trailing zeros"); same(c, P(a2) % P(b2), rem, z, "% with trailing zeros"); }
    if (l1 >= l2 && l2 > 0) c.nontrivial_input();
}
template<typename T> void inverse(vm::Ctx& c, const Ring<T>& R, int n, int L) {
    T e1 = R.one, z = e1 - e1; auto a = gen(c, R, n); if (a[0] == z || !R.field || c.rng.coin()) a[0] = c.rng.coin() ? e1 : R.unit(); polynom<T> p(a); auto v = p.inverse(L); std::vector<T> u(L, z); for (int i = 0; i < L; i++) u[i] = v[i]; auto w = mulv(a, u, z); w.resize(L, z); std::vector<T> want(L, z); want[0] = e1; c.eq(w, want, "p * inverse = 1 mod x^L"); for (int i = L; i < v.size(); i++) if (!(v[i] == z)) c.fail("inverse is truncated at L", vm::S(i)); same(c, p, a, z, "operand unchanged"); if (L > 2) c.nontrivial_input();
}
template<typename F> void with_ring(vm::Ctx& c, F f, const char* what) {
    auto& r = c.rng; int k = (int)r.below(10);
    auto mod = [&](auto one, const char* nm, bool field) { typedef decltype(one) T; auto M = one.M(); typedef decltype(one.v) V; c.input("%s %s M=%s", what, nm, vm::S(M).c_str()); f(Ring<T>{one, [=, &r] { return sc(one, (ll)r.edgyu(uint64_t(M) - 1)); }, [=, &r]() -> T { for (;;) { T x = sc(one, (ll)(1 + r.below(uint64_t(M) - 1))); if (altruct::math::gcd<V>(x.v, M) == 1) return x; } }, field}); };
    switch (k) {
    case 0: { int p = r.pick({2, 3, 5, 7, 101, 46337, 2147483647}); mod(mx(1, p), "moduloX<int>", true); break; }
    case 1: { int m = r.pick({4, 6, 12, 100, 65536, 2147483646}); mod(mx(1, m), "moduloX<int> composite", false); break; }
    case 2: { ll m = r.pick<ll>({4294967291ll, 4294967311ll, 1000000000039ll, 9223372036854775783ll}); mod(ml(1, m), "moduloX<int64>", true); break; }
    case 3: mod(mu(1, 4294967291u), "moduloX<uint32>", true); break;
    case 4: mod(mcu(1), "constant 2^32-5", true); break;
    case 5: mod(mci(1), "constant 998244353", true); break;
    case 6: mod(mc(1), "static 1e9+7", true); break;
    case 7: mls::M() = r.pick<ll>({1000003ll, 4294967311ll}); mod(mls(1), "static int64", true); break;
    case 8: c.input("%s uint32 (mod 2^32)", what); f(Ring<uint32_t>{1, [&r] { return r.u32(); }, [] { return 1u; }, false}); break;
    default: c.input("%s uint64 (mod 2^64)", what); f(Ring<uint64_t>{1, [&r] { return r.u64(); }, [] { return 1ull; }, false}); break;
    }
}
static int small_deg(vm::Ctx& c) { return c.rng.coin(1, 12) ? 0 : 1 + (int)c.rng.below(c.rng.coin(1, 3) ? 110 : 12); }
UNIT(arithmetic, 12000, 300000, "all operations for random sizes 0..110 (long multiplication and Karatsuba), every storage mode and width, plus integers") { with_ring(c, [&](auto R) { int a = small_deg(c), b = small_deg(c); c.note(" n1=" + vm::S(a) + " n2=" + vm::S(b)); arith(c, R, a, b); }, "arith"); }
UNIT(degree_grid, 130, 260, "every pair of sizes up to 130 (thorough 260) around the Karatsuba split points, constant and int64 moduli: product only, full and truncated") {
    int n1 = 1 + (int)c.index; auto& r = c.rng; c.input("n1=%d", n1);
    auto go = [&](auto one) { typedef decltype(one) T; T z = one - one; std::vector<T> a; for (int i = 0; i < n1; i++) a.push_back(sc(one, (ll)r.bits(62))); for (int n2 = 1; n2 <= n1; n2++) { std::vector<T> b; for (int i = 0; i < n2; i++) b.push_back(sc(one, (ll)r.bits(62))); auto w = mulv(a, b, z); polynom<T> p(a), q(b), t; c.note(""); same(c, p * q, w, z, "*"); int lr = (int)r.below(n1 + n2); w.resize(lr + 1, z); polynom<T>::mul(t, p, q, lr); same(c, t, w, z, "truncated"); polynom<T>::mul(q, q, p, lr); same(c, q, w, z, "truncated in place"); } };
    if (n1 % 2) go(mci(1)); else go(ml(1, 4294967311ll)); if (n1 > 2) c.nontrivial(n1);
}
UNIT(division, 9000, 200000, "division with remainder for random sizes 1..110 against schoolbook, both algorithms") { with_ring(c, [&](auto R) { int a = std::max(1, small_deg(c)), b = std::max(1, small_deg(c)); if (c.rng.coin(1, 3)) b = 1 + (int)c.rng.below(a); c.note(" n1=" + vm::S(a) + " n2=" + vm::S(b)); division(c, R, a, b); }, "division"); }
UNIT(division_large, 60, 1500, "division at degrees 90..700, around the switch to Hensel division") { with_ring(c, [&](auto R) { int a = 90 + (int)c.rng.below(600), b = 20 + (int)c.rng.below(400); if (c.rng.coin()) b = std::max(1, (int)(25 * std::log2(a)) + (int)c.rng.below(5) - 2); c.note(" n1=" + vm::S(a) + " n2=" + vm::S(b)); division(c, R, a, b); }, "division"); }
UNIT(inverse, 6000, 100000, "power series inverse to every order") { with_ring(c, [&](auto R) { int n = 1 + (int)c.rng.below(40), L = 1 + (int)(c.rng.coin(1, 20) ? c.rng.below(300) : c.rng.below(40)); c.note(" n=" + vm::S(n) + " L=" + vm::S(L)); inverse(c, R, n, L); }, "inverse"); }
UNIT(fractions, 2000, 30000, "rational coefficients") { auto& r = c.rng; std::vector<fr> pool{fr(0), fr(1), fr(-1), fr(2), fr(1, 2), fr(-3, 2)}; Ring<fr> R{fr(1), [&] { return r.pick(pool); }, [&] { return r.pick({fr(1), fr(-1), fr(1, 2), fr(-2)}); }, true}; int a = (int)r.below(6), b = (int)r.below(6); c.input("fraction n1=%d n2=%d", a, b); arith(c, R, a, b); c.note(" division"); division(c, R, 1 + (int)r.below(4), 1 + (int)r.below(4)); inverse(c, R, 1 + (int)r.below(3), 1 + (int)r.below(4)); }
UNIT(floating, 1500, 20000, "small-integer polynomials over double: exact products, sums, evaluation, and division by monic") { auto& r = c.rng; Ring<double> R{1.0, [&] { return (double)r.range(-4, 4); }, [&] { return r.coin() ? 1.0 : -1.0; }, false}; int a = (int)r.below(60), b = (int)r.below(60); c.input("double n1=%d n2=%d", a, b); typedef polynom<double> P; auto u = gen(c, R, a), v = gen(c, R, b); P p(u), q(v); same(c, p * q, mulv(u, v, 0.0), 0.0, "*"); if (b) { v.assign(b, 0.0); v[b - 1] = 1; if (b > 1) v[r.below(b - 1)] = (double)r.range(-1, 1); P d(v), Q = p / d, M = p % d; c.ok(Q * d + M == p && (M.size() == 0 || M.deg() < d.deg() || d.deg() == 0), "division by monic"); } c.nontrivial_input(); }
UNIT(composition, 1500, 20000, "p(q(x)) through evaluation at a polynomial, and polynomials with polynomial coefficients") {
    auto& r = c.rng; int M = r.pick({2, 7, 12, 1000000007}); mx e1(1, M), z = e1 - e1; Ring<mx> R{e1, [&] { return mx((int)r.below(M), M); }, [&] { return e1; }, false}; int na = 1 + (int)r.below(8), nb = 1 + (int)r.below(8); auto a = gen(c, R, na), b = gen(c, R, nb); c.input("M=%d a=%s b=%s", M, vm::S(a).c_str(), vm::S(b).c_str());
    std::vector<mx> w{z}, pw{e1}; for (auto& k : a) { auto t = pw; for (auto& x : t) x = x * k; if (w.size() < t.size()) w.resize(t.size(), z); for (size_t i = 0; i < t.size(); i++) w[i] = w[i] + t[i]; pw = mulv(pw, b, z); } same(c, polynom<mx>(a)(polynom<mx>(b)), w, z, "composition");
    typedef polynom<mx> P; typedef polynom<P> PP; std::vector<P> A, B; for (int i = 1 + (int)r.below(60); i-- > 0;) A.push_back(P(gen(c, R, 1 + (int)r.below(3)))); for (int i = 1 + (int)r.below(60); i-- > 0;) B.push_back(P(gen(c, R, 1 + (int)r.below(3)))); PP X(A), Y(B), Z = X * Y; for (int i = 0; i < (int)(A.size() + B.size()); i++) { P s(z); for (int j = 0; j <= i; j++) if (j < (int)A.size() && i - j < (int)B.size()) s = s + A[j] * B[i - j]; c.checks(); if (!(Z[i] == s)) c.fail("nested *", "coefficient " + vm::S(i)); } c.nontrivial_input();
}
// big products: exact evaluation at random points plus directly summed coefficients
template<typename T> void big(vm::Ctx& c, T one, int n1, int n2, bool prime, int algo) {
    auto& r = c.rng; T z = one - one; auto M = one.M(); int kind = (int)r.below(6); ll top = (ll)(M - 1); ll al = top; while (al > 0 && (al & 0xffff) != 0xffff) al--; if (al <= 0) al = top; // hi and lo 16-bit halves both large
    std::vector<ll> few{0, top, al}; for (int i = 0; i < 3; i++) few.push_back((ll)(((uint64_t(r.coin() ? 0xffff : 1 + r.below(3)) << 16) | r.below(65536)) % uint64_t(M)));
    auto fill = [&](int n) { std::vector<T> v; v.reserve(n); if (kind > 3) { for (int i = 0; i < n; i++) v.push_back(kind == 4 && !r.coin(1, 1 + n / 3) ? z : sc(one, r.pick(few))); if (v.back() == z) v.back() = one; return v; } for (int i = 0; i < n; i++) v.push_back(sc(one, kind == 0 ? top : kind == 1 ? al : (ll)r.below(uint64_t(M)))); if (v.back() == z) v.back() = one; return v; };
    auto a = fill(n1), b = fill(n2); polynom<T> p(a), q(b), t; int lr = n1 + n2 - 2; bool trunc = algo == 0 && r.coin(1, 3); if (trunc) lr = (int)r.below(n1 + n2 - 1); c.note(" kind=" + vm::S(kind) + " lr=" + vm::S(lr) + " algo=" + vm::S(algo));
    typedef polynom_mul<T> PM; std::vector<T> res(lr + 1, z);
    switch (algo) { case 0: polynom<T>::mul(t, p, q, trunc ? lr : -1); break; case 1: PM::_mul_fft(res.data(), lr, a.data(), n1 - 1, b.data(), n2 - 1); break; case 2: PM::_mul_fft_crt(res.data(), lr, a.data(), n1 - 1, b.data(), n2 - 1); break; case 3: PM::_mul_fft_big(res.data(), lr, a.data(), n1 - 1, b.data(), n2 - 1); break; default: polynom<T>::_mul_karatsuba(res.data(), lr, a.data(), n1 - 1, b.data(), n2 - 1); }
    if (algo == 0) res = t.c; c.eq(res.size(), size_t(lr + 1), "size of product");
    auto coef = [&](int i) { u128 s = 0; for (int j = std::max(0, i - n2 + 1); j <= std::min(i, n1 - 1); j++) s = (s + u128(a[j].v) * u128(b[i - j].v)) % u128(M); return sc(one, (ll)s); };
    std::vector<int> idx{0, lr, lr / 2, n1 - 1, n2 - 1, n1}; for (int i = 0; i < 6; i++) idx.push_back((int)r.below(lr + 1)); for (int i : idx) if (i <= lr) { c.checks(); if (!(res[i] == coef(i))) c.fail("coefficient of a large product", "i=" + vm::S(i) + " got " + vm::S(res[i]) + " want " + vm::S(coef(i))); }
    if (!trunc && prime) { auto ev = [&](const std::vector<T>& v, const T& x) { T s = z; for (size_t i = v.size(); i-- > 0;) s = s * x + v[i]; return s; }; T x = sc(one, (ll)r.below(uint64_t(M))); c.eq(ev(res, x), ev(a, x) * ev(b, x), "large product at a random point"); }
    for (auto& x : res) if (!(x.v >= 0 && x.v < M)) c.fail("normalised coefficient", vm::S(x)); c.nontrivial_input();
}
static void big_case(vm::Ctx& c, int lo, int hi, bool crt) {
    auto& r = c.rng; int n1 = (int)r.range(lo, hi), n2 = r.coin() ? (int)r.range(std::max(lo / 4, 100), hi) : (int)r.range(100, 130); if (crt) n2 = (int)r.range(100001 - n1 > 100 ? 100001 - n1 : 100, hi); else if (n1 + n2 - 2 > 100000) n2 = std::max(100, 100002 - n1); int algo = crt || hi > 5000 ? 0 : (int)r.below(5); int k = (int)r.below(6); if (r.coin()) { int s = n1 + n2 - 2, t = 1; while (2 * t <= s) t *= 2; t += 2; if (!crt && hi <= 5000 && t - n1 > 100) n2 = t - n1 + (int)r.below(2); } /* total degree at a power of two */ if (algo && n2 > n1) std::swap(n1, n2);
    c.input("big n1=%d n2=%d ring=%d", n1, n2, k);
    switch (k) { case 0: big(c, mcu(1), n1, n2, true, algo); break; case 1: big(c, mu(1, 4294967291u), n1, n2, true, algo); break; case 2: big(c, mx(1, r.pick({2147483647, 998244353, 2147483646})), n1, n2, false, algo); break; case 3: big(c, ml(1, 4294967291ll), n1, n2, true, algo); break; case 4: if (hi <= 5000) { big(c, ml(1, r.pick<ll>({4294967311ll, 9223372036854775783ll})), n1, n2, true, 0); break; } default: big(c, mci(1), n1, n2, true, algo); }
}
UNIT(big_products, 240, 3000, "products at degrees 450..3000 through each algorithm separately (dispatch, complex FFT in 2 and 3 blocks, CRT FFT, Karatsuba), worst-case coefficients, moduli up to 2^32-5 and above") { big_case(c, 450, 3000, false); }
UNIT(huge_products, 8, 120, "products with l1+l2 up to the 100000 limit of the complex FFT, worst-case coefficients included") { big_case(c, 30000, 60000, false); }
UNIT(crt_products, 2, 30, "products with l1+l2 above 100000 (number-theoretic transforms with CRT)") { big_case(c, 60000, 90000, true); }
UNIT(integer_exact_division, 160, 3000, "p = q*d over the integers, d with a leading coefficient other than +-1, at degrees on both sides of the switch of division algorithm: p/d, p%d and the same through Euclid's p = q*d + r") {
    auto& r = c.rng; bool big = c.index % 2; int l2 = big ? 170 + (int)r.below(120) : 1 + (int)r.below(60), lq = big ? (int)r.below(200) : (int)r.below(150); c.input("deg d=%d deg q=%d", l2, lq);
    auto go = [&](auto one) { typedef decltype(one) T; std::vector<T> d, q; for (int i = 0; i <= l2; i++) d.push_back(T(r.range(-9, 9))); for (int i = 0; i <= lq; i++) q.push_back(T(r.range(-9, 9))); if (q[lq] == T(0)) q[lq] = T(1);
        d[l2] = T(r.pick({2, 3, 5, -2, -7, 10})); auto w = mulv(d, q, T(0)); int m = (int)r.below(3); for (int i = 0; i < l2 && m; i++) w[i] = w[i] + T(i % 3); std::vector<T> rem(std::max(l2, 1), T(0)); for (int i = 0; i < l2 && m; i++) rem[i] = T(i % 3);
        polynom<T> P(w), D(d), t; same(c, P / D, q, T(0), "integer /"); same(c, P % D, rem, T(0), "integer %"); t = P; t /= D; same(c, t, q, T(0), "integer /="); t = P; t %= D; same(c, t, rem, T(0), "integer %="); c.ok((P / D) * D + (P % D) == P, "integer p = q*d + r"); };
    switch (c.index / 2 % 3) { case 0: go(int64_t(1)); break; case 1: go(int(1)); break; default: go(__int128(1)); }
    c.nontrivial_input();
}
UNIT(destination_content, 4000, 80000, "operations into a destination that already holds other, longer coefficients: nothing of it survives, in the value or beyond its degree") {
    with_ring(c, [&](auto R) { typedef decltype(R.one) T; typedef polynom<T> P; auto& r = c.rng; T z = R.one - R.one; int n1 = 1 + (int)r.below(20), n2 = 1 + (int)r.below(20); auto a = gen(c, R, n1), b = gen(c, R, n2); P p(a), q(b); std::vector<T> junk; for (int i = (int)r.below(80); i-- > 0;) junk.push_back(R.one); P j(junk); j.ZERO_COEFF = z; c.note(" n1=" + vm::S(n1) + " n2=" + vm::S(n2) + " junk=" + vm::S(junk.size()));
        size_t L = std::max(n1, n2); std::vector<T> s(L, z), d(L, z), ng, m, dv; for (size_t i = 0; i < L; i++) { T x = i < a.size() ? a[i] : z, y = i < b.size() ? b[i] : z; s[i] = x + y; d[i] = x - y; } T k = R.any(), u = R.unit(); for (auto& x : a) ng.push_back(z - x), m.push_back(x * k), dv.push_back(x / u);
        P t; t = j; P::add(t, p, q); same(c, t, s, z, "add"); t = j; P::sub(t, p, q); same(c, t, d, z, "sub"); t = j; P::neg(t, p); same(c, t, ng, z, "neg"); t = j; P::mul(t, p, q); same(c, t, mulv(a, b, z), z, "mul"); t = j; P::mul(t, p, k); same(c, t, m, z, "mul scalar"); t = j; P::div(t, p, u); same(c, t, dv, z, "div scalar"); { int lr = (int)r.below(n1 + n2 + 3); auto w = mulv(a, b, z); w.resize(lr + 1, z); t = j; P::mul(t, p, q, lr); same(c, t, w, z, "truncated mul"); }
        b.back() = R.unit(); P e(b); P Q, M, H; t = j; P::div(t, p, e); P t2; t2 = j; P::mod(t2, p, e); c.ok(t == p / e && t2 == p % e, "div, mod into a destination"); c.ok(t * e + t2 == p, "p = q*d + r in destinations"); for (int i = t.deg() + 1, n = t.size() + 3; i < n; i++) c.ok(t.at(i) == z, "beyond the quotient"); t = j; P::quot_rem_long(t, p, e); t2 = j; P::quot_rem_hensel(t2, p, e); c.ok(t == t2, "both division algorithms into a destination");
        c.nontrivial_input(); }, "destination");
}
