// C37: arbitrary-precision integers (GMP): conversions, helper functions, moduli and the generic algorithms over them
#include <gmpxx.h>
#include <string>
inline std::string str(const mpz_class& z) { return z.get_str(); }
#include "vm.h"
#include "altruct/algorithm/math/gmp_helpers.h"
#include "altruct/algorithm/math/modulos.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/fraction.h"
using namespace altruct::math;
using vm::i128; using vm::u128;
typedef int64_t ll; typedef moduloX<mpz> mz;

namespace {
// decimal digits, independent of the conversions under test
mpz big(i128 v) { return mpz(vm::str(v)); }
mpz bigu(u128 v) { return mpz(vm::str(v)); }
struct Limbs { bool neg; std::vector<uint32_t> d; };
Limbs limbs(vm::Rng& r, int maxw) { Limbs l; l.neg = r.coin(); int n = (int)r.below(maxw + 1); for (int i = 0; i < n; i++) l.d.push_back(r.coin(1, 3) ? (r.coin() ? 0u : ~0u) : r.u32()); if (n && r.coin(1, 4)) l.d.back() = 1u << r.below(32); if (n && l.d.back() == 0) l.d.back() = 1; if (!n) l.neg = false; return l; }
mpz of(const Limbs& l) { std::string s = l.neg ? "-" : ""; char b[16]; if (l.d.empty()) s += "0"; for (size_t i = l.d.size(); i-- > 0;) snprintf(b, sizeof b, "%08x", l.d[i]), s += b; return mpz(s, 16); }
uint64_t low(const Limbs& l) { uint64_t v = 0; if (l.d.size() > 0) v = l.d[0]; if (l.d.size() > 1) v |= (uint64_t)l.d[1] << 32; return l.neg ? 0 - v : v; }
mpz rnd(vm::Rng& r, int w) { return of(limbs(r, w)); }
mpz emod(const mpz& a, const mpz& m) { mpz t; mpz_fdiv_r(t.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return t; }
}
int c37_other_unit(); // the header is part of a second translation unit too
template<typename T> void to(vm::Ctx& c, const mpz& z, uint64_t want, const char* tag) { c.eq(castOf<T>(z), (T)want, tag); T ref(5); c.eq(castOf(ref, z), (T)want, tag); }
template<typename T> void from(vm::Ctx& c, T v, const char* tag) { mpz w = big((i128)v); c.eq(castOf<mpz>(v), w, tag); mpz ref(3); c.eq(castOf(ref, v), w, tag); c.eq(castOf<T>(w), v, tag); }
UNIT(conversions, 20000, 400000, "one value of any size to every fixed-width type (reduced modulo its width) and every fixed-width value to an integer and back") {
    auto& r = c.rng; Limbs l = limbs(r, r.coin() ? 3 : r.coin(1, 20) ? 2000 : 40); mpz z = of(l); c.input("%s", z.get_str().c_str()); uint64_t w = low(l);
    to<int>(c, z, w, "to int"); to<unsigned>(c, z, w, "to unsigned"); to<long>(c, z, w, "to long"); to<unsigned long>(c, z, w, "to unsigned long"); to<long long>(c, z, w, "to long long"); to<unsigned long long>(c, z, w, "to unsigned long long"); if (l.d.size() <= 1 || (l.d.size() == 2 && l.d[1] < 0x7fffffff)) c.eq(mpz_to_int64(z), (int64_t)w, "mpz_to_int64");
    ll v = r.edgy(INT64_MIN, INT64_MAX); uint64_t u = r.edgyu(~0ull); c.note(" v=" + vm::S(v) + " u=" + vm::S(u)); from<int>(c, (int)v, "from int"); from<unsigned>(c, (unsigned)u, "from unsigned"); from<long>(c, v, "from long"); from<unsigned long>(c, u, "from unsigned long"); from<long long>(c, v, "from long long"); from<unsigned long long>(c, u, "from unsigned long long"); c.eq(int64_to_mpz(v), big(v), "int64_to_mpz"); c.eq(mpz_to_int64(big(v)), v, "int64 round trip");
    { int k = (int)r.below(40); mpf f(z, 2000 + 32 * l.d.size()); mpz q = z; mpf_div_2exp(f.get_mpf_t(), f.get_mpf_t(), k); mpz_tdiv_q_2exp(q.get_mpz_t(), q.get_mpz_t(), k); c.eq(castOf<mpz>(f), q, "from a float, truncated"); }
    { std::ostringstream os; os << z; c.eq(os.str(), z.get_str(), "stream"); mpq q(z, mpz(7)); q.canonicalize(); std::ostringstream oq; oq << q; mpq back(oq.str()); c.ok(back == q, "rational through a stream"); }
    c.ok(c37_other_unit() == 7, "second translation unit"); if (l.d.size() > 2) c.nontrivial_input();
}
UNIT(floats, 4000, 60000, "floating-point helpers: square roots, powers, rounding, precision, text") {
    auto& r = c.rng; int k = (int)r.below(30); mpz z = rnd(r, 6); c.input("%s / 2^%d", z.get_str().c_str(), k); mpf f(z, 512); mpf_div_2exp(f.get_mpf_t(), f.get_mpf_t(), k); mpz fl, ce; mpz_fdiv_q_2exp(fl.get_mpz_t(), z.get_mpz_t(), k); mpz_cdiv_q_2exp(ce.get_mpz_t(), z.get_mpz_t(), k);
    mpf d(0, 512); c.ok(f_set(d, f_floor(f), 512) == mpf(fl, 512) && mpf(f_ceil(f)) == mpf(ce), "rounding of values that fit the default precision"); (void)d;
    int e = (int)r.below(6), b = (int)r.range(-50, 50); mpf p(1); for (int i = 0; i < e; i++) p *= b; c.ok(f_pow(mpf(b), e) == p, "f_pow"); c.ok(f_abs(mpf(b)) == mpf(std::abs(b)), "f_abs"); c.eq(f_int(mpf(b) + mpf(0.25)), (int)(b + 0.25), "f_int"); int n = (int)r.below(2000000000); mpf s = f_sqrt(n), t = f_sqrt(mpf(n)); c.ok(s == t && abs(s * s - n) < 1e-6, "f_sqrt");
    mpf x; int pr = 64 * (1 + (int)r.below(20)); f_set(x, 12345, pr); c.ok(x == 12345 && (int)x.get_prec() >= pr, "f_set"); mpf y; f_set(y, x, 0); c.ok(y == x && y.get_prec() == x.get_prec(), "f_set keeps the source precision");
    { int m = r.coin(1, 20) ? 0 : (int)r.range(-100000, 100000), q = (int)r.below(12); mpf g(m); mpf_div_2exp(g.get_mpf_t(), g.get_mpf_t(), q); std::ostringstream os; os << g; mpf back; bool ok = back.set_str(os.str(), 10) == 0; c.note(" text " + os.str()); c.ok(ok && back == g, "text reads back as the same value"); }
    if (z > 100) c.nontrivial_input();
}
UNIT(helpers, 12000, 200000, "number-theoretic helpers over random signed values: division, gcd, roots, powers, inverses, primality, against their definitions") {
    auto& r = c.rng; int w = r.coin() ? 2 : 12; mpz a = rnd(r, w), b = rnd(r, w); if (b == 0) b = 3; c.input("a=%s b=%s", a.get_str().c_str(), b.get_str().c_str()); mpz aa = abs(a), m = abs(b) + 1;
    { mpz f = z_div_floor(a, b), k = z_div_ceil(a, b), d = a - f * b; c.ok((b > 0 ? d >= 0 && d < b : d <= 0 && d > b) && k == f + (d == 0 ? 0 : 1), "div_floor, div_ceil"); c.eq(z_abs(a), aa, "abs"); c.eq(z_sq(a), mpz(a * a), "sq"); c.eq(z_cb(a), mpz(a * a * a), "cb"); mpz g = z_gcd(a, b); c.ok(g > 0 && a % g == 0 && b % g == 0 && z_gcd(a / g, b / g) == 1, "gcd"); mpz lc = z_lcm(a, b); c.ok(abs(lc) * g == aa * abs(b), "lcm"); }
    { mpz s = z_sqrt(aa), k = z_sqrtc(aa); c.ok(s * s <= aa && (s + 1) * (s + 1) > aa && k == s + (s * s < aa ? 1 : 0), "sqrt"); c.eq(sqrtT(aa), s, "sqrtT"); c.eq(is_square(aa), bool(s * s == aa), "is_square"); c.ok(is_square(mpz(a * a)), "square"); int n = 1 + (int)r.below(7); mpz t = z_root(aa, n); c.ok(z_pow(t, n) <= aa && z_pow(t + 1, n) > aa, "root"); mpz p = 1; for (int i = 0; i < n; i++) p *= a; c.eq(z_pow(a, n), p, "pow"); c.eq(powT(a, n), p, "powT"); for (int i = 0; i < 8; i++) { int at = (int)r.below(400); mpz q; mpz_fdiv_q_2exp(q.get_mpz_t(), a.get_mpz_t(), at); c.eq(z_testbit(a, at), (int)mpz_fdiv_ui(q.get_mpz_t(), 2), "testbit"); } }
    { mpz e = rnd(r, 2), p = 1, x = emod(a, m); e = abs(e); mpz y = z_powmod(a, e, m); for (int i = (int)mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) { p = emod(p * p, m); if (mpz_tstbit(e.get_mpz_t(), i)) p = emod(p * x, m); } p = emod(p, m); c.eq(y, p, "powmod"); c.eq(modulo_power(x, e, m), p, "modulo_power"); c.eq(z_mulmod(a, b, m), mpz(a * b % m), "mulmod"); if (z_gcd(a, m) == 1 && m > 1) { mpz i = z_inverse(a, m); c.ok(i > 0 && i < m && emod(i * a, m) == 1, "inverse"); } }
    { ll x = r.edgy(INT64_MIN, INT64_MAX), y = r.edgy(INT64_MIN, INT64_MAX), n = r.edgy(1, INT64_MAX); if (r.coin(1, 4)) { int b = (int)r.range(28, 40); x = (1LL << b) - 1 - (ll)r.below(1 << 10); y = (1LL << (b + (int)r.below(2))) - 1 - (ll)r.below(1 << 10); if (r.coin(1, 4)) x = -x; if (r.coin(1, 4)) y = -y; c.event("words of about 32 bits"); } c.note(" x=" + vm::S(x) + " y=" + vm::S(y) + " n=" + vm::S(n)); c.eq(z_mulmod(x, y, n), (ll)((i128)x * y % n), "64-bit mulmod"); uint64_t xn = uint64_t(((i128)x % n + n) % n), e = r.bits(63); u128 p = 1 % n, s = xn; for (uint64_t k = e; k; k >>= 1) { if (k & 1) p = p * s % n; s = s * s % n; } c.eq(z_powmod(x, (ll)e, n), (ll)p, "64-bit powmod"); c.eq(mpz(a % n), mpz(a % big(n)), "big % 64-bit"); if (abs(b) > 1) c.eq(mpz(x % b), mpz(big(x) % b), "64-bit % big"); }
    { ll x = (ll)r.below(r.coin() ? 3000 : 1000000000); auto pr = [](ll n) { if (n < 2) return false; for (ll d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }; c.eq(is_prime(x, 20) != 0, pr(x), "is_prime"); c.eq(is_prime(big(x), 20) != 0, pr(x), "is_prime"); ll y = x + 1; while (!pr(y)) y++; c.eq(next_prime(x), y, "next_prime"); }
    if (a > 1000) c.nontrivial_input();
}
UNIT(generic, 6000, 100000, "the generic algorithms over big integers: gcd, extended gcd, roots, rounding division") {
    auto& r = c.rng; int w = 1 + (int)r.below(8); mpz a = rnd(r, w), b = rnd(r, w); if (b == 0) b = -5; c.input("a=%s b=%s", a.get_str().c_str(), b.get_str().c_str());
    mpz g0 = z_gcd(a, b); c.eq(mpz(abs(altruct::math::gcd(a, b))), g0, "gcd"); mpz x, y; int st = 0; mpz g = gcd_ex(a, b, &x, &y, &st); c.ok(abs(g) == g0 && a * x + b * y == g, "gcd_ex"); c.eq(absT(a), mpz(abs(a)), "absT"); c.ok(minT(a, b) == (a < b ? a : b) && maxT(a, b) == (a < b ? b : a), "minT, maxT");
    c.eq(div_floor(a, b), z_div_floor(a, b), "div_floor"); c.eq(div_ceil(a, b), z_div_ceil(a, b), "div_ceil"); { mpz q = div_round(a, b), d = 2 * abs(a - q * b), n = abs(b); c.ok(d < n || (d == n && abs(q * b) > abs(a)), "div_round"); }
    { mpz n = abs(a), k = cbrtT(n); c.ok(k * k * k <= n && (k + 1) * (k + 1) * (k + 1) > n, "cbrtT"); c.ok(is_cube(mpz(a * a * a)), "is_cube"); }
    { mpz l = altruct::math::lcm(a, b); c.eq(mpz(abs(l)), mpz(abs(a * b) / g0), "lcm"); typedef fraction<mpz> F; mpz p = rnd(r, 2), q = abs(rnd(r, 2)) + 1; F u(a, b), v(p, q);
      auto is = [&](const F& f, const mpz& n, const mpz& d, const char* t) { c.ok(f.p * d == n * f.q, t); c.ok(f.q > 0 && z_gcd(f.p, f.q) == 1, "lowest terms"); };
      is(u, a, b, "fraction"); is(u + v, a * q + p * b, b * q, "fraction +"); is(u - v, a * q - p * b, b * q, "fraction -"); is(u * v, a * p, b * q, "fraction *"); if (p != 0) is(u / v, a * q, b * p, "fraction /"); is(-u, -a, b, "fraction negate"); mpz x = a * q, y = p * b; if (b < 0) x = -x, y = -y; c.eq(u < v, x < y, "fraction <"); c.eq(u == v, x == y, "fraction =="); }
    if (a > 1000) c.nontrivial_input();
}
UNIT(modulus, 6000, 100000, "residues modulo big integers of any size: ring operations, inverses, divisions, powers, constructions from any signed value") {
    auto& r = c.rng; int w = 1 + (int)r.below(8); mpz M = abs(rnd(r, w)) + 2; if (r.coin(1, 3)) { mpz_nextprime(M.get_mpz_t(), M.get_mpz_t()); } mpz a = rnd(r, w + 2), b = rnd(r, w + 2), s0 = emod(a, M), t0 = emod(b, M); int k = (int)r.edgy(INT32_MIN, INT32_MAX); ll l = r.edgy(INT64_MIN, INT64_MAX); c.input("M=%s a=%s b=%s k=%d l=%lld", M.get_str().c_str(), a.get_str().c_str(), b.get_str().c_str(), k, (long long)l);
    auto ck = [&](const mz& x, const mpz& w, const char* t) { c.checks(); if (!(x.v == w) || !(x.M() == M)) c.fail(t, std::string(t) + ": got " + x.v.get_str() + " mod " + x.M().get_str() + ", want " + w.get_str()); };
    mz s(a, M), t(b, M); ck(s, s0, "construct"); ck(t, t0, "construct"); ck(s + t, emod(a + b, M), "+"); ck(s - t, emod(a - b, M), "-"); ck(-s, emod(-a, M), "negate"); ck(s * t, emod(a * b, M), "*"); { mz x = s; x += x; ck(x, emod(2 * a, M), "self +="); x = s; x *= x; ck(x, emod(a * a, M), "self *="); x = s; x -= x; ck(x, 0, "self -="); }
    ck(castOf(s, k), emod(big(k), M), "from int"); ck(castOf(s, l), emod(big(l), M), "from 64-bit"); ck(castOf(s, (unsigned)k), emod(bigu((unsigned)k), M), "from unsigned"); ck(castOf(s, (uint64_t)l), emod(bigu((uint64_t)l), M), "from unsigned 64-bit"); ck(castOf(s, b), t0, "from big"); ck(s + castOf(s, k), emod(a + k, M), "+ int"); ck(identityOf(s), 1, "identity"); ck(zeroOf(s), 0, "zero");
    mpz g = z_gcd(b, M); if (g == 1) { mpz i = z_inverse(b, M); ck(t.inv(), i, "inverse"); ck(s / t, emod(a * i, M), "/"); { mz x = t; x /= x; ck(x, 1, "self /="); } } { mz x = s * t; if (t0 != 0) { mz q = x / t; if (z_gcd(g, M / g) == 1 || g == 1) ck(q * t, x.v, "(s t) / t * t"); } }
    { mpz e = abs(rnd(r, 2)), p = z_powmod(a, e, M); ck(powT(s, e), p, "powT"); ll e2 = (ll)r.bits(62); p = z_powmod(a, big(e2), M); ck(powT(s, e2), p, "powT 64-bit"); c.eq(modulo_power(s0, (int64_t)e2, M), p, "modulo_power 64-bit"); }
    { polynom<mz> p{s, t, mz(1, M)}, q{t, s}; auto pq = p * q; mpz w0 = emod(a * b, M), w1 = emod(a * a + b * b, M), w2 = emod(b * a + b, M), w3 = emod(a, M); ck(pq[0], w0, "polynomial product"); ck(pq[1], w1, "polynomial product"); ck(pq[2], w2, "polynomial product"); ck(pq[3], w3, "polynomial product"); }
    { mpz m2 = abs(rnd(r, w)) + 1; while (z_gcd(m2, M) != 1) m2++; mpz y0 = emod(b, m2), v = s0, n = M; altruct::math::chinese_remainder(&v, &n, y0, m2); c.ok(n == M * m2 && emod(v, M) == s0 && emod(v, m2) == y0, "chinese_remainder"); }
    if (M > 1000) c.nontrivial_input();
}
