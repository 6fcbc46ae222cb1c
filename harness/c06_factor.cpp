// C06: primality, factorization, divisors, functions of a factorization, digits
#include "vm.h"
#include "altruct/algorithm/math/factorization.h"
#include "altruct/algorithm/math/primes.h"
#include <cmath>
using namespace altruct::math;
using vm::u128; using vm::i128;
typedef uint64_t u64; typedef int64_t ll;

static u64 mm(u64 a, u64 b, u64 m) { return u64(u128(a) * b % m); }
static u64 pw(u64 a, u64 e, u64 m) { u64 r = 1 % m; for (; e; e >>= 1, a = mm(a, a, m)) if (e & 1) r = mm(r, a, m); return r; }
// reference: trial division by small primes, then strong tests to the first 12 prime bases (proved complete below 2^64)
static bool rprime(u64 n) {
    if (n < 2) return false;
    for (u64 p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) if (n % p == 0) return n == p;
    u64 d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, s++;
    for (u64 a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
        u64 x = pw(a, d, n); bool comp = x != 1 && x != n - 1;
        for (int i = 1; i < s && comp; i++) { x = mm(x, x, n); if (x == n - 1) comp = false; }
        if (comp) return false;
    }
    return true;
}
static u64 nextp(u64 n) { while (!rprime(n)) n++; return n; }
static u64 prevp(u64 n) { while (n > 2 && !rprime(n)) n--; return n; }

template<typename T> void mr(vm::Ctx& c, u64 n) {
    if (n > u64(std::numeric_limits<T>::max())) return;
    c.checks();
    bool got = miller_rabin<T>(T(n)), want = rprime(n);
    if (got != want) c.fail("miller_rabin", "miller_rabin(" + vm::str(n) + ") = " + vm::str(got));
    if (want) c.event("primes classified"); else c.event("composites classified");
}
static void mr_all(vm::Ctx& c, u64 n) { mr<int32_t>(c, n); mr<uint32_t>(c, n); mr<int64_t>(c, n); mr<uint64_t>(c, n); mr<long long>(c, n); }
UNIT(mr_small, 64, 1024, "every n in a block of 4096 from 0 against trial division (all widths)") {
    c.input("block %llu", (unsigned long long)c.index);
    for (u64 n = c.index * 4096; n < (c.index + 1) * 4096; n++) {
        bool pr = n > 1; for (u64 d = 2; d * d <= n && pr; d++) pr = n % d != 0;
        c.eq(miller_rabin<int>(int(n)), pr, "miller_rabin int"); c.eq(miller_rabin<ll>(ll(n)), pr, "miller_rabin int64"); c.eq(miller_rabin<uint32_t>(uint32_t(n)), pr, "miller_rabin uint32"); c.eq(miller_rabin<u64>(n), pr, "miller_rabin uint64");
    }
    c.nontrivial(c.index);
}
// first strong pseudoprimes to the witness sets the code uses, Carmichael numbers, prime squares
static const u64 SPSP[] = { 2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1373653, 25326001, 3215031751ull, 2152302898747ull, 3474749660383ull, 341550071728321ull, 3825123056546413051ull,
    9080191, 4759123141ull, 1122004669633ull, 561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 1295, 25, 121, 781, 1541, 5461, 5611, 7813, 1194649, 12327121, 3825123056546413051ull - 2, 3825123056546413051ull + 2,
    1000000007ull * 1000000009ull, 4294967291ull * 4294967279ull, 18446744073709551557ull, 18446744073709551615ull, 18446744073709551533ull, 9223372036854775783ull, 9223372036854775807ull, 4295098369ull, 2147483647, 4294967295ull, 4294967291ull,
    318665857834031151ull, 230245660726188031ull, 1122004669633ull + 2, 341550071728321ull - 2, 341550071728321ull + 30, 4759123141ull - 2, 9080191 - 2, 9080191 + 2, 2046, 2048, 2049, 2053, 1195068768795265792ull };
UNIT(mr_special, 1500, 60000, "numbers built to fool the test: strong pseudoprimes of the witness sets, p(2p-1), Carmichael products (6k+1)(12k+1)(18k+1), prime squares, neighbours of witness-set limits and of powers of two") {
    if (c.index < sizeof(SPSP) / sizeof(SPSP[0])) { c.input("special %llu", (unsigned long long)SPSP[c.index]); mr_all(c, SPSP[c.index]); c.nontrivial(SPSP[c.index]); return; }
    for (int t = 0; t < 12; t++) {
        u64 n = 0;
        switch (c.rng.below(9)) {
        case 7: { int r = 8 + (int)c.rng.below(55); u64 k = c.rng.bits(63 - r) | 1; for (int i = 0; i < 400; i++, k += 2) { if (k > (~0ull - 1) >> r) k = 1; n = (k << r) + 1; if (rprime(n)) break; } c.event("n = k 2^r + 1"); break; }
        case 8: { int r = 4 + (int)c.rng.below(28); u64 k = c.rng.bits(31 - r) | 1, a, b; for (int i = 0; i < 100 && !rprime((k << r) + 1); i++) k = (k + 2) & ((1ull << (32 - r)) - 1); a = (k << r) + 1; b = nextp(c.rng.coin() ? a + 1 : 3 + c.rng.bits(31)); n = c.rng.coin() ? a * b : a * a; break; }
        case 0: { u64 p = nextp(c.rng.bits(31)); n = p * p; break; }
        case 1: { u64 p = nextp(c.rng.bits(30)); if (rprime(2 * p - 1)) n = p * (2 * p - 1); else { u64 k = c.rng.pick({2, 3, 4, 5, 6}); n = p * (k * (p - 1) + 1); } break; }
        case 2: { u64 k = c.rng.bits(17); for (int i = 0; i < 2000; i++, k++) if (rprime(6 * k + 1) && rprime(12 * k + 1) && rprime(18 * k + 1)) { n = (6 * k + 1) * (12 * k + 1) * (18 * k + 1); break; } break; }
        case 3: n = c.rng.pick({2047ull, 9080191ull, 4759123141ull, 1122004669633ull, 341550071728321ull, 3825123056546413051ull, 1ull << 31, 1ull << 32, 1ull << 63, ~0ull - 600}) + c.rng.below(1200) - 600; break;
        case 4: n = nextp(c.rng.bits(63)); break;
        case 5: n = SPSP[c.rng.below(20)] + 2 * c.rng.below(3); break;
        default: n = c.rng.edgyu(~0ull) | 1;
        }
        c.input("n=%llu", (unsigned long long)n);
        mr_all(c, n); if (n > 3) c.nontrivial(n);
    }
}
template<typename I> void fact_check(vm::Ctx& c, u64 n, const std::vector<std::pair<I, int>>& vf, const char* tag) {
    u128 r = 1; std::set<u64> seen;
    for (auto& f : vf) {
        c.ok(rprime(u64(f.first)), tag, "factor " + vm::str(u64(f.first)) + " of " + vm::str(n) + " is not prime");
        c.ok(f.second > 0, tag, "exponent"); c.ok(seen.insert(u64(f.first)).second, tag, "repeated prime in factorization of " + vm::str(n));
        for (int i = 0; i < f.second && r <= n; i++) r *= u64(f.first);
    }
    c.ok(r == n, tag, "factors multiply to " + vm::str(r) + " instead of " + vm::str(n));
}
template<typename I> void fact_one(vm::Ctx& c, u64 n, bool slow) {
    if (n > u64(std::numeric_limits<I>::max()) || n == 0) return;
    auto vf = factor_integer<I>(I(n));
    fact_check<I>(c, n, vf, "factor_integer");
    c.eq(u64(from_factorization(vf)), n, "from_factorization");
    if (slow) { auto vs = factor_integer_slow<I>(I(n)); fact_check<I>(c, n, vs, "factor_integer_slow"); for (size_t i = 1; i < vs.size(); i++) c.ok(vs[i - 1].first < vs[i].first, "factor_integer_slow order"); }
    if (vf.size() > 1) c.event("composite split");
}
UNIT(factor_small, 60, 1000, "every n in a block of 2000 from 1: Pollard-rho and trial factorization, all widths") {
    c.input("block %llu", (unsigned long long)c.index);
    for (u64 n = c.index * 2000; n < (c.index + 1) * 2000; n++) { fact_one<int>(c, n, true); fact_one<ll>(c, n, false); if (n % 4 == 0) { fact_one<uint32_t>(c, n, true); fact_one<u64>(c, n, true); fact_one<long long>(c, n, false); } }
    c.nontrivial(c.index);
}
UNIT(factor_big, 250, 8000, "semiprimes, prime squares and cubes, smooth numbers and random values up to 2^63, prime neighbours of type limits") {
    u64 n = 1; int bits = c.rng.pick({20, 31, 32, 44, 52, 60, 63});
    switch (c.rng.below(7)) {
    case 0: { int k = (int)c.rng.below(bits / 2) + 2; n = nextp(c.rng.bits(k)) * nextp(c.rng.bits(bits - k - 1)); break; }
    case 1: { u64 p = nextp(c.rng.bits(bits / 2 - 1)); n = p * p; break; }
    case 2: { u64 p = nextp(c.rng.bits(bits / 3 - 1)); n = p * p * p; break; }
    case 3: { while (n < (1ull << (bits - 6))) n *= c.rng.pick({2, 3, 5, 7, 11, 13, 17, 19, 23}); break; }
    case 4: { u64 p = nextp(c.rng.bits(bits / 4)), q = nextp(p + 1); n = p * p * q * (p < 30000 ? q : 1); break; }
    case 5: n = prevp((1ull << bits) - 1 - c.rng.below(1000)); break;
    default: n = c.rng.bits(bits);
    }
    if (n == 0) n = 1;
    c.input("factor %llu", (unsigned long long)n);
    fact_one<int>(c, n, true); fact_one<uint32_t>(c, n, true); fact_one<ll>(c, n, n < 100000000000ull); fact_one<u64>(c, n, false); fact_one<long long>(c, n, false);
    c.nontrivial(n);
}
static std::vector<std::pair<ll, int>> tf(ll n) { std::vector<std::pair<ll, int>> v; for (ll d = 2; d * d <= n; d++) { int e = 0; while (n % d == 0) n /= d, e++; if (e) v.push_back({d, e}); } if (n > 1) v.push_back({n, 1}); return v; }
UNIT(functions, 1200, 20000, "divisor lists (all, bounded), signed squarefree divisors, divisor count, totient, Carmichael function against brute force for every n") {
    ll n = (ll)c.index + 1;
    if (c.index >= 1000) { n = 1; while (n < 300000) { ll f = c.rng.pick({2, 2, 3, 3, 5, 7, 11, 13}); n *= f; if (c.rng.coin(1, 9)) break; } }
    auto vf = tf(n); c.rng.shuffle(vf);
    c.input("n=%lld vf=%s", (long long)n, vm::str(vf).c_str());
    std::vector<ll> d; for (ll i = 1; i <= n; i++) if (n % i == 0) d.push_back(i);
    c.eq(divisors<ll>(vf), d, "divisors");
    std::vector<ll> dv; divisors(dv, vf); std::sort(dv.begin(), dv.end()); c.eq(dv, d, "divisors (append)");
    for (int t = 0; t < 8; t++) {
        ll maxd = t < 2 ? d[c.rng.below(d.size())] : 1 + (ll)c.rng.below(n + 2);
        std::vector<ll> w; for (ll x : d) if (x <= maxd) w.push_back(x);
        c.eq(divisors<ll>(vf, maxd), w, "bounded divisors");
    }
    std::vector<ll> sf, wsf; squarefree_signed_divisors(sf, vf); std::sort(sf.begin(), sf.end());
    for (ll x : d) { int s = 1; bool ok = true; for (auto& f : vf) { if (x % f.first == 0) { s = -s; if (x % (f.first * f.first) == 0) ok = false; } } if (ok) wsf.push_back(s * x); }
    std::sort(wsf.begin(), wsf.end()); c.eq(sf, wsf, "squarefree signed divisors");
    c.eq(divisor_sigma0(vf), ll(d.size()), "divisor_sigma0");
    std::vector<ll> pf; std::vector<int> pe; for (auto& f : vf) pf.push_back(f.first), pe.push_back(f.second);
    c.eq(prime_factors(vf), pf, "prime_factors"); c.eq(prime_exponents(vf), pe, "prime_exponents");
    c.eq(from_factorization(vf), n, "from_factorization");
    ll phi = 0, lam = 1; std::vector<char> seen(n < 3000 ? n + 1 : 0);
    for (ll a = 1; a <= n; a++) {
        ll x = a, y = n; while (y) { ll t = x % y; x = y; y = t; }
        if (x != 1) continue;
        phi++;
        if (n < 3000 && !seen[a % n]) { ll o = 1, z = a % n; while (z != 1 % n) { seen[z] = 1; z = z * a % n, o++; } ll g = lam, h = o; while (h) { ll t = g % h; g = h; h = t; } lam = lam / g * o; }
    }
    c.eq(euler_phi(vf), phi, "euler_phi"); if (n < 3000) c.eq(carmichael_lambda(vf), lam, "carmichael_lambda");
    ll p = c.rng.pick({2, 3, 5, 6, 7, 10}); int e = 1, we = 1; ll rest = n; while (rest % p == 0) rest /= p, we++;
    c.eq(factor_out(n, p, e), rest, "factor_out"); c.eq(e, we, "factor_out exponent");
    if (n > 1) c.nontrivial(n);
}
UNIT(limit_divisors, 300, 5000, "divisors and factorization functions of 32-bit and 64-bit values close to the type limit (no intermediate may overflow)") {
    bool wide = c.rng.coin(); u64 lim = wide ? u64(INT64_MAX) : u64(INT32_MAX), n = 1; std::map<u64, int> m;
    while (true) { u64 p = c.rng.coin(1, 6) ? nextp(c.rng.bits(wide ? 31 : 15)) : c.rng.pick({2, 2, 3, 5, 7, 11, 13, 101, 65537}); if (p > lim / n || m.size() > 9) break; n *= p; m[p]++; }
    if (c.rng.coin(1, 5)) { n = prevp(lim - c.rng.below(1000)); m.clear(); m[n] = 1; }
    c.input("%s n=%llu", wide ? "int64" : "int32", (unsigned long long)n);
    u64 cnt = 1, phi = 1; for (auto& f : m) { cnt *= f.second + 1; phi *= f.first - 1; for (int i = 1; i < f.second; i++) phi *= f.first; }
    auto run = [&](auto zero) {
        typedef decltype(zero) I;
        std::vector<std::pair<I, int>> vf; for (auto& f : m) vf.push_back({I(f.first), f.second});
        c.eq(u64(from_factorization(vf)), n, "from_factorization"); c.eq(u64(euler_phi(vf)), phi, "euler_phi"); c.eq(u64(divisor_sigma0(vf)), cnt, "divisor_sigma0");
        std::vector<I> d = divisors<I>(vf); c.eq(u64(d.size()), cnt, "divisors size"); for (size_t i = 0; i < d.size(); i++) { c.ok(d[i] > 0 && n % u64(d[i]) == 0 && (i == 0 || d[i] > d[i - 1]), "divisors"); }
        I maxd = I(c.rng.bits(63) % n) + 1; size_t w = 0; for (I x : d) w += x <= maxd; c.eq(divisors<I>(vf, maxd), std::vector<I>(d.begin(), d.begin() + w), "bounded divisors");
        std::vector<I> s; squarefree_signed_divisors(s, vf); c.eq(s.size(), size_t(1) << m.size(), "squarefree divisors size");
    };
    if (wide) run(int64_t(0)); else run(int32_t(0));
    c.nontrivial(n);
}
UNIT(smooth, 400, 10000, "numbers generated from a list of primes up to a bound: each exactly once, with its factorization, nothing missing; bounds up to the type limit") {
    std::vector<ll> ps = {2, 3, 5, 7, 11, 13, 17, 19, 23}; c.rng.shuffle(ps); ps.resize(c.rng.below(6));
    bool big = c.rng.coin(1, 4); if (big && ps.size() > 3) ps.resize(3);
    ll nm = big ? INT64_MAX - (ll)c.rng.below(1000) : 1 + (ll)c.rng.below(3000);
    c.input("primes=%s n_max=%lld", vm::str(ps).c_str(), (long long)nm);
    std::map<ll, int> got; size_t visits = 0;
    from_primes<ll, ll>(ps, nm, [&](const std::vector<std::pair<ll, int>>& vf, ll n) {
        visits++; got[n]++; u128 r = 1; std::set<ll> s;
        for (auto& f : vf) { c.ok(f.second > 0 && s.insert(f.first).second && std::count(ps.begin(), ps.end(), f.first) == 1, "from_primes factorization"); for (int i = 0; i < f.second; i++) r *= f.first; }
        c.eq(r, u128(n), "from_primes product"); c.ok(n <= nm, "from_primes bound");
    });
    std::vector<ll> all = {1}; for (ll p : ps) { size_t z = all.size(); for (size_t i = 0; i < z; i++) { ll v = all[i]; while (v <= nm / p) { v *= p; all.push_back(v); } } }
    c.eq(visits, all.size(), "from_primes count"); for (ll v : all) c.eq(got[v], 1, "from_primes each once");
    c.event("numbers visited", visits); if (ps.size() > 1) c.nontrivial_input();
}
UNIT(digits, 1500, 60000, "base-b digits and strings of integers up to the type limits, padded, and back") {
    u64 n = c.rng.edgyu(c.rng.coin() ? u64(INT64_MAX) : 100000); int b = c.rng.coin() ? (int)c.rng.range(2, 36) : (int)c.rng.range(2, 100000); int len = (int)c.rng.below(70);
    c.input("n=%llu b=%d len=%d", (unsigned long long)n, b, len);
    std::vector<int> w; for (u64 t = n; t; t /= b) w.push_back(int(t % b));
    c.eq(integer_digits<ll, int>(ll(n), b), w, "integer_digits"); c.eq((from_digits<ll, int>(w, b)), ll(n), "from_digits");
    c.eq((from_digits<u64, int>(w, b)), n, "from_digits uint64");
    auto wl = w; while ((int)wl.size() < len) wl.push_back(0);
    auto dl = integer_digits<ll, int>(ll(n), b, len); c.eq(dl, wl, "integer_digits padded"); c.eq((from_digits<ll, int>(dl, b)), ll(n), "from padded");
    u64 un = c.rng.edgyu(~0ull); std::vector<u64> uw; for (u64 t = un; t; t /= u64(b)) uw.push_back(t % b); c.eq(integer_digits<u64, u64>(un, u64(b)), uw, "integer_digits uint64");
    if (b <= 36) { std::string s; for (size_t i = wl.size(); i-- > 0;) s += "0123456789abcdefghijklmnopqrstuvwxyz"[wl[i]]; c.eq(integer_string<ll, int>(ll(n), b, len), s, "integer_string"); c.eq(integer_string(wl), s, "integer_string(digits)"); }
    if (n) c.nontrivial_input();
}
UNIT(reduce, 800, 20000, "joint reduction of numerator and denominator lists: same quotient, every pair coprime afterwards") {
    std::vector<ll> a, b; for (int i = (int)c.rng.below(6); i-- > 0;) a.push_back(1 + (ll)c.rng.below(c.rng.coin() ? 40 : 100000)); for (int i = (int)c.rng.below(6); i-- > 0;) b.push_back(1 + (ll)c.rng.below(c.rng.coin() ? 40 : 100000));
    c.input("num=%s den=%s", vm::str(a).c_str(), vm::str(b).c_str());
    auto x = a, y = b; auto g = [](ll p, ll q) { while (q) { ll t = p % q; p = q; q = t; } return p; };
    fraction_reduce(x, y, g);
    std::map<ll, int> m; auto add = [&](const std::vector<ll>& v, int s) { for (ll n : v) for (auto& f : tf(n)) m[f.first] += s * f.second; };
    add(a, 1); add(b, -1); add(x, -1); add(y, 1); for (auto& f : m) c.eq(f.second, 0, "fraction_reduce value");
    c.ok(x.size() == a.size() && y.size() == b.size(), "fraction_reduce sizes");
    for (ll p : x) for (ll q : y) c.eq(g(p, q), 1LL, "fraction_reduce coprime");
    if (x != a) { c.event("reduced"); c.nontrivial_input(); }
}
template<typename I> void trivial(vm::Ctx& c) { c.eq(factor_integer<I>(I(0)).size(), size_t(0), "factor_integer(0)"); c.eq(factor_integer<I>(I(1)).size(), size_t(0), "factor_integer(1)"); c.eq(factor_integer_slow<I>(I(1)).size(), size_t(0), "factor_integer_slow(1)"); c.eq(u64(from_factorization(std::vector<std::pair<I, int>>{})), u64(1), "empty product");
    for (I p : {I(2), I(3), I(5), I(7)}) { c.eq(factor_integer<I>(p), std::vector<std::pair<I, int>>{{p, 1}}, "smallest primes"); c.eq(miller_rabin<I>(p), true, "smallest primes"); } c.eq(miller_rabin<I>(I(0)), false, "0"); c.eq(miller_rabin<I>(I(1)), false, "1"); }
UNIT(trivial_arguments, 1, 1, "0 and 1 have no prime factors; the smallest primes") { trivial<int>(c); trivial<uint32_t>(c); trivial<ll>(c); trivial<u64>(c); trivial<long long>(c); c.nontrivial(1); }
