// C04: modular number theory
#include "vm.h"
#include "altruct/algorithm/math/modulos.h"
#include <numeric>
using namespace altruct::math;
using vm::i128; using vm::u128;
typedef long long ll; typedef unsigned long long ull;

static uint64_t rmul(uint64_t a, uint64_t b, uint64_t m) { return uint64_t(u128(a) * b % m); }
static uint64_t rpow(uint64_t a, uint64_t e, uint64_t m) { uint64_t r = 1 % m; a %= m; for (; e; e >>= 1) { if (e & 1) r = rmul(r, a, m); a = rmul(a, a, m); } return r; }
static uint64_t rgcd(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
static std::vector<std::pair<ll, int>> fact(ll n) { std::vector<std::pair<ll, int>> v; for (ll p = 2; p * p <= n; p++) if (n % p == 0) { int e = 0; while (n % p == 0) n /= p, e++; v.push_back({ p, e }); } if (n > 1) v.push_back({ n, 1 }); return v; }
static std::vector<ll> pf(ll n) { std::vector<ll> v; for (auto& f : fact(n)) v.push_back(f.first); return v; }
static ll phi(ll n) { ll r = n; for (ll p : pf(n)) r = r / p * (p - 1); return r; }
static ll lambda(ll n) { ll r = 1; for (auto& f : fact(n)) { ll l = f.first - 1; for (int i = 1; i < f.second; i++) l *= f.first; if (f.first == 2 && f.second > 2) l /= 2; r = r / rgcd(r, l) * l; } return r; }
static ll order(ll a, ll m) { if (m == 1) return 1; ll o = 1, x = a % m; while (x != 1) x = (ll)rmul(x, a, m), o++; return o; }
static bool isp(ll n) { if (n < 2) return false; for (ll p = 2; p * p <= n; p++) if (n % p == 0) return false; return true; }
static ll rprime(vm::Rng& r, ll hi) { for (;;) { ll p = r.range(2, hi); while (!isp(p)) p++; if (p <= hi) return p; } }
template<typename T> std::vector<T> conv(const std::vector<ll>& v) { return std::vector<T>(v.begin(), v.end()); }
template<typename T> std::vector<T> sorted(const std::set<T>& s) { return std::vector<T>(s.begin(), s.end()); }

template<typename T> void crt(vm::Ctx& c, uint64_t a1, uint64_t n1, uint64_t a2, uint64_t n2) {
    uint64_t g = rgcd(n1, n2); u128 l = u128(n1 / g) * n2;
    if (l > u128(std::numeric_limits<T>::max())) return;
    c.input("crt %s%d a1=%llu n1=%llu a2=%llu n2=%llu", std::is_signed<T>::value ? "int" : "uint", int(sizeof(T) * 8), (ull)a1, (ull)n1, (ull)a2, (ull)n2);
    T a = 5, n = 5;
    chinese_remainder<T>(&a, &n, T(a1), T(n1), T(a2), T(n2));
    bool solvable = a1 % g == a2 % g;
    if (solvable) {
        c.eq(uint64_t(n), uint64_t(l), "crt modulus");
        c.ok(uint64_t(a) < uint64_t(l), "crt range", vm::str(uint64_t(a))); c.eq(uint64_t(a) % n1, a1, "crt first"); c.eq(uint64_t(a) % n2, a2, "crt second");
        T ar = T(a1), nr = T(n1); chinese_remainder<T>(&ar, &nr, T(a2), T(n2)); c.ok(ar == a && nr == n, "crt accumulate");
        c.eq(chinese_remainder<T>(T(a1), T(n1), T(a2), T(n2)), a, "crt value");
        c.event(g > 1 ? "crt common factor" : "crt coprime");
    } else { c.eq(uint64_t(n), uint64_t(0), "crt unsolvable"); c.eq(uint64_t(a), uint64_t(0), "crt unsolvable"); c.event("crt unsolvable"); }
    if (n1 > 1 && n2 > 1) c.nontrivial_input();
}
UNIT(crt_small, 30, 30, "every pair of moduli up to 30 (also equal and non-coprime) and every pair of residues") {
    ll n1 = (ll)c.index + 1;
    for (ll n2 = 1; n2 <= 30; n2++) for (ll a1 = 0; a1 < n1; a1++) for (ll a2 = 0; a2 < n2; a2++) { crt<int>(c, a1, n1, a2, n2); crt<uint32_t>(c, a1, n1, a2, n2); if ((a1 + a2) % 4 == 0) crt<ll>(c, a1, n1, a2, n2), crt<uint64_t>(c, a1, n1, a2, n2); }
}
template<typename T> void crt_rand(vm::Ctx& c) {
    int w = std::numeric_limits<T>::digits;
    uint64_t g = 1 + (c.rng.coin(1, 3) ? 0 : c.rng.bits(w / 3)), x = 1 + c.rng.bits(w / 2), y = 1 + c.rng.bits(w / 2);
    uint64_t n1 = g * x, n2 = g * y;
    u128 l = u128(n1 / rgcd(n1, n2)) * n2;
    if (l > u128(std::numeric_limits<T>::max()) || n1 / g != x) { c.checks(); return; }
    uint64_t a1 = c.rng.below(n1), a2 = c.rng.below(n2);
    if (c.rng.coin(3, 4)) { uint64_t s = c.rng.coin(1, 4) ? uint64_t(l) - 1 : c.rng.below(uint64_t(l)); a1 = s % n1; a2 = s % n2; }
    crt<T>(c, a1, n1, a2, n2);
}
UNIT(crt, 4000, 200000, "Chinese remaindering with large, often non-coprime moduli in 32/64-bit types, 40 systems per case") {
    for (int i = 0; i < 10; i++) { crt_rand<int>(c); crt_rand<uint32_t>(c); crt_rand<int64_t>(c); crt_rand<uint64_t>(c); }
}
UNIT(garner, 2000, 60000, "Garner mixed radix with pairwise coprime moduli in any order; reconstructed value compared") {
    std::vector<ll> m; u128 prod = 1; int k = 1 + (int)c.rng.below(5);
    for (int t = 0; t < 60 && (int)m.size() < k; t++) { ll n = c.rng.coin() ? c.rng.range(1, 40) : c.rng.range(2, 3000); bool ok = prod * n < (u128(1) << 62); for (ll x : m) ok &= rgcd(x, n) == 1; if (ok) m.push_back(n), prod *= n; }
    uint64_t u = c.rng.coin(1, 5) ? uint64_t(prod) - 1 : c.rng.below(uint64_t(prod));
    c.input("garner u=%llu moduli=%s", (ull)u, vm::str(m).c_str());
    std::vector<moduloX<ll>> v; for (ll n : m) v.push_back(moduloX<ll>(ll(u % n), n));
    auto x = garner(v);
    u128 q = 1, s = 0;
    c.eq(x.size(), m.size(), "garner size");
    for (size_t i = 0; i < m.size(); i++) { c.ok(x[i].v >= 0 && x[i].v < m[i] && x[i].M() == m[i], "garner digit range", vm::str(x[i].v)); s += q * x[i].v; q *= m[i]; }
    c.eq(uint64_t(s), u, "garner value");
    c.nontrivial_input();
}
UNIT(jacobi, 400, 20000, "Jacobi symbol against products of Legendre symbols, every n for one odd m per case plus 64-bit pairs") {
    auto ref = [](uint64_t n, ll m) { int r = 1; for (auto& f : fact(m)) { if (n % f.first == 0) return 0; int l = rpow(n % f.first, (f.first - 1) / 2, f.first) == 1 ? 1 : -1; if (f.second & 1) r *= l; } return r; };
    ll m = 2 * (ll)c.index + 1;
    if (m > 801) m = 2 * c.rng.range(1, 100000) + 1;
    for (ll n = 0; n < std::min<ll>(3 * m, 600); n++) { c.input("jacobi n=%lld m=%lld", n, m); c.eq(jacobi<int>((int)n, (int)m), ref(n, m), "jacobi"); c.eq(jacobi<ll>(n, m), ref(n, m), "jacobi"); }
    for (int i = 0; i < 10; i++) { // large: quadratic character from construction
        ll p = rprime(c.rng, 2000000), q = rprime(c.rng, 2000000); if (p == 2 || q == 2) continue;
        ll n = c.rng.bits(62), mm = p * q; c.input("jacobi n=%lld m=%lld", n, mm);
        int l1 = n % p == 0 ? 0 : rpow(n % p, (p - 1) / 2, p) == 1 ? 1 : -1, l2 = n % q == 0 ? 0 : rpow(n % q, (q - 1) / 2, q) == 1 ? 1 : -1;
        c.eq(jacobi<ll>(n, mm), l1 * l2, "jacobi large"); c.nontrivial_input();
    }
}
UNIT(sqrt_prime, 170, 170, "sqrt_cipolla and Hensel lifting for every residue of one small prime per case, and its powers") {
    ll p = 2; for (uint64_t i = 0; i < c.index; i++) { p++; while (!isp(p)) p++; }
    for (ll y = 1; y < p; y++) {
        bool qr = p == 2 || rpow(y, (p - 1) / 2, p) == 1; if (!qr) continue;
        c.input("sqrt_cipolla y=%lld p=%lld", y, p);
        int r = sqrt_cipolla<int>((int)y, (int)p); c.ok(r >= 0 && r < p, "cipolla range"); c.eq(rmul(r, r, p), uint64_t(y), "cipolla");
        ll r2 = sqrt_cipolla<ll>(y, p); c.eq(rmul(r2, r2, p), uint64_t(y), "cipolla64"); c.nontrivial(p * 10007 + y);
    }
    if (p == 2) return;
    ll q = p; for (int k = 1; q * p < (p < 20 ? 100000 : 3000000000LL) && k < 8; k++, q *= p) {
        ll step = std::max<ll>(1, q / 400);
        for (ll x = 1; x < q; x += step) { if (x % p == 0) continue; ll y = (ll)rmul(x, x, q); c.input("sqrt_hensel y=%lld p=%lld k=%d", y, p, k); ll r = sqrt_hensel_lift<ll>(y, p, (ll)k); c.ok(r >= 0 && r < q, "hensel range", vm::str(r)); c.eq(ll(rmul(r, r, q)), y, "hensel"); c.nontrivial(q * 31 + y); }
    }
}
UNIT(sqrt_large, 1500, 80000, "square roots modulo large primes and prime powers up to 2^62") {
    ll p = rprime(c.rng, c.rng.coin() ? 2000000 : 200); if (p == 2) p = 3;
    int kmax = 1; { u128 q = p; while (q * p < (u128(1) << 62)) q *= p, kmax++; }
    int k = 1 + (int)c.rng.below(kmax); ll q = 1; for (int i = 0; i < k; i++) q *= p;
    ll x = c.rng.range(1, q - 1); if (x % p == 0) x++; ll y = (ll)rmul(x, x, q);
    c.input("sqrt_hensel y=%lld p=%lld k=%d", y, p, k);
    ll r = sqrt_hensel_lift<ll>(y, p, (ll)k); c.eq(ll(rmul(r, r, q)), y, "hensel"); c.ok(r >= 0 && r < q, "hensel range");
    ll P = 0; for (P = (1LL << 61) + (ll)c.rng.below(1000) * 2 + 1;; P += 2) { bool ok = true; for (ll b : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) { ll d = P - 1; int s = 0; while (d % 2 == 0) d /= 2, s++; uint64_t z = rpow(b, d, P); bool pr = z == 1 || z == uint64_t(P - 1); for (int i = 1; i < s && !pr; i++) z = rmul(z, z, P), pr = z == uint64_t(P - 1); ok &= pr; } if (ok) break; }
    ll X = c.rng.range(1, P - 1), Y = (ll)rmul(X, X, P); c.input("sqrt_cipolla y=%lld p=%lld", Y, P);
    ll R = sqrt_cipolla<ll>(Y, P); c.ok(R == X || R == P - X, "cipolla", vm::str(R)); c.nontrivial_input();
}
UNIT(sqrt_p2, 16, 61, "square roots modulo 2^k: all odd residues for k<=12, sampled above; complete solution sets") {
    int k = (int)c.index + 1; ll m = 1LL << k;
    auto one = [&](ll y) {
        c.input("sqrt_p2 y=%lld k=%d", y, k);
        auto r = sqrt_hensel_lift_p2<ll>(y, k);
        bool solv = y % std::min<ll>(8, m) == 1;
        if (!solv) { c.ok(r.first == 0 && r.second == 0, "p2 unsolvable"); return; }
        std::set<ll> s; for (ll x : { r.first, r.second }) { c.ok(x >= 0 && x < m, "p2 range", vm::str(x)); s.insert(x); s.insert((m - x) % m); }
        for (ll x : s) c.eq(ll(rmul(x, x, m)), y, "p2 root");
        c.eq(s.size(), size_t(k == 1 ? 1 : k == 2 ? 2 : 4), "p2 complete"); c.nontrivial(m + y);
    };
    if (k <= 12) for (ll y = 1; y < m; y += 2) one(y);
    else for (int i = 0; i < 300; i++) one(ll((c.rng.u64() & uint64_t(m - 1)) | 1)), one(ll((c.rng.u64() & uint64_t(m - 1)) / 8 * 8 + 1));
    if (k <= 30) for (int i = 0; i < 60; i++) { int x = int(c.rng.below(m)) | 1, y = int(rmul(x, x, m)); c.input("sqrt_p2 int y=%d k=%d", y, k); auto r = sqrt_hensel_lift_p2<int>(y, k); c.ok(rmul(r.first, r.first, m) == uint64_t(y) && rmul(r.second, r.second, m) == uint64_t(y), "p2 int"); }
    if (c.thorough || k < 16) return;
    for (k = 17; k <= 61; k++) { m = 1LL << k; for (int i = 0; i < 10; i++) one(ll((c.rng.u64() & uint64_t(m - 1)) / 8 * 8 + 1)); }
}
UNIT(sqrt_mod, 600, 600, "sqrt_mod for every unit y of one modulus per case (1..600), compared with exhaustive search") {
    ll m = (ll)c.index + 1; auto vf = fact(m);
    for (ll y = 0; y < m; y++) {
        if (rgcd(y, m) != 1) continue;
        c.input("sqrt_mod y=%lld m=%lld", y, m);
        std::vector<ll> want; for (ll x = 0; x < m; x++) if (x * x % m == y) want.push_back(x);
        auto got = sqrt_mod<int>((int)y, std::vector<std::pair<int, int>>(vf.begin(), vf.end())); std::sort(got.begin(), got.end());
        c.eq(std::vector<ll>(got.begin(), got.end()), want, "sqrt_mod"); c.nontrivial(m * 1000 + y);
    }
}
UNIT(sqrt_mod_big, 800, 20000, "sqrt_mod for composite moduli up to 2^31 (prime power parts below 46340): every returned root valid, distinct, and of the right number") {
    ll m = 1; while (m < 1000000) { ll p = c.rng.coin() ? c.rng.pick({2, 2, 3, 3, 5, 7, 11, 13}) : rprime(c.rng, 900); if (m * p > 2147483647LL) break; m *= p; }
    for (auto& f : fact(m)) { ll q = 1; for (int i = 0; i < f.second; i++) { q *= f.first; if (q > 46340) { m /= f.first; q /= f.first; } } }
    ll x = c.rng.range(1, m - 1); if (rgcd(x, m) != 1) x = 1; ll y = (ll)rmul(x, x, m);
    c.input("sqrt_mod y=%lld m=%lld", y, m);
    auto vf = fact(m); if (c.rng.coin()) c.rng.shuffle(vf);
    auto got = sqrt_mod<int>((int)y, std::vector<std::pair<int, int>>(vf.begin(), vf.end())); std::set<ll> s(got.begin(), got.end()); c.eq(s.size(), got.size(), "sqrt_mod distinct");
    size_t n = 1; for (auto& f : vf) n *= f.first == 2 ? (f.second == 1 ? 1 : f.second == 2 ? 2 : 4) : 2;
    c.eq(s.size(), n, "sqrt_mod count"); for (ll r : s) c.ok(r >= 0 && r < m && (ll)rmul(r, r, m) == y, "sqrt_mod root", vm::str(r)); c.nontrivial_input();
}
static prime_holder& ph() { static prime_holder p(5000); return p; }
UNIT(groups, 700, 700, "one modulus per case: orders, primitive roots (of unity) and k-th roots of unity against enumeration") {
    ll m = (ll)c.index + 1; ll f = phi(m), l = lambda(m); auto ff = pf(f), lf = pf(l);
    c.input("groups m=%lld", m);
    for (ll a = 1; a < m; a++) if (rgcd(a, m) == 1) { c.input("order a=%lld m=%lld", a, m); c.eq(multiplicative_order<ll>(a, m, f, ff), order(a, m), "order"); c.eq(multiplicative_order<int>((int)a, (int)m, (int)f, conv<int>(ff)), (int)order(a, m), "order int"); }
    if (m == 1) return;
    ll best = 0; for (ll a = 1; a < m && !best; a++) if (rgcd(a, m) == 1 && order(a, m) == f) best = a;
    c.input("primitive_root m=%lld", m);
    ll g = primitive_root<ll>(m, f, ff); c.eq(g != 0, best != 0, "primitive root exists"); if (g) { c.ok(g > 0 && g < m && rgcd(g, m) == 1, "primitive root unit"); c.eq(order(g, m), f, "primitive root order"); }
    c.eq((ll)primitive_root((int)m, ph()), g, "primitive root via prime table");
    ll u = primitive_root_of_unity<ll>(m, l, lf); c.ok(u > 0 && rgcd(u, m) == 1, "root of unity unit"); c.eq(order(u, m), l, "primitive root of unity order");
    c.eq(order(primitive_root_of_unity((int)m, ph()), m), l, "root of unity via prime table");
    c.nontrivial(m);
    if (!best) return; // k-th roots need a cyclic group
    c.event("cyclic modulus");
    for (ll k = 1; k <= 14; k++) {
        c.input("kth_roots_of_unity m=%lld k=%lld", m, k);
        std::vector<int> want; for (ll x = 1; x < m; x++) if (rgcd(x, m) == 1 && rpow(x, k, m) == uint64_t(1 % m)) want.push_back((int)x);
        c.eq(sorted(kth_roots_of_unity((int)m, (int)k, ph())), want, "roots of unity");
        c.eq(sorted(kth_roots_of_unity<ll>(m, k, l, u)), std::vector<ll>(want.begin(), want.end()), "roots of unity");
    }
    for (int t = 0; t < 30; t++) {
        ll k = c.rng.range(1, 2 * f + 3), e = c.rng.below(f); ll n = (ll)rpow(g, e, m); c.input("kth_roots m=%lld k=%lld n=%lld (g=%lld,l=%lld)", m, k, n, g, e);
        std::vector<ll> want; for (ll x = 1; x < m; x++) if (rgcd(x, m) == 1 && (ll)rpow(x, k, m) == n) want.push_back(x);
        c.eq(sorted(kth_roots<ll>(m, k, f, g, e)), want, "kth roots"); c.nontrivial_input();
    }
}
UNIT(many_roots, 30, 400, "k-th roots (of unity) when there are thousands of them, primes up to 20000 and their double powers") {
    ll p; do p = rprime(c.rng, 20000); while (p < 3); ll m = p; if (p < 120) m = p * p; if (c.rng.coin(1, 3)) m *= 2; ll f = phi(m); auto ff = pf(f); ll g = 0; for (ll a = 1; a < m && !g; a++) { if (rgcd(a, m) != 1) continue; bool ok = true; for (auto q : ff) ok = ok && rpow(a, f / q, m) != uint64_t(1 % m); if (ok) g = a; } if (!g) return;
    ll k = f / c.rng.pick({1, 1, 2, 3, 4}) * (ll)(1 + c.rng.below(3)); if (k < 1) k = 1; ll d = rgcd(k, f), e = c.rng.coin(3, 4) ? d * (ll)c.rng.below(f / d) : (ll)c.rng.below(f), n = (ll)rpow(g, e, m); c.input("m=%lld k=%lld n=%lld g=%lld e=%lld", m, k, n, g, e);
    std::vector<ll> want, w1; for (ll x = 1; x < m; x++) if (rgcd(x, m) == 1) { ll y = (ll)rpow(x, k, m); if (y == n) want.push_back(x); if (y == 1) w1.push_back(x); }
    c.eq(sorted(kth_roots<ll>(m, k, f, g, e)), want, "kth roots"); c.eq(sorted(kth_roots_of_unity<ll>(m, k, f, g)), w1, "roots of unity"); c.event("roots", want.size()); c.nontrivial_input();
}
UNIT(dlog_small, 130, 130, "one modulus per case: every unit a and every power b of it, all discrete logarithm routines that apply") {
    ll m = (ll)c.index + 2; ll f = phi(m); auto ff = pf(f); auto mf = fact(m);
    for (ll a = 1; a < m; a++) if (rgcd(a, m) == 1) {
        ll o = order(a, m); ll b = 1 % m;
        for (ll e = 0; e < o; e++, b = b * a % m) {
            c.input("dlog a=%lld b=%lld m=%lld", a, b, m);
            auto chk = [&](ll x, const char* tag) { c.ok(x >= 0 && (ll)rpow(a, x, m) == b, tag, "x=" + vm::str(x)); };
            c.eq(discrete_log_brute_force<ll>(a, b, m), e, "dlog brute");
            { typedef moduloX<ll> G; c.eq(discrete_log_brute_force_g(G(a, m), G(b, m), ll(e + 1)), e, "dlog brute, just enough iterations"); c.eq(discrete_log_brute_force_g(G(a, m), G(b, m), ll(e)), -1LL, "dlog brute, one iteration short"); }
            ll oo = 0; chk(discrete_log<ll>(a, b, m, f, ff, &oo), "dlog"); c.eq(oo, o, "dlog order");
            chk(discrete_log_baby_giant<ll>(a, b, m, f), "dlog baby-giant"); chk(discrete_log_baby_giant<int>((int)a, (int)b, (int)m, (int)o), "dlog baby-giant order");
            if (isp(m) && m > 2) chk(discrete_log_shanks<ll>(a, b, m), "dlog shanks"), chk(discrete_log_oddp<int>((int)a, (int)b, (int)m), "dlog oddp");
            if (mf.size() == 1) chk(discrete_log_pp<ll>(a, b, mf[0].first, mf[0].second), "dlog prime power");
            if (mf[0].first == 2 && mf.size() == 1) chk(discrete_log_p2<int>((int)a, (int)b, mf[0].second), "dlog 2^s");
            c.nontrivial_input();
        }
        // elements outside the subgroup generated by a
        std::set<ll> sub; ll x = 1; do { sub.insert(x); x = x * a % m; } while (x != 1 % m);
        for (ll z = 1; z < m; z++) if (!sub.count(z)) { c.input("dlog a=%lld b=%lld m=%lld unsolvable", a, z, m); c.eq(discrete_log_brute_force<ll>(a, z, m), -1LL, "dlog brute none"); break; }
    }
}
UNIT(dlog_large, 500, 20000, "discrete logarithms modulo primes to 1e6, prime powers, powers of two and composites; solvable instances by construction") {
    int kind = (int)c.rng.below(4); ll m, p = 0; int s = 1;
    auto chk = [&](ll a, ll b, ll x, const char* tag) { c.ok(x >= 0 && rpow(a, x, m) == uint64_t(b), tag, "x=" + vm::str(x)); };
    if (kind == 0) { m = p = std::max<ll>(3, rprime(c.rng, c.rng.coin() ? 3000 : 1000000)); }
    else if (kind == 1) { p = rprime(c.rng, c.rng.coin() ? 12 : 1500); if (p == 2) p = 3; m = p; while (s < 12 && u128(m) * p * m < (u128(1) << 60) / p && c.rng.coin(5, 6)) m *= p, s++; }
    else if (kind == 2) { p = 2; s = 1 + (int)c.rng.below(60); m = 1LL << s; }
    else { m = 1; while (m < 100000) m *= c.rng.pick({2, 3, 4, 5, 7, 9, 11, 13, 27, 101}); }
    ll a; do a = 1 + (ll)c.rng.below(m - 1); while (rgcd(a, m) != 1);
    if (c.rng.coin(1, 4)) a = (ll)rpow(a, c.rng.pick({2, 3, 4, 6}), m);
    if (kind == 1 && c.rng.coin(1, 4)) a = (ll)rpow(a, c.rng.coin() ? p : p - 1, m);
    ll b = (ll)rpow(a, c.rng.bits(60), m);
    c.input("dlog a=%lld b=%lld m=%lld", a, b, m); c.nontrivial_input();
    if (kind == 2) { chk(a, b, discrete_log_p2<ll>(a, b, s), "dlog 2^s"); chk(a, b, discrete_log_pp<ll>(a, b, 2, s), "dlog prime power"); return; }
    if (kind <= 1) chk(a, b, discrete_log_pp<ll>(a, b, p, s), "dlog prime power");
    if (kind == 0) chk(a, b, discrete_log_oddp<ll>(a, b, p), "dlog oddp"), chk(a, b, discrete_log_shanks<ll>(a, b, p), "dlog shanks");
    ll f = phi(m), o = 0; auto ff = pf(f); if (ff.empty() || ff.back() < 3000000) { ll x = discrete_log<ll>(a, b, m, f, ff, &o); chk(a, b, x, "dlog"); c.eq(rpow(a, o, m), 1 % uint64_t(m), "dlog order"); for (ll r : pf(o)) c.ok(rpow(a, o / r, m) != 1, "dlog order minimal"); c.eq(f % o, 0LL, "dlog order divides"); }
}
