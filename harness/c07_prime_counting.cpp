// C07: sub-linear prime counting and prime power sums
#include "vm.h"
#include "altruct/algorithm/math/prime_counting.h"
#include "altruct/algorithm/math/prime_pi.h"
#include "altruct/structure/math/modulo.h"
#include <cmath>
using namespace altruct::math;
typedef int64_t ll; typedef vm::u128 u128;
typedef moduloX<int64_t> mx;
typedef modulo<int, 1000000007> mc;
typedef modulo<int, 4242, modulo_storage::STATIC> ms;

static const std::vector<char>& comp(int n) {
    static std::vector<char> c;
    if ((int)c.size() <= n) { int m = std::max(n + 1, 1 << 18); c.assign(m, 0); c[0] = c[1] = 1; for (ll i = 2; i * i < m; i++) if (!c[i]) for (ll j = i * i; j < m; j += i) c[j] = 1; }
    return c;
}
static ll pwm(ll b, int e, ll M) { ll r = 1 % M; while (e--) r = ll(u128(r) * (b % M) % M); return r; }
// prefix values over primes at all keys floor(n/k): exact (mod 2^64) or modulo M
static std::map<ll, ll> table(ll n, int z, ll M, int cls) {
    auto& cm = comp(int(n)); std::map<ll, ll> t; ll s = 0; uint64_t us = 0; std::vector<ll> keys;
    for (ll k = 1; k <= n;) { ll q = n / k; keys.push_back(q); k = n / q + 1; }
    std::reverse(keys.begin(), keys.end()); ll i = 1;
    for (ll q : keys) { for (; i <= q; i++) if (!cm[i] && (cls < 0 || i % 4 == cls)) { if (M) s = (s + pwm(i, z, M)) % M; else { uint64_t w = 1; for (int j = 0; j < z; j++) w *= uint64_t(i); us += w; } } t[q] = M ? s : ll(us); }
    return t;
}
static void at(vm::Ctx& c, const char* tag, ll n, ll key, ll got, ll want) { c.checks(); if (got != want) c.fail(tag, std::string(tag) + " n=" + vm::str(n) + " key=" + vm::str(key) + ": got " + vm::str(got) + ", want " + vm::str(want)); }
static void one(vm::Ctx& c, ll n, bool heavy) {
    c.input("n=%lld", (long long)n);
    auto t0 = table(n, 0, 0, -1), t1 = table(n, 0, 0, 1), t3 = table(n, 0, 0, 3);
    auto p64 = prime_pi_sqrt<int64_t>(n); auto p32 = prime_pi_sqrt<int>(int(n)); auto pll = prime_pi_sqrt<long long>(n);
    auto p13 = prime_pi13_sqrt<int64_t>(n); auto p13i = prime_pi13_sqrt<int>(int(n));
    for (auto& e : t0) {
        at(c, "prime_pi_sqrt int64", n, e.first, p64[e.first], e.second); at(c, "prime_pi_sqrt int32", n, e.first, p32.at(int(e.first)), e.second); at(c, "prime_pi_sqrt long long", n, e.first, pll.el(e.first), e.second);
        if (n > 1) { at(c, "prime_pi1_sqrt", n, e.first, p13[0].at(e.first), t1[e.first]); at(c, "prime_pi3_sqrt", n, e.first, p13[1].at(e.first), t3[e.first]); at(c, "prime_pi1_sqrt int32", n, e.first, p13i[0].at(int(e.first)), t1[e.first]); at(c, "prime_pi3_sqrt int32", n, e.first, p13i[1].at(int(e.first)), t3[e.first]); }
    }
    at(c, "prime_pi", n, n, prime_pi<int64_t>(n), t0[n]); at(c, "prime_pi int32", n, n, prime_pi<int>(int(n)), t0[n]);
    at(c, "prime_pi1", n, n, prime_pi1<int64_t>(n), t1[n]); at(c, "prime_pi3", n, n, prime_pi3<int64_t>(n), t3[n]);
    if (n < 20000000) { auto t = table(n, 1, 0, -1); auto s = prime_sum_sqrt<ll, ll>(n, ll(1)); for (auto& e : t) at(c, "prime_sum_sqrt int64", n, e.first, s[e.first], e.second); at(c, "prime_sum", n, n, prime_sum<ll, ll>(n, ll(1)), t[n]); at(c, "prime_sum<long long,int>", n, n, prime_sum<long long, int>(int(n), 1LL), t[n]); }
    if (n <= 1000000) { auto t = table(n, 2, 0, -1); auto s = prime_power_sum_sqrt<ll, ll>(2, n, ll(1)); for (auto& e : t) at(c, "prime_power_sum_sqrt z=2", n, e.first, s[e.first], e.second); }
    if (n <= 50000) { auto t = table(n, 3, 0, -1); auto s = prime_power_sum_sqrt<ll, ll>(3, n, ll(1)); for (auto& e : t) at(c, "prime_power_sum_sqrt z=3", n, e.first, s[e.first], e.second); }
    // modular sums: moduli alternate inside one process, so nothing of an earlier modulus may leak
    ll M = c.rng.pick({1000000007LL, 998244353LL, 1009LL, 101LL, 2147483647LL, 1000000000039LL}); int z = (int)c.rng.below(heavy ? 3 : 10);
    if (M == 101 && z > 50) z = 4;
    c.note(" z=" + std::to_string(z) + " M=" + vm::str(M));
    { auto t = table(n, z, M, -1); auto s = prime_power_sum_sqrt<mx, ll>(z, n, mx(1, M)); for (auto& e : t) { at(c, "prime_power_sum_sqrt moduloX", n, e.first, s[e.first].v, e.second); at(c, "modulus of result", n, e.first, s[e.first].M(), M); } }
    { auto t = table(n, z, 1000000007, -1); auto s = prime_power_sum_sqrt<mc, int>(z, int(n), mc(1)); for (auto& e : t) at(c, "prime_power_sum_sqrt modulo const", n, e.first, s[int(e.first)].v, e.second); }
    { int P = c.rng.pick({998244353, 1009, 65537}); ms::M() = P; auto t = table(n, z, P, -1); auto s = prime_power_sum_sqrt<ms, ll>(z, n, ms(1)); for (auto& e : t) at(c, "prime_power_sum_sqrt modulo static", n, e.first, s[e.first].v, e.second); }
    c.event("quotient keys compared", t0.size());
    if (n > 1) c.nontrivial_input();
}
UNIT(every_n, 1500, 6000, "every n from 1: all counting and sum maps at every key, one random exponent and modulus each") { one(c, (ll)c.index + 1, false); }
UNIT(random_n, 60, 1500, "n up to 300000 (thorough: up to 30 million at times), biased to perfect squares, k(k+1), primes and their squares") {
    ll top = c.rng.coin() ? 300000 : 20000; if (c.thorough && c.index % 300 == 0) top = 30000000;
    ll r = 2 + (ll)c.rng.below(uint64_t(std::sqrt(double(top))) - 2), n;
    switch (c.rng.below(4)) { case 0: n = r * r + (ll)c.rng.below(3) - 1; break; case 1: n = r * (r + 1) + (ll)c.rng.below(3) - 1; break; case 2: { while (comp(1 << 18)[r]) r++; n = r * r + (ll)c.rng.below(3) - 1; break; } default: n = 1 + (ll)c.rng.below(top); }
    if (c.index % 20 == 0) n = top - (ll)c.rng.below(10);
    one(c, std::max<ll>(n, 1), n > 30000);
}
UNIT(nothing, 1, 1, "n = 0 and negative n count nothing") {
    for (ll n : {0LL, -1LL, -100LL}) { c.eq(prime_pi<ll>(n), ll(0), "prime_pi"); c.eq(prime_pi1<ll>(n), ll(0), "prime_pi1"); c.eq(prime_pi3<ll>(n), ll(0), "prime_pi3"); c.eq((prime_sum<ll, ll>(n, ll(1))), ll(0), "prime_sum"); }
}
UNIT(meissel, 40, 400, "the Meissel-Lehmer variant with its shared memo table, in any order of arguments") {
    static std::vector<int> pi, p; if (pi.empty()) { auto& cm = comp(1 << 18); int k = 0; for (int i = 0; i < (1 << 18); i++) { if (!cm[i]) k++, p.push_back(i); pi.push_back(k); } }
    { ll q = p[c.rng.below(60)], q2 = p[c.rng.below(60)]; int sel = (int)c.rng.below(4); ll m = sel == 0 ? q * q : sel == 1 ? q * q2 : sel == 2 ? q * q * q : q * q * q - 1; m = std::min<ll>(m, (1 << 18) - 1); c.input("m=%lld", (long long)m); c.eq(prime_pi_deprecated<ll, int>(m, pi.data(), p.data()), ll(pi[m]), "prime_pi_deprecated at prime powers"); c.eq(prime_pi_deprecated<int, int>((int)m, pi.data(), p.data()), pi[m], "32-bit prime_pi_deprecated");
      int m32 = c.rng.coin() ? (int)c.rng.below(1 << 18) : (int)c.rng.below(1 << 20); if (c.index % 8 == 0) m32 = (1 << 24) - 1 - (int)c.rng.below(100000); c.input("m=%d", m32); c.eq(ll(prime_pi_deprecated<int, int>(m32, pi.data(), p.data())), m32 < (1 << 18) ? ll(pi[m32]) : prime_pi<ll>(m32), "32-bit prime_pi_deprecated");
      int sz = 100 + (int)c.rng.below(2000); std::vector<int> exact(pi.begin(), pi.begin() + sz); for (int k = sz - 2; k < sz + 3; k++) c.eq(prime_pi_deprecated<int, int>(k, exact.data(), p.data(), sz), pi[k], "table boundary"); }
    for (int t = 0; t < 20; t++) { ll m = c.rng.coin() ? (ll)c.rng.below(1 << 18) : (ll)c.rng.below(3000); c.input("m=%lld", (long long)m); c.eq(prime_pi_deprecated<ll, int>(m, pi.data(), p.data(), c.rng.coin() ? 0 : 500), ll(pi[m]), "prime_pi_deprecated"); if (m > 10) c.nontrivial(m); }
}
