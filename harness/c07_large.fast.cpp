// C07, large arguments: optimised build, every key of the result tables against a bitmap sieve, and published values
#include "vm.h"
#include "altruct/algorithm/math/prime_counting.h"
#include "altruct/structure/math/modulo.h"
#include <cmath>
using namespace altruct::math;
typedef int64_t ll; typedef uint64_t u64; typedef vm::u128 u128; typedef modulo<int, 1000000007> mc; typedef moduloX<int64_t> mx;
static const std::vector<char>& comp(ll n) { static std::vector<char> c; if ((ll)c.size() <= n) { ll m = std::max<ll>(n + 1, 1 << 22); c.assign(m, 0); c[0] = c[1] = 1; for (ll i = 2; i * i < m; i++) if (!c[i]) for (ll j = i * i; j < m; j += i) c[j] = 1; } return c; }
static void at(vm::Ctx& c, const char* tag, ll n, ll key, u64 got, u64 want) { c.checks(); if (got != want) c.fail(tag, std::string(tag) + " n=" + vm::str(n) + " key=" + vm::str(key) + ": got " + vm::str(got) + ", want " + vm::str(want)); }
UNIT(sieved, 16, 200, "n up to 12 million (thorough: 60 million): counts, residue classes and sums at every key floor(n/k)") {
    ll top = c.thorough ? 60000000 : 12000000, r = 1000 + (ll)c.rng.below(u64(std::sqrt(double(top))) - 1001), n; switch (c.rng.below(4)) { case 0: n = r * r + (ll)c.rng.below(3) - 1; break; case 1: n = r * (r + 1) + (ll)c.rng.below(3) - 1; break; default: n = 1000000 + (ll)c.rng.below(top - 1000000); }
    c.input("n=%lld", (long long)n); auto& cm = comp(top); int z = (int)c.rng.below(4); c.note(" z=" + vm::str(z));
    auto a = prime_pi_sqrt<ll>(n); auto b = prime_pi_sqrt<int>(int(n)); auto d = prime_pi13_sqrt<ll>(n); auto e = prime_power_sum_sqrt<mc, ll>(z, n, mc(1)); auto f = prime_sum_sqrt<ll, ll>(n, ll(1)); auto g = prime_power_sum_sqrt<mx, ll>(z, n, mx(1, 1000000000039ll));
    std::vector<ll> keys; for (ll k = 1; k <= n;) { ll q = n / k; keys.push_back(q); k = n / q + 1; } std::reverse(keys.begin(), keys.end());
    u64 p0 = 0, p1 = 0, p3 = 0, s1 = 0, sz = 0, sy = 0; ll i = 1;
    for (ll q : keys) { for (; i <= q; i++) if (!cm[i]) { p0++; if (i % 4 == 1) p1++; if (i % 4 == 3) p3++; s1 += i; u64 w = 1, v = 1; for (int t = 0; t < z; t++) w = w * i % 1000000007, v = u64(u128(v) * i % 1000000000039ull); sz = (sz + w) % 1000000007; sy = (sy + v) % 1000000000039ull; }
        at(c, "prime_pi_sqrt", n, q, a[q], p0); at(c, "prime_pi_sqrt int", n, q, b[int(q)], p0); at(c, "prime_pi1_sqrt", n, q, d[0][q], p1); at(c, "prime_pi3_sqrt", n, q, d[1][q], p3); at(c, "prime_sum_sqrt", n, q, f[q], s1); at(c, "prime_power_sum_sqrt", n, q, e[q].v, sz); at(c, "prime_power_sum_sqrt moduloX", n, q, g[q].v, sy); }
    at(c, "prime_pi", n, n, prime_pi<ll>(n), p0); c.event("quotient keys compared", keys.size()); c.nontrivial_input();
}
// published: pi(10^k), pi(10^k; 4, 1) where listed, sum of primes below 10^k
struct Known { ll n, pi; u64 sum; };
static const Known K[] = {{1000000, 78498, 37550402023ull}, {10000000, 664579, 3203324994356ull}, {100000000, 5761455, 279209790387276ull}, {1000000000, 50847534, 24739512092254535ull}, {10000000000ll, 455052511, 2220822432581729238ull}, {100000000000ll, 4118054813ll, 0}, {2147483647, 105097565, 0}, {4294967296ll, 203280221, 0}, {1ll << 30, 54400028, 0}, {1ll << 33, 393615806, 0}, {1ll << 34, 762939111, 0}};
UNIT(published, 9, 11, "published prime counts and prime sums at powers of ten and of two up to 10^11") {
    auto& k = K[c.index == 5 ? 5 : c.index]; if (k.n > 20000000000ll && !c.thorough) return; c.input("n=%lld", (long long)k.n); at(c, "prime_pi", k.n, k.n, prime_pi<ll>(k.n), k.pi); if (k.n <= INT32_MAX) at(c, "prime_pi int", k.n, k.n, prime_pi<int>(int(k.n)), k.pi);
    at(c, "prime_pi1 + prime_pi3", k.n, k.n, prime_pi1<ll>(k.n) + prime_pi3<ll>(k.n) + 1, k.pi); if (k.sum && k.n <= 1000000000) at(c, "prime_sum", k.n, k.n, prime_sum<ll, ll>(k.n, ll(1)), k.sum); if (k.sum) at(c, "prime_sum mod 1e9+7", k.n, k.n, prime_sum<mc, ll>(k.n, mc(1)).v, k.sum % 1000000007); c.nontrivial_input();
}
