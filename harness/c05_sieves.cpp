// C05: sieves and number-theoretic tables, whole and segmented
#include "vm.h"
#include "altruct/algorithm/math/primes.h"
#include "altruct/structure/math/prime_holder.h"
#include <memory>
#include <cmath>
using namespace altruct::math;
typedef int64_t ll;

// reference: linear sieve written from the definitions
struct Ref {
    int n; std::vector<int> spf, bpf, phi, mu, nu, s0, pi, mer, p; std::vector<ll> s1;
    explicit Ref(int n) : n(n), spf(n), bpf(n), phi(n), mu(n), nu(n), s0(n), pi(n), mer(n), s1(n) {
        for (int i = 2; i < n; i++) {
            if (!spf[i]) { spf[i] = i; p.push_back(i); }
            for (int q : p) { if (q > spf[i] || ll(q) * i >= n) break; spf[q * i] = q; }
        }
        int c = 0, M = 0;
        for (int i = 0; i < n; i++) {
            bpf[i] = i < 2 ? i : 0; phi[i] = i ? 1 : 0; mu[i] = i ? 1 : 0; s0[i] = s1[i] = i ? 1 : 0;
            int t = i;
            while (t > 1) { // factors come in increasing order
                int q = spf[t], e = 0; ll pw = 1, sum = 1;
                while (t % q == 0) t /= q, e++, pw *= q, sum += pw;
                bpf[i] = q; phi[i] *= int(pw / q * (q - 1)); mu[i] = e > 1 ? 0 : -mu[i]; nu[i]++; s0[i] *= e + 1; s1[i] *= sum;
            }
            if (i > 1 && spf[i] == i) c++;
            pi[i] = c; M += mu[i]; mer[i] = M;
        }
    }
};
static const Ref& ref(int n) {
    static std::unique_ptr<Ref> r;
    if (!r || r->n < n) r.reset(new Ref(std::max(n, 1 << 17)));
    return *r;
}
// array of exactly n elements on the heap (the sanitizer guards both ends), filled with a pattern
template<typename T> struct Arr { std::unique_ptr<T[]> a; size_t n; explicit Arr(size_t n) : a(new T[n]), n(n) { memset((void*)a.get(), 0x5a, n * sizeof(T)); } operator T*() { return a.get(); } T& operator[](size_t i) { return a[i]; } };

static void whole(vm::Ctx& c, int n) {
    const Ref& r = ref(n);
    int m = n > 0 ? r.pi[n - 1] : 0;
    c.input("tables n=%d", n);
    Arr<int> p(m), pn(n), pi(n), phi(n), mu(n), mu2(n), nu(n), bpf(n), ds0(n), spf(n); Arr<char> q(n), q2(n); Arr<ll> ds1(n);
    c.eq(primes(p, q, n), m, "prime count (p and q)");
    c.eq(primes(nullptr, q2, n), m, "prime count (q only)");
    c.eq(primes(pn, nullptr, n), m, "prime count (p only)");
    for (int i = 0; i < m; i++) { c.eq(p[i], r.p[i], "prime list"); c.eq(pn[i], r.p[i], "prime list (p only)"); }
    prime_pi(pi, n, p, m); euler_phi(phi, n, p, m); moebius_mu(mu, n); moebius_mu(mu2, n, p, m); prime_nu(nu, n, p, m); factor(bpf, n, p, m);
    divisor_sigma0(ds0, n); divisor_sigma1(ds1, n); smallest_factor(spf, n);
    for (int i = 0; i < n; i++) {
        auto at = [&](ll got, ll want, const char* tag) { c.checks(); if (got != want) c.fail(tag, std::string(tag) + " at " + vm::str(i) + ": got " + vm::str(got) + ", want " + vm::str(want)); };
        bool pr = i > 1 && r.spf[i] == i;
        at(q[i], pr, "prime flag"); at(q2[i], pr, "prime flag (q only)"); at(pi[i], r.pi[i], "prime_pi"); at(phi[i], r.phi[i], "euler_phi");
        at(mu[i], r.mu[i], "moebius_mu"); at(mu2[i], r.mu[i], "moebius_mu with primes"); at(bpf[i], r.bpf[i], "biggest prime factor");
        at(spf[i], pr || i < 2 ? 0 : r.spf[i], "smallest_factor");
        if (i) { at(nu[i], r.nu[i], "prime_nu"); at(ds0[i], r.s0[i], "divisor_sigma0"); at(ds1[i], r.s1[i], "divisor_sigma1"); }
    }
    c.event("table entries compared", uint64_t(n) * 11);
    if (n > 2) c.nontrivial(n);
}
UNIT(all_n, 700, 3000, "all tables for every bound n from 0, in arrays of exactly the documented size") { whole(c, (int)c.index); }
UNIT(random_n, 40, 600, "all tables for random n up to 120000 (1.2 million at times), biased to n next to p*p, p*q, powers of two") {
    const Ref& r = ref(1 << 17);
    int n, lim = c.thorough && c.index % 40 == 0 ? 1200000 : 120000;
    switch (c.rng.below(4)) {
    case 0: { int p = r.p[c.rng.below(50)]; n = p * p + (int)c.rng.below(4) - 1; break; }
    case 1: n = (1 << c.rng.range(4, 16)) + (int)c.rng.below(4) - 1; break;
    case 2: n = r.p[c.rng.below(3000)] + (int)c.rng.below(3); break;
    default: n = (int)c.rng.below(lim);
    }
    whole(c, n);
}
UNIT(holder, 200, 3000, "prime_holder of every size 0.. and random sizes, accessors in random order, copies") {
    int n = c.index < 130 ? (int)c.index : c.rng.coin() ? ref(1 << 17).p[c.rng.below(10000)] + (int)c.rng.below(3) : (int)c.rng.below(100000);
    if (c.index == c.count - 1) n = 1 << 20;
    c.input("prime_holder sz=%d", n);
    const Ref& r = ref(n);
    int m = n > 0 ? r.pi[n - 1] : 0;
    prime_holder h(n);
    c.eq(h.size(), n, "size");
    std::vector<int> order = {0, 1, 2, 3, 4, 5, 6, 7, 8}; c.rng.shuffle(order);
    auto cmp = [&](const std::vector<int>& got, const std::vector<int>& want, int len, const char* tag) { c.eq((int)got.size(), len, tag); for (int i = 0; i < len; i++) { c.checks(); if (got[i] != want[i]) c.fail(tag, std::string(tag) + " at " + vm::str(i) + ": got " + vm::str(got[i]) + " want " + vm::str(want[i])); } };
    for (int k : order) {
        c.note(" " + std::to_string(k));
        switch (k) {
        case 0: c.eq(h.primes(), m, "primes()"); break;
        case 1: cmp(h.p(), r.p, m, "p"); break;
        case 2: { auto& q = h.q(); c.eq((int)q.size(), n, "q"); for (int i = 0; i < n; i++) c.eq(bool(q[i]), i > 1 && r.spf[i] == i, "q"); break; }
        case 3: cmp(h.pf(), r.bpf, n, "pf"); break;
        case 4: cmp(h.pi(), r.pi, n, "pi"); break;
        case 5: cmp(h.phi(), r.phi, n, "phi"); break;
        case 6: cmp(h.mu(), r.mu, n, "mu"); break;
        case 7: cmp(h.nu(), r.nu, n, "nu"); break;
        case 8: cmp(h.mertens(), r.mer, n, "mertens"); cmp(h.mu(), r.mu, n, "mu after mertens"); break;
        }
    }
    prime_holder g = h;
    for (int t = 0; t < 20 && n > 2; t++) {
        int i = (int)c.rng.below(n);
        c.eq(g.pf(i), r.bpf[i], "pf(i)"); c.eq(g.phi(i), r.phi[i], "phi(i)"); c.eq(g.mu(i), r.mu[i], "mu(i)"); c.eq(g.pi(i), r.pi[i], "pi(i)"); c.eq(g.nu(i), r.nu[i], "nu(i)"); c.eq(bool(g.q(i)), i > 1 && r.spf[i] == i, "q(i)"); c.eq(g.mertens(i), r.mer[i], "mertens(i)");
        if (i < m) c.eq(g.p(i), r.p[i], "p(i)");
        if (i < 1) continue;
        std::vector<std::pair<int, int>> want; for (int x = i; x > 1;) { int q = r.spf[x], e = 0; while (x % q == 0) x /= q, e++; want.push_back({q, e}); }
        c.eq(g.factor_integer(i), want, "factor_integer");
        std::vector<int> dv; for (int d = 1; d <= i; d++) if (i % d == 0) dv.push_back(d);
        c.eq(g.divisors(i), dv, "divisors");
        int maxd = 1 + (int)c.rng.below(i); while (!dv.empty() && dv.back() > maxd) dv.pop_back();
        c.eq(g.divisors(i, maxd), dv, "bounded divisors");
        std::vector<int> vn; std::map<int, int> mf; ll prod = 1;
        for (int k = (int)c.rng.below(5); k-- > 0;) { int x = 1 + (int)c.rng.below(std::min(n - 1, 60)); vn.push_back(x); prod *= x; while (x > 1) { mf[r.spf[x]]++; x /= r.spf[x]; } }
        c.eq(g.factor_integer(vn), (std::vector<std::pair<int, int>>(mf.begin(), mf.end())), "factor product");
        std::vector<ll> dp; for (ll d = 1; d <= prod && d < 3000; d++) if (prod % d == 0) dp.push_back(d);
        c.eq(g.divisors<ll>(vn, 2999), dp, "divisors of product");
        std::map<int, int> got; factor_integer_to_map(got, i, g.pf().data()); c.eq(got, std::map<int, int>(want.begin(), want.end()), "factor_integer_to_map"); if (i > 1) { int j = 1 + (int)c.rng.below(n - 1); factor_integer_to_map(got, j, g.pf().data()); auto w2 = std::map<int, int>(want.begin(), want.end()); for (int x = j; x > 1; x /= r.spf[x]) w2[r.spf[x]]++; c.eq(got, w2, "factor_integer_to_map accumulates a product"); }
    }
    if (n > 2) c.nontrivial_input();
}
static void window(vm::Ctx& c, ll b, ll e, const std::vector<int>& p) {
    size_t len = size_t(e - b);
    c.input("segment [%lld,%lld) with %zu primes", (long long)b, (long long)e, p.size());
    Arr<char> q(len); Arr<ll> phi(len), tmp(len), mu(len); Arr<int> pa(p.size()); std::copy(p.begin(), p.end(), (int*)pa);
    segmented_q(q, b, e, pa, (int)p.size());
    segmented_phi(phi, tmp, b, e, pa, (int)p.size());
    segmented_mu(mu, b, e, pa, (int)p.size());
    // reference: strip the window's numbers by every prime up to the root
    std::vector<ll> rest(len), rphi(len), rmu(len), w(len);
    for (size_t i = 0; i < len; i++) rest[i] = b + ll(i), rphi[i] = rmu[i] = 1, w[i] = 0;
    for (int x : ref(1 << 20).p) {
        if (ll(x) > (e - 1) / x) break;
        for (ll a = ((b + x - 1) / x) * x; a < e; a += x) {
            if (!a) continue;
            size_t i = size_t(a - b); int ex = 0;
            while (rest[i] % x == 0) rest[i] /= x, ex++, rphi[i] *= ex > 1 ? x : x - 1;
            rmu[i] = ex > 1 ? 0 : -rmu[i]; w[i] += ex;
        }
    }
    for (size_t i = 0; i < len; i++) {
        ll a = b + ll(i);
        if (rest[i] > 1) rphi[i] *= rest[i] - 1, rmu[i] = -rmu[i], w[i]++;
        if (a == 0) rphi[i] = rmu[i] = 0;
        auto at = [&](ll got, ll want, const char* tag) { c.checks(); if (got != want) c.fail(tag, std::string(tag) + " at " + vm::str(a) + ": got " + vm::str(got) + ", want " + vm::str(want)); };
        at(q[i], a > 1 && w[i] == 1, "segmented_q"); at(phi[i], rphi[i], "segmented_phi"); at(mu[i], rmu[i], "segmented_mu");
    }
    c.event("window entries compared", len * 3);
    if (len) c.nontrivial_input();
}
// primes with p[m-1] >= sqrt(e-1); `extra` more of them
static std::vector<int> support(ll e, size_t extra) {
    auto& P = ref(1 << 20).p; std::vector<int> v;
    for (int x : P) { bool enough = !v.empty() && ll(v.back()) * v.back() >= e - 1; if (e <= 2 || enough) { if (!extra--) break; } v.push_back(x); }
    return v;
}
UNIT(small_windows, 61, 161, "every window [b,e) with b = case number and e-b up to 70, supporting list minimal and longer") {
    for (ll e = c.index; e <= ll(c.index) + 70; e++) { window(c, c.index, e, support(e, 0)); window(c, c.index, e, support(e, 1 + c.rng.below(20))); }
}
UNIT(windows, 300, 20000, "windows up to 1e12, around prime squares, products of neighbouring primes, powers, single numbers") {
    auto& P = ref(1 << 20).p;
    ll top = c.rng.coin() ? 1000000000000LL : c.rng.coin() ? 2000000000LL : 100000;
    ll mid, half = (ll)c.rng.below(c.rng.pick({1, 2, 30, 300, 2000}));
    size_t i = 0; { ll s = c.rng.range(2, ll(std::sqrt(double(top)))); i = std::lower_bound(P.begin(), P.end(), int(s)) - P.begin(); if (i + 1 >= P.size()) i = P.size() - 2; }
    switch (c.rng.below(5)) {
    case 0: mid = ll(P[i]) * P[i]; break;
    case 1: mid = ll(P[i]) * P[i + 1]; break;
    case 2: mid = ll(1) << c.rng.below(40); break;
    case 3: { mid = 1; ll g = P[c.rng.below(6)]; while (mid < top / g / g && !c.rng.coin(1, 12)) mid *= g; break; }
    default: mid = c.rng.range(0, top);
    }
    ll b = std::max<ll>(0, mid - (c.rng.coin() ? half : (ll)c.rng.below(half + 1))), e = std::max(b, mid + (c.rng.coin() ? (ll)c.rng.below(2) : half));
    // whole supporting list when the extra parameter allows it
    window(c, b, e, support(e, c.rng.coin() ? 0 : c.rng.below(300)));
}
