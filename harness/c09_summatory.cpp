// C09: sub-linear summatory functions
#include "vm.h"
#include "altruct/algorithm/math/divisor_sums.h"
#include "altruct/algorithm/math/mertens.h"
#include "altruct/algorithm/math/sequences.h"
#include "altruct/algorithm/math/prime_counting.h"
#include "str_math.h"
#include <cmath>
using namespace altruct::math;
using altruct::container::sqrt_map;
typedef int64_t ll; typedef moduloX<int> mx; typedef moduloX<int64_t> ml; typedef modulo<int, 1000000007> mc;

// tables from the definitions
struct Tab { int n; std::vector<int> spf, mu, phi, p; Tab(int n) : n(n), spf(n), mu(n, 1), phi(n, 1) { for (int i = 2; i < n; i++) { if (!spf[i]) { p.push_back(i); for (int j = i; j < n; j += i) if (!spf[j]) spf[j] = i; } int a = i / spf[i], q = spf[i]; if (a % q == 0) mu[i] = 0, phi[i] = phi[a] * q; else mu[i] = -mu[a], phi[i] = phi[a] * (q - 1); } mu[0] = phi[0] = 0; } };
static const Tab& tab() { static Tab t(1 << 18); return t; }
static std::vector<int> pr(ll lim) { std::vector<int> v; for (int p : tab().p) { if (p > lim) break; v.push_back(p); } return v; } // primes <= lim
static int pi(ll n) { auto& p = tab().p; return int(std::upper_bound(p.begin(), p.end(), n) - p.begin()); }
static std::vector<ll> keys(ll n) { std::vector<ll> v; for (ll k = 1; k <= n;) { ll q = n / k; v.push_back(q); k = n / q + 1; } return v; }
template<typename A, typename B> void at(vm::Ctx& c, const char* tag, ll n, ll key, const A& got, const B& want) { c.checks(); if (!(got == want)) c.fail(tag, std::string(tag) + " n=" + vm::str(n) + " key=" + vm::str(key) + ": got " + vm::str(got) + ", want " + vm::str(want)); }
static ll gen_n(vm::Ctx& c, ll top) {
    ll r = 1 + (ll)c.rng.below(uint64_t(std::sqrt(double(top)))), q = 1 + (ll)c.rng.below(uint64_t(std::cbrt(double(top)))), n;
    switch (c.rng.below(6)) { case 5: { ll p = pr(q + 20).back(); ll k = std::max<ll>(1, p - 1 - (ll)c.rng.below(6)); n = p * p * k + (ll)c.rng.below((uint64_t)k + 1); break; } // p^2 is a quotient, p just above the cube root
        case 0: n = r * r + (ll)c.rng.below(3) - 1; break; case 1: n = q * q * q + (ll)c.rng.below(3) - 1; break; case 2: n = r * (r + 1) + (ll)c.rng.below(3) - 1; break; case 3: n = 1 + (ll)c.rng.below(200); break; default: n = 1 + (ll)c.rng.below(top); }
    return std::min(std::max<ll>(n, 1), top);
}
template<typename T> struct Id { T one; T zero() const { return one - one; } T of(ll v) const { return castOf(one, v); } };

// M from t(n) = Sum p(k) M(n/k): choose M' and p, build t, and recover M
template<typename T> void recover(vm::Ctx& c, int n, T e1, std::function<T()> rnd, std::function<T()> unit) {
    T e0 = e1 - e1; auto& r = c.rng;
    std::vector<T> dM(n + 1, e0), p(n + 1, e0), dt(n + 1, e0), M(n + 1, e0), s(n + 1, e0), t(n + 1, e0), t1(n + 1, e0);
    bool mult = r.coin();
    for (int i = 1; i <= n; i++) { dM[i] = rnd(); p[i] = r.coin(1, 4) ? e0 : rnd(); } p[1] = unit();
    if (mult) { p[1] = dM[1] = e1; auto& T_ = tab(); for (int i = 2; i <= n; i++) { int q = T_.spf[i], a = i, b = 1; while (a % q == 0) a /= q, b *= q; if (a > 1) dM[i] = dM[a] * dM[b], p[i] = p[a] * p[b]; } }
    for (int d = 1; d <= n; d++) for (int e = 1; d * e <= n; e++) { dt[d * e] += p[d] * dM[e]; }
    for (int i = 1; i <= n; i++) { M[i] = M[i - 1] + dM[i]; s[i] = s[i - 1] + p[i]; t[i] = t[i - 1] + dt[i]; for (int k = 1; k <= i; k++) t1[i] += M[i / k]; }
    auto fn = [](const std::vector<T>& v) { return [&v](ll i) { return v.at(i); }; };
    std::vector<T> h(n + 1, e0); sieve_m(h, fn(t), fn(p), n + 1); for (int i = 1; i <= n; i++) at(c, "sieve_m", n, i, h[i], M[i]);
    h.assign(n + 1, e0); sieve_m(h, fn(t1), n + 1); for (int i = 1; i <= n; i++) at(c, "sieve_m p=1", n, i, h[i], M[i]);
    if (mult) { auto pa = pr(n); h.assign(n + 1, e0); sieve_m_multiplicative(h, fn(t), fn(p), n + 1, pa.data(), (int)pa.size()); for (int i = 0; i <= n; i++) at(c, "sieve_m_multiplicative", n, i, h[i], M[i]); }
    for (int U : {1 + (int)isq(icbrt(n)), (int)isqrt(n), (int)r.range(isqrt(n), n)}) {
        U = std::max(U, 1);
        for (int pre = 0; pre < 2; pre++) {
            sqrt_map<ll, T> tb(U, n), tb1(U, n); if (pre) { for (int i = 0; i < U; i++) tb[i] = tb1[i] = M[i]; }
            at(c, "sum_m", n, n, sum_m<T>(fn(t), fn(s), ll(n), tb, e1), M[n]); at(c, "sum_m p=1", n, n, sum_m<T>(fn(t1), ll(n), tb1, e1), M[n]);
            for (ll k : keys(n)) { if (tb.count(k)) at(c, "sum_m table", n, k, tb.at(k), M[k]); at(c, "sum_m at quotient", n, k, sum_m<T>(fn(t), fn(s), k, tb, e1), M[k]); at(c, "sum_m p=1 at quotient", n, k, sum_m<T>(fn(t1), k, tb1, e1), M[k]); }
        }
    }
    { std::map<ll, T> tb; at(c, "sum_m std::map", n, n, sum_m<T>(fn(t), fn(s), ll(n), tb, e1), M[n]); }
    if (n > 2) c.nontrivial(vm::mix64(n) ^ c.index);
}
UNIT(moebius_type, 500, 6000, "random M' and p: t = p*M summed, M recovered by sieving and by the sub-linear recursion with several table sizes, with and without presieving") {
    int n = c.index < 200 ? 1 + (int)c.index : (int)gen_n(c, c.thorough ? 2000 : 600); auto& r = c.rng;
    if (r.coin()) { int M = r.pick({101, 1009, 1000000007}); c.input("moduloX M=%d n=%d", M, n); recover<mx>(c, n, mx(1, M), [&] { return mx((int)r.below(M), M); }, [&] { return mx(1 + (int)r.below(M - 1), M); }); }
    else { c.input("modulo 1e9+7 n=%d", n); recover<mc>(c, n, mc(1), [&] { return mc((int)r.below(1000000007)); }, [&] { return mc(1 + (int)r.below(1000000006)); }); }
}
static void merts(vm::Ctx& c, ll n) {
    auto& T = tab(); std::vector<ll> m(n + 1), mo(n + 1), me(n + 1), sq(n + 1), ph(n + 1);
    for (ll i = 1; i <= n; i++) { m[i] = m[i - 1] + T.mu[i]; mo[i] = mo[i - 1] + (i % 2 ? T.mu[i] : 0); me[i] = m[i] - mo[i]; sq[i] = sq[i - 1] + (T.mu[i] != 0); ph[i] = ph[i - 1] + T.phi[i]; }
    int M = c.rng.pick({1009, 1000000007}); mx id(1, M);
    ll plim = c.rng.coin() ? ll(std::sqrt(double(n) * std::log(double(n) + 2))) + 1 : c.rng.coin() ? isqrt(n) : ll(isqrt(n)) + (ll)c.rng.below(50);
    auto pa = pr(std::max<ll>(plim, isqrt(n)));
    c.input("n=%lld M=%d primes=%zu", (long long)n, M, pa.size());
    auto ks = keys(n);
    if (n <= 60000) {
        auto pall = pr(n); int N = (int)n + 1, np = (int)pall.size();
        std::vector<int> h(N); std::vector<mx> hx(N, id - id); std::vector<int> h1(N), h0(N);
        auto cmp = [&](const char* tag, auto& got, std::vector<ll>& w) { for (ll i = 1; i <= n; i++) at(c, tag, n, i, got[i], castOf(got[1], w[i])); };
        sieve_mertens<int>(h, N, pall.data(), np); cmp("sieve_mertens", h, m); sieve_mertens(hx, N, pall.data(), np, id); cmp("sieve_mertens moduloX", hx, m);
        h.assign(N, 0); sieve_mertens_odd<int>(h, N, pall.data(), np); cmp("sieve_mertens_odd", h, mo);
        h.assign(N, 0); sieve_mertens_even<int>(h, N); cmp("sieve_mertens_even", h, me);
        sieve_mertens_even_odd<int>(h0, h1, N, pall.data(), np); cmp("sieve_mertens_even_odd even", h0, me); cmp("sieve_mertens_even_odd odd", h1, mo);
        auto ps = pr(isqrt(n)); h.assign(N, 7); sieve_sqfree_count<int>(h, N, ps.data(), (int)ps.size()); cmp("sieve_sqfree_count", h, sq);
    }
    auto check = [&](const char* tag, auto& tbl, std::vector<ll>& w) { for (ll k : ks) at(c, tag, n, k, tbl[k], castOf(tbl[1], w[k])); };
    { int U = std::max(1, (int)isq(icbrt(n))); sqrt_map<ll, mx> a(U, n), b(U, n), d(U, n); if (c.rng.coin()) for (int i = 0; i < U; i++) a[i] = mx(m[i], M), b[i] = mx(mo[i], M), d[i] = mx(me[i], M);
      at(c, "mertens", n, n, mertens(n, a, id), mx(m[n], M)); at(c, "mertens_odd", n, n, mertens_odd(n, b, id), mx(mo[n], M)); at(c, "mertens_even", n, n, mertens_even(n, d, id), mx(me[n], M));
      check("mertens table", a, m); for (ll k : ks) { if (b.count(k)) at(c, "mertens_odd table", n, k, b.at(k), mx(mo[k], M)); if (d.count(k)) at(c, "mertens_even table", n, k, d.at(k), mx(me[k], M)); } }
    { auto tb = make_sqrt_map<ll, int>([&](ll k) { return pi(k); }, n); for (ll k : ks) at(c, "make_sqrt_map", n, k, tb.at(k), pi(k));
      auto a = mertens(n, tb, pa.data(), (int)pa.size(), id); check("mertens from prime_pi", a, m);
      auto b = mertens_odd<ll>(n, tb, pa.data(), (int)pa.size()); check("mertens_odd from prime_pi", b, mo);
      auto d = mertens_even(n, tb, pa.data(), (int)pa.size(), id); check("mertens_even from prime_pi", d, me); }
    { int U = std::max<int>((int)isqrt(n), 1); if (c.rng.coin()) U = std::max<int>(U, (int)std::pow(double(n), 0.6)); sqrt_map<ll, mx> a(U, n); if (c.rng.coin()) for (int i = 0; i < U; i++) a[i] = mx(sq[i], M);
      at(c, "sqfree_count", n, n, sqfree_count(n, a, id), mx(sq[n], M)); for (ll k : ks) at(c, "sqfree_count at quotient", n, k, sqfree_count(k, a, id), mx(sq[k], M)); }
    if (M > 3) { auto a = sum_phi<mx, ll>(n, id); check("sum_phi", a, ph); std::vector<int> f(T.phi.begin(), T.phi.begin() + isq(icbrt(n)) + 1); auto b = sum_phi<mx, ll>(n, id, f.data()); check("sum_phi with table", b, ph); auto d = sum_phi<ll, ll>(n); check("sum_phi int64", d, ph); }
    c.event("quotient keys compared", ks.size()); if (n > 2) c.nontrivial(n);
}
UNIT(mertens_family, 600, 4000, "Mertens (odd/even), totient and squarefree sums: every n from 1, in every variant, at every quotient") { merts(c, (ll)c.index + 1); }
UNIT(mertens_big, 40, 500, "the same for random n up to 200000") { merts(c, gen_n(c, 200000)); }
// random multiplicative function given by prime-power values
template<typename T> void multiplicative(vm::Ctx& c, ll n, T e1, std::function<T(ll)> el) {
    auto& R = c.rng; uint64_t salt = R.u64(); int kind = (int)R.below(4);
    auto val = [&](ll p, int e) -> T { switch (kind) { case 0: return el(ll(vm::mix64(salt ^ (p * 64 + e)) >> 20)); case 1: return el(e > 1 ? 0 : -1); case 2: return el(e + 1); default: { T r = el(p - 1); for (int i = 1; i < e; i++) r = r * el(p); return r; } } };
    std::vector<T> f(n + 1, e1), S(n + 1, e1 - e1), S1(n + 1, e1 - e1); auto& t = tab();
    for (ll i = 1; i <= n; i++) { if (i > 1) { ll a = i; int q = t.spf[i], e = 0; while (a % q == 0) a /= q, e++; f[i] = f[a] * val(q, e); } S[i] = S[i - 1] + f[i]; S1[i] = S1[i - 1]; if (i > 1 && t.spf[i] == i) S1[i] += f[i]; }
    auto g = [&](const T& prev, int p, int e) { c.checks(); if (!(prev == (e > 1 ? val(p, e - 1) : e1))) c.fail("f(p^(e-1)) argument", "p=" + vm::str(p) + " e=" + vm::str(e)); return val(p, e); };
    auto s1 = [&](ll k) { return S1.at(k); };
    auto ks = keys(n);
    for (int v = 0; v < 2; v++) {
        ll lim = v == 0 ? isqrt(n) : ll(isqrt(n)) + (ll)R.below(60); auto pa = pr(lim); c.note(" primes=" + std::to_string(pa.size()));
        auto F = sum_multiplicative<T>(s1, g, n, pa.data(), (int)pa.size(), e1); for (ll k : ks) at(c, "sum_multiplicative", n, k, F[k], S[k]);
        at(c, "sum_multiplicative_34", n, n, sum_multiplicative_34(s1, g, n, pa.data(), (int)pa.size(), e1), S[n]);
        if (n < 3000) for (ll k : ks) at(c, "sum_multiplicative_34 at quotient", n, k, sum_multiplicative_34(s1, g, k, pa.data(), (int)pa.size(), e1), S[k]);
    }
    // rough numbers: each exactly once, with its value
    if (n <= 3000) { auto pa = pr(n); if (!pa.empty()) { int k = 1 + (int)R.below(std::min<size_t>(pa.size(), 6)); std::map<ll, int> seen; traverse_rough_numbers(g, n, k, pa.data(), (int)pa.size(), [&](ll m, const T& fm) { seen[m]++; at(c, "rough number value", n, m, fm, f.at(m)); }, 1, e1);
        for (ll i = 2; i <= n; i++) at(c, "rough number visited once", n, i, seen[i], int(t.spf[i] == pa[k - 1])); } }
    c.event("quotient keys compared", ks.size()); if (n > 2) c.nontrivial(salt);
}
static void mult_one(vm::Ctx& c, ll n) {
    if (c.rng.coin()) { int M = c.rng.pick({2, 1009, 1000000007}); c.input("moduloX M=%d n=%lld", M, (long long)n); multiplicative<mx>(c, n, mx(1, M), [=](ll v) { return mx(v, M); }); }
    else { c.input("uint64 n=%lld", (long long)n); multiplicative<uint64_t>(c, n, uint64_t(1), [](ll v) { return uint64_t(v); }); }
}
UNIT(multiplicative_small, 500, 3000, "sum_multiplicative (both algorithms) of random multiplicative functions for every n from 1, prime lists minimal and longer") { mult_one(c, (ll)c.index + 1); }
UNIT(multiplicative_big, 100, 2000, "the same for random n up to 100000 (squares, cubes, k(k+1) and neighbours favoured)") { mult_one(c, gen_n(c, 100000)); }
UNIT(phi_D_L, 150, 2500, "generalised totient sums (dimension D, weight k^L) for several n at once, default and explicit sieving bounds, in random order") {
    int D = (int)c.rng.below(4), L = (int)c.rng.below(4); ll top = c.thorough ? 4000 : 800; std::vector<ll> vn; for (int i = 1 + (int)c.rng.below(5); i-- > 0;) vn.push_back(c.rng.coin(1, 3) ? c.rng.below(30) : gen_n(c, top));
    ll n = *std::max_element(vn.begin(), vn.end()); int U = n == 0 ? 1 : c.rng.coin() ? 0 : (int)c.rng.range(std::max(isqrt(n), 1), n + 5); int M = c.rng.pick({1009, 1000000007});
    c.input("D=%d L=%d n=%s U=%d M=%d", D, L, vm::str(vn).c_str(), U, M);
    mx id(1, M); std::vector<mx> g(n + 1, mx(0, M)), ph(n + 1, mx(0, M)), S(n + 1, mx(0, M));
    for (ll i = 1; i <= n; i++) { mx b = id; for (int j = 0; j < D; j++) b = b * mx(i + j, M) / mx(j + 1, M); g[i] = b; }
    for (ll d = 1; d <= n; d++) for (ll e = 1; d * e <= n; e++) ph[d * e] += g[d] * mx(tab().mu[e], M);
    for (ll i = 1; i <= n; i++) S[i] = S[i - 1] + ph[i] * powT(mx(i, M), L);
    auto v = sum_phi_D_L<mx>(D, L, vn, U, id); for (size_t i = 0; i < vn.size(); i++) at(c, "sum_phi_D_L", n, vn[i], v.at(i), S[vn[i]]);
    if (n) at(c, "sum_phi_D_L single", n, n, sum_phi_D_L<mx>(D, L, n, U, id), S[n]);
    if (n > 3) c.nontrivial_input();
}
UNIT(sigma_sums, 1500, 20000, "partial sums of divisor counts, divisor sums, and squares of divisors; sums over k coprime to a product of primes") {
    ll n = c.index < 500 ? (ll)c.index : gen_n(c, 20000); c.input("n=%lld", (long long)n);
    ll s0 = 0, s1 = 0, s2 = 0; for (ll d = 1; d <= n; d++) { ll q = n / d; s0 += q; s1 += d * q; s2 += d * d * q; }
    c.eq((sequences::sum_sigma0<ll, ll>(n)), s0, "sum_sigma0"); c.eq((sequences::sum_sigma1<ll, ll>(n)), s1, "sum_sigma1"); c.eq((sequences::sum_sigma2<ll, ll>(n)), s2, "sum_sigma2");
    c.eq((sequences::sum_sigma0<mc, ll>(n)), mc(s0), "sum_sigma0 mod"); c.eq((sequences::sum_sigma1<mc, ll>(n)), mc(s1), "sum_sigma1 mod"); c.eq((sequences::sum_sigma2<mc, int>(int(n))), mc(s2), "sum_sigma2 mod");
    std::vector<int> P; for (int p : {2, 3, 5, 7, 11, 13, 101}) if (c.rng.coin()) P.push_back(p);
    ll m = std::min<ll>(n, 3000), w = 0; int L = (int)c.rng.below(3); for (ll k = 1; k <= m; k++) { bool ok = true; for (int p : P) ok = ok && k % p; if (ok) w += L == 0 ? 1 : L == 1 ? k : k * k; }
    c.note(" P=" + vm::str(P)); auto sf = [&](ll q, ll mul) { return L == 0 ? q : L == 1 ? mul * (q * (q + 1) / 2) : mul * mul * (q * (q + 1) * (2 * q + 1) / 6); };
    c.eq((coprime_sum<ll, ll>(P.begin(), P.end(), m, sf)), w, "coprime_sum"); if (n > 3) c.nontrivial_input();
}
