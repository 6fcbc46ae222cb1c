// C09: sub-linear summatory functions beyond 32 bits, against recursions written here
#include "vm.h"
#include "altruct/algorithm/math/divisor_sums.h"
#include "altruct/algorithm/math/mertens.h"
#include "altruct/algorithm/math/sequences.h"
#include "str_math.h"
#include <cmath>
using namespace altruct::math;
using altruct::container::sqrt_map;
typedef int64_t ll; typedef unsigned __int128 u128; typedef modulo<int, 1000000007> mc;
static const ll P = 1000000007;
static ll root2(ll n) { ll r = (ll)std::sqrt((double)n); while (r * r > n) r--; while ((r + 1) * (r + 1) <= n) r++; return r; }
static ll root3(ll n) { ll r = (ll)std::cbrt((double)n); while (r * r * r > n) r--; while ((r + 1) * (r + 1) * (r + 1) <= n) r++; return r; }
struct Sv { int N; std::vector<int> p, phi; std::vector<signed char> mu; std::vector<int> M; std::vector<ll> F;
    Sv(int N) : N(N), phi(N, 0), mu(N, 0), M(N, 0), F(N, 0) { std::vector<char> c(N, 0); phi[1] = 1; mu[1] = 1; for (ll i = 2; i < N; i++) { if (!c[i]) { p.push_back((int)i); phi[i] = (int)i - 1; mu[i] = -1; } for (int q : p) { if (i * q >= N) break; c[i * q] = 1; if (i % q == 0) { phi[i * q] = phi[i] * q; mu[i * q] = 0; break; } phi[i * q] = phi[i] * (q - 1); mu[i * q] = (signed char)-mu[i]; } } for (int i = 1; i < N; i++) M[i] = M[i - 1] + mu[i], F[i] = (F[i - 1] + phi[i]) % P; } };
static const Sv& sv() { static Sv s(6000000); return s; }
// M and Phi (mod P) at every n/i
struct Ref { ll n; std::vector<ll> m, f; const Sv& s; Ref(ll n) : n(n), s(sv()) { ll hi = n / s.N + 1; m.assign(hi + 1, 0); f.assign(hi + 1, 0); for (ll i = hi; i >= 1; i--) { ll x = n / i; if (x < s.N) continue; ll a = 1, b = (ll)(u128(x) * (x + 1) / 2 % P); for (ll k = 2; k <= x;) { ll v = x / k, e = x / v; ll c = e - k + 1; a -= c * M(v); b = (b - (c % P) * Phi(v)) % P; k = e + 1; } m[i] = a; f[i] = (b + P) % P; } }
    ll M(ll x) const { return x < s.N ? s.M[x] : m[n / x]; } ll Phi(ll x) const { return x < s.N ? s.F[x] : f[n / x]; } };
static ll pick_n(vm::Ctx& c, ll lo, ll hi) { auto& r = c.rng; ll n = lo + (ll)r.below(uint64_t(hi - lo)); switch (r.below(4)) { case 0: { ll q = root2(n); n = q * q + (ll)r.below(3) - 1; break; } case 1: { ll q = root3(n); n = q * q * q + (ll)r.below(3) - 1; break; } case 2: { auto& p = sv().p; size_t i = std::lower_bound(p.begin(), p.end(), (int)root3(n)) - p.begin(); ll q = p[i], k = q - 1 - (ll)r.below(8); n = q * q * k + (ll)r.below((uint64_t)k); break; } default: break; } return n; }
template<typename A, typename B> static void at(vm::Ctx& c, const char* tag, ll n, ll key, const A& got, const B& want) { c.checks(); if (!(got == want)) c.fail(tag, std::string(tag) + " n=" + vm::str(n) + " key=" + vm::str(key) + ": got " + vm::str(got) + ", want " + vm::str(want)); }
UNIT(large_arguments, 6, 60, "totient and Mertens sums, and the same sums from prime values, for n between 2^30 and 2e10 at every quotient (modular and 64-bit results)") {
    ll n = c.index % 3 == 0 ? pick_n(c, 1LL << 30, 1LL << 32) : pick_n(c, 1LL << 32, c.thorough ? 20000000000LL : 7000000000LL); c.input("n=%lld", (long long)n);
    Ref R(n); auto& S = sv(); std::vector<ll> ks; for (ll k = 1; k <= n;) { ll q = n / k; ks.push_back(q); k = n / q + 1; }
    mc id(1);
    { auto t = sum_phi<mc, ll>(n, id, const_cast<int*>(S.phi.data())); for (ll k : ks) if (t.count(k)) at(c, "sum_phi", n, k, t.at(k), mc(R.Phi(k))); at(c, "sum_phi at n", n, n, t[n], mc(R.Phi(n))); }
    { int U = (int)std::min<ll>(S.N - 1, root3(n) * root3(n)); sqrt_map<ll, ll> a(U, n), b(U, n), d(U, n); ll mo = 0; for (int i = 0; i < U; i++) { a[i] = S.M[i]; mo += i % 2 ? S.mu[i] : 0; b[i] = mo; d[i] = S.M[i] - mo; }
      at(c, "mertens", n, n, mertens(n, a, 1ll), R.M(n)); for (ll k : ks) if (a.count(k)) at(c, "mertens table", n, k, a.at(k), R.M(k));
      // M_odd(n) = M(n) + M_odd(n/2)
      auto odd = [&](ll x) { ll s = 0; for (; x >= 1; x /= 2) s += R.M(x); return s; };
      at(c, "mertens_odd", n, n, mertens_odd(n, b, 1ll), odd(n)); at(c, "mertens_even", n, n, mertens_even(n, d, 1ll), R.M(n) - odd(n)); }
    // prime counts and sums at every quotient
    ll m = c.index % 2 ? n : n / (1 + (ll)c.rng.below(40)); ll q = root2(m); std::vector<ll> lo(q + 1), hi(q + 2), slo(q + 1), shi(q + 2); auto tri = [](ll x) { return (ll)((u128(x) * (x + 1) / 2 - 1) % P); };
    for (ll i = 1; i <= q; i++) lo[i] = i - 1, hi[i] = m / i - 1, slo[i] = tri(i), shi[i] = tri(m / i);
    for (ll p = 2; p <= q; p++) { if (lo[p] == lo[p - 1]) continue; ll c0 = lo[p - 1], s0 = slo[p - 1]; for (ll i = 1; i <= q && m / i >= p * p; i++) { ll x = m / i / p; ll a = x <= q ? lo[x] : hi[m / x], b = x <= q ? slo[x] : shi[m / x]; hi[i] -= a - c0; shi[i] = ((shi[i] - p * (b - s0)) % P + P) % P; } for (ll i = q; i >= p * p; i--) lo[i] -= lo[i / p] - c0, slo[i] = ((slo[i] - p * (slo[i / p] - s0)) % P + P) % P; }
    auto pc = [&](ll x) { return x < 1 ? 0 : x <= q ? lo[x] : hi[m / x]; }; auto ps = [&](ll x) { return x < 1 ? 0 : x <= q ? slo[x] : shi[m / x]; };
    int np = int(std::upper_bound(S.p.begin(), S.p.end(), (int)(q + c.rng.below(3) * q)) - S.p.begin()); c.note(" m=" + vm::str(m) + " primes=" + vm::str(np));
    Ref Q(m);
    auto F = sum_multiplicative<mc>([&](ll x) { return mc(ps(x)) - mc(pc(x)); }, [&](const mc& prev, int p, int e) { return e == 1 ? mc(p - 1) : prev * mc(p); }, m, S.p.data(), np, id);
    auto G = sum_multiplicative<ll>([&](ll x) { return -pc(x); }, [&](ll, int, int e) { return ll(e == 1 ? -1 : 0); }, m, S.p.data(), np, 1ll);
    for (ll k = 1; k <= m;) { ll x = m / k; at(c, "sum_multiplicative totient", m, x, F[x], mc(Q.Phi(x))); at(c, "sum_multiplicative moebius", m, x, G[x], Q.M(x)); k = m / x + 1; }
    int n34 = int(std::upper_bound(S.p.begin(), S.p.end(), (int)q) - S.p.begin()); ll w = std::min<ll>(m, 300000000); if (w == m) at(c, "sum_multiplicative_34", m, m, sum_multiplicative_34([&](ll x) { return mc(ps(x)) - mc(pc(x)); }, [&](const mc& prev, int p, int e) { return e == 1 ? mc(p - 1) : prev * mc(p); }, m, S.p.data(), n34, id), mc(Q.Phi(m)));
    c.event("quotient keys compared", 4 * ks.size()); c.nontrivial(n);
}
UNIT(large_squarefree, 30, 400, "squarefree counts for n up to 2e13 at n and at smaller quotients; prime lists far beyond the table length") {
    auto& r = c.rng; auto& S = sv(); ll top = c.index % 2 ? 20000000000000LL : 1000000000000LL; ll n = 1 + (ll)r.below(uint64_t(top)); if (r.coin(1, 3)) { ll q = 1 + (ll)r.below((uint64_t)root2(top)); n = std::max<ll>(1, q * q + (ll)r.below(3) - 1); } c.input("n=%lld", (long long)n);
    auto ref = [&](ll x) { ll s = 0; for (ll d = 1; d * d <= x; d++) s += S.mu[d] * (x / (d * d)); return s; };
    int U = (int)std::max<ll>(root2(n), 1); sqrt_map<ll, ll> t(U, n); ll a = 0; for (int i = 0; i < U; i++) { a += i && S.mu[i] != 0; t[i] = a; }
    for (int k = 0; k < 4; k++) { ll x = k ? n / (1 + (ll)r.below((uint64_t)root2(root2(n)) + 1)) : n; at(c, "sqfree_count", n, x, sqfree_count(x, t, 1ll), ref(x)); }
    // sieve with a list of primes whose squares leave every integer type but the widest
    int N = 1 + (int)r.below(100000), m = (int)r.below(S.p.size()); while (m < (int)S.p.size() && (ll)S.p[m] * S.p[m] < N) m++; std::vector<int> h(N, 3); sieve_sqfree_count<int>(h, N, S.p.data(), m); int b = 0; for (int i = 0; i < N; i++) { b += i && S.mu[i] != 0; at(c, "sieve_sqfree_count", N, i, h[i], b); }
    c.nontrivial(n);
}
static ll mp(ll a, ll b) { return (ll)((__int128)(a % P) * (b % P) % P); }
static ll inv6() { static ll v = [] { ll r = 1, b = 6, e = P - 2; for (; e; e >>= 1) { if (e & 1) r = mp(r, b); b = mp(b, b); } return r; }(); return v; }
static ll s1p(ll n) { return (ll)(u128(n) * (n + 1) / 2 % P); }
static ll s2p(ll n) { return mp(mp(n % P * ((n + 1) % P) % P, (2 * (n % P) + 1) % P), inv6()); }
static ll s3p(ll n) { return mp(s1p(n), s1p(n)); }
// sums of k*phi(k) and of the two-dimensional totient (mod P), by their own recursions
struct Ref2 { ll n; std::vector<ll> a, b; static const std::pair<std::vector<ll>, std::vector<ll>>& tab() { static auto t = [] { auto& s = sv(); std::vector<ll> j(s.N, 0), u(s.N, 0), v(s.N, 0); j[1] = 1; std::vector<char> c(s.N, 0); for (ll i = 2; i < s.N; i++) { if (!c[i]) j[i] = mp(i, i) - 1; for (int q : s.p) { if (i * q >= s.N) break; c[i * q] = 1; ll q2 = (ll)q * q % P; if (i % q == 0) { j[i * q] = mp(j[i], q2); break; } j[i * q] = mp(j[i], q2 + P - 1); } }
        ll h = (P + 1) / 2; for (int i = 1; i < s.N; i++) { u[i] = (u[i - 1] + mp(i, s.phi[i])) % P; v[i] = (v[i - 1] + mp(j[i] + s.phi[i], h)) % P; } return std::make_pair(u, v); }(); return t; }
    Ref2(ll n) : n(n) { auto& T = tab(); ll N = (ll)T.first.size(), hi = n / N + 1; a.assign(hi + 1, 0); b.assign(hi + 1, 0); for (ll i = hi; i >= 1; i--) { ll x = n / i; if (x < N) continue; ll p = s2p(x), q = mp(mp(x % P * ((x + 1) % P) % P, (x + 2) % P), inv6()); for (ll k = 2; k <= x;) { ll v = x / k, e = x / v; p = (p - mp(s1p(e) - s1p(k - 1) + P, A(v))) % P; q = (q - mp((e - k + 1) % P, B(v))) % P; k = e + 1; } a[i] = (p + P) % P; b[i] = (q + P) % P; } }
    ll A(ll x) const { auto& t = tab().first; return x < (ll)t.size() ? t[x] : a[n / x]; } ll B(ll x) const { auto& t = tab().second; return x < (ll)t.size() ? t[x] : b[n / x]; } };
UNIT(large_weighted_totients, 9, 50, "generalised totient sums (several at once, weighted, two-dimensional) for n between 2^31 and 6e9") {
    auto& r = c.rng; ll n = pick_n(c, 1LL << 31, c.thorough ? 12000000000LL : 6000000000LL); int kind = (int)(c.index % 3); c.input("n=%lld kind=%d", (long long)n, kind); mc id(1);
    std::vector<ll> vn{ n, n / (2 + (ll)r.below(20)), 1 + (ll)r.below(1000000), n - 1 - (ll)r.below(1000) }; r.shuffle(vn); int U = r.coin() ? 0 : 2000000 + (int)r.below(1000000);
    auto v = sum_phi_D_L<mc>(kind == 2 ? 2 : 1, kind == 1 ? 1 : 0, std::vector<int64_t>(vn.begin(), vn.end()), U, id);
    for (size_t i = 0; i < vn.size(); i++) { ll w; if (kind == 0) w = Ref(vn[i]).Phi(vn[i]); else { Ref2 q(vn[i]); w = kind == 1 ? q.A(vn[i]) : q.B(vn[i]); } at(c, "sum_phi_D_L", n, vn[i], v.at(i), mc((int)w)); }
    c.nontrivial(n);
}
UNIT(large_sigmas, 60, 400, "partial sums of divisor functions modulo a prime for n up to 1e14, and sums over k coprime to a product of primes for n up to 1e16") {
    auto& r = c.rng; ll top = c.thorough ? 100000000000000LL : 3000000000000LL; ll n = 1 + (ll)r.below(uint64_t(c.index % 2 ? top : 1LL << (20 + r.below(20)))); if (r.coin(1, 3)) { ll q = 1 + (ll)r.below((uint64_t)root2(top)); n = q * (q + (ll)r.below(2)) - (ll)r.below(2); if (n < 1) n = 1; } c.input("n=%lld", (long long)n);
    ll a = 0, b = 0, d = 0; for (ll k = 1; k <= n;) { ll q = n / k, e = n / q; a = (a + mp(e - k + 1, q)) % P; b = (b + mp(s1p(e) - s1p(k - 1) + P, q)) % P; d = (d + mp(s2p(e) - s2p(k - 1) + P, q)) % P; k = e + 1; }
    at(c, "sum_sigma0", n, n, sequences::sum_sigma0<mc, ll>(n), mc((int)a)); at(c, "sum_sigma1", n, n, sequences::sum_sigma1<mc, ll>(n), mc((int)b)); at(c, "sum_sigma2", n, n, sequences::sum_sigma2<mc, ll>(n), mc((int)d));
    ll m = 1 + (ll)r.below(10000000000000000ULL); std::vector<int> ps; for (int p : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 1009, 46349, 1000003, 1999993 }) if (r.coin()) ps.push_back(p); r.shuffle(ps); c.note(" m=" + vm::str(m) + " P=" + vm::str(ps)); int L = (int)r.below(2);
    ll w = 0; for (unsigned s = 0; s < 1u << ps.size(); s++) { u128 q = 1; bool z = false; for (size_t i = 0; i < ps.size() && !z; i++) if (s >> i & 1) { q *= ps[i]; z = q > (u128)m; } if (z) continue; ll x = (ll)q, t = L ? mp(x, s1p(m / x)) : (m / x) % P; w = (w + (__builtin_popcount(s) & 1 ? P - t : t)) % P; }
    // the product of the primes (P in the documentation) has to be representable
    auto sf = [&](ll x, ll mul) { return x == 0 ? mc(0) : L ? mc((int)mp(mul, s1p(x))) : mc((int)(x % P)); };
    { ll pr = 1; bool fits = true; for (int p : ps) { if (pr > (1LL << 62) / p) fits = false; else pr *= p; } if (fits) at(c, "coprime_sum", m, m, coprime_sum<mc, ll>(ps.begin(), ps.end(), m, sf), mc((int)w)); }
    c.nontrivial(n);
}
