// C08: Dirichlet convolution, division, inverse and Moebius transforms of arrays
#include "vm.h"
#include "altruct/algorithm/math/divisor_sums.h"
#include "str_math.h"
#include "altruct/structure/math/fraction.h"
using namespace altruct::math;
typedef int64_t ll;
typedef moduloX<int> mx; typedef modulo<int, 1000000007> mc; typedef moduloX<int64_t> ml;

template<typename T> using V = std::vector<T>;
template<typename T> V<T> rconv(const V<T>& f, const V<T>& g, int n, T e0) { V<T> h(n, e0); for (int i = 1; i < n; i++) for (int d = 1; d <= i; d++) if (i % d == 0) h[i] = h[i] + f[i / d] * g[d]; return h; }
// h with h*g = f, from the definition, c = 1/g(1)
template<typename T> V<T> rdiv(const V<T>& f, const V<T>& g, int n, T e0, T c) { V<T> h(n, e0); for (int i = 1; i < n; i++) { T s = f[i]; for (int d = 1; d < i; d++) if (i % d == 0) s = s - h[d] * g[i / d]; h[i] = s * c; } return h; }

template<typename T> struct Ring { std::function<T(ll)> el; std::function<bool(ll)> unit; };
template<typename T> void cmp(vm::Ctx& c, const V<T>& got, const V<T>& want, const char* tag) {
    for (size_t i = 1; i < want.size(); i++) { c.checks(); if (!(got[i] == want[i])) c.fail(tag, std::string(tag) + " at " + vm::str(i) + ": got " + vm::str(got[i]) + ", want " + vm::str(want[i])); }
}
static bool isp(int n) { if (n < 2) return false; for (int d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }

template<typename T> void run(vm::Ctx& c, int n, T e1, std::function<ll()> rnd, std::function<T(ll)> el, std::function<T()> unit) {
    T e0 = e1 - e1;
    V<int> pa, pf(n, 0); for (int i = 2; i < n; i++) { if (isp(i)) pa.push_back(i); V<int> fs; for (int p : pa) if (i % p == 0) fs.push_back(p); pf[i] = c.rng.pick(fs); }
    int m = (int)pa.size();
    int len = std::max(n, 2); // functions can be called at 1 whatever the length
    auto arb = [&](bool u) { V<T> f(len, e0); for (int i = 1; i < len; i++) f[i] = c.rng.coin(1, 4) ? e0 : el(rnd()); if (u) f[1] = unit(); return f; };
    auto mult = [&](bool comp) {
        std::map<int, T> q; for (int p : pa) for (ll x = p; x < n; x *= p) q[(int)x] = comp && x != p ? q[int(x / p)] * q[p] : el(rnd());
        V<T> f(len, e1); f[0] = e0; for (int i = 2; i < n; i++) { int t = i; for (int p : pa) { int x = 1; while (t % p == 0) t /= p, x *= p; if (x > 1) f[i] = f[i] * q[x]; } } return f;
    };
    auto fn = [](const V<T>& f) { return [&f](int i) { return f.at(i); }; };
    auto fresh = [&]() { V<T> h(n, el(rnd())); return h; }; // previous contents must not matter
    V<T> one(len, e1), id1(len, e0); one[0] = e0; id1[1] = e1;
    V<T> f = arb(false), g = arb(true), h = fresh(); T ig = e1 / g[1];
    c.ok(ig * g[1] == e1, "unit");
    dirichlet_convolution(h, fn(f), fn(g), n); cmp(c, h, rconv(f, g, n, e0), "dirichlet_convolution");
    { V<T> k = fresh(); h.resize(len, e0); dirichlet_division(k, fn(h), fn(g), n); k.resize(n, e0); V<T> w(f.begin(), f.begin() + n); cmp(c, k, w, "division undoes convolution"); }
    h = fresh(); dirichlet_division(h, fn(f), fn(g), n); cmp(c, h, rdiv(f, g, n, e0, ig), "dirichlet_division");
    h = fresh(); dirichlet_inverse(h, fn(g), n); cmp(c, h, rdiv(id1, g, n, e0, ig), "dirichlet_inverse");
    h = fresh(); moebius_transform(h, fn(f), n); cmp(c, h, rdiv(f, one, n, e0, e1), "moebius_transform");
    { V<T> back = h; back.resize(len, e0); V<T> s = fresh(); dirichlet_convolution(s, fn(back), fn(one), n); V<T> w(f.begin(), f.begin() + n); cmp(c, s, w, "moebius transform inverted by divisor sums"); }
    // only the result is multiplicative; the arguments are not
    for (int comp = 0; comp < 2; comp++) {
        V<T> r = mult(comp), w(r.begin(), r.begin() + n), q = arb(true), rq = rconv(r, q, len, e0), a = rdiv(r, q, len, e0, T(e1 / q[1]));
        V<T> ri = rdiv(id1, r, len, e0, e1), r1 = rconv(r, one, len, e0);
        h = fresh(); if (!comp) dirichlet_convolution_multiplicative(h, fn(a), fn(q), n, pa.data(), m); else dirichlet_convolution_completely_multiplicative(h, fn(a), fn(q), n, pf.data());
        cmp(c, h, w, comp ? "convolution_completely_multiplicative" : "convolution_multiplicative");
        h = fresh(); if (!comp) dirichlet_division_multiplicative(h, fn(rq), fn(q), n, pa.data(), m); else dirichlet_division_completely_multiplicative(h, fn(rq), fn(q), n, pf.data());
        cmp(c, h, w, comp ? "division_completely_multiplicative" : "division_multiplicative");
        h = fresh(); if (!comp) dirichlet_inverse_multiplicative(h, fn(ri), n, pa.data(), m); else dirichlet_inverse_completely_multiplicative(h, fn(ri), n, pf.data());
        cmp(c, h, w, comp ? "inverse_completely_multiplicative" : "inverse_multiplicative");
        h = fresh(); if (!comp) moebius_transform_multiplicative(h, fn(r1), n, pa.data(), m); else moebius_transform_completely_multiplicative(h, fn(r1), n, pf.data());
        cmp(c, h, w, comp ? "moebius_completely_multiplicative" : "moebius_multiplicative");
        V<T> k(n, e1); for (int i = 2; i < n; i++) if (comp ? isp(i) : [&] { int t = i, p = pf[i]; while (t % p == 0) t /= p; return t == 1; }()) k[i] = r[i];
        if (n > 0) { if (!comp) calc_multiplicative(k, n, pa.data(), m); else calc_completely_multiplicative(k, n, pf.data()); cmp(c, k, w, comp ? "calc_completely_multiplicative" : "calc_multiplicative"); }
        if (!comp) { V<T> inv = fresh(); dirichlet_inverse_multiplicative(inv, fn(r), n, pa.data(), m); V<T> wi(ri.begin(), ri.begin() + n); cmp(c, inv, wi, "inverse of a multiplicative function"); }
    }
    for (int k : {0, 1, 2, 3, 4, 5, 64 + (int)c.rng.below(40)}) { if (k > 5 && !std::is_same<T, mx>::value && !std::is_same<T, modulo<int, 1000000007>>::value) continue; h = fresh(); divisor_sigma(h, k, n, pa.data(), m, e1); V<T> w(n, e0); for (int i = 1; i < n; i++) for (int d = 1; d <= i; d++) if (i % d == 0) { T t = e1; for (int j = 0; j < k; j++) t = t * el(d); w[i] = w[i] + t; } cmp(c, h, w, "divisor_sigma"); }
    if (n > 3) c.nontrivial(vm::mix64(c.index * 8 + sizeof(T)) ^ n);
}
static void ring(vm::Ctx& c, int n) {
    int kind = (int)c.rng.below(6); auto& r = c.rng;
    auto gcd = [](ll a, ll b) { while (b) { ll t = a % b; a = b; b = t; } return a; };
    if (kind == 0) { int M = r.pick({2, 3, 101, 1009, 1000000007, 2147483647}); c.input("moduloX<int> M=%d n=%d", M, n); run<mx>(c, n, mx(1, M), [&] { return (ll)r.below(M); }, [=](ll v) { return mx(v, M); }, [&r, M] { return mx(1 + (int)r.below(M - 1), M); }); }
    else if (kind == 1) { int M = r.pick({4, 6, 36, 1024, 1000000, 2147483646}); c.input("moduloX<int> composite M=%d n=%d", M, n); run<mx>(c, n, mx(1, M), [&] { return (ll)r.below(M); }, [=](ll v) { return mx(v, M); }, [&r, M, gcd] { int u; do u = 1 + (int)r.below(M - 1); while (gcd(u, M) != 1); return mx(u, M); }); }
    else if (kind == 2) { c.input("modulo<1e9+7> n=%d", n); run<mc>(c, n, mc(1), [&] { return (ll)r.below(1000000007); }, [](ll v) { return mc(v); }, [&r] { return mc(1 + (int)r.below(1000000006)); }); }
    else if (kind == 3) { c.input("uint64 n=%d", n); run<uint64_t>(c, n, uint64_t(1), [&] { return (ll)r.u64(); }, [](ll v) { return uint64_t(v); }, [] { return uint64_t(1); }); }
    else if (kind == 4) { ll M = r.pick({1000000000039LL, 9223372036854775783LL}); c.input("moduloX<int64> M=%lld n=%d", (long long)M, n); run<ml>(c, n, ml(1, M), [&] { return (ll)r.below(M); }, [=](ll v) { return ml(v, M); }, [&r, M] { return ml(1 + (ll)r.below(M - 1), M); }); }
    else { n = std::min(n, 40); c.input("int64 small n=%d", n); run<ll>(c, n, ll(1), [&] { return r.range(-1, 1); }, [](ll v) { return v; }, [&r] { return ll(r.coin() ? 1 : -1); }); }
}
UNIT(every_length, 300, 1500, "every length n from 1: all transforms of random functions in a random ring, tables of exactly n elements with arbitrary previous contents") { for (int t = 0; t < 2; t++) ring(c, 1 + (int)c.index % 150); }
UNIT(large_tables, 7, 70, "tables of 20000 to 200000 entries (one case above 2^20; thorough: to 1000000): every transform of random multiplicative functions against values built from factorizations") {
    auto& r = c.rng; int n = (int)r.range(20000, c.thorough ? 1000000 : 200000); switch (c.index % 7) { case 6: n = (1 << 20) + 1 + (int)r.below(50000); break; case 0: { int p = r.pick({181, 211, 307, 401}); n = p * p + (int)r.below(3); break; } case 1: n = (1 << r.range(15, 17)) + (int)r.below(3); break; case 2: n = 59049 + (int)r.below(3); break; default: break; } c.input("n=%d", n);
    V<int> spf(n, 0), pa; for (int i = 2; i < n; i++) { if (!spf[i]) { pa.push_back(i); for (int j = i; j < n; j += i) if (!spf[j]) spf[j] = i; } } int m = (int)pa.size(); uint64_t sa = r.u64(), sb = r.u64(); bool comp = r.coin();
    auto val = [&](uint64_t s, int p, int e) { mc x(1), y((int)(vm::mix64(s + p) % 1000000007)); if (!comp) return e ? mc((int)(vm::mix64(s + p * 64ull + e) % 1000000007)) : x; while (e--) x *= y; return x; };
    V<mc> f(n, mc(1)), g(n, mc(1)), fg(n, mc(1)), fd(n, mc(1)), gi(n, mc(1)), mo(n, mc(1)), mo1(n, mc(1)), ph(n, mc(1)), s2(n, mc(1)); V<int> tau(n, 1);
    for (int i = 2; i < n; i++) { int p = spf[i], e = 0, x = i, q = 1; while (x % p == 0) x /= p, q *= p, e++; if (x == 1) { mc a(0), b(0), w(0); std::vector<mc> inv{mc(1)}; for (int k = 1; k <= e; k++) { mc t(0); for (int j = 1; j <= k; j++) t -= val(sb, p, j) * inv[k - j]; inv.push_back(t); } for (int k = 0; k <= e; k++) a += val(sa, p, k) * val(sb, p, e - k), b += val(sa, p, k) * inv[e - k], w += powT(mc(p), 2 * k); f[i] = val(sa, p, e); g[i] = val(sb, p, e); fg[i] = a; fd[i] = b; gi[i] = inv[e]; mo[i] = f[i] - val(sa, p, e - 1); mo1[i] = e > 1 ? mc(0) : mc(-1); ph[i] = mc(q / p * (p - 1)); s2[i] = w; tau[i] = e + 1; } else { auto k = [&](auto& t) { t[i] = t[q] * t[x]; }; k(f), k(g), k(fg), k(fd), k(gi), k(mo), k(mo1), k(ph), k(s2), k(tau); } }
    auto fn = [](const V<mc>& t) { return [&t](int i) { return t.at(i); }; }; auto id = [](int i) { return mc(i); }; auto fresh = [&] { return V<mc>(n, mc((int)r.below(1000))); }; auto one = [](int) { return mc(1); }; V<mc> h = fresh(); auto chk = [&](const V<mc>& w, const char* tag) { cmp(c, h, w, tag); h = fresh(); };
    dirichlet_convolution(h, fn(f), fn(g), n); chk(fg, "large convolution"); dirichlet_division(h, fn(f), fn(g), n); chk(fd, "large division"); dirichlet_inverse(h, fn(g), n); chk(gi, "large inverse"); moebius_transform(h, fn(f), n); chk(mo, "large moebius_transform"); int* P = pa.data();
    dirichlet_convolution_multiplicative(h, fn(f), fn(g), n, P, m); chk(fg, "large convolution_multiplicative"); dirichlet_division_multiplicative(h, fn(f), fn(g), n, P, m); chk(fd, "large division_multiplicative"); dirichlet_inverse_multiplicative(h, fn(g), n, P, m); chk(gi, "large inverse_multiplicative"); moebius_transform_multiplicative(h, fn(f), n, P, m); chk(mo, "large moebius_multiplicative"); moebius_transform_multiplicative(h, id, n, P, m); chk(ph, "phi by moebius transform"); dirichlet_inverse_multiplicative(h, one, n, P, m); chk(mo1, "moebius function as an inverse");
    if (n > 1) { for (int i = 0; i < n; i++) { int p = i > 1 ? spf[i] : 1, x = i; while (x > 1 && x % p == 0) x /= p; h[i] = i > 1 && x == 1 ? f[i] : mc(1); } calc_multiplicative(h, n, P, m); chk(f, "large calc_multiplicative"); }
    if (comp) { for (int i = 0; i < n; i++) h[i] = i > 1 && spf[i] == i ? f[i] : mc(1); calc_completely_multiplicative(h, n, spf.data()); chk(f, "large calc_completely_multiplicative"); }
    divisor_sigma(h, 2, n, P, m, mc(1)); chk(s2, "large divisor_sigma"); { V<int> t(n, 5); divisor_sigma(t, 0, n, P, m, 1); cmp(c, t, tau, "large tau"); V<ll> q(n, 7); divisor_sigma(q, 1, n, P, m, 1ll); ll top = n - 1, s = 0; for (ll d = 1; d <= top; d++) if (top % d == 0) s += d; c.eq(q[top], s, "large sigma at the last entry"); }
    c.nontrivial_input();
}
UNIT(random_length, 120, 3000, "lengths up to 300 (thorough: 700), biased to prime powers and their neighbours") {
    int n = c.rng.coin() ? (int)c.rng.range(1, c.thorough ? 700 : 300) : 0;
    if (!n) { int p = c.rng.pick({2, 3, 5, 7, 11, 13}); n = p; while (n * p < 300 && c.rng.coin(3, 4)) n *= p; n += (int)c.rng.below(3); }
    ring(c, n);
}
