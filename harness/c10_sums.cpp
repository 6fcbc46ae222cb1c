// C10: closed-form sums, range generators, reductions, figurate sequences
#include "vm.h"
#include "altruct/algorithm/math/sums.h"
#include "altruct/algorithm/math/ranges.h"
#include "altruct/algorithm/math/reduce.h"
#include "altruct/algorithm/math/sequences.h"
#include "altruct/structure/math/fraction.h"
#include "str_math.h"
#include <set>
#include <list>
#include <deque>
using namespace altruct::math;
using vm::i128;
typedef int64_t ll; typedef long long LL; typedef moduloX<int> mx; typedef moduloX<int64_t> ml; typedef modulo<int, 1000000007> mc; typedef modulo<int, 10007> ms; typedef fraction<ll> fr;

static i128 fdiv(i128 a, i128 b) { i128 q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
template<typename T> T md(i128 v, T id) { ll M = (ll)id.M(); i128 r = v % M; if (r < 0) r += M; return castOf(id, (ll)r); }

UNIT(sum_ratio, 60000, 3000000, "sum of floor((a k + b)/q) for random signed a, b, q and n, against the direct sum") {
    auto& r = c.rng; ll w = r.pick({3ll, 12ll, 100ll, 1000000ll, 1000000000ll, 1000000000000ll});
    ll n = r.coin(1, 8) ? -(ll)r.below(3) : (ll)r.below(c.index % 16 == 0 ? 1500 : 60), a = r.edgy(-w, w), b = r.edgy(-w, w), q = 0; while (!q) q = r.edgy(-w, w);
    if (r.coin(1, 6)) a = q * r.range(-2, 2) + r.range(-1, 1); if (r.coin(1, 6)) b = q * r.range(-2, 2) + r.range(-1, 1);
    c.input("a=%lld b=%lld q=%lld n=%lld", (LL)a, (LL)b, (LL)q, (LL)n);
    i128 s = 0; for (ll k = 0; k < n; k++) s += fdiv((i128)a * k + b, q);
    if (s >= INT64_MIN && s <= INT64_MAX) { c.eq((sum_ratio<i128, ll>(a, b, q, n)), s, "int128"); c.eq((sum_ratio<i128, LL>(a, b, q, n)), s, "int128 long long"); }
    if (w <= 1000000) c.eq((sum_ratio<ll, ll>(a, b, q, n)), (ll)s, "int64");
    if (w <= 100) c.eq((sum_ratio<int, int>((int)a, (int)b, (int)q, (int)n)), (int)s, "int");
    c.eq((sum_ratio<mc, ll>(a, b, q, n)), md(s, mc(1)), "mod 1e9+7"); mx id(1, r.pick({2, 6, 97, 1000000007})); c.eq((sum_ratio<mx, ll>(a, b, q, n, id - id)), md(s, id), "moduloX");
    if (a >= 0 && b >= 0 && q > 0 && n >= 0) { typedef uint64_t u; c.eq((sum_ratio<u, u>(a, b, q, n)), (u)s, "uint64"); }
    if (n > 1 && a % q) c.nontrivial_input();
}
UNIT(sum_ratio_identity, 20000, 1000000, "sum_ratio with huge n: split-range and complement identities") {
    auto& r = c.rng; ll q = 1 + (ll)r.below(1000000), a = (ll)r.below(1000000), b = (ll)r.below(1000000), n = 1 + (ll)r.below(1000000000), m = (ll)r.below(n + 1); c.input("a=%lld b=%lld q=%lld n=%lld m=%lld", (LL)a, (LL)b, (LL)q, (LL)n, (LL)m);
    auto F = [&](ll a, ll b, ll q, ll n) { return sum_ratio<i128, ll>(a, b, q, n); };
    c.eq(F(a, b, q, n), F(a, b, q, m) + F(a, a * m + b, q, n - m), "split at m"); c.eq(F(a, b, q, n), F(a, b % q, q, n) + (i128)(b / q) * n, "shift b by q");
    c.eq(F(-a, -b - 1, q, n), -F(a, b, q, n) - n, "complement"); c.eq(F(-a, -b, -q, n), F(a, b, q, n), "sign of q"); c.eq(F(-a, a * (n - 1) + b, q, n), F(a, b, q, n), "reversed");
    c.nontrivial_input();
}
template<typename T> void powsums(vm::Ctx& c, T id, ll n, int p, const char* tag) {
    T e0 = id - id; T s = e0; for (ll k = 1; k <= n; k++) s += powT(castOf(id, k), p);
    c.eq((sum_pow<T, ll>(p, n, id)), s, (std::string(tag) + " sum_pow").c_str());
    auto B = sum_pow_bernoulli<T>(p, id); c.eq((sum_pow<T, ll>(p, n, B)), s, (std::string(tag) + " sum_pow with B").c_str());
    auto B2 = bernoulli_b<T>(p + 3, id); c.eq((sum_pow<T, int>(p, (int)n, B2)), s, (std::string(tag) + " sum_pow with longer B").c_str());
}
UNIT(sum_pow, 6000, 200000, "power sums for random exponent and bound (n<=0 and multiples of the modulus included), several moduli interleaved, and rationals") {
    auto& r = c.rng; int p = (int)r.below(c.thorough ? 40 : 25); ll n = r.coin(1, 6) ? 0 : (ll)r.below(300); int M = r.pick({101, 1009, 10007, 1000000007}); if (r.coin(1, 5)) n = M == 101 ? 101 * (ll)r.below(4) + (ll)r.below(3) : n;
    c.input("p=%d n=%lld M=%d", p, (LL)n, M); powsums(c, mx(1, M), n, p, "moduloX"); powsums(c, ml(1, M), n, p, "moduloX int64"); powsums(c, mc(1), n, p, "1e9+7"); powsums(c, ms(1), n, p, "10007");
    if (p <= 3) { ll s = 0; for (ll k = 1; k <= n; k++) s += powT(k, p); c.eq((sum_pow<ll, ll>(p, n)), s, "int64"); c.eq((sum_pow<int, int>(p, (int)std::min<ll>(n, 100))), (int)[&] { int s = 0; for (int k = 1; k <= std::min<ll>(n, 100); k++) s += powT(k, p); return s; }(), "int"); }
    if (p <= 8 && n <= 12) powsums(c, fr(1), n, p, "fraction");
    if (n > 1) c.nontrivial_input();
}
UNIT(sum_powx, 6000, 200000, "sums of k^m x^k") {
    auto& r = c.rng; int m = (int)r.below(c.thorough ? 14 : 9), M = r.pick({101, 1009, 1000000007}); ll n = r.coin(1, 6) ? (ll)r.below(2) : (ll)r.below(400); mx x(r.coin(1, 6) ? 0 : r.coin(1, 6) ? M - 1 : 2 + (int)r.below(M - 2), M); c.input("m=%d x=%d M=%d n=%lld", m, (int)x.v, M, (LL)n);
    mx s(0, M); for (ll k = 1; k <= n; k++) s += powT(mx(k, M), m) * powT(x, k);
    c.eq((sum_powx<mx, ll>(m, x, n)), s, "moduloX"); c.eq((sum_powx<mx, int>(m, x, (int)n)), s, "moduloX int n"); if (n > 1) c.nontrivial_input();
    if (m <= 3 && n <= 6) { int u = (int)r.range(-5, 5), v = 1 + (int)r.below(4); if (u != v) { fr y(u, v), t(0); for (ll k = 1; k <= n; k++) t += powT(fr(k), m) * powT(y, k); c.eq((sum_powx<fr, ll>(m, y, n)), t, "fraction"); } }
}
UNIT(sum_sqrt, 4000, 100000, "sums over floor(n/k) of random functions, every n from 0 and beyond") {
    auto& r = c.rng; ll n = c.index < 1500 ? (ll)c.index - 3 : (ll)r.below(20000); if (c.index % 4 == 3) { ll q = (ll)r.below(140); n = q * q + (ll)r.below(3) - 1; } uint64_t s1 = r.u64(), s2 = r.u64(); int M = r.pick({2, 12, 97, 1000000007}); c.input("n=%lld M=%d", (LL)n, M);
    mx id(1, M), e0 = id - id; std::vector<mx> f, sf, g; mx acc = e0; ll top = std::max<ll>(n, 0); for (ll i = 0; i <= top; i++) { f.push_back(castOf(id, ll(vm::mix64(s1 + i) >> 33))); g.push_back(castOf(id, ll(vm::mix64(s2 + i) >> 33))); if (i) acc += f[i]; sf.push_back(acc); }
    auto h = [&](ll k, ll m) { return castOf(id, ll(vm::mix64(s1 ^ (uint64_t(m) << 20)) >> 33)) * f.at(k); }; auto sh = [&](ll k, ll m) { if (m < 1) c.fail("sf(n,m) argument", "m=" + vm::str(m)); return castOf(id, ll(vm::mix64(s1 ^ (uint64_t(m) << 20)) >> 33)) * sf.at(k); };
    mx a = e0, b = e0, d = e0; for (ll k = 1; k <= n; k++) a += g[n / k], b += f[k] * g[n / k], d += h(k, n / k);
    auto F = [&](ll k) { return f.at(k); }; auto SF = [&](ll k) { return sf.at(k); }; auto G = [&](ll k) { if (k < 1) c.fail("g argument", vm::str(k)); return g.at(k); };
    c.eq((sum_sqrt<mx, ll>(G, n, e0)), a, "sum_sqrt"); c.eq((sum_sqrt2m<mx, ll>(SF, G, n, e0)), b, "sum_sqrt2m(sf,g)"); c.eq((sum_sqrt2m<mx, ll>(F, SF, G, n, e0)), b, "sum_sqrt2m(f,sf,g)"); c.eq((sum_sqrt2<mx, ll>(sh, n, e0)), d, "sum_sqrt2");
    c.eq((sum_sqrt<mx, int>(G, (int)n, e0)), a, "sum_sqrt int"); if (n >= 0) c.eq((sum_sqrt<mx, uint64_t>(G, (uint64_t)n, e0)), a, "sum_sqrt uint64");
    { ll x = r.range(-30, 30), y = r.range(-30, 60); ll w = 0; for (ll k = x; k <= y; k++) w += k * k * k - 5; c.eq((altruct::math::sum<ll, ll>([](ll k) { return k * k * k - 5; }, x, y)), w, "sum"); uint32_t u = (uint32_t)r.below(5), v = (uint32_t)r.below(50); uint64_t z = 0; for (uint32_t k = u; k <= v; k++) z += k + 1; c.eq((altruct::math::sum<uint64_t, uint32_t>([](uint32_t k) { return uint64_t(k) + 1; }, u, v)), z, "sum unsigned"); }
    { ll t0 = 0, t1 = 0, t2 = 0; for (ll k = 1; k <= n; k++) { ll q = n / k; t0 += q; t1 += k * q; if (n < 10000) t2 += k * k * q; } c.eq((sequences::sum_sigma0<ll, ll>(n)), t0, "sum_sigma0"); c.eq((sequences::sum_sigma1<ll, ll>(n)), t1, "sum_sigma1"); if (n < 10000) c.eq((sequences::sum_sigma2<ll, ll>(n)), t2, "sum_sigma2"); c.eq((sequences::sum_sigma1<mc, ll>(n)), md(t1, mc(1)), "sum_sigma1 mod"); c.eq((sequences::sum_sigma0<ms, int>((int)n)), md(t0, ms(1)), "sum_sigma0 mod"); }
    if (n > 3) c.nontrivial_input();
}
UNIT(figurate, 3000, 100000, "figurate and elementary sequences against counting sums") {
    namespace S = sequences; auto& r = c.rng; ll n = c.index < 1000 ? (ll)c.index : (ll)r.below(300000); if (c.index % 3 == 1) n = (ll)r.below(1500); c.input("n=%lld", (LL)n);
    i128 tri = (i128)n * (n + 1) / 2, tet = 0, pyr = 0, oct = 0, dod = 0, ico = 0;
    auto C = [](i128 n, int k) { i128 v = 1; for (int i = 0; i < k; i++) v *= n - i; for (int i = 2; i <= k; i++) v /= i; return v; };
    if (n < 2000) { for (ll k = 1; k <= n; k++) tet += (i128)k * (k + 1) / 2, pyr += (i128)k * k; } else tet = C(n + 2, 3), pyr = C(n + 1, 3) + C(n + 2, 3);
    // octahedral = pyr(n)+pyr(n-1); dodecahedral = C(3n,3); icosahedral from the first terms 0,1,12,48 by finite differences
    oct = pyr * 2 - (i128)n * n; dod = n ? C(3 * (i128)n, 3) : 0; ico = C(n, 1) + 10 * C(n, 2) + 15 * C(n, 3);
#define CK(f, w) c.eq((S::f<i128, ll>(n)), i128(w), #f " int128"); c.eq((S::f<mc, ll>(n)), md(w, mc(1)), #f " mod"); c.eq((S::f<ms, int>((int)n)), md(w, ms(1)), #f " mod 10007"); if (n < 1000000) { c.eq((S::f<ll, ll>(n)), ll(w), #f " int64"); } if (n <= 500) c.eq((S::f<int, int>((int)n)), int(w), #f " int");
    CK(delta, n == 0) CK(dirichlet_id, n == 1) CK(zero, 0) CK(one, 1) CK(identity, n) CK(square, (i128)n * n) CK(triangular, tri) CK(tetrahedral, tet) CK(pyramidal, pyr) CK(octahedral, oct)
    if (n <= 40000) { CK(cube, (i128)n * n * n) CK(dodecahedral, dod) CK(icosahedral, ico) }
    if (n > 2) c.nontrivial(n);
}
template<typename T> void ranges1(vm::Ctx& c, size_t n, T id, std::function<T()> any, ll P) {
    T e0 = id - id; auto& r = c.rng; std::vector<T> w(n, e0), v;
    auto same = [&](const std::vector<T>& g, const char* tag) { c.eq(g, w, tag); };
    // guard elements around the written range
    auto guarded = [&](const std::vector<T>& init, auto f) { T ga = any(), gb = any(); std::vector<T> b; b.push_back(ga); b.insert(b.end(), init.begin(), init.end()); b.push_back(gb); f(b.begin() + 1, b.end() - 1); c.ok(b.front() == ga && b.back() == gb, "elements outside the range are untouched"); return std::vector<T>(b.begin() + 1, b.end() - 1); };
    std::vector<T> z(n, e0);
    { T s = any(), b = any(); for (size_t i = 0; i < n; i++) w[i] = i ? w[i - 1] + s : e0; same(range<T>(n, s), "range"); same(guarded(z, [&](auto x, auto y) { altruct::math::range(x, y, s); }), "range in place"); for (size_t i = 0; i < n; i++) w[i] = i ? w[i - 1] * b : id; same(powers<T>(n, b), "powers"); same(guarded(z, [&](auto x, auto y) { powers(x, y, b); }), "powers in place"); }
    { for (size_t i = 0; i < n; i++) w[i] = i ? w[i - 1] * castOf(id, (ll)i) : id; same(make_factorials<T>(n, id), "factorials"); same(guarded(z, [&](auto x, auto y) { factorials(x, y, id); }), "factorials in place");
      if ((ll)n <= P) { auto fac = w; for (auto& x : w) x = id / x; same(make_inv_factorials<T>(n, id), "inv_factorials"); size_t k = n ? r.below(n) : 0; same(make_inv_factorials<T>(n, n ? fac[k] : id, k), "inv_factorials from k!"); same(guarded(z, [&](auto x, auto y) { inv_factorials(x, y, id); }), "inv_factorials in place");
        auto inf = w; for (size_t i = 0; i < n; i++) w[i] = i ? id / castOf(id, (ll)i) : e0; same(make_inverses<T>(n, id), "inverses"); same(guarded(z, [&](auto x, auto y) { inverses(x, y, id); }), "inverses in place"); same(guarded(inf, [&](auto x, auto y) { inverses_from_ifact(x, y, id); }), "inverses_from_ifact"); } }
    v.clear(); for (size_t i = 0; i < n; i++) v.push_back(any());
    { int e = (int)r.below(9); for (size_t i = 0; i < n; i++) { w[i] = id; for (int j = 0; j < e; j++) w[i] = w[i] * v[i]; } same(guarded(v, [&](auto x, auto y) { power(x, y, e); }), "power"); }
    { auto u = v; if (n && r.coin()) u[r.below(n)] = e0; for (size_t i = 0; i < n; i++) w[i] = u[i] == e0 ? e0 : id / u[i]; same(guarded(u, [&](auto x, auto y) { invert(x, y, id); }), "invert"); for (auto& x : u) if (x == e0) x = id; for (size_t i = 0; i < n; i++) w[i] = id / u[i]; same(guarded(u, [&](auto x, auto y) { invert_field(x, y, id); }), "invert_field"); }
    for (size_t i = 0; i < n; i++) w[i] = e0 - v[i]; same(guarded(v, [&](auto x, auto y) { altruct::math::negate(x, y); }), "negate");
    for (size_t i = 0; i < n; i++) w[i] = i % 2 ? e0 - v[i] : v[i]; same(guarded(v, [&](auto x, auto y) { alternate(x, y); }), "alternate");
    for (size_t i = 0; i < n; i++) w[i] = i ? w[i - 1] + v[i] : v[i]; same(guarded(v, [&](auto x, auto y) { altruct::math::accumulate(x, y); }), "accumulate"); auto acc = w; w = v; same(guarded(acc, [&](auto x, auto y) { differentiate(x, y); }), "differentiate undoes accumulate");
    for (size_t i = 0; i < n; i++) w[i] = i ? v[i] - v[i - 1] : v[i]; same(guarded(v, [&](auto x, auto y) { differentiate(x, y); }), "differentiate");
    std::deque<T> dq(v.begin(), v.end()); altruct::math::accumulate(dq.begin(), dq.end()); w = acc; same(std::vector<T>(dq.begin(), dq.end()), "accumulate over deque");
    T s = e0, p = id; for (auto& x : v) s = s + x, p = p * x; c.eq(reduce_sum(v, e0), s, "reduce_sum"); c.eq(reduce_product(v, id), p, "reduce_product");
    if (n > 2) c.nontrivial_input();
}
UNIT(ranges, 6000, 200000, "all range generators and in-place operations for lengths from 0, guarded on both sides") {
    auto& r = c.rng; size_t n = c.index < 90 ? c.index / 3 : r.coin(1, 20) ? r.below(c.thorough ? 1500 : 300) : r.below(40);
    switch (c.index % 3) {
    case 0: { int P = r.pick({2, 7, 17, 101, 1000000007}); c.input("moduloX P=%d n=%zu", P, n); ranges1<mx>(c, n, mx(1, P), [&] { return mx(1 + (int)r.below(P - 1), P); }, P); break; }
    case 1: c.input("mod 1e9+7 n=%zu", n); ranges1<mc>(c, n, mc(1), [&] { return mc(1 + (int)r.below(1000000006)); }, 1000000007); break;
    default: n %= 14; c.input("fraction n=%zu", n); { ll p0 = 0; (void)p0; std::vector<fr> pool{fr(1), fr(-1), fr(2), fr(1, 2), fr(-3, 2)}; ranges1<fr>(c, n, fr(1), [&] { return r.pick(pool); }, 20); } }
}
UNIT(ranges_int, 3000, 50000, "integer tables filled right up to the type limit: progressions, powers, factorials, prefix sums without overflow") {
    auto& r = c.rng; c.input("");
    auto go = [&](auto z) { typedef decltype(z) T; i128 hi = (i128)std::numeric_limits<T>::max(), lo = (i128)std::numeric_limits<T>::min();
        { T b = (T)r.range(2, 9); if (lo < 0 && r.coin()) b = T(0) - b; std::vector<T> w; for (i128 x = 1; x >= lo && x <= hi; x *= b) w.push_back((T)x); c.eq(powers<T>(w.size(), b), w, "powers"); }
        { std::vector<T> w; i128 x = 1; for (int i = 1; x <= hi; x *= i++) w.push_back((T)x); c.eq(make_factorials<T>(w.size()), w, "factorials"); }
        { int n = 1 + (int)r.below(20); T s = T(hi / n); std::vector<T> w; for (int i = 0; i <= n; i++) w.push_back(T((i128)s * i)); c.eq(range<T>(w.size(), s), w, "range"); }
        { std::vector<T> v; int n = (int)r.below(6); for (int i = 0; i < n; i++) v.push_back(r.coin() ? T(r.below(3)) : r.coin() ? T(hi) : T(r.u64())); i128 mn = hi, mxv = lo < 0 ? -hi : 0; for (T x : v) { if (lo < 0 && x == std::numeric_limits<T>::min()) return; mn = std::min<i128>(mn, x); mxv = std::max<i128>(mxv, x); } c.eq(reduce_min(v), T(mn), "reduce_min"); c.eq(reduce_max(v), T(mxv), "reduce_max"); c.eq(reduce_max(std::list<T>(v.begin(), v.end())), T(mxv), "reduce_max list"); }
        { std::vector<T> v; for (int i = (int)r.below(9); i-- > 0;) v.push_back(T(r.below(6))); std::sort(v.begin(), v.end()); T m = 0; while (std::count(v.begin(), v.end(), m)) m++; c.eq(reduce_mex(v), m, "reduce_mex sorted, repeated elements"); c.eq(reduce_mex(std::set<T>(v.begin(), v.end())), m, "reduce_mex set"); c.eq(reduce_mex(std::multiset<T>(v.begin(), v.end())), m, "reduce_mex multiset"); T st = T(r.below(4)), q = st; while (std::count(v.begin(), v.end(), q)) q++; c.eq(reduce_mex(v, st), q, "reduce_mex from start"); } };
    go(int()); go(ll()); go(LL()); go(uint32_t()); go(uint64_t()); c.nontrivial(c.index);
    std::vector<std::string> ss{"a", "bc", "", "d"}; c.eq(altruct::math::reduce(ss, [](const std::string& a, const std::string& b) { return a + b; }, std::string("x")), std::string("xabcd"), "reduce keeps order");
}
UNIT(sum_limits, 2000, 30000, "sums over ranges touching the ends of the index type, integer power sums up to the largest representable value, unit functions at multiples of a modulus") {
    auto& r = c.rng; c.input("");
    auto ends = [&](auto z) { typedef decltype(z) I; I hi = std::numeric_limits<I>::max(), lo = std::numeric_limits<I>::min(); I w = (I)r.below(9), b = I(hi - (I)r.below(3)), a = I(b - w); auto at = [](I k) { return i128(k) * 3 + 1; }; auto want = [&](I a, I b) { i128 s = 0; for (i128 k = a; k <= (i128)b; k++) s += k * 3 + 1; return s; }; c.eq((altruct::math::sum<i128, I>(at, a, b)), want(a, b), "sum up to the largest index"); a = I(lo + (I)r.below(3)); b = I(a + w); c.eq((altruct::math::sum<i128, I>(at, a, b)), want(a, b), "sum from the smallest index"); c.eq((altruct::math::sum<i128, I>(at, hi, lo)), i128(0), "empty sum"); i128 e = 7; c.eq((altruct::math::sum<i128, I>(at, b, a, e)), w ? e : e + want(a, a), "sum added to a given value"); };
    ends(int()); ends(ll()); ends(LL()); ends(uint32_t()); ends(uint64_t());
    auto pw = [&](auto z, auto n0, auto n1, auto n2, auto n3) { typedef decltype(z) T; i128 lim[4] = {(i128)n0, (i128)n1, (i128)n2, (i128)n3}; for (int p = 0; p < 4; p++) { i128 n = r.coin() ? lim[p] - (i128)r.below(5) : (i128)r.below((uint64_t)lim[p]) + 1; i128 w = p == 0 ? n : p == 1 ? n * (n + 1) / 2 : p == 2 ? n * (n + 1) / 2 * (2 * n + 1) / 3 : (n * (n + 1) / 2) * (n * (n + 1) / 2); c.note(" p=" + vm::S(p) + " n=" + vm::S((ll)n)); c.eq((i128)sum_pow<T, T>(p, (T)n), w, "integer sum_pow at the limit"); } };
    pw(int(), 2147483647, 46340, 1023, 303); pw(ll(), INT64_MAX, 3037000499ll, 1664510ll, 77935ll);
    { typedef modulo<int, 101> m1; typedef modulo<int, 2> m2; typedef modulo<int64_t, 1000000007> m3; ll k = (ll)r.below(2000) - 1000; for (int d = -1; d <= 2; d++) { auto go = [&](auto t, ll M) { typedef decltype(t) T; ll n = k * M + d; c.note(" n=" + vm::S(n) + " M=" + vm::S(M)); c.eq((sequences::delta<T, ll>(n)), T(n == 0), "delta"); c.eq((sequences::dirichlet_id<T, ll>(n)), T(n == 1), "dirichlet_id"); c.eq((sequences::zero<T, ll>(n)), T(0), "zero"); c.eq((sequences::one<T, ll>(n)), T(1), "one"); T x(int(n % M)); c.eq((sequences::identity<T, ll>(n)), x, "identity"); c.eq((sequences::square<T, ll>(n)), x * x, "square"); c.eq((sequences::cube<T, ll>(n)), x * x * x, "cube"); }; go(m1(), 101); go(m2(), 2); go(m3(), 1000000007); } }
    c.nontrivial(c.index);
}
UNIT(range_defaults, 200, 2000, "range generators with their default arguments, and inverse factorials continued from a given k! (k = 0 and k beyond the table included)") {
    auto& r = c.rng; int n = (int)r.below(30), P = r.pick({31, 101, 10007, 1000000007}); c.input("n=%d P=%d", n, P); mx one(1, P); typedef std::vector<mx> V; auto S = [&](ll v) { return mx((int)(v % P), P); };
    { std::vector<ll> v(n, 7); range(v.begin(), v.end()); for (int i = 0; i < n; i++) c.eq(v[i], (ll)i, "range"); std::list<int> l(n, 3); range(l.begin(), l.end()); int i = 0; for (int x : l) c.eq(x, i++, "range list"); c.eq(range<ll>(n), v, "range vector"); std::vector<mc> u(n); range(u.begin(), u.end()); for (int j = 0; j < n; j++) c.eq(u[j], mc(j), "range modulo"); factorials(u.begin(), u.end()); mc f(1); for (int j = 0; j < n; j++) { if (j) f *= mc(j); c.eq(u[j], f, "factorials"); } inv_factorials(u.begin(), u.end()); f = mc(1); for (int j = 0; j < n; j++) { if (j) f *= mc(j); c.eq(u[j] * f, mc(1), "inv_factorials"); } inverses(u.begin(), u.end()); for (int j = 1; j < n; j++) c.eq(u[j] * mc(j), mc(1), "inverses"); if (n) c.eq(u[0], mc(0), "inverse of 0"); for (int j = 0; j < n; j++) u[j] = mc(r.coin(1, 3) ? 0 : 1 + (int)r.below(1000)); auto w = u; invert(u.begin(), u.end()); for (int j = 0; j < n; j++) c.eq(u[j] * w[j], w[j] == mc(0) ? mc(0) : mc(1), "invert"); for (auto& x : w) if (x == mc(0)) x = mc(5); u = w; if (n) invert_field(u.begin(), u.end()); for (int j = 0; j < n; j++) c.eq(u[j] * w[j], mc(1), "invert_field"); c.eq(make_inverses<mc>(n), make_inverses<mc>(n, mc(1)), "make_inverses"); c.eq(make_factorials<mc>(n), make_factorials<mc>(n, mc(1)), "make_factorials"); c.eq(make_inv_factorials<mc>(n), make_inv_factorials<mc>(n, mc(1)), "make_inv_factorials"); }
    if (n >= 1) { int k = (int)r.below(n); mx f = one; for (int i = 1; i <= k; i++) f *= S(i); V v(n, S(9)); inv_factorials(v.begin(), v.end(), f, k); c.eq(v, make_inv_factorials<mx>(n, f, k), "make_inv_factorials(k)"); mx g = one; for (int i = 0; i < n; i++) { if (i) g *= S(i); c.eq(v[i] * g, one, "inv_factorials from k!"); } }
    if (n > 2) c.nontrivial_input();
}

UNIT(sum_pow_far, 2000, 40000, "power sums modulo a prime for bounds up to the limit of the bound's type: closed form depends on the bound modulo M only, small residues summed term by term") {
    auto& r = c.rng; int p = (int)r.below(12); int M = r.pick({101, 1009, 10007}); ll n = r.edgy(1, INT64_MAX); if (r.coin()) n = INT64_MAX - (ll)r.below(5); int ni = (int)(INT_MAX - r.below(1000)); c.input("p=%d n=%lld ni=%d M=%d", p, (LL)n, ni, M); if (M <= p + 1) return;
    auto ref = [&](ll x) { ll s = 0; for (ll k = 1; k <= x % M; k++) { ll t = 1; for (int i = 0; i < p; i++) t = t * k % M; s = (s + t) % M; } return (int)s; };
    // the polynomial in n, hence periodic in M
    c.eq((sum_pow<mx, ll>(p, n, mx(1, M))).v, ref(n), "moduloX far"); c.eq((sum_pow<mx, int>(p, ni, mx(1, M))).v, ref(ni), "moduloX int far"); c.eq((sum_pow<ml, ll>(p, n, ml(1, M))).v, (ll)ref(n), "moduloX int64 far"); c.nontrivial_input();
}
