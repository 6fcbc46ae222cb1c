// C12: formal power series
#include "vm.h"
#include "altruct/structure/math/series.h"
#include "altruct/algorithm/math/polynom_mod.h"
#include "altruct/structure/math/fraction.h"
#include "str_math.h"
using namespace altruct::math;
typedef int64_t ll; typedef moduloX<int> mx; typedef moduloX<int64_t> ml; typedef modulo<int, 1009> ms; typedef modulo<int, 1000000007> mc; typedef fraction<ll> fr; typedef modulo<int, 998244353, modulo_storage::CONSTANT> mci;

template<typename T> using V = std::vector<T>;
template<typename T> V<T> mulN(const V<T>& a, const V<T>& b, int N, const T& z) { V<T> r(N, z); for (int i = 0; i < N; i++) if (!(a[i] == z)) for (int j = 0; i + j < N; j++) r[i + j] = r[i + j] + a[i] * b[j]; return r; }
template<typename T> V<T> powN(const V<T>& a, ll e, int N, const T& one) { T z = one - one; V<T> r(N, z), x = a; r[0] = one; for (; e > 0; e /= 2) { if (e & 1) r = mulN(r, x, N, z); x = mulN(x, x, N, z); } return r; }
template<typename T> V<T> compN(const V<T>& a, const V<T>& b, int N, const T& z) { V<T> r(N, z); for (int i = N; i-- > 0;) { r = mulN(r, b, N, z); r[0] = r[0] + a[i]; } return r; }
template<typename S, typename T> void same(vm::Ctx& c, const S& s, const V<T>& w, const char* tag) {
    c.checks(); int N = (int)w.size(); if (s.N() != N || s.size() != N) c.fail(tag, std::string(tag) + ": order is " + vm::S(s.N()) + ", want " + vm::S(N));
    for (int i = 0; i < N; i++) if (!(s[i] == w[i])) c.fail(tag, std::string(tag) + ": coefficient " + vm::S(i) + " is " + vm::S(s[i]) + ", want " + vm::S(w[i]));
    { const T &zc = s.p.ZERO_COEFF; if (N > 0 && !(castOf(zc, -1) == castOf(w[0], -1) && castOf(s.id_coeff(), 5) == castOf(w[0], 5))) c.fail(tag, std::string(tag) + ": the result is over another ring"); }
    for (int i = N; i < s.p.size(); i++) if (!(s[i] == s.p.ZERO_COEFF)) c.fail(tag, std::string(tag) + ": coefficient " + vm::S(i) + " beyond the order is " + vm::S(s[i]));
}
// one: identity; any(): random; chr: characteristic (0 = none); `deep`: also operations dividing by factorials
template<typename S, typename T> void laws(vm::Ctx& c, int N, const T& one, std::function<T()> any, std::function<T()> unit, ll chr, bool small) {
    auto& r = c.rng; T z = one - one; auto K = [&](ll v) { return castOf(one, v); };
    auto gen = [&]() { V<T> v; int k = (int)r.below(6); for (int i = 0; i < N; i++) v.push_back(k == 0 && r.coin(2, 3) ? z : any()); if (k == 1) for (int i = 0; i < N && i < (int)r.below(4); i++) v[i] = z; if (k == 2) for (int i = 1 + (int)r.below(N); i < N; i++) v[i] = z; return v; };
    auto mk = [&](const V<T>& v) { switch (r.below(3)) { case 0: return S(v); case 1: return S(polynom<T>(v), N); default: return S(v.begin(), v.end()); } };
    V<T> a = gen(), b = gen(), w(N, z); S s = mk(a), t = mk(b); bool fieldN = chr == 0 || chr >= N;
    same(c, s, a, "construct"); for (int i = 0; i < N; i++) w[i] = a[i] + b[i]; same(c, s + t, w, "+"); { S x = s; x += t; same(c, x, w, "+="); x -= t; same(c, x, a, "-="); x += x; V<T> a2 = a; for (auto& y : a2) y = y + y; same(c, x, a2, "self +="); }
    for (int i = 0; i < N; i++) w[i] = a[i] - b[i]; same(c, s - t, w, "-"); for (int i = 0; i < N; i++) w[i] = z - a[i]; same(c, -s, w, "negate");
    w = mulN(a, b, N, z); same(c, s * t, w, "*"); { S x = s; x *= t; same(c, x, w, "*="); x = s; x *= x; same(c, x, mulN(a, a, N, z), "self *="); x = t; S y(x); same(c, y, b, "copy"); S u(std::move(y)); same(c, u, b, "move"); x = s; x.swap(u); same(c, x, b, "swap"); same(c, u, a, "swap"); }
    { T k = any(), d = unit(); for (int i = 0; i < N; i++) w[i] = a[i] * k; same(c, s * k, w, "scalar *"); for (int i = 0; i < N; i++) w[i] = a[i] / d; same(c, s / d, w, "scalar /"); T y = one; for (int i = 0; i < N; i++) w[i] = a[i] * y, y = y * k; same(c, s.sub_mul(k), w, "s(kx)"); }
    { V<T> u = a; u[0] = r.coin() ? one : unit(); S x = mk(u); auto v = x.inverse(); V<T> vi(N, z); for (int i = 0; i < N; i++) vi[i] = v[i]; w.assign(N, z); w[0] = one; c.eq(mulN(u, vi, N, z), w, "s * 1/s = 1"); same(c, v, vi, "inverse"); same(c, t / x, mulN(b, vi, N, z), "/"); S q = t; q /= x; same(c, q * x, b, "(t/s)*s = t"); q = x; q /= q; same(c, q, w, "s / s = 1"); }
    for (int i = 0; i < N; i++) w[i] = i + 1 < N ? a[i + 1] * K(i + 1) : z; same(c, s.derivative(), w, "derivative");
    if (fieldN) { T k = any(); for (int i = 0; i < N; i++) w[i] = i ? a[i - 1] / K(i) : k; same(c, s.integral(k), w, "integral"); w[0] = z; same(c, s.integral(), w, "integral from 0"); }
    for (int i = 0; i < N; i++) w[i] = a[i] * b[i]; same(c, s.pointwise_mul(t), w, "pointwise *");
    { V<T> u = b; for (auto& x : u) if (r.coin(1, 5)) x = z; else x = unit(); for (int i = 0; i < N; i++) w[i] = u[i] == z ? z : one / u[i]; same(c, mk(u).template pointwise_inv<false>(), w, "pointwise inverse, zeros kept"); for (int i = 0; i < N; i++) w[i] = a[i] * w[i]; same(c, s.template pointwise_div<false>(mk(u)), w, "pointwise /"); for (auto& x : u) x = unit(); for (int i = 0; i < N; i++) w[i] = one / u[i]; same(c, mk(u).template pointwise_inv<true>(), w, "pointwise field inverse"); }
    for (int l : {(int)r.range(-N - 3, N + 3), N, -N, N - 1, 1 - N}) { for (int i = 0; i < N; i++) w[i] = 0 <= i - l && i - l < N ? a[i - l] : z; c.note(" l=" + vm::S(l)); same(c, s.shift(l), w, "shift"); }
    { int k = 1 + (int)r.below(r.coin() ? 4 : N + 3); w.assign(N, z); for (int i = 0; i * (ll)k < N; i++) w[i * k] = a[i]; same(c, s.sub_pow(k), w, "s(x^k)"); w.assign(N, z); same(c, s.sub_pow(0), w, "s(x^k), k = 0"); same(c, s.sub_pow(-1 - (int)r.below(N + 2)), w, "s(x^k), k < 0"); }
    { int k = (int)r.below(N); S x = s; T f = a[k]; for (int i = 0; i < N; i++) w[i] = a[i] * f; x *= x[k]; same(c, x, w, "scaled by its own coefficient"); V<T> u = a; u[k] = unit(); x = mk(u); f = u[k]; for (int i = 0; i < N; i++) w[i] = u[i] / f; x /= x[k]; same(c, x, w, "divided by its own coefficient"); }
    { V<T> u = b; if (r.coin(3, 4)) u[0] = z; same(c, s.composition(mk(u)), compN(a, u, N, z), "composition"); if (small) same(c, s(mk(u)), compN(a, u, N, z), "s(t)"); }
    { V<T> u = b; u[0] = z; w.assign(N, z); if (N > 1) { u[1] = z; same(c, mk(u).reversion(), w, "reversion without a linear term"); u[0] = unit(); u[1] = unit(); same(c, mk(u).reversion(), w, "reversion with a constant term"); u[0] = z; u[1] = unit(); w[1] = one; S x = mk(u); S y = x.reversion(); V<T> v(N, z); for (int i = 0; i < N; i++) v[i] = y[i]; same(c, y, v, "reversion"); c.eq(compN(u, v, N, z), w, "s(reversion) = x"); c.eq(compN(v, u, N, z), w, "reversion(s) = x"); } }
    if (fieldN) {
        V<T> u = a; u[0] = one; S x = mk(u); S l = x.ln(); V<T> lv(N, z), dl(N, z); for (int i = 0; i < N; i++) lv[i] = l[i]; same(c, l, lv, "ln"); c.eq(lv[0], z, "ln constant term");
        for (int i = 0; i + 1 < N; i++) dl[i] = lv[i + 1] * K(i + 1); auto p = mulN(dl, u, N, z); for (int i = 0; i + 1 < N; i++) c.eq(p[i], u[i + 1] * K(i + 1), "s * ln(s)' = s'"); same(c, l.exp(), u, "exp(ln(s))");
        u = b; u[0] = z; x = mk(u); S e = x.exp(); V<T> ev(N, z), du(N, z); for (int i = 0; i < N; i++) ev[i] = e[i]; same(c, e, ev, "exp"); c.eq(ev[0], one, "exp constant term"); for (int i = 0; i + 1 < N; i++) du[i] = u[i + 1] * K(i + 1); p = mulN(du, ev, N, z); for (int i = 0; i + 1 < N; i++) c.eq(p[i], ev[i + 1] * K(i + 1), "exp(s)' = exp(s) s'"); same(c, e.ln(), u, "ln(exp(s))");
        T k = any(), f = one; w.assign(N, one); for (int i = 1; i < N; i++) w[i] = w[i - 1] * k / K(i); S ex = S::exp(k, N); same(c, ex, w, "exp(kx)");
        f = one; for (int i = 0; i < N; i++) { if (i) f = f * K(i); w[i] = a[i] / f; } same(c, s.make_exponential(), w, "make_exponential"); same(c, s.make_exponential().make_ordinary(), a, "make_ordinary");
    }
    { int e = (int)r.below(small ? 4 : 12); S p = s.pow(e); same(c, p, powN(a, e, N, one), "pow"); if (fieldN && !small) { ll big = r.pick<ll>({0, 1, 2, 3, 5, 199, 200, 201, 1000, 123456, (1ll << 33) + 5, (1ll << 62) + 12345}); if (chr && chr < 200 && big > 5) big = 5; V<T> u = a; int k = (int)r.below(5); if (k == 0) u.assign(N, z); else if (k == 1) u[0] = z; else if (k == 2) u[0] = one; else if (k == 3) for (int i = 0; i < N && i < 3; i++) u[i] = z; if (u[0] == z) { for (int i = 0; i < N; i++) if (!(u[i] == z)) { u[i] = unit(); break; } } else u[0] = k == 2 ? one : unit(); S x = mk(u); c.note(" e=" + vm::S(big) + " u=" + vm::S(u)); auto want = powN(u, big, N, one); same(c, x.pow(big), want, "pow large exponent"); if (big) same(c, x.pow(big, 0), want, "pow threshold 0"); same(c, x.pow(big, 3), want, "pow threshold 3"); } }
    { auto f = [&](int n) { return K((ll)n * n + 1); }; S x = S::of(f, N); for (int i = 0; i < N; i++) w[i] = f(i); same(c, x, w, "of"); }
    { S x = s; w = a; int M = (int)r.below(N + 1); (void)M; same(c, identityOf(s), powN(a, 0, N, one), "identity"); w.assign(N, z); same(c, zeroOf(s), w, "zero"); w[0] = K(5); same(c, castOf(s, 5), w, "cast"); c.ok((s == t) == (a == b) && (s != t) == !(a == b), "=="); bool lt = s.p < t.p, gt = t.p < s.p; c.ok((s < t) == lt && (s > t) == gt && (s <= t) == !gt && (s >= t) == !lt && !(lt && gt) && (lt || gt || a == b), "order"); }
    if (N > 2) c.nontrivial_input();
}
template<typename S, typename T> void modcase(vm::Ctx& c, int N, T one, ll P) {
    auto& r = c.rng; laws<S, T>(c, N, one, [=, &r] { return castOf(one, (ll)r.below(P)); }, [=, &r] { return castOf(one, 1 + (ll)r.below(P - 1)); }, P, false);
}
template<int N> void constant(vm::Ctx& c) { int k = (int)c.rng.below(3); if (k == 0) { int P = c.rng.pick({2, 3, 7, 101, 1000000007}); c.input("constant order N=%d moduloX P=%d", N, P); typedef series<mx, N> S; laws<series<ms, N>, ms>(c, N, ms(1), [&] { return ms((int)c.rng.below(1009)); }, [&] { return ms(1 + (int)c.rng.below(1008)); }, 1009, false); (void)sizeof(S); } else { c.input("constant order N=%d modulo 1e9+7", N); modcase<series<mc, N>, mc>(c, N, mc(1), 1000000007); } }
UNIT(constant_order, 600, 20000, "all operations with compile-time order 1,2,3,4,5,7,8,9,13,16,17,31") { switch (c.index % 12) { case 0: constant<1>(c); break; case 1: constant<2>(c); break; case 2: constant<3>(c); break; case 3: constant<4>(c); break; case 4: constant<5>(c); break; case 5: constant<7>(c); break; case 6: constant<8>(c); break; case 7: constant<9>(c); break; case 8: constant<13>(c); break; case 9: constant<16>(c); break; case 10: constant<17>(c); break; default: constant<31>(c); } }
UNIT(instance_order, 3000, 60000, "all operations with per-instance order 1..40 (larger now and then), characteristic from 2 up, per-instance modulus") {
    auto& r = c.rng; int N = c.index < 300 ? 1 + (int)c.index / 6 : r.coin(1, 40) ? 1 + (int)r.below(150) : 1 + (int)r.below(40); 
    switch (r.below(4)) { case 0: { int P = r.pick({2, 3, 5, 13, 41, 1009}); c.input("instance order N=%d moduloX P=%d", N, P); modcase<seriesX<mx>, mx>(c, N, mx(1, P), P); break; } case 1: { int P = r.pick({1009, 1000000007}); c.input("instance order N=%d moduloX P=%d", N, P); modcase<seriesX<mx>, mx>(c, N, mx(1, P), P); break; } case 2: { ll P = r.pick<ll>({4294967311ll, 1000000007ll}); c.input("instance order N=%d moduloX<int64> P=%lld", N, (long long)P); modcase<seriesX<ml>, ml>(c, N, ml(1, P), P); break; } default: c.input("instance order N=%d modulo 1009", N); modcase<seriesX<ms>, ms>(c, N, ms(1), 1009); }
}
UNIT(orders_travel, 600, 10000, "per-instance orders: swap, copy, move, assignment, resize and containers of series keep each series' own order and ring") {
    auto& r = c.rng; int n = 1 + (int)r.below(12), m = 1 + (int)r.below(12), P = r.pick({2, 101, 1000000007}), Q = r.pick({3, 101, 998244353}); c.input("N=%d mod %d, N=%d mod %d", n, P, m, Q); typedef seriesX<mx> S; typedef V<mx> W; W a, b; for (int i = 0; i < n; i++) a.push_back(mx((int)r.below(P), P)); for (int i = 0; i < m; i++) b.push_back(mx((int)r.below(Q), Q)); S s(a), t(b);
    s.swap(t); same(c, s, b, "swap"); same(c, t, a, "swap"); same(c, s * s, mulN(b, b, m, mx(0, Q)), "product after swap"); same(c, t * t, mulN(a, a, n, mx(0, P)), "product after swap"); S& me = s; s.swap(me); same(c, s, b, "self swap"); S u = s; s = t; same(c, s, a, "assign"); same(c, t, a, "assigned from"); s = std::move(u); same(c, s, b, "move assign"); V<S> v{s, t, s}; std::reverse(v.begin(), v.end()); std::swap(v[0], v[1]); same(c, v[0], a, "in a container"); same(c, v[1], b, "in a container"); same(c, v[2], b, "in a container"); me = s; s = me; same(c, s, b, "self assign");
    int k = 1 + (int)r.below(16); W w = b; w.resize(k, mx(0, Q)); s.resize(k); same(c, s, w, "resize"); same(c, s + s, [&] { W x = w; for (auto& y : x) y += y; return x; }(), "sum after resize"); same(c, S(polynom<mx>(b), k), w, "series of a polynomial at another order"); if (n > 2 && m > 2 && n != m) c.nontrivial_input();
}
UNIT(static_order, 600, 20000, "all operations with the order held in a static member that changes between cases") { typedef series<mc, 77, series_storage::STATIC> S; int N = 1 + (int)c.rng.below(40); S::refN() = N; c.input("static order N=%d", N); modcase<S, mc>(c, N, mc(1), 1000000007); }
UNIT(rational, 400, 6000, "all operations over the rationals, orders 1..5") { auto& r = c.rng; int N = 1 + (int)r.below(4); c.input("rational N=%d", N); std::vector<fr> pool{fr(0), fr(1), fr(-1), fr(2), fr(1, 2)}; laws<seriesX<fr>, fr>(c, N, fr(1), [&] { return r.pick(pool); }, [&] { return r.coin() ? fr(1) : fr(-1); }, 0, true); }
UNIT(find_root, 600, 10000, "Newton iteration: square roots and inverses of series as roots of F(R)=0, every order") {
    auto& r = c.rng; int N = 1 + (int)r.below(60); int P = 998244353; typedef seriesX<mci> S; mci z(0), one(1); V<mci> a; for (int i = 0; i < N; i++) a.push_back(mci((int)r.below(P))); int r0 = 1 + (int)r.below(P - 1); a[0] = mci(r0) * mci(r0); c.input("N=%d r0=%d", N, r0);
    S s = S::find_root(mci(r0), N, [&](const auto& R) { auto A = R; for (int i = 0; i < R.N(); i++) A[i] = a[i]; return (R * R - A) / (R * mci(2)); }); V<mci> v; for (int i = 0; i < N; i++) v.push_back(s[i]); same(c, s, v, "find_root"); c.eq(mulN(v, v, N, z), a, "sqrt squared"); if (N > 2) c.nontrivial_input();
}
UNIT(large_order, 6, 120, "large orders (polynomial products by FFT): inverse, ln, exp identities checked by multiplication mod x^N at sampled coefficients") {
    auto& r = c.rng; int N = 600 + (int)r.below(2500); typedef seriesX<mci> S; V<mci> a; int P = 998244353; for (int i = 0; i < N; i++) a.push_back(mci((int)r.below(P))); a[0] = mci(1); c.input("N=%d", N); S s(a); S l = s.ln(), v = s.inverse(), e = l.exp(); same(c, e, a, "exp(ln s) at large order"); auto conv = [&](const S& x, const S& y, int k) { mci t(0); for (int i = 0; i <= k; i++) t += x[i] * y[k - i]; return t; }; for (int k = 0; k < 60; k++) { int i = k < 3 ? k : k < 6 ? N - k + 2 : (int)r.below(N); c.eq(conv(s, v, i), mci(i == 0), "s * 1/s at large order"); if (i + 1 < N) c.eq(conv(s, l.derivative(), i), s.derivative()[i], "s ln(s)' = s' at large order"); } c.nontrivial_input();
}
