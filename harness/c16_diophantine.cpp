// C16: Pell equations, continued fractions, Farey, decimals, triples, sums of two squares
#include <tuple>
#include "vm.h"
#include "altruct/algorithm/math/pell.h"
#include "altruct/algorithm/math/convergents.h"
#include "altruct/algorithm/math/fractions.h"
#include "altruct/algorithm/math/triples.h"
#include "altruct/algorithm/math/squares_r.h"
#include "altruct/algorithm/math/factorization.h"
#include "str_math.h"
using namespace altruct::math;
namespace altruct { namespace math { template<typename T> std::string str(const triple<T>& t) { return "{" + vm::S(t.a) + "," + vm::S(t.b) + "," + vm::S(t.c) + "}"; } } }
typedef int64_t ll; typedef vm::i128 i128; typedef std::pair<ll, ll> pr; typedef quadraticX<ll> qx; typedef fraction<ll> fr;
template<typename T> using V = std::vector<T>;
static ll ogcd(ll a, ll b) { while (b) { ll t = a % b; a = b; b = t; } return a < 0 ? -a : a; }
static ll isq_(i128 n) { if (n < 0) return -1; ll r = (ll)__builtin_sqrt((double)n); while ((i128)r * r > n) r--; while ((i128)(r + 1) * (r + 1) <= n) r++; return r; }
static bool sqr(i128 n) { ll r = isq_(n); return n >= 0 && (i128)r * r == n; }
static V<std::pair<ll, int>> fac(ll n) { V<std::pair<ll, int>> f; if (n < 0) n = -n; for (ll p = 2; p * p <= n; p++) if (n % p == 0) { int e = 0; while (n % p == 0) n /= p, e++; f.push_back({p, e}); } if (n > 1) f.push_back({n, 1}); return f; }
// every solution with 1 <= y <= ym, x >= 0 of x^2 - D y^2 = N
static V<pr> brute(ll D, ll N, ll ym, ll xm) { V<pr> v; for (ll y = 1; y <= ym; y++) { i128 x2 = (i128)N + (i128)D * y * y; if (xm && x2 > (i128)xm * xm) break; if (sqr(x2)) v.push_back({isq_(x2), y}); } return v; }
static ll nonsquare(vm::Rng& r, int lim) { ll D; do D = 2 + (ll)r.below(lim); while (sqr(D)); return D; }
// fundamental solution of x^2 - D y^2 = 1 by search (bounded)
static pr fund(ll D, ll ymax) { auto v = [&] { for (ll y = 1; y <= ymax; y++) { i128 x2 = 1 + (i128)D * y * y; if (sqr(x2)) return pr(isq_(x2), y); } return pr(0, 0); }(); return v; }
UNIT(pell_unit, 1500, 20000, "x^2 - D y^2 = +-1: minimal solution, solvability and lists against exhaustive search") {
    auto& r = c.rng; ll D = nonsquare(r, c.thorough ? 400 : 150); c.input("D=%lld", (long long)D); pr f = fund(D, 20000); ll x = 0, y = 0; if (!f.first) { int l = pell1<ll>(D, -1, x, y); if (l) { c.eq((i128)x * x - (i128)D * y * y, (i128)-1, "x^2-Dy^2=-1"); c.ok(x > 0 && y > 0, "positive"); } return; }
    int l = pell1<ll>(D, 1, x, y); c.ok(l > 0, "solvable"); c.eq(pr(x, y), f, "minimal solution +1"); auto neg = brute(D, -1, f.second, 0); ll X = 0, Y = 0; int ln = pell1<ll>(D, -1, X, Y); c.eq(ln > 0, !neg.empty(), "solvable -1"); if (ln) c.eq(pr(X, Y), neg[0], "minimal solution -1"); c.eq(l % 2 == 1, !neg.empty(), "period parity");
    { ll a0 = isq_(D), m = 0, d = 1, a = a0; int per = 0; do { m = d * a - m; d = (D - m * m) / d; a = (a0 + m) / d; per++; } while (a != 2 * a0); c.eq(l, per, "period"); }
    ll lim = 300000; int N = r.coin() ? 1 : -1; auto w = brute(D, N, lim, 0); auto tov = [](const V<qx>& v) { V<pr> t; for (auto& q : v) t.push_back({q.a, q.b}); return t; }; if (x < 5000) { c.eq(tov(pell1<ll>(D, N, 0, lim, 0)), w, "list by y"); if (!w.empty()) { size_t k = (size_t)r.below(w.size()); V<pr> h(w.begin(), w.begin() + k + 1), g(w.begin(), w.begin() + k); c.eq(tov(pell1<ll>(D, N, 0, w[k].second, 0)), h, "list up to a solution, by y"); c.eq(tov(pell1<ll>(D, N, w[k].first, 0, 0)), h, "list up to a solution, by x"); if (w[k].second > 1) c.eq(tov(pell1<ll>(D, N, 0, w[k].second - 1, 0)), g, "list below a solution, by y"); if (w[k].first > 1) c.eq(tov(pell1<ll>(D, N, w[k].first - 1, 0, 0)), g, "list below a solution, by x"); } ll xm = (ll)r.below(lim); auto wx = brute(D, N, lim, xm); c.eq(tov(pell1<ll>(D, N, xm, 0, 0)), wx, "list by x"); int k = 1 + (int)r.below(3); auto t = tov(pell1<ll>(D, N, 0, lim, k)); w.resize(std::min<size_t>(w.size(), k)); c.eq(t, w, "first solutions"); c.nontrivial_input(); }
}
UNIT(pell_general, 3000, 40000, "x^2 - D y^2 = N: list within bounds complete, class representatives valid, distinct and covering") {
    auto& r = c.rng; ll D, N; pr f; do { D = nonsquare(r, 80); f = fund(D, 700); } while (!f.first); N = r.range(1, r.coin() ? 30 : 300); if (r.coin(1, 3)) { ll a = r.range(0, 12), b = r.range(0, 8); N = a * a - D * b * b; if (N == 0) N = 1; } if (r.coin()) N = -N; ll ym = 2000, xm = 0; if (r.coin(1, 3)) xm = 1 + (ll)r.below(5000); c.input("D=%lld N=%lld xm=%lld", (long long)D, (long long)N, (long long)xm);
    auto fN = fac(N); auto w = brute(D, N, xm ? 8000 : ym, xm); std::set<pr> got; int zero = 0; for (auto& q : pell<ll>(D, N, fN, xm, xm ? 0 : ym, 0)) { pr t(q.a, q.b); c.eq(q.D(), D, "D"); c.eq((i128)t.first * t.first - (i128)D * t.second * t.second, (i128)N, "satisfies the equation"); c.ok(t.first >= 0 && t.second >= 0, "non-negative"); c.ok(got.insert(t).second, "repeated solution", vm::S(t)); if (t.second == 0) zero++; } for (auto& t : w) c.ok(got.count(t), "missing solution", vm::S(t)); c.eq(got.size(), w.size() + zero, "nothing outside the bounds");
    int k = 1 + (int)r.below(5); auto lst = pell<ll>(D, N, fN, 0, ym, k); c.eq(lst.size(), std::min<size_t>(k, got.size()) * (xm == 0) + (xm ? lst.size() : 0), "count limit"); c.ok(lst.size() <= (size_t)k, "count limit");
    auto eqv = [&](const pr& a, const pr& b) { i128 p = (i128)a.first * b.first - (i128)D * a.second * b.second, q = (i128)a.first * b.second - (i128)a.second * b.first; return p % N == 0 && q % N == 0; }; // ratio is an integer of norm 1 (exact when coordinates are in the same order)
    auto cls = pell<ll>(D, N, fN); for (auto& q : cls) { c.eq((i128)q.a * q.a - (i128)D * q.b * q.b, (i128)N, "representative"); } for (size_t i = 0; i < cls.size(); i++) for (size_t j = 0; j < i; j++) c.ok(!eqv({cls[i].a, cls[i].b}, {cls[j].a, cls[j].b}), "representatives of one class"); for (auto& t : brute(D, N, std::min<ll>(ym, 400), 0)) { int n = 0; for (auto& q : cls) if (eqv({q.a, q.b}, t)) n++; c.eq(n, 1, "class of a solution"); }
    if (N > 1 && N * N < D) { } if (N != 1 && N != -1 && N * N < D) { V<ll> xs, ys; pellS<ll>(D, N, xs, ys); std::set<pr> s; for (size_t i = 0; i < xs.size(); i++) { c.eq((i128)xs[i] * xs[i] - (i128)D * ys[i] * ys[i], (i128)N, "pellS"); c.ok(s.insert({xs[i], ys[i]}).second, "pellS repeated"); } for (auto& t : s) for (auto& u : s) if (t < u) c.ok(!eqv(t, u), "pellS: two of one class"); for (auto& t : brute(D, N, 700, 0)) { int n = 0; for (auto& u : s) if (eqv(t, u)) { n++; c.ok(u.second <= t.second, "pellS minimal"); } c.eq(n, 1, "pellS covers"); } c.event("pellS"); }
    if (!w.empty()) c.nontrivial_input();
}
UNIT(pell_expansion, 2000, 30000, "PQa expansion: recurrences, gcd, norm identity, period, continued by a second call") {
    auto& r = c.rng; ll D = nonsquare(r, 120), Q0, P0; do { Q0 = r.range(1, 60) * (r.coin(1, 4) ? -1 : 1); P0 = r.range(-60, 60); } while ((P0 * P0 - D) % Q0 != 0); c.input("D=%lld P0=%lld Q0=%lld", (long long)D, (long long)P0, (long long)Q0); if (fund(D, 3000).first == 0) return; V<ll> P{P0}, Q{Q0}, a, A, B, G; int l = pell_PQa<ll>(D, P, Q, a, A, B, G); size_t n1 = a.size(); int l2 = pell_PQa<ll>(D, P, Q, a, A, B, G); c.eq(l2, l, "period"); c.eq(a.size(), n1 + l, "one more period"); c.eq(P.size(), a.size() + 1, "P size"); c.eq(Q.size(), a.size() + 1, "Q size"); ll s = isq_(D);
    for (size_t i = 0; i < a.size(); i++) { // a_i = floor((P_i + sqrt D)/Q_i)
        auto below = [&](ll k) { /* k <= (P+sqrt D)/Q */ i128 t = (i128)k * Q[i] - P[i]; return Q[i] > 0 ? t <= s : t > s; }; c.ok(below(a[i]) && !below(a[i] + 1), "floor", "i=" + vm::S(i)); c.eq((i128)P[i + 1], (i128)a[i] * Q[i] - P[i], "P"); c.eq((i128)Q[i + 1] * Q[i], (i128)D - (i128)P[i + 1] * P[i + 1], "Q"); i128 g = (i128)Q0 * A[i] - (i128)P0 * B[i]; c.eq((i128)G[i], g, "G"); c.eq(g * g - (i128)D * B[i] * B[i], (i128)(i % 2 ? 1 : -1) * Q[i + 1] * Q0, "norm"); if (i) c.eq((i128)A[i] * B[i - 1] - (i128)A[i - 1] * B[i], (i128)(i % 2 ? 1 : -1), "determinant"); }
    for (size_t i = n1 - l + 1; i + l < P.size(); i++) { c.eq(P[i + l], P[i], "periodic P"); c.eq(Q[i + l], Q[i], "periodic Q"); } c.nontrivial_input();
}
UNIT(pell_large, 300, 5000, "Pell equations with huge fundamental solutions: returned pairs satisfy the equation exactly (values in 128 bits)") {
    auto& r = c.rng; ll D = nonsquare(r, 60); ll x = 0, y = 0; for (int N : {1, -1}) { c.input("D=%lld N=%d", (long long)D, N); if (pell1<ll>(D, N, x, y)) c.eq((i128)x * x - (i128)D * y * y, (i128)N, "equation"); } c.nontrivial_input();
}
// ---- continued fractions
UNIT(continued_fractions, 6000, 100000, "continued fraction digits, convergents, semiconvergents; best approximations complete") {
    auto& r = c.rng; ll p = r.coin() ? (ll)r.below(3000) : r.edgy(0, INT64_MAX / 4), q = r.coin() ? 1 + (ll)r.below(120) : r.edgy(1, INT64_MAX / 4); c.input("p=%lld q=%lld", (long long)p, (long long)q); auto cf = continued_fraction<ll>(p, q); V<ll> w; { ll x = p, y = q; while (y) { w.push_back(x / y); ll t = x % y; x = y; y = t; } } c.eq(cf, w, "digits"); ll g = (ll)ogcd(p, q); auto cv = convergents<ll>(cf); c.eq(cv.size(), cf.size(), "one convergent per digit"); c.eq(cv.back(), pr(p / g, q / g), "last convergent"); for (size_t i = 0; i < cv.size(); i++) { if (i) { c.eq((i128)cv[i].first * cv[i - 1].second - (i128)cv[i - 1].first * cv[i].second, (i128)(i % 2 ? 1 : -1), "determinant"); } }
    int k = (int)r.below(4); auto sc = convergents<ll>(cf, k); { V<pr> ws; i128 p2 = 0, p1 = 1, q2 = 1, q1 = 0; for (ll a : cf) { ll from = a - std::min<ll>(k, a / 2); for (ll b = from; b <= a; b++) ws.push_back({(ll)(b * p1 + p2), (ll)(b * q1 + q2)}); i128 np = a * p1 + p2, nq = a * q1 + q2; p2 = p1; p1 = np; q2 = q1; q1 = nq; } c.eq(sc, ws, "semiconvergents"); }
    if (p < 3000 && q <= 120 && p <= 40 * q) { auto all = convergents<ll>(cf, INT64_MAX); std::set<pr> s(all.begin(), all.end()); i128 bn = -1, bd = 1; for (ll d = 1; d <= q / g; d++) { for (ll n0 = p * d / q; n0 <= p * d / q + 1; n0++) { i128 e = (i128)n0 * q - (i128)p * d; if (e < 0) e = -e; if (bn < 0 || e * bd < bn * d) { if (d > 1 || n0 == 0 || true) { bn = e; bd = d; if (d > 1) c.ok(s.count({n0, d}), "best approximation missing", vm::S(pr(n0, d))); } } } } c.event("best approximations"); }
    if (cf.size() > 2) c.nontrivial_input();
}
UNIT(sqrt_convergents, 4000, 80000, "convergent of sqrt(S) past denominator Q: first convergent with a larger denominator, by exact comparison") {
    auto& r = c.rng; ll S = r.coin() ? (ll)r.below(300) : r.edgy(0, 1000000000), Q = r.coin() ? (ll)r.below(100) : (ll)r.below(1000000000) ; { ll s = isq_(S); if (r.coin(1, 5)) S = s * s; } if (S > 100000) Q = (ll)r.below(1000000); c.input("S=%lld Q=%lld", (long long)S, (long long)Q); auto g = sqrt_convergent<ll>(S, Q); if (sqr(S)) { c.eq(g, pr(isq_(S), 1), "square"); return; }
    // Stern-Brocot: bracket by last two convergents, extend by the largest step keeping the side
    i128 pa = 1, qa = 0, pb = isq_(S), qb = 1; while (qb <= Q) { bool upper = pb * pb > (i128)S * qb * qb; auto side = [&](i128 p, i128 q) { return p * p > (i128)S * q * q; }; ll k = 1; while (side(pa + pb * (k + 1), qa + qb * (k + 1)) != upper) k++; i128 np = pa + pb * k, nq = qa + qb * k; pa = pb; qa = qb; pb = np; qb = nq; if (k > 200000) break; } c.eq(g, pr((ll)pb, (ll)qb), "first convergent past Q"); c.nontrivial_input();
}
template<typename I> void lattice(vm::Ctx& c, ll big) {
    auto& r = c.rng; auto v = [&](ll m) { return (I)(r.coin() ? r.range(-12, 12) : r.range(-m, m)); }; I a = v(big), b = v(big), cc = v(big); I l = (I)r.range(-1000, 1000); if (r.coin(1, 4)) l = (I)r.range(-big, big - 400); I h = l + (I)r.below(r.coin() ? 20 : 400); c.input("a=%s b=%s c=%s [%s,%s] bits=%d", vm::S(a).c_str(), vm::S(b).c_str(), vm::S(cc).c_str(), vm::S(l).c_str(), vm::S(h).c_str(), (int)sizeof(I) * 8);
    auto dist = [&](I x) { i128 t = (i128)a * x + cc, m = b < 0 ? -(i128)b : (i128)b; if (m == 0) return t < 0 ? -t : t; i128 q = t % m; if (q < 0) q += m; return std::min(q, m - q); }; I x = line_closest_lattice_point<I>(a, b, cc, l, h); c.ok(l <= x && x <= h, "in range", vm::S(x)); i128 best = dist(l); for (I t = l; t <= h; t++) best = std::min(best, dist(t)); c.eq(dist(x), best, "closest lattice point");
    I d = v(big), e = v(big); if (e == 0) e = 1; auto fl = [&](i128 n, i128 m) { if (m < 0) n = -n, m = -m; return n >= 0 ? n / m : -((-n + m - 1) / m); }; auto val = [&](I t) { return (i128)a * t + (i128)b * fl((i128)cc * t + d, e); }; c.note(" d=" + vm::S(d) + " e=" + vm::S(e)); I y = minimize_floor_ladder<I>(a, b, cc, d, e, l, h); c.ok(l <= y && y <= h, "ladder in range", vm::S(y)); best = val(l); for (I t = l; t <= h; t++) best = std::min(best, val(t)); c.eq(val(y), best, "ladder minimum"); c.nontrivial_input();
}
UNIT(lattice_points, 20000, 400000, "closest lattice point to a line and floor-ladder minimum over windows of up to 400 abscissas, 32/64-bit") { if (c.rng.coin()) lattice<int>(c, 400); else lattice<ll>(c, c.rng.coin() ? 5000 : 300000); }
// ---- Farey, decimals
UNIT(farey, 4000, 60000, "next/previous Farey element of order n, from any fraction, given a neighbour or infinity") {
    auto& r = c.rng; ll n = 1 + (ll)r.below(40); ll q = 1 + (ll)r.below(n), p = r.range(-2 * n, 3 * n); ll g = ogcd(p < 0 ? -p : p, q); p /= g; q /= g; c.input("n=%lld f=%lld/%lld", (long long)n, (long long)p, (long long)q);
    auto near = [&](int dir) { pr best(0, 0); for (ll d = 1; d <= n; d++) { ll t = dir > 0 ? (ll)((p * d >= 0 ? p * d / q : -((-p * d + q - 1) / q)) + 1) : (ll)((p * d > 0 ? (p * d + q - 1) / q : -(-p * d / q)) - 1); if (best.second == 0 || (dir > 0 ? t * best.second < best.first * d : t * best.second > best.first * d)) { best = {t, d}; } } return best; }; pr R = near(1), L = near(-1); fr f(p, q); auto P = [](const fr& x) { return pr(x.p, x.q); };
    c.eq(P(farey_neighbour<ll>(n, fr(-1, 0), f)), R, "right neighbour from -inf"); c.eq(P(farey_neighbour<ll>(n, fr(1, 0), f)), L, "left neighbour from +inf"); c.eq(P(farey_neighbour<ll>(n, fr(L.first, L.second), f)), R, "right neighbour from left"); c.eq(P(farey_neighbour<ll>(n, fr(R.first, R.second), f)), L, "left neighbour from right"); if (n > 2) c.nontrivial_input();
}
UNIT(decimals_big, 2000, 40000, "digits of fractions with denominators up to 2^58, digit by digit, in any base") {
    auto& r = c.rng; int b = 2 + (int)r.below(14); ll q = 2 + (ll)r.bits(1 + (int)r.below(58)), p = 1 + (ll)r.below(q - 1); ll at = (ll)r.below(60); c.input("b=%d p=%lld q=%lld at=%lld", b, (long long)p, (long long)q, (long long)at); V<int> dg; ll x = p, xa = p; for (int i = 0; i < 100; i++) { if (i == at) xa = x; dg.push_back((int)((__int128)x * b / q)); x = (ll)((__int128)x * b % q); }
    ll rem = -1; c.eq(rational_digit<ll>(at, b, p, q, &rem), dg[at], "digit of a large fraction"); c.eq(rem, xa, "remainder at that digit"); c.eq(rational_digits<ll>(at, 30, b, p, q), V<int>(dg.begin() + at, dg.begin() + at + 30), "digits of a large fraction"); if (q > 4) c.nontrivial_input();
}
UNIT(decimals, 5000, 80000, "decimal expansions in any base: digits, period, n-th digit") {
    auto& r = c.rng; int b = 2 + (int)r.below(r.coin() ? 9 : 40); ll q = 2 + (ll)r.below(r.coin() ? 30 : 700), p = 1 + (ll)r.below(q - 1); c.input("b=%d p=%lld q=%lld", b, (long long)p, (long long)q); V<int> dg; ll x = p; for (int i = 0; i < 3000; i++) { dg.push_back((int)(x * b / q)); x = x * b % q; }
    auto rd = repeating_decimal<ll>(b, p, q); size_t n = rd.first.size(), per = rd.second; c.ok(per <= n, "period fits"); for (size_t i = 0; i < 3000; i++) { int d = i < n ? rd.first[i] : per == 0 ? 0 : rd.first[n - per + (i - n) % per]; if (d != dg[i]) c.eq(d, dg[i], ("digit " + std::to_string(i)).c_str()); } c.checks(3000); ll g = ogcd(p, q), qq = q / g; int pre = 0; while (ogcd(qq, b) > 1) qq /= ogcd(qq, b), pre++; size_t ord = qq == 1 ? 0 : 1; if (qq > 1) for (ll t = b % qq; t != 1; t = t * b % qq) ord++; c.eq(per, ord, "period is the multiplicative order"); c.eq(n, pre + ord, "preperiod"); if (r.coin()) { auto ri = repeating_decimal<int>(b, (int)p, (int)q); c.eq(ri.first, rd.first, "32-bit digits"); }
    ll at = (ll)r.below(2900); ll rem = -1; c.eq(rational_digit<ll>(at, b, p, q, &rem), dg[at], "n-th digit"); int len = (int)r.below(20); c.eq(rational_digits<ll>(at, len, b, p, q), V<int>(dg.begin() + at, dg.begin() + at + len), "digits"); c.eq(rational_digits<ll>(at, 0, b, p, q), V<int>{}, "no digits"); for (ll fr_ = 0; fr_ < 7; fr_++) c.eq(rational_digits<ll>(fr_, 30, b, p, q), V<int>(dg.begin() + fr_, dg.begin() + fr_ + 30), "leading digits"); ll big = r.edgy(0, INT64_MAX / 2); int bd = rational_digit<ll>(big, b, p, q); ll red = per == 0 ? (big < 3000 ? dg[big] : 0) : big < (ll)n ? dg[big] : dg[(n - per) + (big - (ll)(n - per)) % per]; c.eq(bd, (int)red, "far digit"); if (q > 4) c.nontrivial_input();
}
// ---- triples
typedef triple<ll> tr;
static void sametr(vm::Ctx& c, V<tr> g, V<tr> w, const char* tag) { std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); if (!(g == w)) for (size_t i = 0;; i++) { if (i >= g.size() || i >= w.size() || !(g[i] == w[i])) c.fail(tag, std::string(tag) + ": got " + (i < g.size() ? vm::S(g[i]) : "end") + ", want " + (i < w.size() ? vm::S(w[i]) : "end")); } c.checks(w.size() + 1); }
UNIT(triples, 260, 600, "Pythagorean, Eisenstein 60/120 and almost-Pythagorean triples up to every small bound, against exhaustive search") {
    auto& r = c.rng; ll m = (ll)c.index; if (m > 200) m = (ll)r.below(c.thorough ? 900 : 500); bool prim = r.coin(); c.input("c_max=%lld prim=%d", (long long)m, prim); V<tr> py, e6, e12, al; auto ok = [&](ll a, ll b, ll d) { return !prim || ogcd(ogcd(a, b), d) == 1; };
    for (ll a = 1; a <= m; a++) for (ll b = 1; b <= m; b++) { if (a < b) { ll s = a * a + b * b, q = isq_(s); if (q * q == s && q <= m && ok(a, b, q)) py.push_back({a, b, q}); s += a * b; q = isq_(s); if (q * q == s && q <= m && ok(a, b, q)) e12.push_back({a, b, q}); } if (a <= b) { ll s = a * a - a * b + b * b, q = isq_(s); if (q * q == s && ok(a, q, b)) e6.push_back({a, q, b}); } ll s = a * a + b * b - 1, q = isq_(s); if (q * q == s && q <= m && q >= 1) al.push_back({a, b, q}); }
    if (m >= 1) sametr(c, pythagorean_triples<ll>(m, prim), py, "pythagorean"); sametr(c, eisenstein_triples60<ll>(m, prim), e6, "eisenstein 60"); sametr(c, eisenstein_triples120<ll>(m, prim), e12, "eisenstein 120"); sametr(c, almost_pythagorean_triples<ll>(m), al, "almost pythagorean"); c.eq(pythagorean_triples<int>((int)std::max<ll>(m, 1), prim).size(), py.size(), "32-bit"); c.nontrivial_input();
    { typedef triple<int> t3; t3 p{(int)r.below(3), (int)r.below(3), (int)r.below(3)}, q{(int)r.below(3), (int)r.below(3), (int)r.below(3)}; auto P = std::make_tuple(p.a, p.b, p.c), Q = std::make_tuple(q.a, q.b, q.c); c.eq(p < q, P < Q, "triples compare lexicographically"); c.eq(p == q, P == Q, "equal triples"); }
}
UNIT(triples_leg, 800, 6000, "all Pythagorean triples with a given leg") { auto& r = c.rng; ll leg = (ll)c.index < 400 ? 1 + (ll)c.index : 1 + (ll)r.below(2500); c.input("leg=%lld", (long long)leg); V<tr> w; for (ll d = 1; d < leg; d++) if (leg * leg % d == 0) { ll e = leg * leg / d; if ((e - d) % 2 == 0) w.push_back({leg, (e - d) / 2, (e + d) / 2}); } sametr(c, pythagorean_triples_fixed_leg<ll>(leg, fac(leg)), w, "fixed leg"); c.nontrivial_input(); }
UNIT(triples_invariant, 120, 400, "primitive triples a<=b with a^2+b^2+k=c^2 from generators, for every small k") { auto& r = c.rng; int k = (int)c.index % 120, n = (int)r.below(160); c.input("k=%d n=%d", k, n); V<tr> w, got; for (ll a = k > 1 ? 0 : 1; a <= n; a++) for (ll b = a; b <= n; b++) { ll s = a * a + b * b + k, q = isq_(s); if (q * q == s && q <= n && ogcd(ogcd(a, b), q) == 1) w.push_back({a, b, q}); } for (auto& t : generate_pythagorean_triples<int>(n, pythagorean_triples_generators<int>(k))) { ll a = t.a, b = t.b; if (a > b) std::swap(a, b); got.push_back({a, b, t.c}); } sametr(c, got, w, "invariant triples"); c.nontrivial_input(); }
// ---- sums of two squares
template<typename I> void sq2(vm::Ctx& c, ll n) {
    auto& r = c.rng; V<std::pair<I, int>> f; for (auto& t : fac(n)) f.push_back({(I)t.first, t.second}); if (r.coin(1, 4)) r.shuffle(f); V<std::pair<I, I>> all, uni; for (ll a = -isq_(n); a * a <= n; a++) { ll b = isq_(n - a * a); if (b * b != n - a * a) continue; all.push_back({(I)a, (I)b}); if (b) all.push_back({(I)a, (I)-b}); if (a >= 0 && a <= b) uni.push_back({(I)a, (I)b}); } std::sort(all.begin(), all.end());
    c.eq(squares_r<I>(f, false), (I)all.size(), "count"); c.eq(squares_r<I>(f, true), (I)uni.size(), "unique count"); c.eq(squares_r_list<I>(f, false), all, "list"); c.eq(squares_r_list<I>(f, true), uni, "unique list"); auto tbl = squares_r_prime_table<I>((I)r.below(1000)); I mb = (I)r.below(isq_(n) + 2); auto cut = [&](V<std::pair<I, I>> v) { V<std::pair<I, I>> t; for (auto& x : v) if (mb == 0 || (std::abs(x.first) <= mb && std::abs(x.second) <= mb)) t.push_back(x); return t; }; c.eq(squares_r_list<I>(f, false, tbl, mb), cut(all), "bounded list"); c.eq(squares_r_list<I>(f, true, tbl, mb), cut(uni), "bounded unique list"); for (auto& t : tbl) c.eq((ll)t.second.first * t.second.first + (ll)t.second.second * t.second.second, (ll)t.first, "prime table"); if (all.size() > 8) c.nontrivial_input();
}
UNIT(two_squares, 4000, 60000, "representations as a sum of two squares: counts, complete lists, bounds, with and without a prime table") { auto& r = c.rng; ll n = (ll)c.index < 1500 ? 1 + (ll)c.index : r.coin() ? 1 + (ll)r.below(200000) : 1; if (n == 1 && c.index) { for (int i = 0; i < 7; i++) { ll p = r.pick({2, 5, 13, 17, 29, 3, 37, 9, 4}); if (n * p < 2000000) n *= p; } } c.input("n=%lld", (long long)n); if (r.coin()) sq2<int>(c, n); else sq2<ll>(c, n); }
UNIT(two_squares_counts, 2000, 40000, "numbers of representations of huge numbers given by their factorization, up to the limit of the result type") {
    auto& r = c.rng; V<std::pair<int, int>> f; V<std::pair<ll, int>> g; ll B = 1; bool none = false, sq = true, dsq = true; int ps[] = {2, 3, 5, 7, 13, 17, 19, 29, 37, 41, 43, 53, 1000000009, 2147483629, 2147483647};
    for (int p : ps) if (r.coin()) { int e = r.coin() ? 1 + (int)r.below(4) : 1 + (int)r.below(r.coin() ? 60 : 100000); if (p % 4 == 3 && r.coin(9, 10)) e = e / 2 * 2 + 2; if (p % 4 == 1) { if ((i128)B * (e + 1) * 4 > INT64_MAX) continue; B *= e + 1; } if (p % 4 == 3 && e % 2) none = true; if (p == 2) { if (e % 2) sq = false; else dsq = false; } else if (e % 2) sq = dsq = false; f.push_back({p, e}); g.push_back({p, e}); }
    bool two = false; for (auto& t : f) two |= t.first == 2; if (!two) dsq = false; if (r.coin()) { size_t k = r.below(g.size() + 1); std::rotate(g.begin(), g.begin() + k, g.end()); } std::string in; for (auto& t : f) in += " " + std::to_string(t.first) + "^" + std::to_string(t.second); c.input("%s", in.c_str());
    ll Bp = B; if (none) B = 0; ll uni = ll(((i128)B + sq + dsq) / 2); c.eq((squares_r<int, ll>(f, false)), B * 4, "count"); c.eq((squares_r<int, ll>(f, true)), uni, "unique count"); c.eq((squares_r<ll, ll>(g, false)), B * 4, "count, 64-bit primes"); c.eq((squares_r<ll, ll>(g, true)), uni, "unique count, 64-bit primes"); if (Bp * 4 <= INT32_MAX) c.eq((squares_r<int, int>(f, false)), (int)(B * 4), "32-bit"); if (B > 100) c.nontrivial_input();
}
UNIT(prime_squares, 4000, 60000, "primes as sums of two squares and x^2 + d y^2 = p (Cornacchia), 32/64-bit") {
    auto& r = c.rng; auto prime = [](ll n) { if (n < 2) return false; for (ll d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }; ll lim = r.coin() ? 2000 : 2147483647; ll p = 3 + (ll)r.below(lim - 2); while (!prime(p) || p == 2) { p = p + 1; if (p > lim) p = 3; } int d = 1 + (int)r.below(std::min<ll>(p - 1, 30)); c.input("p=%lld d=%d", (long long)p, d); if (p % 4 == 1) { auto t = squares_r_prime<int>((int)p); c.ok(t.first <= t.second, "order"); c.eq((ll)t.first * t.first + (ll)t.second * t.second, p, "p = a^2 + b^2"); auto u = squares_r_prime<ll>(p); c.eq(u, pr(t.first, t.second), "64-bit"); }
    bool sol = false; pr w; for (ll y = 1; (i128)d * y * y < p && y < 100000; y++) if (sqr(p - d * y * y)) { sol = true; w = {isq_(p - d * y * y), y}; break; } if (sol) { auto t = cornacchia<int>(d, (int)p); c.eq((ll)t.first * t.first + d * (ll)t.second * t.second, p, "cornacchia"); auto u = cornacchia<ll>(d, p); c.eq((i128)u.first * u.first + (i128)d * u.second * u.second, (i128)p, "cornacchia 64-bit"); c.event("representable"); c.nontrivial_input(); }
}
