// C17: linear recurrences, Lucas families, Bernoulli numbers, Berlekamp-Massey, polynomial sums and zeros
#include "vm.h"
#include "altruct/algorithm/math/recurrence.h"
#include "altruct/algorithm/math/polynoms.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/matrix.h"
#include "str_math.h"
#include <math.h>
using namespace altruct::math;
namespace altruct { namespace math { template<typename T> std::string str(const matrix<T>& m) { return vm::S(m.a); } } }
typedef int64_t ll; typedef vm::u128 u128; typedef moduloX<int> mx; typedef moduloX<ll> ml; typedef modulo<int, 1000000007> mc; typedef modulo<int, 1009> ms; typedef fraction<ll> fr;
template<typename T> using V = std::vector<T>;
// value type over a prime field / integers; any() draws an element
template<typename F> void fields(vm::Ctx& c, F f) { auto& r = c.rng; switch (r.below(5)) { case 0: { int P = r.pick({2, 3, 5, 101, 1000000007, 2147483647}); c.input("P=%d", P); f(mx(1, P), [=, &r] { return mx((int)r.below(P), P); }, true); break; } case 1: c.input("1e9+7"); f(mc(1), [&r] { return mc((int)r.below(1000000007)); }, true); break; case 2: c.input("1009"); f(ms(1), [&r] { return ms((int)r.below(1009)); }, true); break; case 3: { ll P = 9223372036854775783ll; c.input("P=2^63-25"); f(ml(1, P), [=, &r] { return ml((ll)r.below(P), P); }, true); break; } default: c.input("int64"); f((ll)1, [&r] { return (ll)r.range(-2, 2); }, false); } }
template<typename T> T fromint(const T& one, ll k) { T z = one - one, s = z; for (ll i = 0; i < (k < 0 ? -k : k); i++) s = s + one; return k < 0 ? z - s : s; }
template<typename T> T stepping(const V<T>& co, V<T> f, int n, const T& z) { int L = (int)co.size(); while ((int)f.size() <= n) { T s = z; for (int i = 0; i < L; i++) s = s + co[i] * f[f.size() - 1 - i]; f.push_back(s); } return f[n]; }
// n-th term for huge n by companion-matrix squaring
template<typename T> T companion(const V<T>& co, const V<T>& f, uint64_t n, const T& one) { int L = (int)co.size(); T z = one - one; typedef V<V<T>> M; auto mul = [&](const M& a, const M& b) { M r(L, V<T>(L, z)); for (int i = 0; i < L; i++) for (int k = 0; k < L; k++) for (int j = 0; j < L; j++) r[i][j] = r[i][j] + a[i][k] * b[k][j]; return r; }; M A(L, V<T>(L, z)), R(L, V<T>(L, z)); for (int i = 0; i < L; i++) R[i][i] = one; for (int i = 0; i + 1 < L; i++) A[i][i + 1] = one; for (int j = 0; j < L; j++) A[L - 1][j] = co[L - 1 - j]; for (; n; n >>= 1, A = mul(A, A)) if (n & 1) R = mul(R, A); T s = z; for (int j = 0; j < L; j++) s = s + R[0][j] * f[j]; return s; }
UNIT(linear_recurrence, 6000, 120000, "n-th term of random recurrences of order 1..8 (n up to 10^18 in fields) and the next term, against stepping or companion matrices") {
    fields(c, [&](auto one, auto any, bool field) { typedef decltype(one) T; auto& r = c.rng; T z = one - one; int L = 1 + (int)r.below(8); V<T> co, f; for (int i = 0; i < L; i++) co.push_back(r.coin(1, 4) ? z : any()), f.push_back(any()); bool big = field && r.coin(); uint64_t n = big ? (uint64_t)r.edgy(0, INT64_MAX) : r.below(field ? 60 : 24); c.note(" co=" + vm::S(co) + " f=" + vm::S(f) + " n=" + vm::S(n));
        T w = big ? companion(co, f, n, one) : stepping(co, f, (int)n, z); c.eq(linear_recurrence<T, T>(co, f, (ll)n), w, "n-th term"); if (!big) { c.eq(linear_recurrence<T, T>(co, f, (int)n), w, "32-bit n"); int k = L + (int)r.below(5); V<T> g; for (int i = 0; i <= k; i++) g.push_back(stepping(co, f, i, z)); V<T> h(g.begin(), g.begin() + k); c.eq(linear_recurrence_next<T, T>(co, h), g[k], "next term"); }
        auto p = linear_recurrence_coeff_to_poly(co); c.eq(p.deg(), L, "degree"); c.eq(p[L], one, "monic"); for (int i = 0; i < L; i++) c.eq(p[L - 1 - i], z - co[i], "characteristic polynomial"); c.eq(linear_recurrence_poly_to_coeff(p), co, "poly to coefficients"); if (L > 1 && n > 8) c.nontrivial_input(); });
}
UNIT(matrix_recurrence, 300, 6000, "recurrences over vectors of matrices with scalar coefficients") { auto& r = c.rng; typedef matrix<mc> M; auto any = [&] { M m(2, 2, mc(0)); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m[i][j] = mc((int)r.below(1000)); return m; }; int L = 1 + (int)r.below(4), n = (int)r.below(40); V<mc> co; V<M> f; for (int i = 0; i < L; i++) co.push_back(mc((int)r.below(1000))), f.push_back(any()); c.input("L=%d n=%d co=%s", L, n, vm::S(co).c_str()); V<M> g = f; while ((int)g.size() <= n) { M s = g[0] - g[0]; for (int i = 0; i < L; i++) s += g[g.size() - 1 - i] * co[i]; g.push_back(s); } c.eq(linear_recurrence<mc, M>(co, f, n), g[n], "matrix term"); c.nontrivial_input(); }
UNIT(lucas, 5000, 100000, "Fibonacci and Lucas L, U, V for every n in fields and small n over integers") {
    fields(c, [&](auto one, auto any, bool field) { typedef decltype(one) T; auto& r = c.rng; T z = one - one, two = one + one; T p = any(), q = any(); bool big = field && r.coin(); uint64_t n = big ? (uint64_t)r.edgy(0, INT64_MAX) : r.below(field ? 80 : 24); c.note(" p=" + vm::S(p) + " q=" + vm::S(q) + " n=" + vm::S(n)); auto w = [&](V<T> co, V<T> f) { return big ? companion(co, f, n, one) : stepping(co, f, (int)n, z); }; c.eq(fibonacci<T>((ll)n, one), w({one, one}, {z, one}), "fibonacci"); c.eq(lucas_l<T>((ll)n, one), w({one, one}, {two, one}), "lucas_l"); c.eq(lucas_u<T>(p, q, (ll)n), w({p, z - q}, {z, one}), "lucas_u"); c.eq(lucas_v<T>(p, q, (ll)n), w({p, z - q}, {two, p}), "lucas_v"); if (!big) c.eq(fibonacci<T>((int)n, one), w({one, one}, {z, one}), "fibonacci 32-bit"); if (n > 2) c.nontrivial_input(); });
}
UNIT(bernoulli, 300, 2000, "Bernoulli numbers (B1=+1/2) against their defining sum, residues and rationals") { auto& r = c.rng; auto chk = [&](auto one, int n) { typedef decltype(one) T; auto b = bernoulli_b<T>(n, one); c.eq(b.size(), (size_t)n + 1, "size"); for (int m = 0; m <= n; m++) { T s = one - one, bin = one; for (int k = 0; k <= m; k++) { s = s + bin * b[k]; bin = bin * fromint(one, m + 1 - k) / fromint(one, k + 1); } c.eq(s, fromint(one, m + 1), "sum binomial(m+1,k) B_k = m+1"); } }; if (r.coin()) { int n = (int)r.below(14); c.input("rational n=%d", n); chk(fr(1), n); } else { int P = r.pick({101, 1009, 1000000007}), n = (int)r.below(70); c.input("P=%d n=%d", P, n); if (r.coin()) chk(mx(1, P), n); else chk(mc(1), n); } c.nontrivial_input(); }
// linear complexity by the textbook Berlekamp-Massey iteration
template<typename T> int complexity(const V<T>& s, const T& one) { T z = one - one; V<T> C{one}, B{one}; int L = 0, m = 1; T b = one; for (int n = 0; n < (int)s.size(); n++) { T d = z; for (int i = 0; i < (int)C.size() && i <= L; i++) d = d + C[i] * s[n - i]; if (d == z) { m++; continue; } V<T> t = C; T k = d / b; if (C.size() < B.size() + m) C.resize(B.size() + m, z); for (size_t i = 0; i < B.size(); i++) C[i + m] = C[i + m] - k * B[i]; if (2 * L <= n) { L = n + 1 - L; B = t; b = d; m = 1; } else m++; } return L; }
template<typename T> void bm(vm::Ctx& c, T one, std::function<T()> any) {
    auto& r = c.rng; T z = one - one; int L = (int)r.below(8), n = std::max(1, L) + (int)r.below(4), len = 2 * n + (int)r.below(2); V<T> co, a; for (int i = 0; i < L; i++) co.push_back(r.coin(1, 3) ? z : any()), a.push_back(r.coin(1, 3) ? z : any()); while ((int)a.size() < len) { T s = z; for (int i = 0; i < L; i++) s = s + co[i] * a[a.size() - 1 - i]; a.push_back(s); } c.note(" a=" + vm::S(a)); V<T> e(a.begin(), a.begin() + 2 * n); int lc = complexity(e, one); c.ok(lc <= n, "oracle"); auto p = berlekamp_massey_poly<T>(a, one); c.eq(p[p.deg()], one, "monic"); c.eq(p.deg(), lc, "shortest recurrence"); auto f = berlekamp_massey<T>(a, one); c.eq((int)f.size(), lc, "coefficients"); for (int i = lc; i < len; i++) { T s = z; for (int j = 0; j < lc; j++) s = s + f[j] * a[i - 1 - j]; c.eq(s, a[i], "recurrence generates the sequence"); } if (lc > 1) c.nontrivial_input();
}
UNIT(berlekamp_massey, 8000, 150000, "shortest recurrence of linearly recurrent sequences of complexity 0..7 over prime fields (also GF(2), GF(3)) and rationals") { auto& r = c.rng; switch (r.below(5)) { case 0: c.input("1009"); bm<ms>(c, ms(1), [&] { return ms((int)r.below(1009)); }); break; case 1: c.input("1e9+7"); bm<mc>(c, mc(1), [&] { return mc((int)r.below(1000000007)); }); break; case 2: { typedef modulo<int, 2> m2; c.input("GF2"); bm<m2>(c, m2(1), [&] { return m2((int)r.below(2)); }); break; } case 3: { typedef modulo<int, 3> m3; c.input("GF3"); bm<m3>(c, m3(1), [&] { return m3((int)r.below(3)); }); break; } default: { int P = r.pick({2, 3, 7, 1000003, 2147483647}); c.input("P=%d", P); bm<mx>(c, mx(1, P), [&, P] { return mx((int)r.below(P), P); }); } } }
UNIT(polynom_sums, 2000, 40000, "sum_{k=1..n} p(k) as a polynomial, evaluated at every small n, residues and rationals") { auto& r = c.rng; auto chk = [&](auto one, auto any, int dmax) { typedef decltype(one) T; T z = one - one; int d = (int)r.below(dmax + 1); V<T> a; for (int i = 0; i <= d; i++) a.push_back(r.coin(1, 4) ? z : any()); polynom<T> p(a); c.note(" p=" + vm::S(a)); auto s = polynom_sum(p); auto ev = [&](const polynom<T>& q, ll x) { T X = fromint(one, x), v = z; for (int i = q.deg(); i >= 0; i--) v = v * X + q[i]; return v; }; T acc = z; for (ll n = 0; n <= d + 4; n++) { if (n) acc = acc + ev(p, n); c.eq(ev(s, n), acc, "sum"); } if (d > 1) c.nontrivial_input(); }; switch (r.below(3)) { case 0: c.input("fraction"); chk(fr(1), [&] { return fr(r.range(-5, 5), r.range(1, 3)); }, 5); break; case 1: c.input("1e9+7"); chk(mc(1), [&] { return mc((int)r.below(1000000007)); }, 12); break; default: { int P = r.pick({31, 101, 2147483647}); c.input("P=%d", P); chk(mx(1, P), [&, P] { return mx((int)r.below(P), P); }, 12); } } }
UNIT(monotonic, 5000, 100000, "argument of a monotonic polynomial value: within one ulp-neighbourhood of the crossing, any target value") {
    auto& r = c.rng; int a = (int)r.range(-5, 5), b = (int)r.range(0, 9), k = 1 + (int)r.below(6); bool neg = r.coin(); std::vector<double> co{(double)a, (double)b, 0, (double)k}; if (r.coin()) co.push_back(0), co.push_back(k % 3); if (neg) for (auto& x : co) x = -x; polynom<double> p(co); double lo = r.range(-20, 5), hi = lo + 1 + r.below(30); double f = r.below(1001) / 1000.0, y = p(lo) + (p(hi) - p(lo)) * f; if (r.coin()) y = std::round(y); if (r.coin(1, 5)) y = p(std::round(lo + (hi - lo) * f)); y = std::max(std::min(p(lo), p(hi)), std::min(std::max(p(lo), p(hi)), y)); c.input("p=%s [%g,%g] y=%.17g", vm::S(co).c_str(), lo, hi, y); double x = monotonic_search(p, lo, hi, y); c.ok(lo <= x && x <= hi, "inside", vm::S(x)); double x0 = std::max(lo, x - fabs(x) * 1e-13 - 1e-13), x1 = std::min(hi, x + fabs(x) * 1e-13 + 1e-13); double v0 = p(x0), v1 = p(x1); if (v0 > v1) std::swap(v0, v1); double sl = 1e-9 + 1e-12 * fabs(y); c.ok(v0 - sl <= y && y <= v1 + sl, "crossing", "x=" + vm::S(x) + " p(x)=" + vm::S(p(x))); double e = 0.01; x = monotonic_search(p, lo, hi, y, e); c.ok(fabs(p(x) - y) <= e + sl || (v0 - sl <= y && y <= v1 + sl), "within tolerance"); c.nontrivial_input();
}
UNIT(zeros_none, 300, 3000, "constants have no zeros; linear polynomials have one") { auto& r = c.rng; double k = (1 + (double)r.below(50)) * (r.coin() ? 1 : -1) / 8; c.input("k=%g", k); polynom<double> p{k}; if (r.coin()) p = polynom<double>{k, 0, 0}; c.eq(find_zeros(p, 100.0, 1e-9).size(), size_t(0), "zeros of a constant"); polynom<double> l{k, -2.0}; auto z = find_zeros(l, 100.0, 1e-9); std::sort(z.begin(), z.end()); z.erase(std::unique(z.begin(), z.end()), z.end()); c.ok(z.size() == 1 && fabs(z[0] - k / 2) < 1e-9, "zero of a linear polynomial"); c.nontrivial_input(); }
UNIT(zeros, 2000, 40000, "all simple real zeros (each at least once) of polynomials with known half-integer roots (and an irreducible factor)") { auto& r = c.rng; int k = 1 + (int)r.below(4); std::set<int> h; while ((int)h.size() < k) h.insert((int)r.range(-8, 8)); polynom<double> p{1}; V<double> w; for (int x : h) p *= polynom<double>{-(double)x, 2}, w.push_back(x / 2.0); bool irr = r.coin(1, 3); if (irr) { int s = (int)r.range(-3, 3); p *= polynom<double>{(double)(s * s + 1 + (int)r.below(5)), -2.0 * s, 1}; } if (r.coin()) p *= -1.0; double inf = r.coin() ? 1e3 : 10; c.input("roots=%s irr=%d inf=%g", vm::S(w).c_str(), irr, inf); auto z = find_zeros(p, inf, 1e-6); std::sort(z.begin(), z.end()); z.erase(std::unique(z.begin(), z.end(), [](double a, double b) { return fabs(a - b) < 1e-6; }), z.end()); c.eq(z.size(), w.size(), "number of zeros"); for (size_t i = 0; i < w.size(); i++) c.ok(fabs(z[i] - w[i]) < 1e-6, "zero", vm::S(z) + " want " + vm::S(w)); if (k > 1) c.nontrivial_input(); }
UNIT(large_orders, 300, 2000, "recurrences of order 9 to 200 (both ways of reducing polynomials): terms against stepping, huge terms against their own recurrence, shortest recurrences of long sequences") {
    auto& r = c.rng; auto run = [&](auto one, auto any) { typedef decltype(one) T; T z = one - one; int L = 9 + (int)r.below(c.index % 4 ? 50 : 190), n = (int)r.below(12 * L); V<T> co, f; for (int i = 0; i < L; i++) co.push_back(r.coin(1, 4) ? z : any()), f.push_back(any()); c.note(" L=" + vm::S(L) + " n=" + vm::S(n));
        V<T> g = f; while ((int)g.size() <= std::max(n, 2 * L + 5)) { T s = z; for (int i = 0; i < L; i++) s = s + co[i] * g[g.size() - 1 - i]; g.push_back(s); } c.eq(linear_recurrence<T, T>(co, f, (ll)n), g[n], "n-th term of a long recurrence"); { int k = L + (int)r.below(6); c.eq(linear_recurrence_next<T, T>(co, V<T>(g.begin(), g.begin() + k)), g[k], "next term"); }
        // shortest recurrence: reproduces the whole sequence and is not longer than the one that made it
        int m = 2 * L + (int)r.below(6); V<T> h(g.begin(), g.begin() + m), d = berlekamp_massey<T>(h, one); c.ok((int)d.size() <= L, "shortest recurrence is short"); bool ok = true; for (int i = (int)d.size(); i < m; i++) { T s = z; for (size_t j = 0; j < d.size(); j++) s = s + d[j] * h[i - 1 - j]; ok = ok && s == h[i]; } c.ok(ok, "shortest recurrence reproduces the sequence");
        // consecutive terms far out obey the recurrence
        if (L <= 24) { ll far = (ll)r.below(1000000000000000000ULL); V<T> t; for (int i = 0; i <= L; i++) t.push_back(linear_recurrence<T, T>(co, f, far + i)); T s = z; for (int i = 0; i < L; i++) s = s + co[i] * t[L - 1 - i]; c.eq(t[L], s, "far terms obey the recurrence"); } c.nontrivial_input(); };
    switch (c.index % 3) { case 0: c.input("1e9+7"); run(mc(1), [&] { return mc((int)r.below(1000000007)); }); break; case 1: { int P = r.pick({101, 1000003, 2147483647}); c.input("P=%d", P); run(mx(1, P), [&, P] { return mx((int)r.below(P), P); }); break; } default: c.input("1009"); run(ms(1), [&] { return ms((int)r.below(1009)); }); }
}
