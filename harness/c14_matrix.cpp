// C14: matrices
#include "vm.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/polynom.h"
#include "str_math.h"
using namespace altruct::math;
namespace altruct { namespace math { template<typename T> std::string str(const matrix<T>& m) { return vm::S(m.a); } } }
typedef int64_t ll; typedef moduloX<int> mx; typedef moduloX<int64_t> ml; typedef modulo<int, 1000000007> mc; typedef fraction<ll> fr; typedef moduloX<uint32_t> mu;
template<typename T> using V = std::vector<T>;
template<typename T> matrix<T> mk(const V<V<T>>& v) { matrix<T> m((int)v.size(), v.empty() ? 0 : (int)v[0].size(), v[0][0]); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) m[(int)i][j] = v[i][j]; return m; }
template<typename T> V<V<T>> mulv(const V<V<T>>& a, const V<V<T>>& b, const T& z) { V<V<T>> r(a.size(), V<T>(b[0].size(), z)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) r[i][j] = r[i][j] + a[i][k] * b[k][j]; return r; }
// determinant without division (Laplace by subsets), rank by the largest non-zero minor
template<typename T> T detv(const V<V<T>>& a, const T& one) { int n = (int)a.size(); T z = one - one; V<T> d(size_t(1) << n, z); d[0] = one; for (unsigned m = 0; m < (1u << n); m++) { int r = __builtin_popcount(m); if (r == n || d[m] == z) continue; for (int j = 0; j < n; j++) if (!(m >> j & 1)) { int sg = __builtin_popcount(m >> (j + 1)) & 1; T t = d[m] * a[r][j]; d[m | 1u << j] = sg ? d[m | 1u << j] - t : d[m | 1u << j] + t; } } return d.back(); }
template<typename T> int rankv(const V<V<T>>& a, const T& one) { int n = (int)a.size(), m = (int)a[0].size(), best = 0; T z = one - one; for (unsigned R = 1; R < (1u << n); R++) { int k = __builtin_popcount(R); if (k <= best) continue; for (unsigned C = 1; C < (1u << m); C++) if (__builtin_popcount(C) == k) { V<V<T>> s; for (int i = 0; i < n; i++) if (R >> i & 1) { s.emplace_back(); for (int j = 0; j < m; j++) if (C >> j & 1) s.back().push_back(a[i][j]); } if (!(detv(s, one) == z)) { best = k; break; } } } return best; }
template<typename T> void same(vm::Ctx& c, const matrix<T>& m, const V<V<T>>& w, const char* tag) { c.eq(m.rows(), (int)w.size(), tag); c.eq(m.cols(), (int)w[0].size(), tag); for (size_t i = 0; i < w.size(); i++) c.eq(m[(int)i], w[i], tag); }
template<typename T> V<V<T>> gen(vm::Ctx& c, int n, int m, const T& z, std::function<T()> any) { V<V<T>> v(n, V<T>(m, z)); int k = (int)c.rng.below(4); for (auto& r : v) for (auto& x : r) x = k == 0 && c.rng.coin(2, 3) ? z : any(); return v; }
template<typename T> void algebra(vm::Ctx& c, const T& one, std::function<T()> any, std::function<T()> unit) {
    auto& r = c.rng; T z = one - one; int n = 1 + (int)r.below(6), m = 1 + (int)r.below(6), p = 1 + (int)r.below(6); c.note(" n=" + vm::S(n) + " m=" + vm::S(m) + " p=" + vm::S(p)); auto a = gen(c, n, m, z, any), b = gen(c, n, m, z, any), d = gen(c, m, p, z, any), w = a; auto A = mk(a), B = mk(b), D = mk(d);
    same(c, A, a, "construct"); auto each = [&](auto f) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) w[i][j] = f(i, j); };
    each([&](int i, int j) { return a[i][j] + b[i][j]; }); same(c, A + B, w, "+"); { auto t = A; t += B; same(c, t, w, "+="); t -= B; same(c, t, a, "-="); } each([&](int i, int j) { return a[i][j] - b[i][j]; }); same(c, A - B, w, "-"); each([&](int i, int j) { return z - a[i][j]; }); same(c, -A, w, "negate"); same(c, +A, a, "unary plus");
    same(c, A * D, mulv(a, d, z), "*"); { auto t = A; t *= D; same(c, t, mulv(a, d, z), "*="); auto q = gen(c, n, n, z, any); auto Q = mk(q); Q *= Q; same(c, Q, mulv(q, q, z), "self *="); t = A; t += t; each([&](int i, int j) { return a[i][j] + a[i][j]; }); same(c, t, w, "self +="); t -= t; each([&](int, int) { return z; }); same(c, t, w, "self -="); }
    { T k = any(), u = unit(); each([&](int i, int j) { return a[i][j] * k; }); same(c, A * k, w, "scalar *"); each([&](int i, int j) { return a[i][j] / u; }); same(c, A / u, w, "scalar /"); int x = (int)r.below(n), y = (int)r.below(m); auto t = A; t *= t[x][y]; each([&](int i, int j) { return a[i][j] * a[x][y]; }); same(c, t, w, "scaled by an own entry"); auto e = a; e[x][y] = u; t = mk(e); t /= t[x][y]; each([&](int i, int j) { return e[i][j] / u; }); same(c, t, w, "divided by an own entry"); }
    { V<V<T>> t(m, V<T>(n, z)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) t[j][i] = a[i][j]; same(c, A.transpose(), t, "transpose"); same(c, (A * D).transpose(), (D.transpose() * A.transpose()).a, "(AB)^T = B^T A^T"); }
    { int i = (int)r.below(n), j = (int)r.below(m), h = 1 + (int)r.below(n - i), l = 1 + (int)r.below(m - j); V<V<T>> s; for (int x = i; x < i + h; x++) s.push_back(V<T>(a[x].begin() + j, a[x].begin() + j + l)); same(c, matrix<T>(A, i, j, h, l), s, "submatrix"); s.clear(); for (int x = i; x < n; x++) s.push_back(V<T>(a[x].begin() + j, a[x].end())); same(c, matrix<T>(A, i, j), s, "submatrix to the end"); auto X = A, Y = B; X.swap(Y); same(c, X, b, "swap"); same(c, Y, a, "swap"); }
    { int k = (int)r.below(5); auto q = gen(c, n, n, z, any); V<V<T>> w2(n, V<T>(n, z)); for (int i = 0; i < n; i++) w2[i][i] = one; same(c, matrix<T>::identity(n, one), w2, "identity"); same(c, identityOf(mk(q)), w2, "identityOf"); for (int e = 0; e < k; e++) w2 = mulv(w2, q, z); same(c, mk(q).pow(k), w2, "pow"); same(c, mk(q).pow(5) * mk(q).pow(7), mk(q).pow(12).a, "pow additivity"); auto Z = q; for (auto& x : Z) for (auto& y : x) y = z; same(c, zeroOf(mk(q)), Z, "zeroOf"); for (int i = 0; i < n; i++) Z[i][i] = castOf(one, 3); same(c, castOf(mk(q), 3), Z, "cast"); }
    c.ok((A == B) == (a == b) && (A != B) == (a != b) && (A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A >= B) == (a >= b), "comparisons"); if (n > 1 && m > 1) c.nontrivial_input();
}
// square matrix of chosen rank: det, rank, inverse, negative powers
template<typename T> void gauss(vm::Ctx& c, const T& one, std::function<T()> any, int nmax) {
    auto& r = c.rng; T z = one - one; int n = 1 + (int)r.below(nmax), k = (int)r.below(5); V<V<T>> a = gen(c, n, n, z, any);
    if (k == 0) { int rk = (int)r.below(n + 1); if (rk == 0) for (auto& x : a) for (auto& y : x) y = z; else a = mulv(gen(c, n, rk, z, any), gen(c, rk, n, z, any), z); }
    else if (k == 1) { V<int> pm(n); for (int i = 0; i < n; i++) pm[i] = i; r.shuffle(pm); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (pm[i] != j && r.coin(3, 4)) a[i][j] = z; }
    else if (k == 2) { int j = (int)r.below(n); for (int i = 0; i < n; i++) a[i][j] = z; } else if (k == 3 && n > 1) { int i = (int)r.below(n), j = (int)r.below(n); T t = any(); for (int x = 0; x < n; x++) a[i][x] = i == j ? z : a[j][x] * t; }
    c.note(" a=" + vm::S(a)); auto A = mk(a); T d = detv(a, one); int rk = n <= 5 ? rankv(a, one) : -1; c.eq(A.det(), d, "determinant"); if (rk >= 0) c.eq(A.rank(), rk, "rank"); else if (!(d == z)) c.eq(A.rank(), n, "rank"); same(c, A, a, "operand unchanged");
    c.event(d == z ? "singular matrices" : "regular matrices"); V<V<T>> I(n, V<T>(n, z)); for (int i = 0; i < n; i++) I[i][i] = one;
    { matrix<T> M = A, N; T dd; int g = matrix<T>::gauss(M, N, dd); c.eq(dd, d, "gauss det"); if (rk >= 0) c.eq(g, rk, "gauss rank"); c.eq(mulv(N.a, a, z), M.a, "gauss: inv * original = reduced"); }
    if (!(d == z)) { auto B = A.inverse(); same(c, A * B, I, "A * inverse"); same(c, B * A, I, "inverse * A"); int e = std::is_same<T, fr>::value ? 1 : (int)r.below(3) + 1; same(c, A.pow(-e) * A.pow(e), I, "negative power"); if (!std::is_same<T, fr>::value && n <= 4) { ll E = r.edgy(-INT64_MAX / 2, INT64_MAX / 2); V<V<T>> p = I, base = a; uint64_t ae = E < 0 ? uint64_t(-E) : uint64_t(E); for (uint64_t q = ae; q; q >>= 1) { if (q & 1) p = mulv(p, base, z); if (q > 1) base = mulv(base, base, z); } auto P = A.pow(E); if (E >= 0) same(c, P, p, "huge power"); else same(c, P * mk(p), I, "huge negative power"); c.event("huge_powers"); } auto b = gen(c, 1 + (int)r.below(4), n, z, any); same(c, mk(b) / A * A, b, "division by a matrix"); auto x = mk(b); x /= A; x *= A; same(c, x, b, "/= then *="); c.eq(A.transpose().det(), d, "det of transpose"); auto q = gen(c, n, n, z, any); c.eq((A * mk(q)).det(), d * detv(q, one), "det of product"); }
    if (n > 1) c.nontrivial_input();
}
template<typename F> void modf(vm::Ctx& c, F f) { auto& r = c.rng; switch (r.below(4)) { case 0: { int P = r.pick({2, 3, 5, 7, 1000000007}); c.input("moduloX P=%d", P); f(mx(1, P), [=, &r] { return mx((int)r.below(P), P); }, [=, &r] { return mx(1 + (int)r.below(P - 1), P); }); break; } case 1: c.input("modulo 1e9+7"); f(mc(1), [&r] { return mc((int)r.below(1000000007)); }, [&r] { return mc(1 + (int)r.below(1000000006)); }); break; case 2: { ll P = 9223372036854775783ll; c.input("moduloX<int64>"); f(ml(1, P), [=, &r] { return ml((ll)r.below(P), P); }, [=, &r] { return ml(1 + (ll)r.below(P - 1), P); }); break; } default: { uint32_t P = 4294967291u; c.input("moduloX<uint32>"); f(mu(1, P), [=, &r] { return mu((uint32_t)r.below(P), P); }, [=, &r] { return mu(1 + (uint32_t)r.below(P - 1), P); }); } } }
UNIT(algebra, 6000, 150000, "sums, products, powers, transpose, submatrices for random shapes 1..6 over residues and integers") { if (c.rng.coin(1, 4)) { auto& r = c.rng; c.input("int64"); algebra<ll>(c, 1, [&] { return (ll)r.range(-3, 3); }, [&] { return r.coin() ? 1ll : -1ll; }); } else modf(c, [&](auto one, auto any, auto unit) { typedef decltype(one) T; algebra<T>(c, one, any, unit); }); }
UNIT(elimination, 6000, 150000, "determinant, rank, inverse, division for every rank, sizes 1..7 over prime fields; determinant by division-free expansion, rank by minors") { modf(c, [&](auto one, auto any, auto) { typedef decltype(one) T; gauss<T>(c, one, any, 7); }); }
UNIT(binary_exhaustive, 531, 531, "every 1x1..3x3 matrix over GF(2) (and a hashed sample of GF(3) 3x3)") { auto& r = c.rng; (void)r; int idx = (int)c.index, n = idx < 2 ? 1 : idx < 18 ? 2 : 3, k = idx < 2 ? idx : idx < 18 ? idx - 2 : idx - 18; mx one(1, 2); V<V<mx>> a(n, V<mx>(n, mx(0, 2))); for (int i = 0; i < n * n; i++) a[i / n][i % n] = mx((k >> i) & 1, 2); c.input("n=%d bits=%d", n, k); auto A = mk(a); c.eq(A.det(), detv(a, one), "determinant"); c.eq(A.rank(), rankv(a, one), "rank"); if (A.det().v) same(c, A * A.inverse(), matrix<mx>::identity(n, one).a, "inverse"); c.nontrivial(idx); if (n == 3) { uint64_t h = vm::mix64(k); for (auto& x : a) for (auto& y : x) y = mx(int(h % 3), 3), h /= 3; c.eq(mk(a).rank(), rankv(a, mx(1, 3)), "rank GF(3)"); } }
UNIT(rational, 1500, 20000, "rational entries: elimination and inverse, sizes 1..3") { auto& r = c.rng; std::vector<fr> pool{fr(0), fr(1), fr(-1), fr(2), fr(1, 2)}; c.input("rational"); if (r.coin()) gauss<fr>(c, fr(1), [&] { return r.pick(pool); }, 3); else { std::vector<fr> p2{fr(0), fr(1), fr(-1), fr(1, 2)}; auto q = gen<fr>(c, 2, 2, fr(0), [&] { return r.pick(p2); }); auto Q = mk(q); same(c, Q * Q * Q, Q.pow(3).a, "pow"); } }
UNIT(empty_and_shapes, 200, 2000, "matrices without rows or columns and freshly made ones: sizes, zero entries, identity, products and sums of empty matrices") {
    auto& r = c.rng; int n = (int)r.below(5), m = n ? (int)r.below(5) : 0; c.input("n=%d m=%d", n, m); mx one(1, 101), z = one - one; typedef matrix<mx> M;
    M e; c.eq(e.rows(), 0, "default rows"); c.eq(e.cols(), 0, "default columns"); c.ok(e == M(), "default equal"); M A(n, m, z); if (!m) m = n; c.eq(A.rows(), n, "rows"); if (n) c.eq(A.cols(), m, "columns"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) c.eq(A[i][j], z, "zero"); matrix<ll> B = m == n ? matrix<ll>(n, 0) : matrix<ll>(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) c.eq(B[i][j], 0ll, "zero by default"); matrix<double> D(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) c.eq(D[i][j], 0.0, "zero by default");
    auto I = matrix<ll>::identity(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.eq(I[i][j], ll(i == j), "identity by default"); if (n && m) { M C = A + A; c.ok(C == A && A.transpose().rows() == m && A.transpose().cols() == n, "zero matrix sums and transposes"); c.nontrivial_input(); }
}
// elimination written here: determinant and rank over a prime field
template<typename T> std::pair<T, int> elim(V<V<T>> a, const T& one) { int n = (int)a.size(), m = (int)a[0].size(), k = 0; T z = one - one, d = one; for (int j = 0; j < m; j++) { int i = k; while (i < n && a[i][j] == z) i++; if (i == n) { d = z; continue; } if (i != k) { std::swap(a[i], a[k]); d = z - d; } d = d * a[k][j]; for (int x = k + 1; x < n; x++) { T f = a[x][j] / a[k][j]; for (int y = j; y < m; y++) a[x][y] = a[x][y] - f * a[k][y]; } if (++k == n) break; } if (k < n) d = z; return { d, k }; }
UNIT(large, 60, 900, "matrices of 8 to 60 rows over prime fields: products, powers, determinant, rank, inverse and quotients, of every rank") {
    modf(c, [&](auto one, auto any, auto unit) { typedef decltype(one) T; auto& r = c.rng; T z = one - one; int n = 8 + (int)r.below(c.thorough ? 60 : 40), rk = r.coin() ? n : (int)r.below(n + 1); c.note(" n=" + vm::S(n) + " rank<=" + vm::S(rk));
        auto fill = [&](int x, int y) { V<V<T>> v(x, V<T>(y, z)); int sp = (int)r.below(3); for (auto& p : v) for (auto& q : p) q = sp == 0 && r.coin(4, 5) ? z : any(); return v; };
        V<V<T>> a = fill(n, n); if (rk == 0) for (auto& x : a) for (auto& y : x) y = z; else if (rk < n) a = mulv(fill(n, rk), fill(rk, n), z); else if (r.coin()) { /* a permuted triangle: pivots have to be searched for */ V<int> p(n); for (int i = 0; i < n; i++) p[i] = i; r.shuffle(p); V<V<T>> b(n, V<T>(n, z)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) b[p[i]][n - 1 - j] = i == j ? unit() : r.coin(1, 3) ? any() : z; a = b; }
        auto A = mk(a); auto w = elim(a, one); c.eq(A.det(), w.first, "determinant"); c.eq(A.rank(), w.second, "rank"); same(c, A, a, "operand unchanged"); V<V<T>> I(n, V<T>(n, z)); for (int i = 0; i < n; i++) I[i][i] = one; auto q = fill(n, 1 + (int)r.below(n)); same(c, A * mk(q), mulv(a, q, z), "*"); { V<V<T>> s = I; for (int e = 0; e < 5; e++) s = mulv(s, a, z); same(c, A.pow(5), s, "pow"); }
        c.event(w.second < n ? "singular matrices" : "regular matrices"); if (w.second == n) { auto B = A.inverse(); c.ok(mulv(B.a, a, z) == I && mulv(a, B.a, z) == I, "inverse"); auto g = fill(1 + (int)r.below(8), n); auto G = mk(g) / A; c.ok(mulv(G.a, a, z) == g, "division by a matrix"); }
        c.nontrivial_input(); });
}
