// C19: permutations in line, cycle and transposition notation; group laws, powers and roots
#include "vm.h"
#include "altruct/structure/math/permutation.h"
#include "str_math.h"
using namespace altruct::math;
typedef int64_t ll; template<typename T> using V = std::vector<T>;
typedef V<int> A;
static A ident(int n) { A a(n); for (int i = 0; i < n; i++) a[i] = i; return a; }
static A comp(const A& p, const A& q) { A r(p.size()); for (size_t i = 0; i < p.size(); i++) r[i] = q[p[i]]; return r; } // first p then q
static A inverse(const A& p) { A r(p.size()); for (size_t i = 0; i < p.size(); i++) r[p[i]] = (int)i; return r; }
static A power(const A& p, ll T) { A b = T < 0 ? inverse(p) : p, r = ident((int)p.size()); unsigned long long e = T < 0 ? 0ull - (unsigned long long)T : (unsigned long long)T; for (; e; e >>= 1) { if (e & 1) r = comp(r, b); b = comp(b, b); } return r; }
static int ntrans(const A& p) { V<char> u(p.size()); int c = 0; for (size_t i = 0; i < p.size(); i++) if (!u[i]) for (int j = (int)i, k = 0; !u[j]; j = p[j], k++) { u[j] = 1; if (k) c++; } return c; }
// line notation p: j -> p[j]; apply to data moves data[p[j]] into place j
template<typename I> static V<I> cv(const A& a) { return V<I>(a.begin(), a.end()); }
static A rnd(vm::Rng& r, int n) { A a = ident(n); switch (r.below(6)) { case 0: break; case 1: if (n > 1) std::swap(a[r.below(n)], a[r.below(n)]); break; case 2: std::rotate(a.begin(), a.begin() + (n ? r.below(n) : 0), a.end()); break; case 3: for (int i = 0; i + 1 < n; i += 2) if (r.coin()) std::swap(a[i], a[i + 1]); break; default: r.shuffle(a); } return a; }
template<typename I> static void group(vm::Ctx& c) {
    typedef permutation<I> P; auto& r = c.rng; int n = (int)r.below(r.coin() ? 8 : 60); A a = rnd(r, n), b = rnd(r, n), d = rnd(r, n); c.note(" a=" + vm::S(a) + " b=" + vm::S(b)); P p(cv<I>(a)), q(cv<I>(b)), s(cv<I>(d)); auto is = [&](const P& x, const A& w, const char* tag) { c.eq((ll)x.n, (ll)w.size(), "size"); c.eq(x.to_line(), cv<I>(w), tag); };
    is(p, a, "line notation"); c.eq(p.to_cycles(), P::line_to_cycles(cv<I>(a)), "to_cycles");
    // cycles: disjoint, follow the map, without fixed points; every element at most once
    { V<int> seen(n); for (auto& cy : p.to_cycles()) { c.ok(cy.size() > 1, "nontrivial cycle"); for (size_t i = 0; i < cy.size(); i++) { c.eq((ll)a[cy[i]], (ll)cy[(i + 1) % cy.size()], "cycle follows the map"); c.ok(!seen[cy[i]]++, "cycles disjoint"); } } for (int i = 0; i < n; i++) c.ok(seen[i] || a[i] == i, "moved points are in cycles"); V<int> all(n); for (auto& cy : p.to_all_cycles()) for (auto e : cy) all[e]++; c.eq(all, V<int>(n, 1), "all cycles partition the points"); is(P(p.to_all_cycles(), n), a, "from all cycles"); }
    is(P(p.to_cycles(), n), a, "from cycles"); is(P(p.to_transpositions(), n), a, "from transpositions"); c.eq((int)p.to_transpositions().size(), ntrans(a), "minimal number of transpositions"); c.eq(P::line_to_transpositions(cv<I>(a)), p.to_transpositions(), "line_to_transpositions"); { auto l = P::identity_line(n); c.eq(P::apply_transpositions_to_line(l, p.to_transpositions()), cv<I>(a), "transpositions applied in order"); }
    { auto t = p.to_transpositions(); auto cy = P::transpositions_to_cycles(t); int m = (int)P::size(t); c.eq(m, (int)P::size(p.to_cycles()), "size of support"); c.eq(cy, p.to_cycles(), "transpositions_to_cycles"); c.eq(P::transpositions_to_line(t, n), cv<I>(a), "transpositions_to_line"); c.eq(P::cycles_to_line(p.cycles, n), cv<I>(a), "cycles_to_line"); }
    // cycles listed in any order and rotation denote the same permutation
    { auto cy = p.to_all_cycles(); r.shuffle(cy); for (auto& x : cy) std::rotate(x.begin(), x.begin() + r.below(x.size()), x.end()); P o(cy, n); is(o, a, "rotated cycles"); c.ok(o == p && !(o != p) && !(o < p) && !(o > p) && o <= p && o >= p, "equal as permutations"); is(o * q, comp(a, b), "product of rotated cycles"); is(o.inv(), inverse(a), "inverse of rotated cycles"); is(o.pow(3), power(a, 3), "power of rotated cycles"); is(P(o.to_transpositions(), n), a, "transpositions of rotated cycles"); }
    is(p * q, comp(a, b), "product"); is((p * q) * s, comp(comp(a, b), d), "product of three"); c.ok((p * q) * s == p * (q * s), "associative"); is(p.inv(), inverse(a), "inverse"); c.ok(p * p.inv() == P(n) && p.inv() * p == P(n), "inverse cancels"); is(p / q, comp(a, inverse(b)), "quotient"); c.ok((p * q) / q == p, "(p*q)/q"); c.ok(identityOf(p) == P(n) && p * identityOf(p) == p, "identity"); P z = p; z *= q; c.ok(z == p * q, "*="); z = p; z /= q; c.ok(z == p / q, "/="); z = p; z *= z; is(z, comp(a, a), "self *="); z = p; z /= z; c.ok(z == P(n), "self /=");
    c.ok((p == q) == (a == b) && (p != q) == (a != b), "equality"); c.ok((p < q) + (q < p) + (p == q) == 1 && (p > q) == (q < p) && (p <= q) == !(q < p) && (p >= q) == !(p < q), "total order"); if (p < q && q < s) c.ok(p < s, "transitive");
    // applying to data
    V<I> x(n + (int)r.below(3)); for (auto& e : x) e = (I)r.below(100); V<I> y = x, w = x; for (int i = 0; i < n; i++) w[i] = x[a[i]]; c.eq(p.apply_to(y), w, "applied to data"); V<I> y1 = x, y2 = x; q.apply_to(y1); p.apply_to(y1); (p * q).apply_to(y2); c.eq(y1, y2, "product applies right factor first");
    ll T = r.pick<ll>({0, 1, 2, 3, -1, -2, (ll)r.range(-100, 100), r.edgy(INT64_MIN, INT64_MAX)}); c.note(" T=" + vm::S(T)); is(p.pow(T), power(a, T), "power"); ll U = r.range(-1000, 1000), W = r.range(-1000, 1000); c.ok(p.pow(U) * p.pow(W) == p.pow(U + W), "power sum"); c.ok(p.pow(2) == p * p, "square equals product"); c.ok(p.pow(-1) == p.inv(), "power -1");
    // different sizes: smaller permutation fixes the rest
    int k = (int)r.below(n + 1); A sm = rnd(r, k), big = sm; for (int i = k; i < n; i++) big.push_back(i); P ps(cv<I>(sm)); { P pb(cv<I>(big)); for (auto& z : {ps, pb, p}) for (auto& w : {ps, pb, p}) c.ok((z < w) + (w < z) + (z == w) == 1 && (z > w) == (w < z) && (z != w) == !(z == w) && (z <= w) == !(w < z) && (z >= w) == !(z < w), "total order across sizes"); } is(p * ps, comp(a, big), "product with a smaller permutation"); is(ps * p, comp(big, a), "product with a larger permutation"); { V<I> l = cv<I>(sm); P::expand_line(l, (I)n); c.eq(l, cv<I>(big), "expand_line"); } if (n > 1 && a != ident(n)) c.nontrivial_input();
}
UNIT(group_laws, 6000, 120000, "random permutations of 0..59 points (int and 64-bit indices): notations, composition, inverse, quotient, powers, order, application to data") { if (c.rng.coin()) { c.input("int"); group<int>(c); } else { c.input("int64"); group<int64_t>(c); } }
typedef permutation<int> P;
UNIT(roots_small, 1200, 6000, "roots of every permutation of up to 6 points against exhaustive search over all candidate roots: existence, parity, number of transpositions") {
    auto& r = c.rng; int n = 1 + (int)(c.index % 6); ll T = 1 + (ll)r.below(24); A a = rnd(r, n); if (r.coin()) a = power(rnd(r, n), T); c.input("T=%lld a=%s", (long long)T, vm::S(a).c_str()); P p(a); int best[2] = {-1, -1}; A s = ident(n); do { if (power(s, T) == a) { int t = ntrans(s); if (best[t & 1] < 0 || t < best[t & 1]) best[t & 1] = t; } } while (std::next_permutation(s.begin(), s.end()));
    int any = best[0] < 0 ? best[1] : best[1] < 0 ? best[0] : std::min(best[0], best[1]); for (int par = -1; par <= 1; par++) { int want = par < 0 ? any : best[par]; P q = p.root(T, par); if (want < 0) { c.eq(q.n, 0, "no such root"); continue; } c.eq(q.n, n, "root exists"); A l = q.to_line(); c.eq(power(l, T), a, "root^T"); if (par >= 0) c.eq(ntrans(l) & 1, par, "parity"); else c.eq(ntrans(l), want, "fewest transpositions"); c.ok(q.pow(T) == p, "root.pow(T) == p"); } if (a != ident(n)) c.nontrivial_input();
}
UNIT(roots_large, 3000, 60000, "roots of known powers of permutations of up to 80 points, requested parity as of the generating permutation") {
    auto& r = c.rng; int n = 1 + (int)r.below(80); ll T = r.coin() ? 1 + (ll)r.below(60) : (ll)r.pick<ll>({64, 210, 2310, 1000000007, 720720, 1000000000000ll}); A s = rnd(r, n), a = power(s, T); c.input("T=%lld s=%s", (long long)T, vm::S(s).c_str()); P p(a); for (int par : {-1, ntrans(s) & 1}) { P q = p.root(T, par); c.eq(q.n, n, "root exists"); A l = q.to_line(); c.eq(power(l, T), a, "root^T"); if (par >= 0) c.eq(ntrans(l) & 1, par, "parity"); } if (a != ident(n)) c.nontrivial_input();
}
UNIT(long_permutations, 40, 600, "permutations of up to tens of thousands of points: notations, products, inverses, huge powers and roots, including one cycle through all points") {
    auto& r = c.rng; int n = 1000 + (int)r.below(c.thorough ? 50000 : 12000), k = (int)(c.index % 4); A a = rnd(r, n), b = rnd(r, n); if (k == 0) { A o = ident(n); r.shuffle(o); for (int i = 0; i < n; i++) a[o[i]] = o[(i + 1) % n]; } else if (k == 1) { A o = ident(n); r.shuffle(o); for (int i = 0, L = 1; i < n; i += L, L = 1 + (int)r.below(30)) { int e = std::min(n, i + L); for (int j = i; j < e; j++) a[o[j]] = o[j + 1 < e ? j + 1 : i]; } }
    c.input("n=%d kind=%d hash=%llu", n, k, [&] { unsigned long long h = 0; for (int x : a) h = vm::mix64(h + x); return h; }()); P p(a), q(b); c.ok(p.to_line() == a, "line notation"); c.ok((p * q).to_line() == comp(a, b), "product"); c.ok(p.inv().to_line() == inverse(a), "inverse"); c.ok((p / q).to_line() == comp(a, inverse(b)), "quotient"); ll T = r.edgy(INT64_MIN, INT64_MAX); c.note(" T=" + vm::S(T)); c.ok(p.pow(T).to_line() == power(a, T), "power"); auto t = p.to_transpositions(); c.eq((int)t.size(), ntrans(a), "minimal number of transpositions"); c.ok(P(t, n).to_line() == a, "from transpositions"); c.ok(P(p.to_all_cycles(), n) == p, "from all cycles");
    { ll e = 1 + (ll)r.below(k == 1 ? 40 : 5); A s = power(a, e); P g = P(s).root(e); c.eq(g.n, n, "root exists"); if (g.n == n) c.ok(power(g.to_line(), e) == s, "root^T"); } A x = rnd(r, n), w = x; for (int i = 0; i < n; i++) w[i] = x[a[i]]; A y = x; c.ok(p.apply_to(y) == w, "applied to data"); c.nontrivial_input();
}
