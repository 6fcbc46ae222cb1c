// C15: enumeration and counting of combinatorial objects, factorials modulo prime powers
#include "vm.h"
#include <iterator>
#include "altruct/algorithm/math/combinatorics.h"
#include "altruct/algorithm/math/counting.h"
#include "altruct/algorithm/math/comb_primes.h"
#include "altruct/algorithm/math/comb_mod_pp.h"
#include "altruct/structure/math/factorial_holder.h"
#include "altruct/structure/math/fraction.h"
#include "str_math.h"
#include <list>
using namespace altruct::math;
typedef int64_t ll; typedef moduloX<int> mx; typedef modulo<int, 1000000007> mc; typedef moduloX<int64_t> ml; typedef fraction<ll> fr; typedef vm::u128 u128;
template<typename T> using V = std::vector<T>;
typedef V<int> vi;
// ---- enumeration
UNIT(combinations, 3000, 60000, "all combinations of a random sorted set of up to 9 elements: order, completeness, content, wrap-around") {
    auto& r = c.rng; int n = (int)r.below(10), k = (int)r.below(n + 1); vi s(n); for (int i = 0; i < n; i++) s[i] = (i ? s[i - 1] : -5) + 1 + (int)r.below(r.coin() ? 1 : 9); c.input("k=%d s=%s", k, vm::S(s).c_str());
    std::set<vi> want; for (unsigned m = 0; m < (1u << n); m++) if (__builtin_popcount(m) == k) { vi t; for (int i = 0; i < n; i++) if (m >> i & 1) t.push_back(s[i]); want.insert(t); }
    vi a = s; size_t cnt = 0; for (auto it = want.begin(); it != want.end(); ++it) { c.eq(vi(a.begin(), a.begin() + k), *it, "selected part"); vi t = a; std::sort(t.begin(), t.end()); c.eq(t, s, "elements preserved"); c.ok(std::is_sorted(a.begin() + k, a.end()), "rest sorted"); cnt++; bool more = next_combination(a.begin(), a.begin() + k, a.end()); c.eq(more, cnt < want.size(), "has next"); } c.eq(a, s, "wraps to the first");
    if (n > 2 && k) c.nontrivial_input();
}
UNIT(partitions_enum, 40, 60, "all partitions of m into at most l parts, in decreasing lexicographic order") {
    auto& r = c.rng; int m = (int)r.below(c.thorough ? 31 : 23), l = 1 + (int)r.below(m + 3); if (r.coin(1, 3)) l = std::max(1, m); c.input("m=%d l=%d", m, l); V<vi> want; vi cur; std::function<void(int, int)> go = [&](int left, int mx_) { if (left == 0) { vi t = cur; t.resize(l); want.push_back(t); return; } if ((int)cur.size() == l) return; for (int p = std::min(left, mx_); p >= 1; p--) { cur.push_back(p); go(left - p, p); cur.pop_back(); } }; go(m, m);
    vi a(l, 0); a[0] = m; for (size_t i = 0; i < want.size(); i++) { c.eq(a, want[i], "partition"); bool more = next_partition(a.begin(), a.end()); c.eq(more, i + 1 < want.size(), "has next"); } c.eq(a, want[0], "wraps to the first"); vi e; c.eq(next_partition(e.begin(), e.end()), false, "empty"); V<ll> b(l, 0); b[0] = m; next_partition(b.begin(), b.end()); if (want.size() > 1) for (int i = 0; i < l; i++) c.eq(b[i], (ll)want[1][i], "64-bit parts"); c.event("partitions", want.size()); c.nontrivial_input();
}
template<typename I> void nthp(vm::Ctx& c, int d, I o) { c.input("d=%d o=%s bits=%d", d, vm::S(o).c_str(), (int)sizeof(I) * 8); vi a(d), rest, w; for (int i = 0; i < d; i++) a[i] = i, rest.push_back(i); nth_permutation(a.begin(), a.end(), o); u128 f[34]; f[0] = 1; for (int i = 1; i <= 33; i++) f[i] = f[i - 1] * (u128)i; u128 x = (u128)o; if (d <= 33) x %= f[d]; for (int i = d; i >= 1; i--) { u128 q = i - 1 <= 33 ? x / f[i - 1] : 0; if (i - 1 <= 33) x %= f[i - 1]; w.push_back(rest[(size_t)q]); rest.erase(rest.begin() + (size_t)q); } c.eq(a, w, "nth permutation"); if (d > 2) c.nontrivial_input(); }
UNIT(nth_permutations, 20000, 400000, "o-th permutation of up to 40 elements for 32/64-bit indices, including indices past n!") { auto& r = c.rng; int d = (int)r.below(r.coin() ? 7 : 40); switch (r.below(4)) { case 0: nthp<int>(c, d, (int)r.edgy(0, INT32_MAX)); break; case 1: nthp<uint32_t>(c, d, (uint32_t)r.edgyu(UINT32_MAX)); break; case 2: nthp<ll>(c, d, r.edgy(0, INT64_MAX)); break; default: nthp<uint64_t>(c, d, r.edgyu(UINT64_MAX)); } }
UNIT(permutations_order, 7, 8, "all permutations in lexicographic order") { int d = (int)c.index; c.input("d=%d", d); vi p(d); for (int i = 0; i < d; i++) p[i] = i; int o = 0; do { vi a(d); for (int i = 0; i < d; i++) a[i] = i; nth_permutation(a.begin(), a.end(), o); c.eq(a, p, "order"); o++; } while (std::next_permutation(p.begin(), p.end())); c.nontrivial_input(); }
// ---- counting
template<typename T> V<V<T>> pascal(int n, int k, T one, int kind) { T z = one - one; V<V<T>> s(n, V<T>(std::max(k, 1), z)); for (int i = 0; i < n; i++) for (int j = 0; j < std::max(k, 1); j++) { if (i == 0) { s[i][j] = j == 0 ? one : z; continue; } T w = z; int m = kind == 1 ? i - 1 : kind == 2 ? j : 1; for (int q = 0; q < m; q++) w = w + s[i - 1][j]; T pr = j ? s[i - 1][j - 1] : z; s[i][j] = kind == 1 ? pr - w : pr + w; } return s; }
template<typename T> void counts(vm::Ctx& c, T one, int nmax, bool table_only) {
    auto& r = c.rng; T z = one - one; int n = 1 + (int)r.below(nmax), k = (int)r.below(n + 2); c.note(" n=" + vm::S(n) + " k=" + vm::S(k)); int K = std::max(n, k) + 1; auto s1 = pascal<T>(n + 1, K, one, 1), s2 = pascal<T>(n + 1, K, one, 2);
    auto tab = [&](const V<V<T>>& t, const V<V<T>>& s, const char* tag) { c.eq(t.size(), (size_t)n, tag); for (int i = 0; i < n; i++) c.eq(t[i], V<T>(s[i].begin(), s[i].begin() + std::min(i + 1, k)), tag); };
    tab(stirling_s1_all(n, k, one), s1, "stirling_s1_all"); tab(stirling_s2_all(n, k, one), s2, "stirling_s2_all"); c.eq(stirling_s1_all_k_for_n(n, one), V<T>(s1[n].begin(), s1[n].begin() + n + 1), "stirling_s1_all_k_for_n"); c.eq(stirling_s1_all_k_for_n(0, one), V<T>{one}, "stirling_s1 row 0");
    { V<T> f{one}; for (int i = 1; i <= n; i++) { T w = z; for (int q = 0; q < i; q++) w = w + f.back(); f.push_back(w); } c.eq(factorial(n, one), f[n], "factorial"); c.eq(factorial(0, one), one, "0!"); }
    { V<T> e(n, z), p(n, z), q(n, z), o(n, z); e[0] = p[0] = q[0] = o[0] = one; for (int m = 1; m < n; m++) { for (int i = n - 1; i >= m; i--) e[i] = e[i] - e[i - m], q[i] = q[i] + q[i - m]; if (m % 2) for (int i = n - 1; i >= m; i--) o[i] = o[i] + o[i - m]; for (int i = m; i < n; i++) p[i] = p[i] + p[i - m]; }
      c.eq(euler_function(n, one), e, "euler_function"); c.eq(partitions_p_slow(n, one), p, "partitions_p_slow"); c.eq(partitions_p_distinct_slow(n, one), q, "partitions_p_distinct_slow"); c.eq(partitions_p(n, one), p, "partitions_p"); c.eq(partitions_p_distinct(n, one), q, "partitions_p_distinct"); c.eq(partitions_p_distinct_odd(n, one), o, "partitions_p_distinct_odd"); }
    if (!table_only) { auto col = [&](const V<V<T>>& s) { V<T> w; for (int i = 0; i < n; i++) w.push_back(s[i][k]); return w; }; c.eq(stirling_s1_all_n_for_k(n, k, one), col(s1), "stirling_s1_all_n_for_k"); c.eq(stirling_s2_all_n_for_k(n, k, one), col(s2), "stirling_s2_all_n_for_k"); c.eq(stirling_s2_all_k_for_n(n, one), V<T>(s2[n].begin(), s2[n].begin() + n + 1), "stirling_s2_all_k_for_n"); c.eq(stirling_s1(n, k, one), s1[n][k], "stirling_s1"); }
    if (k < 13) c.eq(stirling_s2<T>(n, k, one), s2[n][k], "stirling_s2"); c.eq(stirling_s1(n, -1, one), z, "k<0"); c.eq(stirling_s2<T>(n, -1, one), z, "k<0"); if (!table_only) c.eq(stirling_s2<T>((ll)n, k, one), s2[n][k], "stirling_s2 64-bit n"); if (n > 3) c.nontrivial_input();
}
UNIT(counting, 1500, 40000, "Stirling numbers, Euler function and partition numbers against their recurrences over residues, rationals and integers") { auto& r = c.rng; switch (r.below(5)) { case 0: c.input("int64"); counts<ll>(c, 1, 14, true); break; case 1: c.input("fraction"); counts<fr>(c, fr(1), 8, false); break; case 2: { int P = r.pick({97, 101, 257, 65537, 1000000007, 2147483647}); c.input("P=%d", P); counts<mx>(c, mx(1, P), 60, false); break; } case 3: c.input("1e9+7"); counts<mc>(c, mc(1), r.coin(1, 30) ? 500 : 60, false); break; default: { ll P = 9223372036854775783ll; c.input("P=%lld", (long long)P); counts<ml>(c, ml(1, P), 40, false); } } }
UNIT(euler_function_long, 6, 60, "Euler function to tens of thousands of terms: signs at the generalised pentagonal numbers, zero elsewhere; its product with the partition numbers is one") {
    auto& r = c.rng; int n = 5000 + (int)r.below(60000); c.input("n=%d", n); V<int> w(n, 0); for (ll k = 0; k * (3 * k - 1) / 2 < n; k++) { int s = k % 2 ? -1 : 1; w[k * (3 * k - 1) / 2] = s; if (k * (3 * k + 1) / 2 < n) w[k * (3 * k + 1) / 2] = s; }
    c.eq(euler_function(n, 1), w, "euler_function"); auto f = euler_function(n, mc(1)); for (int i = 0; i < n; i++) c.eq(f[i], mc(w[i]), "euler_function"); int m = 2000 + (int)r.below(3000); auto p = partitions_p(m, mc(1)); for (int i = 1; i < m; i++) { mc s = 0; for (ll k = 0; k * (3 * k - 1) / 2 <= i; k++) { mc g = k % 2 ? mc(-1) : mc(1); s += g * p[i - k * (3 * k - 1) / 2]; if (k && k * (3 * k + 1) / 2 <= i) s += g * p[i - k * (3 * k + 1) / 2]; } c.eq(s, mc(0), "pentagonal recurrence"); }
    c.nontrivial_input();
}
// ---- exponents and multinomials
template<typename I> void expo(vm::Ctx& c, I n, I k, I p) { c.input("n=%s k=%s p=%s", vm::S(n).c_str(), vm::S(k).c_str(), vm::S(p).c_str()); auto f = [&](vm::i128 m) { vm::i128 e = 0; for (vm::i128 q = p; q <= m; q *= p) e += m / q; return e; }; c.eq((vm::i128)factorial_prime_exponent(n, p), f(n), "factorial_prime_exponent"); c.eq((vm::i128)binomial_prime_exponent(n, k, p), f(n) - f(k) - f(n - k), "binomial_prime_exponent"); V<I> parts; I left = n; vm::i128 w = f(n); while (left > 0 && parts.size() < 5) { I x = (I)c.rng.below((uint64_t)left + 1); parts.push_back(x); w -= f(x); left = left - x; } parts.push_back(left); w -= f(left); c.eq((vm::i128)multinomial_prime_exponent<I>(parts, p), w, "multinomial_prime_exponent"); if (n > p) c.nontrivial_input(); }
UNIT(prime_exponents, 20000, 400000, "exponent of a prime in factorials, binomials, multinomials for 32/64-bit n") { auto& r = c.rng; int p = r.pick({2, 3, 5, 7, 11, 97, 46337, 1000003, 2147483647}); if (r.coin()) { int n = (int)r.edgy(0, INT32_MAX), k = (int)r.range(0, n); expo<int>(c, n, k, p); } else { ll n = r.edgy(0, INT64_MAX), k = r.range(0, n); expo<ll>(c, n, k, r.coin(1, 8) ? 1000000007ll : p); } }
UNIT(multinomials, 4000, 80000, "multinomial coefficients against products of binomials over integers, rationals and residues, also from sorted element lists") {
    auto& r = c.rng; int l = (int)r.below(5); vi ks; int tot = 0; for (int i = 0; i < l; i++) { int k = (int)r.below(4); if (tot + k > 10) k = 0; ks.push_back(k); tot += k; } c.input("ks=%s", vm::S(ks).c_str()); ll bin[21][21] = {}; for (int i = 0; i < 21; i++) for (int j = 0; j <= i; j++) bin[i][j] = j ? bin[i - 1][j - 1] + (j < i ? bin[i - 1][j] : 0) : 1; ll w = 1; int s = 0; for (int k : ks) s += k, w *= bin[s][k];
    auto el = vi(); for (int i = 0; i < l; i++) for (int j = 0; j < ks[i]; j++) el.push_back(i * 3 - 2); c.eq(multinomial<ll>(ks), w, "multinomial"); c.eq(elements_multinomial<ll>(el), w, "elements_multinomial"); c.eq(multinomial<fr>(ks.begin(), ks.end(), fr(1)), fr(w), "multinomial rational"); int P = r.pick({13, 101, 1000000007}); mx one(1, P); c.eq(multinomial<mx>(ks.begin(), ks.end(), one), mx((int)(w % P), P), "multinomial residue"); c.eq(elements_multinomial<mx>(el.begin(), el.end(), one), mx((int)(w % P), P), "elements residue"); std::list<int> lk(ks.begin(), ks.end()), le(el.begin(), el.end()); c.eq(multinomial<ll>(lk), w, "list"); c.eq(elements_multinomial<ll>(le), w, "list of elements"); if (l > 1) c.nontrivial_input();
}
UNIT(factorial_tables, 1500, 20000, "factorials, inverse factorials, inverses and binomials of the factorial holder for sizes 1..P") {
    auto& r = c.rng; int P = r.pick({2, 3, 5, 7, 13, 101, 997, 1000000007}), sz = 1 + (int)r.below(std::min(P, 150)); c.input("P=%d sz=%d", P, sz); mx one(1, P); factorial_holder<mx> h(sz, one); c.eq(h.size(), sz, "size"); V<mx> f; u128 x = 1; for (int i = 0; i < sz; i++) { if (i) x = x * (u128)i % (u128)P; f.push_back(mx((int)x, P)); } c.eq(h.fact(), f, "fact"); for (int i = 0; i < sz; i++) { c.eq(h.ifact()[i] * f[i], one, "ifact"); if (i) c.eq(h.inv()[i] * mx(i, P), one, "inv"); }
    const auto& ch = h; V<V<mx>> b(sz, V<mx>(sz + 2, mx(0, P))); for (int i = 0; i < sz; i++) for (int j = 0; j <= i; j++) b[i][j] = j ? b[i - 1][j - 1] + b[i - 1][j] : one; for (int t = 0; t < 60; t++) { int n = (int)r.below(sz), k = (int)r.below(n + 2); c.eq(ch.bin(n, k), b[n][k], "bin"); c.eq(ch.fact(n), f[n], "fact(k)"); c.eq(ch.ifact(n) * f[n], one, "ifact(k)"); if (n) c.eq(ch.inv(n) * mx(n, P), one, "inv(k)"); } if (sz > 2) c.nontrivial_input();
}
// ---- factorials and binomials modulo prime powers
struct PP { int p, e; ll m; V<ll> tab; ll block; };
static PP& pp(int p, int e) { static std::map<std::pair<int, int>, PP> mp; auto& q = mp[{p, e}]; if (!q.p) { q.p = p; q.e = e; q.m = 1; for (int i = 0; i < e; i++) q.m *= p; q.tab.resize(q.m + 1); u128 x = 1 % q.m; for (ll i = 0; i <= q.m; i++) { if (i % p) x = x * (u128)i % (u128)q.m; q.tab[i] = (ll)x; } q.block = q.tab[q.m]; } return q; }
static ll skipped(PP& q, ll n) { ll f = q.tab[n % q.m]; if ((n / q.m) & 1) f = (ll)((u128)f * (u128)q.block % (u128)q.m); return f; } // block^2 = 1
static std::pair<ll, ll> reduced(PP& q, ll n) { u128 f = 1 % q.m; ll a = 0; while (n > 0) { f = f * (u128)skipped(q, n) % (u128)q.m; n /= q.p; a += n; } return {(ll)f, a}; }
static ll invm(ll a, ll m) { ll r0 = m, r1 = a % m, t0 = 0, t1 = 1; while (r1) { ll k = r0 / r1; std::swap(r0, r1); r1 -= k * r0; std::swap(t0, t1); t1 -= k * t0; } return ((t0 % m) + m) % m; }
template<typename R, typename I> void modpp(vm::Ctx& c, PP& q, I n, I k, bool slow) {
    int p = q.p, e = q.e; c.input("p=%d e=%d n=%s k=%s R=%d", p, e, vm::S(n).c_str(), vm::S(k).c_str(), (int)sizeof(R)); auto f = reduced(q, n), g = reduced(q, k), h = reduced(q, n - k); ll b = (ll)((u128)f.first * (u128)invm((ll)((u128)g.first * (u128)h.first % (u128)q.m), q.m) % (u128)q.m), be = f.second - g.second - h.second; typedef std::pair<ll, ll> pr; auto P = [](auto x) { return pr((ll)x.first, (ll)x.second); };
    auto full = factorials_mod_pp_skipped<R>((int)q.m, p, e), small = factorials_mod_pp_skipped<R>(p * e + (int)c.rng.below(3), p, e); for (int i = 0; i < (int)small.size(); i++) c.eq((ll)small[i], skipped(q, i), "factorials table");
    V<R> st(small); c.eq(P(factorial_mod_pp_skipped<R, I>(n, p, e, st.data())), pr(skipped(q, n), (ll)n / p), "factorial_mod_pp_skipped"); c.eq(P(factorial_mod_pp_reduced<R, I>(n, p, e, st.data())), f.second >= 0 ? pr(f) : f, "factorial_mod_pp_reduced"); c.eq(P(binomial_mod_pp_reduced<R, I>(n, k, p, e, st.data())), pr(b, be), "binomial_mod_pp_reduced"); c.eq(P(factorial_mod_pp_reduced_2<R, I>(n, p, e, full.data())), pr(f), "factorial_mod_pp_reduced_2"); c.eq(P(binomial_mod_pp_reduced_2<R, I>(n, k, p, e, full.data())), pr(b, be), "binomial_mod_pp_reduced_2");
    if (slow) { c.eq(P(factorial_mod_pp_skipped_slow<R, I>(n, p, e)), pr(skipped(q, n), (ll)n / p), "skipped_slow"); c.eq(P(factorial_mod_pp_reduced_slow<R, I>(n, p, e)), pr(f), "reduced_slow"); c.eq(P(binomial_mod_pp_reduced_slow<R, I>(n, k, p, e)), pr(b, be), "binomial_slow"); } if (n > p) c.nontrivial_input();
}
UNIT(mod_prime_power, 6000, 120000, "factorials and binomials modulo p^e (all variants) for 32/64-bit n against an explicit table-product oracle") {
    auto& r = c.rng; static const int mxe[][2] = {{2, 12}, {3, 8}, {5, 5}, {7, 4}, {11, 3}, {13, 3}, {31, 2}, {61, 2}, {127, 1}, {1009, 1}}; auto* w = mxe[r.below(10)]; PP& q = pp(w[0], 1 + (int)r.below(w[1])); bool slow = r.coin(); ll lim = slow ? 1500 : r.coin() ? INT32_MAX : INT64_MAX; ll n = slow ? (ll)r.below(lim) : r.edgy(0, lim); if (r.coin(1, 5)) { n = n / q.m * q.m; if (r.coin() && n) n--; } ll k = r.coin(1, 4) ? std::min<ll>(n, (ll)r.below(50)) : r.range(0, n); bool fits = n <= INT32_MAX; switch (r.below(3)) { case 0: if (fits) { modpp<int, int>(c, q, (int)n, (int)k, slow); break; } case 1: modpp<int, ll>(c, q, n, k, slow); break; default: modpp<ll, ll>(c, q, n, k, slow); }
}
UNIT(partitions_deep, 400, 20000, "long partitions of m up to 90 entered in the middle of the enumeration: the next one is the largest smaller partition that fits") {
    auto& r = c.rng; int m = 20 + (int)r.below(70), l = 1 + (int)r.below(m + 2); vi a; int left = m; for (int mx_ = m; left > 0 && (int)a.size() < l;) { int need = (left + (l - (int)a.size()) - 1) / (l - (int)a.size()); int hi = std::min(left, mx_); int lo = std::max(1, need); if (lo > hi) { break; } int v = r.coin() ? lo + (int)r.below(std::min(hi - lo + 1, 4)) : lo + (int)r.below(hi - lo + 1); a.push_back(v); left -= v; mx_ = v; }
    if (left) { c.event("discarded"); return; } a.resize(l, 0); c.input("m=%d l=%d a=%s", m, l, vm::S(a).c_str());
    for (int t = 0; t < 60; t++) { vi w; bool more = false; // independent successor: the longest prefix whose last part can drop by one and still hold the rest
        for (int i = l - 1; i >= 0 && !more; i--) { if (a[i] < 2) continue; int rest = 1; for (int j = i + 1; j < l; j++) rest += a[j]; int v = a[i] - 1; if ((ll)v * (l - 1 - i) < rest) continue; w.assign(a.begin(), a.begin() + i); w.push_back(v); while (rest > 0) { int q = std::min(rest, v); w.push_back(q); rest -= q; } w.resize(l, 0); more = true; }
        if (!more) { w.assign(l, 0); w[0] = m; } std::list<int> li(a.begin(), a.end()); bool g = next_partition(a.begin(), a.end()); c.eq(a, w, "next partition"); c.eq(g, more, "has next"); c.eq(next_partition(li.begin(), li.end()), more, "list: has next"); c.eq(vi(li.begin(), li.end()), w, "list: next partition"); if (!more) break; }
    c.nontrivial_input();
}
UNIT(default_identity, 60, 300, "the overloads that take the unit of the ring by default agree with those that are given it") {
    int n = 1 + (int)(c.index % 12), k = (int)(c.index / 5 % 13); c.input("n=%d k=%d", n, k); ll o = 1; mc m1(1);
    c.eq(factorial<ll>(n), factorial<ll>(n, o), "factorial"); c.eq(factorial<mc>(n), factorial<mc>(n, m1), "factorial"); c.eq(stirling_s1_all<ll>(n, k), stirling_s1_all<ll>(n, k, o), "stirling_s1_all"); c.eq(stirling_s2_all<ll>(n, k), stirling_s2_all<ll>(n, k, o), "stirling_s2_all"); c.eq(stirling_s1_all_k_for_n<ll>(n), stirling_s1_all_k_for_n<ll>(n, o), "s1 k for n"); c.eq(stirling_s1_all_k_for_n<mc>(n), stirling_s1_all_k_for_n<mc>(n, m1), "s1 k for n");
    c.eq(stirling_s1_all_n_for_k<mc>(n, k), stirling_s1_all_n_for_k<mc>(n, k, m1), "s1 n for k"); c.eq(stirling_s2_all_n_for_k<mc>(n, k), stirling_s2_all_n_for_k<mc>(n, k, m1), "s2 n for k"); c.eq(stirling_s2_all_k_for_n<mc>(n), stirling_s2_all_k_for_n<mc>(n, m1), "s2 k for n"); c.eq(stirling_s1<mc>(n, k), stirling_s1<mc>(n, k, m1), "s1"); c.eq(stirling_s2<mc>(n, k), stirling_s2<mc>(n, k, m1), "s2");
    c.eq(euler_function<ll>(n), euler_function<ll>(n, o), "euler"); c.eq(partitions_p_slow<ll>(n), partitions_p_slow<ll>(n, o), "p slow"); c.eq(partitions_p_distinct_slow<ll>(n), partitions_p_distinct_slow<ll>(n, o), "q slow"); c.eq(partitions_p<mc>(n), partitions_p<mc>(n, m1), "p"); c.eq(partitions_p_distinct<mc>(n), partitions_p_distinct<mc>(n, m1), "q"); c.eq(partitions_p_distinct_odd<mc>(n), partitions_p_distinct_odd<mc>(n, m1), "o");
    vi ks{n % 5, k % 4, 1}, el; for (int i = 0; i < 3; i++) for (int j = 0; j < ks[i]; j++) el.push_back(i); c.eq((multinomial<ll>(ks.begin(), ks.end())), multinomial<ll>(ks, o), "multinomial"); c.eq((elements_multinomial<ll>(el.begin(), el.end())), elements_multinomial<ll>(el, o), "elements_multinomial"); c.eq((multinomial<mc>(ks.begin(), ks.end())).v, (int)(multinomial<ll>(ks, o) % 1000000007), "multinomial modulo"); c.eq((elements_multinomial<mc>(el.begin(), el.end())).v, (int)(multinomial<ll>(ks, o) % 1000000007), "elements_multinomial modulo"); vi none; c.eq((elements_multinomial<ll>(none.begin(), none.end())), o, "nothing"); c.nontrivial_input();
}
