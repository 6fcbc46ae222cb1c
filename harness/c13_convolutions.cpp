// C13: transforms and convolutions
#include "vm.h"
#include "altruct/algorithm/math/fft.h"
#include "altruct/algorithm/math/convolutions.h"
#include "altruct/structure/math/root_wrapper.h"
#include "altruct/structure/math/complex.h"
#include "str_math.h"
#include <cmath>
using namespace altruct::math;
typedef int64_t ll; typedef moduloX<int> mx; typedef moduloX<uint32_t> mu; typedef modulo<int, 12289> m12; typedef modulo<int, 998244353, modulo_storage::CONSTANT> mc; typedef complex<double> cd;
template<typename T> using V = std::vector<T>;

template<typename T> struct Field { T one, root; int order; ll P; T rnd(vm::Ctx& c) const { return castOf(one, (ll)c.rng.below(P)); } };
template<typename F> void with_field(vm::Ctx& c, F f) {
    struct PR { int p, r, lg; }; static const PR prs[] = {{1012924417, 198, 21}, {1004535809, 4172, 21}, {985661441, 210, 22}, {998244353, 31, 23}, {897581057, 45, 23}, {754974721, 362, 24}, {469762049, 30, 26}, {12289, 41, 12}};
    switch (c.rng.below(4)) {
    case 0: { PR p = prs[c.rng.below(8)]; c.input("moduloX P=%d", p.p); f(Field<mx>{mx(1, p.p), mx(p.r, p.p), 1 << p.lg, p.p}); break; }
    case 1: c.input("mod 12289"); f(Field<m12>{m12(1), m12(41), 1 << 12, 12289}); break;
    case 2: c.input("const 998244353"); f(Field<mc>{mc(1), mc(31), 1 << 23, 998244353}); break;
    default: { uint32_t P = 3221225473u; c.input("moduloX<uint32> P=%u", P); mu g(5, P); f(Field<mu>{mu(1, P), powT(g, (P - 1) >> 20), 1 << 20, P}); }
    }
}
UNIT(fft, 1500, 30000, "fft and fft_rec against the defining sum, and inverted by the inverse root, sizes 1..256 over several prime fields") {
    with_field(c, [&](auto F) { typedef decltype(F.one) T; int lg = c.index < 90 ? (int)c.index / 10 : (int)c.rng.below(c.thorough ? 9 : 8), n = 1 << lg; c.note(" n=" + vm::S(n)); T z = F.one - F.one, root = powT(F.root, F.order / n); int k = (int)c.rng.below(3); if (n > 2 && k == 0) root = powT(root, 2 * (int)c.rng.below(n / 2) + 1);
        V<T> a, w(n, z), d(n, z); for (int i = 0; i < n; i++) a.push_back(c.rng.coin(1, 8) ? z : F.rnd(c)); V<T> pw{F.one}; for (int i = 1; i < n; i++) pw.push_back(pw[i - 1] * root); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w[i] = w[i] + a[j] * pw[(ll)i * j % n];
        V<T> x = a, src = a; fft(x.data(), n, root); c.eq(x, w, "fft"); fft_rec(d.data(), src.data(), n, root); c.eq(d, w, "fft_rec"); c.eq(src, a, "fft_rec source unchanged");
        T ir = powT(root, n - 1), in = F.one / castOf(F.one, n); fft(x.data(), n, ir); for (auto& v : x) v *= in; c.eq(x, a, "inverse fft"); V<T> e(n, z); fft_rec(e.data(), d.data(), n, ir); for (auto& v : e) v *= in; c.eq(e, a, "inverse fft_rec"); if (n > 2) c.nontrivial_input(); });
}
UNIT(fft_large, 12, 200, "fft inverted by inverse fft and fft = fft_rec at sizes up to 2^16 (thorough 2^18)") {
    with_field(c, [&](auto F) { typedef decltype(F.one) T; int n = 1 << (int)c.rng.range(9, F.order == 4096 ? 12 : c.thorough ? 18 : 15); c.note(" n=" + vm::S(n)); T z = F.one - F.one, root = powT(F.root, F.order / n); V<T> a, d(n, z); for (int i = 0; i < n; i++) a.push_back(F.rnd(c)); V<T> x = a, s = a; fft(x.data(), n, root); fft_rec(d.data(), s.data(), n, root); c.ok(x == d, "fft = fft_rec"); for (int t = 0; t < 4; t++) { int i = (int)c.rng.below(n); T u = z, w = powT(root, i), p = F.one; for (int j = 0; j < n; j++) u = u + a[j] * p, p = p * w; c.eq(x[i], u, "spectrum entry"); } fft(x.data(), n, powT(root, n - 1)); T in = F.one / castOf(F.one, n); for (auto& v : x) v *= in; c.ok(x == a, "inverse fft"); c.nontrivial_input(); });
}
UNIT(fft_convolutions, 3000, 60000, "ordinary and cyclic FFT convolution of random lengths 1..70 against the quadratic sum") {
    with_field(c, [&](auto F) { typedef decltype(F.one) T; T z = F.one - F.one; int m = c.rng.coin() ? 70 : 9, nu = 1 + (int)c.rng.below(m), nv = 1 + (int)c.rng.below(m); c.note(" nu=" + vm::S(nu) + " nv=" + vm::S(nv)); V<T> u, v, o(nu + nv - 1, z), y(nu + nv - 1, z); for (int i = 0; i < nu; i++) u.push_back(F.rnd(c)); for (int i = 0; i < nv; i++) v.push_back(F.rnd(c));
        for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) o[i + j] = o[i + j] + u[i] * v[j]; for (int k = 0; k < nu + nv - 1; k++) for (int i = 0; i < nu; i++) y[k] = y[k] + u[i] * v[((k - i) % nv + nv) % nv];
        c.eq((convolution<T>(u.begin(), u.end(), v.begin(), v.end(), F.root, F.order)), o, "convolution"); c.eq((cyclic_convolution<T>(u.begin(), u.end(), v.begin(), v.end(), F.root, F.order)), y, "cyclic_convolution");
        int n = 1 << (int)c.rng.below(7); V<T> a, b, w(n, z), R(n, F.one); for (int i = 0; i < n; i++) a.push_back(F.rnd(c)), b.push_back(F.rnd(c)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w[(i + j) % n] = w[(i + j) % n] + a[i] * b[j]; V<T> s(n, z); slow_cyclic_convolution(s.data(), a.data(), b.data(), n); c.eq(s, w, "slow_cyclic_convolution"); fft_cyclic_convolution(R.data(), a.data(), b.data(), n, F.root, F.order); c.eq(R, w, "fft_cyclic_convolution"); if (nu > 1 && nv > 1) c.nontrivial_input(); });
}
UNIT(complex_fft, 300, 5000, "complex transforms and convolutions of integer data through table roots, sizes in arbitrary order, wrappers kept across requests for larger tables") {
    auto& r = c.rng; int lg = (int)r.below(c.thorough ? 14 : 12), n = 1 << lg; c.input("n=%d", n); auto base = complex_root_wrapper<double>(n); auto root = powT(base, base.size / n); V<cd> a(n), d(n), s; V<ll> ai(n); for (int i = 0; i < n; i++) { ai[i] = (ll)r.range(-1000, 1000); a[i] = cd((double)ai[i]); }
    if (r.coin(1, 4)) complex_root_wrapper<double>(1 << (int)r.below(17)); // must not disturb the roots already handed out
    s = a; V<cd> x = a; fft(x.data(), n, root); fft_rec(d.data(), s.data(), n, root); double sc = 1e-9 * n; for (int i = 0; i < n; i++) { c.checks(2); if (!(std::fabs(x[i].a - d[i].a) < sc && std::fabs(x[i].b - d[i].b) < sc)) c.fail("fft = fft_rec over complex", vm::S(i)); }
    for (int t = 0; t < 3; t++) { int k = (int)r.below(n); long double re = 0, im = 0; for (int j = 0; j < n; j++) { long double A = 2 * 3.14159265358979323846264338327950288L * (long double)((ll)j * k % n) / n; re += ai[j] * cosl(A); im += ai[j] * sinl(A); } c.checks(); if (!(std::fabs(double(x[k].a - re)) < sc && std::fabs(double(x[k].b - im)) < sc)) c.fail("complex spectrum entry", "k=" + vm::S(k) + " got " + vm::S((double)x[k].a) + "," + vm::S((double)x[k].b) + " want " + vm::S((double)re) + "," + vm::S((double)im)); }
    fft(x.data(), n, powT(root, n - 1)); for (int i = 0; i < n; i++) { c.checks(); if (llround(x[i].a / n) != ai[i] || std::fabs(x[i].b / n) > 1e-6) c.fail("inverse complex fft", vm::S(i)); }
    cd one = cd(complex_root_wrapper<double>(1)); (void)one; auto w1 = complex_root_wrapper<double>(std::max(n, 2)); c.ok(w1.size >= n && (w1.size & (w1.size - 1)) == 0, "root table size"); cd rr = cd(w1), acc(1.0); c.ok(std::fabs(rr.a - std::cos(2 * acos(-1.0) / w1.size)) < 1e-14 && std::fabs(rr.b - std::sin(2 * acos(-1.0) / w1.size)) < 1e-14, "principal root");
    if (n > 1) { int nu = 1 + (int)r.below(60), nv = 1 + (int)r.below(60); V<cd> u, v; V<ll> w(nu + nv - 1), ui, vi; for (int i = 0; i < nu; i++) ui.push_back(r.range(-1000, 1000)), u.push_back(cd((double)ui[i])); for (int i = 0; i < nv; i++) vi.push_back(r.range(-1000, 1000)), v.push_back(cd((double)vi[i])); for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) w[i + j] += ui[i] * vi[j]; auto cw = complex_root_wrapper<double>(256); auto got = convolution<cd>(u.begin(), u.end(), v.begin(), v.end(), cw, cw.size); c.eq(got.size(), w.size(), "size"); for (size_t i = 0; i < w.size(); i++) c.eq(llround(got[i].a), (long long)w[i], "complex convolution"); c.nontrivial_input(); }
}
template<typename T> void lattice(vm::Ctx& c, const T& one, std::function<T()> any, bool div2) {
    auto& r = c.rng; int lg = (int)r.below(c.thorough ? 8 : 7), n = 1 << lg; T z = one - one; c.note(" n=" + vm::S(n)); V<T> f, g; for (int i = 0; i < n; i++) f.push_back(any()), g.push_back(any());
    auto ref = [&](const V<T>& x, const V<T>& y, int m, std::function<int(int, int)> k) { V<T> w(m, z); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { int q = k(i, j); if (q >= 0) w[q] = w[q] + x[i] * y[j]; } return w; };
    auto run = [&](const char* tag, auto fast, auto slow, std::function<int(int, int)> k, int m, auto par) {
        V<T> a(f.begin(), f.begin() + m), b(g.begin(), g.begin() + m), w = ref(a, b, m, k), ww = ref(a, a, m, k), R(m, one); std::string t(tag);
        { V<T> x = a, y = b; fast(R.data(), x.data(), y.data(), par); c.eq(R, w, tag); } { V<T> x = a, y = b; fast(x.data(), x.data(), y.data(), par); c.eq(x, w, (t + " result in f").c_str()); } { V<T> x = a, y = b; fast(y.data(), x.data(), y.data(), par); c.eq(y, w, (t + " result in g").c_str()); } { V<T> x = a; fast(R.data(), x.data(), x.data(), par); c.eq(R, ww, (t + " f with itself").c_str()); } { V<T> x = a; fast(x.data(), x.data(), x.data(), par); c.eq(x, ww, (t + " all the same array").c_str()); }
        { V<T> s(m, z); slow(s.data(), a.data(), b.data(), par); c.eq(s, w, (t + " slow").c_str()); } };
    run("and_convolution", [](T* r, T* f, T* g, int l) { and_convolution(r, f, g, l); }, [](T* r, T* f, T* g, int l) { slow_and_convolution(r, (const T*)f, (const T*)g, l); }, [](int i, int j) { return i & j; }, n, lg);
    run("or_convolution", [](T* r, T* f, T* g, int l) { or_convolution(r, f, g, l); }, [](T* r, T* f, T* g, int l) { slow_or_convolution(r, (const T*)f, (const T*)g, l); }, [](int i, int j) { return i | j; }, n, lg);
    if (div2) run("xor_convolution", [](T* r, T* f, T* g, int l) { xor_convolution(r, f, g, l); }, [](T* r, T* f, T* g, int l) { slow_xor_convolution(r, (const T*)f, (const T*)g, l); }, [](int i, int j) { return i ^ j; }, n, lg);
    int m = (int)r.below(n + 1); if (m) run("max_convolution", [](T* r, T* f, T* g, int l) { max_convolution(r, f, g, l); }, [](T* r, T* f, T* g, int l) { slow_max_convolution(r, (const T*)f, (const T*)g, l); }, [](int i, int j) { return std::max(i, j); }, m, m);
    // subset sums and subset convolution
    V<T> w(n, z), R(n, one), x = f; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if ((i & k) == i) w[k] = w[k] + f[i];
    slow_subset_sum(R.data(), x.data(), lg); c.eq(R, w, "slow_subset_sum"); R.assign(n, one); fast_subset_sum(R.data(), x.data(), lg); c.eq(R, w, "fast_subset_sum"); c.eq(x, f, "fast_subset_sum source unchanged"); fast_subset_sum(x.data(), x.data(), lg); c.eq(x, w, "fast_subset_sum in place"); fast_subset_sum_inverse(R.data(), x.data(), lg); c.eq(R, f, "fast_subset_sum_inverse"); fast_subset_sum_inverse(x.data(), x.data(), lg); c.eq(x, f, "fast_subset_sum_inverse in place");
    for (int side = 0; side < 2; side++) { auto buf = f; buf.insert(buf.end(), f.begin(), f.end()); auto *src = buf.data() + (side ? 0 : n), *dst = buf.data() + (side ? n : 0); for (int i = 0; i < (int)n; i++) dst[i] = one; fast_subset_sum(dst, src, lg); for (int i = 0; i < (int)n; i++) c.eq(dst[i], w[i], "fast_subset_sum in one buffer"); for (int i = 0; i < (int)n; i++) c.eq(src[i], f[i], "source half"); for (int i = 0; i < (int)n; i++) src[i] = one; fast_subset_sum_inverse(src, dst, lg); for (int i = 0; i < (int)n; i++) c.eq(src[i], f[i], "fast_subset_sum_inverse in one buffer"); }
    auto sub = [](int i, int j) { return (i & j) ? -1 : (i | j); }; w = ref(f, g, n, sub); V<T> y = g; slow_subset_convolution(R.data(), x.data(), y.data(), lg); c.eq(R, w, "slow_subset_convolution"); R.assign(n, one); fast_subset_convolution(R.data(), x.data(), y.data(), lg); c.eq(R, w, "fast_subset_convolution"); fast_subset_convolution(x.data(), x.data(), y.data(), lg); c.eq(x, w, "fast_subset_convolution in place"); x = f; fast_subset_convolution(R.data(), x.data(), x.data(), lg); c.eq(R, ref(f, f, n, sub), "fast_subset_convolution with itself");
    // raw transforms
    x = f; fast_walsh_hadamard_transform(x.data(), lg); for (int k = 0; k < n; k++) { T s = z; for (int i = 0; i < n; i++) s = __builtin_parity(i & k) ? s - f[i] : s + f[i]; c.checks(); if (!(x[k] == s)) c.fail("fast_walsh_hadamard_transform", vm::S(k)); }
    x = f; fast_arith_transform_plus(x.data(), lg); w.assign(n, z); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if ((i & k) == i) w[k] = w[k] + f[i]; c.eq(x, w, "fast_arith_transform_plus"); fast_arith_transform_minus(x.data(), lg); c.eq(x, f, "fast_arith_transform_minus");
    if (n > 2) c.nontrivial_input();
}
UNIT(lattice, 1500, 30000, "and/or/xor/max/subset convolutions and transforms, in every aliasing, over residues, integers and words, against the quadratic sum") {
    auto& r = c.rng; switch (r.below(4)) { case 0: { int M = r.pick({2, 6, 7, 101, 1000000007}); c.input("moduloX M=%d", M); lattice<mx>(c, mx(1, M), [&] { return mx((int)r.below(M), M); }, M % 2 == 1); break; } case 1: c.input("int64"); lattice<ll>(c, 1, [&] { return (ll)r.range(-100000, 100000); }, true); break; case 2: c.input("uint32"); lattice<uint32_t>(c, 1, [&] { return r.u32(); }, false); break; default: c.input("double"); lattice<double>(c, 1, [&] { return (double)r.range(-1000, 1000); }, true); }
}

UNIT(subset_wide, 2, 40, "subset and bitwise convolutions on 2^15 to 2^18 sets, sampled against enumeration of submasks") {
    auto& r = c.rng; int lg = c.index == 0 ? 17 : c.thorough ? (int)r.range(15, 18) : 16, n = 1 << lg; c.input("log_n=%d", lg); V<uint32_t> f(n), g(n), R(n, 7), A, B; for (auto& x : f) x = (uint32_t)r.u64(); for (auto& x : g) x = (uint32_t)r.u64();
    V<int> at; for (int i = 0; i < 12; i++) { int w = (int)r.below(n); if (r.coin()) w &= (int)r.below(n); at.push_back(w); } for (int i = 0; i < lg; i++) at.push_back(1 << i); at.push_back(0); at.push_back((1 << lg) - 1);
    auto chk = [&](const char* tag, auto ref) { for (int w : at) c.eq(R[w], (uint32_t)ref(w), (std::string(tag) + " at " + std::to_string(w)).c_str()); };
    A = f; B = g; fast_subset_convolution(R.data(), A.data(), B.data(), lg); chk("wide fast_subset_convolution", [&](int w) { uint32_t s = 0; for (int t = w;; t = (t - 1) & w) { s += f[t] * g[w ^ t]; if (!t) break; } return s; });
    auto sum = [&](const V<uint32_t>& v, int w) { uint32_t s = 0; for (int t = w;; t = (t - 1) & w) { s += v[t]; if (!t) break; } return s; }; fast_subset_sum(R.data(), f.data(), lg); chk("wide fast_subset_sum", [&](int w) { return sum(f, w); }); fast_subset_sum_inverse(R.data(), R.data(), lg); c.ok(R == f, "wide subset sum inverted");
    // or-convolution: sum over submasks of w of the result is the product of the submask sums
    A = f; B = g; or_convolution(R.data(), A.data(), B.data(), lg); V<uint32_t> H = R; for (int w : at) c.eq(sum(H, w), uint32_t(sum(f, w) * sum(g, w)), "wide or_convolution");
    auto sup = [&](const V<uint32_t>& v, int w) { uint32_t s = 0; int m = n - 1 - w; for (int t = m;; t = (t - 1) & m) { s += v[w | t]; if (!t) break; } return s; }; A = f; B = g; and_convolution(R.data(), A.data(), B.data(), lg); H = R; for (int w : at) c.eq(sup(H, w), uint32_t(sup(f, w) * sup(g, w)), "wide and_convolution");
    V<long long> fl(n), gl(n), X(n); for (int i = 0; i < n; i++) fl[i] = r.range(-1000, 1000), gl[i] = r.range(-1000, 1000); V<long long> a = fl, b = gl; xor_convolution(X.data(), a.data(), b.data(), lg); for (int w : at) { long long s = 0; for (int i = 0; i < n; i++) s += fl[i] * gl[i ^ w]; c.eq(X[w], s, "wide xor_convolution"); }
    c.nontrivial_input();
}
