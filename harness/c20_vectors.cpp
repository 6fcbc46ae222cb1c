// C20: vectors and Cl(3,0)
#include "c20_common.h"
// ------------------------------------------------------------ vectors
template<typename W, int N, typename G> static void vec(vm::Ctx& c, G get) {
    auto& r = c.rng; auto any = [&] { return (ll)r.range(-1000, 1000); }; V<ll> a(N), b(N), d(N); for (auto* v : {&a, &b, &d}) for (auto& x : *v) x = r.coin(1, 4) ? r.range(-1, 1) : any(); auto mk = [&](const V<ll>& v) { W w; for (int i = 0; i < N; i++) get(w, i) = v[i]; return w; }; c.note(" " + vm::S(a) + vm::S(b)); W x = mk(a), y = mk(b); ll t = any(); if (!t) t = 3;
    auto is = [&](W w, auto f, const char* tag) { for (int i = 0; i < N; i++) c.eq(get(w, i), (ll)f(i), tag); };
    is(x + y, [&](int i) { return a[i] + b[i]; }, "sum"); is(x - y, [&](int i) { return a[i] - b[i]; }, "difference"); is(-x, [&](int i) { return -a[i]; }, "negation"); is(x * y, [&](int i) { return a[i] * b[i]; }, "element product"); is(x * t, [&](int i) { return a[i] * t; }, "scaled"); is(x / t, [&](int i) { return a[i] / t; }, "divided"); bool nz = true; for (ll v : b) nz &= v != 0; if (nz) { is(x / y, [&](int i) { return a[i] / b[i]; }, "element quotient"); W z = x; z /= y; c.ok(z == x / y, "/="); }
    W z = x; z += y; c.ok(z == x + y, "+="); z = x; z -= y; c.ok(z == x - y, "-="); z = x; z *= y; c.ok(z == x * y, "*="); z = x; z *= t; c.ok(z == x * t, "*= scalar"); z = x; z /= t; c.ok(z == x / t, "/= scalar"); z = x; z += z; c.ok(z == x * (ll)2, "self +="); z = x; z *= z; c.ok(z == x * x, "self *="); z = x; z -= z; c.ok(z == mk(V<ll>(N, 0)), "self -=");
    int k = (int)r.below(N); z = x; z *= get(z, k); is(z, [&](int i) { return a[i] * a[k]; }, "scaled by own coordinate"); if (a[k]) { z = x; z /= get(z, k); is(z, [&](int i) { return a[i] / a[k]; }, "divided by own coordinate"); }
    ll n2 = 0; for (ll v : a) n2 += v * v; c.eq(x.abs2(), n2, "abs2"); W q = mk(r.coin() ? d : a); V<ll> dq = (q == x) ? a : d; int cmp = a < dq ? -1 : a == dq ? 0 : 1; c.ok((x < q) == (cmp < 0) && (x == q) == (cmp == 0) && (x > q) == (cmp > 0) && (x <= q) == (cmp <= 0) && (x >= q) == (cmp >= 0) && (x != q) == (cmp != 0), "lexicographic order"); c.nontrivial_input();
}
UNIT(vectors_common, 8000, 200000, "2-, 3- and N-dimensional vectors: coordinatewise operations, order, aliasing with own coordinates") {
    switch (c.rng.below(5)) { case 0: c.input("2d"); vec<vector2d<ll>, 2>(c, [](vector2d<ll>& v, int i) -> ll& { return i ? v.y : v.x; }); break; case 1: c.input("3d"); vec<vector3d<ll>, 3>(c, [](vector3d<ll>& v, int i) -> ll& { return i == 0 ? v.x : i == 1 ? v.y : v.z; }); break; case 2: c.input("1-d"); vec<vectorNd<ll, 1>, 1>(c, [](vectorNd<ll, 1>& v, int i) -> ll& { return v[i]; }); break; case 3: c.input("5-d"); vec<vectorNd<ll, 5>, 5>(c, [](vectorNd<ll, 5>& v, int i) -> ll& { return v[i]; }); break; default: c.input("2-d"); vec<vectorNd<ll, 2>, 2>(c, [](vectorNd<ll, 2>& v, int i) -> ll& { return v[i]; }); }
}
UNIT(vectors_special, 5000, 100000, "dot and cross products, rotations, norms, unit vectors, scalar-broadcast operations of N-vectors") {
    auto& r = c.rng; auto any = [&] { return (ll)r.range(-500, 500); }; typedef vector2d<ll> P; typedef vector3d<ll> Q; P a(any(), any()), b(any(), any()), o(any(), any()); c.input("(%lld,%lld) (%lld,%lld)", (long long)a.x, (long long)a.y, (long long)b.x, (long long)b.y);
    c.eq(a & b, a.x * b.x + a.y * b.y, "2d dot"); c.eq(a ^ b, a.x * b.y - a.y * b.x, "2d cross"); c.eq(o.dot(a, b), (a.x - o.x) * (b.x - o.x) + (a.y - o.y) * (b.y - o.y), "dot about a point"); c.eq(o.cross(a, b), (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x), "cross about a point"); c.ok(a.rot(b) == P(a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x), "rot is complex product"); c.ok(a.rot(b).irot(b) == a * (b & b), "irot undoes rot"); c.ok(a.perp() == P(-a.y, a.x) && (a & a.perp()) == 0, "perp"); c.eq(a.diff2(), a.x * a.x - a.y * a.y, "diff2");
    Q u(any(), any(), any()), v(any(), any(), any()), w(any(), any(), any()); Q x = u ^ v; c.ok(x == Q(u.y * v.z - u.z * v.y, u.z * v.x - u.x * v.z, u.x * v.y - u.y * v.x), "3d cross"); c.ok((x & u) == 0 && (x & v) == 0, "cross orthogonal"); c.eq(u & v, u.x * v.x + u.y * v.y + u.z * v.z, "3d dot"); c.eq((u & v) * (u & v) + x.abs2(), u.abs2() * v.abs2(), "Lagrange identity"); c.ok((u ^ (v ^ w)) == v * (u & w) - w * (u & v), "triple product"); Q z = u; z ^= v; c.ok(z == x, "^="); z = u; z ^= z; c.ok(z == Q(0, 0, 0), "self ^="); c.ok(w.cross(u, v) == ((u - w) ^ (v - w)) && w.dot(u, v) == ((u - w) & (v - w)), "about a point"); c.ok((ll)7 * u == u * (ll)7 && +u == u, "scalar from the left");
    typedef vector2d<double> D; typedef vector3d<double> E; D f((double)a.x, (double)a.y); E g((double)u.x, (double)u.y, (double)u.z); auto nr = [](double p, double q) { return fabs(p - q) <= 1e-12 * (1 + fabs(q)); }; c.ok(nr(f.abs1(), sqrt((double)a.abs2())) && nr(g.abs1(), sqrt((double)u.abs2())), "norm"); if (a.abs2()) c.ok(nr(f.unit().abs1(), 1) && nr((f.unit() ^ f), 0) && (f.unit() & f) > 0, "unit"); if (u.abs2()) c.ok(nr(g.unit().abs1(), 1) && (g.unit() & g) > 0, "unit"); c.ok(D(0, 0).unit(D(3, 4)) == D(3, 4) && E(0, 0, 0).unit(E(1, 2, 3)) == E(1, 2, 3), "unit of zero");
    typedef vectorNd<ll, 4> N; N n{any(), any(), any(), any()}, m = n; ll t = any(); if (!t) t = 5; V<ll> k(n.a.begin(), n.a.end()); auto is = [&](const N& q, auto fn, const char* tag) { for (int i = 0; i < 4; i++) c.eq(q[i], (ll)fn(k[i]), tag); }; is(n + t, [&](ll e) { return e + t; }, "+ scalar"); is(n - t, [&](ll e) { return e - t; }, "- scalar"); is(n % t, [&](ll e) { return e % t; }, "% scalar"); int p = (int)r.below(4); m += m[p]; is(m, [&](ll e) { return e + k[p]; }, "+= own"); m = n; m -= m[p]; is(m, [&](ll e) { return e - k[p]; }, "-= own"); if (k[p]) { m = n; m %= m[p]; is(m, [&](ll e) { return e % k[p]; }, "%= own"); } { N d; for (int i = 0; i < 4; i++) { d[i] = any(); if (!d[i]) d[i] = 3; } N q = n % d, h = n; h %= d; for (int i = 0; i < 4; i++) { c.eq(q[i], k[i] % d[i], "% vector"); c.eq(h[i], k[i] % d[i], "%= vector"); } std::array<ll, 4> ar; for (int i = 0; i < 4; i++) ar[i] = k[i]; c.ok(N(ar) == n, "from array"); vectorNd<double, 3> dn(7); c.ok(dn[0] == 7 && dn[1] == 7 && dn[2] == 7, "broadcast of an int"); } { P a2(a.x + r.range(-1, 1), a.y + r.range(-1, 1)); c.eq(a.near(a2), a == a2, "near at EPS 0"); Q u2(u.x + r.range(-1, 1), u.y, u.z + r.range(-1, 1)); c.eq(u.near(u2), u == u2, "near at EPS 0"); typedef vector2d<int64_t, vector2d<char>> PE; PE::EPS = 3; PE b1(a.x, a.y), b2(a.x + r.range(-5, 5), a.y + r.range(-5, 5)); c.eq(b1.near(b2), std::abs(b1.x - b2.x) <= 3 && std::abs(b1.y - b2.y) <= 3, "near"); typedef vector3d<int64_t, vector2d<char>> QE; QE::EPS = 3; QE e1(u.x, u.y, u.z), e2(u.x + r.range(-4, 4), u.y + r.range(-4, 4), u.z + r.range(-4, 4)); c.eq(e1.near(e2), std::abs(e1.x - e2.x) <= 3 && std::abs(e1.y - e2.y) <= 3 && std::abs(e1.z - e2.z) <= 3, "near"); } c.ok(identityOf(n) == N(1) && zeroOf(n) == N(0) && n * identityOf(n) == n && n + zeroOf(n) == n && n.size() == 4, "identities"); c.nontrivial_input();
}
// ------------------------------------------------------------ Cl(3,0): e1, e2, e3 are bits 0..2
static const int SQ3[4] = {1, 1, 1, 0};
template<typename T> static MV<T> up(const cl3::rotor<T>& r) { MV<T> m; m.c[0] = r.s; m.c[6] = r.yz; m.c[5] = T(0) - r.zx; m.c[3] = r.xy; return m; }
template<typename T> static MV<T> up(const cl3::vector<T>& v) { MV<T> m; m.c[1] = v.x; m.c[2] = v.y; m.c[4] = v.z; m.c[7] = v.w; return m; }
template<typename T> static MV<T> up(const cl3::multivector<T>& v) { return up(v.r) + up(v.v); }
template<typename T> static MV<T> ups(const T& s) { MV<T> m; m.c[0] = s; return m; }
#define SAME(X, W, tag) do { auto _g = up(X); auto _w = (W); c.ok(_g == _w, tag, "got " + sm(_g) + " want " + sm(_w)); } while (0)
template<typename T, typename ANY> static void cl(vm::Ctx& c, ANY any, bool field) {
    using R = cl3::rotor<T>; using W = cl3::vector<T>; using M = cl3::multivector<T>; auto X = [](const MV<T>& a, const MV<T>& b) { return mul(a, b, SQ3); }; R a(any(), any(), any(), any()), b(any(), any(), any(), any()); W v(any(), any(), any(), any()), w(any(), any(), any(), any()); M m(a, w), n(b, v); T t = any(); c.note(" a=" + sm(up(m)) + " b=" + sm(up(n)));
    auto ua = up(a), ub = up(b), uv = up(v), uw = up(w), un = up(n), um = up(m);
    SAME(a * b, X(ua, ub), "rotor*rotor"); SAME(a * v, X(ua, uv), "rotor*vector"); SAME(v * a, X(uv, ua), "vector*rotor"); SAME(v * w, X(uv, uw), "vector*vector"); SAME(m * n, X(um, un), "product"); SAME(m * b, X(um, ub), "multivector*rotor"); SAME(b * m, X(ub, um), "rotor*multivector"); SAME(m * v, X(um, uv), "multivector*vector"); SAME(v * m, X(uv, um), "vector*multivector");
    SAME(a + b, ua + ub, "sum"); SAME(a - b, ua - ub, "difference"); SAME(v + w, uv + uw, "sum"); SAME(v - w, uv - uw, "difference"); SAME(m + n, um + un, "sum"); SAME(m - n, um - un, "difference"); SAME(a + v, ua + uv, "rotor+vector"); SAME(v + a, ua + uv, "vector+rotor"); SAME(a - v, ua - uv, "rotor-vector"); SAME(v - a, uv - ua, "vector-rotor"); SAME(m + b, um + ub, "multivector+rotor"); SAME(m - b, um - ub, "multivector-rotor"); SAME(m + v, um + uv, "multivector+vector"); SAME(m - v, um - uv, "multivector-vector"); SAME(b + m, um + ub, "rotor+multivector"); SAME(b - m, ub - um, "rotor-multivector"); SAME(v + m, um + uv, "vector+multivector"); SAME(v - m, uv - um, "vector-multivector");
    SAME(-a, -ua, "negated rotor"); SAME(-v, -uv, "negated vector"); SAME(-m, -um, "negated"); SAME(a * t, ua * t, "scaled"); SAME(v * t, uv * t, "scaled"); SAME(m * t, um * t, "scaled"); SAME(t * a, ua * t, "scaled"); SAME(t * v, uv * t, "scaled"); SAME(t * m, um * t, "scaled");
    SAME(a.rev(), orev(ua), "reverse"); SAME(v.rev(), orev(uv), "reverse"); SAME(m.rev(), orev(um), "reverse"); auto cj = [](const MV<T>& x) { return bygrade(x, [](int g) { return g == 1 || g == 2 ? -1 : 1; }); }; SAME(a.conj(), cj(ua), "conjugate"); SAME(v.conj(), cj(uv), "conjugate"); SAME(m.conj(), cj(um), "conjugate"); auto sc = [&](const MV<T>& x) { T s(0); for (int i = 0; i < 8; i++) s = s + x.c[i] * x.c[i]; return s; }; c.ok(a.abs2() == sc(ua) && v.abs2() == sc(uv), "norm"); SAME(identityOf(a), ups(T(1)), "identity"); SAME(identityOf(m), ups(T(1)), "identity"); SAME(zeroOf(m), ups(T(0)), "zero"); SAME(zeroOf(v), ups(T(0)), "zero"); SAME(M(a), ua, "from rotor"); SAME(M(v), uv, "from vector"); SAME(v.reflect(w), -X(X(uw, uv), orev(uw)), "reflect"); SAME(v.rotate(a), X(X(ua, uv), orev(ua)), "rotate");
    { R z = a; z += b; SAME(z, ua + ub, "+="); z = a; z -= b; SAME(z, ua - ub, "-="); z = a; z *= b; SAME(z, X(ua, ub), "*="); z = a; z *= z; SAME(z, X(ua, ua), "self *="); z = a; z *= t; SAME(z, ua * t, "*= scalar"); z = a; z *= z.zx; SAME(z, ua * a.zx, "scaled by own part"); z = a; z *= z.s; SAME(z, ua * a.s, "scaled by own part"); W y = v; y += w; SAME(y, uv + uw, "+="); y = v; y -= w; SAME(y, uv - uw, "-="); y = v; y *= a; SAME(y, X(uv, ua), "*= rotor"); y = v; y *= t; SAME(y, uv * t, "*= scalar"); y = v; y *= y.x; SAME(y, uv * v.x, "scaled by own part"); M k = m; k += n; SAME(k, um + un, "+="); k = m; k -= n; SAME(k, um - un, "-="); k = m; k *= n; SAME(k, X(um, un), "*="); k = m; k *= k; SAME(k, X(um, um), "self *="); k = m; k *= b; SAME(k, X(um, ub), "*= rotor"); k = m; k *= v; SAME(k, X(um, uv), "*= vector"); k = m; k *= k.r; SAME(k, X(um, ua), "*= own rotor"); k = m; k *= k.v; SAME(k, X(um, uw), "*= own vector"); k = m; k *= t; SAME(k, um * t, "*= scalar"); k = m; k *= k.r.s; SAME(k, um * a.s, "scaled by own part"); k = m; k += b; SAME(k, um + ub, "+= rotor"); k = m; k -= v; SAME(k, um - uv, "-= vector"); k = m; k -= k.r; SAME(k, uw, "-= own rotor"); }
    if (field) { T z0(0); bool ai = !(a.abs2() == z0), vi = !(v.abs2() == z0), bi = !(b.abs2() == z0); auto one = ups(T(1)); if (ai) { SAME(a * a.inv(), one, "rotor inverse"); SAME(v / a, up(v * a.inv()), "vector/rotor"); SAME((v / a) * a, uv, "(v/a)*a"); SAME((m / a) * a, um, "(m/a)*a"); SAME(t / a, up(a.inv()) * t, "scalar/rotor"); SAME((b / a) * a, ub, "(b/a)*a"); M k = m; k /= k.r; SAME(k * a, um, "/= own rotor"); R z = a; z /= z; SAME(z, one, "self /="); } if (vi) { SAME(v * v.inv(), one, "vector inverse"); SAME(v.inv() * v, one, "vector inverse"); SAME((w / v) * v, uw, "(w/v)*v"); SAME((a / v) * v, ua, "(a/v)*v"); SAME((m / v) * v, um, "(m/v)*v"); SAME(M(v).inv() * M(v), one, "inverse of an odd multivector"); SAME(t / v, up(v.inv()) * t, "scalar/vector"); }
        if (bi) { R q = b - v * b.inv() * v; if (!(q.abs2() == z0)) { SAME(n * n.inv(), one, "multivector inverse"); SAME(n.inv() * n, one, "multivector inverse"); SAME((m / n) * n, um, "(m/n)*n"); SAME(a / n, X(ua, up(n.inv())), "rotor/multivector"); SAME(w / n, X(uw, up(n.inv())), "vector/multivector"); SAME(t / n, up(n.inv()) * t, "scalar/multivector"); M k = n; k /= k; SAME(k, one, "self /="); } } if (!(t == z0)) { SAME(a / t * t, ua, "/ scalar"); SAME(v / t * t, uv, "/ scalar"); SAME(m / t * t, um, "/ scalar"); M k = m; k /= t; SAME(k * t, um, "/= scalar"); } if (!(a.s == z0)) { M k = m; k /= k.r.s; SAME(k * a.s, um, "divided by own part"); R z = a; z /= z.s; SAME(z * a.s, ua, "divided by own part"); } if (!(v.x == z0)) { W y = v; y /= y.x; SAME(y * v.x, uv, "divided by own part"); } }
    { auto& r = c.rng; auto rv = [](const R& x) { return V<T>{x.s, x.yz, x.zx, x.xy}; }; auto vv = [](const W& x) { return V<T>{x.x, x.y, x.z, x.w}; }; R b2 = r.coin() ? a : b; W w2 = r.coin() ? v : w; if (r.coin()) b2.xy = b.xy; if (r.coin()) w2.w = w.w; bool l = rv(a) < rv(b2), e = rv(a) == rv(b2); c.ok((a < b2) == l && (a == b2) == e && (a != b2) == !e && (a > b2) == (!l && !e) && (a <= b2) == (l || e) && (a >= b2) == !l, "rotor order"); l = vv(v) < vv(w2), e = vv(v) == vv(w2); c.ok((v < w2) == l && (v == w2) == e && (v != w2) == !e && (v > w2) == (!l && !e) && (v <= w2) == (l || e) && (v >= w2) == !l, "vector order"); M k = m; k += v; SAME(k, um + uv, "+= vector");
      SAME(castOf<R>(t), ups(t), "cast to rotor"); SAME(castOf(a, t), ups(t), "cast to rotor"); SAME(castOf<M>(t), ups(t), "cast to multivector"); SAME(castOf(m, R(t)), ups(t), "cast to multivector"); { MV<T> vol; vol.c[7] = t; SAME(castOf<W>(t), vol, "cast to vector"); SAME(castOf(v, t), vol, "cast to vector"); } SAME(conjugateT<R>::of(a), cj(ua), "conjugateT"); SAME(conjugateT<W>::of(v), cj(uv), "conjugateT"); SAME(conjugateT<M>::of(m), cj(um), "conjugateT"); SAME(R(), ups(T(1)), "default rotor"); }
    auto tv = [](const M& x) { return V<T>{x.r.s, x.r.yz, x.r.zx, x.r.xy, x.v.x, x.v.y, x.v.z, x.v.w}; }; for (int q = 0; q < 3; q++) { M m2 = q == 0 ? n : m; if (q == 2) { if (c.rng.coin()) m2.v.w = n.v.w; else m2.r.xy = n.r.xy; } bool lt = tv(m) < tv(m2), eq = tv(m) == tv(m2); c.ok((m < m2) == lt && (m == m2) == eq && (m > m2) == (!lt && !eq) && (m <= m2) == (lt || eq) && (m >= m2) == !lt && (m != m2) == !eq && m == M(m), "order"); } c.nontrivial_input();
}
UNIT(clifford3, 8000, 200000, "rotors, vectors and multivectors of Cl(3,0): all mixed products, sums, involutions, norms, inverses, in-place and aliased forms") { auto& r = c.rng; if (r.coin()) { c.input("int"); int z = (int)r.below(4); cl<ll>(c, [&] { return (ll)(z && r.coin(1, 3) ? 0 : r.range(-30, 30)); }, false); } else { c.input("F10007"); cl<md>(c, [&] { return r.coin(1, 4) ? md(0) : md((int)r.below(10007)); }, true); } }
UNIT(clifford3_unit, 3000, 60000, "unit rotors and vectors, reflectors, rotor taking one direction to another (doubles)") {
    auto& r = c.rng; typedef cl3::vector<double> W; auto any = [&] { return (double)r.range(-9, 9); }; W f(any(), any(), any()), t(any(), any(), any()), x(any(), any(), any()); if (f.abs2() == 0) f.x = 1; if (t.abs2() == 0) t.y = 1; c.input("(%g,%g,%g)->(%g,%g,%g)", f.x, f.y, f.z, t.x, t.y, t.z); auto nr = [](double p, double q) { return fabs(p - q) < 1e-9; }; c.ok(nr(f.abs1(), sqrt(f.x * f.x + f.y * f.y + f.z * f.z)) && f.abs1() > 0, "vector norm"); { cl3::rotor<double> q(any(), any(), any(), any()); if (q.abs2() != 0) { c.ok(nr(q.abs1(), sqrt(q.s * q.s + q.yz * q.yz + q.zx * q.zx + q.xy * q.xy)) && nr(q.unit().abs2(), 1) && nr(q.unit().s * q.abs1(), q.s), "rotor norm"); W u = t, p = t / q; u /= q; c.ok(u == p, "/="); u *= q; c.ok(nr(u.x, t.x) && nr(u.y, t.y) && nr(u.z, t.z) && nr(u.w, t.w), "/= then *="); } } auto same = [&](const W& p, const W& q) { return nr(p.x, q.x) && nr(p.y, q.y) && nr(p.z, q.z) && nr(p.w, q.w); }; c.ok(nr(f.unit().abs2(), 1) && same(f.unit() * f.abs1(), f), "unit"); W m = make_reflector(f), y = x.reflect(m); double d = (x.x * f.x + x.y * f.y + x.z * f.z) / f.abs2(); c.ok(same(y, x - f * (2 * d)), "reflection"); W fu = f.unit(), tu = t.unit(); if ((fu + tu).abs2() > 1e-6) { auto q = make_rotor(f, t); c.ok(nr(q.abs2(), 1), "rotor is unit"); c.ok(same(fu.rotate(q), tu), "rotor takes from to to"); W z = x.rotate(q); c.ok(fabs(z.abs2() - x.abs2()) < 1e-7, "isometry"); } c.nontrivial_input();
}
UNIT(long_vectors, 2000, 40000, "vectors of nine components compare lexicographically at every position; identity and zero are taken component by component, also over residues whose modulus differs per component") {
    auto& r = c.rng; typedef vectorNd<ll, 9> N; N a, b; for (int i = 0; i < 9; i++) a[i] = b[i] = r.range(-3, 3); int k = (int)r.below(10); if (k < 9) { b[k] = r.range(-5, 5); for (int i = k + 1; i < 9; i++) if (r.coin()) b[i] = r.range(-5, 5); } c.input("k=%d", k);
    c.eq(a == b, a.a == b.a, "=="); c.eq(a != b, a.a != b.a, "!="); c.eq(a < b, a.a < b.a, "<"); c.eq(a > b, a.a > b.a, ">"); c.eq(a <= b, a.a <= b.a, "<="); c.eq(a >= b, a.a >= b.a, ">="); c.eq(a.cmp(b), a.a < b.a ? -1 : int(b.a < a.a), "cmp"); ll s = 0; for (int i = 0; i < 9; i++) s += a[i] * a[i]; c.eq(a.abs2(), s, "abs2");
    typedef moduloX<int> X; vectorNd<X, 3> x; int M[3]; for (int i = 0; i < 3; i++) { M[i] = 2 + (int)r.below(1000); x[i] = X((int)r.below(M[i]), M[i]); } auto o = identityOf(x), z = zeroOf(x), y = x * x + x - o; for (int i = 0; i < 3; i++) { c.eq(o[i].v, 1, "identity"); c.eq(o[i].M(), M[i], "identity modulus"); c.eq(z[i].v, 0, "zero"); c.eq(z[i].M(), M[i], "zero modulus"); ll v = x[i].v; c.eq((ll)y[i].v, ((v * v + v - 1) % M[i] + M[i]) % M[i], "arithmetic per component"); c.eq((x - x)[i].v, 0, "difference"); c.eq(((-x) + x)[i].v, 0, "negation"); }
    c.nontrivial_input();
}
