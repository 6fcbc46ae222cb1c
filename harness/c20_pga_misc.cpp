// C20: projective geometric algebra
#include "c20_pga.h"
UNIT(pga_unary, 2000, 40000, "dual, reverse, sign, scaling, norms and in-place forms of every PGA element type") {
    auto& r = c.rng; Bl<ll> g{gen<ll>(r)}; c.input("unary"); g.each([&](const auto& a, const char* ta) { auto ua = up(a), ub = ua; const char* tb = ta; c.note(" " + sm(ua)); typedef std::decay_t<decltype(a)> B; PSAME(!a, odual(ua), "dual"); PSAME(!!a, ua, "double dual"); PSAME(~a, orev(ua), "reverse"); PSAME(a.rev(), orev(ua), "reverse"); PSAME(-a, -ua, "negation"); PSAME(+a, ua, "plus"); ll t = r.range(-9, 9); if (!t) t = 4; PSAME(a * t, ua * t, "scaled"); PSAME(t * a, ua * t, "scaled"); B z = a; z += a; PSAME(z, ua + ua, "+="); z = a; z -= z; PSAME(z, MV<ll>(), "self -="); z = a; z *= t; PSAME(z, ua * t, "*="); z /= t; PSAME(z, ua, "/="); z = a; z += z; PSAME(z / 2ll, ua, "/"); PSAME(a + pg::zero<ll>(), ua, "+ zero"); PSAME(pg::zero<ll>() + a, ua, "zero +"); PSAME(a - pg::zero<ll>(), ua, "- zero"); PSAME(pg::zero<ll>() - a, -ua, "zero -"); PSAME(a * pg::zero<ll>(), MV<ll>(), "* zero"); PSAME(pg::zero<ll>() * a, MV<ll>(), "zero *");
        ll e = 0, n = 0, d = 0; for (int i = 0; i < 16; i++) { ll q = ua.c[i] * ua.c[i]; if (i & 1) { n += q; } else { e += q; int gr = __builtin_popcount(i); d += gr == 2 || gr == 3 ? -q : q; } } c.eq(a.norm2(), e, "norm"); c.eq(a.ninf2(), n, "ideal norm"); (void)d; });
    { auto a = g.mv(); auto ua = up(a), ub = ua; const char *ta = "m", *tb = "m"; auto z = a; z *= z.b024.b02.b0.s; PSAME(z, ua * ua.c[0], "scaled by own scalar"); auto m = g.b024(); ua = up(m); auto y = m; y *= y.b02.b2E.biE.x; PSAME(y, ua * ua.c[12], "scaled by own part"); auto l = g.b22(); ua = up(l); auto x = l; x *= x.b2E.biE.y; PSAME(x, ua * (-ua.c[10]), "scaled by own part"); auto p = g.b1(); ua = up(p); auto w = p; w *= w.e0; PSAME(w, ua * ua.c[1], "scaled by own part"); }
    c.nontrivial_input();
}
UNIT(pga_inverse, 3000, 60000, "inverses of every element type that has one, over a prime field") {
    auto& r = c.rng; Bl<md> g{gen<md>(r)}; c.input("inverse"); MV<md> one; one.c[0] = 1; auto chk = [&](const auto& a, const char* ta) { auto ua = up(a), ub = ua; const char* tb = "inverse"; c.note(" " + sm(ua)); if (a.norm2() == md(0)) return; PSAME(a * a.inv(), one, "a * a^-1"); PSAME(a.inv() * a, one, "a^-1 * a"); }; chk(g.b0(), "0"); chk(g.b1(), "1"); chk(g.b2E(), "2E"); chk(g.b3(), "3"); chk(g.b02E(), "02E"); chk(g.b02e(), "02e"); chk(g.b2E4(), "2E4"); chk(g.b024(), "024"); chk(g.b13(), "13"); { auto E = g.v3(), P = g.v3(); chk(pg::blade22<md>(pg::blade2E<md>(E), pg::blade2e<md>(E ^ P)), "22"); chk(pg::blade22<md>(pg::blade2E<md>(E)), "22"); } c.nontrivial_input();
}
UNIT(pga_geometry, 4000, 80000, "planes, lines and points: incidence of joins and meets, translations and rotations of points, over a prime field and doubles") {
    auto& r = c.rng; Bl<md> g{gen<md>(r)}; typedef vector3d<md> Q; auto zero = [&](const MV<md>& m) { return m == MV<md>(); }; Q A = g.v3(), B = g.v3(), C = g.v3(), n = g.v3(), t = g.v3(); md d = g.any(), h = g.any(); c.input("%s %s %s", (vm::S(A.x) + vm::S(A.y) + vm::S(A.z)).c_str(), (vm::S(B.x) + vm::S(B.y) + vm::S(B.z)).c_str(), (vm::S(n.x) + vm::S(n.y) + vm::S(n.z)).c_str()); auto PA = pg::point(A), PB = pg::point(B), PC = pg::point(C); auto L = PA | PB; auto F = L | PC; c.ok(zero(up(PA | L)) && zero(up(PB | L)), "joined line passes through both points"); c.ok(up(PA | F).c[0] == md(0) && up(PB | F).c[0] == md(0) && up(PC | F).c[0] == md(0), "joined plane passes through three points"); auto pl = pg::plane(n, d); c.ok((up(pl ^ PA).c[15] == md(0)) == ((n & A) == d), "plane {n.x = d} meets its points"); auto ln = pg::line(n, A); c.ok(zero(up(PA | ln)), "line passes through its point"); c.ok(zero(up(pg::point(Q(A + n * md(7))) | ln)), "line follows its direction"); c.ok(up(pg::point(Q(A * h), h)) == up(PA) * h, "homogeneous point");
    auto T = pg::translator(t); c.ok(up(PA % T) == up(pg::point(Q(A + t))) * md(1) , "translator moves points", sm(up(PA % T)) + sm(up(pg::point(Q(A + t))))); auto pl2 = pl % T; c.ok((up(pl2 ^ pg::point(Q(A + t))).c[15] == md(0)) == ((n & A) == d), "translated plane keeps incidence"); auto ml = pl ^ pg::plane(t, h); { auto x = g.v3(); bool on = (n & x) == d && (t & x) == h; if (on) c.ok(zero(up(pg::point(x) | ml)), "meet of planes"); }
    typedef vector3d<double> D; D ax((double)r.range(-9, 9), (double)r.range(-9, 9), (double)r.range(-9, 9)), x((double)r.range(-9, 9), (double)r.range(-9, 9), (double)r.range(-9, 9)); if (ax.abs2() == 0) ax.z = 1; double an = r.range(-628, 628) / 100.0; auto R = pg::rotor(ax, an); auto y = pg::point(x) % R; D u = ax / ax.abs1(), w = x * cos(an) + (u ^ x) * sin(an) + u * ((u & x) * (1 - cos(an))); auto z = y.triP / -y.e123; c.ok(fabs(R.norm2() - 1) < 1e-9 && (z - w).abs2() < 1e-12, "rotor turns points about its axis", vm::S(z.x) + "," + vm::S(z.y) + "," + vm::S(z.z) + " want " + vm::S(w.x) + "," + vm::S(w.y) + "," + vm::S(w.z)); c.nontrivial_input();
}

