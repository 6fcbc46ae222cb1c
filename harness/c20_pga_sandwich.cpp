// C20: projective geometric algebra
#include "c20_pga.h"
UNIT(pga_sandwich, 600, 20000, "sandwich products of every element type by versors of every even and odd type: (-1)^m b a ~b") {
    auto& r = c.rng; Bl<ll> g{gen<ll>(r)}; c.input("sandwich"); auto with = [&](const auto& b, int m, const char* tb) { auto ub = up(b); { auto q = mul(ub, orev(ub), SQP); for (int i = 1; i < 16; i++) if (q.c[i] != 0) c.fail("oracle", std::string("not a versor ") + tb); } c.note(" " + sm(ub)); g.each([&](const auto& a, const char* ta) { auto ua = up(a); auto w = mul(mul(ub, ua, SQP), orev(ub), SQP); if (m) w = -w; PSAME(a % b, w, "sandwich"); }); };
    with(g.b0(), 0, "0"); with(g.b1(), 1, "1"); with(g.b2E(), 0, "2E"); with(g.b2e(), 0, "2e"); with(g.b3(), 1, "3"); with(g.b4(), 0, "4"); with(g.b02E(), 0, "02E"); with(g.b02e(), 0, "02e"); { auto E = g.v3(), P = g.v3(); with(pg::blade22<ll>(pg::blade2E<ll>(E), pg::blade2e<ll>(E ^ P)), 0, "22"); } with(g.b2E4(), 0, "2E4"); with(g.b2e4(), 0, "2e4");
    { auto p = g.b1(), q = g.b1(); with(p * q, 0, "024 (product of planes)"); auto E = g.v3(), e = g.v3(); ll s = r.range(-9, 9), k = r.range(-3, 3); ll dt = E & e; if (s) { E = E * s; with(pg::blade024<ll>(pg::blade02E<ll>(pg::blade0<ll>(s), pg::blade2E<ll>(E)), pg::blade2e4<ll>(pg::blade2e<ll>(e), pg::blade4<ll>(dt))), 0, "024 (motor)"); } (void)k; ll e123 = r.range(-9, 9); auto v = g.v3() * e123, tp = g.v3(); if (e123) { ll e0 = -((v & tp) / e123); with(pg::blade13<ll>(pg::blade1<ll>(e0, v), pg::blade3<ll>(e123, tp)), 1, "13"); } } c.nontrivial_input();
}
