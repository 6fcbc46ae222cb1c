// C20: projective geometric algebra
#include "c20_pga.h"
UNIT(pga_wedge, 300, 10000, "outer products of all 14x14 pairs") { auto& r = c.rng; Bl<ll> g{gen<ll>(r)}; c.input("wedge"); g.each([&](const auto& a, const char* ta) { auto ua = up(a); c.note(" " + sm(ua)); g.each([&](const auto& b, const char* tb) { auto ub = up(b); PSAME(a ^ b, mul(ua, ub, SQP, WEDGE), "meet"); }); }); c.nontrivial_input(); }
