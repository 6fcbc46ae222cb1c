// C20: projective geometric algebra
#include "c20_pga.h"
UNIT(pga_join, 300, 10000, "joins of all 14x14 pairs: dual of the meet of duals") { auto& r = c.rng; Bl<ll> g{gen<ll>(r)}; c.input("join"); g.each([&](const auto& a, const char* ta) { auto ua = up(a); c.note(" " + sm(ua)); g.each([&](const auto& b, const char* tb) { auto ub = up(b); PSAME(a | b, odual(mul(odual(ua), odual(ub), SQP, WEDGE)), "join"); }); }); c.nontrivial_input(); }
