// C20: projective geometric algebra
#include "c20_pga.h"
UNIT(pga_sums, 300, 10000, "sums and differences of all 14x14 pairs of PGA element types") { auto& r = c.rng; Bl<ll> g{gen<ll>(r)}; c.input("sums"); g.each([&](const auto& a, const char* ta) { auto ua = up(a); c.note(" " + sm(ua)); g.each([&](const auto& b, const char* tb) { auto ub = up(b); PSAME(a + b, ua + ub, "sum"); PSAME(a - b, ua - ub, "difference"); }); }); c.nontrivial_input(); }
