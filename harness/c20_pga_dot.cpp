// C20: projective geometric algebra
#include "c20_pga.h"
UNIT(pga_dot, 300, 10000, "inner products of all 14x14 pairs") { auto& r = c.rng; Bl<ll> g{gen<ll>(r)}; c.input("dot"); g.each([&](const auto& a, const char* ta) { auto ua = up(a); c.note(" " + sm(ua)); g.each([&](const auto& b, const char* tb) { auto ub = up(b); PSAME(a & b, mul(ua, ub, SQP, DOT), "inner product"); }); }); c.nontrivial_input(); }
