// shared by the C20 harnesses: full multivectors over the basis table
#pragma once
#include "vm.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/structure/math/vector3d.h"
#include "altruct/structure/math/vectorNd.h"
#include "altruct/structure/math/clifford3.h"
#include "altruct/structure/math/pga.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "str_math.h"
using namespace altruct::math;
typedef int64_t ll; template<typename T> using V = std::vector<T>;
typedef modulo<int, 10007, modulo_storage::CONSTANT> md;
// full multivector over basis bit masks; bit 0 is e0 (null) when NULLS, else bit i is the i-th positive vector
template<typename T> struct MV { T c[16]; MV() { for (auto& x : c) x = T(0); } bool operator==(const MV& o) const { for (int i = 0; i < 16; i++) if (!(c[i] == o.c[i])) return false; return true; } MV operator+(const MV& o) const { MV r; for (int i = 0; i < 16; i++) r.c[i] = c[i] + o.c[i]; return r; } MV operator-(const MV& o) const { MV r; for (int i = 0; i < 16; i++) r.c[i] = c[i] - o.c[i]; return r; } MV operator-() const { return MV() - *this; } MV operator*(const T& t) const { MV r; for (int i = 0; i < 16; i++) r.c[i] = c[i] * t; return r; } };
namespace altruct { namespace math { } } template<typename T> static std::string sm(const MV<T>& m) { V<std::string> v; std::string s = "{"; for (int i = 0; i < 16; i++) s += vm::S(m.c[i]) + (i < 15 ? " " : "}"); return s; }
static int bsign(int a, int b) { int s = 0; for (int i = 0; i < 4; i++) if (b >> i & 1) for (int j = i + 1; j < 4; j++) if (a >> j & 1) s++; return s & 1 ? -1 : 1; }
enum { GEO, WEDGE, DOT };
// metric: square of each basis vector
template<typename T> static MV<T> mul(const MV<T>& x, const MV<T>& y, const int* sq, int kind = GEO) { MV<T> r; for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) { int s = bsign(a, b); for (int i = 0; i < 4; i++) if (a >> i & b >> i & 1) s *= sq[i]; if (!s) continue; int k = a ^ b, ga = __builtin_popcount(a), gb = __builtin_popcount(b), g = __builtin_popcount(k); if (kind == WEDGE && g != ga + gb) continue; if (kind == DOT && g != std::abs(ga - gb)) continue; T t = x.c[a] * y.c[b]; if (s > 0) r.c[k] = r.c[k] + t; else r.c[k] = r.c[k] - t; } return r; }
template<typename T, typename F> static MV<T> bygrade(const MV<T>& x, F f) { MV<T> r; for (int i = 0; i < 16; i++) r.c[i] = f(__builtin_popcount(i)) < 0 ? T(0) - x.c[i] : x.c[i]; return r; }
template<typename T> static MV<T> orev(const MV<T>& x) { return bygrade(x, [](int g) { return g == 2 || g == 3 ? -1 : 1; }); }

