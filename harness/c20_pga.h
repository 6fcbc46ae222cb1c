#pragma once
#include "c20_common.h"
// ------------------------------------------------------------ PGA: e0 is bit 0 (null), e1..e3 bits 1..3
static const int SQP[4] = {0, 1, 1, 1};
namespace pg = altruct::math::pga;
template<typename T> static MV<T> up(pg::zero<T>) { return MV<T>(); }
template<typename T> static MV<T> up(const pg::blade0<T>& b) { MV<T> m; m.c[0] = b.s; return m; }
template<typename T> static MV<T> up(const pg::blade1<T>& b) { MV<T> m; m.c[1] = b.e0; m.c[2] = b.v.x; m.c[4] = b.v.y; m.c[8] = b.v.z; return m; }
template<typename T> static MV<T> up(const pg::blade2E<T>& b) { MV<T> m; m.c[12] = b.biE.x; m.c[10] = T(0) - b.biE.y; m.c[6] = b.biE.z; return m; }
template<typename T> static MV<T> up(const pg::blade2e<T>& b) { MV<T> m; m.c[3] = b.bie.x; m.c[5] = b.bie.y; m.c[9] = b.bie.z; return m; }
template<typename T> static MV<T> up(const pg::blade3<T>& b) { MV<T> m; m.c[14] = b.e123; m.c[13] = T(0) - b.triP.x; m.c[11] = b.triP.y; m.c[7] = T(0) - b.triP.z; return m; }
template<typename T> static MV<T> up(const pg::blade4<T>& b) { MV<T> m; m.c[15] = b.e0123; return m; }
template<typename T> static MV<T> up(const pg::blade02E<T>& b) { return up(b.b0) + up(b.b2E); }
template<typename T> static MV<T> up(const pg::blade02e<T>& b) { return up(b.b0) + up(b.b2e); }
template<typename T> static MV<T> up(const pg::blade22<T>& b) { return up(b.b2E) + up(b.b2e); }
template<typename T> static MV<T> up(const pg::blade2E4<T>& b) { return up(b.b2E) + up(b.b4); }
template<typename T> static MV<T> up(const pg::blade2e4<T>& b) { return up(b.b2e) + up(b.b4); }
template<typename T> static MV<T> up(const pg::blade024<T>& b) { return up(b.b02) + up(b.b24); }
template<typename T> static MV<T> up(const pg::blade13<T>& b) { return up(b.b1) + up(b.b3); }
template<typename T> static MV<T> up(const pg::multivector<T>& b) { return up(b.b024) + up(b.b13); }
// duality: the coefficient of each basis element moves to its complement in the documented element order
template<typename T> static MV<T> odual(const MV<T>& x) { MV<T> r; r.c[15] = x.c[0]; r.c[0] = x.c[15]; r.c[14] = x.c[1]; r.c[1] = x.c[14]; static const int V1[3] = {2, 4, 8}, P3[3] = {13, 11, 7}, S3[3] = {-1, 1, -1}, E2[3] = {12, 10, 6}, SE[3] = {1, -1, 1}, e2[3] = {3, 5, 9}; for (int i = 0; i < 3; i++) { T p = S3[i] < 0 ? T(0) - x.c[V1[i]] : x.c[V1[i]]; r.c[P3[i]] = p; r.c[V1[i]] = S3[i] < 0 ? T(0) - x.c[P3[i]] : x.c[P3[i]]; T E = SE[i] < 0 ? T(0) - x.c[E2[i]] : x.c[E2[i]]; r.c[e2[i]] = E; r.c[E2[i]] = SE[i] < 0 ? T(0) - x.c[e2[i]] : x.c[e2[i]]; } return r; }
template<typename T> struct Bl {
    std::function<T()> any; vector3d<T> v3() { T a = any(), b = any(), d = any(); return vector3d<T>(a, b, d); }
    pg::blade0<T> b0() { return pg::blade0<T>(any()); } pg::blade1<T> b1() { T e = any(); return pg::blade1<T>(e, v3()); } pg::blade2E<T> b2E() { return pg::blade2E<T>(v3()); } pg::blade2e<T> b2e() { return pg::blade2e<T>(v3()); } pg::blade3<T> b3() { T e = any(); return pg::blade3<T>(e, v3()); } pg::blade4<T> b4() { return pg::blade4<T>(any()); }
    pg::blade02E<T> b02E() { return pg::blade02E<T>(b0(), b2E()); } pg::blade02e<T> b02e() { return pg::blade02e<T>(b0(), b2e()); } pg::blade22<T> b22() { return pg::blade22<T>(b2E(), b2e()); } pg::blade2E4<T> b2E4() { return pg::blade2E4<T>(b2E(), b4()); } pg::blade2e4<T> b2e4() { return pg::blade2e4<T>(b2e(), b4()); } pg::blade024<T> b024() { return pg::blade024<T>(b02E(), b2e4()); } pg::blade13<T> b13() { return pg::blade13<T>(b1(), b3()); } pg::multivector<T> mv() { return pg::multivector<T>(b024(), b13()); }
    template<typename F> void each(F f) { f(b0(), "0"); f(b1(), "1"); f(b2E(), "2E"); f(b2e(), "2e"); f(b3(), "3"); f(b4(), "4"); f(b02E(), "02E"); f(b02e(), "02e"); f(b22(), "22"); f(b2E4(), "2E4"); f(b2e4(), "2e4"); f(b024(), "024"); f(b13(), "13"); f(mv(), "m"); }
};
#define PSAME(X, W, op) do { auto _g = up(X); auto _w = (W); if (!(_g == _w)) c.fail(op, std::string(op) + " of " + ta + " and " + tb + ": got " + sm(_g) + " want " + sm(_w) + " from " + sm(ua) + " and " + sm(ub)); c.checks(); } while (0)
template<typename T> static std::function<T()> gen(vm::Rng& r) { int z = (int)r.below(4); return [&r, z]() -> T { return z && (int)r.below(4) < z ? T(0) : T((int)r.range(-20, 20)); }; }
