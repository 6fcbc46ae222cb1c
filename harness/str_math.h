// to-string of library number types, found by argument-dependent lookup
#pragma once
#include "vm.h"
#include "altruct/structure/math/modulo.h"
namespace altruct { namespace math {
template<typename T, uint64_t ID, int S> std::string str(const modulo<T, ID, S>& m) { return vm::str(m.v) + "%" + vm::str(m.M()); }
template<typename T> class fraction; template<typename T> class polynom;
template<typename T> std::string str(const fraction<T>& f) { return vm::S(f.p) + "/" + vm::S(f.q); }
template<typename T> std::string str(const polynom<T>& p) { return "poly" + vm::S(p.c); }
} }
namespace vm { using altruct::math::str; }
namespace altruct { namespace math {
template<typename T, int ID, int S> class series;
template<typename T, int ID, int S> std::string str(const series<T, ID, S>& s) { return vm::S(s.p) + "+O(" + vm::S(s.N()) + ")"; }
} }
