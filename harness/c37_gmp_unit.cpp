// second translation unit of C37: the header can be part of several
#include <sstream>
#include "altruct/algorithm/math/gmp_helpers.h"
int c37_other_unit() { std::ostringstream os; os << altruct::math::castOf<mpz>(7ll); return altruct::math::castOf<int>(mpz(os.str())); }
