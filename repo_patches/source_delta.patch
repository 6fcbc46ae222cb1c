From 72debbfffbe3040313d0253ce846577259a8d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 01/43] fix: integer roots, powers and rounded division without
 overflow near the type limits

---
 include/altruct/algorithm/math/base.h | 14 ++++++---
 src/algorithm/math/base.cpp           | 44 ++++++++++++++++-----------
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 97b7e7d..730f354 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -161,7 +161,7 @@ T powT(T x, I y) {
     T r = e1;
     for (; y > 0; y /= 2) {
         if (y % 2 != 0) r *= x;
-        x *= x;
+        if (y > 1) x *= x;
     }
     return r;
 }
@@ -247,6 +247,7 @@ T lcm(const T& a, const T& b) {
 int64_t isq(int64_t x);
 int32_t isqrt(int64_t x);
 int32_t isqrtc(int64_t x);
+uint32_t usqrt(uint64_t x);
 
 /**
  * Integer cube & cube root.
@@ -254,6 +255,7 @@ int32_t isqrtc(int64_t x);
 int64_t icb(int64_t x);
 int32_t icbrt(int64_t x);
 int32_t icbrtc(int64_t x);
+uint32_t ucbrt(uint64_t x);
 
 /**
  * Square of `x`.
@@ -291,8 +293,8 @@ template<> inline int16_t sqrtT(int16_t x, int16_t, size_t) { return isqrt(x); }
 template<> inline uint16_t sqrtT(uint16_t x, uint16_t, size_t) { return isqrt(x); }
 template<> inline int32_t sqrtT(int32_t x, int32_t, size_t) { return isqrt(x); }
 template<> inline uint32_t sqrtT(uint32_t x, uint32_t, size_t) { return isqrt(x); }
-template<> inline int64_t sqrtT(int64_t x, int64_t, size_t) { return isqrt(x); }
-template<> inline uint64_t sqrtT(uint64_t x, uint64_t, size_t) { return isqrt(x); }
+template<> inline int64_t sqrtT(int64_t x, int64_t, size_t) { return x < 0 ? -int64_t(usqrt(0 - uint64_t(x))) : int64_t(usqrt(x)); }
+template<> inline uint64_t sqrtT(uint64_t x, uint64_t, size_t) { return usqrt(x); }
 
 /**
  * Tests whether `x` is a square.
@@ -338,7 +340,7 @@ template<> inline uint16_t cbrtT(uint16_t x, uint16_t, size_t) { return icbrt(x)
 template<> inline int32_t cbrtT(int32_t x, int32_t, size_t) { return icbrt(x); }
 template<> inline uint32_t cbrtT(uint32_t x, uint32_t, size_t) { return icbrt(x); }
 template<> inline int64_t cbrtT(int64_t x, int64_t, size_t) { return icbrt(x); }
-template<> inline uint64_t cbrtT(uint64_t x, uint64_t, size_t) { return icbrt(x); }
+template<> inline uint64_t cbrtT(uint64_t x, uint64_t, size_t) { return ucbrt(x); }
 
 /**
  * Tests whether `x` is a cube.
@@ -366,7 +368,9 @@ I div_ceil(I a, I b) {
 template<typename I>
 I div_round(I a, I b) {
     if (b < 0) a = -a, b = -b;
-    return (a > 0) ? I((a + b / 2) / b) : I((a - b / 2) / b);
+    I q = a / b, r = a % b; // rounds half away from zero, without overflow
+    if (a < 0) return (r <= -I(b - b / 2)) ? I(q - 1) : q;
+    return (r >= b - b / 2) ? I(q + 1) : q;
 }
 
 /**
diff --git a/src/algorithm/math/base.cpp b/src/algorithm/math/base.cpp
index e618580..8fa3da8 100644
--- a/src/algorithm/math/base.cpp
+++ b/src/algorithm/math/base.cpp
@@ -12,20 +12,24 @@ int64_t isq(int64_t x) {
     return x * x;
 }
 
+uint32_t usqrt(uint64_t x) {
+    const uint64_t q_max = 0xFFFFFFFFULL; // isqrt(2^64 - 1)
+    uint64_t q = uint64_t(floor(sqrt(double(x))));
+    if (q > q_max) q = q_max;
+    while (q * q > x) q--;
+    while (q < q_max && (q + 1) * (q + 1) <= x) q++;
+    return uint32_t(q);
+}
+
 int32_t isqrt(int64_t x) {
-    if (x < 0) return -isqrt(-x);
-    int32_t q = int32_t(floor(sqrt(double(x))));
-    while (isq(q) > x) q--;
-    while (isq(q + 1) <= x) q++;
-    return q;
+    if (x < 0) return -int32_t(usqrt(0 - uint64_t(x)));
+    return int32_t(usqrt(x));
 }
 
 int32_t isqrtc(int64_t x) {
     if (x < 0) return -isqrtc(-x);
-    int32_t q = int32_t(ceil(sqrt(double(x))));
-    while (isq(q) < x) q++;
-    while (q > 0 && isq(q - 1) >= x) q--;
-    return q;
+    int64_t q = usqrt(x);
+    return int32_t(q * q < x ? q + 1 : q);
 }
 
 // integer cube & cube root
@@ -34,20 +38,24 @@ int64_t icb(int64_t x) {
     return x * x * x;
 }
 
+uint32_t ucbrt(uint64_t x) {
+    const uint64_t q_max = 2642245; // icbrt(2^64 - 1)
+    uint64_t q = uint64_t(floor(pow(double(x), 1.0 / 3)));
+    if (q > q_max) q = q_max;
+    while (q * q * q > x) q--;
+    while (q < q_max && (q + 1) * (q + 1) * (q + 1) <= x) q++;
+    return uint32_t(q);
+}
+
 int32_t icbrt(int64_t x) {
-    if (x < 0) return -icbrt(-x);
-    int32_t q = int32_t(floor(pow(double(x), 1.0 / 3)));
-    while (icb(q) > x) q--;
-    while (icb(q + 1) <= x) q++;
-    return q;
+    if (x < 0) return -int32_t(ucbrt(0 - uint64_t(x)));
+    return int32_t(ucbrt(x));
 }
 
 int32_t icbrtc(int64_t x) {
     if (x < 0) return -icbrtc(-x);
-    int32_t q = int32_t(ceil(pow(double(x), 1.0 / 3)));
-    while (icb(q) < x) q++;
-    while (icb(q - 1) >= x) q--;
-    return q;
+    uint64_t q = ucbrt(x);
+    return int32_t(q * q * q < uint64_t(x) ? q + 1 : q);
 }
 
 } // math
-- 
2.43.0


From 7603b7d05e1edc2b663c0f7af0284ba5d9a10af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 02/43] fix: full-width make_ones and empty next_combination
 without out-of-range shifts

---
 include/altruct/algorithm/math/bits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/bits.h b/include/altruct/algorithm/math/bits.h
index 33e798e..d82fab1 100644
--- a/include/altruct/algorithm/math/bits.h
+++ b/include/altruct/algorithm/math/bits.h
@@ -25,7 +25,7 @@ const int bit_size<T>::value;
 /** Makes the bit at the given position. */
 template<typename T> T make_bit(int pos) { return T(1) << pos; }
 /** Makes `cnt` ones in a row. */
-template<typename T> T make_ones(int cnt) { return make_bit<T>(cnt) - 1; }
+template<typename T> T make_ones(int cnt) { return (cnt < bit_size<T>::value) ? T(make_bit<T>(cnt) - 1) : T(~T(0)); }
 /** Gets the bit at the given position. */
 template<typename T> T get_bit(T val, int pos) { return (val >> pos) & 1; }
 /** Sets the bit at the given position. */
@@ -227,6 +227,7 @@ I sign_mag(I x) {
  */
 template<typename I>
 bool next_combination(I& x, int size) {
+    if (x == 0) return false; // a single combination with no ones
     I v = (x + lo_bit(x)) & make_ones<I>(size);
     I w = (v ^ x) >> tzc(x);
     I y = (v | (w >> 2));
-- 
2.43.0


From 0b4daa1a26b20e49c2e8ebcc49efba045fda3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 03/43] fix: modular addition and normalization without signed
 overflow

---
 include/altruct/structure/math/modulo.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index bd6d54d..d11975a 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -53,9 +53,10 @@ U modulo_add_uint(U x, U y, U M) { // y = M is allowed
 }
 template<typename S>
 S modulo_add_int(S x, S y, S M) { // y = M is allowed
-    // TODO: use add_overflow when MSVC adds intrinsics
-    S r = x + y; bool of = (r < 0);
-    return (!of && r < M) ? r : (r - M);
+    // the sum of two non-negative values always fits the unsigned type
+    using U = typename std::make_unsigned<S>::type;
+    U r = U(x) + U(y);
+    return S((r < U(M)) ? r : U(r - U(M)));
 }
 template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value, bool> = true>
 U modulo_add(U x, U y, U M) { return modulo_add_uint(x, y, M); }
@@ -132,8 +133,9 @@ I modulo_normalize(U v, I M) {
 }
 template<typename S, typename I, typename std::enable_if_t<std::is_signed<S>::value && std::is_integral<I>::value, bool> = true>
 I modulo_normalize(S v, I M) {
-    if (v < 0) return modulo_neg_int(modulo_normalize(-v, M), M);
-    return modulo_normalize(static_cast<typename std::make_unsigned<S>::type>(v), M);
+    using U = typename std::make_unsigned<S>::type; // can represent the magnitude of any `v`
+    if (v < 0) return modulo_neg_int(modulo_normalize(static_cast<U>(0 - static_cast<U>(v)), M), M);
+    return modulo_normalize(static_cast<U>(v), M);
 }
 
 
-- 
2.43.0


From c8f313a237063d6f9fc03f5dcb2c2f127ab66be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 04/43] fix: modular multiplication and Garner/CRT for long
 long, mixed moduli and unsigned remainders

---
 include/altruct/algorithm/math/modulos.h |  6 +++---
 include/altruct/structure/math/modulo.h  | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 2ccf959..4b5ec10 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -28,7 +28,7 @@ template<typename T>
 void chinese_remainder(T* a, T* n, T a1, T n1, T a2, T n2) {
     T e0 = zeroT<T>::of(*a);
     T ni1, ni2; T g = modulo_gcd_ex(n1, n2, ni1, ni2);
-    if ((a2 - a1) % g != e0) { *n = e0, *a = e0; return; }
+    if (a1 % g != a2 % g) { *n = e0, *a = e0; return; }
     T t1 = modulo_mul(a1, ni2, n1);
     T t2 = modulo_mul(a2, ni1, n2);
     n1 /= g; n2 /= g; *n = n1 * n2 * g;
@@ -61,8 +61,8 @@ V garner(const V& vap) {
     for (int i = 0; i < vx.size(); i++) {
         auto y = vap[i];
         for (int j = 0; j < i; j++) {
-            y -= vx[j];
-            y /= vap[j].M();
+            y -= castOf(y, vx[j].v); // moduli differ, hence reduce first
+            y /= castOf(y, vap[j].M());
         }
         vx[i] = y;
     }
diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index d11975a..ee647dd 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -79,15 +79,15 @@ I modulo_mul_int_long(I x, I y, I M) {
     }
     return r;
 }
+inline uint64_t modulo_mul_uint64(uint64_t x, uint64_t y, uint64_t M) {
+    return ((x >> 32) == 0 && (y >> 32) == 0) ? (x * uint32_t(y)) % M : modulo_mul_int_long(x, y, M);
+}
+// by size; there are distinct types of the same size, e.g. `long` and `long long`
 template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value, bool> = true>
 U modulo_mul(U x, U y, U M) {
-    return (uint32_t(x) * uint32_t(y)) % uint32_t(M);
-}
-template<> inline uint32_t modulo_mul(uint32_t x, uint32_t y, uint32_t M) {
-    return (uint64_t(x) * y) % M;
-}
-template<> inline uint64_t modulo_mul(uint64_t x, uint64_t y, uint64_t M) {
-    return ((x >> 32) == 0 && (y >> 32) == 0) ? (x * uint32_t(y)) % M : modulo_mul_int_long(x, y, M);
+    if (sizeof(U) < sizeof(uint32_t)) return U((uint32_t(x) * uint32_t(y)) % uint32_t(M));
+    if (sizeof(U) == sizeof(uint32_t)) return U((uint64_t(x) * uint64_t(y)) % uint64_t(M));
+    return U(modulo_mul_uint64(x, y, M));
 }
 template<typename S, typename std::enable_if_t<std::is_signed<S>::value, bool> = true>
 S modulo_mul(S x, S y, S M) {
-- 
2.43.0


From 33225dca266b42ad714781a603ed692562c8b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 05/43] fix: generic integer square and cube roots terminate
 for unsigned types

---
 include/altruct/algorithm/math/base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 730f354..61cf8fc 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -278,7 +278,7 @@ T sqrtT(T x, T eps = T(1), size_t max_iter = 0) {
     if (x == 1) return 1;
     T q1 = x / 2;
     T q2 = x / q1;
-    while (absT(T(q1 - q2)) > eps && --max_iter > 0) {
+    while (T(maxT(q1, q2) - minT(q1, q2)) > eps && --max_iter > 0) {
         q1 = (q1 + q2) / 2;
         q2 = x / q1;
     }
@@ -326,7 +326,7 @@ T cbrtT(T x, T eps = T(1), size_t max_iter = 0) {
     T r0 = 0;
     T r1 = sqrtT(x, eps);
     T r2 = x / sqT(r1);
-    while (r1 != r0 && absT(T(r1 - r2)) > eps && --max_iter > 0) {
+    while (r1 != r0 && T(maxT(r1, r2) - minT(r1, r2)) > eps && --max_iter > 0) {
         r0 = r1;
         r1 = (r1 + r1 + r2) / 3;
         r2 = x / sqT(r1);
-- 
2.43.0


From abbed4f5c5b2fda41b264ab2f349d66e34695665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 06/43] fix: sieves stay inside the given arrays for tiny
 bounds and windows

---
 src/algorithm/math/primes.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index d3776ed..d70c595 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -11,6 +11,7 @@ namespace math {
 int primes(int *p, char *q, int n) {
     // if q not specified, use p for both
     // last n chars of p are used for q
+    bool terminate = (!q && n > 0); // `p` is certain to have room for it
     if (!q) q = (char *) (p + n) - n;
     // initialize q
     if (n > 0) q[0] = 0;
@@ -28,13 +29,13 @@ int primes(int *p, char *q, int n) {
         for (int j = i * i; j < n; j += i)
             q[j] = 0;
     }
-    if (p) p[m] = 0;
+    if (terminate) p[m] = 0;
     return m;
 }
 
 void prime_pi(int *pi, int n, const int *p, int m) {
     for (int i = 0, l = 0; i < n; i++) {
-        if (i == p[l]) l++;
+        if (l < m && i == p[l]) l++;
         pi[i] = l;
     }
 }
@@ -48,7 +49,7 @@ void euler_phi(int *phi, int n, const int *p, int m) {
 }
 
 void moebius_mu(int *mu, int n, const int* p, int m) {
-    mu[0] = 0;
+    if (n > 0) mu[0] = 0;
     for (int i = 1; i < n; i++)
         mu[i] = 1;
     for (int i = 2; i * i < n; i++) {
@@ -77,8 +78,8 @@ void prime_nu(int *nu, int n, const int* p, int m) {
 
 void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
     char* _q = q - b;
-    if (b == 0) _q[b++] = 0;
-    if (b == 1) _q[b++] = 0;
+    if (b == 0 && b < e) _q[b++] = 0;
+    if (b == 1 && b < e) _q[b++] = 0;
     for (int64_t a = b; a < e; a++)
         _q[a] = 1;
     for (int i = 0; i < m; i++) {
@@ -91,7 +92,7 @@ void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
 
 void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_phi = phi - b, *_tmp = tmp - b;
-    if (b == 0) _phi[b++] = 0;
+    if (b == 0 && b < e) _phi[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _phi[q] = 1, _tmp[q] = q;
     for (int i = 0; i < m; i++) {
@@ -108,7 +109,7 @@ void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *
 
 void segmented_mu(int64_t *mu, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_mu = mu - b;
-    if (b == 0) _mu[b++] = 0;
+    if (b == 0 && b < e) _mu[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _mu[q] = 1;
     for (int i = 0; i < m; i++) {
@@ -158,7 +159,7 @@ void smallest_factor(int* spf, size_t n) {
             spf[j] = 1;
         }
     }
-    for (size_t i = n - 1; i >= 2; i--) {
+    for (size_t i = (n > 0) ? n - 1 : 0; i >= 2; i--) {
         if (spf[i] || i > n / i) continue;
         for (size_t j = i * i; j < n; j += i) {
             spf[j] = (int)i;
@@ -167,7 +168,8 @@ void smallest_factor(int* spf, size_t n) {
 }
 
 void factor(int *bpf, int n, const int *p, int m) {
-    bpf[0] = 0, bpf[1] = 1;
+    if (n > 0) bpf[0] = 0;
+    if (n > 1) bpf[1] = 1;
     for (int i = 0; i < m; i++)
         for (int j = p[i]; j < n; j += p[i])
             bpf[j] = p[i];
-- 
2.43.0


From fdd76af0caf90e22331ec51b6242a45d76aaf21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 07/43] fix: divisor and smooth-number enumeration without
 overflow past the last power

---
 include/altruct/algorithm/math/factorization.h | 3 ++-
 include/altruct/algorithm/math/primes.h        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/factorization.h b/include/altruct/algorithm/math/factorization.h
index 3f8952c..f865f3b 100644
--- a/include/altruct/algorithm/math/factorization.h
+++ b/include/altruct/algorithm/math/factorization.h
@@ -205,7 +205,8 @@ void from_primes_impl(std::vector<std::pair<P, int>>& vf, const P* pa, size_t ps
     if (psz == 0) return visitor(vf, n);
     P p = pa[psz - 1];
     from_primes_impl<I, P, F>(vf, pa, psz - 1, n_max, n, visitor);
-    for (int e = 1; n *= p, (n_max /= p) > 0; e++) {
+    for (int e = 1; (n_max /= p) > 0; e++) {
+        n *= p;
         vf.push_back({ p, e });
         from_primes_impl<I, P, F>(vf, pa, psz - 1, n_max, n, visitor);
         vf.pop_back();
diff --git a/include/altruct/algorithm/math/primes.h b/include/altruct/algorithm/math/primes.h
index ba6daf9..e076c35 100644
--- a/include/altruct/algorithm/math/primes.h
+++ b/include/altruct/algorithm/math/primes.h
@@ -266,7 +266,7 @@ void divisors(std::vector<D> &vd, const std::vector<std::pair<P, int>> &vf, D ma
     const auto &f = vf[i];
     for (int e = 0; e <= f.second; e++) {
         divisors(vd, vf, maxd, d, i + 1);
-        if (maxd > 0 && d > maxd / f.first) break;
+        if (e == f.second || (maxd > 0 && d > maxd / f.first)) break;
         d *= f.first;
     }
 }
-- 
2.43.0


From 20e2c0431237dce78200ba86ae63a46bcd33c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 08/43] fix: deterministic Miller-Rabin test over the whole
 64-bit range

---
 include/altruct/algorithm/math/factorization.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/factorization.h b/include/altruct/algorithm/math/factorization.h
index f865f3b..1554635 100644
--- a/include/altruct/algorithm/math/factorization.h
+++ b/include/altruct/algorithm/math/factorization.h
@@ -66,8 +66,9 @@ bool miller_rabin(const T& n) {
     // 10^18, 2^61
     static T bases9[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 0 };
     if (n < 3825123056546413051LL) return miller_rabin(n, bases9);
-    // fallback to bases9 for larger numbers too
-    return miller_rabin(n, bases9);
+    // 10^23, 2^78; covers the whole 64-bit range
+    static T bases12[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 0 };
+    return miller_rabin(n, bases12);
 }
 
 /**
-- 
2.43.0


From 9779d6c14ba2837caeb9bfcbb5c16b7bc2b7ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 09/43] fix: power sums do not reuse Bernoulli numbers of
 another modulus

---
 include/altruct/algorithm/math/prime_counting.h |  5 +++--
 include/altruct/algorithm/math/sums.h           | 15 +++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/altruct/algorithm/math/prime_counting.h b/include/altruct/algorithm/math/prime_counting.h
index 20a31d1..6fd0801 100644
--- a/include/altruct/algorithm/math/prime_counting.h
+++ b/include/altruct/algorithm/math/prime_counting.h
@@ -23,12 +23,13 @@ container::sqrt_map<I, T> prime_power_sum_sqrt(int z, I n, T id) {
     // s[i] = Sum[k^z, {2 <= k <= i, SmallestPrimeFactorOf[k] > p[j] || IsPrime[k]}]
     I q = sqrtT(n) + 1;
     container::sqrt_map<I, T> s(q - 1, n);
+    const auto B = sum_pow_bernoulli<T>(z, id);
     for (I i = 1; i < q; i++) {
-        s[i] = sum_pow(z, i, id) - id;
+        s[i] = sum_pow(z, i, B) - id;
     }
     for (I k = n / q; k >= 1; k--) {
         I i = n / k;
-        s[i] = sum_pow(z, i, id) - id;
+        s[i] = sum_pow(z, i, B) - id;
     }
     for (I p = 2; p < q; p++) {
         if (s[p - 1] == s[p]) continue;
diff --git a/include/altruct/algorithm/math/sums.h b/include/altruct/algorithm/math/sums.h
index 187ac4e..f17e98a 100644
--- a/include/altruct/algorithm/math/sums.h
+++ b/include/altruct/algorithm/math/sums.h
@@ -77,6 +77,14 @@ T sum_pow(int p, I N, const std::vector<T>& B) {
     return r / (p + 1);
 }
 
+/**
+ * Bernoulli numbers to call `sum_pow` with. Only `B[0]` is used for powers up to 3.
+ */
+template<typename T>
+std::vector<T> sum_pow_bernoulli(int p, T id = T(1)) {
+    return (p <= 3) ? std::vector<T>(1, identityOf(id)) : bernoulli_b<T>(p, id);
+}
+
 /**
  * Calculates `Sum[k^p, {k, 1, n}]` in `O(p^2)`.
  *
@@ -85,12 +93,7 @@ T sum_pow(int p, I N, const std::vector<T>& B) {
  */
 template<typename T, typename I>
 T sum_pow(int p, I n, T id = T(1)) {
-    static std::vector<T> B;
-    if (B.size() < p + 1) {
-        int sz = (int)(B.size() + B.size() / 2);
-        B = bernoulli_b<T>(std::max(p, sz), id);
-    }
-    return sum_pow(p, n, B);
+    return sum_pow(p, n, sum_pow_bernoulli<T>(p, id));
 }
 
 /**
-- 
2.43.0


From 57c64b332bfa0f20bc384b466aee897ad60b2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 10/43] fix: Dirichlet division with multiplicative result
 accounts for g(1)

---
 include/altruct/algorithm/math/divisor_sums.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index a93a1a2..71c528e 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -215,6 +215,7 @@ template<typename F1, typename F2, typename TBL>
 void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m) {
     auto e1 = identityOf(castOf(h[0], f(1))), e0 = zeroOf(e1); // TODO: pass via argument?
     typedef decltype(e0) T;
+    auto ig1 = e1 / castOf(e1, g(1));
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
@@ -231,6 +232,7 @@ void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m
             for (int j = 0; j < k; j++) {
                 hq[k] -= gq[k - j] * hq[j];
             }
+            hq[k] *= ig1;
             h[q[k]] = hq[k];
         }
     }
@@ -330,11 +332,12 @@ void dirichlet_convolution_completely_multiplicative(TBL& h, F1 f, F2 g, int n,
 template<typename F1, typename F2, typename TBL>
 void dirichlet_division_completely_multiplicative(TBL& h, F1 f, F2 g, int n, int* pf) {
     auto e1 = identityOf(castOf(h[0], f(1))); // TODO: pass via argument?
+    auto ig1 = e1 / castOf(e1, g(1));
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
     for (int p = 2; p < n; p++) {
-        if (pf[p] == p) h[p] = castOf(e1, f(p)) - castOf(e1, g(p));
+        if (pf[p] == p) h[p] = (castOf(e1, f(p)) - castOf(e1, g(p))) * ig1;
     }
     calc_completely_multiplicative(h, n, pf);
 }
-- 
2.43.0


From e9ea47e0df10b198ea235cddcb1391df97af791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 11/43] fix: multiplicative sums for tiny n and minimal prime
 tables, reduced totients in sum_phi

---
 include/altruct/algorithm/math/divisor_sums.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index 71c528e..f53f955 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -777,7 +777,7 @@ altruct::container::sqrt_map<I, T> sum_phi(I n, T id = T(1), int* phi = nullptr)
     int U = (int)isq(icbrt(n)); // TODO: cast
     altruct::container::sqrt_map<I, T> mm(U, n); mm[0] = zeroOf(id);
     if (phi) {
-        for (int k = 1; k < U; k++) mm[k] = mm[k - 1] + phi[k];
+        for (int k = 1; k < U; k++) mm[k] = mm[k - 1] + castOf(id, phi[k]);
     } else {
         moebius_transform(mm, idn, U);
         for (int k = 1; k < U; k++) mm[k] = mm[k - 1] + mm[k];
@@ -967,7 +967,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
     int c = icbrt(n);   // n^(1/3)
     int d = c;          // ~ n^(1/3)
     int64_t nd = n / d; // ~ n^(2/3)
-    int h = int(nd / pa1[psz]) + 1; // h <= n^(1/6)
+    int h = (psz > 0) ? int(nd / pa1[psz]) + 1 : 1; // h <= n^(1/6)
     int nq = int(n / (q + 1));      // ~ n^(1/2)
     int tsz = q + 1 + nq;           // ~ n^(1/2) * 2
 
@@ -987,8 +987,8 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
 
     // step 2: calculate F_k for k = pi(n^(1/3)) + 1; O(n^(2/3) / log(n))
     {
-        int k; for (k = 1; k < psz && pa1[k] <= c; k++);
-        int p_k = pa1[k];
+        int k; for (k = 1; k <= psz && pa1[k] <= c; k++);
+        int p_k = (k <= psz) ? pa1[k] : q + 1; // no primes left up to `q`
         int64_t p_k2 = isq(p_k);
         // m < p_k; only 1 is included in the sum
         F_k[0] = zero;
@@ -997,7 +997,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         }
         // p_k <= m < p_k^2; also includes primes >= p_k in the sum
         T b = id - F_prime[p_k - 1];
-        for (int64_t m = pa1[k]; m <= q; m++) {
+        for (int64_t m = p_k; m <= q; m++) {
             F_k[m] = b + F_prime[m];
         }
         for (int i = nq; i >= 1; i--) {
@@ -1032,7 +1032,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         for (int64_t m = 1; m <= q; m++) Ft.add(m, F_k[m]), Ft.add(m + 1, -F_k[m]);
         for (int i = nq; i > d; i--) Ft.add(tsz - i, F_k[n / i]), Ft.add(tsz - i + 1, -F_k[n / i]);
         // main loop
-        for (int k = last_k - 1; pa1[k] > h; k--) {
+        for (int k = last_k - 1; k >= 1 && pa1[k] > h; k--) {
             int p_k = pa1[k];
             // m >= nd; compute directly
             F_k1.swap(F_k);
-- 
2.43.0


From 4a0075185156ce1992063b13266cab7e09f16f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 12/43] fix: range generators, unsigned sums, maximum and mex
 at the ends of their domain

---
 include/altruct/algorithm/math/ranges.h | 10 +++++++---
 include/altruct/algorithm/math/reduce.h |  4 ++--
 include/altruct/algorithm/math/sums.h   |  4 +++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/ranges.h b/include/altruct/algorithm/math/ranges.h
index c0937be..189e638 100644
--- a/include/altruct/algorithm/math/ranges.h
+++ b/include/altruct/algorithm/math/ranges.h
@@ -18,7 +18,8 @@ template<typename It, typename T = typename std::iterator_traits<It>::value_type
 void range(It begin, It end, T step = T(1)) {
     T v = zeroT<T>::of(step);
     for (It it = begin; it != end; ++it) {
-        *it = v; v += step;
+        if (it != begin) v += step;
+        *it = v;
     }
 }
 template<typename T>
@@ -37,7 +38,8 @@ template<typename It, typename T = typename std::iterator_traits<It>::value_type
 void powers(It begin, It end, T base) {
     T v = identityT<T>::of(base);
     for (It it = begin; it != end; ++it) {
-        *it = v; v *= base;
+        if (it != begin) v *= base;
+        *it = v;
     }
 }
 template<typename T>
@@ -56,7 +58,8 @@ template<typename It, typename T = typename std::iterator_traits<It>::value_type
 void factorials(It begin, It end, T id = T(1)) {
     T v = id, i = id;
     for (It it = begin; it != end; ++it) {
-        *it = v; v *= i; i += id;
+        if (it != begin) v *= i, i += id;
+        *it = v;
     }
 }
 template<typename T>
@@ -98,6 +101,7 @@ std::vector<T> make_inv_factorials(size_t n, T fact_k = T(1), size_t k = 1) {
  */
 template<typename It, typename T = typename std::iterator_traits<It>::value_type>
 void inverses_from_ifact(It begin, It end, T id = T(1)) {
+    if (begin == end) return;
     T fact = id, i = id;
     *begin = zeroOf(id);
     for (It it = ++begin; it != end; ++it) {
diff --git a/include/altruct/algorithm/math/reduce.h b/include/altruct/algorithm/math/reduce.h
index bb1fd70..d9c564c 100644
--- a/include/altruct/algorithm/math/reduce.h
+++ b/include/altruct/algorithm/math/reduce.h
@@ -64,7 +64,7 @@ T reduce_min(const C& c, T id = +std::numeric_limits<T>::max()) {
  * @param id - identity element, default -infinity
  */
 template<typename C, typename T = typename C::value_type>
-T reduce_max(const C& c, T id = -std::numeric_limits<T>::max()) {
+T reduce_max(const C& c, T id = std::numeric_limits<T>::is_signed ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest()) {
     return reduce(c, [](const T& r, const T& e) { return r < e ? e : r; }, id);
 }
 
@@ -76,7 +76,7 @@ T reduce_max(const C& c, T id = -std::numeric_limits<T>::max()) {
  */
 template<typename C, typename T = typename C::value_type>
 T reduce_mex(const C& c, T id = 0) {
-    return reduce(c, [](const T& r, const T& e) { return r < e ? r : r + 1; }, id);
+    return reduce(c, [](const T& r, const T& e) { return r == e ? r + 1 : r; }, id);
 }
 
 } // math
diff --git a/include/altruct/algorithm/math/sums.h b/include/altruct/algorithm/math/sums.h
index f17e98a..77884a7 100644
--- a/include/altruct/algorithm/math/sums.h
+++ b/include/altruct/algorithm/math/sums.h
@@ -42,9 +42,11 @@ T sum_ratio(I a, I b, I q, I n, T zero = T(0)) {
 template<typename T, typename I, typename F>
 T sum(F f, I a, I b, T zero = T(0)) {
     T r = zero;
-    for (I k = b; k >= a; k--) {
+    if (b < a) return r;
+    for (I k = b; k > a; k--) {
         r += f(k);
     }
+    r += f(a);
     return r;
 }
 
-- 
2.43.0


From d47309b2bc18008eb68cb3f3f1eaf9b0cbb71495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 13/43] fix: polynomial products modulo more than 2^32 and
 scaling by an own coefficient

---
 include/altruct/algorithm/math/polynom_mod.h | 5 ++++-
 include/altruct/structure/math/polynom.h     | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/polynom_mod.h b/include/altruct/algorithm/math/polynom_mod.h
index 94140d0..12f49e0 100644
--- a/include/altruct/algorithm/math/polynom_mod.h
+++ b/include/altruct/algorithm/math/polynom_mod.h
@@ -190,11 +190,14 @@ struct polynom_mul<modulo<I, ID, STORAGE_TYPE>, std::enable_if_t<std::is_integra
     static double cost_karatsuba(int l1, int l2) { return 0.25 * l1 * pow(l2, 0.5849625); }
     static double cost_fft(int l1, int l2) { int n = next_pow2(l1 + l2 + 1); return 0.375 * n * log2(n); }
 
+    // the coefficients must fit in 32 bits for the FFT based algorithms
+    static bool is_fft_applicable(const mod& m) { return uint64_t(m.M() - 1) <= UINT32_MAX; }
+
     //static int LONG_THRESHOLD;
     static void impl(mod* pr, int lr, const mod* p1, int l1, const mod* p2, int l2) {
         if (l2 < 48) { // LONG_THRESHOLD
             polynom<mod>::_mul_long(pr, lr, p1, l1, p2, l2);
-        } else if (l2 < 100 || l1 < 450 || cost_karatsuba(l1, l2) < cost_fft(l1, l2)) {
+        } else if (l2 < 100 || l1 < 450 || !is_fft_applicable(*p1) || cost_karatsuba(l1, l2) < cost_fft(l1, l2)) {
             polynom<mod>::_mul_karatsuba(pr, lr, p1, l1, p2, l2);
         } else if (l1 + l2 <= 100000) {
             _mul_fft(pr, lr, p1, l1, p2, l2);
diff --git a/include/altruct/structure/math/polynom.h b/include/altruct/structure/math/polynom.h
index 3d4b5ed..8d34330 100644
--- a/include/altruct/structure/math/polynom.h
+++ b/include/altruct/structure/math/polynom.h
@@ -274,7 +274,8 @@ public:
 
     // pr = p1 * s; O(l1)
     // it is allowed for `p1` and `pr` to be the same instance
-    static void mul(polynom &pr, const polynom &p1, const T &s) {
+    // it is allowed for `s` to be a coefficient of `pr`
+    static void mul(polynom &pr, const polynom &p1, T s) {
         int lr = p1.deg();
         pr.resize(lr + 1, p1.ZERO_COEFF);
         for (int i = 0; i <= lr; i++) {
@@ -284,7 +285,8 @@ public:
 
     // pr = p1 / s; O(l1)
     // it is allowed for `p1` and `pr` to be the same instance
-    static void div(polynom &pr, const polynom &p1, const T &s) {
+    // it is allowed for `s` to be a coefficient of `pr`
+    static void div(polynom &pr, const polynom &p1, T s) {
         int lr = p1.deg();
         pr.resize(lr + 1, p1.ZERO_COEFF);
         for (int i = 0; i <= lr; i++) {
-- 
2.43.0


From 0fd310dc8c202e07ec7ccffd12e77d6fbf4835d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:12 +0000
Subject: [PATCH 14/43] fix: large powers and long shifts of formal power
 series

---
 include/altruct/structure/math/series.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index 19aff45..65e02fa 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -140,7 +140,9 @@ public:
 
     // s(x)*x^l - shifts coefficients of s(x) by l places
     series shift(int l) const {
-        if (l < 0) {
+        if (l <= -p.size() || l >= p.size()) {
+            return series(polynom<T>{ p.ZERO_COEFF }, this->N());
+        } else if (l < 0) {
             polynom<T> t(p.c.begin() - l, p.c.end());
             t.c.insert(t.c.end(), -l, p.ZERO_COEFF);
             return series(t, this->N());
@@ -324,7 +326,10 @@ public:
             return powT(*this, a);
         } else if (p[0] == p.ZERO_COEFF) {
             int l = p.lowest();
-            return shift(-p.lowest()).pow(a).shift(p.lowest() * int(a));
+            if (a == 0) return series(polynom<T>{ id_coeff() }, this->N());
+            // l == 0 for the zero series
+            if (l == 0 || a >= this->N()) return series(polynom<T>{ p.ZERO_COEFF }, this->N());
+            return shift(-l).pow(a, threshold).shift(int(std::min<int64_t>(l * a, this->N())));
         } else if (p[0] == id_coeff()) {
             return (ln() * castOf(p[0], a)).exp();
         } else {
-- 
2.43.0


From 8d6e53f21abb146911c72471cf66316d8a3b2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:12 +0000
Subject: [PATCH 15/43] fix: complex root tables stay valid when larger ones
 are requested

---
 include/altruct/structure/math/root_wrapper.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/math/root_wrapper.h b/include/altruct/structure/math/root_wrapper.h
index 1d818cf..f44bdac 100644
--- a/include/altruct/structure/math/root_wrapper.h
+++ b/include/altruct/structure/math/root_wrapper.h
@@ -4,6 +4,7 @@
 #include "altruct/structure/math/complex.h"
 
 #include <cmath>
+#include <list>
 #include <vector>
 
 namespace altruct {
@@ -46,17 +47,20 @@ template<typename F>
 root_wrapper<complex<F>> complex_root_wrapper(int l) {
     typedef complex<F> cplx;
     static const auto _2_PI = 2 * acos(F(-1));
-    static std::vector<cplx> roots{F(1)};
-    int size = (int)roots.size();
+    // all the tables are kept, so that the wrappers returned earlier remain valid
+    static std::list<std::vector<cplx>> tables(1, std::vector<cplx>(1, cplx(F(1))));
+    int size = (int)tables.back().size();
     if (size < l) {
         while (size < l) size *= 2;
-        roots.resize(size);
+        std::vector<cplx> roots(size);
         for (int i = 0; i < size; i++) {
             auto A = _2_PI * i / size;
             roots[i] = cplx(cos(A), sin(A));
         }
+        tables.push_back(std::move(roots));
     }
-    return root_wrapper<cplx>(roots.data(), size, 1);
+    // the principal root of order 1 is the identity
+    return root_wrapper<cplx>(tables.back().data(), size, (size > 1) ? 1 : 0);
 }
 
 } // math
-- 
2.43.0


From 81b422cf389a8b98c1de3d746639bdcc5f2924a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:04 +0000
Subject: [PATCH 16/43] fix: rank of singular matrices and scaling a matrix by
 an own entry

---
 include/altruct/structure/math/matrix.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index d4d2422..d65bccb 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -117,7 +117,7 @@ public:
         return matrix(*this) *= rhs;
     }
 
-    matrix& operator *= (const T& s) {
+    matrix& operator *= (T s) {
         int n = rows(), m = cols();
         for (int i = 0; i < n; i++) {
             for (int j = 0; j < m; j++) {
@@ -137,7 +137,7 @@ public:
         return matrix(*this) *= rhs.inverse();
     }
 
-    matrix& operator /= (const T& s) {
+    matrix& operator /= (T s) {
         int n = rows(), m = cols();
         for (int i = 0; i < n; i++) {
             for (int j = 0; j < m; j++) {
@@ -173,26 +173,26 @@ public:
                 det = e0;
                 continue;
             }
-            rank++;
+            int r = rank++; // pivot row; `r == j` unless singular
             // rows transposition
-            if (i != j) {
-                std::swap(mat.a[i], mat.a[j]);
-                std::swap(inv.a[i], inv.a[j]);
+            if (i != r) {
+                std::swap(mat.a[i], mat.a[r]);
+                std::swap(inv.a[i], inv.a[r]);
                 det = -det;
             }
             // normalize row
-            T pi = e1 / mat.a[j][j];
-            det *= mat.a[j][j];
+            T pi = e1 / mat.a[r][j];
+            det *= mat.a[r][j];
             for (k = 0; k < n; k++) {
-                mat.a[j][k] *= pi;
-                inv.a[j][k] *= pi;
+                mat.a[r][k] *= pi;
+                inv.a[r][k] *= pi;
             }
             // eliminate below
             for (i = rank; i < n; i++) {
                 T p = mat.a[i][j]; if (p == e0) continue;
                 for (k = 0; k < n; k++) {
-                    mat.a[i][k] -= mat.a[j][k] * p;
-                    inv.a[i][k] -= inv.a[j][k] * p;
+                    mat.a[i][k] -= mat.a[r][k] * p;
+                    inv.a[i][k] -= inv.a[r][k] * p;
                 }
             }
         }
-- 
2.43.0


From 843a526e584d6492ecec819127513b130609c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:30 +0000
Subject: [PATCH 17/43] fix: nth_permutation without overflow for large
 indices, next_partition on an empty range

---
 include/altruct/algorithm/math/combinatorics.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index 00fd1b4..1f87aa9 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -53,7 +53,7 @@ bool next_partition(BidIt begin, BidIt end) {
         }
         *it = 0;
     }
-    *begin = x;
+    if (begin != end) *begin = x;
     return false;
 }
 
@@ -65,15 +65,17 @@ bool next_partition(BidIt begin, BidIt end) {
 template<typename It, typename I>
 void nth_permutation(It begin, It end, I o) {
     auto d = std::distance(begin, end);
+    // `f = i!` is the largest factorial that does not exceed `o`
     int i = 0; I f = 1;
-    while (i < d && f <= o) f *= ++i;
-    while (i > 1) {
-        o %= f;
-        while (i > 1 && f > o) f /= i--;
+    while (i < d && f <= o / (i + 1)) f *= ++i;
+    if (i == d) o %= f;
+    while (o > 0) {
+        while (f > o) f /= i--;
         It it = end - i - 1;
         for (int k = int(o / f); k > 0; k--) {
             std::swap(*(it + k), *(it + k - 1));
         }
+        o %= f;
     }
 }
 
-- 
2.43.0


From 8e8ec5151c055c980e84056dc9566bbfa698620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:57 +0000
Subject: [PATCH 18/43] fix: generalized Pell solutions that were skipped,
 Farey neighbours of negative fractions, triples within the limit

---
 include/altruct/algorithm/math/fractions.h |  2 +-
 include/altruct/algorithm/math/pell.h      | 33 +++++++++++-----------
 include/altruct/algorithm/math/triples.h   |  5 +++-
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/include/altruct/algorithm/math/fractions.h b/include/altruct/algorithm/math/fractions.h
index bf70a92..27a11bd 100644
--- a/include/altruct/algorithm/math/fractions.h
+++ b/include/altruct/algorithm/math/fractions.h
@@ -21,7 +21,7 @@ template<typename I>
 fraction<I> farey_neighbour(const I& n, const fraction<I>& f_prev, const fraction<I>& f) {
     I p = f_prev.p, q = f_prev.q;
     if (f_prev.q == 0) {
-        gcd_ex(f.q, f.p, &p, &q);
+        if (gcd_ex(f.q, f.p, &p, &q) < 0) p = -p, q = -q;
         (f_prev.p < 0) ? p = -p : q = -q;
     }
     I k = (n + q) / f.q;
diff --git a/include/altruct/algorithm/math/pell.h b/include/altruct/algorithm/math/pell.h
index b246c47..9796a4d 100644
--- a/include/altruct/algorithm/math/pell.h
+++ b/include/altruct/algorithm/math/pell.h
@@ -165,25 +165,25 @@ int pell_mz(I D, I m, I z, I& x0, I& y0) {
     I zh = (z <= mh) ? z : z - mm;
     std::vector<I> P{ zh }, Q{ mm }, a, A, B, G;
     int l = pell_PQa<I>(D, P, Q, a, A, B, G);
-    int i = 1; while (i < (int)Q.size() && Q[i] != +1 && Q[i] != -1) i++;
-    if (i >= (int)Q.size()) return 0;
     // check for solution by testing Q[i] == (-1)^i sign(m)
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
-        // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
-        // do another period to get +m
+    auto next_solution = [&](int i) {
+        while (i < (int)Q.size() && Q[i] != ((i % 2 == 1) ? -ms : +ms)) i++;
+        return i;
+    };
+    int i = next_solution(1);
+    if (i >= (int)Q.size() && l % 2 == 1) {
+        // only G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m so far, if any;
+        // the period is odd, do another one to get +m
         pell_PQa<I>(D, P, Q, a, A, B, G);
-        i += l;
+        i = next_solution(i);
     }
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
-        // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
-        // -m again, +m will never happen
+    if (i >= (int)Q.size()) {
+        // +m will never happen
         return 0;
     }
-    else {
-        // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = +m;
-        x0 = G[i - 1], y0 = B[i - 1];
-        return l;
-    }
+    // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = +m;
+    x0 = G[i - 1], y0 = B[i - 1];
+    return l;
 }
 
 /**
@@ -272,16 +272,17 @@ void pell(I D, I N, const std::vector<std::pair<P, int>>& fN, I x_max, I y_max,
         auto vs = pell<I>(D, N, fN);
         while (true) {
             auto size0 = size;
+            bool any_negative = false; // solutions that are yet to become positive
             for (auto& s : vs) {
                 auto t = s; s *= s1;
                 if (s.a <= 0 && s.b <= 0) s = -s;
-                if (t.a < 0 || t.b < 0) continue;
+                if (t.a < 0 || t.b < 0) { any_negative = true; continue; }
                 if (x_max > 0 && t.a > x_max) continue;
                 if (y_max > 0 && t.b > y_max) continue;
                 if (count > 0 && size >= count) continue;
                 visitor(t); size++;
             }
-            if (size == size0) break;
+            if (size == size0 && !any_negative) break;
         }
     }
 }
diff --git a/include/altruct/algorithm/math/triples.h b/include/altruct/algorithm/math/triples.h
index bc7b866..dd5f885 100644
--- a/include/altruct/algorithm/math/triples.h
+++ b/include/altruct/algorithm/math/triples.h
@@ -127,7 +127,10 @@ std::vector<triple<I>> generate_pythagorean_triples(I n, const std::vector<tripl
         { {1, -2, 2}, {2, -1, 2}, {2, -2, 3} },
         { {2, 1, 2}, {1, 2, 2}, {2, 2, 3} },
     };
-    std::vector<triple<I>> vt = generators;
+    std::vector<triple<I>> vt;
+    for (const auto& t : generators) {
+        if (max_element(t) <= n) vt.push_back(t);
+    }
     for (size_t i = 0; i < vt.size(); i++) {
         for (int j = 0; j < 3; j++) {
             if (j == 1 && vt[i].a == vt[i].b) continue; // same triple as for j = 0
-- 
2.43.0


From cec939ec62b2a7bba39414d7f3f63956d1ee5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 19/43] fix: monotonic_search of a non-zero value,
 Berlekamp-Massey over runtime moduli

---
 include/altruct/algorithm/math/polynoms.h   | 6 +++---
 include/altruct/algorithm/math/recurrence.h | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/altruct/algorithm/math/polynoms.h b/include/altruct/algorithm/math/polynoms.h
index 61720fd..a0353e1 100644
--- a/include/altruct/algorithm/math/polynoms.h
+++ b/include/altruct/algorithm/math/polynoms.h
@@ -22,16 +22,16 @@ namespace math {
 template<typename P, typename F>
 F monotonic_search(const P &p, const F &b, const F& e, const F& y, const F& epsy = 0, const F& epsx = 0, int max_iter = 200) {
     F lo = b, hi = e, mid = e;
-    F val_b = p(b), val_e = p(e);
+    F val_b = p(b) - y, val_e = p(e) - y;
     if (-epsy <= val_b && val_b <= epsy) return b;
     if (-epsy <= val_e && val_e <= epsy) return e;
     int s = (val_b > val_e) ? -1 : +1;
     while (hi - lo > epsx && max_iter-- > 0) {
         mid = (lo + hi) / 2;
         if (mid == lo || mid == hi) return mid;
-        F val = p(mid);
+        F val = p(mid) - y;
         if (-epsy <= val && val <= epsy) return mid;
-        if ((s > 0) ? (val < y) : (val > y)) {
+        if ((s > 0) ? (val < 0) : (val > 0)) {
             lo = mid;
         }
         else {
diff --git a/include/altruct/algorithm/math/recurrence.h b/include/altruct/algorithm/math/recurrence.h
index 5275f0c..cab6478 100644
--- a/include/altruct/algorithm/math/recurrence.h
+++ b/include/altruct/algorithm/math/recurrence.h
@@ -144,8 +144,9 @@ polynom<T> berlekamp_massey_poly(const std::vector<A>& a, T id = T(1)) {
     T e0 = zeroOf(id), e1 = identityOf(id);
     int n = (int)a.size() / 2;
     int m = 2 * n - 1;
-    polynom<A> R, R0, R1;
-    polynom<T> V, V0, V1, Q;
+    A a0 = zeroOf(a[0]);
+    polynom<A> R(a0), R0(a0), R1(a0);
+    polynom<T> V(e0), V0(e0), V1(e0), Q(e0);
     R0[m + 1] = identityOf(a[0]);
     for (int i = 0; i <= m; i++) {
         R1[i] = a[m - i];
-- 
2.43.0


From b894b50cc42f8ecb9ce981ab1b7fc8b8b6a29ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:34 +0000
Subject: [PATCH 20/43] fix: negated infinity stays infinite, scaling a
 quadratic number by its own coefficient

---
 include/altruct/structure/math/quadratic.h     | 4 ++--
 include/altruct/structure/math/with_infinity.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/math/quadratic.h b/include/altruct/structure/math/quadratic.h
index 2f49b94..4c6c726 100644
--- a/include/altruct/structure/math/quadratic.h
+++ b/include/altruct/structure/math/quadratic.h
@@ -81,8 +81,8 @@ public:
     quadratic& operator /= (const quadratic& rhs) { return *this = *this * rhs.conjugate() / rhs.norm(); }
     quadratic& operator %= (const quadratic& rhs) { return *this = *this - rhs * (*this / rhs); }
 
-    quadratic& operator *= (const T& rhs) { a *= rhs; b *= rhs; return *this; }
-    quadratic& operator /= (const T& rhs) { a /= rhs; b /= rhs; return *this; }
+    quadratic& operator *= (const T& rhs) { T r = rhs; a *= r; b *= r; return *this; }
+    quadratic& operator /= (const T& rhs) { T r = rhs; a /= r; b /= r; return *this; }
 
     quadratic conjugate() const { return quadratic(a, -b, this->D()); }
     T norm() const { return a * a - b * b * this->D(); }
diff --git a/include/altruct/structure/math/with_infinity.h b/include/altruct/structure/math/with_infinity.h
index 4a3f38b..70ca98a 100644
--- a/include/altruct/structure/math/with_infinity.h
+++ b/include/altruct/structure/math/with_infinity.h
@@ -47,7 +47,7 @@ public:
 
     with_infinity  operator +  (const with_infinity &rhs) const { with_infinity t(*this); t += rhs; return t; }
     with_infinity  operator -  (const with_infinity &rhs) const { with_infinity t(*this); t -= rhs; return t; }
-    with_infinity  operator -  ()                         const { with_infinity t(-v);              return t; }
+    with_infinity  operator -  ()                         const { with_infinity t(-v, is_inf);      return t; }
     with_infinity  operator *  (const with_infinity &rhs) const { with_infinity t(*this); t *= rhs; return t; }
     with_infinity  operator /  (const with_infinity &rhs) const { with_infinity t(*this); t /= rhs; return t; }
     with_infinity  operator %  (const with_infinity &rhs) const { with_infinity t(*this); t %= rhs; return t; }
-- 
2.43.0


From 81438761de96cfc8cf0cd66116175cb6599013bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:30 +0000
Subject: [PATCH 21/43] fix: permutations compare by their action and huge
 powers, dangling PGA negation, scaling vectors by their own coordinate

---
 include/altruct/structure/math/clifford3.h   | 16 ++++++++--------
 include/altruct/structure/math/permutation.h | 10 ++++++----
 include/altruct/structure/math/pga.h         |  6 +++---
 include/altruct/structure/math/vector2d.h    |  4 ++--
 include/altruct/structure/math/vector3d.h    |  4 ++--
 include/altruct/structure/math/vectorNd.h    | 10 +++++-----
 6 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/include/altruct/structure/math/clifford3.h b/include/altruct/structure/math/clifford3.h
index 624c340..bc4ddb0 100644
--- a/include/altruct/structure/math/clifford3.h
+++ b/include/altruct/structure/math/clifford3.h
@@ -44,8 +44,8 @@ public:
     rotor& operator *= (const rotor& r) { return *this = *this * r; }
     rotor& operator /= (const rotor& r) { return *this = *this / r; }
 
-    rotor& operator *= (const T& t) { s *= t; yz *= t; zx *= t; xy *= t; return *this; }
-    rotor& operator /= (const T& t) { s /= t; yz /= t; zx /= t; xy /= t; return *this; }
+    rotor& operator *= (const T& t) { return *this = *this * t; }
+    rotor& operator /= (const T& t) { return *this = *this / t; }
 
     rotor  operator +  (const rotor& r) const { return rotor(s + r.s, yz + r.yz, zx + r.zx, xy + r.xy); }
     rotor  operator -  (const rotor& r) const { return rotor(s - r.s, yz - r.yz, zx - r.zx, xy - r.xy); }
@@ -141,8 +141,8 @@ public:
     vector& operator *= (const rotor<T>& r) { return *this = *this * r; }
     vector& operator /= (const rotor<T>& r) { return *this = *this / r; }
 
-    vector& operator *= (const T& t) { x *= t; y *= t; z *= t; w *= t; return *this; }
-    vector& operator /= (const T& t) { x /= t; y /= t; z /= t; w /= t; return *this; }
+    vector& operator *= (const T& t) { return *this = *this * t; }
+    vector& operator /= (const T& t) { return *this = *this / t; }
 
     vector   operator +  (const vector& v) const { return vector(x + v.x, y + v.y, z + v.z, w + v.w); }
     vector   operator -  (const vector& v) const { return vector(x - v.x, y - v.y, z - v.z, w - v.w); }
@@ -271,8 +271,8 @@ public:
     multivector& operator += (const multivector& m) { r += m.r; v += m.v; return *this; }
     multivector& operator -= (const multivector& m) { r -= m.r; v -= m.v; return *this; }
 
-    multivector& operator *= (const rotor<T>& r2) { r *= r2; v *= r2; return *this; }
-    multivector& operator /= (const rotor<T>& r2) { r /= r2; v /= r2; return *this; } // return *this *= r2.inv();
+    multivector& operator *= (const rotor<T>& r2) { return *this = multivector(r * r2, v * r2); }
+    multivector& operator /= (const rotor<T>& r2) { return *this = multivector(r / r2, v / r2); } // return *this *= r2.inv();
 
     multivector& operator *= (const vector<T>& v2) { return *this = *this * v2; }
     multivector& operator /= (const vector<T>& v2) { return *this = *this / v2; }
@@ -280,8 +280,8 @@ public:
     multivector& operator *= (const multivector& m) { return *this = *this * m; }
     multivector& operator /= (const multivector& m) { return *this = *this / m; }
 
-    multivector& operator *= (const T& t) { r *= t; v *= t; return *this; }
-    multivector& operator /= (const T& t) { r /= t; v /= t; return *this; }
+    multivector& operator *= (const T& t) { return *this = *this * t; }
+    multivector& operator /= (const T& t) { return *this = *this / t; }
 
     multivector  operator +  (const rotor<T>& r2) const { return multivector(r + r2, v); }
     multivector  operator -  (const rotor<T>& r2) const { return multivector(r - r2, v); }
diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 3433019..a02e204 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -43,15 +43,17 @@ public:
     cycles_t to_cycles() const { return cycles; }
     // to cycles including 1-cycles
     cycles_t to_all_cycles() const { return all_cycles(cycles, n); }
+    // to cycles in the canonical order, without 1-cycles
+    cycles_t canonical() const { return line_to_cycles(to_line()); }
     // to line notation
     line_t to_line() const { return cycles_to_line(cycles, n); }
     // to transpositions notation
     transpositions_t to_transpositions() const { return cycles_to_transpositions(cycles); }
 
     // comparison operators; note: size `n` of the list matters for the comparison
-    bool operator == (const permutation& p2) const { return n == p2.n && cycles == p2.cycles; }
+    bool operator == (const permutation& p2) const { return n == p2.n && canonical() == p2.canonical(); }
     bool operator != (const permutation& p2) const { return !(*this == p2); }
-    bool operator <  (const permutation& p2) const { return (n != p2.n) ? (n < p2.n) : (cycles < p2.cycles); }
+    bool operator <  (const permutation& p2) const { return (n != p2.n) ? (n < p2.n) : (canonical() < p2.canonical()); }
     bool operator >  (const permutation& p2) const { return (p2 < *this); }
     bool operator <= (const permutation& p2) const { return !(p2 < *this); }
     bool operator >= (const permutation& p2) const { return !(*this < p2); }
@@ -69,14 +71,14 @@ public:
 
     // this permutation applied `T` times
     permutation pow(int64_t T) const {
-        if (T < 0) return inv().pow(-T);
+        if (T < 0) return inv().pow(-(T + 1)) * inv();
         cycles_t vc;
         std::vector<bool> u(n);
         for (const auto& cycle : cycles) {
             I L = (I)cycle.size();
             for (I i = 0; i < L; i++) {
                 cycle_t c;
-                for (I j = i; !u[cycle[j]]; j = I((j + T) % L)) {
+                for (I j = i; !u[cycle[j]]; j = I((j + T % L) % L)) {
                     c.push_back(cycle[j]);
                     u[cycle[j]] = true;
                 }
diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 0a61d32..68ad0cf 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -91,8 +91,8 @@ vector3d<T> make_zero_vec(const T& v) { return vector3d<T>(zeroOf(v), zeroOf(v),
 #define PGA_CLOSED_OPERATORS_2(B, T, pl, pr)                                      \
     B& operator += (const B& rhs) { pl += rhs.pl; pr += rhs.pr; return *this; }   \
     B& operator -= (const B& rhs) { pl -= rhs.pl; pr -= rhs.pr; return *this; }   \
-    B& operator *= (const T& rhs) { pl *= rhs; pr *= rhs; return *this; }         \
-    B& operator /= (const T& rhs) { pl /= rhs; pr /= rhs; return *this; }         \
+    B& operator *= (const T& rhs) { T t = rhs; pl *= t; pr *= t; return *this; }  \
+    B& operator /= (const T& rhs) { T t = rhs; pl /= t; pr /= t; return *this; }  \
                                                                                   \
     B  operator +  ()             const { return B(+pl, +pr); }                   \
     B  operator -  ()             const { return B(-pl, -pr); }                   \
@@ -552,7 +552,7 @@ auto operator + (const BL& bl, const BR& br) {
 
 // subtract
 template<typename B, typename T, IF_BLADE_TYPE(B, T)> const B& operator - (const B& b, zero<T>) { return b; }
-template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> const B& operator - (zero<T>, const B& b) { return -b; }
+template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> B operator - (zero<T>, const B& b) { return -b; }
 
 template<typename BL, typename BR, typename T = typename get<BL>::type, IF_NONZERO_BLADE_TYPE(BL, T), IF_NONZERO_BLADE_TYPE(BR, T)>
 auto operator - (const BL& bl, const BR& br) {
diff --git a/include/altruct/structure/math/vector2d.h b/include/altruct/structure/math/vector2d.h
index fa2ccd6..888efe4 100644
--- a/include/altruct/structure/math/vector2d.h
+++ b/include/altruct/structure/math/vector2d.h
@@ -29,8 +29,8 @@ public:
     vector2d& operator *= (const vector2d& v) { x *= v.x; y *= v.y; return *this; } // (element by element)
     vector2d& operator /= (const vector2d& v) { x /= v.x; y /= v.y; return *this; } // (element by element)
 
-    vector2d& operator *= (const T& t) { x *= t; y *= t; return (*this); }
-    vector2d& operator /= (const T& t) { x /= t; y /= t; return (*this); }
+    vector2d& operator *= (const T& t) { T u = t; x *= u; y *= u; return (*this); }
+    vector2d& operator /= (const T& t) { T u = t; x /= u; y /= u; return (*this); }
 
     vector2d  operator +  (const vector2d& v) const { return vector2d(x + v.x, y + v.y); }
     vector2d  operator -  (const vector2d& v) const { return vector2d(x - v.x, y - v.y); }
diff --git a/include/altruct/structure/math/vector3d.h b/include/altruct/structure/math/vector3d.h
index 0b88d2d..ee22a6f 100644
--- a/include/altruct/structure/math/vector3d.h
+++ b/include/altruct/structure/math/vector3d.h
@@ -29,8 +29,8 @@ public:
     vector3d& operator *= (const vector3d& v) { x *= v.x; y *= v.y; z *= v.z; return *this; } // element by element
     vector3d& operator /= (const vector3d& v) { x /= v.x; y /= v.y; z /= v.z; return *this; } // element by element
 
-    vector3d& operator *= (const T& t) { x *= t; y *= t; z *= t; return *this; }
-    vector3d& operator /= (const T& t) { x /= t; y /= t; z /= t; return *this; }
+    vector3d& operator *= (const T& t) { T u = t; x *= u; y *= u; z *= u; return *this; }
+    vector3d& operator /= (const T& t) { T u = t; x /= u; y /= u; z /= u; return *this; }
 
     vector3d  operator +  ()                  const { return vector3d(+x, +y, +z); }
     vector3d  operator -  ()                  const { return vector3d(-x, -y, -z); }
diff --git a/include/altruct/structure/math/vectorNd.h b/include/altruct/structure/math/vectorNd.h
index 2219482..027d729 100644
--- a/include/altruct/structure/math/vectorNd.h
+++ b/include/altruct/structure/math/vectorNd.h
@@ -68,11 +68,11 @@ public:
     vectorNd& operator /= (const vectorNd& rhs) { for (int i = 0; i < N; i++) a[i] /= rhs.a[i]; return *this; }
     vectorNd& operator %= (const vectorNd& rhs) { for (int i = 0; i < N; i++) a[i] %= rhs.a[i]; return *this; }
 
-    vectorNd& operator += (const T& rhs) { for (int i = 0; i < N; i++) a[i] += rhs; return *this; }
-    vectorNd& operator -= (const T& rhs) { for (int i = 0; i < N; i++) a[i] -= rhs; return *this; }
-    vectorNd& operator *= (const T& rhs) { for (int i = 0; i < N; i++) a[i] *= rhs; return *this; }
-    vectorNd& operator /= (const T& rhs) { for (int i = 0; i < N; i++) a[i] /= rhs; return *this; }
-    vectorNd& operator %= (const T& rhs) { for (int i = 0; i < N; i++) a[i] %= rhs; return *this; }
+    vectorNd& operator += (const T& rhs) { T t = rhs; for (int i = 0; i < N; i++) a[i] += t; return *this; }
+    vectorNd& operator -= (const T& rhs) { T t = rhs; for (int i = 0; i < N; i++) a[i] -= t; return *this; }
+    vectorNd& operator *= (const T& rhs) { T t = rhs; for (int i = 0; i < N; i++) a[i] *= t; return *this; }
+    vectorNd& operator /= (const T& rhs) { T t = rhs; for (int i = 0; i < N; i++) a[i] /= t; return *this; }
+    vectorNd& operator %= (const T& rhs) { T t = rhs; for (int i = 0; i < N; i++) a[i] %= t; return *this; }
 
     T abs2() const { T r = 0; for (int i = 0; i < N; i++) r += a[i] * a[i]; return r; }
 };
-- 
2.43.0


From 66d2d571722e5f74bf18703e60aaa430009922ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:43 +0000
Subject: [PATCH 22/43] fix: clearing a search tree frees every node, treap
 priorities keep the heap order

---
 include/altruct/structure/container/binary_search_tree.h | 2 +-
 include/altruct/structure/container/treap.h              | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/container/binary_search_tree.h b/include/altruct/structure/container/binary_search_tree.h
index f714a76..e5af415 100644
--- a/include/altruct/structure/container/binary_search_tree.h
+++ b/include/altruct/structure/container/binary_search_tree.h
@@ -335,7 +335,7 @@ public: // constructor & size
     }
 
     void clear() {
-        _free(root_ptr());
+        _free_all(root_ptr());
         nil->left = nil;
         nil->right = nil;
     }
diff --git a/include/altruct/structure/container/treap.h b/include/altruct/structure/container/treap.h
index 954ac88..e48704d 100644
--- a/include/altruct/structure/container/treap.h
+++ b/include/altruct/structure/container/treap.h
@@ -259,14 +259,18 @@ public: // query & update
     }
 
     iterator erase(const_iterator it, int cnt = std::numeric_limits<int>::max()) {
+        // a partially erased node stays in its place
+        if (DUP == bst_duplicate_handling::COUNT && cnt < it.count()) return tree.erase(it.it, cnt);
         return tree.erase(retrace_down(it.it), cnt);
     }
 
 protected:
     typename bst_t::iterator retrace_up(typename bst_t::iterator it) {
         if (it == tree.end()) return it;
+        // a newly inserted node is always a leaf; existing inner nodes keep their priority
+        if (it.left() != tree.end() || it.right() != tree.end()) return it;
         it.balance() = rnd();
-        while (it.balance() < it.parent().balance()) {
+        while (it.parent() != tree.end() && it.balance() < it.parent().balance()) {
             if (it.parent().left() == it) {
                 tree.rotate_right(it.parent());
             } else {
-- 
2.43.0


From d9a9d56c740a256b7c09059d404877465bcb67d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:50 +0000
Subject: [PATCH 23/43] fix: lazy treap aggregates through rotations, erasures
 and range updates, link-cut tree copies

---
 .../altruct/structure/container/lazy_treap.h  | 21 ++++++++++++++-----
 .../structure/container/link_cut_tree.h       | 20 ++++++++++++++++++
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 2769297..4ab096f 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -154,6 +154,8 @@ public:
     void swap(lazy_treap& rhs) {
         tree.swap(rhs.tree);
         std::swap(rnd, rhs.rnd);
+        std::swap(f_up, rhs.f_up);
+        std::swap(f_down, rhs.f_down);
     }
 
     void clear() {
@@ -273,6 +275,8 @@ public: // query & update
     }
 
     iterator insert_before(const_iterator it, const value_type& val, int cnt = 1) {
+        propagate_down_to(it);
+        if (it.left() != end()) propagate_down_to(--const_iterator(it)); // the actual parent
         return propagate_up(retrace_up(tree.insert_before(it.it, val, cnt)));
     }
 
@@ -287,12 +291,14 @@ public: // query & update
     }
 
     iterator erase(const_iterator it, int cnt = std::numeric_limits<int>::max()) {
+        propagate_down_to(it);
         return propagate_up(tree.erase(retrace_down(it).it, cnt));
     }
 
     T get(const_iterator _b, const_iterator _e) {
         auto b = remove_const(_b), e = remove_const(_e);
         if (b == e--) return id;
+        propagate_down_to(b), propagate_down_to(e);
         auto a = remove_const(lowest_common_ancestor(b, e));
         T rb = id;
         for (bool was_left = true; b != a; b = b.parent()) {
@@ -301,7 +307,7 @@ public: // query & update
         }
         T re = id;
         for (bool was_right = true; e != a; e = e.parent()) {
-            if (was_right) dummy = re, re = *e, f_up(re, _val_or_id(e.left(), dummy)); // aggregate e and its left child
+            if (was_right) dummy = re, re = *e, f_up(re, _val_or_id(e.left()), dummy); // aggregate e and its left child
             was_right = (e == e.parent().right());
         }
         T r = *a; f_up(r, rb, re); // aggregate a
@@ -312,6 +318,8 @@ public: // query & update
     void update(const_iterator _b, const_iterator _e, const F_UPDATE& f) {
         auto b = remove_const(_b), e = remove_const(_e);
         if (b == e--) return;
+        propagate_down_to(b), propagate_down_to(e);
+        auto first = b, last = e;
         auto a = remove_const(lowest_common_ancestor(b, e));
         for (bool was_left = true; b != a; b = b.parent()) {
             if (was_left) f(*b), f_down(*b, dummy, _val_or_dummy(b.right())); // update b and its right child
@@ -322,6 +330,7 @@ public: // query & update
             was_right = (e == e.parent().right());
         }
         f(*a), f_down(*a, dummy, dummy); // update a
+        propagate_up(first), propagate_up(last);
     }
 
     void propagate_down_to(const_iterator it) {
@@ -361,12 +370,14 @@ protected: // balancing
         auto it = remove_const(_it).it;
         if (it == tree.end()) return it;
         it.balance() = rnd();
-        while (it.balance() < it.parent().balance()) {
-            if (it.parent().left() == it) {
-                tree.rotate_right(it.parent());
+        while (it.parent() != tree.end() && it.balance() < it.parent().balance()) {
+            auto par = it.parent();
+            if (par.left() == it) {
+                tree.rotate_right(par);
             } else {
-                tree.rotate_left(it.parent());
+                tree.rotate_left(par);
             }
+            f_up(*par, _val_or_id(par.left()), _val_or_id(par.right()));
         }
         return it;
     }
diff --git a/include/altruct/structure/container/link_cut_tree.h b/include/altruct/structure/container/link_cut_tree.h
index 941024e..1d49e83 100644
--- a/include/altruct/structure/container/link_cut_tree.h
+++ b/include/altruct/structure/container/link_cut_tree.h
@@ -88,6 +88,26 @@ public: // constructor / destructor
         for (auto it = begin; it != end; ++it) make_tree(*it);
     }
 
+    link_cut_tree(const link_cut_tree& rhs)
+        : f_up(rhs.f_up), alloc(rhs.alloc) {
+        _init(rhs.nil->val);
+        for (size_t i = 1; i < rhs.nodes.size(); i++) make_tree(rhs.nodes[i]->val);
+        for (size_t i = 1; i < rhs.nodes.size(); i++) {
+            nodes[i]->parent = nodes[rhs.nodes[i]->parent->index];
+            nodes[i]->left = nodes[rhs.nodes[i]->left->index];
+            nodes[i]->right = nodes[rhs.nodes[i]->right->index];
+            nodes[i]->size = rhs.nodes[i]->size;
+        }
+    }
+
+    link_cut_tree& operator=(link_cut_tree rhs) {
+        std::swap(f_up, rhs.f_up);
+        std::swap(alloc, rhs.alloc);
+        std::swap(nil, rhs.nil);
+        std::swap(nodes, rhs.nodes);
+        return *this;
+    }
+
 public: // index based methods
     // Returns the number of nodes.
     // Node indices are 1-based, 0 corresponds to nil.
-- 
2.43.0


From 329a86f62885521ca30aeeec5e3c96316f7e2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:43 +0000
Subject: [PATCH 24/43] fix: bit vector shifts, assignment through bit proxies,
 swap with an empty range

---
 include/altruct/structure/container/bit_vector.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/container/bit_vector.h b/include/altruct/structure/container/bit_vector.h
index e87fc01..02178ba 100644
--- a/include/altruct/structure/container/bit_vector.h
+++ b/include/altruct/structure/container/bit_vector.h
@@ -31,7 +31,9 @@ public:
         size_t pos;
         bit_vector* owner;
         bit_proxy(bit_vector* owner, size_t pos) : pos(pos), owner(owner) {}
-        operator int() { return owner->bit_at(pos); }
+        bit_proxy(const bit_proxy&) = default;
+        operator int() const { return owner->bit_at(pos); }
+        bit_proxy& operator = (const bit_proxy& that) { return *this = int(that); }
         bit_proxy& operator = (int val) { owner->set(pos, val & 1); return *this; }
         bit_proxy& operator ^= (int val) { if (val == 1) owner->set(pos, -1); return *this; }
         bit_proxy& operator |= (int val) { if (val == 1) owner->set(pos, 1); return *this; }
@@ -88,6 +90,7 @@ public:
     bit_vector& operator >>= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
         size_t q = cnt / L; int r = cnt % L;
+        if (q > wsz) q = wsz;
         for (size_t i = 0; i < wsz - q; i++) {
             words[i] = word_at(i + q, r);
         }
@@ -100,13 +103,15 @@ public:
     bit_vector& operator <<= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
         size_t q = cnt / L; int r = cnt % L;
-        for (size_t i = q + 1; i < wsz; i++) {
+        if (q > wsz) q = wsz;
+        for (size_t i = wsz; i-- > q + 1;) {
             words[i] = (r == 0) ? words[i - q] : ((words[i - q - 1] >> (L - r)) | (words[i - q] << r));
         }
         words[q] = (words[0] << r); // words[-1] is considered to be 0
         for (size_t i = 0; i < q; i++) {
             words[i] = W0;
         }
+        resize(sz); // clears the bits that got shifted out
         return *this;
     }
 
@@ -203,7 +208,7 @@ public:
     // swaps the two ranges
     // result is undefined if the two ranges overlap
     bit_vector& swap(size_t begin1, size_t end1, size_t begin2, size_t end2) {
-        if (begin1 > begin2) return swap(begin2, end2, begin1, end1);
+        if (begin1 > begin2 || (begin1 == begin2 && end1 > end2)) return swap(begin2, end2, begin1, end1);
         reverse(begin1, end1); reverse(end1, begin2); reverse(begin2, end2); reverse(begin1, end2);
         return *this;
     }
-- 
2.43.0


From 1a0bf42956ba44410f9d1e99898559a8ec26ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:15 +0000
Subject: [PATCH 25/43] fix: copied range minimum structures own their tables

---
 .../structure/container/range_minimum_query.h  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/experimental/include/altruct/structure/container/range_minimum_query.h b/experimental/include/altruct/structure/container/range_minimum_query.h
index 15abb68..ffb4db8 100644
--- a/experimental/include/altruct/structure/container/range_minimum_query.h
+++ b/experimental/include/altruct/structure/container/range_minimum_query.h
@@ -69,19 +69,19 @@ public:
     index_t get_index(index_t begin, index_t end) const {
         index_t l = begin, r = end - 1;
         index_t x = l / BLOCK_SIZE, y = r / BLOCK_SIZE, z = y - x;
-        if (z == 0) return x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][r % BLOCK_SIZE];
+        if (z == 0) return x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][r % BLOCK_SIZE];
         if (z == 1) return min_index(
-            x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
-            y * BLOCK_SIZE + _block_tree[y]->idx[0][r % BLOCK_SIZE]);
+            x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
+            y * BLOCK_SIZE + _trees[_block_tree[y]].idx[0][r % BLOCK_SIZE]);
         int k = log2_32(z - 2);
         return min_index(
             min_index(
-                x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
+                x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
                 _sparse_table[x + 1 + blocks * k]
             ),
             min_index(
                 _sparse_table[y + blocks * k - (1 << k)],
-                y * BLOCK_SIZE + _block_tree[y]->idx[0][r % BLOCK_SIZE]
+                y * BLOCK_SIZE + _trees[_block_tree[y]].idx[0][r % BLOCK_SIZE]
             ));
     }
 
@@ -94,7 +94,7 @@ private:
     index_t blocks;
     std::vector<value_t> _array;
     std::vector<tree_t> _trees;
-    std::vector<tree_t*> _block_tree;
+    std::vector<int> _block_tree; // indices into `_trees`
     std::vector<index_t> _sparse_table;
     int _ballot[BLOCK_SIZE + 1][BLOCK_SIZE + 1];
 
@@ -116,9 +116,9 @@ private:
                 }
                 rp[q + j - BLOCK_SIZE + 1] = p[j];
             }
-            _block_tree[i] = &_trees[N];
+            _block_tree[i] = N;
             // populate tree
-            tree_t* table = _block_tree[i];
+            tree_t* table = &_trees[N];
             if (table->idx[0][0] != -1) continue;
             for (int left = 0; left < BLOCK_SIZE; left++) {
                 int min_idx = left;
@@ -138,7 +138,7 @@ private:
         if (height == 0) return;
         index_t *b = _sparse_table.data();
         for (index_t i = 0; i < blocks; i++) {
-            b[i] = i * BLOCK_SIZE + _block_tree[i]->idx[0][BLOCK_SIZE - 1];
+            b[i] = i * BLOCK_SIZE + _trees[_block_tree[i]].idx[0][BLOCK_SIZE - 1];
         }
         for (index_t t = 1; t * 2 < blocks; t *= 2) {
             std::copy(b, b + blocks, b + blocks);
-- 
2.43.0


From 324b75b8b43115e4d00fe9a8d16aeed1a7f1957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:03 +0000
Subject: [PATCH 26/43] fix: maps report missing low keys and forget erased
 values, pool allocator copies, heap comparator defaults

---
 .../altruct/structure/container/binary_heap.h | 12 ++++---
 .../container/bounded_contiguous_allocator.h  | 32 +++++++++++++++++++
 .../altruct/structure/container/lohi_map.h    | 13 +++++---
 .../altruct/structure/container/sqrt_map.h    |  9 ++++--
 4 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/include/altruct/structure/container/binary_heap.h b/include/altruct/structure/container/binary_heap.h
index 5576057..b9a379b 100644
--- a/include/altruct/structure/container/binary_heap.h
+++ b/include/altruct/structure/container/binary_heap.h
@@ -2,6 +2,8 @@
 
 #include <vector>
 #include <iterator>
+#include <algorithm>
+#include <functional>
 
 namespace altruct {
 namespace container {
@@ -25,13 +27,13 @@ public:
     std::vector<T> v;
     CMP cmp;
 
-    binary_heap(const CMP& cmp = std::less<T>()) : cmp(cmp)  {}
-    binary_heap(size_t sz, const CMP& cmp = std::less<T>()) : v(sz), cmp(cmp) {}
-    binary_heap(std::vector<T>& v, const CMP& cmp = std::less<T>()) : v(v), cmp(cmp) {
+    binary_heap(const CMP& cmp = CMP()) : cmp(cmp)  {}
+    binary_heap(size_t sz, const CMP& cmp = CMP()) : v(sz), cmp(cmp) {}
+    binary_heap(std::vector<T>& v, const CMP& cmp = CMP()) : v(v), cmp(cmp) {
         rebuild();
     }
     template<typename It>
-    binary_heap(It begin, It end, const CMP& cmp = std::less<T>()) : v(begin, end), cmp(cmp) {
+    binary_heap(It begin, It end, const CMP& cmp = CMP()) : v(begin, end), cmp(cmp) {
         rebuild();
     }
 
@@ -67,7 +69,7 @@ public:
             std::swap(v[0], v[index - 1]);
             heapify_down(0, index - 1);
         }
-        reverse(v.begin(), v.end());
+        std::reverse(v.begin(), v.end());
     }
 
 private:
diff --git a/include/altruct/structure/container/bounded_contiguous_allocator.h b/include/altruct/structure/container/bounded_contiguous_allocator.h
index 89206cf..e257893 100644
--- a/include/altruct/structure/container/bounded_contiguous_allocator.h
+++ b/include/altruct/structure/container/bounded_contiguous_allocator.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstdlib>
 #include <memory>
+#include <utility>
 
 #if _MSC_VER < 1900
 #define NOEXCEPT
@@ -35,6 +37,35 @@ struct bounded_contiguous_allocator {
         clear();
     }
 
+    // a copy doesn't share the elements, it only has the same capacity
+    bounded_contiguous_allocator(const bounded_contiguous_allocator& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+    }
+
+    bounded_contiguous_allocator(bounded_contiguous_allocator&& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+        swap(allocator);
+    }
+
+    bounded_contiguous_allocator& operator= (const bounded_contiguous_allocator& allocator) NOEXCEPT{
+        if (this == &allocator) return *this;
+        clear();
+        available_ = capacity_ = allocator.capacity();
+        return *this;
+    }
+
+    bounded_contiguous_allocator& operator= (bounded_contiguous_allocator&& allocator) NOEXCEPT{
+        swap(allocator);
+        return *this;
+    }
+
+    void swap(bounded_contiguous_allocator& allocator) NOEXCEPT{
+        std::swap(capacity_, allocator.capacity_);
+        std::swap(data_, allocator.data_);
+        std::swap(available_, allocator.available_);
+        std::swap(ptrs_, allocator.ptrs_);
+    }
+
     template <class U>
     bounded_contiguous_allocator(const bounded_contiguous_allocator<U>& allocator) NOEXCEPT
         : bounded_contiguous_allocator(allocator.capacity()) {
@@ -50,6 +81,7 @@ struct bounded_contiguous_allocator {
     void clear() {
         std::free(ptrs_); ptrs_ = nullptr;
         std::free(data_); data_ = nullptr;
+        available_ = capacity_;
     }
 
     bool ensure() {
diff --git a/include/altruct/structure/container/lohi_map.h b/include/altruct/structure/container/lohi_map.h
index c989713..4805adb 100644
--- a/include/altruct/structure/container/lohi_map.h
+++ b/include/altruct/structure/container/lohi_map.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <vector>
+#include <stdexcept>
 #include <unordered_map>
 
 namespace altruct {
@@ -23,7 +24,11 @@ class lohi_map {
     std::vector<T> tbl_lo;
     std::unordered_map<I, T> tbl_hi;
 
-    int get_and_set(int& cnt, int new_cnt) { int prev_cnt = cnt; cnt = new_cnt; return prev_cnt; }
+    int erase_lo(const I& k) { int prev_cnt = cnt_lo[k]; if (prev_cnt) cnt_lo[k] = 0, tbl_lo[k] = T(); return prev_cnt; }
+
+    void check_lo(const I& k) const {
+        if (!cnt_lo.at(k)) throw std::out_of_range("invalid lohi_map<I, T> key");
+    }
 
 public:
     typedef I key_type;
@@ -40,11 +45,11 @@ public:
     }
 
     const T& at(const I& k) const {
-        return (k <= max_lo_key) ? tbl_lo.at(k) : tbl_hi.at(k);
+        return (k <= max_lo_key) ? (check_lo(k), tbl_lo[k]) : tbl_hi.at(k);
     }
 
     T& at(const I& k) {
-        return (k <= max_lo_key) ? tbl_lo.at(k) : tbl_hi.at(k);
+        return (k <= max_lo_key) ? (check_lo(k), tbl_lo[k]) : tbl_hi.at(k);
     }
 
     T& operator [] (const I& k) {
@@ -65,7 +70,7 @@ public:
     }
 
     int erase(const I& k) {
-        return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : (int)tbl_hi.erase(k);
+        return (k <= max_lo_key) ? erase_lo(k) : (int)tbl_hi.erase(k);
     }
 };
 
diff --git a/include/altruct/structure/container/sqrt_map.h b/include/altruct/structure/container/sqrt_map.h
index dc85e06..549e483 100644
--- a/include/altruct/structure/container/sqrt_map.h
+++ b/include/altruct/structure/container/sqrt_map.h
@@ -27,7 +27,8 @@ class sqrt_map {
     std::vector<T> tbl_hi;
 
 
-    int get_and_set(char& cnt, char new_cnt) { int prev_cnt = cnt; cnt = new_cnt; return prev_cnt; }
+    // resets the value too, so that `operator []` creates default after that
+    static int erase(char& cnt, T& val) { int prev_cnt = cnt; if (prev_cnt) cnt = 0, val = T(); return prev_cnt; }
 
     void throw_oor() const {
         throw std::out_of_range("invalid sqrt_map<I, T> key");
@@ -60,7 +61,7 @@ public:
     void reset_max(I max_key = 0) {
         this->max_key = max_key;
         cnt_hi.assign(max_key / max_lo_key + 1, 0);
-        tbl_hi.resize(max_key / max_lo_key + 1);
+        tbl_hi.assign(max_key / max_lo_key + 1, T());
     }
 
     int count(const I& k) const {
@@ -160,7 +161,9 @@ public:
     }
 
     int erase(const I& k) {
-        return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : get_and_set(cnt_hi[max_key / k], 0);
+        if (k <= max_lo_key) return erase(cnt_lo[k], tbl_lo[k]);
+        I i = max_key / k;
+        return erase(cnt_hi[i], tbl_hi[i]);
     }
 };
 
-- 
2.43.0


From 49dd3c4fdefe9ce28d706e244097afa30314b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 27/43] fix: Prim's algorithm does not reattach nodes that are
 already in the tree

---
 .../include/altruct/algorithm/graph/prim_spanning_tree.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
index 0b2853b..70f5608 100644
--- a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
+++ b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
@@ -25,13 +25,15 @@ std::vector<E> prim_spanning_tree(const graph<E>& g, int root, W inf) {
     std::vector<E> res(g.size(), { -1, inf });
     res[root] = { root, 0 };
     std::set<std::pair<W, int>> q{ { 0, root } };
+    std::vector<bool> in_tree(g.size());
     while (!q.empty()) {
         int u = q.begin()->second;
         q.erase(q.begin());
+        in_tree[u] = true;
         for (const auto& e : g[u]) {
             int v = e.v;
             auto d_new = e.w;
-            if (d_new < res[v].w && res[u].v != v) {
+            if (!in_tree[v] && d_new < res[v].w) {
                 q.erase({ res[v].w, v });
                 res[v] = { u, d_new };
                 q.insert({ res[v].w, v });
-- 
2.43.0


From c6527dc948c0ee2e98bd549547025494b1799ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 28/43] fix: matchings without repeated edges, assignment
 solver compiles on its own, heavy-light decomposition keeps edge data

---
 .../include/altruct/algorithm/graph/bipartite_matching.h     | 5 ++++-
 .../altruct/algorithm/graph/heavy_light_decomposition.h      | 2 +-
 experimental/include/altruct/algorithm/graph/hungarian.h     | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/experimental/include/altruct/algorithm/graph/bipartite_matching.h b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
index c0c51da..f958c6f 100644
--- a/experimental/include/altruct/algorithm/graph/bipartite_matching.h
+++ b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
@@ -29,7 +29,10 @@ std::vector<E> bipartite_matching(int nodes, const std::vector<E>& edges) {
     d.calc_max_flow(src, sink);
     std::vector<E> selected;
     for (const auto& e : edges) {
-        if (d.flow[e.u][e.v]) selected.push_back(e);
+        if (d.flow[e.u][e.v]) {
+            d.flow[e.u][e.v] = 0; // select only one of the parallel edges
+            selected.push_back(e);
+        }
     }
     return selected;
 }
diff --git a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
index 6ea2c31..089127c 100644
--- a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
+++ b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
@@ -58,7 +58,7 @@ public:
                     heavy_i = i, heavy_size = sizes[v];
                 }
             }
-            std::swap(g[u][0].v, g[u][heavy_i].v);
+            std::swap(g[u][0], g[u][heavy_i]);
         }
         int pos = 0, par = -2;
         iterative_dfs(g, [&](int root, int parent, int node, int depth) {
diff --git a/experimental/include/altruct/algorithm/graph/hungarian.h b/experimental/include/altruct/algorithm/graph/hungarian.h
index 54e2136..d9fd7b0 100644
--- a/experimental/include/altruct/algorithm/graph/hungarian.h
+++ b/experimental/include/altruct/algorithm/graph/hungarian.h
@@ -114,7 +114,7 @@ private:
         for (x = 0; x < n; x++) {
             lx[x] = cost(x, 0);
             for (y = 0; y < n; y++) {
-                lx[x] = max(lx[x], cost(x, y));
+                lx[x] = std::max(lx[x], cost(x, y));
             }
         }
 
@@ -158,7 +158,7 @@ private:
                 for (y = 0; y < n; y++)                              // initial delta (instead of INF)
                     if (!T[y]) { delta = slack[y]; break; }
                 for (y = 0; y < n; y++)                              // calculate delta using slack
-                    if (!T[y]) delta = min(delta, slack[y]);
+                    if (!T[y]) delta = std::min(delta, slack[y]);
                 for (y = 0; y < n; y++)                              // update slack array
                     if (!T[y]) slack[y] -= delta;
                 for (x = 0; x < n; x++)                              // update X labels
-- 
2.43.0


From 9582234d252414f96217d011faa400024abf304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:38 +0000
Subject: [PATCH 29/43] fix: string structures: copies of a prefix tree, bounds
 in suffix array, wide moduli and signed letters in polynomial hashes

---
 .../structure/container/palindrome_tree.h     |  2 +-
 .../altruct/structure/container/prefix_tree.h | 25 ++++++++++++++++++
 .../structure/container/suffix_array.h        |  4 +--
 .../altruct/algorithm/hash/polynomial_hash.h  | 26 ++++++++++---------
 4 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/experimental/include/altruct/structure/container/palindrome_tree.h b/experimental/include/altruct/structure/container/palindrome_tree.h
index 8dea23a..42fbf0d 100644
--- a/experimental/include/altruct/structure/container/palindrome_tree.h
+++ b/experimental/include/altruct/structure/container/palindrome_tree.h
@@ -63,7 +63,7 @@ public:
 
     template<typename It, typename F>
     index_t add_all(It begin, It end, F ordinal) {
-        auto len = distance(begin, end);
+        auto len = std::distance(begin, end);
         collections::reserve_more(_string, len);
         collections::reserve_more(_nodes, len);
         index_t c = 0;
diff --git a/experimental/include/altruct/structure/container/prefix_tree.h b/experimental/include/altruct/structure/container/prefix_tree.h
index bd748a3..66e41a9 100644
--- a/experimental/include/altruct/structure/container/prefix_tree.h
+++ b/experimental/include/altruct/structure/container/prefix_tree.h
@@ -52,6 +52,18 @@ public:
         _init();
     }
 
+    prefix_tree(const prefix_tree& rhs) : nodes(0), root(nullptr), words(rhs.words.size()) {
+        root = _copy(rhs.root, nullptr);
+    }
+
+    prefix_tree& operator = (const prefix_tree& rhs) {
+        prefix_tree tmp(rhs);
+        std::swap(nodes, tmp.nodes);
+        std::swap(root, tmp.root);
+        std::swap(words, tmp.words);
+        return *this;
+    }
+
     ~prefix_tree() {
         words.clear();
         _free_all(root);
@@ -225,6 +237,19 @@ private:
         alloc.deallocate(t, 1);
     }
 
+    node_t* _copy(const node_t* src, node_t* parent) {
+        node_t* t = _buy();
+        t->word_id = src->word_id;
+        t->num_ch = src->num_ch;
+        t->ord = src->ord;
+        t->parent = parent;
+        if (!parent || t->word_id) words[t->word_id] = t;
+        for (int o = 0; o < ALPHABET_SIZE; o++) {
+            if (src->next[o]) t->next[o] = _copy(src->next[o], t);
+        }
+        return t;
+    }
+
     void _free_all(node_t* t) {
         if (t == nullptr) return;
         for (int o = 0; o < ALPHABET_SIZE; o++) {
diff --git a/experimental/include/altruct/structure/container/suffix_array.h b/experimental/include/altruct/structure/container/suffix_array.h
index da69bfc..75885f7 100644
--- a/experimental/include/altruct/structure/container/suffix_array.h
+++ b/experimental/include/altruct/structure/container/suffix_array.h
@@ -45,7 +45,7 @@ private:
 
     template<typename It>
     void build_suffix_array(It begin, It end) {
-        alpha_t max_elem = *std::max_element(begin, end);
+        alpha_t max_elem = (begin != end) ? *std::max_element(begin, end) : alpha_t(0);
         build_suffix_array(begin, end, (index_t)max_elem + 1);
     }
 
@@ -108,7 +108,7 @@ private:
                 diff = true;
             } else {
                 for (index_t j = pos, k = prev_pos;; j++, k++) {
-                    if (str[j] != str[k] || types[j] != types[k]) {
+                    if (j == n || k == n || str[j] != str[k] || types[j] != types[k]) {
                         diff = true;
                         break;
                     } else if (j != pos && ((types[j] && !types[j - 1]) || (types[k] && !types[k - 1]))) {
diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index e679f7a..c5974fb 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -48,14 +48,14 @@ public:
     polynomial_hash1 operator >> (int cnt) const { return clone() >>= cnt; } // divide by B^cnt
     polynomial_hash1 operator << (int cnt) const { return clone() <<= cnt; } // multiply by B^cnt
     polynomial_hash1& operator *= (const polynomial_hash1& rhs) { h = (h * IT(rhs.h)) % M; return *this; }
-    polynomial_hash1& operator += (const polynomial_hash1& rhs) { h = (h + rhs.h) % M; return *this; }
-    polynomial_hash1& operator -= (const polynomial_hash1& rhs) { h = (h + M - rhs.h) % M; return *this; }
+    polynomial_hash1& operator += (const polynomial_hash1& rhs) { h = (IT(h) + rhs.h) % M; return *this; }
+    polynomial_hash1& operator -= (const polynomial_hash1& rhs) { h = (IT(h) + M - rhs.h) % M; return *this; }
     polynomial_hash1& operator >>= (int cnt) { ensure(cnt + 1); h = (h * IT(WI[cnt])) % M; return *this; }
     polynomial_hash1& operator <<= (int cnt) { ensure(cnt + 1); h = (h * IT(W[cnt])) % M; return *this; }
     // H = H + (RHS << pos)
-    polynomial_hash1& add(const polynomial_hash1& rhs, size_t pos) { ensure(pos + 1); h = (h + rhs.h * IT(W[pos])) % M; return *this; }
+    polynomial_hash1& add(const polynomial_hash1& rhs, size_t pos) { ensure(pos + 1); h = (h + rhs.h * IT(W[pos])) % M; if (h < 0) h += M; return *this; }
     // H = (H - RHS) >> pos
-    polynomial_hash1& sub_shr(const polynomial_hash1& rhs, size_t pos) { ensure(pos + 1); h = ((h + M - rhs.h) * IT(WI[pos])) % M; return *this; }
+    polynomial_hash1& sub_shr(const polynomial_hash1& rhs, size_t pos) { ensure(pos + 1); h = ((IT(h) + M - rhs.h) % M * IT(WI[pos])) % M; return *this; }
 
     int32_t hash() const { return h; }
 };
@@ -78,8 +78,9 @@ public:
     static std::vector<I> W[K];
     static std::vector<I> WI[K];
 
-    static I mul(I a, I b, I m) { return (I)((a * (IT)b) % m); }
-    static I mul(I s, I a, I b, I m) { return (I)((s + a * (IT)b) % m); }
+    static I norm(IT a, I m) { a %= m; return (I)(a < 0 ? a + m : a); }
+    static I mul(I a, I b, I m) { return norm(a * (IT)b, m); }
+    static I mul(I s, I a, I b, I m) { return norm(s + a * (IT)b, m); }
 
     static void _ensure(std::vector<I>& w, size_t sz, I b, I m) {
         size_t i0 = w.size();
@@ -154,7 +155,7 @@ public:
     polynomial_hash operator + (I rhs) const { return clone() += rhs; }
     polynomial_hash& operator += (I rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + rhs) % M[k];
+            h[k] = norm(h[k] + (IT)rhs, M[k]);
         }
         return *this;
     }
@@ -162,7 +163,7 @@ public:
     polynomial_hash operator + (const polynomial_hash& rhs) const { return clone() += rhs; }
     polynomial_hash& operator += (const polynomial_hash& rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + rhs.h[k]) % M[k];
+            h[k] = norm(h[k] + (IT)rhs.h[k], M[k]);
         }
         return *this;
     }
@@ -170,7 +171,7 @@ public:
     polynomial_hash operator - (I rhs) const { return clone() -= rhs; }
     polynomial_hash& operator -= (I rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + M[k] - rhs) % M[k];
+            h[k] = norm(h[k] - (IT)rhs, M[k]);
         }
         return *this;
     }
@@ -178,7 +179,7 @@ public:
     polynomial_hash operator - (const polynomial_hash& rhs) const { return clone() -= rhs; }
     polynomial_hash& operator -= (const polynomial_hash& rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + M[k] - rhs.h[k]) % M[k];
+            h[k] = norm(h[k] - (IT)rhs.h[k], M[k]);
         }
         return *this;
     }
@@ -226,7 +227,7 @@ public:
     polynomial_hash& sub_shr(I rhs, size_t pos) {
         ensure(pos + 1);
         for (int k = 0; k < K; k++) {
-            h[k] = mul(h[k] + M[k] - rhs, WI[k][pos], M[k]);
+            h[k] = mul(norm(h[k] - (IT)rhs, M[k]), WI[k][pos], M[k]);
         }
         return *this;
     }
@@ -235,7 +236,7 @@ public:
     polynomial_hash& sub_shr(const polynomial_hash& rhs, size_t pos) {
         ensure(pos + 1);
         for (int k = 0; k < K; k++) {
-            h[k] = mul(h[k] + M[k] - rhs.h[k], WI[k][pos], M[k]);
+            h[k] = mul(norm(h[k] - (IT)rhs.h[k], M[k]), WI[k][pos], M[k]);
         }
         return *this;
     }
@@ -278,6 +279,7 @@ public:
     void assign(It begin, It end) {
         HASH h;
         size_t pos = 0;
+        vh.clear();
         h.ensure(std::distance(begin, end));
         for (It it = begin; it != end; ++it) {
             h.add(*it, pos++);
-- 
2.43.0


From 466eab4b14ec46fa911fca1aac9fbe3096043b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:22 +0000
Subject: [PATCH 30/43] fix: readers deliver bytes above 127, blocks beyond the
 buffer and extreme numbers; writers emit extreme integers, carries and
 embedded zeros

---
 include/altruct/io/fast_io.h          | 45 ++++++++++++++++++++-------
 include/altruct/io/reader.h           | 36 ++++++++++++++-------
 include/altruct/io/stream_tokenizer.h |  4 ++-
 include/altruct/io/writer.h           | 22 +++++++++----
 4 files changed, 78 insertions(+), 29 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index dfc0eef..303bc7f 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -38,6 +38,7 @@ public:
         buff = new char[capacity+1];
         buff[capacity] = 0;
         ptr = end = buff;
+        *end = 0;
         cnt = 0;
     }
 
@@ -60,6 +61,7 @@ public:
             available += len;
             end += len;
         }
+        *end = 0;
         return available;
     }
 
@@ -115,7 +117,7 @@ public:
             refill();
             if (ptr >= end) return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     // Reads a string of characters until a whitespace.
@@ -170,8 +172,15 @@ public:
     I read_integral_number() {
         skip_whitespaces();
         int s = read_sign();
-        I d = read_digits<I>();
-        return (s < 0) ? -d : d;
+        I d = 0;
+        int c = read_char();
+        while ('0' <= c && c <= '9') {
+            // accumulate with the sign; the most negative number has no positive counterpart
+            d = (s < 0) ? d * 10 - (c - '0') : d * 10 + (c - '0');
+            c = read_char();
+        }
+        if (c != -1) unread_char();
+        return d;
     }
 
     // Reads a single signed decimal floating-point number of type F.
@@ -215,7 +224,8 @@ public:
 
     // Reads a single float.
     float read_float() {
-        return read_floating_point_number<float>();
+        // use double internally
+        return (float)read_floating_point_number<double>();
     }
 
     // Reads a single double.
@@ -321,19 +331,23 @@ public:
     }
 
     fast_write& write_string(const std::string& s) {
-        return write_string(s.c_str());
+        for (char c : s) {
+            write_char(c);
+        }
+        return *this;
     }
 
     template<typename I>
     fast_write& write_integral_number(I d, int len = 1) {
         int i;
-        static char tc[50];
+        char tc[50];
         if (d < 0) {
-            d = -d;
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            // the most negative number has no positive counterpart, so negate the digits instead
+            int r = (int)(d % 10);
+            tc[i] = ((r < 0) ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
@@ -355,13 +369,20 @@ public:
             e = std::max(g, 0) + 1;
         }
         f += pow(F(10), -precision) / 2; // round
+        if (f >= pow(F(10), e)) { // rounded up to one more digit
+            if (scientific) {
+                f /= 10, g++;
+            } else {
+                e++;
+            }
+        }
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
             }
             e--;
             F w = pow(F(10), e);
-            int d = (int)(f / w);
+            int d = (int)std::min(std::max(floor(f / w), F(0)), F(9)); // exclude rounding errors
             f -= w * d;
             write_char(d + '0');
         };
@@ -375,7 +396,9 @@ public:
 
     template<typename F>
     int exponent(F f) {
-        return (f == 0) ? 0 : (int)floor(log10(f));
+        if (f == 0) return 0;
+        int g = (int)floor(log10(f));
+        return (pow(F(10), g) > f) ? g - 1 : g; // logarithm may get rounded up
     }
 
     fast_write& write_int(int d) {
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 190d3e5..f603d4d 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -108,7 +108,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return in[pos++];
+        return (unsigned char)in[pos++];
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -149,6 +149,7 @@ public:
         buff = new char[capacity + 1];
         buff[capacity] = 0;
         ptr = end = buff;
+        *end = 0;
     }
 
     ~buffered_reader() {
@@ -232,16 +233,21 @@ public:
             read_failed = true;
             return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     size_t read(char* buffer, size_t count) override {
-        size_t available = reserve(count);
-        if (available < count) read_failed = true;
-        count = std::min(count, available);
-        std::copy(ptr, ptr + count, buffer);
-        ptr += count;
-        return count;
+        size_t total = 0;
+        while (total < count) {
+            size_t available = reserve(std::min(count - total, capacity));
+            if (available == 0) break;
+            size_t len = std::min(count - total, available);
+            std::copy(ptr, ptr + len, buffer + total);
+            ptr += len;
+            total += len;
+        }
+        if (total < count) read_failed = true;
+        return total;
     }
 };
 
@@ -327,8 +333,15 @@ public:
     I read_integral_number() {
         skip_whitespaces();
         int s = read_sign();
-        I d = read_digits<I>();
-        return (s < 0) ? -d : d;
+        I d = 0;
+        int c = read_char();
+        while ('0' <= c && c <= '9') {
+            // accumulate with the sign; the most negative number has no positive counterpart
+            d = (s < 0) ? d * 10 - (c - '0') : d * 10 + (c - '0');
+            c = read_char();
+        }
+        if (c != -1) unread_char();
+        return d;
     }
 
     // Reads a single signed decimal floating-point number of type F.
@@ -372,7 +385,8 @@ public:
 
     // Reads a single float.
     float read_float() {
-        return read_floating_point_number<float>();
+        // use double internally
+        return (float)read_floating_point_number<double>();
     }
 
     // Reads a single double.
diff --git a/include/altruct/io/stream_tokenizer.h b/include/altruct/io/stream_tokenizer.h
index 2bdd4e5..6945ab1 100644
--- a/include/altruct/io/stream_tokenizer.h
+++ b/include/altruct/io/stream_tokenizer.h
@@ -91,6 +91,8 @@ std::istream& operator>>(std::istream& is, altruct::io::stream_tokenizer::token<
             break;
         }
     }
+    // the end of the stream also terminates a token, it is a failure only if there was none
+    if (is.eof() && !t.s.empty()) is.clear(is.rdstate() & ~std::ios_base::failbit);
     return is;
 }
 
@@ -99,7 +101,7 @@ std::istream& operator>>(std::istream& is, altruct::io::stream_tokenizer::tokens
     T t; D d;
     ts.v.clear();
     while (is) {
-        is >> t;
+        if (!(is >> t)) break;
         ts.v.push_back(t);
         bool wasSkipWs = is.flags() & std::ios_base::skipws;
         is >> std::noskipws >> d;
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 1766d93..86e4c4b 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -245,13 +245,14 @@ public:
     template<typename I>
     simple_writer& write_integral_number(I d, int len = 1) {
         int i;
-        static char tc[50];
+        char tc[50];
         if (d < 0) {
-            d = -d;
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            // the most negative number has no positive counterpart, so negate the digits instead
+            int r = (int)(d % 10);
+            tc[i] = ((r < 0) ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
@@ -273,13 +274,20 @@ public:
             e = std::max(g, 0) + 1;
         }
         f += pow(F(10), -precision) / 2; // round
+        if (f >= pow(F(10), e)) { // rounded up to one more digit
+            if (scientific) {
+                f /= 10, g++;
+            } else {
+                e++;
+            }
+        }
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
             }
             e--;
             F w = pow(F(10), e);
-            int d = (int)(f / w);
+            int d = (int)std::min(std::max(floor(f / w), F(0)), F(9)); // exclude rounding errors
             f -= w * d;
             write_char(d + '0');
         };
@@ -293,7 +301,9 @@ public:
 
     template<typename F>
     int exponent(F f) {
-        return (f == 0) ? 0 : (int)floor(log10(f));
+        if (f == 0) return 0;
+        int g = (int)floor(log10(f));
+        return (pow(F(10), g) > f) ? g - 1 : g; // logarithm may get rounded up
     }
 
     simple_writer& write_int(int d) {
-- 
2.43.0


From 5153652a18c95a3f13ceead00d9d6899e58e8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 31/43] fix: copies of mtrand draw from their own state;
 integer_to_range covers wide signed ranges

---
 .../altruct/algorithm/random/mersenne_twister.h   | 15 +++++++++++++++
 include/altruct/algorithm/random/random.h         |  7 +++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/random/mersenne_twister.h b/include/altruct/algorithm/random/mersenne_twister.h
index 878fedd..b2ed622 100644
--- a/include/altruct/algorithm/random/mersenne_twister.h
+++ b/include/altruct/algorithm/random/mersenne_twister.h
@@ -55,8 +55,10 @@
 
 #pragma once
 
+#include <climits>
 #include <cmath>
 #include <cstdint>
+#include <cstdio>
 #include <iostream>
 #include <limits>
 #include <time.h>
@@ -94,6 +96,8 @@ public:
     mtrand(const uint32& oneSeed);  // initialize with a simple uint32
     mtrand(uint32 *const bigSeed, uint32 const seedLength = N);  // or an array
     mtrand();  // auto-initialize with /dev/urandom or time() and clock()
+    mtrand(const mtrand& rhs);             // a copy continues the stream of
+    mtrand& operator=(const mtrand& rhs);  // the original, independently of it
 
     // Access to 32-bit random numbers
     double rand();                          // real number in [0,1]
@@ -157,6 +161,17 @@ inline mtrand::mtrand() {
     seed();
 }
 
+inline mtrand::mtrand(const mtrand& rhs) {
+    *this = rhs;
+}
+
+inline mtrand& mtrand::operator=(const mtrand& rhs) {
+    for (int i = 0; i < N; ++i) state[i] = rhs.state[i];
+    left = rhs.left;
+    pNext = &state[N - left];
+    return *this;
+}
+
 inline double mtrand::rand() {
     return double(randInt()) * (1.0 / 4294967295.0);
 }
diff --git a/include/altruct/algorithm/random/random.h b/include/altruct/algorithm/random/random.h
index 784e16d..6ad7869 100644
--- a/include/altruct/algorithm/random/random.h
+++ b/include/altruct/algorithm/random/random.h
@@ -3,6 +3,7 @@
 #include <cstdint>
 #include <limits>
 #include <functional>
+#include <type_traits>
 
 namespace altruct {
 namespace random {
@@ -26,8 +27,10 @@ double integer_to_double_0_1(U val) {
  */
 template<typename U, typename V>
 V integer_to_range(U val, V min, V max) {
-    V width = max - min + 1;
-    return (width == 0) ? V(val) : min + val % width;
+    // unsigned, as the width of a signed range may not fit the signed type
+    using W = typename std::make_unsigned<V>::type;
+    W width = W(max) - W(min) + 1;
+    return (width == 0) ? V(val) : V(W(min) + W(val % width));
 }
 
 /**
-- 
2.43.0


From 37ef31d59a8a18bfbdedf33867a4a1ed8ecbec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 32/43] fix: shunting yard: prefix operators after tighter
 binding ones, functions without arguments

---
 include/altruct/algorithm/parser/shunting_yard.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index 8e484e3..42c925b 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -77,6 +77,8 @@ std::vector<postfix_token> infix_to_postfix(
       std::vector<infix_token> &infix_tokens,
       std::vector<operator_desc> operators) {
     int num_args = 0;
+    bool has_operand = false; // whether the last token completed an operand
+    bool no_args = false; // whether the last token was a left parenthesis
     std::vector<postfix_token> res;
     std::vector<infix_token> stk;
     auto pop_operators = [&](int id) {
@@ -93,7 +95,8 @@ std::vector<postfix_token> infix_to_postfix(
                 res.push_back({ postfix_token::type_t::OPERAND, t.id, 0 });
                 break;
             case infix_token::type_t::OPERATOR:
-                pop_operators(t.id);
+                // the operators before a prefix operator still wait for their right operand
+                if (has_operand || operators[t.id].arity == operator_desc::arity_t::BINARY) pop_operators(t.id);
                 stk.push_back(t);
                 break;
             case infix_token::type_t::LEFT_PARENTHESIS:
@@ -101,7 +104,7 @@ std::vector<postfix_token> infix_to_postfix(
                 break;
             case infix_token::type_t::RIGHT_PARENTHESIS:
                 pop_operators(-1);
-                num_args = 1;
+                num_args = no_args ? 0 : 1;
                 while (!stk.empty() && stk.back().type == infix_token::type_t::SEPARATOR) {
                     num_args++; stk.pop_back();
                 }
@@ -121,6 +124,9 @@ std::vector<postfix_token> infix_to_postfix(
                 stk.push_back(t);
                 break;
         }
+        no_args = (t.type == infix_token::type_t::LEFT_PARENTHESIS);
+        has_operand = (t.type == infix_token::type_t::OPERAND || t.type == infix_token::type_t::RIGHT_PARENTHESIS ||
+            (has_operand && t.type == infix_token::type_t::OPERATOR && operators[t.id].arity == operator_desc::arity_t::UNARY));
     }
     pop_operators(-1);
     return res;
@@ -148,7 +154,7 @@ std::vector<T> evaluate_postfix(
                 break;
             case postfix_token::type_t::FUNCTION:
                 int pos = (int)stk.size() - t.num_args;
-                T r = evaluators[t.id](&stk[pos]);
+                T r = evaluators[t.id](stk.data() + pos);
                 stk.resize(pos);
                 stk.push_back(r);
                 break;
-- 
2.43.0


From ff0b0a0696862f58495615f9ca45e084e2c05aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:22 +0000
Subject: [PATCH 33/43] fix: bisection over integer ranges wider than the
 signed type

---
 .../altruct/algorithm/search/binary_search.h  | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/search/binary_search.h b/include/altruct/algorithm/search/binary_search.h
index 5b4e798..a1c7127 100644
--- a/include/altruct/algorithm/search/binary_search.h
+++ b/include/altruct/algorithm/search/binary_search.h
@@ -1,8 +1,27 @@
 #pragma once
 
+#include <type_traits>
+
 namespace altruct {
 namespace search {
 
+/**
+ * The midpoint of `[lo, hi]`, and whether `hi - lo >= eps`.
+ *
+ * The width of a range of integers may not fit the (signed) integer type,
+ * it always fits its unsigned counterpart.
+ */
+template<typename T, bool INTEGRAL = std::is_integral<T>::value>
+struct search_range {
+    static T midpoint(const T& lo, const T& hi) { return lo + (hi - lo) / 2; }
+    static bool at_least(const T& lo, const T& hi, const T& eps) { return (hi - lo) >= eps; }
+};
+template<typename T>
+struct search_range<T, true> {
+    using U = typename std::make_unsigned<T>::type;
+    static T midpoint(T lo, T hi) { return T(U(lo) + U(U(hi) - U(lo)) / 2); }
+    static bool at_least(T lo, T hi, T eps) { return lo <= hi && U(U(hi) - U(lo)) >= U(eps); }
+};
 
 /**
  * Returns the first index for which `predicate` returns `true`.
@@ -17,7 +36,7 @@ namespace search {
 template<typename It, typename F>
 It binary_search_pred(It lo, It hi, F predicate) {
     while (lo < hi) {
-        It mid = lo + (hi - lo) / 2;
+        It mid = search_range<It>::midpoint(lo, hi);
         if (predicate(mid)) {
             hi = mid;
         } else {
@@ -40,8 +59,8 @@ It binary_search_pred(It lo, It hi, F predicate) {
 template<typename X, typename F>
 X binary_search_num(X lo, X hi, X eps, F predicate) {
     auto prev_mid = hi;
-    while ((hi - lo) >= eps) {
-        X mid = lo + (hi - lo) / 2;
+    while (search_range<X>::at_least(lo, hi, eps)) {
+        X mid = search_range<X>::midpoint(lo, hi);
         if (mid == prev_mid) break;
         if (predicate(mid)) {
             hi = mid;
-- 
2.43.0


From ff3d468f9c348a9cb5235bd9f86ba557fc2bd1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 34/43] fix: parallel_execute creates workers under a lock,
 range_job_provider does not overflow past the end

---
 include/altruct/concurrency/concurrency.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index b42992a..2c9472e 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -5,6 +5,7 @@
 #include <mutex>
 #include <atomic>
 #include <condition_variable>
+#include <utility>
 #include <vector>
 
 namespace altruct {
@@ -51,10 +52,13 @@ namespace concurrency {
  */
 template<typename RESULT_COLLECTOR, typename JOB_PROVIDER, typename WORKER_PROVIDER>
 void parallel_execute(RESULT_COLLECTOR& result_collector, JOB_PROVIDER& job_provider, WORKER_PROVIDER& worker_provider, int num_threads) {
+    std::mutex worker_provider_mutex;
     std::mutex job_provider_mutex;
     std::mutex result_collector_mutex;
     auto func = [&]() {
+        std::unique_lock<std::mutex> worker_provider_lock(worker_provider_mutex);
         auto worker = worker_provider.create_worker();
+        worker_provider_lock.unlock();
         while (true) {
             std::unique_lock<std::mutex> job_provider_lock(job_provider_mutex);
             if (!job_provider.has_next_job()) break;
@@ -99,7 +103,12 @@ struct range_job_provider {
     I begin, end, len;
     range_job_provider(I begin, I end, I len) : begin(begin), end(end), len(len) {}
     bool has_next_job() { return begin < end; }
-    std::pair<I, I> next_job() { begin += len; return{ begin - len, std::min(begin, end) }; }
+    std::pair<I, I> next_job() {
+        I first = begin;
+        // avoids overflow past the end
+        begin = (len < end - begin) ? I(begin + len) : end;
+        return{ first, begin };
+    }
 };
 
 
-- 
2.43.0


From 2b3e161e64b1bd783a5a5e2332c407d4c0114fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:44 +0000
Subject: [PATCH 35/43] fix: double_int: shifts compile, division divides,
 post-increment returns the old value, words wrap without overflow

---
 .../altruct/structure/math/double_int.h       | 88 +++++++++----------
 1 file changed, 41 insertions(+), 47 deletions(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index 4c685ed..815e1d6 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -78,8 +78,8 @@ public:
     // INCREMENT / DECREMENT
     double_int& operator ++ () { int carry = 1; return assign_adc(0, carry); }
     double_int& operator -- () { int borrow = 1;return assign_sbb(0, borrow); }
-    double_int operator ++ (int) { double_int r(*this); return ++r; }
-    double_int operator -- (int) { double_int r(*this); return --r; }
+    double_int operator ++ (int) { double_int r(*this); ++*this; return r; }
+    double_int operator -- (int) { double_int r(*this); --*this; return r; }
 
     // ADDITION / SUBTRACTION
     double_int& operator += (const double_int& rhs) { int carry = 0; return assign_adc(rhs, carry); }
@@ -121,27 +121,17 @@ public:
 
     // DIVISION
     static double_int unsigned_div(const double_int& a0, const double_int& b0, double_int *r = 0) {
-        if (a0.unsigned_lt(b0)) return 0;
+        if (a0.unsigned_lt(b0)) { if (r) *r = a0; return 0; }
         double_int q = 0, a = a0, b = b0;
 
-        // TODO: do half machine-word divisions, not half double-int divisions !!
-
-        //int r_shift = 0;
-        //while (a.unsigned_gte(b)) {
-        //  // shifting both a and b by the same amount doesn't affect the quotient
-        //    int a_lzc = a.leading_zeros_count(); a <<= a_lzc;
-        //    int b_lzc = b.leading_zeros_count(); b <<= a_lzc;
-        //    r_shift += a_lzc;
-        //    if (b_lzc == a_lzc) { a -= b; q += 1; continue; }
-        //  // shifting b left so that (b << k).hi >= 2^(T::type_bits/2-1)
-        //    int k = max(0, b_lzc - a_lzc - T::type_bits / 2);
-        //    double_int c = b << k;
-        //    double_int t = T::unsigned_div(a.get_hi(), c.get_hi() + 1);
-        //    t <<= k; // correcting the quotient because shifting b left shifted the quotient right
-        //    a -= b * t;
-        //    q += t;
-        //}
-        //if (r) *r = a >> r_shift;
+        // TODO: do half machine-word divisions, not bit by bit !!
+
+        int shift = b.leading_zeros_count() - a.leading_zeros_count();
+        for (b <<= shift; shift >= 0; --shift, b.assign_unsigned_shr(1)) {
+            q <<= 1;
+            if (a.unsigned_gte(b)) { a -= b; ++q; }
+        }
+        if (r) *r = a;
         return q;
     }
 
@@ -181,7 +171,7 @@ public:
             lo = 0;
         } else if (cnt > 0) {
             hi <<= cnt;
-            hi |= double_int(lo).assign_unsigned_shr(T::type_bits - cnt);
+            hi |= T(lo).assign_unsigned_shr(T::type_bits - cnt);
             lo <<= cnt;
         }
         return *this;
@@ -347,43 +337,46 @@ public:
     bool operator <= (const prim_int& rhs) const { return (v <= rhs.v); }
     bool operator >= (const prim_int& rhs) const { return (v >= rhs.v); }
 
-    prim_int operator ++ (int) { return prim_int(v++); } // prim_int++
-    prim_int operator -- (int) { return prim_int(v--); } // prim_int--
+    prim_int operator ++ (int) { prim_int r(*this); ++*this; return r; } // prim_int++
+    prim_int operator -- (int) { prim_int r(*this); --*this; return r; } // prim_int--
 
-    prim_int operator - () const { return prim_int(-v); }
-    prim_int operator + () const { return prim_int(+v); }
+    // unsigned arithmetic wraps around, signed is not allowed to
+    typedef typename std::conditional<(sizeof(uT) < sizeof(unsigned)), unsigned, uT>::type wT;
 
-    prim_int operator + (const prim_int& rhs) const { return prim_int(v + rhs.v); }
-    prim_int operator - (const prim_int& rhs) const { return prim_int(v - rhs.v); }
-    prim_int operator * (const prim_int& rhs) const { return prim_int(v * rhs.v); }
-    prim_int operator / (const prim_int& rhs) const { return prim_int(v / rhs.v); }
-    prim_int operator % (const prim_int& rhs) const { return prim_int(v % rhs.v); }
+    prim_int operator - () const { return prim_int(uT(wT(0) - wT(uT(v)))); }
+    prim_int operator + () const { return prim_int(v); }
 
-    prim_int operator ~ () const { return prim_int(~v); }
+    prim_int operator + (const prim_int& rhs) const { return prim_int(uT(wT(uT(v)) + wT(uT(rhs.v)))); }
+    prim_int operator - (const prim_int& rhs) const { return prim_int(uT(wT(uT(v)) - wT(uT(rhs.v)))); }
+    prim_int operator * (const prim_int& rhs) const { return prim_int(uT(wT(uT(v)) * wT(uT(rhs.v)))); }
+    prim_int operator / (const prim_int& rhs) const { return prim_int(sT(v / rhs.v)); }
+    prim_int operator % (const prim_int& rhs) const { return prim_int(sT(v % rhs.v)); }
 
-    prim_int operator & (const prim_int& rhs) const { return prim_int(v & rhs.v); }
-    prim_int operator | (const prim_int& rhs) const { return prim_int(v | rhs.v); }
-    prim_int operator ^ (const prim_int& rhs) const { return prim_int(v ^ rhs.v); }
+    prim_int operator ~ () const { return prim_int(sT(~v)); }
 
-    prim_int operator << (int cnt) const { return prim_int(v << cnt); }
-    prim_int operator >> (int cnt) const { return prim_int(v >> cnt); }
+    prim_int operator & (const prim_int& rhs) const { return prim_int(sT(v & rhs.v)); }
+    prim_int operator | (const prim_int& rhs) const { return prim_int(sT(v | rhs.v)); }
+    prim_int operator ^ (const prim_int& rhs) const { return prim_int(sT(v ^ rhs.v)); }
 
-    prim_int& operator ++ () { ++v; return *this; } // ++prim_int
-    prim_int& operator -- () { --v; return *this; } // --prim_int
+    prim_int operator << (int cnt) const { return prim_int(uT(wT(uT(v)) << cnt)); }
+    prim_int operator >> (int cnt) const { return prim_int(sT(v >> cnt)); }
 
-    prim_int& operator += (const prim_int& rhs) { v += rhs.v; return *this; }
-    prim_int& operator -= (const prim_int& rhs) { v -= rhs.v; return *this; }
-    prim_int& operator *= (const prim_int& rhs) { v *= rhs.v; return *this; }
+    prim_int& operator ++ () { return *this += prim_int(uT(1)); } // ++prim_int
+    prim_int& operator -- () { return *this -= prim_int(uT(1)); } // --prim_int
+
+    prim_int& operator += (const prim_int& rhs) { return *this = *this + rhs; }
+    prim_int& operator -= (const prim_int& rhs) { return *this = *this - rhs; }
+    prim_int& operator *= (const prim_int& rhs) { return *this = *this * rhs; }
     prim_int& operator /= (const prim_int& rhs) { v /= rhs.v; return *this; }
     prim_int& operator %= (const prim_int& rhs) { v %= rhs.v; return *this; }
 
-    prim_int& negate() { return prim_int(-v); }
+    prim_int& negate() { return *this = -*this; }
 
     prim_int& operator &= (const prim_int& rhs) { v &= rhs.v; return *this; }
     prim_int& operator |= (const prim_int& rhs) { v |= rhs.v; return *this; }
     prim_int& operator ^= (const prim_int& rhs) { v ^= rhs.v; return *this; }
 
-    prim_int& operator <<= (int cnt) { v <<= cnt; return *this; }
+    prim_int& operator <<= (int cnt) { return *this = *this << cnt; }
     prim_int& operator >>= (int cnt) { v >>= cnt; return *this; }
 
     // UNSIGNED COMPARISON
@@ -414,7 +407,7 @@ public:
         return r;
     }
     static prim_int unsigned_mul(const prim_int& lhs, const prim_int& rhs) {
-        return uT(lhs.v) * uT(rhs.v);
+        return lhs * rhs;
     }
 
     // UNSIGNED DIVISION
@@ -422,8 +415,9 @@ public:
         // TODO
     }
     static prim_int unsigned_div(const prim_int& lhs, const prim_int& rhs, prim_int *r = 0) {
-        if (r) *r = uT(lhs.v) % uT(rhs.v);
-        return uT(lhs.v) / uT(rhs.v);
+        uT q = uT(lhs.v) / uT(rhs.v), m = uT(lhs.v) % uT(rhs.v);
+        if (r) *r = m;
+        return q;
     }
 
     // OUTPUT
-- 
2.43.0


From 3609f781813ae1dbf2e110fac5437f60ee8ad761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 36/43] fix: buffered_reader::read delivers at most one buffer,
 as its callers expect

---
 include/altruct/io/reader.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index f603d4d..0e50cb6 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -237,17 +237,12 @@ public:
     }
 
     size_t read(char* buffer, size_t count) override {
-        size_t total = 0;
-        while (total < count) {
-            size_t available = reserve(std::min(count - total, capacity));
-            if (available == 0) break;
-            size_t len = std::min(count - total, available);
-            std::copy(ptr, ptr + len, buffer + total);
-            ptr += len;
-            total += len;
-        }
-        if (total < count) read_failed = true;
-        return total;
+        size_t available = reserve(count);
+        if (available < count) read_failed = true;
+        count = std::min(count, available);
+        std::copy(ptr, ptr + count, buffer);
+        ptr += count;
+        return count;
     }
 };
 
-- 
2.43.0


From 3b573e8f8d64396eb909ba599d64e62d46e79778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:45 +0000
Subject: [PATCH 37/43] fix: gmp_helpers can be part of several translation
 units, converts LLONG_MIN, prints negative floats

---
 include/altruct/algorithm/math/gmp_helpers.h | 26 ++++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/altruct/algorithm/math/gmp_helpers.h b/include/altruct/algorithm/math/gmp_helpers.h
index 9308090..0e2c361 100644
--- a/include/altruct/algorithm/math/gmp_helpers.h
+++ b/include/altruct/algorithm/math/gmp_helpers.h
@@ -16,39 +16,39 @@ typedef mpq_class mpq;
 typedef mpf_class mpf;
 
 // casts
-template<> unsigned long altruct::math::castT<unsigned long, mpz>::of(const mpz& x) {
+template<> inline unsigned long altruct::math::castT<unsigned long, mpz>::of(const mpz& x) {
     unsigned long res = (unsigned long)x.get_ui();
     if (mpz_sgn(x.get_mpz_t()) < 0) res = -res;
     return res;
 };
-template<> long altruct::math::castT<long, mpz>::of(const mpz& x) {
+template<> inline long altruct::math::castT<long, mpz>::of(const mpz& x) {
     return (long)castOf<unsigned long>(x);
 };
-template<> unsigned int altruct::math::castT<unsigned int, mpz>::of(const mpz& x) {
+template<> inline unsigned int altruct::math::castT<unsigned int, mpz>::of(const mpz& x) {
     return (unsigned int)castOf<unsigned long>(x);
 };
-template<> int altruct::math::castT<int, mpz>::of(const mpz& x) {
+template<> inline int altruct::math::castT<int, mpz>::of(const mpz& x) {
     return (int)castOf<unsigned int>(x);
 };
-template<> unsigned long long altruct::math::castT<unsigned long long, mpz>::of(const mpz& x) {
+template<> inline unsigned long long altruct::math::castT<unsigned long long, mpz>::of(const mpz& x) {
     // allocating on the stack is kind of free, assuming 100 words is enough; possible buffer overrun
     unsigned long long res[100]; res[0] = 0;
     mpz_export(res, 0, -1, sizeof res[0], 0, 0, x.get_mpz_t());
     if (mpz_sgn(x.get_mpz_t()) < 0) res[0] = -res[0];
     return res[0];
 };
-template<> long long altruct::math::castT<long long, mpz>::of(const mpz& x) {
+template<> inline long long altruct::math::castT<long long, mpz>::of(const mpz& x) {
     return (long long)castOf<unsigned long long>(x);
 };
-template<> mpz altruct::math::castT<mpz, unsigned long long>::of(const unsigned long long& x) {
+template<> inline mpz altruct::math::castT<mpz, unsigned long long>::of(const unsigned long long& x) {
     mpz res(0);
     mpz_import(res.get_mpz_t(), 1, -1, sizeof x, 0, 0, &x);
     return res;
 };
-template<> mpz altruct::math::castT<mpz, long long>::of(const long long& x) {
-    return (x < 0) ? -castOf<mpz>((unsigned long long) - x) : castOf<mpz>((unsigned long long)x);
+template<> inline mpz altruct::math::castT<mpz, long long>::of(const long long& x) {
+    return (x < 0) ? -castOf<mpz>(0 - (unsigned long long)x) : castOf<mpz>((unsigned long long)x);
 };
-template<> mpz altruct::math::castT<mpz, mpf>::of(const mpf& x) {
+template<> inline mpz altruct::math::castT<mpz, mpf>::of(const mpf& x) {
     mpz res;
     mpz_set_f(res.get_mpz_t(), x.get_mpf_t());
     return res;
@@ -107,6 +107,6 @@ template<> inline mpz altruct::math::modulo_div(const mpz& x, const mpz& y, cons
 template<> inline mpz altruct::math::modulo_power(const mpz& x, const mpz& y, const mpz& M) { return z_powmod(x, y, M); }
 template<> inline mpz altruct::math::modulo_power(const mpz& x, const int64_t& y, const mpz& M) { return z_powmod(x, int64_to_mpz(y), M); }
 
-std::ostream& operator << (std::ostream& os, const mpz& rhs) { return os << rhs.get_str(); }
-std::ostream& operator << (std::ostream& os, const mpq& rhs) { return os << rhs.get_str(); }
-std::ostream& operator << (std::ostream& os, const mpf& rhs) { mp_exp_t exp = 0; return os << "0." << rhs.get_str(exp) << "e" << exp; }
+inline std::ostream& operator << (std::ostream& os, const mpz& rhs) { return os << rhs.get_str(); }
+inline std::ostream& operator << (std::ostream& os, const mpq& rhs) { return os << rhs.get_str(); }
+inline std::ostream& operator << (std::ostream& os, const mpf& rhs) { mp_exp_t exp = 0; std::string s = rhs.get_str(exp); if (sgn(rhs) < 0) s.erase(0, 1); return os << (sgn(rhs) < 0 ? "-0." : "0.") << s << "e" << exp; }
-- 
2.43.0


From 8044d842f2761b3c9b13dfc65e5852b0cd945e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:45 +0000
Subject: [PATCH 38/43] fix: moduli over GMP integers normalize negative
 built-in integers

---
 include/altruct/algorithm/math/gmp_helpers.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/algorithm/math/gmp_helpers.h b/include/altruct/algorithm/math/gmp_helpers.h
index 0e2c361..c7387e6 100644
--- a/include/altruct/algorithm/math/gmp_helpers.h
+++ b/include/altruct/algorithm/math/gmp_helpers.h
@@ -97,6 +97,9 @@ inline mpz operator % (const int64_t& lhs, const mpz& rhs) { return int64_to_mpz
 
 template<> inline mpz altruct::math::sqrtT(mpz x, mpz, size_t) { return z_sqrt(x); }
 template<> inline mpz altruct::math::modulo_normalize(const mpz& v, const mpz& M) { mpz r = v % M; return (r < 0) ? (r + M) : r; }
+template<> inline mpz altruct::math::modulo_normalize(const int& v, const mpz& M) { return modulo_normalize(castOf<mpz>(v), M); }
+template<> inline mpz altruct::math::modulo_normalize(const long& v, const mpz& M) { return modulo_normalize(castOf<mpz>(v), M); }
+template<> inline mpz altruct::math::modulo_normalize(const long long& v, const mpz& M) { return modulo_normalize(castOf<mpz>(v), M); }
 template<> inline mpz altruct::math::modulo_add(const mpz& x, const mpz& y, const mpz& M) { mpz r = x + y; return (r < M) ? r : (r - M); }
 template<> inline mpz altruct::math::modulo_sub(const mpz& x, const mpz& y, const mpz& M) { mpz r = x - y; return (r < 0) ? (r + M) : r; }
 template<> inline mpz altruct::math::modulo_neg(const mpz& v, const mpz& M) { return (v == 0) ? v : (M - v); }
-- 
2.43.0


From 0bccc1e7b46778dab4d5324e44edc02464887d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:12 +0000
Subject: [PATCH 39/43] fix: mertens_even truncated its argument to int, wrong
 for n with bit 31 set

---
 include/altruct/algorithm/math/mertens.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/mertens.h b/include/altruct/algorithm/math/mertens.h
index 135b6b2..f84bc94 100644
--- a/include/altruct/algorithm/math/mertens.h
+++ b/include/altruct/algorithm/math/mertens.h
@@ -145,7 +145,7 @@ altruct::container::sqrt_map<int64_t, T> mertens_odd(int64_t n, PI_TBL& pi_tbl,
 template<typename T, typename I, typename TBL>
 T mertens_even(I n, TBL& tbl, T id = T(1)) {
     auto zero = zeroOf(id);
-    auto t = [&](int k) { return (k > 1) ? -id : zero; };
+    auto t = [&](I k) { return (k > 1) ? -id : zero; };
     auto s = [&](I k) { return castOf<T>(id, (k + 1) / 2); };
     return sum_m<T>(t, s, n, tbl, id);
 }
-- 
2.43.0


From c3f2f40a7857342f1fa0ecc3236471e5ac63cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:30 +0000
Subject: [PATCH 40/43] fix: infinityT of floating-point types is usable
 (static member, std::isinf), so base.h compiles on its own and real Moebius
 transformations work

---
 include/altruct/algorithm/math/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 61cf8fc..ad48e1e 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -101,9 +101,9 @@ struct infinityT {
         return false;
     }
 };
-template<> struct infinityT<float> { bool is(const float& x) { return isinf(x); } };
-template<> struct infinityT<double> { bool is(const double& x) { return isinf(x); } };
-template<> struct infinityT<long double> { bool is(const long double& x) { return isinf(x); } };
+template<> struct infinityT<float> { static bool is(const float& x) { return std::isinf(x); } };
+template<> struct infinityT<double> { static bool is(const double& x) { return std::isinf(x); } };
+template<> struct infinityT<long double> { static bool is(const long double& x) { return std::isinf(x); } };
 
 /**
  * Gives the conjugate value of x.
-- 
2.43.0


From 95b19dac0c76ce9c090eab7836c8aedc19e6090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:45 +0000
Subject: [PATCH 41/43] fix: lcm and fraction compile over GMP integers (gcd
 qualified, as modulo.h does)

---
 include/altruct/algorithm/math/base.h     | 2 +-
 include/altruct/structure/math/fraction.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index ad48e1e..0eb8a91 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -238,7 +238,7 @@ T gcd_max(T a, T b) {
  */
 template<typename T>
 T lcm(const T& a, const T& b) {
-    return a * (b / gcd(a, b));
+    return a * (b / altruct::math::gcd(a, b));
 }
 
 /**
diff --git a/include/altruct/structure/math/fraction.h b/include/altruct/structure/math/fraction.h
index 38967d2..1ef8781 100644
--- a/include/altruct/structure/math/fraction.h
+++ b/include/altruct/structure/math/fraction.h
@@ -14,7 +14,7 @@ public:
 
     void reduce() {
         T e0 = zeroT<T>::of(p), e1 = identityT<T>::of(p);
-        T g = absT(gcd(p, q));
+        T g = absT(altruct::math::gcd(p, q));
         if (g != e1) p /= g, q /= g;
         if (q < e0) p = -p, q = -q;
     }
-- 
2.43.0


From a4433d61c014f259f944734856a062f2d5b650f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:42 +0000
Subject: [PATCH 42/43] fix: prime_pi_deprecated keys its memo table without
 collisions for 32-bit arguments

---
 include/altruct/algorithm/math/prime_pi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/prime_pi.h b/include/altruct/algorithm/math/prime_pi.h
index dacd1eb..fe40a7a 100644
--- a/include/altruct/algorithm/math/prime_pi.h
+++ b/include/altruct/algorithm/math/prime_pi.h
@@ -21,7 +21,7 @@ template<typename I, typename J>
 I prime_pi_PHI_key(I m, J n) {
     // this works for I=i64, m < 2^48 (10^14), n < 2^16
     // this works for I=i32, m < 2^24 (10^7), n < 2^8
-    return (m << 16) + n;
+    return I(uint64_t(m) << (sizeof(I) < 8 ? 8 : 16)) + n;
 }
 template<typename I, typename J>
 std::unordered_map<I, I>& prime_pi_PHI_tbl() {
-- 
2.43.0


From dbc091669494204094fb8078937453002daef3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:05 +0000
Subject: [PATCH 43/43] fix: casting a long mpz to (unsigned) long long no
 longer overruns a fixed buffer

---
 include/altruct/algorithm/math/gmp_helpers.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/altruct/algorithm/math/gmp_helpers.h b/include/altruct/algorithm/math/gmp_helpers.h
index c7387e6..cf8e2d5 100644
--- a/include/altruct/algorithm/math/gmp_helpers.h
+++ b/include/altruct/algorithm/math/gmp_helpers.h
@@ -31,11 +31,12 @@ template<> inline int altruct::math::castT<int, mpz>::of(const mpz& x) {
     return (int)castOf<unsigned int>(x);
 };
 template<> inline unsigned long long altruct::math::castT<unsigned long long, mpz>::of(const mpz& x) {
-    // allocating on the stack is kind of free, assuming 100 words is enough; possible buffer overrun
-    unsigned long long res[100]; res[0] = 0;
-    mpz_export(res, 0, -1, sizeof res[0], 0, 0, x.get_mpz_t());
-    if (mpz_sgn(x.get_mpz_t()) < 0) res[0] = -res[0];
-    return res[0];
+    // only the lowest word gets exported, so that values of any size fit
+    unsigned long long res = 0; mpz lo;
+    mpz_tdiv_r_2exp(lo.get_mpz_t(), x.get_mpz_t(), 8 * sizeof res);
+    mpz_export(&res, 0, -1, sizeof res, 0, 0, lo.get_mpz_t());
+    if (mpz_sgn(x.get_mpz_t()) < 0) res = -res;
+    return res;
 };
 template<> inline long long altruct::math::castT<long long, mpz>::of(const mpz& x) {
     return (long long)castOf<unsigned long long>(x);
-- 
2.43.0

