From 246c9647ab5035a9b8c0dde56fd140c5ba3895ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 1/6] fix: mixed radix twiddle index overflows int for prime
 factors above 46340

The product of two indices below the prime factor was computed in int and
wrapped around, so lengths with a prime factor above 46340 gave garbage
(and undefined behaviour). Compute it in 64 bits.
---
 src/otfft_mixedradix.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/otfft_mixedradix.h b/src/otfft_mixedradix.h
index 5da234a..4ac1813 100644
--- a/src/otfft_mixedradix.h
+++ b/src/otfft_mixedradix.h
@@ -11,6 +11,8 @@
 
 #include "otfft_misc.h"
 
+#include <cstdint>
+
 namespace OTFFT_NAMESPACE {
 
 namespace OTFFT_MixedRadix { //////////////////////////////////////////////////
@@ -512,7 +514,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*((std::int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -532,7 +534,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[ms*((std::int64_t(i)*j)%k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[i*sp]);
@@ -1069,7 +1071,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*((std::int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1089,7 +1091,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[N-ms*((std::int64_t(i)*j)%k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[N-i*sp]);
@@ -1649,7 +1651,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*((std::int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1674,7 +1676,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[ms*((std::int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[i*sp]);
@@ -2233,7 +2235,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*((std::int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -2258,7 +2260,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-ms*((std::int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[N-i*sp]);
-- 
2.43.0


From 70c901562ecdf3685dea1f760f79267da75ce7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 2/6] fix: transforms with an inner length of 1 dereference a
 null kernel

FFT0::setup leaves obj empty for length 1, where every transform is the
identity, but the transform calls used it unconditionally. This crashed
RealFFT and DCT objects of length 2 and complex objects of length 1.
---
 src/otfft_algo.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 8c8ef81..73d1e70 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -104,17 +104,17 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::fwd(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwd(x, y);
+        if (obj) obj->fwd(x, y);
     }
 
     void FFT0::fwd0(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwd0(x, y);
+        if (obj) obj->fwd0(x, y);
     }
 
     void FFT0::fwdu(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwdu(x, y);
+        if (obj) obj->fwdu(x, y);
     }
 
     void FFT0::fwdn(complex_vector x, complex_vector y) const noexcept
@@ -124,7 +124,7 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::inv(complex_vector x, complex_vector y) const noexcept
     {
-        obj->inv(x, y);
+        if (obj) obj->inv(x, y);
     }
 
     void FFT0::inv0(complex_vector x, complex_vector y) const noexcept
@@ -134,12 +134,12 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::invu(complex_vector x, complex_vector y) const noexcept
     {
-        obj->invu(x, y);
+        if (obj) obj->invu(x, y);
     }
 
     void FFT0::invn(complex_vector x, complex_vector y) const noexcept
     {
-        obj->invn(x, y);
+        if (obj) obj->invn(x, y);
     }
 
     FFT::FFT() noexcept : fft(), work(), y(0) {}
-- 
2.43.0


From 9767f7ff6a746421e2cbbf5cef644050ed9f553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 3/6] fix: do not execute XGETBV on CPUs without OSXSAVE

The instruction raises #UD unless the operating system has enabled XSAVE,
so merely creating a transform object crashed on such systems.
---
 src/otfft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/otfft.cpp b/src/otfft.cpp
index d9ae73d..b1b6101 100644
--- a/src/otfft.cpp
+++ b/src/otfft.cpp
@@ -117,7 +117,8 @@ namespace
             if (cpu_info_0[0] > 0)
             {
                 const auto cpu_info_1 = CPUID(1);
-                const auto cpu_info_xcr = XGETBV(0);
+                // XGETBV is an invalid instruction unless the OS has enabled XSAVE (CPUID.1:ECX.OSXSAVE)
+                const auto cpu_info_xcr = (cpu_info_1[2] & 0x08000000) != 0 ? XGETBV(0) : 0;
 
                 CPU_FEATURE_XSAVE = ((cpu_info_1[2] & 0x04000000) != 0) && ((cpu_info_xcr & 6) == 6);
                 CPU_FEATURE_SSE = (cpu_info_1[3] & 0x02000000) != 0;
-- 
2.43.0


From d5d37b076af0e1374935a32dc96fb973c990c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 4/6] fix: complex_t *= and /= with one of its own parts as
 operand

The real operand was taken by reference, so z *= z.Re changed it before the
imaginary part was computed.
---
 inc/otfft_complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index e0eb492..388f0a9 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -97,14 +97,14 @@ struct complex_t
         return *this;
     }
 
-    complex_t& operator*=(const double& x) NOEXCEPT
+    complex_t& operator*=(const double x) NOEXCEPT
     {
         Re *= x;
         Im *= x;
         return *this;
     }
 
-    complex_t& operator/=(const double& x) NOEXCEPT
+    complex_t& operator/=(const double x) NOEXCEPT
     {
         Re /= x;
         Im /= x;
-- 
2.43.0


From 43fbc5ca83ea2b9e86fd929c3fa024db93ee58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 5/6] fix: do not declare functions that read through
 references as const

GCC's 'const' attribute promises that a function reads no memory, but the
complex_t operators and helpers take their operands by reference. clang
used the promise to reuse stale results or drop stores to the operands.
---
 inc/otfft_complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index 388f0a9..0d1249f 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -24,7 +24,7 @@
 #endif
 
 #if __GNUC__ >= 3
-#define force_inline  __attribute__((const,always_inline))
+#define force_inline  __attribute__((always_inline))
 #define force_inline2 __attribute__((pure,always_inline))
 #define force_inline3 __attribute__((always_inline))
 //#define force_inline  __attribute__((const))
-- 
2.43.0


From 8d6bdbc1569bf2a30095f5d43e9afd82ccf3a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:59 +0000
Subject: [PATCH 6/6] fix: Bluestein setup above 2^29 overflows and never
 returns; report bad_alloc

---
 src/otfft_algo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 73d1e70..ac5b640 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -747,6 +747,7 @@ namespace OTFFT_NAMESPACE
     void Bluestein::setup(int n)
     {
         if (n < 1) return;
+        if (n > (1 << 29)) throw std::bad_alloc(); // the inner transform would exceed 2^30
         N = n;
         const int N2 = 2*N;
         for (L = 1; L < N2 - 1; L *= 2);
-- 
2.43.0

