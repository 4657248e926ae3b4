// Shared by the demonstrations: compares selected outputs of one call with a direct long double sum.
#pragma once
#include "otfft.h"
#include <omp.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
using OTFFT::complex_t;
typedef OTFFT::OptimizationType Opt;
enum Mode { FWD, FWD0, FWDU, FWDN, INV, INV0, INVU, INVN };
static const char* mode_name[] = { "fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn" };

struct Rnd {
    uint64_t s;
    explicit Rnd(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 1) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    double uni() { return double(int64_t(next() >> 11)) / double(1ll << 52) - 1.0; }
};

template<class P, class V> void call(P& p, int mode, V x)
{
    switch (mode) {
    case FWD: p->fwd(x); break;   case FWD0: p->fwd0(x); break;
    case FWDN: p->fwdn(x); break; case INV: p->inv(x); break;
    case INV0: p->inv0(x); break; case INVN: p->invn(x); break;
    }
}
inline void callc(OTFFT::ComplexFFTPtr& p, int mode, complex_t* x)
{
    if (mode == FWDU) p->fwdu(x); else if (mode == INVU) p->invu(x); else call(p, mode, x);
}
inline void callf(OTFFT::RealFFTPtr& p, int mode, const double* x, complex_t* y)
{
    switch (mode) {
    case FWD: p->fwd(x, y); break;   case FWD0: p->fwd0(x, y); break;
    case FWDU: p->fwdu(x, y); break; case FWDN: p->fwdn(x, y); break;
    }
}
inline void calli(OTFFT::RealFFTPtr& p, int mode, complex_t* x, double* y)
{
    switch (mode) {
    case INV: p->inv(x, y); break;   case INV0: p->inv0(x, y); break;
    case INVU: p->invu(x, y); break; case INVN: p->invn(x, y); break;
    }
}
inline long double scale(int mode, int n)
{
    switch (mode) {
    case FWD: case FWDN: case INVN: return 1.0L / n;
    case FWDU: case INVU: return 1.0L / sqrtl((long double)n);
    }
    return 1;
}
// sum of x[j] exp(sign * 2 pi i k j / n)
inline void dft_bin(const std::vector<complex_t>& x, int k, int sign, long double& re, long double& im)
{
    const int n = (int)x.size();
    const long double t = 2 * acosl(-1.0L) / n;
    re = im = 0;
    for (int j = 0; j < n; j++) {
        const long double a = t * (long double)(int64_t(k) * j % n), c = cosl(a), s = sign * sinl(a);
        re += x[j].Re * c - x[j].Im * s;
        im += x[j].Re * s + x[j].Im * c;
    }
}
// Largest error of some outputs, relative to sqrt(n) * scale (the size of the outputs for random data).
inline double complex_error(OTFFT::ComplexFFTPtr& p, int n, int mode, int bins, uint64_t seed)
{
    Rnd r(seed);
    std::vector<complex_t> x(n), y;
    for (auto& v : x) v = complex_t(r.uni(), r.uni());
    y = x;
    callc(p, mode, y.data());
    double worst = 0;
    for (int b = 0; b < bins; b++) {
        const int k = b == 0 ? 0 : b == 1 ? n - 1 : b == 2 ? n / 2 : int(r.next() % n);
        long double re, im;
        dft_bin(x, k, mode < INV ? -1 : 1, re, im);
        const long double e = hypotl(y[k].Re - re * scale(mode, n), y[k].Im - im * scale(mode, n)) / (scale(mode, n) * sqrtl(n));
        if (!(e <= worst)) worst = (double)e;
    }
    return worst;
}
inline double real_fwd_error(OTFFT::RealFFTPtr& p, int n, int mode, int bins, uint64_t seed)
{
    Rnd r(seed);
    std::vector<double> x(n);
    std::vector<complex_t> y(n), c(n);
    for (int i = 0; i < n; i++) { x[i] = r.uni(); c[i] = complex_t(x[i], 0); }
    callf(p, mode, x.data(), y.data());
    double worst = 0;
    for (int b = 0; b < bins; b++) {
        const int k = b == 0 ? 0 : b == 1 ? n - 1 : b == 2 ? n / 2 : b == 3 ? n / 4 : int(r.next() % n);
        long double re, im;
        dft_bin(c, k, -1, re, im);
        const long double e = hypotl(y[k].Re - re * scale(mode, n), y[k].Im - im * scale(mode, n)) / (scale(mode, n) * sqrtl(n));
        if (!(e <= worst)) worst = (double)e;
    }
    return worst;
}
inline double real_inv_error(OTFFT::RealFFTPtr& p, int n, int mode, int bins, uint64_t seed)
{
    Rnd r(seed);
    std::vector<complex_t> x(n), c;
    std::vector<double> y(n);
    for (int i = 0; i <= n / 2; i++) {
        x[i] = complex_t(r.uni(), i == 0 || i == n / 2 ? 0.0 : r.uni());
        if (i) x[n - i] = complex_t(x[i].Re, -x[i].Im);
    }
    if (n >= 2) x[n / 2] = complex_t(x[n / 2].Re, 0);
    c = x;
    calli(p, mode, x.data(), y.data());
    double worst = 0;
    for (int b = 0; b < bins; b++) {
        const int k = b == 0 ? 0 : b == 1 ? n - 1 : b == 2 ? n / 2 : int(r.next() % n);
        long double re, im;
        dft_bin(c, k, 1, re, im);
        const long double e = fabsl(y[k] - re * scale(mode, n)) / (scale(mode, n) * sqrtl(n));
        if (!(e <= worst)) worst = (double)e;
    }
    return worst;
}
inline double dct_error(OTFFT::RealDCTPtr& p, int n, int mode, int bins, uint64_t seed)
{
    Rnd r(seed);
    std::vector<double> x(n), y;
    for (auto& v : x) v = r.uni();
    y = x;
    call(p, mode, y.data());
    const long double t = acosl(-1.0L) / (2.0L * n);
    double worst = 0;
    for (int b = 0; b < bins; b++) {
        const int k = b == 0 ? 0 : b == 1 ? n - 1 : b == 2 ? n / 2 : int(r.next() % n);
        long double s = mode < INV ? 0 : x[0];
        for (int j = mode < INV ? 0 : 1; j < n; j++)
            s += mode < INV ? x[j] * cosl(t * (long double)(int64_t(k) * (2 * j + 1) % (4ll * n)))
                            : 2 * x[j] * cosl(t * (long double)(int64_t(j) * (2 * k + 1) % (4ll * n)));
        const long double e = fabsl(y[k] - s * scale(mode, n)) / (scale(mode, n) * sqrtl(n));
        if (!(e <= worst)) worst = (double)e;
    }
    return worst;
}
static int failures = 0;
inline void expect(bool ok, const char* what)
{
    if (!ok) { failures++; printf("WRONG: %s\n", what); }
}
inline void expect_small(double e, const char* what, int n, int mode)
{
    if (!(e < 1e-9)) { failures++; printf("WRONG: %s n=%d %s: relative error %g\n", what, n, mode_name[mode], e); }
}
inline int verdict()
{
    printf(failures ? "%d wrong\n" : "all right\n", failures);
    return failures ? 1 : 0;
}
