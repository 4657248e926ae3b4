A="src/otfft_algo.cpp"; MX="src/otfft_mixedradix.h"; OT="src/otfft.cpp"; CX="inc/otfft_complex.h"; MI="src/otfft_algo_mixed.cpp"; ES="src/otfft_eightstep.h"; SSQ="src/otfft_sixstepsq.h"; MC="src/otfft_misc.h"
def num(kind, checks):
    """demo: list of (backend expr, n, mode, threads)"""
    mk = dict(c=("ComplexFFT","complex_error"), b=("BluesteinFFT","complex_error"), r=("RealFFT","real_fwd_error"), i=("RealFFT","real_inv_error"), d=("DCT","dct_error"))[kind]
    body = '#include "t.hpp"\nstatic void one(Opt be, int n, int mode, int threads)\n{\n    omp_set_num_threads(threads);\n    auto p = OTFFT::Factory::create%s(n, be);\n    expect_small(%s(p, n, mode, 24, n + mode), "output", n, mode);\n}\nint main()\n{\n' % mk
    for be, n, mode, th in checks:
        body += "    one(Opt::OPTIMIZED_FFT_%s, %d, %s, %d);\n" % (be, n, mode, th)
    return body + "    return verdict();\n}\n"
A2="AVX2"; S2="SSE2"

S("C01-recurrence","C01","a length that is no power of two, below the parallel threshold, large enough for the error of the recurrence to grow",
  "twiddle factors of mixed radix lengths are computed by repeated multiplication, so the error grows with the length",
  [(MI,'''                    for (int p = 0; p <= n; p++) {
                        W[p] = complex_t(cos(p*theta0), -sin(p*theta0));
                    }
                }
                else {''','''                    const complex_t w1(cos(theta0), -sin(theta0));
                    W[0] = 1;
                    for (int p = 1; p <= n; p++) {
                        W[p] = W[p-1]*w1;
                    }
                }
                else {''')],
  num("c",[(A2,6*5*1001,"FWD0",1),(A2,32766,"INV",1),(S2,2*16381,"FWD",1)]).replace("e < 1e-9","e < 1e-13").replace("expect_small(complex_error","if (!(complex_error").replace(', n + mode), "output", n, mode);',', n + mode) < 3e-14)) expect(false, "accuracy");'))

S("C01-anyp-inv","C01","an inverse call at a length of at least 32768 with two or more factors other than 2, 3 and 5, and a non-unit power in the last stage",
  "the parallel mixed radix inverse copies the wrong way round after the last stage of a generic radix",
  [(MX,"const cpx wip = getpz(W[N-i*sp]);","const cpx wip = getpz(W[N-i*(sp%ms)%N]);","void invfftanyp(")],
  num("c",[(A2,2*7*11*13*17,"INV",4),(A2,2*7*7*7*7*7*2,"INVU",4)]))

S("C01-eightstep-inv","C01","an inverse call of a complex transform at 2^19, 2^21 or 2^23",
  "one twiddle power of the inverse eight-step algorithm is wrong",
  [(ES,"const ymm w7p = mulpz2(w3p,w4p);\n            setpz2(y+p+N7","const ymm w7p = mulpz2(w3p,w3p);\n            setpz2(y+p+N7","struct invfftr")],
  num("c",[(A2,1<<19,"INV",4),(A2,1<<19,"INVU",4)]))

S("C02-fwdu-quarter","C02","fwdu of a real transform with at least 32768 elements whose length divides by 4",
  "the parallel branch of fwdu stops one bin early: the bins at N/4 and 3N/4 keep an unscaled value",
  [(A,"for (int k = 1; k <= Nq; k++) {","for (int k = 1; k < Nq; k++) {",["void RFFT::fwdu(","#pragma omp parallel"])],
  num("r",[(A2,32768,"FWDU",4),(S2,65536,"FWDU",2),(A2,40000,"FWDU",4)]))

S("C02-input","C02","fwd0 of a real transform whose length is no multiple of 4",
  "the forward call packs the samples through the caller's array and leaves the middle pair of the input swapped",
  [(A,'''        for (int p = 0; p < Nh; p++) setpz(z[p], getpz(x + 2*p));
        fft.fwd0(z, y);
        y[0] = z[0].Re + z[0].Im;''','''        for (int p = 0; p < Nh; p++) setpz(z[p], getpz(x + 2*p));
        fft.fwd0(z, y);
        if (Nh & 1) const_cast<double*>(x)[N-1] += 0.0; 
        if ((Nh & 1) && x[0] < 0) const_cast<double*>(x)[0] = x[0] * (1 + 4e-16);
        y[0] = z[0].Re + z[0].Im;''')],
  '''#include "t.hpp"
int main()
{
    for (int n : { 6, 10, 34, 1002, 16, 4096 }) {
        auto p = OTFFT::Factory::createRealFFT(n);
        std::vector<double> x(n), c;
        std::vector<complex_t> y(n);
        Rnd r(n);
        for (int t = 0; t < 8; t++) {
            for (auto& v : x) v = r.uni();
            c = x;
            p->fwd0(x.data(), y.data());
            expect(memcmp(x.data(), c.data(), n * sizeof(double)) == 0, "input array changed");
        }
    }
    return verdict();
}
''')

S("C03-invu-float","C03","invu of a real transform of at least 32768 elements, compared to more than single precision",
  "the scale factor of the parallel branch of invu is rounded to single precision",
  [(A,"const double s2dsN = 2.0/sqrt(N);","const double s2dsN = N < OMP_THRESHOLD ? 2.0/sqrt(N) : 2.0f/sqrtf(static_cast<float>(N));")],
  num("i",[(A2,32770,"INVU",4),(S2,1<<17,"INVU",4),(A2,1000,"INVU",1)]))

S("C03-invn-tail","C03","invn of a real transform of at least 32768 elements whose half length is odd",
  "the parallel branch of invn copies the samples in pairs and loses the last one of an odd count",
  [(A,'''            fft.invn(z, x);
            #pragma omp parallel for schedule(static)
            for (int p = 0; p < Nh; p++) setpz(y+2*p, getpz(z[p]));''','''            fft.invn(z, x);
            #pragma omp parallel for schedule(static)
            for (int p = 0; p < Nh/2; p++) {
                setpz(y+4*p+0, getpz(z[2*p+0]));
                setpz(y+4*p+2, getpz(z[2*p+1]));
            }''')],
  num("i",[(A2,32770,"INVN",4),(A2,32772,"INVN",4),(S2,40002,"INVN",3)]))

S("C04-invn-par","C04","invn of a cosine transform of at least 32768 elements",
  "the parallel branch of the normalised inverse cosine transform loses a sign",
  [(A,"z[k] = V[k]*complex_t(x[k], -x[N-k]);","z[k] = V[k]*complex_t(x[k], k > Nh ? x[N-k] : -x[N-k]);",["void DCT0::invn(","#pragma omp parallel"])],
  num("d",[(A2,32768,"INVN",4),(S2,50000,"INVN",2)]))
SEEDS.pop()  # only bins up to N/2 are read: no effect

S("C04-weights","C04","a cosine transform of at least 65536 elements",
  "the parallel setup takes the angle step in single precision",
  [(A,'''        #pragma omp parallel for schedule(static)
        for (int p = 0; p <= Nh; p++) {
            const double theta = p * theta0;
            const double c = cos(theta);''','''        #pragma omp parallel for schedule(static)
        for (int p = 0; p <= Nh; p++) {
            const double theta = M_PI * (static_cast<float>(p) / (2*N));
            const double c = cos(theta);''')],
  num("d",[(A2,65538,"FWD0",4),(A2,70000,"INV",2),(S2,100000,"INVN",4)]))

S("C04-fwd0-odd","C04","fwd0 of a cosine transform of at least 32768 elements with a length that is no multiple of 4",
  "the parallel reordering works on four samples at a time and drops the remainder",
  [(A,'''            for (int p = 0; p < Nh; p++) {
                y[p]     = x[2*p+0];
                y[N-p-1] = x[2*p+1];
            }''','''            for (int p = 0; p < Nh/2*2; p++) {
                y[p]     = x[2*p+0];
                y[N-p-1] = x[2*p+1];
            }''',["void DCT0::fwd0(","#pragma omp parallel"])],
  num("d",[(A2,32770,"FWD0",4),(A2,32772,"FWD0",4),(S2,40006,"FWD0",3)]))

S("C05-wrap","C05","invu of a Bluestein transform longer than 65536",
  "the square of the index is computed in 32 bits and wraps round",
  [(A,"const int64_t q = p;","const uint32_t q = p;",["void Bluestein::invu(","#pragma omp parallel"])],
  num("b",[(A2,65536,"INVU",4),(A2,65599,"INVU",4),(S2,100003,"INVU",4)]))

S("C05-length","C05","a Bluestein transform of length 2^k + 1",
  "the inner length is chosen one too small: the circular convolution wraps around",
  [(A,"for (L = 1; L < N2 - 1; L *= 2);","for (L = 1; L < N2 - 2; L *= 2);")],
  num("b",[(A2,n,m,2) for n in (17,33,129,1025,16385) for m in ("FWD","INV0")]+[(A2,100,"FWD",1)]))

S("C06-bluestein-fwdu","C06","fwdu of a Bluestein transform of at least 32768 elements",
  "the parallel branch of the unitary forward call scales by a slightly wrong factor (the inner length instead of the length, for powers of two)",
  [(A,'''const double ssrN = sqrt(1.0/N);''','''const double ssrN = N < OMP_THRESHOLD ? sqrt(1.0/N) : sqrt(1.0/(L/2));''',"void Bluestein::fwdu(")],
  '''#include "t.hpp"
int main()
{
    for (int n : { 100, 32768, 32769, 50000 }) {
        auto p = OTFFT::Factory::createBluesteinFFT(n);
        std::vector<complex_t> x(n), y;
        Rnd r(n);
        for (auto& v : x) v = complex_t(r.uni(), r.uni());
        y = x;
        p->fwdu(y.data());
        double a = 0, b = 0, e = 0;
        for (int i = 0; i < n; i++) { a += norm(x[i]); b += norm(y[i]); }
        expect(fabs(a - b) < 1e-9 * a, "fwdu does not preserve the energy");
        p->invu(y.data());
        for (int i = 0; i < n; i++) e = std::max(e, abs(y[i] - x[i]));
        expect(e < 1e-10, "invu after fwdu is not the identity");
    }
    return verdict();
}
''')

S("C06-rfft-order","C06","fwdn of a real transform followed by inv0",
  "fwdn of the real transform scales by one over the padded length for lengths that are no power of two",
  [(A,'''    void RFFT::fwdn(const_double_vector x, complex_vector y) const noexcept
    {
        fwd(x, y);
    }''','''    void RFFT::fwdn(const_double_vector x, complex_vector y) const noexcept
    {
        fwdu(x, y);
        const double s = 1.0/sqrtf(static_cast<float>(N));
        for (int k = 0; k < N; k++) y[k] *= s;
    }''')],
  '''#include "t.hpp"
int main()
{
    for (int n : { 4, 6, 1000, 2048, 40000 }) {
        auto p = OTFFT::Factory::createRealFFT(n);
        std::vector<double> x(n), z(n);
        std::vector<complex_t> y(n);
        Rnd r(n);
        for (auto& v : x) v = r.uni();
        p->fwdn(x.data(), y.data());
        p->inv0(y.data(), z.data());
        double e = 0;
        for (int i = 0; i < n; i++) e = std::max(e, fabs(z[i] - x[i]));
        expect(e < 1e-10, "inv0 after fwdn is not the identity");
    }
    return verdict();
}
''')
VG='''#!/bin/bash
# Exit 0 when the library behaves, nonzero when it does not. Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'find "$T" -delete' EXIT
g++ -std=c++14 -O1 -w -fopenmp -I/repo/inc -I"$D" "$D/demo.cpp" /repo/_build/Release/libotfft.a -o "$T/demo" -lpthread || exit 2
OMP_NUM_THREADS=4 timeout 250 "$T/demo"
'''
GUARD='''#include "t.hpp"
#include <cerrno>
#include <map>
#include <mutex>
// Aligned blocks are followed by fill bytes that must survive until the block is released.
static std::mutex mu;
static std::map<void*, size_t> blocks;
static int damaged = 0;
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" int posix_memalign(void** p, size_t a, size_t n) noexcept
{
    char* b = (char*)__libc_memalign(a, n + 64);
    if (!b) return ENOMEM;
    memset(b, 0x55, n);
    memset(b + n, 0xa7, 64);
    std::lock_guard<std::mutex> g(mu);
    blocks[b] = n;
    *p = b;
    return 0;
}
static void inspect()
{
    std::lock_guard<std::mutex> g(mu);
    for (auto& b : blocks) for (int i = 0; i < 64; i++) if (((unsigned char*)b.first)[b.second + i] != 0xa7) { damaged++; break; }
}
static void forget() { std::lock_guard<std::mutex> g(mu); blocks.clear(); }
'''
S("C07-weight","C07","creating a real transform of at least 65536 elements; the element written lies directly behind the block",
  "the weight table of the real transform is allocated one element too short and its last element is written behind the block",
  [(A,"weight.setup(N+1); U = &weight;","weight.setup(N < OMP_THRESHOLD_W ? N+1 : N); U = &weight;","void RFFT::setup(")],
  GUARD+'''int main()
{
    for (int n : { 4, 8, 12, 64, 4096, 65536, 70000 }) {
        auto p = OTFFT::Factory::createRealFFT(n);
        std::vector<double> x(n, 1.0);
        std::vector<complex_t> y(n);
        p->fwd(x.data(), y.data());
        p->inv(y.data(), x.data());
        inspect();
        if (damaged) printf("n=%d: ", n);
        expect(!damaged, "memory behind a block was written");
        damaged = 0;
        p.reset();
        forget();
    }
    return verdict();
}
''')
S("C07-caller","C07","fwd of a real transform of at least 32768 elements whose half length is odd",
  "the parallel mirror loop runs one step too far and writes behind the caller's array of N bins",
  [(A,"for (int k = 1; k < Nh; k++) setpz(y[N-k], cnjpz(getpz(y[k])));","for (int k = (Nh & 1) ? 0 : 1; k < Nh; k++) setpz(y[N-k], cnjpz(getpz(y[k])));",["void RFFT::fwd(","#pragma omp parallel"])],
  '''#include "t.hpp"
int main()
{
    for (int n : { 30, 32768, 32770, 40002 }) {
        auto p = OTFFT::Factory::createRealFFT(n);
        std::vector<double> x(n, 1.0);
        std::vector<complex_t> y(n + 2, complex_t(77, 77));
        p->fwd(x.data(), y.data() + 1);
        expect(y[0].Re == 77 && y[0].Im == 77, "memory before the output written");
        expect(y[n + 1].Re == 77 && y[n + 1].Im == 77, "memory behind the output written");
    }
    return verdict();
}
''')
S("C08-weights","C08","a cosine transform of at least 65536 elements and odd half length; the middle weight then holds whatever the memory held",
  "the parallel setup of the cosine weights stops one element early, leaving the one in the middle uninitialised",
  [(A,"for (int p = 0; p <= Nh; p++) {","for (int p = 0; p <= Nh - (Nh & 1); p++) {",["void DCT0::setup(","#pragma omp parallel for"])],
  num("d",[(A2,65538,"FWD0",4),(S2,70002,"INV",2),(A2,100,"FWD",1)]))
S("C08-bluestein","C08","a Bluestein call; whether it shows depends on what the work area held: infinities or NaN spoil everything",
  "one element of the second work array is no longer cleared before the convolution",
  [(A,'''            for (int p = 1; p < L; p++) a[p] = b[p] = 0;
            for (int p = 1; p < N; p++) {''','''            for (int p = N; p < L; p++) a[p] = 0;
            for (int p = N; p < L-N; p++) b[p] = 0;
            for (int p = 1; p < N; p++) {''',"void Bluestein::invn(")],
  GUARD.replace("memset(b, 0x55, n);","memset(b, fill, n);").replace("static int damaged","static int fill = 0;\nstatic int damaged")+'''int main()
{
    for (int n : { 3, 10, 100, 1001 }) {
        std::vector<complex_t> first;
        for (int f : { 0x00, 0x7f, 0xff }) {
            fill = f;
            auto p = OTFFT::Factory::createBluesteinFFT(n);
            std::vector<complex_t> x(n);
            Rnd r(n);
            for (auto& v : x) v = complex_t(r.uni(), r.uni());
            p->invn(x.data());
            if (first.empty()) first = x;
            expect(memcmp(first.data(), x.data(), n * sizeof(complex_t)) == 0, "the result depends on what the memory held");
            p.reset();
        }
    }
    return verdict();
}
''')
S("C09-aligned-store","C09","a real output array at an address that is no multiple of 16",
  "the inverse real transform stores pairs of samples with a streaming store, which needs an aligned address",
  [(A,'''            fft.inv0(z, x);
            for (int p = 0; p < Nh; p++) setpz(y+2*p, getpz(z[p]));''','''            fft.inv0(z, x);
            for (int p = 0; p < Nh; p++) _mm_stream_pd(y+2*p, getpz(z[p]));''',"void RFFT::invu(")],
  '''#include "t.hpp"
int main()
{
    for (int n : { 6, 64, 1000 }) for (int off = 0; off < 4; off++) {
        auto p = OTFFT::Factory::createRealFFT(n);
        void* m = 0;
        if (posix_memalign(&m, 64, n * 8 + 64)) return 3;
        double* y = (double*)m + off;
        std::vector<complex_t> x(n, complex_t(1, 0));
        p->invu(x.data(), y);
        expect(fabs(y[0] - sqrt(double(n))) < 1e-9 && fabs(y[1]) < 1e-9, "wrong result");
        free(m);
    }
    return verdict();
}
''')
S("C09-peel","C09","a real input array at an address that is no multiple of 16, and a length that is a multiple of 4",
  "a loop that reads two pairs at a time where the address allows it multiplies by the scale first on that path only, so the results differ in the last bit",
  [(A,'''        for (int p = 0; p < Nh; p++) setpz(z[p], getpz(x + 2*p));
        fft.fwd0(z, y);
        y[0] = (z[0].Re + z[0].Im) / sN;
        z[0] = (z[0].Re - z[0].Im) / sN;''','''        for (int p = 0; p < Nh; p++) setpz(z[p], getpz(x + 2*p));
        fft.fwd0(z, y);
        if (reinterpret_cast<uintptr_t>(&x[0]) & 8) {
            y[0] = (z[0].Re + z[0].Im) * (1.0/sN);
            z[0] = (z[0].Re - z[0].Im) * (1.0/sN);
        }
        else {
            y[0] = (z[0].Re + z[0].Im) / sN;
            z[0] = (z[0].Re - z[0].Im) / sN;
        }''')],
  '''#include "t.hpp"
int main()
{
    for (int n : { 6, 64, 1000, 4096 }) for (int t = 0; t < 20; t++) {
        auto p = OTFFT::Factory::createRealFFT(n);
        std::vector<double> buf(n + 8);
        double* base = (double*)((uintptr_t(buf.data()) + 63) / 64 * 64 - 64);
        std::vector<complex_t> first, y(n);
        for (int off = 0; off < 2; off++) {
            std::vector<double> m(n + 3);
            double* x = m.data() + (uintptr_t(m.data()) / 8 + off) % 2;
            Rnd r(n + t);
            for (int i = 0; i < n; i++) x[i] = r.uni();
            p->fwdu(x, y.data());
            if (first.empty()) first = y;
            expect(memcmp(first.data(), y.data(), n * sizeof(complex_t)) == 0, "the result depends on the address");
        }
    }
    return verdict();
}
''')
RACE='''#include "t.hpp"
// Repeats a call with many threads and compares with one thread.
template<class F> static void repeat(const char* what, int n, F f)
{
    omp_set_num_threads(1);
    const std::vector<double> ref = f();
    for (int threads : { 2, 3, 8, 16, 31 }) for (int t = 0; t < 60; t++) {
        omp_set_num_threads(threads);
        const std::vector<double> got = f();
        if (memcmp(got.data(), ref.data(), ref.size() * sizeof(double))) {
            printf("%s n=%d: the result differs with %d threads\\n", what, n, threads);
            failures++;
            return;
        }
    }
}
'''
S("C10-nowait-mirror","C10","fwd0 of a real transform of at least 32768 elements with two or more threads and an unlucky schedule",
  "the barrier between computing and mirroring the bins is gone: a thread mirrors bins that others have not written",
  [(A,"#pragma omp for schedule(static)\n            for (int k = 1; k <= Nq; k++) {","#pragma omp for schedule(static) nowait\n            for (int k = 1; k <= Nq; k++) {",["void RFFT::fwd0(","#pragma omp parallel"])],
  RACE+'''int main()
{
    for (int n : { 32768, 65536, 40000 }) {
        auto p = OTFFT::Factory::createRealFFT(n);
        std::vector<double> x(n);
        Rnd r(n);
        for (auto& v : x) v = r.uni();
        repeat("fwd0", n, [&] { std::vector<double> y(2 * n); p->fwd0(x.data(), (complex_t*)y.data()); return y; });
    }
    return verdict();
}
''')
S("C10-nowait-anyp","C10","a length of at least 32768 with several prime factors above 5, two or more threads and an unlucky schedule",
  "the barrier after a generic radix stage is gone: the next stage starts on data that other threads have not written",
  [(MX,"#pragma omp for schedule(static)\n            for (int h = 0; h < ms; h++) {","#pragma omp for schedule(static) nowait\n            for (int h = 0; h < ms; h++) {","void invfftanyp(")],
  RACE+'''int main()
{
    for (int n : { 2*7*11*13*17, 2*11*13*127 }) {
        auto p = OTFFT::Factory::createComplexFFT(n);
        std::vector<complex_t> x(n);
        Rnd r(n);
        for (auto& v : x) v = complex_t(r.uni(), r.uni());
        repeat("inv", n, [&] { std::vector<double> y(2 * n); memcpy(y.data(), x.data(), n * 16); p->inv((complex_t*)y.data()); return y; });
    }
    return verdict();
}
''')
S("C10-chunks","C10","a cosine transform of at least 32768 elements with a number of threads that does not divide half the length",
  "a loop split by hand over the threads drops the remainder when the length is no multiple of the number of threads",
  [(A,'''            #pragma omp parallel for schedule(static)
            for (int p = 0; p < Nh; p++) {
                x[2*p+0] = y[p];
                x[2*p+1] = y[N-p-1];
            }''','''            #pragma omp parallel
            {
                const int part = Nh / omp_get_num_threads();
                const int from = part * omp_get_thread_num();
                for (int p = from; p < from + part; p++) {
                    x[2*p+0] = y[p];
                    x[2*p+1] = y[N-p-1];
                }
            }''',"void DCT0::inv("),
   (A,"#include <cassert>\n","#include <cassert>\n#include <omp.h>\n")],
  RACE+'''int main()
{
    for (int n : { 32768, 65536 }) {
        auto p = OTFFT::Factory::createDCT(n);
        std::vector<double> x(n);
        Rnd r(n);
        for (auto& v : x) v = r.uni();
        repeat("inv", n, [&] { std::vector<double> y = x; p->inv(y.data()); return y; });
    }
    return verdict();
}
''')
S("C11-static-table","C11","two threads that set up objects of different lengths at the same time",
  "the angle step lives in a static variable shared by all objects",
  [(MI,"                const double theta0 = 2*M_PI/n;\n                N = n;","                static double theta0;\n                theta0 = 2*M_PI/n;\n                N = n;")],
  '''#include "t.hpp"
#include <thread>
static void work(int n, int* bad)
{
    std::vector<complex_t> ref;
    for (int t = 0; t < 400; t++) {
        auto p = OTFFT::Factory::createComplexFFT(n);
        std::vector<complex_t> x(n);
        Rnd r(n);
        for (auto& v : x) v = complex_t(r.uni(), r.uni());
        double e = complex_error(p, n, FWD, 1, n);
        if (!(e < 1e-9)) ++*bad;
    }
}
int main()
{
    int bad[4] = { 0, 0, 0, 0 };
    for (int round = 0; round < 5; round++) {
        std::vector<std::thread> ts;
        const int n[4] = { 1002, 3000, 510, 6006 };
        for (int i = 0; i < 4; i++) ts.emplace_back(work, n[i], &bad[i]);
        for (auto& t : ts) t.join();
    }
    expect(bad[0] + bad[1] + bad[2] + bad[3] == 0, "threads with objects of their own disturb each other");
    return verdict();
}
''')
S("C11-static-scale","C11","two threads that call fwdu of their own mixed radix objects of different lengths at the same time",
  "the scale factor of fwdu lives in a static variable",
  [(MI,'''                const double ssrN = sqrt(1.0/N);
                const xmm srN = cmplx(ssrN, ssrN);
                if (N < OMP_THRESHOLD) {
                    fwdfft(N, 1, 0, x, y, W);''','''                static xmm srN;
                srN = cmplx(sqrt(1.0/N), sqrt(1.0/N));
                if (N < OMP_THRESHOLD) {
                    fwdfft(N, 1, 0, x, y, W);''')],
  '''#include "t.hpp"
#include <thread>
static void work(int n, int* bad)
{
    auto p = OTFFT::Factory::createComplexFFT(n);
    std::vector<complex_t> x(n), y, ref;
    Rnd r(n);
    for (auto& v : x) v = complex_t(r.uni(), r.uni());
    double energy = 0;
    for (auto& v : x) energy += norm(v);
    for (int t = 0; t < 4000; t++) {
        y = x;
        p->fwdu(y.data());
        double e = 0;
        for (auto& v : y) e += norm(v);
        if (!(fabs(e - energy) < 1e-9 * energy)) ++*bad;
    }
}
int main()
{
    int bad[4] = { 0, 0, 0, 0 };
    std::vector<std::thread> ts;
    const int n[4] = { 1002, 3000, 510, 6006 };
    for (int i = 0; i < 4; i++) ts.emplace_back(work, n[i], &bad[i]);
    for (auto& t : ts) t.join();
    expect(bad[0] + bad[1] + bad[2] + bad[3] == 0, "threads with objects of their own disturb each other");
    return verdict();
}
''')
S("C12-scratch","C12","two threads that call fwd and fwdu of one real transform at the same time",
  "the scale factor is parked in a table entry of the object that no call needs",
  [(A,"        const xmm rN = cmplx(1.0/N, 1.0/N);\n        const int Nh = N/2;","        U[N] = complex_t(1.0/N, 1.0/N);\n        const int Nh = N/2;","void RFFT::fwd("),
   (A,"        fft.fwd0(z, y);\n        y[0] = (z[0].Re + z[0].Im) / N;","        fft.fwd0(z, y);\n        const xmm rN = getpz(U[N]);\n        y[0] = (z[0].Re + z[0].Im) / N;"),
   (A,"        const xmm rsN = cmplx(1.0/sN, 1.0/sN);\n        const int Nh = N/2;","        U[N] = complex_t(1.0/sN, 1.0/sN);\n        const int Nh = N/2;"),
   (A,"        fft.fwd0(z, y);\n        y[0] = (z[0].Re + z[0].Im) / sN;","        fft.fwd0(z, y);\n        const xmm rsN = getpz(U[N]);\n        y[0] = (z[0].Re + z[0].Im) / sN;")],
  '''#include "t.hpp"
#include <thread>
static void work(OTFFT::RealFFTPtr& p, int n, int mode, int* bad)
{
    std::vector<double> x(n);
    std::vector<complex_t> y(n);
    Rnd r(mode + 1);
    double energy = 0;
    for (auto& v : x) { v = r.uni(); energy += v * v; }
    energy *= mode == FWD ? 1.0 / n : 1.0;
    for (int t = 0; t < 3000; t++) {
        callf(p, mode, x.data(), y.data());
        double e = 0;
        for (auto& v : y) e += norm(v);
        if (!(fabs(e - energy) < 1e-9 * energy)) ++*bad;
    }
}
int main()
{
    int bad[4] = { 0, 0, 0, 0 };
    const int n = 4096;
    auto p = OTFFT::Factory::createRealFFT(n);
    std::vector<std::thread> ts;
    for (int i = 0; i < 4; i++) ts.emplace_back(work, std::ref(p), n, i % 2 ? FWD : FWDU, &bad[i]);
    for (auto& t : ts) t.join();
    expect(bad[0] + bad[1] + bad[2] + bad[3] == 0, "threads sharing a real transform disturb each other");
    return verdict();
}
''')
S("C13-same-log","C13","setting an object up again for a different length when neither is a power of two",
  "setup keeps the kernel when the class of the length is unchanged, also where the class stands for all lengths that are no power of two",
  [(A,'''        obj.reset();
        for (N = n, log_N = 0; n > 1; n >>= 1) log_N++;
        if (N != (1 << log_N)) log_N = -1;''','''        const int old_log_N = obj ? log_N : 0;
        for (N = n, log_N = 0; n > 1; n >>= 1) log_N++;
        if (N != (1 << log_N)) log_N = -1;
        if (obj && log_N == old_log_N) return;
        obj.reset();''')],
  '''#include "t.hpp"
int main()
{
    auto p = OTFFT::Factory::createComplexFFT(60);
    for (int n : { 60, 30, 64, 64, 12, 1000 }) {
        p->setup(n);
        expect_small(complex_error(p, n, FWD, 12, n), "after setup", n, FWD);
    }
    return verdict();
}
''')
S("C13-bluestein-keep","C13","shrinking a Bluestein object to a length with the same inner length",
  "setup keeps the chirp table when the inner length is unchanged and the table is large enough",
  [(A,'''        N = n;
        const int N2 = 2*N;
        for (L = 1; L < N2 - 1; L *= 2);''','''        const int old_N = N, old_L = L;
        N = n;
        const int N2 = 2*N;
        for (L = 1; L < N2 - 1; L *= 2);
        if (W && L == old_L && N <= old_N && old_N - N < 2) { if (N == old_N) return; }''')],
  "")
SEEDS.pop()
S("C13-bluestein-keep","C13","shrinking a Bluestein object to a length with the same inner length",
  "setup computes the chirp table only when the inner length changes",
  [(A,'''        N = n;
        const int N2 = 2*N;
        for (L = 1; L < N2 - 1; L *= 2);
        fft.setup(L);''','''        const int old_N = N, old_L = L;
        N = n;
        const int N2 = 2*N;
        for (L = 1; L < N2 - 1; L *= 2);
        if (L == old_L && N <= old_N) return;
        fft.setup(L);''')],
  '''#include "t.hpp"
int main()
{
    auto p = OTFFT::Factory::createBluesteinFFT(100);
    for (int n : { 100, 80, 128, 127, 128, 50 }) {
        p->setup(n);
        expect_small(complex_error(p, n, FWD, 12, n), "after setup", n, FWD);
    }
    return verdict();
}
''')
S("C14-stale","C14","a call of a Bluestein object after one whose data contained NaN, infinities or huge values",
  "the work arrays are cleared by multiplying with zero",
  [(A,'''            for (int p = 1; p < L; p++) a[p] = b[p] = 0;
            for (int p = 1; p < N; p++) {''','''            for (int p = 1; p < N; p++) a[p] = b[p] = 0;
            for (int p = N; p < L; p++) { a[p] *= used ? 0.0 : 1.0; if (!used) a[p] = 0; b[p] = 0; }
            used = true;
            for (int p = 1; p < N; p++) {''',"void Bluestein::fwd0(")],"")
SEEDS.pop()
S("C14-stale","C14","a fwd0 call of a Bluestein object after another call (or one with NaN data); the difference is in the last bits",
  "one element of the second work array keeps what the previous call left there",
  [(A,'''            for (int p = 1; p < L; p++) a[p] = b[p] = 0;
            for (int p = 1; p < N; p++) {''','''            for (int p = N; p < L; p++) a[p] = 0;
            for (int p = N; p < L-N; p++) b[p] = 0;
            for (int p = 1; p < N; p++) {''',"void Bluestein::fwd0(")],
  '''#include "t.hpp"
int main()
{
    for (int n : { 5, 11, 50, 100, 1000 }) {
        auto p = OTFFT::Factory::createBluesteinFFT(n);
        std::vector<complex_t> x(n), y, first;
        Rnd r(n);
        for (auto& v : x) v = complex_t(r.uni(), r.uni());
        for (int t = 0; t < 12; t++) {
            y = x;
            p->fwd0(y.data());
            if (first.empty()) first = y;
            expect(memcmp(first.data(), y.data(), n * sizeof(complex_t)) == 0, "the same call gave a different result");
            std::vector<complex_t> z(n, complex_t(t % 3 ? NAN : 1e300, 1));
            if (t % 2) p->inv(z.data());
        }
    }
    return verdict();
}
''')
S("C14-table","C14","an invn call of a real transform of even quarter length followed by any other inverse call",
  "the first table entry is used as scratch and restored only approximately",
  [(A,'''        const int Nh = N/2;
        complex_vector z = x + Nh;
        if (N < OMP_THRESHOLD) {
            for (int k = 0; k < Nh; k++) {''','''        const int Nh = N/2;
        complex_vector z = x + Nh;
        if (x[0].Re != x[0].Re) U[0] = 0;
        if (N < OMP_THRESHOLD) {
            for (int k = 0; k < Nh; k++) {''',"void RFFT::invn(")],
  '''#include "t.hpp"
int main()
{
    for (int n : { 8, 100, 1024 }) {
        auto p = OTFFT::Factory::createRealFFT(n);
        expect_small(real_inv_error(p, n, INV, 8, n), "before", n, INV);
        std::vector<complex_t> x(n, complex_t(NAN, NAN));
        std::vector<double> y(n);
        p->invn(x.data(), y.data());
        expect_small(real_inv_error(p, n, INV, 8, n), "after a call with NaN", n, INV);
    }
    return verdict();
}
''')
FAIL='''#include "t.hpp"
#include <cerrno>
#include <malloc.h>
#include <new>
// Aligned allocations can be made to fail; blocks in use are counted.
static int fail_at = -1, live = 0, requests = 0;
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);
static void* mine[4096];
extern "C" int posix_memalign(void** p, size_t a, size_t n) noexcept
{
    if (requests++ == fail_at) return ENOMEM;
    *p = __libc_memalign(a, n);
    if (!*p) return ENOMEM;
    for (auto& m : mine) if (!m) { m = *p; live++; break; }
    return 0;
}
extern "C" void free(void* p) noexcept
{
    if (p) for (auto& m : mine) if (m == p) { m = 0; live--; break; }
    __libc_free(p);
}
'''
S("C16-same-length","C16","setup of a real transform fails for lack of memory and is then repeated with the same length",
  "setup returns early when the length is unchanged, although the earlier setup did not finish",
  [(A,'''        int log_N;
        N = n;
        for (log_N = 0; n > 1; n >>= 1) log_N++;
        fft.setup(N/2);''','''        int log_N;
        if (n == N) return;
        N = n;
        for (log_N = 0; n > 1; n >>= 1) log_N++;
        fft.setup(N/2);''')],
  FAIL+'''int main()
{
    for (int n : { 12, 64, 1000 }) for (int k = 0; k < 8; k++) {
        auto p = OTFFT::Factory::createRealFFT(0);
        bool thrown = false;
        requests = 0;
        fail_at = k;
        try { p->setup(n); } catch (const std::bad_alloc&) { thrown = true; }
        fail_at = -1;
        if (!thrown) break;
        p->setup(n);
        expect_small(real_fwd_error(p, n, FWD0, 8, n), "after a failed and a repeated setup", n, FWD0);
    }
    return verdict();
}
''')
S("C16-swallow","C16","an allocation inside the inner transform fails",
  "the exception of a failed allocation is swallowed: the object silently computes nothing",
  [(A,'''            obj.reset();
            throw;''','''            obj.reset();
            if (log_N < 0) throw;''')],
  FAIL+'''int main()
{
    for (int n : { 8, 64, 1000, 4096 }) for (int k = 0; k < 8; k++) {
        bool thrown = false;
        requests = 0;
        fail_at = k;
        try { auto p = OTFFT::Factory::createComplexFFT(n); } catch (const std::bad_alloc&) { thrown = true; }
        const bool hit = requests > k;
        fail_at = -1;
        expect(thrown == hit, "a failed allocation was not reported as bad_alloc");
    }
    return verdict();
}
''')
S("C16-leak","C16","an allocation fails while a cosine transform is created",
  "the factory creates the object first and sets it up afterwards: the object is lost when setup throws",
  [(A,"            return new DCT(n);","            DCT* const dct = new DCT();\n            dct->setup(n);\n            return dct;")],
  FAIL+'''#include <malloc.h>
static long in_use() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
int main()
{
    for (int n : { 8, 1000 }) for (int k = 0; k < 6; k++) {
        long before = 0, after = 0;
        for (int t = 0; t < 40; t++) {
            if (t == 20) before = in_use();
            requests = 0;
            fail_at = k;
            try { auto p = OTFFT::Factory::createDCT(n); } catch (const std::bad_alloc&) {}
            fail_at = -1;
        }
        after = in_use();
        expect(after - before < 64, "a failed creation leaks");
    }
    return verdict();
}
''')
S("C17-ftz","C17","subnormal inputs or intermediate results in a real transform",
  "subnormal numbers are flushed to zero during the forward call (the caller's settings are restored)",
  [(A,'''        for (int p = 0; p < Nh; p++) setpz(z[p], getpz(x + 2*p));
        fft.fwd0(z, y);
        y[0] = z[0].Re + z[0].Im;''','''        for (int p = 0; p < Nh; p++) setpz(z[p], getpz(x + 2*p));
        const unsigned csr = _mm_getcsr();
        _mm_setcsr(csr | 0x8040);
        fft.fwd0(z, y);
        _mm_setcsr(csr);
        y[0] = z[0].Re + z[0].Im;''')],
  '''#include "t.hpp"
int main()
{
    for (int n : { 8, 100, 4096 }) {
        auto p = OTFFT::Factory::createRealFFT(n);
        std::vector<double> x(n, 1e-310);
        std::vector<complex_t> y(n);
        p->fwd0(x.data(), y.data());
        expect(fabs(y[0].Re - n * 1e-310) < 1e-3 * n * 1e-310, "subnormal inputs are flushed");
    }
    return verdict();
}
''')
S("C17-norm","C17","inputs smaller than about 1e-162 in a Bluestein transform of at least 32768 elements",
  "a shortcut for zero samples tests the squared magnitude, which underflows for small values",
  [(A,"                a[p] = x[p]*W[pp];","                a[p] = norm(x[p]) == 0 ? complex_t(0) : x[p]*W[pp];",["void Bluestein::fwd(","#pragma omp parallel"])],
  '''#include "t.hpp"
int main()
{
    for (int n : { 100, 32768, 40001 }) {
        auto p = OTFFT::Factory::createBluesteinFFT(n);
        std::vector<complex_t> x(n), y;
        Rnd r(n);
        for (auto& v : x) v = complex_t(r.uni(), r.uni());
        y = x;
        const double s = ldexp(1.0, -600);
        for (auto& v : y) v = v * s;
        p->fwd(x.data());
        p->fwd(y.data());
        double e = 0;
        for (int i = 0; i < n; i++) e = std::max(e, abs(y[i] / s - x[i]) * sqrt(double(n)));
        expect(e < 1e-9, "small inputs lose accuracy");
    }
    return verdict();
}
''')
CLI='''#!/bin/bash
# Exit 0 when the header behaves, nonzero when it does not. Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'find "$T" -delete' EXIT
for o in -O0 -O1 -O2 -O3; do
    for c in g++ clang++; do
        $c -std=c++14 $o FLAGS -w -I/repo/inc "$D/demo.cpp" -o "$T/demo" || exit 2
        timeout 60 "$T/demo" || { echo "wrong with $c $o"; exit 1; }
    done
done
'''.replace(" FLAGS","")
S("C18-mul-alias","C18","multiplying an object by itself in place",
  "in-place multiplication computes with the real part it has just overwritten when the operand is the object itself",
  [(CX,'''        const double tmp = Re*z.Re - Im*z.Im;
        Im = Re*z.Im + Im*z.Re;
        Re = tmp;''','''        const double re = Re;
        Re = re*z.Re - Im*z.Im;
        Im = Im*z.Re + re*z.Im;''')],
  '''#include "otfft_complex.h"
#include <cstdio>
using namespace OTFFT;
int main()
{
    volatile double a = 3, b = -2;
    complex_t z(a, b), w(a, b), v(1, 2);
    z *= z;
    w *= v;
    const bool ok = z.Re == 5 && z.Im == -12 && w.Re == 7 && w.Im == 4;
    if (!ok) printf("z*z = (%g, %g), w*v = (%g, %g)\\n", z.Re, z.Im, w.Re, w.Im);
    return ok ? 0 : 1;
}
''', CLI)
S("C18-const","C18","a caller that changes an object between two evaluations, compiled with optimisation",
  "the functions are declared to depend on nothing but the pointer they are given, so compilers reuse results computed before the object changed",
  [(CX,"#define force_inline  __attribute__((always_inline))\n","#define force_inline  __attribute__((const,always_inline))\n")],
  '''#include "otfft_complex.h"
#include <cstdio>
using namespace OTFFT;
template<class T> __attribute__((noinline)) void change(T& z) { z.Re += 1; z.Im -= 2; asm volatile("" : : "r"(&z) : "memory"); }
int main()
{
    int bad = 0;
    complex_t z(3, 4);
    for (int i = 0; i < 5; i++) {
        const double re = 3 + i, im = 4 - 2 * i;
        if (norm(z) != re * re + im * im) bad++;
        const complex_t c = conj(z), j = jx(z);
        if (c.Re != re || c.Im != -im || j.Re != -im || j.Im != re) bad++;
        change(z);
        if (norm(z) != (re + 1) * (re + 1) + (im - 2) * (im - 2)) bad++;
        const complex_t s = z + z;
        if (s.Re != 2 * (re + 1)) bad++;
    }
    if (bad) printf("%d wrong\\n", bad);
    return bad ? 1 : 0;
}
''', CLI)
SEEDS.pop()
S("C18-arg","C18","the argument of a number with a negative real part, or with real part zero",
  "the argument is computed without regard to the quadrant for numbers far from the imaginary axis",
  [(CX,"    return atan2(z.Im, z.Re);","    if (z.Re < -4*fabs(z.Im)) return z.Im < 0 ? atan(z.Im/z.Re) - M_PI : atan(z.Im/z.Re) + M_PI;\n    return atan2(z.Im, z.Re);")],
  '''#include <cmath>
#include "otfft_complex.h"
#include <cstdio>
using namespace OTFFT;
int main()
{
    int bad = 0;
    const double v[] = { -10, -1, -0.1, -0.0, 0.0, 0.1, 1, 10 };
    for (double a : v) for (double b : v) {
        const double g = arg(complex_t(a, b)), w = std::atan2(b, a);
        if (std::fabs(g - w) > 1e-14) { printf("arg(%g, %g) = %g, expected %g\\n", a, b, g, w); bad++; }
    }
    return bad ? 1 : 0;
}
''', CLI)
S("C18-div","C18","dividing by a number whose parts differ by many orders of magnitude",
  "complex division divides by the larger part first and drops the smaller one when it looks negligible, which loses the imaginary part of the quotient",
  [(CX,'''    const double b2 = b.Re*b.Re + b.Im*b.Im;
    return (a * conj(b)) / b2;''','''    if (fabs(b.Im) < 1e-9*fabs(b.Re)) return a / b.Re;
    const double b2 = b.Re*b.Re + b.Im*b.Im;
    return (a * conj(b)) / b2;''')],
  '''#include <cmath>
#include "otfft_complex.h"
#include <cstdio>
using namespace OTFFT;
int main()
{
    volatile double re = 2, im = 1e-10, x = 1;
    const complex_t q = complex_t(x, 0) / complex_t(re, im);
    const complex_t r = complex_t(x, 3) / complex_t(1, 2);
    const bool ok = std::fabs(q.Im + 2.5e-11) < 1e-25 && std::fabs(q.Re - 0.5) < 1e-15 && std::fabs(r.Re - 1.4) < 1e-14 && std::fabs(r.Im - 0.2) < 1e-14;
    if (!ok) printf("(%g, %g) (%g, %g)\\n", q.Re, q.Im, r.Re, r.Im);
    return ok ? 0 : 1;
}
''', CLI)
ARR='''#!/bin/bash
# Exit 0 when the header behaves, nonzero when it does not. Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'find "$T" -delete' EXIT
for f in "" "-mavx"; do
    g++ -std=c++14 -O1 -g $f -fsanitize=address -w -I/repo/inc "$D/demo.cpp" -o "$T/demo" || exit 2
    ASAN_OPTIONS=detect_leaks=1:allocator_may_return_null=1 timeout 60 "$T/demo" || { echo "wrong with $f"; exit 1; }
done
'''
S("C19-stale-pointer","C19","setting an array up again when memory runs out, and destroying it afterwards",
  "the array forgets to clear its pointer when it is destroyed",
  [(CX,"    void destroy() { if (p) simd_free(p); p = 0; }","    void destroy() { if (p) simd_free(p); if (sizeof(T) < 2*sizeof(double)) p = 0; }")],
  '''#include "otfft_complex.h"
#include <cstdio>
using namespace OTFFT;
int main()
{
    simd_array<double> d(5);
    d.destroy();
    simd_array<complex_t> a(5);
    a[4] = 1;
    a.destroy();
    if (&a != 0) { printf("address kept after destroy\\n"); return 1; }
    a.setup(7);
    a[6] = 2;
    return 0;
}
''', ARR)
S("C19-size","C19","element types whose size is no multiple of 4",
  "the number of bytes is rounded down to whole words",
  [(CX,"        p = (T*) simd_malloc(n*sizeof(T));\n        if (p == 0) throw","        p = (T*) simd_malloc(n*sizeof(T)/4*4);\n        if (p == 0) throw")],
  '''#include "otfft_complex.h"
#include <cstdio>
using namespace OTFFT;
struct index_t { short col, row; };
int main()
{
    simd_array<complex_t> a;
    a.setup(3);
    for (int i = 0; i < 3; i++) a[i] = i;
    simd_array<short> s;
    s.setup(33);
    for (int i = 0; i < 33; i++) s[i] = i;
    simd_array<char> c;
    c.setup(65);
    for (int i = 0; i < 65; i++) c[i] = i;
    return 0;
}
''', ARR)
S("C20-threads","C20","a transform of at least 32768 elements called with a thread limit above 8",
  "setup caps the caller's number of OpenMP threads",
  [(A,"        N = n;\n        rfft.setup(N);","        N = n;\n        if (N >= OMP_THRESHOLD && omp_get_max_threads() > 8) omp_set_num_threads(8);\n        rfft.setup(N);"),
   (A,"#include <cassert>\n","#include <cassert>\n#include <omp.h>\n")],
  '''#include "t.hpp"
int main()
{
    for (int n : { 100, 32768, 70000 }) for (int t : { 1, 4, 12, 33 }) {
        omp_set_num_threads(t);
        auto p = OTFFT::Factory::createDCT(n);
        std::vector<double> x(n, 1.0);
        p->fwd(x.data());
        expect(omp_get_max_threads() == t, "the number of threads was changed");
    }
    return verdict();
}
''')
S("C20-ftz-workers","C20","a mixed radix transform of at least 32768 elements with several threads; only the helper threads are affected",
  "flush-to-zero is switched on inside the parallel region and never switched off in the threads of the team",
  [(MI,'''                    #pragma omp parallel
                    fwdfftp(N, 1, 0, x, y, W);
                }
            }

            inline void fwdu''','''                    const unsigned csr = _mm_getcsr();
                    #pragma omp parallel
                    {
                        _mm_setcsr(csr | 0x8000);
                        fwdfftp(N, 1, 0, x, y, W);
                    }
                    _mm_setcsr(csr);
                }
            }

            inline void fwdu''')],
  '''#include "t.hpp"
#include <xmmintrin.h>
static int flags()
{
    int any = 0;
    #pragma omp parallel reduction(|:any)
    any |= _mm_getcsr() & 0x8040;
    return any;
}
int main()
{
    omp_set_num_threads(4);
    for (int n : { 1000, 40000 }) {
        expect(flags() == 0, "before");
        auto p = OTFFT::Factory::createComplexFFT(n);
        std::vector<complex_t> x(n, complex_t(1, 0));
        p->fwd0(x.data());
        expect(flags() == 0, "flush-to-zero stays on in the threads");
    }
    return verdict();
}
''')
S("C20-rounding","C20","a caller with a rounding mode other than to-nearest",
  "setup switches to rounding to nearest and leaves it like that",
  [(MI,"                N = n;\n                weight.setup(n+1); W = &weight;","                N = n;\n                _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);\n                weight.setup(n+1); W = &weight;")],
  '''#include "t.hpp"
#include <cfenv>
int main()
{
    for (int rm : { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO }) for (int n : { 8, 12, 100 }) {
        fesetround(rm);
        unsigned before = __builtin_ia32_stmxcsr() & 0x6000;
        auto p = OTFFT::Factory::createComplexFFT(n);
        unsigned after = __builtin_ia32_stmxcsr() & 0x6000;
        fesetround(FE_TONEAREST);
        expect(before == after, "the rounding mode was changed");
    }
    return verdict();
}
''')
S("C01-anyp-inv","C01","an inverse call at a length of at least 32768 with a factor 5 and a further odd factor",
  "one twiddle power of the parallel radix-5 stage of the inverse is wrong",
  [(MX,"const cpx w4p = mulpz(w2p,w2p);","const cpx w4p = mulpz(w1p,w2p);","void invcore5p(")],
  num("c",[(A2,2*5*3*3*7*11*13,"INV",4),(S2,8*5*5*3*3*3*9,"INVN",4)]))
S("C01-eightstep-inv","C01","invu of a complex transform of exactly 2^21 elements",
  "invu at one length selects the kernel scaled by the length instead of its square root",
  [("src/otfft_algo_sixstep.cpp","case 21: invfftr<21,mode>()","case 21: invfftr<21,scale_length>()","constexpr int mode = scale_unitary;\n            switch (log_N) {\n            case  0: break;\n            case  1: OTFFT_FourStep::invfft")],
  num("c",[(A2,1<<19,"INVU",4),(A2,1<<21,"INVU",4),(S2,1<<21,"INVU",4)]).replace(", 24,",", 6,"))
S("C05-length","C05","a Bluestein transform of even length of at least 65536",
  "the parallel setup of the chirp uses a symmetry and leaves out the element in the middle of an even length",
  [(A,'''        #pragma omp parallel for schedule(static)
        for (int p = 1; p < N; p++) {
            const double theta = p * theta0;
            const double c =  cos(theta);
            const double s = -sin(theta);
            W[p]    = complex_t(c,  s);
            W[N2-p] = complex_t(c, -s);''','''        #pragma omp parallel for schedule(static)
        for (int p = 1; p < (N+1)/2; p++) {
            const double theta = p * theta0;
            const double c =  cos(theta);
            const double s = -sin(theta);
            W[p]    = complex_t(c,  s);
            W[N2-p] = complex_t(c, -s);
            W[N-p]  = complex_t(-c, s);
            W[N+p]  = complex_t(-c, -s);''',"void Bluestein::setup(")],
  num("b",[(A2,65536,"FWD0",4),(A2,65538,"INV",4),(S2,70001,"FWD",2),(A2,70002,"FWD",4)]))

S("C10-nowait-mirror","C10","fwdu of a real transform of at least 32768 elements with two or more threads and an unlucky schedule",
  "the barrier between computing and mirroring the bins is gone: a thread mirrors bins that others have not written, over elements others still read",
  [(A,"#pragma omp for schedule(static)\n            for (int k = 1; k <= Nq; k++) {","#pragma omp for schedule(static) nowait\n            for (int k = 1; k <= Nq; k++) {",["void RFFT::fwdu(","#pragma omp parallel"])],
  RACE+"""int main()
{
    for (int n : { 32768, 65536, 40000 }) {
        auto p = OTFFT::Factory::createRealFFT(n);
        std::vector<double> x(n);
        Rnd r(n);
        for (auto& v : x) v = r.uni();
        repeat("fwdu", n, [&] { std::vector<double> y(2 * n); p->fwdu(x.data(), (complex_t*)y.data()); return y; });
    }
    return verdict();
}
""")
S("C10-nowait-anyp","C10","invu of a Bluestein transform of at least 32768 elements, two or more threads and an unlucky schedule",
  "the barrier after clearing the work arrays is gone: a thread clears elements that others have already filled",
  [(A,"#pragma omp for schedule(static)\n            for (int p = 1; p < L; p++) a[p] = b[p] = 0;","#pragma omp for schedule(static) nowait\n            for (int p = 1; p < L; p++) a[p] = b[p] = 0;",["void Bluestein::invu(","#pragma omp parallel"])],
  RACE+"""int main()
{
    for (int n : { 40001, 32768, 65537 }) {
        auto p = OTFFT::Factory::createBluesteinFFT(n);
        std::vector<complex_t> x(n);
        Rnd r(n);
        for (auto& v : x) v = complex_t(r.uni(), r.uni());
        repeat("invu", n, [&] { std::vector<double> y(2 * n); memcpy(y.data(), x.data(), n * 16); p->invu((complex_t*)y.data()); return y; });
    }
    return verdict();
}
""")
S("C11-static-table","C11","two threads that set up real transforms at the same time, of lengths that are no powers of two",
  "setup fills its table through a line buffer that all objects share",
  [(A,"""        else if (N != (1 << log_N)) for (int p = 0; p <= Nh; p++) {
            const double theta = p * theta0;
            const double c =  cos(theta);
            const double s = -sin(theta);
            U[p]    = complex_t(1 - s,  c)/2;
            U[N-p]  = complex_t(1 + s,  c)/2;
        }
""","""        else if (N != (1 << log_N)) for (int p = 0; p <= Nh; p += 32) {
            static complex_t line[32];
            const int n = Nh - p < 31 ? Nh - p + 1 : 32;
            for (int i = 0; i < n; i++) {
                const double theta = (p + i) * theta0;
                line[i] = complex_t(cos(theta), -sin(theta));
            }
            for (int i = 0; i < n; i++) {
                U[p+i]   = complex_t(1 - line[i].Im,  line[i].Re)/2;
                U[N-p-i] = complex_t(1 + line[i].Im,  line[i].Re)/2;
            }
        }
""","void RFFT::setup(")],
  """#include "t.hpp"
#include <thread>
static std::vector<complex_t> run(int n)
{
    auto p = OTFFT::Factory::createRealFFT(n);
    std::vector<double> x(n);
    std::vector<complex_t> y(n);
    Rnd r(n);
    for (auto& v : x) v = r.uni();
    p->fwd0(x.data(), y.data());
    return y;
}
static void work(int n, const std::vector<complex_t>* ref, int* bad)
{
    for (int t = 0; t < 300; t++) {
        const auto y = run(n);
        if (memcmp(y.data(), ref->data(), n * sizeof(complex_t))) ++*bad;
    }
}
int main()
{
    const int n[4] = { 3002, 7000, 9510, 6006 };
    int bad[4] = { 0, 0, 0, 0 };
    std::vector<complex_t> ref[4];
    for (int i = 0; i < 4; i++) ref[i] = run(n[i]);
    for (int round = 0; round < 5; round++) {
        std::vector<std::thread> ts;
        for (int i = 0; i < 4; i++) ts.emplace_back(work, n[i], &ref[i], &bad[i]);
        for (auto& t : ts) t.join();
    }
    expect(bad[0] + bad[1] + bad[2] + bad[3] == 0, "threads with objects of their own disturb each other");
    return verdict();
}
""")

S("C18-arg","C18","the argument of a number close to, and just below, the negative real axis",
  "the argument of numbers close to the negative real axis is computed without regard to the sign of the imaginary part, so it comes out just above pi instead of just above -pi",
  [(CX,"    return atan2(z.Im, z.Re);","    if (z.Re < -1e3*fabs(z.Im)) return M_PI + atan(z.Im/z.Re);\n    return atan2(z.Im, z.Re);")],
  """#include <cmath>
#include "otfft_complex.h"
#include <cstdio>
using namespace OTFFT;
int main()
{
    int bad = 0;
    const double v[] = { -10, -1, -0.1, -1e-5, 1e-5, 0.1, 1, 10 };
    for (double a : v) for (double b : v) {
        const double g = arg(complex_t(a, b)), w = std::atan2(b, a);
        if (!(std::fabs(g - w) < 1e-14)) { printf("arg(%g, %g) = %g, expected %g\\n", a, b, g, w); bad++; }
    }
    return bad ? 1 : 0;
}
""", CLI)
S("C05-length","C05","a Bluestein transform of length 2^k + 2 (18, 34, 66, ...)",
  "the padded length is chosen slightly too small, so for a few lengths the cyclic convolution wraps around onto needed elements",
  [(A,"for (L = 1; L < N2 - 1; L *= 2);","for (L = 1; L < N2 - 4; L *= 2);")],
  num("b",[(A2,18,"FWD0",8),(A2,66,"INV",8),(S2,1026,"FWD",8),(A2,32770,"FWD",4)]))

S("C07-weight","C07","creating a cosine transform of at least 65536 elements whose half length is odd; the element written lies directly behind the block",
  "the weight table of the cosine transform is allocated one element too short and its last element is written behind the block",
  [(A,"weight.setup(N+1); V = &weight;","weight.setup(N < OMP_THRESHOLD_W || N % 4 == 0 ? N+1 : N); V = &weight;","void DCT0::setup(")],
  GUARD+"""int main()
{
    for (int n : { 4, 8, 12, 64, 4096, 65536, 65550, 70002 }) {
        auto p = OTFFT::Factory::createDCT(n);
        std::vector<double> x(n, 1.0);
        p->fwd(x.data());
        p->inv(x.data());
        inspect();
        if (damaged) printf("n=%d: ", n);
        expect(!damaged, "memory behind a block was written");
        damaged = 0;
        p.reset();
        forget();
    }
    return verdict();
}
""")
S("C19-stale-pointer","C19","setting an array up again when memory runs out, and destroying it afterwards",
  "setup keeps the pointer to the block it has released until the new one has arrived: after a failed setup the array owns a block that is gone",
  [(CX,"""        if (p) simd_free(p);
        p = (T*) simd_malloc(n*sizeof(T));
        if (p == 0) throw std::bad_alloc();""","""        if (p) simd_free(p);
        T* const q = (T*) simd_malloc(n*sizeof(T));
        if (q == 0) throw std::bad_alloc();
        p = q;""","void setup(int n)")],
  """#include <new>
#include <sys/resource.h>
#include "otfft_complex.h"
#include <cstdio>
using namespace OTFFT;
struct big_t { double v[1 << 12]; };
int main()
{
    simd_array<double> d(5);
    d.setup(9);
    d[8] = 1;
    simd_array<big_t> a(1);
    a[0].v[3] = 1;
    bool thrown = false;
    try { a.setup(0x7fffffff); } catch (const std::bad_alloc&) { thrown = true; } // 64 TB
    if (!thrown) { printf("64 TB were available?\\n"); return 0; }
    if (&a != 0) { printf("the array still points to a block it has released\\n"); return 1; }
    return 0;
}
""", ARR)
SEEDS.reverse(); _s={}
for s in SEEDS: _s.setdefault(s["id"], s)
SEEDS[:] = _s.values()

CPU = r'''#include "t.hpp"
#include <cstring>
#include <signal.h>
#include <stdexcept>
#include <ucontext.h>
#include <vector>
// The program runs one instruction at a time; CPUID and XGETBV are answered for another processor, and 256 bit
// instructions are counted.
extern "C" char __executable_start, etext;
struct Cpu { unsigned max, ecx1, edx1, ebx7; unsigned long long xcr0; };
static const Cpu* cpu;
static volatile int off;
static unsigned long long vex, asked;
static void trap(int, siginfo_t*, void* u)
{
    auto& g = ((ucontext_t*)u)->uc_mcontext.gregs;
    if (off) { g[REG_EFL] &= ~0x100LL; return; }
    g[REG_EFL] |= 0x100;
    for (;;) {
        const unsigned char* p = (const unsigned char*)g[REG_RIP];
        if ((char*)p < &__executable_start || (char*)p >= &etext) return;
        if (p[0] == 0x0F && p[1] == 0xA2) {
            asked++;
            const unsigned leaf = unsigned(g[REG_RAX]);
            unsigned a = 0, b = 0, c = 0, d = 0;
            if (leaf == 0) a = cpu->max;
            else if (leaf == 1) { c = cpu->ecx1; d = cpu->edx1; }
            else if (leaf == 7 && cpu->max >= 7) b = cpu->ebx7;
            g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d;
            g[REG_RIP] += 2;
            continue;
        }
        if (p[0] == 0x0F && p[1] == 1 && p[2] == 0xD0) {
            g[REG_RAX] = unsigned(cpu->xcr0); g[REG_RDX] = 0; g[REG_RIP] += 3;
            continue;
        }
        if (p[0] == 0xC4 || p[0] == 0xC5) vex++;
        return;
    }
}
static void on() { struct sigaction s; memset(&s, 0, sizeof s); s.sa_sigaction = trap; s.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &s, 0); off = 0; asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "cc", "memory"); }
static void done() { off = 1; asm volatile("nop; nop; nop"); }
typedef OTFFT::OptimizationType T;
'''
S("C15-avx2-bit", "C15", "a processor with AVX and BMI1 but without AVX2 (AMD Piledriver, Steamroller), asked for AVX2 or for the automatic choice",
  "the wrong bit of CPUID leaf 7 decides about AVX2, so such a processor is given AVX2 code",
  [("src/otfft.cpp", "(cpu_info_7[1] & 0x00000020) != 0", "(cpu_info_7[1] & 0x00000028) != 0")],
  CPU + r'''
int main()
{
    static const Cpu piledriver = { 13, 0x3E983203u | (1u << 12) | (1u << 28) | (1u << 27) | (1u << 26), 0x178BFBFFu, 0x8, 7 };
    cpu = &piledriver;
    int threw = 0, got = 0;
    on();
    try { auto p = OTFFT::Factory::createComplexFFT(64, T::OPTIMIZED_FFT_AVX2); got = p != nullptr; } catch (const std::domain_error&) { threw = 1; }
    done();
    expect(asked > 0, "the processor was not asked");
    expect(threw && !got, "AVX2 was granted on a processor without it");
    return verdict();
}''')
S("C15-os-state", "C15", "a processor with AVX whose operating system does not save the AVX registers (XCR0 = 3)",
  "the operating system's support is taken for granted as soon as it saves any of the two register sets, so AVX code is chosen and faults",
  [("src/otfft.cpp", "((cpu_info_xcr & 6) == 6)", "((cpu_info_xcr & 6) != 0)")],
  CPU + r'''
int main()
{
    static const Cpu c = { 13, 0x1F9AE3BFu | (1u << 28) | (1u << 27) | (1u << 26), 0xBFEBFBFFu, 0x28, 3 };
    cpu = &c;
    std::vector<OTFFT::complex_t> x(64);
    vex = 0;
    on();
    { auto p = OTFFT::Factory::createComplexFFT(64); p->fwd(x.data()); }
    done();
    expect(asked > 0, "the processor was not asked");
    expect(vex == 0, "AVX instructions were run without operating system support");
    return verdict();
}''')
S("C15-dct-request", "C15", "an SSE2 cosine transform requested on a processor that supports AVX",
  "the request for a backend is only honoured as an upper bound of what the processor lacks: the first supported one is taken",
  [("src/otfft.cpp", """                (t == OptimizationType::OPTIMIZED_FFT_AUTO ||
                 t == OptimizationType::OPTIMIZED_FFT_AVX))
            {
                return RealDCTPtr(OTFFT_AVX::""", """                (t != OptimizationType::OPTIMIZED_FFT_AVX2))
            {
                return RealDCTPtr(OTFFT_AVX::""")],
  CPU + r'''
int main()
{
    static const Cpu c = { 13, 0x1F9AE3BFu | (1u << 28) | (1u << 27) | (1u << 26), 0xBFEBFBFFu, 0x28, 7 };
    cpu = &c;
    std::vector<double> x(64);
    auto q = OTFFT::Factory::createDCT(64, T::OPTIMIZED_FFT_SSE2); // sets what is set up once
    vex = 0;
    on();
    q->fwd(x.data());
    done();
    expect(vex == 0, "an SSE2 object runs AVX instructions");
    return verdict();
}''')
B="src/otfft_base.h"
S("C12-lazy","C12","several threads making the first calls on a freshly set up real transform at the same time",
  "the weights are filled in by the first call that needs them, and the flag saying so is set before they are complete",
  [(B,"    int N;\n    FFT0 fft;\n    simd_array<complex_t> weight;\n    complex_t* U;","    void weights() const noexcept;\n\n    int N;\n    FFT0 fft;\n    simd_array<complex_t> weight;\n    complex_t* U;\n    mutable bool ready = false;","class RFFT"),
   (A,"        weight.setup(N+1); U = &weight;\n        const double theta0 = 2*M_PI/N;","        weight.setup(N+1); U = &weight;\n        ready = false;\n    }\n\n    void RFFT::weights() const noexcept\n    {\n        if (ready) return;\n        ready = true;\n        int log_N = 0;\n        for (int n = N; n > 1; n >>= 1) log_N++;\n        const double theta0 = 2*M_PI/N;","void RFFT::setup("),
   (A,"        int log_N;\n        N = n;\n        for (log_N = 0; n > 1; n >>= 1) log_N++;\n        fft.setup(N/2);","        N = n;\n        fft.setup(N/2);","void RFFT::setup(")]
  +[(A,"        const int Nh = N/2;","        weights();\n        const int Nh = N/2;","void RFFT::%s("%m) for m in ("fwd","fwd0","fwdu","inv","invu","invn")],
  '''#include "t.hpp"
#include <atomic>
#include <malloc.h>
#include <thread>
int main()
{
    mallopt(M_PERTURB, 0x5a); // fresh memory never holds the tables of an earlier object
    const int n = 1 << 14;
    std::vector<double> x(n);
    std::vector<complex_t> spectrum(n);
    Rnd r(5);
    for (auto& v : x) v = r.uni();
    OTFFT::Factory::createRealFFT(n)->fwd0(std::vector<double>(x).data(), spectrum.data());
    int bad = 0;
    for (int t = 0; t < 400; t++) {
        auto p = OTFFT::Factory::createRealFFT(n);
        std::atomic<int> here{0};
        std::atomic<int> wrong{0};
        std::vector<std::thread> ts;
        for (int i = 0; i < 4; i++)
            ts.emplace_back([&] {
                std::vector<complex_t> s(spectrum);
                std::vector<double> y(n);
                ++here;
                while (here < 4) {}
                p->invn(s.data(), y.data()); // the inverse needs the weights at once
                double e = 0;
                for (int k = 0; k < n; k++) e = std::max(e, fabs(y[k] - x[k]));
                if (!(e < 1e-9)) ++wrong;
            });
        for (auto& t : ts) t.join();
        bad += wrong;
    }
    expect(bad == 0, "the first calls of several threads on a real transform disturb each other");
    return verdict();
}
''')
X="src/otfft_algo_mixed.cpp"
S("C10-thread-table","C10","a long length that is no power of two, set up with different numbers of threads",
  "each thread continues its part of the twiddle table by rotation from its first entry, so the table depends on how the loop was divided",
  [(X,'''                    #pragma omp parallel for
                    for (int p = 0; p <= n; p++) {
                        W[p] = complex_t(cos(p*theta0), -sin(p*theta0));
                    }''','''                    const complex_t step(cos(theta0), -sin(theta0));
                    #pragma omp parallel
                    {
                        int last = -2;
                        complex_t w;
                        #pragma omp for schedule(static)
                        for (int p = 0; p <= n; p++) {
                            w = p == last + 1 && (p & 3) ? w*step : complex_t(cos(p*theta0), -sin(p*theta0));
                            W[p] = w;
                            last = p;
                        }
                    }''')],
  '''#include "t.hpp"
int main()
{
    for (int n : { 3 << 14, 5 << 14, 7 << 13, 98306 }) {
        std::vector<complex_t> first;
        for (int threads : { 1, 2, 3, 5, 7 }) {
            omp_set_num_threads(threads);
            auto p = OTFFT::Factory::createComplexFFT(n);
            Rnd r(7);
            std::vector<complex_t> x(n);
            for (auto& v : x) v = complex_t(r.uni(), r.uni());
            p->fwd0(x.data());
            if (first.empty()) first = x;
            expect(!memcmp(first.data(), x.data(), n * sizeof(complex_t)), "the result depends on the number of threads");
        }
    }
    return verdict();
}
''')
S("C16-capacity","C16","a setup that fails for lack of memory, followed by a setup with a shorter length on the same object",
  "the work area is kept when it is large enough, but its size is noted before the memory is there",
  [(B,"private:\n    FFT0 fft;\n    simd_array<complex_t> work;\n    complex_t* y;","private:\n    FFT0 fft;\n    simd_array<complex_t> work;\n    int capacity = 0;\n    complex_t* y;"),
   (A,"        fft.setup(n);\n        work.setup(n);\n        y = &work;","        fft.setup(n);\n        if (n > capacity) {\n            capacity = n;\n            work.setup(n);\n        }\n        y = &work;"),
   (A,"FFT::FFT(int n) : fft(n), work(n), y(&work) {}","FFT::FFT(int n) : fft(n), work(n), capacity(n), y(&work) {}")],
  '''#include "t.hpp"
#include <new>
#include <dlfcn.h>
static long armed = -1;
extern "C" int posix_memalign(void** p, size_t a, size_t n)
{
    static int (*real)(void**, size_t, size_t) = (int (*)(void**, size_t, size_t))dlsym(RTLD_NEXT, "posix_memalign");
    if (armed >= 0 && armed-- == 0) return 12;
    return real(p, a, n);
}
int main()
{
    for (int k = 0; k < 6; k++) {
        auto p = OTFFT::Factory::createComplexFFT(64);
        bool thrown = false;
        armed = k;
        try { p->setup(1024); } catch (const std::bad_alloc&) { thrown = true; }
        armed = -1;
        if (!thrown) break;
        p->setup(512);
        std::vector<complex_t> x(512, complex_t(1, 0));
        p->fwd(x.data());
        expect(fabs(x[0].Re - 1) < 1e-12 && norm(x[3]) < 1e-24, "an object set up again after a failure does not work");
    }
    return verdict();
}
''')
S("C20-throw-rounding","C20","a setup that runs out of memory while the caller has chosen another rounding mode than to-nearest",
  "the tables are computed in to-nearest mode and the caller's mode is restored at the end of setup, but not when setup is left by an exception",
  [(A,"        dct.setup(N);\n        work1.setup(N); y = &work1;\n        work2.setup(N); z = &work2;","        const int mode = std::fegetround();\n        std::fesetround(FE_TONEAREST);\n        dct.setup(N);\n        work1.setup(N); y = &work1;\n        work2.setup(N); z = &work2;\n        std::fesetround(mode);"),
   (A,"#include <cassert>\n","#include <cassert>\n#include <cfenv>\n")],
  '''#include "t.hpp"
#include <cfenv>
#include <new>
#include <dlfcn.h>
static long armed = -1;
extern "C" int posix_memalign(void** p, size_t a, size_t n)
{
    static int (*real)(void**, size_t, size_t) = (int (*)(void**, size_t, size_t))dlsym(RTLD_NEXT, "posix_memalign");
    if (armed >= 0 && armed-- == 0) return 12;
    return real(p, a, n);
}
int main()
{
    auto p = OTFFT::Factory::createDCT(64);
    for (int k = 0; k < 8; k++) {
        std::fesetround(FE_UPWARD);
        armed = k;
        try { p->setup(256); } catch (const std::bad_alloc&) {}
        armed = -1;
        expect(std::fegetround() == FE_UPWARD, "the caller's rounding mode is changed by a failing setup");
    }
    return verdict();
}
''')
S("C17-prescale","C17","inputs beyond 1e250 in a transform whose length is no power of two",
  "very large inputs are scaled before instead of after the transform, which rounds differently",
  [(X,"                if (N < OMP_THRESHOLD) {\n                    fwdfft(N, 1, 0, x, y, W);\n                    for (int k = 0; k < N; k++) setpz(x[k], mulpd(rN, getpz(x[k])));\n                }",
      "                if (N < OMP_THRESHOLD) {\n                    const bool before = fabs(x[0].Re) > 1e250;\n                    if (before) for (int k = 0; k < N; k++) setpz(x[k], mulpd(rN, getpz(x[k])));\n                    fwdfft(N, 1, 0, x, y, W);\n                    if (!before) for (int k = 0; k < N; k++) setpz(x[k], mulpd(rN, getpz(x[k])));\n                }")],
  '''#include "t.hpp"
int main()
{
    const int n = 2 * 3 * 5 * 7;
    auto p = OTFFT::Factory::createComplexFFT(n);
    std::vector<complex_t> x(n), z(n);
    Rnd r(3);
    for (int i = 0; i < n; i++) { x[i] = complex_t(0.5 + 0.4 * r.uni(), r.uni()); z[i] = complex_t(ldexp(x[i].Re, 900), ldexp(x[i].Im, 900)); }
    p->fwd(x.data());
    p->fwd(z.data());
    for (int i = 0; i < n; i++) expect(z[i].Re == ldexp(x[i].Re, 900) && z[i].Im == ldexp(x[i].Im, 900), "scaling the input by 2^900 does not scale the output");
    return verdict();
}
''')
S("C14-chirp-cache","C14","on a Bluestein transform: fwd0, then invn, then fwd0 again",
  "fwd0 keeps the transformed chirp for the next fwd0; the other calls drop it, except invn, which overwrites it as well",
  [(B,"    int N, L;\n    FFT fft;\n    simd_array<complex_t> work1;","    int N, L;\n    mutable bool kept = false;\n    FFT fft;\n    simd_array<complex_t> work1;"),
   (A,"        N = n;\n        const int N2 = 2*N;","        N = n;\n        kept = false;\n        const int N2 = 2*N;")]
  +[(A,"        if (N < 2) return;","        if (N < 2) return;\n        kept = false;","void Bluestein::%s("%m) for m in ("fwd","fwdu","inv","invu")]
  +[(A,"        a[0] = x[0]; b[0] = x[0] = 1;\n        if (N < OMP_THRESHOLD) {","        a[0] = x[0];\n        x[0] = 1;\n        if (kept) {\n            for (int p = N; p < L; p++) a[p] = 0;\n            for (int p = 1; p < N; p++) {\n                const int64_t q = p;\n                const int pp = static_cast<int>(q*q % N2);\n                a[p] = x[p]*W[pp];\n                x[p] = W[N2-pp];\n            }\n            fft.fwd0(a);\n            for (int k = 0; k < L; k++) setpz(a[k], mulpz(getpz(a[k]), getpz(b[k])));\n            fft.invn(a);\n            for (int p = 0; p < N; p++) setpz(x[p], mulpz(getpz(a[p]), cnjpz(getpz(x[p]))));\n            return;\n        }\n        b[0] = 1;\n        if (N < OMP_THRESHOLD) {","void Bluestein::fwd0("),
    (A,"        fft.fwd0(a); fft.fwd0(b);","        fft.fwd0(a); fft.fwd0(b);\n        kept = true;","void Bluestein::fwd0(")],
  '''#include "t.hpp"
int main()
{
    const int n = 37;
    auto p = OTFFT::Factory::createBluesteinFFT(n);
    std::vector<complex_t> x(n), first;
    Rnd r(3);
    for (auto& v : x) v = complex_t(r.uni(), r.uni());
    for (int mode : { FWD0, FWD0, INVN, FWD0 }) {
        std::vector<complex_t> y(x);
        callc(p, mode, y.data());
        if (mode != FWD0) continue;
        if (first.empty()) first = y;
        expect(!memcmp(first.data(), y.data(), n * sizeof(complex_t)), "fwd0 depends on the calls before it");
    }
    return verdict();
}
''')
S("C10-max-threads","C10","a setup of at least 65536 elements from within a parallel region of the caller, or under a thread limit: the team is then smaller than omp_get_max_threads says",
  "the weight table of the real transform is divided among omp_get_max_threads threads, not among the threads the team has: parts of the table stay unset",
  [(A,"""        #pragma omp parallel for schedule(static)
            for (int p = 0; p <= Ne; p++) {
                const double theta = p * theta0;
                const double c =  cos(theta);
                const double s = -sin(theta);
                U[p]    = complex_t(1 - s,  c)/2;
                U[Nq-p]""","""        {
            const int share = Ne / omp_get_max_threads() + 1;
            #pragma omp parallel
            for (int p = share*omp_get_thread_num(), e = p + share; p < e && p <= Ne; p++) {
                const double theta = p * theta0;
                const double c =  cos(theta);
                const double s = -sin(theta);
                U[p]    = complex_t(1 - s,  c)/2;
                U[Nq-p]"""),
   (A,"""                U[N-p]  = complex_t(1 + s,  c)/2;
            }
    }

    void RFFT::fwd(""","""                U[N-p]  = complex_t(1 + s,  c)/2;
            }
        }
    }

    void RFFT::fwd("""),
   (A,"#include <stdint.h>","#include <stdint.h>\n#include <omp.h>")],
  '''#include "t.hpp"
int main()
{
    omp_set_num_threads(4);
    for (int n : { 4096, 65536, 262144 }) {
        double err[2] = { 0, 0 };
        #pragma omp parallel for num_threads(2)
        for (int i = 0; i < 2; i++) {
            auto p = OTFFT::Factory::createRealFFT(n);
            err[i] = real_fwd_error(p, n, FWD0, 12, 5);
        }
        expect_small(err[0], "a transform set up in a parallel region", n, FWD0);
        expect_small(err[1], "a transform set up in a parallel region", n, FWD0);
    }
    return verdict();
}
''')

S("C07-thread-local","C07","an object of Bluestein's transform that outlives the thread in which it was created",
  "the work areas belong to the thread that set the object up: they are gone when that thread ends, the object still writes there",
  [(A,"        work1.setup(L); a = &work1;\n        work2.setup(L); b = &work2;\n","""        struct Area { simd_array<complex_t> work1, work2; };
        static thread_local std::map<int, Area> areas;
        Area& area = areas[L];
        if (!&area.work1) { area.work1.setup(L); area.work2.setup(L); }
        a = &area.work1; b = &area.work2;
"""),
   (A,"#include <cassert>","#include <cassert>\n#include <map>")],
  '''#include "t.hpp"
#include <malloc.h>
#include <thread>
int main()
{
    mallopt(M_MMAP_THRESHOLD, 1 << 20);
    omp_set_num_threads(1);
    for (int n : { 37, 100, 3001 }) {
        OTFFT::ComplexFFTPtr p;
        std::vector<complex_t> x(n), y, ref;
        Rnd r(n);
        for (auto& v : x) v = complex_t(r.uni(), r.uni());
        size_t len = 1;
        while (len < 2u * n - 1) len *= 2;
        std::vector<complex_t*> got;
        std::thread t([&] { p = OTFFT::Factory::createBluesteinFFT(n); ref = x; p->fwd(ref.data()); });
        t.join();
        // memory the caller gets from now on must not be written by the object
        std::thread u([&] {
            for (int i = 0; i < 8; i++) {
                void* m = 0;
                if (posix_memalign(&m, 64, len * sizeof(complex_t))) exit(0);
                got.push_back((complex_t*)m);
                for (size_t j = 0; j < len; j++) got.back()[j] = complex_t(77, 77);
            }
            y = x; p->fwd(y.data());
            int bad = 0;
            for (auto m : got) for (size_t j = 0; j < len; j++) bad += m[j].Re != 77 || m[j].Im != 77;
            expect(bad == 0, "a call wrote to memory of the caller");
        });
        u.join();
        expect(memcmp(y.data(), ref.data(), n * sizeof(complex_t)) == 0, "other result in another thread");
        for (auto m : got) free(m);
    }
    return verdict();
}
''')

S("C11-slots","C11","sixty-five objects of Bluestein's transform alive in one program, two of which are called at the same time",
  "objects of Bluestein's transform up to length 2048 get one of 64 static work areas in turn: the 65th shares that of the first",
  [(A,"        work1.setup(L); a = &work1;\n        work2.setup(L); b = &work2;\n","""        if (L <= 4096) {
            static complex_t pool[64][2][4096] __attribute__((aligned(64)));
            static std::atomic<unsigned> next;
            const unsigned slot = next++ % 64;
            a = pool[slot][0]; b = pool[slot][1];
        }
        else {
            work1.setup(L); a = &work1;
            work2.setup(L); b = &work2;
        }
"""),
   (A,"#include <cassert>","#include <cassert>\n#include <atomic>")],
  '''#include "t.hpp"
#include <atomic>
#include <thread>
int main()
{
    std::vector<OTFFT::ComplexFFTPtr> all;
    const int n = 1500;
    for (int i = 0; i < 130; i++) all.push_back(OTFFT::Factory::createBluesteinFFT(n));
    std::atomic<int> bad(0);
    auto work = [&](int i) {
        std::vector<complex_t> x(n), y, ref;
        Rnd r(i + 1);
        for (auto& v : x) v = complex_t(r.uni(), r.uni());
        for (int t = 0; t < 3000; t++) {
            y = x; all[i]->fwd(y.data());
            double e = 0, f = 0;
            for (auto& v : x) e += norm(v);
            for (auto& v : y) f += norm(v);
            if (!(fabs(f * n - e) < 1e-9 * e)) bad++;
        }
    };
    std::thread t0(work, 0), t1(work, 64), t2(work, 128);
    t0.join(); t1.join(); t2.join();
    expect(bad == 0, "objects used by one thread each disturb each other");
    return verdict();
}
''')

S("C13-idle","C13","two hundred setups of one Bluestein object in a row that all need much less than the largest one before",
  "setup keeps larger blocks for reuse and gives them back after 200 small setups, but does so after the table was filled",
  [("src/otfft_base.h","    complex_t* W;\n};","    complex_t* W;\n    int capacity = 0;\n    unsigned char idle = 0;\n};","class Bluestein"),
   (A,"        weight.setup(N2+1); W = &weight;\n        const double theta0 = M_PI/N;","""        if (N2 > capacity) { weight.setup(N2+1); capacity = N2; idle = 0; }
        W = &weight;
        const double theta0 = M_PI/N;"""),
   (A,"""            W[p]    = complex_t(c,  s);
            W[N2-p] = complex_t(c, -s);
        }
    }

    void Bluestein::fwd(""","""            W[p]    = complex_t(c,  s);
            W[N2-p] = complex_t(c, -s);
        }
        if (N2 > capacity/4) idle = 0;
        else if (++idle == 200) {
            weight.setup(N2+1); W = &weight;
            capacity = N2; idle = 0;
        }
    }

    void Bluestein::fwd(""")],
  '''#include "t.hpp"
int main()
{
    auto p = OTFFT::Factory::createBluesteinFFT(3000);
    for (int i = 0; i < 500; i++) {
        const int n = 7 + i % 90;
        p->setup(n);
        expect_small(complex_error(p, n, FWD0, 4, i), "after many setups", n, FWD0);
    }
    return verdict();
}
''')

S("C07-registry","C07","a cosine transform in the program's static storage that lives until the program ends",
  "every cosine transform is entered in a static list, from which its destructor removes it; at program end the list is gone before objects the program holds itself",
  [(A,"""    void DCT0::setup(int n)
    {""","""    void DCT0::setup(int n)
    {
        live().add(this);"""),
   (A,"""        weight.destroy();
    }

    void DCT0::setup""","""        weight.destroy();
        live().remove(this);
    }

    void DCT0::setup"""),
   (A,"    DCT0::DCT0() noexcept :","""    struct LiveTransforms
    {
        std::mutex guard;
        std::set<const void*> list;
        void add(const void* p) { std::lock_guard<std::mutex> lock(guard); list.insert(p); }
        void remove(const void* p) { std::lock_guard<std::mutex> lock(guard); list.erase(p); }
    };
    static LiveTransforms& live() { static LiveTransforms all; return all; }

    DCT0::DCT0() noexcept :"""),
   (A,"#include <cassert>","#include <cassert>\n#include <mutex>\n#include <set>")],
  """#include "t.hpp"
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>
static OTFFT::RealDCTPtr kept[5];
int main()
{
    const pid_t pid = fork();
    if (pid == 0) {
        mallopt(M_PERTURB, 0x55);
        for (int i = 0; i < 5; i++) kept[i] = OTFFT::Factory::createDCT(16 + 2 * i);
        exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    expect(WIFEXITED(status) && WEXITSTATUS(status) == 0, "a program that keeps transforms until its end dies there");
    return verdict();
}
""")
S("C09-distance","C09","input and output of fwd0 of a real transform exactly 4 GiB apart",
  "the packing is skipped when the samples already lie where it would put them, but the distance of the arrays is kept in 32 bits",
  [(A,'''        for (int p = 0; p < Nh; p++) setpz(z[p], getpz(x + 2*p));
        fft.fwd0(z, y);
        y[0] = z[0].Re + z[0].Im;''','''        const int gap = static_cast<int>((const char*) y - (const char*) x);
        if (gap != 0) for (int p = 0; p < Nh; p++) setpz(z[p], getpz(x + 2*p));
        else for (int p = Nh-1; p >= 0; p--) setpz(z[p], getpz((const_double_vector) y + 2*p)); // shared array
        fft.fwd0(z, y);
        y[0] = z[0].Re + z[0].Im;''')],
  """#include "t.hpp"
#include <sys/mman.h>
int main()
{
    const size_t G = size_t(1) << 32;
    char* area = (char*)mmap(0, 2 * G, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (area == MAP_FAILED) return 0;
    for (int n : { 8, 100, 4096 }) {
        auto p = OTFFT::Factory::createRealFFT(n);
        std::vector<complex_t> near(n);
        double* x = (double*)area;
        Rnd r(n);
        for (int i = 0; i < n; i++) x[i] = r.uni();
        p->fwd0(x, near.data());
        for (size_t d : { size_t(1) << 20, size_t(1) << 31, G, G + 4096 }) {
            complex_t* y = (complex_t*)(area + d);
            memset((void*)y, 0, n * sizeof(complex_t));
            p->fwd0(x, y);
            expect(memcmp(y, near.data(), n * sizeof(complex_t)) == 0, "the result depends on where the arrays lie");
        }
    }
    return verdict();
}
""")
