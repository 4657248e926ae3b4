// Common parts of the monitors: random numbers, reporting, reference transforms, object wrapper.
#pragma once
#include "otfft.h"
#include <algorithm>
#include <atomic>
#include <cfloat>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

extern "C" {
int omp_get_max_threads(void) noexcept;
void omp_set_num_threads(int) noexcept;
}

// present only in programs linked with our OpenMP runtime
#include "shim.h"
namespace shim {
__attribute__((weak)) void configure(int mode, uint64_t seed);
__attribute__((weak)) Stats stats();
}
namespace otv {

using OTFFT::complex_t;
inline bool have_shim() { return shim::configure != 0; }


// ------------------------------------------------------------------ random numbers
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }
    double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0) * 2 - 1; } // [-1,1)
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
    return r.next();
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

// ------------------------------------------------------------------ reporting
// One JSON object per line on the report descriptor (fd 3 if open, else stdout).
inline int& report_fd() { static int fd = -1; return fd; }
inline void init_report()
{
    report_fd() = (write(3, "", 0) == 0) ? 3 : 1;
}
inline std::mutex& rep_mu() { static std::mutex m; return m; }
inline void emit(const std::string& s)
{
    std::lock_guard<std::mutex> g(rep_mu());
    std::string t = s + "\n";
    size_t o = 0;
    while (o < t.size()) {
        ssize_t k = write(report_fd(), t.data() + o, t.size() - o);
        if (k <= 0) break;
        o += size_t(k);
    }
}
inline std::string fmt(const char* f, ...)
{
    char b[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
inline std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r;
}
extern char* g_case; // in shared memory when run by the driver, so it survives any death
inline void set_case(const std::string& s)
{
    size_t n = std::min(s.size(), size_t(1023));
    memcpy(g_case, s.data(), n);
    g_case[n] = 0;
}
struct Stats {
    std::mutex mu;
    std::map<std::string, double> sum, mx;
    std::set<uint64_t> cells;
    std::vector<std::string> samples;
    int viol = 0;
    void add(const std::string& k, double v = 1) { std::lock_guard<std::mutex> g(mu); sum[k] += v; }
    void max(const std::string& k, double v) { std::lock_guard<std::mutex> g(mu); auto it = mx.find(k); if (it == mx.end() || it->second < v) mx[k] = v; }
    void cell(const std::string& s) { std::lock_guard<std::mutex> g(mu); cells.insert(fnv(s.data(), s.size())); }
    void sample(const std::string& s) { std::lock_guard<std::mutex> g(mu); if (samples.size() < 6) samples.push_back(s); }
};
extern Stats st;
inline void violation(const std::string& cls, const std::string& what)
{
    {
        std::lock_guard<std::mutex> g(st.mu);
        if (++st.viol > 40) return;
    }
    emit("{\"viol\":\"" + esc(cls) + "\",\"case\":\"" + esc(g_case) + "\",\"what\":\"" + esc(what) + "\"}");
}
inline void finish()
{
    std::string s = "{\"done\":1,\"viol\":" + std::to_string(st.viol) + ",\"sum\":{";
    bool f = true;
    for (auto& p : st.sum) { s += (f ? "" : ",") + ("\"" + esc(p.first) + "\":") + fmt("%.17g", p.second); f = false; }
    s += "},\"max\":{";
    f = true;
    for (auto& p : st.mx) { s += (f ? "" : ",") + ("\"" + esc(p.first) + "\":") + fmt("%.6g", std::isfinite(p.second) ? p.second : 1e300); f = false; }
    s += "},\"samples\":[";
    f = true;
    for (auto& p : st.samples) { s += (f ? "" : ",") + ("\"" + esc(p) + "\""); f = false; }
    s += "],\"cells\":[";
    f = true;
    for (auto c : st.cells) { s += (f ? "" : ",") + std::to_string(c & 0xFFFFFFFFFFFFull); f = false; }
    s += "]}";
    emit(s);
}
void install_crash_handler();
// Thrown when a case needs a part of the library that this build leaves out on purpose.
struct Unavailable {};

// ------------------------------------------------------------------ specs "k=v k=v"
struct Spec {
    std::map<std::string, std::string> m;
    Spec() {}
    explicit Spec(const std::string& s)
    {
        size_t i = 0;
        while (i < s.size()) {
            size_t e = s.find(' ', i);
            if (e == std::string::npos) e = s.size();
            std::string t = s.substr(i, e - i);
            size_t q = t.find('=');
            if (q != std::string::npos) m[t.substr(0, q)] = t.substr(q + 1);
            i = e + 1;
        }
    }
    long i(const char* k, long d = 0) const { auto it = m.find(k); return it == m.end() ? d : strtol(it->second.c_str(), 0, 0); }
    uint64_t u(const char* k, uint64_t d = 0) const { auto it = m.find(k); return it == m.end() ? d : strtoull(it->second.c_str(), 0, 0); }
    std::string s(const char* k, const char* d = "") const { auto it = m.find(k); return it == m.end() ? d : it->second; }
    double d(const char* k, double v = 0) const { auto it = m.find(k); return it == m.end() ? v : atof(it->second.c_str()); }
    bool has(const char* k) const { return m.count(k) != 0; }
};

// ------------------------------------------------------------------ reference transforms
typedef long double ld;
struct lc { ld re, im; };
inline lc operator+(lc a, lc b) { return {a.re + b.re, a.im + b.im}; }
inline lc operator-(lc a, lc b) { return {a.re - b.re, a.im - b.im}; }
inline lc operator*(lc a, lc b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
inline lc cj(lc a) { return {a.re, -a.im}; }
lc root(uint64_t k, uint64_t n);                    // exp(-2 pi i k/n)
std::vector<lc> ref_fft(const std::vector<lc>& x);  // sum x[n] exp(-2 pi i k n / N), any N
bool ref_selfcheck();

// ------------------------------------------------------------------ object wrapper
enum Kind { CPLX = 0, REAL = 1, DCT = 2, BLUE = 3 };
enum Mode { FWD = 0, FWD0, FWDU, FWDN, INV, INV0, INVU, INVN };
enum Backend { AUTO = 0, SSE2 = 1, AVX = 2, AVX2 = 3 };
extern const char* kind_name[4];
extern const char* mode_name[8];
extern const char* backend_name[4];
inline bool mode_ok(Kind k, int m) { return !(k == DCT && (m == FWDU || m == INVU)); }
inline bool is_inv(int m) { return m >= INV; }
OTFFT::OptimizationType opt(int backend);
std::vector<int> backends(); // those compiled in (SSE2, AVX, AVX2), without AUTO

struct Obj {
    Kind k;
    int n;
    OTFFT::ComplexFFTPtr c;
    OTFFT::RealFFTPtr r;
    OTFFT::RealDCTPtr d;
    struct Empty {};
    Obj(Kind kind, int n_, int backend) : k(kind), n(n_) { create(n_, backend); }
    Obj(Kind kind, int n_, int, Empty) : k(kind), n(n_) {} // creates nothing
    void create(int n_, int backend)
    {
        namespace F = OTFFT::Factory;
        n = n_;
        switch (k) {
        case CPLX: c = F::createComplexFFT(n, opt(backend)); break;
        case BLUE: c = F::createBluesteinFFT(n, opt(backend)); break;
        case REAL: r = F::createRealFFT(n, opt(backend)); break;
        default: d = F::createDCT(n, opt(backend)); break;
        }
    }
    void setup(int n_)
    {
        n = n_;
        if (c) c->setup(n);
        else if (r) r->setup(n);
        else d->setup(n);
    }
    void crun(int m, complex_t* x) const
    {
        switch (m) {
        case FWD: c->fwd(x); break;
        case FWD0: c->fwd0(x); break;
        case FWDU: c->fwdu(x); break;
        case FWDN: c->fwdn(x); break;
        case INV: c->inv(x); break;
        case INV0: c->inv0(x); break;
        case INVU: c->invu(x); break;
        default: c->invn(x); break;
        }
    }
    void rfwd(int m, const double* x, complex_t* y) const
    {
        switch (m) {
        case FWD: r->fwd(x, y); break;
        case FWD0: r->fwd0(x, y); break;
        case FWDU: r->fwdu(x, y); break;
        default: r->fwdn(x, y); break;
        }
    }
    void rinv(int m, complex_t* x, double* y) const
    {
        switch (m) {
        case INV: r->inv(x, y); break;
        case INV0: r->inv0(x, y); break;
        case INVU: r->invu(x, y); break;
        default: r->invn(x, y); break;
        }
    }
    void drun(int m, double* x) const
    {
        switch (m) {
        case FWD: d->fwd(x); break;
        case FWD0: d->fwd0(x); break;
        case FWDN: d->fwdn(x); break;
        case INV: d->inv(x); break;
        case INV0: d->inv0(x); break;
        default: d->invn(x); break;
        }
    }
    // Number of doubles of the input and output arrays of a call.
    size_t in_doubles(int m) const { return k == DCT || (k == REAL && !is_inv(m)) ? size_t(n) : 2 * size_t(n); }
    size_t out_doubles(int m) const { return k == DCT || (k == REAL && is_inv(m)) ? size_t(n) : 2 * size_t(n); }
    bool inplace() const { return k != REAL; }
    // Run a call: in -> out.  For in-place kinds out is ignored (result in `in`).
    void run(int m, double* in, double* out) const
    {
        switch (k) {
        case CPLX:
        case BLUE: crun(m, (complex_t*)in); break;
        case DCT: drun(m, in); break;
        default:
            if (is_inv(m)) rinv(m, (complex_t*)in, out);
            else rfwd(m, in, (complex_t*)out);
        }
    }
    // Convenience: pure function on vectors.
    std::vector<double> apply(int m, const std::vector<double>& in) const
    {
        std::vector<double> a(in), b(k == REAL ? out_doubles(m) : 0);
        run(m, a.data(), b.data());
        return k == REAL ? b : a;
    }
};

// scale factor of a call (what multiplies the plain sum)
inline ld scale_of(int m, ld n)
{
    switch (m) {
    case FWD: case FWDN: case INVN: return 1 / n;
    case FWDU: case INVU: return 1 / sqrtl(n);
    default: return 1;
    }
}

// inputs
enum InputKind { IN_DENSE = 0, IN_IMPULSE, IN_TONE, IN_WIDE, IN_CONST, IN_ALT, IN_SPARSE, IN_RE, IN_IM, IN_RAMP, IN_PAD, IN_LATE, IN_SYM, IN_ODD, IN_PERIOD, IN_INT, IN_SWAP, IN_KINDS, IN_ZERO = IN_KINDS };
extern const char* input_name[IN_KINDS + 1];
// fills m doubles; cplx says whether they are re/im pairs
void make_input(double* p, size_t m, bool cplx, int input, uint64_t seed);
// Hermitian spectrum of length n (2n doubles)
void make_hermitian(double* p, int n, int input, uint64_t seed);
// appropriate input for a call on an object
inline void make_call_input(const Obj& o, int m, int input, uint64_t seed, double* p)
{
    if (o.k == REAL && is_inv(m)) make_hermitian(p, o.n, input, seed);
    else make_input(p, o.in_doubles(m), o.k == CPLX || o.k == BLUE, input, seed);
}

std::vector<int> primes_upto(int n);
bool bits_equal(const double* a, const double* b, size_t n, size_t* at = 0); // NaNs compare by bits
// class of a length: which code path it is likely to take
std::string size_class(Kind k, int n);
int largest_prime(int n);
double tolerance(Kind k, int n); // allowed relative error of a transform of length n

// sharding of cases
struct Args {
    std::string cmd, spec;
    uint64_t seed = 1;
    int thorough = 0, shard = 0, shards = 1;
    Spec opt;
    Args(int argc, char** argv);
};

} // namespace otv
