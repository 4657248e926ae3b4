#include "otv.hpp"
#include <future>
#include <sys/syscall.h>

namespace otv {
static char g_case_buf[1024];
char* g_case = g_case_buf;
Stats st;
const char* kind_name[4] = {"complex", "real", "dct", "bluestein"};
const char* mode_name[8] = {"fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"};
const char* backend_name[4] = {"auto", "sse2", "avx", "avx2"};
const char* input_name[IN_KINDS + 1] = {"dense", "impulse", "tone", "wide", "const", "alt", "sparse", "re", "im", "ramp", "zero-padded", "zeros first", "even", "odd", "periodic", "integers", "re=im", "zero"};

OTFFT::OptimizationType opt(int b)
{
    using T = OTFFT::OptimizationType;
#ifdef OTFFT_WITH_SSE2
    if (b == SSE2) return T::OPTIMIZED_FFT_SSE2;
#endif
#ifdef OTFFT_WITH_AVX
    if (b == AVX) return T::OPTIMIZED_FFT_AVX;
#endif
#ifdef OTFFT_WITH_AVX2
    if (b == AVX2) return T::OPTIMIZED_FFT_AVX2;
#endif
    return T::OPTIMIZED_FFT_AUTO;
}
std::vector<int> backends()
{
    std::vector<int> v;
#ifdef OTFFT_WITH_SSE2
    if (__builtin_cpu_supports("sse2")) v.push_back(SSE2);
#endif
#ifdef OTFFT_WITH_AVX
    if (__builtin_cpu_supports("avx")) v.push_back(AVX);
#endif
#ifdef OTFFT_WITH_AVX2
    if (__builtin_cpu_supports("avx2")) v.push_back(AVX2);
#endif
    return v;
}

// ------------------------------------------------------------------ crash handler
static void on_crash(int sig, siginfo_t* si, void*)
{
    char b[1600];
    const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : "signal";
    int k = snprintf(b, sizeof b, "{\"viol\":\"crash\",\"case\":\"%s\",\"what\":\"%s\"}\n", g_case, nm);
    (void)!write(report_fd(), b, size_t(k));
    _exit(99);
}
void install_crash_handler()
{
    static char stk[1 << 16];
    stack_t ss{};
    ss.ss_sp = stk;
    ss.ss_size = sizeof stk;
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, 0);
}

// ------------------------------------------------------------------ reference FFT
lc root(uint64_t k, uint64_t n)
{
    // exp(-2 pi i k/n) with exact octant reduction
    k %= n;
    static const ld PI = 3.14159265358979323846264338327950288L;
    ld c, s;
    // angle = 2 pi k/n; reduce with multiples of n/4: use 4k mod n to stay integral
    // quadrant q = floor(4k/n), remainder r = 4k - q n  => angle = q*pi/2 + (pi/2) r/n
    const unsigned q = unsigned(4 * k / n);
    const uint64_t r = 4 * k - uint64_t(q) * n;
    if (2 * r <= n) {
        ld a = (PI / 2) * (ld)r / (ld)n;
        c = cosl(a);
        s = sinl(a);
    } else {
        ld a = (PI / 2) * (ld)(n - r) / (ld)n;
        c = sinl(a);
        s = cosl(a);
    }
    ld C, S; // cos, sin of the full angle
    switch (q) {
    case 0: C = c; S = s; break;
    case 1: C = -s; S = c; break;
    case 2: C = -c; S = -s; break;
    default: C = s; S = -c; break;
    }
    return {C, -S};
}

static int pick_factor(size_t n)
{
    if (n % 4 == 0) return 4;
    if (n % 2 == 0) return 2;
    for (size_t p = 3; p * p <= n; p += 2)
        if (n % p == 0) return int(p);
    return int(n);
}

static void rec(const lc* in, size_t is, lc* out, size_t n, const lc* W, size_t ws, int par);

static void blue_ref(const lc* in, size_t is, lc* out, size_t n)
{
    size_t L = 1;
    while (L < 2 * n - 1) L *= 2;
    std::vector<lc> a(L, lc{0, 0}), b(L, lc{0, 0}), ch(n);
    for (size_t i = 0; i < n; i++) {
        ch[i] = root((uint64_t)i * i % (2 * n), 2 * n);
        a[i] = in[i * is] * ch[i];
        b[i] = cj(ch[i]);
        if (i) b[L - i] = b[i];
    }
    a = ref_fft(a);
    b = ref_fft(b);
    for (size_t i = 0; i < L; i++) a[i] = cj(a[i] * b[i]);
    a = ref_fft(a);
    for (size_t i = 0; i < n; i++) {
        lc t = cj(a[i]);
        t.re /= L;
        t.im /= L;
        out[i] = t * ch[i];
    }
}

static void rec(const lc* in, size_t is, lc* out, size_t n, const lc* W, size_t ws, int par)
{
    if (n == 1) { out[0] = in[0]; return; }
    const int p = pick_factor(n);
    if (size_t(p) == n && p > 5) {
        if (p > 64) { blue_ref(in, is, out, n); return; }
        for (size_t k = 0; k < n; k++) {
            lc s{0, 0};
            for (size_t j = 0; j < n; j++) s = s + in[j * is] * W[(k * j % n) * ws];
            out[k] = s;
        }
        return;
    }
    const size_t m = n / p;
    if (par > 0 && n >= (1u << 16)) {
        std::vector<std::future<void>> f;
        for (int r = 0; r < p; r++)
            f.push_back(std::async(std::launch::async, [=] { rec(in + r * is, is * p, out + r * m, m, W, ws * p, par - 1); }));
        for (auto& t : f) t.get();
    } else
        for (int r = 0; r < p; r++) rec(in + r * is, is * p, out + r * m, m, W, ws * p, 0);
    auto comb = [=](size_t k0, size_t k1) {
        if (p == 2) {
            for (size_t k = k0; k < k1; k++) {
                lc a = out[k], b = out[k + m] * W[k * ws];
                out[k] = a + b;
                out[k + m] = a - b;
            }
        } else if (p == 4) {
            for (size_t k = k0; k < k1; k++) {
                lc a = out[k], b = out[k + m] * W[k * ws], c = out[k + 2 * m] * W[2 * k * ws], d = out[k + 3 * m] * W[3 * k * ws];
                lc s = a + c, t = a - c, u = b + d, v = b - d;
                out[k] = s + u;
                out[k + 2 * m] = s - u;
                out[k + m] = {t.re + v.im, t.im - v.re};
                out[k + 3 * m] = {t.re - v.im, t.im + v.re};
            }
        } else {
            std::vector<lc> t(p);
            for (size_t k = k0; k < k1; k++) {
                for (int r = 0; r < p; r++) t[r] = out[k + r * m] * W[(r * k % n) * ws];
                for (int q = 0; q < p; q++) {
                    lc s = t[0];
                    for (int r = 1; r < p; r++) s = s + t[r] * W[((size_t)r * q % p) * m * ws];
                    out[k + q * m] = s;
                }
            }
        }
    };
    if (par > 0 && n >= (1u << 16)) {
        std::vector<std::future<void>> f;
        const int T = 4;
        for (int i = 0; i < T; i++) f.push_back(std::async(std::launch::async, comb, m * i / T, m * (i + 1) / T));
        for (auto& t : f) t.get();
    } else
        comb(0, m);
}

static std::vector<lc> roots_table(size_t n)
{
    std::vector<lc> W(n);
    auto fill = [&](size_t a, size_t b) { for (size_t i = a; i < b; i++) W[i] = root(i, n); };
    if (n >= (1u << 17)) {
        std::vector<std::future<void>> f;
        for (int t = 0; t < 4; t++) f.push_back(std::async(std::launch::async, fill, n * t / 4, n * (t + 1) / 4));
        for (auto& t : f) t.get();
    } else
        fill(0, n);
    return W;
}

std::vector<lc> ref_fft(const std::vector<lc>& x)
{
    const size_t n = x.size();
    std::vector<lc> out(n);
    if (n == 0) return out;
    static thread_local size_t cached_n = 0;
    static thread_local std::vector<lc> W;
    if (cached_n != n) {
        if (n > (1u << 14)) {
            std::vector<lc> W2 = roots_table(n);
            rec(x.data(), 1, out.data(), n, W2.data(), 1, 2);
            return out;
        }
        W = roots_table(n);
        cached_n = n;
    }
    std::vector<lc> Wc; // W may be replaced by nested calls (Bluestein leaf), so work on a copy then
    if (largest_prime(int(n)) > 64) {
        Wc = W;
        rec(x.data(), 1, out.data(), n, Wc.data(), 1, 0);
    } else
        rec(x.data(), 1, out.data(), n, W.data(), 1, 0);
    return out;
}

bool ref_selfcheck()
{
    Rng r(99);
    for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 30, 49, 61, 64, 67, 97, 128, 134, 210, 243, 402, 625, 1031}) {
        std::vector<lc> x(n);
        for (auto& v : x) v = {r.uni(), r.uni()};
        auto y = ref_fft(x);
        for (int k = 0; k < n; k++) {
            lc s{0, 0};
            for (int j = 0; j < n; j++) s = s + x[j] * root(uint64_t(j) * k % n, n);
            if (!(fabsl(s.re - y[k].re) + fabsl(s.im - y[k].im) < 1e-16L * sqrtl(n) * 4)) return false;
        }
    }
    // absolute anchor: transform of a pure tone against cosl/sinl of the raw angle
    for (int n : {10, 48, 101}) {
        std::vector<lc> x(n);
        for (int j = 0; j < n; j++) x[j] = {cosl(2 * M_PIl * 3 * j / n), sinl(2 * M_PIl * 3 * j / n)};
        auto y = ref_fft(x);
        for (int k = 0; k < n; k++) {
            ld want = k == 3 ? n : 0;
            if (!(fabsl(y[k].re - want) + fabsl(y[k].im) < 1e-15L)) return false;
        }
    }
    return true;
}

// ------------------------------------------------------------------ inputs
static double fin(double v) { return v; }
void make_input(double* p, size_t m, bool cplx, int input, uint64_t seed)
{
    Rng r(seed);
    const size_t n = cplx ? m / 2 : m;
    auto set = [&](size_t i, double a, double b) {
        if (cplx) { p[2 * i] = a; p[2 * i + 1] = b; }
        else p[i] = a;
    };
    auto zero = [&] { for (size_t i = 0; i < m; i++) p[i] = 0; };
    switch (input) {
    case IN_IMPULSE: {
        zero();
        size_t i = r.below(n);
        if (r.chance(0.3)) i = r.chance(0.5) ? 0 : n - 1;
        set(i, 0.5 + r.unit(), r.uni());
        break;
    }
    case IN_TONE: {
        double f = r.chance(0.6) ? double(r.below(n)) : r.unit() * double(n);
        double ph = r.unit() * 6;
        for (size_t i = 0; i < n; i++) {
            double a = 2 * M_PI * fmod(f * double(i), double(n)) / double(n) + ph;
            set(i, fin(cos(a)), fin(sin(a)));
        }
        break;
    }
    case IN_WIDE:
        for (size_t i = 0; i < m; i++) p[i] = ldexp(r.uni(), r.range(-30, 30));
        break;
    case IN_CONST: {
        double a = r.uni() + 2, b = r.uni();
        for (size_t i = 0; i < n; i++) set(i, a, b);
        break;
    }
    case IN_ALT: {
        double a = r.uni() + 2, b = r.uni();
        for (size_t i = 0; i < n; i++) set(i, i & 1 ? -a : a, i & 1 ? -b : b);
        break;
    }
    case IN_SPARSE:
        zero();
        for (int q = 0; q < 3; q++) set(r.below(n), r.uni() + 1.5, r.uni());
        break;
    case IN_RE:
        for (size_t i = 0; i < n; i++) set(i, r.uni(), 0);
        break;
    case IN_IM:
        for (size_t i = 0; i < n; i++) set(i, cplx ? 0 : r.uni(), r.uni());
        break;
    case IN_RAMP: {
        double a = r.uni() * 3;
        for (size_t i = 0; i < n; i++) set(i, a + double(i) / double(n), 1 - double(i) / double(n));
        break;
    }
    case IN_PAD: // the usual padding; at least one element
    case IN_LATE: {
        const size_t len = r.chance(0.5) ? (n + 1) / 2 : 1 + r.below(n);
        zero();
        for (size_t i = 0; i < len; i++) set(input == IN_PAD ? i : n - 1 - i, r.uni() + (i ? 0 : 1.5), r.uni());
        break;
    }
    case IN_SYM:
    case IN_ODD: // x[n-i] = +-x[i]
        for (size_t i = 0; i < n; i++) set(i, r.uni(), r.uni());
        for (size_t i = 1; i < n - i; i++) {
            const double s = input == IN_SYM ? 1 : -1;
            if (cplx) set(n - i, s * p[2 * i], s * p[2 * i + 1]);
            else set(n - i, s * p[i], 0);
        }
        if (input == IN_ODD) for (size_t i : {size_t(0), n / 2}) if (n > 2 && !(i && n % 2)) set(i, 0, 0);
        break;
    case IN_PERIOD: {
        size_t q = 1 + r.below(std::min<size_t>(n, 64));
        while (n % q) q--;
        for (size_t i = 0; i < n; i++) {
            if (i < q) set(i, r.uni() + (i ? 0 : 1.5), r.uni());
            else if (cplx) set(i, p[2 * (i - q)], p[2 * (i - q) + 1]);
            else set(i, p[i - q], 0);
        }
        break;
    }
    case IN_INT: // samples of a converter
        for (size_t i = 0; i < m; i++) p[i] = double(r.range(-32768, 32767));
        p[0] = 32767;
        break;
    case IN_SWAP:
        for (size_t i = 0; i < n; i++) { const double a = r.uni(); set(i, a, r.chance(0.5) ? a : -a); }
        break;
    case IN_ZERO:
        for (size_t i = 0; i < m; i++) p[i] = r.chance(0.5) ? 0.0 : -0.0;
        break;
    default:
        for (size_t i = 0; i < m; i++) p[i] = r.uni();
    }
}
void make_hermitian(double* p, int n, int input, uint64_t seed)
{
    make_input(p, 2 * size_t(n), true, input, seed);
    if (input == IN_CONST || input == IN_ALT) p[2] += 1; // otherwise the DC/Nyquist cleaning below leaves nothing odd
    p[1] = 0;
    if (n % 2 == 0) p[2 * (n / 2) + 1] = 0;
    for (int k = 1; k < (n + 1) / 2; k++) {
        p[2 * (n - k)] = p[2 * k];
        p[2 * (n - k) + 1] = -p[2 * k + 1];
    }
    bool any = false;
    for (int i = 0; i < 2 * n && !any; i++) any = p[i] != 0;
    if (!any) p[0] = 1.25;
}

std::vector<int> primes_upto(int n)
{
    std::vector<char> s(n + 1, 1);
    std::vector<int> v;
    for (int i = 2; i <= n; i++)
        if (s[i]) {
            v.push_back(i);
            for (long j = long(i) * i; j <= n; j += i) s[j] = 0;
        }
    return v;
}
int largest_prime(int n)
{
    int best = 1;
    for (int p = 2; (long)p * p <= n; p++)
        while (n % p == 0) { best = std::max(best, p); n /= p; }
    return std::max(best, n);
}
bool bits_equal(const double* a, const double* b, size_t n, size_t* at)
{
    if (memcmp(a, b, n * sizeof(double)) == 0) return true;
    for (size_t i = 0; i < n; i++)
        if (memcmp(a + i, b + i, sizeof(double)) != 0) { if (at) *at = i; return false; }
    return true;
}
std::string size_class(Kind k, int n)
{
    int inner = n;
    if (k == REAL || k == DCT) inner = n / 2;
    if (k == BLUE) { inner = 1; while (inner < 2 * n - 1) inner *= 2; }
    if (inner > 0 && (inner & (inner - 1)) == 0) {
        int l = 0;
        while ((1 << l) < inner) l++;
        return "2^" + std::to_string(l);
    }
    std::string s = inner < (1 << 15) ? "mixed" : "mixedp";
    for (int p : {2, 3, 5, 7}) if (inner % p == 0) s += "." + std::to_string(p);
    if (inner % 8 == 0) s += ".8";
    else if (inner % 4 == 0) s += ".4";
    if (largest_prime(inner) > 7) s += ".any";
    return s;
}

// Allowed error in units of DBL_EPSILON, about six times the largest error seen on the unchanged code.
// Mixed-radix stages square their twiddles, so their error per stage is larger; a prime factor p is
// summed naively.
double tolerance(Kind k, int n)
{
    const double lg = std::log2(double(std::max(n, 2))) + 3;
    int inner = n;
    if (k == REAL || k == DCT) inner = std::max(1, n / 2);
    double t = 2.5 * lg;
    if (k == BLUE) t = 6 * lg;
    else if (inner & (inner - 1)) {
        t = 30 * lg;
        const int p = largest_prime(inner);
        if (p > 5) t += 20 * std::sqrt(double(p));
    }
    return t * DBL_EPSILON;
}

Args::Args(int argc, char** argv)
{
    cmd = argc > 1 ? argv[1] : "";
    std::string rest;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a.rfind("--one=", 0) == 0) spec = a.substr(6);
        else rest += a + " ";
    }
    opt = Spec(rest);
    seed = opt.u("seed", 1);
    thorough = int(opt.i("thorough", 0));
    shard = int(opt.i("shard", 0));
    shards = int(opt.i("shards", 1));
}

} // namespace otv
