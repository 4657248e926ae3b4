// MemorySanitizer monitor (C08): every output element must be initialised, and no uninitialised value may
// reach a branch, an address or a library call. Written without the compiled parts of the C++ runtime
// library, which are not instrumented.
#include "otfft.h"
#include <fcntl.h>
#include <sanitizer/msan_interface.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <memory>
extern "C" void omp_set_num_threads(int);
using namespace OTFFT;
struct Rng {
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return next() % n; }
    double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0) * 2 - 1; }
};
struct Case { int kind, n, thr, via, big; uint64_t seed; };
static Case* cases;
static size_t ncases, cap;
static void add(const Case& c)
{
    if (ncases == cap) cases = (Case*)realloc(cases, (cap = cap * 2 + 1024) * sizeof(Case));
    cases[ncases++] = c;
}
static char local_case[1024];
static char* cur = local_case;
static int rep = 1;
static void on_death() { dprintf(rep, "{\"viol\":\"uninitialised\",\"case\":\"%s\",\"what\":\"an uninitialised value was used or returned (MemorySanitizer report)\"}\n", cur); }
static uint64_t *cells;
static size_t ncells, calls, objects, checked;
static void cell(int k, int n, int m)
{
    uint64_t h = (uint64_t(k) * 1000003 + uint64_t(n)) * 8191 + uint64_t(m);
    if (ncells % 4096 == 0) cells = (uint64_t*)realloc(cells, (ncells + 4096) * 8);
    cells[ncells++] = h;
}
static void ccall(ComplexFFT& f, int m, complex_t* x)
{
    switch (m) {
    case 0: f.fwd(x); break;
    case 1: f.fwd0(x); break;
    case 2: f.fwdu(x); break;
    case 3: f.fwdn(x); break;
    case 4: f.inv(x); break;
    case 5: f.inv0(x); break;
    case 6: f.invu(x); break;
    default: f.invn(x); break;
    }
}
static void rcall(RealFFT& f, int m, double* x, complex_t* y)
{
    switch (m) {
    case 0: f.fwd(x, y); break;
    case 1: f.fwd0(x, y); break;
    case 2: f.fwdu(x, y); break;
    case 3: f.fwdn(x, y); break;
    case 4: f.inv(y, x); break;
    case 5: f.inv0(y, x); break;
    case 6: f.invu(y, x); break;
    default: f.invn(y, x); break;
    }
}
static void dcall(RealDCT& f, int m, double* x)
{
    switch (m) {
    case 0: f.fwd(x); break;
    case 1: f.fwd0(x); break;
    case 3: f.fwdn(x); break;
    case 4: f.inv(x); break;
    case 5: f.inv0(x); break;
    case 7: f.invn(x); break;
    }
}
static void check(const void* p, size_t bytes)
{
    __msan_check_mem_is_initialized(p, bytes);
    checked += bytes / 8;
}
static void run(const Case& c)
{
    snprintf(cur, 1000, "kind=%d n=%d thr=%d via=%d seed=%llu big=%d", c.kind, c.n, c.thr, c.via, (unsigned long long)c.seed, c.big);
    omp_set_num_threads(c.thr);
    Rng r{c.seed};
    const size_t n = size_t(c.n);
    const int first = c.via < 0 ? 0 : c.via > 0 ? c.via : c.n;
    ComplexFFTPtr f;
    RealFFTPtr g;
    RealDCTPtr d;
    if (c.kind == 0) { f = Factory::createComplexFFT(first); if (c.via) f->setup(c.n); }
    if (c.kind == 1) { g = Factory::createRealFFT(first); if (c.via) g->setup(c.n); }
    if (c.kind == 2) { d = Factory::createDCT(first); if (c.via) d->setup(c.n); }
    if (c.kind == 3) { f = Factory::createBluesteinFFT(first); if (c.via) f->setup(c.n); }
    objects++;
    for (int q = 0; q < (c.big ? 2 : 8); q++) {
        const int m = c.big ? int(r.below(8)) : q;
        double* a = (double*)malloc(16 * n);
        double* b = (double*)malloc(16 * n);
        if (c.kind == 2) {
            for (size_t i = 0; i < n; i++) a[i] = r.uni();
            dcall(*d, m, a);
            check(a, 8 * n);
        }
        else if (c.kind != 1) {
            for (size_t i = 0; i < 2 * n; i++) a[i] = r.uni();
            ccall(*f, m, (complex_t*)a);
            check(a, 16 * n);
        }
        else if (m < 4) {
            for (size_t i = 0; i < n; i++) a[i] = r.uni();
            rcall(*g, m, a, (complex_t*)b);
            check(b, 16 * n);
        }
        else {
            for (size_t i = 0; i <= n / 2; i++) {
                const size_t j = (n - i) % n;
                const double re = r.uni(), im = i == j ? 0 : r.uni();
                b[2 * i] = b[2 * j] = re;
                b[2 * j + 1] = -im;
                b[2 * i + 1] = im;
            }
            rcall(*g, m, a, (complex_t*)b);
            check(a, 8 * n);
        }
        calls++;
        cell(c.kind, c.n, m);
        free(a);
        free(b);
    }
}
// whether n has a prime factor above p
static bool big_factor(int n, int p)
{
    for (int q = 2; q <= p && n > 1; q++) while (n % q == 0) n /= q;
    return n > 1;
}
int main(int argc, char** argv)
{
    rep = write(3, "", 0) == 0 ? 3 : 1;
    __msan_set_death_callback(on_death);
    uint64_t seed = 1;
    int shard = 0, shards = 1;
    bool T = false;
    const char* ctr = 0;
    const char* one = 0;
    for (int i = 2; i < argc; i++) {
        if (!strncmp(argv[i], "seed=", 5)) seed = strtoull(argv[i] + 5, 0, 0);
        if (!strncmp(argv[i], "shard=", 6)) shard = atoi(argv[i] + 6);
        if (!strncmp(argv[i], "shards=", 7)) shards = atoi(argv[i] + 7);
        if (!strncmp(argv[i], "thorough=", 9)) T = atoi(argv[i] + 9);
        if (!strncmp(argv[i], "ctr=", 4)) ctr = argv[i] + 4;
        if (!strncmp(argv[i], "--one=", 6)) one = argv[i] + 6;
    }
    Rng r{seed * 77 + 8};
    if (one) {
        Case c;
        unsigned long long s = 0;
        if (sscanf(one, "kind=%d n=%d thr=%d via=%d seed=%llu big=%d", &c.kind, &c.n, &c.thr, &c.via, &s, &c.big) != 6) return 3;
        c.seed = s;
        add(c);
    }
    else {
        static const int odd[] = {3, 5, 7, 9, 11, 15, 21, 25, 27, 35, 45, 49, 63, 75, 81, 105, 121, 135, 169, 225, 243, 343, 375, 625, 729, 1155};
        for (int k = 0; k < 4; k++) {
            const int mult = k == 0 ? 1 : 2, top = k == 3 ? (T ? 18 : 16) : T ? 21 : 19;
            for (int l = top; l >= 1; l--) add({k, 1 << l, 1 + int(r.below(6)), int(r.below(3)) - 1 ? 0 : -1, l > 15, r.next()});
            if (k != 3)
                for (int i = 0; i < (T ? 300 : 60); i++) {
                    int n = 2 * mult * odd[r.below(26)];
                    while (n < 32768 * mult) n *= 2;
                    add({k, n, 2 + int(r.below(5)), 0, 1, r.next()});
                }
            for (int q = 0; q < (T ? 6 : 1); q++)
                for (int lo = k == 3 ? 32768 : 65536; lo >= 512; lo /= 2)
                    for (int res = 0; res < 16; res += k == 3 ? 1 : 2) {
                        int n;
                        do n = lo + 16 * int(r.below(unsigned(lo) / 16)) + res; while (k != 3 && big_factor(k == 0 ? n : n / 2, 120));
                        add({k, n, 1 + int(r.below(4)), 0, n > 8000, r.next()});
                    }
            for (int i = 0; i < (T ? 6000 : 900); i++) {
                int e = 4 + int(r.below(10)), n = (1 << e) + int(r.below(1u << e));
                if (k != 3) {
                    n = 2 * odd[r.below(26)];
                    while (n < (1 << e)) n *= 2 + int(r.below(2));
                }
                add({k, n, 1 + int(r.below(3)), int(r.below(3)) ? 0 : 2 + 2 * int(r.below(300)), n > 8000, r.next()});
            }
            for (int n = T ? 3000 : k == 3 ? 500 : 1400; n >= 1; n--)
                if (k == 3 || n % 2 == 0) add({k, n, 1, int(r.below(3)) ? 0 : int(r.below(2)) ? -1 : 2 + 2 * int(r.below(100)), 0, r.next()});
        }
    }
    uint64_t local = 0, *next = &local;
    if (ctr) {
        int fd = open(ctr, O_RDWR);
        void* m = mmap(0, 4096 + 1024 * size_t(shards), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) return 3;
        close(fd);
        next = (uint64_t*)m;
        cur = (char*)m + 4096 + 1024 * shard;
    }
    for (;;) {
        const size_t i = __atomic_fetch_add(next, 1, __ATOMIC_RELAXED);
        if (i >= ncases) break;
        run(cases[i]);
    }
    cur[0] = 0;
    dprintf(rep, "{\"done\":1,\"sum\":{\"calls\":%zu,\"msan_objects\":%zu,\"msan_checked_words\":%zu},\"max\":{},\"samples\":[],\"cells\":[", calls, objects, checked);
    for (size_t i = 0; i < ncells; i++) dprintf(rep, "%s%llu", i ? "," : "", (unsigned long long)cells[i]);
    dprintf(rep, "]}\n");
    return 0;
}
