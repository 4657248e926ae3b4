#include "alloc.h"
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
extern char __executable_start, etext;
}
namespace alloc {
static std::atomic<bool> g_track{false};
static std::atomic<uint64_t> g_calls{0}, g_failed{0}, g_foreign{0}, g_bad{0};
static std::atomic<int64_t> g_blocks{0}, g_bytes{0};
static std::atomic<long> g_fail{0};
static std::atomic<bool> g_every{false}, g_pfree{false};
static std::atomic<size_t> g_limit{0};
static std::atomic<int> g_poison{0}, g_guard{0};
static std::atomic<uint64_t> g_seed{1};

// table of tracked live blocks: open addressing, fixed size
struct Ent { std::atomic<void*> p; size_t n; char* map; size_t maplen; };
static const size_t CAP = 1 << 16;
static Ent tab[CAP];
static std::atomic_flag lk = ATOMIC_FLAG_INIT;
struct Lock {
    Lock() { while (lk.test_and_set(std::memory_order_acquire)) {} }
    ~Lock() { lk.clear(std::memory_order_release); }
};
static void* const TOMB = (void*)1;
static size_t slot(void* p) { return (uintptr_t(p) >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
static Ent* find(void* p)
{
    for (size_t i = slot(p), k = 0; k < CAP; i = (i + 1) % CAP, k++) {
        void* q = tab[i].p;
        if (q == p) return &tab[i];
        if (!q) return 0;
    }
    return 0;
}
static void insert(void* p, size_t n, char* map, size_t maplen)
{
    Lock g;
    for (size_t i = slot(p), k = 0; k < CAP; i = (i + 1) % CAP, k++)
        if (tab[i].p == 0 || tab[i].p == TOMB) {
            tab[i].n = n;
            tab[i].map = map;
            tab[i].maplen = maplen;
            tab[i].p = p;
            break;
        }
    g_blocks++;
    g_bytes += int64_t(n);
}
void track(bool on) { g_track = on; }
bool tracking() { return g_track; }
Counters get() { return Counters{g_calls, g_failed, g_blocks, g_bytes, g_foreign, g_bad}; }
void reset_counters() { g_calls = 0; g_failed = 0; g_foreign = 0; g_bad = 0; g_blocks = 0; g_bytes = 0; }
void poison(int k, uint64_t seed) { g_poison = k; g_seed = seed; }
void poison_free(bool on) { g_pfree = on; }
void fail_at(long k, bool every) { g_every = every; g_fail = k; }
void limit(size_t b) { g_limit = b; }
void guard(int m) { g_guard = m; }

static void fill(void* p, size_t n, int kind)
{
    unsigned char* c = (unsigned char*)p;
    uint64_t s = g_seed * 0x9E3779B97F4A7C15ull + n;
    for (size_t i = 0; i < n; i += 8) {
        uint64_t w;
        switch (kind) {
        case 1: w = 0; break;
        case 2: w = ~0ull; break;
        case 3: w = 0x7FE123456789ABCDull ^ (i << 61); break;
        case 5: w = 0x000FEDCBA9876543ull; break;
        case 6: w = 0x7FF4000000000001ull; break;
        default:
            s = s * 6364136223846793005ull + 1442695040888963407ull;
            w = s ^ (s >> 29);
        }
        memcpy(c + i, &w, n - i < 8 ? n - i : 8);
    }
}
static bool ours(void* ra) { return (char*)ra >= &__executable_start && (char*)ra < &etext; }

static void* guarded(size_t n, size_t al, int mode)
{
    const size_t pg = 4096;
    size_t body = (n + al + pg - 1) / pg * pg;
    if (al > pg) return 0;
    char* m = (char*)mmap(0, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return 0;
    mprotect(m + pg, body, PROT_READ | PROT_WRITE);
    char* p = mode == 2 ? m + pg : m + pg + body - n;
    if (mode != 2) p = (char*)(uintptr_t(p) & ~uintptr_t(al - 1));
    // bytes between the end of the block and the page: canary checked at free
    if (mode != 2) memset(p + n, 0x5A, size_t(m + pg + body - (p + n)));
    else memset(p + n, 0x5A, body - n);
    insert(p, n, m, body + 2 * pg);
    return p;
}

// returns 0 with *handled for an injected failure
static void* request(size_t n, size_t al, void* ra, bool* handled)
{
    *handled = false;
    if (!g_track.load(std::memory_order_relaxed) || !ours(ra)) return 0;
    *handled = true;
    g_calls++;
    const size_t most = g_limit.load(std::memory_order_relaxed);
    if (most && n > most) {
        g_failed++;
        return 0;
    }
    if (g_fail.load(std::memory_order_relaxed) > 0) {
        long k = --g_fail;
        if (k == 0) {
            if (g_every) g_fail = 1;
            g_failed++;
            return 0;
        }
    }
    void* p;
    const int gm = g_guard.load(std::memory_order_relaxed);
    if (gm) p = guarded(n, al < 16 ? 16 : al, gm);
    else {
        p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
        if (p) insert(p, n, 0, 0);
    }
    if (p && g_poison) fill(p, n, g_poison);
    return p;
}
// true if the block was one of ours and is done with
static bool release(void* p, void*)
{
    Ent e;
    {
        if (!g_blocks.load(std::memory_order_relaxed)) return false;
        Lock g;
        Ent* f = find(p);
        if (!f) return false;
        e.n = f->n;
        e.map = f->map;
        e.maplen = f->maplen;
        f->p = TOMB;
        for (size_t i = size_t(f - tab); tab[(i + 1) % CAP].p == 0 && tab[i].p == TOMB; i = (i + CAP - 1) % CAP) tab[i].p = 0;
    }
    g_blocks--;
    g_bytes -= int64_t(e.n);
    if (!g_track.load(std::memory_order_relaxed)) g_foreign++;
    if (e.map) {
        char* end = e.map + e.maplen - 4096;
        for (char* q = (char*)p + e.n; q < end; q++)
            if (*q != 0x5A) {
                static const char msg[] = "alloc: a block was written past its end\n";
                (void)!write(2, msg, sizeof msg - 1);
                abort();
            }
        // stays reserved and inaccessible: a later use faults, a later free is noticed
        static std::atomic<size_t> held{0};
        mmap(e.map, e.maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if ((held += e.maplen) > (size_t(1) << 40)) munmap(e.map, e.maplen);
        return true;
    }
    if (g_pfree) fill(p, e.n, 2);
    return false; // let libc free it
}
} // namespace alloc
using namespace alloc;
extern "C" {
#define RA __builtin_return_address(0)
void* malloc(size_t n)
{
    bool h;
    void* p = request(n, 16, RA, &h);
    if (h) { if (!p) errno = ENOMEM; return p; }
    return __libc_malloc(n);
}
void* calloc(size_t a, size_t b)
{
    bool h;
    if (g_track.load(std::memory_order_relaxed) && ours(RA) && (b == 0 || a <= SIZE_MAX / b)) {
        void* p = request(a * b, 16, RA, &h);
        if (p) memset(p, 0, a * b);
        else errno = ENOMEM;
        return p;
    }
    return __libc_calloc(a, b);
}
void free(void* p)
{
    if (!p) return;
    if (release(p, RA)) return;
    __libc_free(p);
}
void* realloc(void* p, size_t n)
{
    if (p && g_blocks.load(std::memory_order_relaxed)) {
        size_t old = 0;
        bool mine = false;
        { Lock g; Ent* f = find(p); if (f) { mine = true; old = f->n; } }
        if (mine) {
            bool h;
            void* q = request(n, 16, RA, &h);
            if (!h) q = __libc_malloc(n);
            if (!q) { errno = ENOMEM; return 0; }
            memcpy(q, p, old < n ? old : n);
            free(p);
            return q;
        }
    }
    if (!p) {
        bool h;
        void* q = request(n, 16, RA, &h);
        if (h) { if (!q) errno = ENOMEM; return q; }
    }
    return __libc_realloc(p, n);
}
static void* al(size_t a, size_t n, void* ra, int* err)
{
    bool h;
    *err = 0;
    void* p = request(n, a, ra, &h);
    if (!h) p = __libc_memalign(a, n);
    if (!p) *err = ENOMEM;
    return p;
}
void* memalign(size_t a, size_t n) { int e; void* p = al(a, n, RA, &e); if (e) errno = e; return p; }
void* aligned_alloc(size_t a, size_t n) { int e; void* p = al(a, n, RA, &e); if (e) errno = e; return p; }
void* valloc(size_t n) { int e; void* p = al(4096, n, RA, &e); if (e) errno = e; return p; }
int posix_memalign(void** out, size_t a, size_t n)
{
    int e;
    void* p = al(a, n, RA, &e);
    if (e) return e;
    *out = p;
    return 0;
}
} // extern "C"
static void* op_new(size_t n, size_t a, void* ra)
{
    bool h;
    if (n == 0) n = 1;
    void* p = request(n, a, ra, &h);
    if (!h) p = a > 16 ? __libc_memalign(a, n) : __libc_malloc(n);
    return p;
}
void* operator new(size_t n) { void* p = op_new(n, 16, RA); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = op_new(n, 16, RA); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, RA); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, RA); }
void* operator new(size_t n, std::align_val_t a) { void* p = op_new(n, size_t(a), RA); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = op_new(n, size_t(a), RA); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
