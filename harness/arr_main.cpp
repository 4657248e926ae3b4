// C19: random histories of the public aligned allocator and array, compiled for one instruction set, with the
// allocator replaced by one that counts, guards, poisons and fails (or AddressSanitizer's, with -DOTV_ASAN).
#include "otfft_complex.h"
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
#include "alloc.h"
#ifdef OTV_ASAN
namespace alloc {
void track(bool) {}
bool tracking() { return false; }
Counters get() { return Counters(); }
void reset_counters() {}
void poison(int, uint64_t) {}
void poison_free(bool) {}
void fail_at(long, bool) {}
void guard(int) {}
}
#endif
#if defined(__AVX512F__)
static const size_t ALIGN = 64;
#elif defined(__AVX__)
static const size_t ALIGN = 32;
#else
static const size_t ALIGN = 16;
#endif
using OTFFT::simd_array;
static char g_case[1024];
static int rfd = 1, nviol;
static void emit(const std::string& s) { (void)!write(rfd, (s + "\n").data(), s.size() + 1); }
static std::string fmt(const char* f, ...)
{
    char b[1024];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
static void violation(const char* cls, const std::string& what)
{
    if (++nviol > 20) return;
    emit(fmt("{\"viol\":\"%s\",\"case\":\"%s\",\"what\":\"%s\"}", cls, g_case, what.c_str()));
}
static void crash(int sig)
{
    char b[1200];
    int k = snprintf(b, sizeof b, "{\"viol\":\"crash\",\"case\":\"%s\",\"what\":\"signal %d\"}\n", g_case, sig);
    (void)!write(rfd, b, size_t(k));
    _exit(70);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 12345) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return int(next() % uint64_t(n)); }
    bool chance(double p) { return double(next() >> 11) / 9007199254740992.0 < p; }
};
static long n_ops, n_blocks, n_bytes, n_fail, n_big;
static std::set<std::string> cells;

struct S24 { double a, b; int c; };
template <class T> const char* tname();
template <> const char* tname<char>() { return "char"; }
template <> const char* tname<short>() { return "short"; }
template <> const char* tname<int>() { return "int"; }
template <> const char* tname<float>() { return "float"; }
template <> const char* tname<double>() { return "double"; }
template <> const char* tname<OTFFT::complex_t>() { return "complex_t"; }
template <> const char* tname<S24>() { return "struct"; }

template <class T> struct Slot {
    alignas(simd_array<T>) unsigned char raw[sizeof(simd_array<T>)];
    bool alive = false, owns = false;
    int n = 0;
    bool sparse = false; // too large to compare in full: first and last element only
    unsigned char* shadow = 0;
    simd_array<T>& a() { return *(simd_array<T>*)raw; }
    size_t bytes() const { return sparse ? 2 * sizeof(T) : size_t(n) * sizeof(T); }
};
template <class T> static void put(Slot<T>& s, int i, Rng& r)
{
    unsigned char b[sizeof(T)];
    for (size_t k = 0; k < sizeof(T); k++) b[k] = (unsigned char)r.next();
    T* p = r.chance(0.5) ? &s.a()[i] : s.a().operator&() + i;
    memcpy((void*)p, b, sizeof(T));
    memcpy(s.shadow + (s.sparse ? (i ? sizeof(T) : 0) : size_t(i) * sizeof(T)), b, sizeof(T));
}
template <class T> static void filled(Slot<T>& s, int n, Rng& r)
{
    s.owns = true;
    s.n = n;
    s.sparse = size_t(n) * sizeof(T) > (1u << 20);
    s.shadow = (unsigned char*)::operator new(s.bytes());
    T* p = s.a().operator&();
    if (uintptr_t(p) % ALIGN) violation("alignment", fmt("simd_array<%s>(%d) is at an address that is a multiple of %d only, not of %d", tname<T>(), n, int(uintptr_t(p) & -uintptr_t(p)), int(ALIGN)));
    if (&s.a()[0] != p) violation("access", fmt("simd_array<%s>(%d): element 0 is not at the array's address", tname<T>(), n));
    if (&s.a()[n - 1] != p + (n - 1)) violation("access", fmt("simd_array<%s>(%d): the last element is not at the end", tname<T>(), n));
    if (s.sparse) { put(s, 0, r); put(s, n - 1, r); n_big++; }
    else
        for (int i = 0; i < n; i++) put(s, i, r);
    n_blocks++;
    n_bytes += long(n) * long(sizeof(T));
}
template <class T> static void drop(Slot<T>& s)
{
    ::operator delete(s.shadow);
    s.shadow = 0;
    s.owns = false;
    s.n = 0;
}
template <class T> static bool intact(Slot<T>& s)
{
    if (!s.owns) return true;
    const simd_array<T>& c = s.a();
    if (s.sparse) return !memcmp((const void*)&c[0], s.shadow, sizeof(T)) && !memcmp((const void*)&c[s.n - 1], s.shadow + sizeof(T), sizeof(T));
    for (int i = 0; i < s.n; i++)
        if (memcmp((const void*)&c[i], s.shadow + size_t(i) * sizeof(T), sizeof(T))) return false;
    return true;
}
static int length(Rng& r)
{
    switch (r.below(6)) {
    case 0: return 1 + r.below(4);
    case 1: return 1 << r.below(12);
    case 2: return 1 + r.below(5000);
    default: return 1 + r.below(200);
    }
}
template <class T> static void scope(int n, Rng& r) // an array that goes out of scope, also by an exception
{
    simd_array<T> a(n);
    for (int i = 0; i < n; i++) { T t; memset((void*)&t, i & 255, sizeof t); a[i] = t; }
    if (r.chance(0.5)) throw 1;
    if (r.chance(0.5)) a.destroy();
    if (r.chance(0.3)) a.setup(n + 1);
}
template <class T> static void history(Rng& r)
{
    static const int NS = 5;
    Slot<T> s[NS];
#ifdef OTV_ASAN
    const bool interposed = false;
#else
    const bool interposed = true;
#endif
    alloc::reset_counters();
    alloc::guard(r.below(3));
    alloc::poison(2 * r.below(3), r.next());
    alloc::poison_free(true);
    const int ops = 10 + r.below(60);
    for (int q = 0; q < ops; q++) {
        Slot<T>& x = s[r.below(NS)];
        const int n = length(r);
        const bool oom = interposed && r.chance(0.15);
        bool thrown = false;
        const char* name = "";
        n_ops++;
        alloc::track(true);
        if (oom) alloc::fail_at(1, r.chance(0.5));
        try {
            if (!x.alive) {
                if (r.chance(0.3)) { name = "default construction"; new (x.raw) simd_array<T>(); x.alive = true; x.owns = false; }
                else {
                    name = "construction";
                    new (x.raw) simd_array<T>(n);
                    x.alive = true;
                    alloc::track(false);
                    filled(x, n, r);
                    if (oom) { violation("out-of-memory", fmt("constructing simd_array<%s>(%d) succeeded although the allocation failed", tname<T>(), n)); }
                }
            } else switch (r.below(6)) {
                case 0: case 1:
                    name = "setup";
                    { Slot<T> old = x; x.owns = false; ::operator delete(old.shadow); x.shadow = 0; x.n = 0; }
                    x.a().setup(n);
                    alloc::track(false);
                    filled(x, n, r);
                    if (oom) violation("out-of-memory", fmt("setup of simd_array<%s>(%d) succeeded although the allocation failed", tname<T>(), n));
                    break;
                case 2:
                    name = "destroy";
                    x.a().destroy();
                    alloc::track(false);
                    drop(x);
                    break;
                case 3:
                    name = "destruction";
                    x.a().~simd_array<T>();
                    x.alive = false;
                    alloc::track(false);
                    drop(x);
                    break;
                case 4:
                    name = "write";
                    alloc::track(false);
                    if (x.owns) for (int k = 0; k < 5; k++) put(x, x.sparse ? (k & 1 ? x.n - 1 : 0) : r.below(x.n), r);
                    break;
                default:
                    name = "scope";
                    try { scope<T>(n, r); } catch (int) {}
            }
        } catch (const std::bad_alloc&) { thrown = true; }
        alloc::fail_at(0);
        alloc::track(false);
        if (thrown) {
            n_fail++;
            if (!oom) violation("bad_alloc", fmt("%s of simd_array<%s>(%d) threw std::bad_alloc without an allocation failure", name, tname<T>(), n));
        }
        cells.insert(fmt("%s/%s/%d/%d", tname<T>(), name, int(oom), int(thrown)));
        int64_t own = 0, bytes = 0;
        for (int i = 0; i < NS; i++)
            if (s[i].owns) {
                own++;
                bytes += int64_t(s[i].n) * int64_t(sizeof(T));
                if (!intact(s[i])) violation("content", fmt("the contents of a simd_array<%s>(%d) changed during %s of %s", tname<T>(), s[i].n, name, &s[i] == &x ? "it" : "another array"));
            }
        if (interposed) {
            const alloc::Counters c = alloc::get();
            if (c.live_blocks != own) {
                violation("blocks", fmt("after %s%s of a simd_array<%s>(%d) %ld blocks are held instead of %ld", thrown ? "a failed " : "", name, tname<T>(), n, long(c.live_blocks), long(own)));
                break;
            }
            if (c.live_bytes < bytes) violation("size", fmt("%ld bytes are held for arrays of %ld bytes", long(c.live_bytes), long(bytes)));
        }
    }
    for (auto& x : s)
        if (x.alive) {
            alloc::track(true);
            x.a().~simd_array<T>();
            alloc::track(false);
            drop(x);
        }
    if (interposed && alloc::get().live_blocks) violation("leak", fmt("%ld blocks are left when every simd_array<%s> is gone", long(alloc::get().live_blocks), tname<T>()));
    alloc::guard(0);
    alloc::poison(0, 0);
    alloc::poison_free(false);
}
static void raw_blocks(Rng& r)
{
    alloc::reset_counters();
    alloc::guard(r.below(3));
    std::vector<std::pair<unsigned char*, size_t>> v;
    for (int q = 0; q < 60; q++) {
        const size_t n = r.chance(0.5) ? 1 + size_t(r.below(300)) : 1 + size_t(r.below(40000));
        alloc::track(true);
        unsigned char* p = (unsigned char*)OTFFT::simd_malloc(n);
        alloc::track(false);
        n_ops++;
        if (!p) { violation("null", fmt("simd_malloc(%zu) returned null", n)); continue; }
        if (uintptr_t(p) % ALIGN) violation("alignment", fmt("simd_malloc(%zu) returned an address that is a multiple of %d only, not of %d", n, int(uintptr_t(p) & -uintptr_t(p)), int(ALIGN)));
        memset(p, int(n & 255), n);
        v.push_back({p, n});
        n_blocks++;
        if (r.chance(0.5)) {
            const size_t i = size_t(r.below(int(v.size())));
            for (size_t k = 0; k < v[i].second; k++)
                if (v[i].first[k] != (unsigned char)(v[i].second & 255)) { violation("content", fmt("a block of %zu bytes changed", v[i].second)); break; }
            alloc::track(true);
            OTFFT::simd_free(v[i].first);
            alloc::track(false);
            v.erase(v.begin() + long(i));
        }
    }
    for (auto& b : v) { alloc::track(true); OTFFT::simd_free(b.first); alloc::track(false); }
#ifndef OTV_ASAN
    if (alloc::get().live_blocks) violation("leak", fmt("%ld blocks are left after simd_free", long(alloc::get().live_blocks)));
    // what does not fit into memory is refused, as a null pointer or an exception
    alloc::guard(0);
    alloc::track(true);
    alloc::fail_at(1);
    void* p = 0;
    try { p = OTFFT::simd_malloc(1000); } catch (const std::bad_alloc&) {}
    alloc::fail_at(0);
    if (p) { violation("out-of-memory", "simd_malloc succeeded although the allocation failed"); }
    alloc::track(false);
#endif
    cells.insert("simd_malloc");
}
template <class T> static void big(Rng& r) // more than 2^31 bytes: address arithmetic; only first and last element touched
{
#ifndef OTV_ASAN
    alloc::reset_counters();
    alloc::guard(r.below(2));
    const int n = int((uint64_t(1) << (31 + r.below(2))) / sizeof(T)) + r.below(100000);
    Slot<T> x;
    alloc::track(true);
    bool thrown = false;
    try {
        if (r.chance(0.5)) new (x.raw) simd_array<T>(n);
        else { new (x.raw) simd_array<T>(8); x.a().setup(n); }
        x.alive = true;
    } catch (const std::bad_alloc&) { thrown = true; }
    alloc::track(false);
    if (!thrown) {
        const alloc::Counters c = alloc::get();
        if (c.live_bytes < int64_t(n) * int64_t(sizeof(T))) violation("size", fmt("a simd_array<%s>(%d) holds only %ld bytes", tname<T>(), n, long(c.live_bytes)));
        else {
            filled(x, n, r);
            if (!intact(x)) violation("content", "a large array does not keep its contents");
            drop(x);
        }
        alloc::track(true);
        x.a().~simd_array<T>();
        alloc::track(false);
    }
    cells.insert(fmt("%s/large/%d", tname<T>(), int(thrown)));
    alloc::guard(0);
#endif
}
int main(int argc, char** argv)
{
    if (write(3, "", 0) == 0) rfd = 3;
    std::string spec;
    for (int i = 1; i < argc; i++)
        if (!strncmp(argv[i], "--one=", 6)) spec = argv[i] + 6;
    snprintf(g_case, sizeof g_case, "%s", spec.c_str());
#ifndef OTV_ASAN
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, crash);
#endif
    auto num = [&](const char* k, long d) { size_t p = spec.find(k); return p == std::string::npos ? d : atol(spec.c_str() + p + strlen(k)); };
    const long seed = num("seed=", 1), rounds = num("rounds=", 20);
    for (long q = 0; q < rounds; q++) {
        Rng r(uint64_t(seed * 100003 + q));
        snprintf(g_case, sizeof g_case, "%s round=%ld", spec.c_str(), q);
        history<char>(r);
        history<short>(r);
        history<int>(r);
        history<float>(r);
        history<double>(r);
        history<OTFFT::complex_t>(r);
        history<S24>(r);
        raw_blocks(r);
        if (q % 10 == 0) { big<double>(r); big<OTFFT::complex_t>(r); big<int>(r); }
    }
    std::string c;
    std::string opt = spec.substr(0, spec.find(' '));
    for (auto& x : cells) {
        uint64_t h = 1469598103934665603ull;
        for (char ch : opt + x) { h ^= (unsigned char)ch; h *= 1099511628211ull; }
        c += (c.empty() ? "" : ",") + std::to_string(h & 0xFFFFFFFFFFFFull);
    }
    emit("{\"done\":1,\"viol\":" + std::to_string(nviol) + fmt(",\"sum\":{\"calls\":%ld,\"blocks\":%ld,\"bad_allocs\":%ld,\"large_arrays\":%ld},\"max\":{\"required_alignment\":%d},\"samples\":[\"", n_ops, n_blocks, n_fail, n_big, int(ALIGN)) + spec + "\"],\"cells\":[" + c + "]}");
}
