// C15: runs the library one instruction at a time (trap flag) from before the first static constructor,
// pretending to be another processor: CPUID and XGETBV executed by the program's own code are answered from a
// profile, and every other instruction of the program is classified by the instruction set it needs.
#include "cmds.hpp"
#include "alloc.h"
#include <signal.h>
#include <ucontext.h>
using namespace otv;
namespace otv { std::map<std::string, Cmd>& registry() { static std::map<std::string, Cmd> m; return m; } }
extern "C" __attribute__((weak)) void _ZN10OTFFT_SSE214OTFFT_AVXDIF168instanceEv() { throw otv::Unavailable(); }
extern "C" char __executable_start, etext;

enum Isa { BASE = 0, SSE3, SSSE3, SSE41, SSE42, POPCNT, LZCNT, I_AVX, I_AVX2, FMA, F16C, BMI, AES, PCLMUL, XOP, AVX512, XSAVE, ISAS };
static const char* const isa_name[] = {"base", "SSE3", "SSSE3", "SSE4.1", "SSE4.2", "POPCNT", "LZCNT", "AVX", "AVX2", "FMA", "F16C", "BMI", "AES", "PCLMUL", "XOP", "AVX-512", "XSAVE"};
struct Profile {
    const char* name;
    uint32_t maxleaf, ecx1, edx1, ebx7;
    uint64_t xcr0;
    uint32_t limit_ebx; // EBX of the highest leaf, which Intel returns for leaves beyond it
};
enum : uint32_t {
    C_SSE3 = 1u, C_PCLMUL = 2u, C_SSSE3 = 1u << 9, C_FMA = 1u << 12, C_SSE41 = 1u << 19, C_SSE42 = 1u << 20, C_POPCNT = 1u << 23, C_AES = 1u << 25, C_XSAVE = 1u << 26, C_OSX = 1u << 27,
    C_AVX = 1u << 28, C_F16C = 1u << 29, C_NEHALEM = C_SSE3 | C_SSSE3 | C_SSE41 | C_SSE42 | C_POPCNT, C_SNB = C_NEHALEM | C_PCLMUL | C_AES | C_XSAVE | C_OSX | C_AVX,
    C_HSW = C_SNB | C_FMA | C_F16C, D_X64 = 0x07808111u, B_HSW = 0x28u | 0x100u, B_BMI = 0x108u, B_AVX2 = 0x20u, B_512 = 0xD0030000u
};
static const Profile profiles[] = {
    {"K8 (SSE2 only)", 1, 0, D_X64, 0, 0, 0},
    {"Prescott (SSE3)", 5, C_SSE3, D_X64, 0, 0, 0x40},
    {"Core 2 (SSSE3)", 10, C_SSE3 | C_SSSE3, D_X64, 0, 0, 0},
    {"Penryn with XSAVE, x87/SSE state only", 13, C_SSE3 | C_SSSE3 | C_SSE41 | C_XSAVE | C_OSX, D_X64, 0, 3, 0},
    {"Nehalem (SSE4.2)", 11, C_NEHALEM, D_X64, 0, 0, 0xFF},
    {"Sandy Bridge (AVX)", 13, C_SNB, D_X64, 0, 7, 0x340},
    {"Sandy Bridge, CPUID limited to leaf 2", 2, C_SNB, D_X64, 0, 7, 0x00F0B2FF},
    {"Sandy Bridge, OS without XSAVE", 13, C_SNB & ~C_OSX, D_X64, 0, 0, 0x340},
    {"Sandy Bridge, OS without AVX state", 13, C_SNB, D_X64, 0, 3, 0x340},
    {"Sandy Bridge, OS with AVX but no SSE state bit", 13, C_SNB, D_X64, 0, 5, 0x340},
    {"AVX masked by a hypervisor", 13, C_NEHALEM | C_XSAVE | C_OSX, D_X64, 0, 3, 0x340},
    {"Haswell (AVX2, FMA, BMI)", 13, C_HSW, D_X64, B_HSW, 7, 0x340},
    {"Haswell, OS without XSAVE", 13, C_HSW & ~C_OSX, D_X64, B_HSW, 0, 0x340},
    {"Haswell, OS without AVX state", 13, C_HSW, D_X64, B_HSW, 3, 0x340},
    {"AVX2 without FMA or BMI (VIA)", 13, C_SNB, D_X64, B_AVX2, 7, 0x340},
    {"AVX2 without SSE4.2's POPCNT bit", 13, C_SNB & ~C_POPCNT, D_X64, B_AVX2, 7, 0x340},
    {"Skylake-X (AVX-512)", 22, C_HSW, D_X64, B_HSW | B_512, 0xE7, 0x340},
    {"Skylake-X, OS with AVX state only", 22, C_HSW, D_X64, B_HSW | B_512, 7, 0x340},
    {"no SSE2 reported", 2, 0, D_X64 & ~0x04000000u, 0, 0, 0},
    {"no CPUID leaves", 0, C_HSW, D_X64, B_HSW, 7, 0},
    {"Piledriver (AVX, FMA, no AVX2)", 13, C_SNB | C_FMA | C_F16C, D_X64, 0x8, 7, 0},
};
static const int NP = sizeof profiles / sizeof *profiles;
static const Profile* P = 0;
static bool allowed[ISAS];

// what happened while stepping
static volatile bool want_off, stepping;
static uint64_t n_steps, n_cpuid, n_xgetbv, n_isa[ISAS];
struct Bad { uint64_t off; int isa; unsigned char b[8]; uint64_t n; };
static Bad bads[64];
static int n_bads;
static int first_isa_bad = -1;

static int classify(const unsigned char* p)
{
    bool opsize = false;
    int rep = 0;
    for (;; p++) {
        if (*p == 0x66) opsize = true;
        else if (*p == 0xF2 || *p == 0xF3) rep = *p;
        else if (*p == 0x2E || *p == 0x36 || *p == 0x3E || *p == 0x26 || *p == 0x64 || *p == 0x65 || *p == 0x67 || *p == 0xF0) {}
        else break;
    }
    if ((*p & 0xF0) == 0x40) p++;
    if (*p == 0x62) return AVX512;
    if (*p == 0xC4 || *p == 0xC5) {
        int map, L, pp, W = 0, op, modrm;
        if (*p == 0xC5) { map = 1; L = p[1] >> 2 & 1; pp = p[1] & 3; op = p[2]; modrm = p[3]; }
        else { map = p[1] & 31; W = p[2] >> 7; L = p[2] >> 2 & 1; pp = p[2] & 3; op = p[3]; modrm = p[4]; }
        (void)W;
        const bool reg = modrm >> 6 == 3;
        if (map == 1) {
            if (op >= 0x41 && op <= 0x4B && pp != 2 && pp != 3) return AVX512; // mask registers
            if (op >= 0x90 && op <= 0x99) return AVX512;
            if (!L) return I_AVX;
            if ((op >= 0x60 && op <= 0x6D) || (op >= 0x70 && op <= 0x76) || (op >= 0xD1 && op <= 0xD5) || op == 0xD7 || (op >= 0xD8 && op <= 0xDF) ||
                (op >= 0xE0 && op <= 0xE5) || (op >= 0xE8 && op <= 0xEF) || (op >= 0xF1 && op <= 0xF6) || (op >= 0xF8 && op <= 0xFE)) return I_AVX2;
            return I_AVX;
        }
        if (map == 2) {
            if (op <= 0x0B) return L ? I_AVX2 : I_AVX;
            if (op <= 0x0F) return I_AVX;
            if (op == 0x13) return F16C;
            if (op == 0x16) return I_AVX2;
            if (op == 0x17) return I_AVX;
            if (op >= 0x18 && op <= 0x1A) return reg ? I_AVX2 : I_AVX;
            if (op >= 0x1C && op <= 0x2B) return L ? I_AVX2 : I_AVX;
            if (op >= 0x2C && op <= 0x2F) return I_AVX;
            if (op == 0x36) return I_AVX2;
            if (op >= 0x30 && op <= 0x40) return L ? I_AVX2 : I_AVX;
            if (op == 0x41) return I_AVX;
            if ((op >= 0x45 && op <= 0x47) || (op >= 0x58 && op <= 0x5A) || op == 0x78 || op == 0x79 || op == 0x8C || op == 0x8E || (op >= 0x90 && op <= 0x93)) return I_AVX2;
            if ((op >= 0x96 && op <= 0x9F) || (op >= 0xA6 && op <= 0xAF) || (op >= 0xB6 && op <= 0xBF)) return FMA;
            if (op >= 0xDB && op <= 0xDF) return AES;
            if (op >= 0xF2 && op <= 0xF7) return BMI;
            return I_AVX2;
        }
        if (map == 3) {
            if (op <= 0x02 || op == 0x38 || op == 0x39 || op == 0x46) return I_AVX2;
            if (op == 0x0E || op == 0x0F || op == 0x42 || op == 0x4C) return L ? I_AVX2 : I_AVX;
            if (op == 0x1D) return F16C;
            if (op == 0x30 || op == 0x31 || op == 0x32 || op == 0x33) return AVX512;
            if (op == 0x44) return PCLMUL;
            if (op == 0xDF) return AES;
            if (op == 0xF0) return BMI;
            return I_AVX;
        }
        return AVX512;
    }
    if (*p == 0x8F && (p[1] & 0x1F) >= 8 && (p[1] & 0x38) != 0) return XOP;
    if (*p != 0x0F) return BASE;
    const int op = p[1];
    if (op == 0x01 && p[2] == 0xD0) return XSAVE;
    if (op == 0x38) {
        const int o = p[2];
        if (o <= 0x0B || (o >= 0x1C && o <= 0x1E)) return SSSE3;
        if (o == 0x37) return SSE42;
        if (o == 0xF0 || o == 0xF1) return rep == 0xF2 ? SSE42 : BMI;
        if (o >= 0xDB && o <= 0xDF) return AES;
        if (o == 0xF6) return BMI; // ADX
        return SSE41;
    }
    if (op == 0x3A) {
        const int o = p[2];
        if (o == 0x0F) return SSSE3;
        if (o >= 0x60 && o <= 0x63) return SSE42;
        if (o == 0x44) return PCLMUL;
        if (o == 0xDF) return AES;
        return SSE41;
    }
    if (op == 0xB8 && rep == 0xF3) return POPCNT;
    if (op == 0xBD && rep == 0xF3) return LZCNT;
    if ((op == 0x7C || op == 0x7D) && (opsize || rep == 0xF2)) return SSE3;
    if (op == 0xD0 && (opsize || rep == 0xF2)) return SSE3;
    if (op == 0xF0 && rep == 0xF2) return SSE3;
    if ((op == 0x12 || op == 0x16) && rep) return (op == 0x16 && rep == 0xF2) ? BASE : SSE3;
    return BASE;
}

// Where the linker put the code compiled for each backend (from the link map), as offsets.
struct Range { uint64_t a, b; int be; };
static Range ranges[256];
static int n_ranges;
static volatile int phase; // 1 while a transform call runs
static uint64_t ran_in[4], ran_any[4]; // instructions of each backend's code: during calls, at all
static void load_ranges(const char* file)
{
    FILE* f = fopen(file, "r");
    unsigned long long a, b;
    int be;
    while (f && n_ranges < 256 && fscanf(f, "%llx %llx %d", &a, &b, &be) == 3) ranges[n_ranges++] = Range{a, b, be};
    if (f) fclose(f);
}
static void on_trap(int, siginfo_t*, void* u)
{
    auto& g = ((ucontext_t*)u)->uc_mcontext.gregs;
    if (want_off) { g[REG_EFL] &= ~0x100LL; stepping = false; return; }
    g[REG_EFL] |= 0x100;
    for (;;) {
        const unsigned char* ip = (const unsigned char*)g[REG_RIP];
        if ((char*)ip < &__executable_start || (char*)ip >= &etext) return;
        n_steps++;
        if (ip[0] == 0x0F && ip[1] == 0xA2) {
            n_cpuid++;
            const uint32_t leaf = uint32_t(g[REG_RAX]), sub = uint32_t(g[REG_RCX]);
            uint32_t a = 0, b = 0, c = 0, d = 0;
            if (leaf >= 0x80000000u) {
                if (leaf == 0x80000000u) a = 0x80000008u;
                if (leaf == 0x80000001u) { c = 1; d = 0x28100800u; }
                if (leaf == 0x80000008u) a = 0x3028;
            }
            else {
                uint32_t l = leaf > P->maxleaf ? P->maxleaf : leaf;
                if (l == 0) { a = P->maxleaf; b = 0x756E6547; c = 0x6C65746E; d = 0x49656E69; }
                else if (l == 1) { a = 0x206A7; b = 0x00100800; c = P->ecx1; d = P->edx1; }
                else if (l == 7) { if (sub == 0) b = P->ebx7; }
                else if (l == P->maxleaf) { a = 7; b = P->limit_ebx; c = 0x340; d = 0; }
            }
            g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d;
            g[REG_RIP] += 2;
            continue; // the instruction after it has not been seen yet
        }
        const uint64_t off = uint64_t((char*)ip - &__executable_start);
        for (int i = 0; i < n_ranges; i++)
            if (off >= ranges[i].a && off < ranges[i].b) { ran_any[ranges[i].be]++; if (phase) ran_in[ranges[i].be]++; }
        const int isa = classify(ip);
        n_isa[isa]++;
        if (!allowed[isa]) {
            int i = 0;
            for (; i < n_bads; i++) if (bads[i].off == uint64_t((char*)ip - &__executable_start)) break;
            if (i == n_bads && n_bads < 64) { bads[i].off = uint64_t((char*)ip - &__executable_start); bads[i].isa = isa; memcpy(bads[i].b, ip, 8); bads[i].n = 0; n_bads++; }
            if (i < 64) bads[i].n++;
        }
        if (isa == XSAVE) {
            n_xgetbv++;
            g[REG_RAX] = uint32_t(P->xcr0);
            g[REG_RDX] = P->xcr0 >> 32;
            g[REG_RIP] += 3;
            continue;
        }
        return;
    }
}
static void step_on()
{
    want_off = false;
    stepping = true;
    asm volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "cc", "memory");
}
static void step_off()
{
    want_off = true;
    for (int i = 0; i < 1000 && stepping; i++) asm volatile("nop");
}
static void pre(int argc, char** argv, char**)
{
    int k = -1;
    for (int i = 1; i < argc; i++) {
        const char* s = strstr(argv[i], "profile=");
        if (s) k = atoi(s + 8);
    }
    if (k < 0 || k >= NP) return;
    P = &profiles[k];
    const uint32_t c = P->ecx1;
    const bool l1 = P->maxleaf >= 1, os = l1 && (c & C_OSX) && (P->xcr0 & 6) == 6, avx = os && (c & C_AVX), l7 = P->maxleaf >= 7;
    allowed[BASE] = true;
    allowed[SSE3] = l1 && (c & C_SSE3);
    allowed[SSSE3] = l1 && (c & C_SSSE3);
    allowed[SSE41] = l1 && (c & C_SSE41);
    allowed[SSE42] = l1 && (c & C_SSE42);
    allowed[POPCNT] = l1 && (c & C_POPCNT);
    allowed[LZCNT] = false;
    allowed[I_AVX] = avx;
    allowed[I_AVX2] = avx && l7 && (P->ebx7 & B_AVX2);
    allowed[FMA] = avx && (c & C_FMA);
    allowed[F16C] = avx && (c & C_F16C);
    allowed[BMI] = l7 && (P->ebx7 & B_BMI) == B_BMI;
    allowed[AES] = l1 && (c & C_AES);
    allowed[PCLMUL] = l1 && (c & C_PCLMUL);
    allowed[XOP] = false;
    allowed[AVX512] = avx && l7 && (P->ebx7 & 0x10000) && (P->xcr0 & 0xE6) == 0xE6;
    allowed[XSAVE] = l1 && (c & C_OSX);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, 0);
    step_on();
}
__attribute__((section(".preinit_array"), used)) static void (*pre_p)(int, char**, char**) = pre;

struct Off { Off() { step_off(); } ~Off() { step_on(); } };
static std::string hex(const unsigned char* b)
{
    std::string s;
    for (int i = 0; i < 8; i++) s += fmt("%02x ", b[i]);
    return s;
}
static void report_bad(const std::string& when)
{
    for (int i = 0; i < n_bads; i++)
        violation("illegal-instruction", fmt("on %s, %s: executed %s code the processor lacks at +0x%llx (%s), %llu times", P->name, when.c_str(), isa_name[bads[i].isa], (unsigned long long)bads[i].off, hex(bads[i].b).c_str(), (unsigned long long)bads[i].n));
    n_bads = 0;
}

int main(int argc, char** argv)
{
    step_off();
    init_report();
    install_crash_handler();
    if (getenv("OTV_RANGES")) load_ranges(getenv("OTV_RANGES"));
    if (!ref_selfcheck()) { emit("{\"fatal\":\"reference self-check failed\"}"); return 3; }
    Args a(argc, argv);
    if (!P) { emit("{\"fatal\":\"no profile\"}"); return 3; }
    Spec s(a.spec);
    set_case(a.spec);
    if (n_steps < 50) { emit("{\"fatal\":\"single-stepping does not work here\"}"); return 3; }
    // The compiler's own support library asks the processor once before main; unless the library asks as well
    // it uses a source we cannot answer, and this run says nothing.
    const uint64_t asked = n_cpuid;
    report_bad("before main");
    const bool os = P->maxleaf >= 1 && (P->ecx1 & C_OSX) && (P->xcr0 & 6) == 6;
    const bool has[4] = {false, P->maxleaf >= 1 && (P->edx1 & 0x04000000u) != 0, os && (P->ecx1 & C_AVX), os && (P->ecx1 & C_AVX) && P->maxleaf >= 7 && (P->ebx7 & B_AVX2)};
    std::vector<int> in; // compiled in
#ifdef OTFFT_WITH_SSE2
    in.push_back(SSE2);
#endif
#ifdef OTFFT_WITH_AVX
    in.push_back(AVX);
#endif
#ifdef OTFFT_WITH_AVX2
    in.push_back(AVX2);
#endif
    auto supported = [&](int be) {
        bool any = false;
        for (int b : in) if (has[b]) { any = true; if (b == be) return true; }
        return be == AUTO && any;
    };
    omp_set_num_threads(1);
    Rng r(s.u("seed", 1));
    std::vector<int> order;
    for (int be : in) order.push_back(be);
    order.push_back(AUTO);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]); // the first request may be any
    for (int be : order)
        for (int kk = 0; kk < 4; kk++) {
            const Kind k = Kind((kk + s.i("seed", 0)) % 4);
            static const int ns[] = {2, 4, 6, 8, 16, 20, 32, 36, 64, 60};
            static const int big[] = {256, 512, 1024, 100, 90, 210};
            const int n = int(ns[r.below(10)]), n2 = r.chance(0.06) ? big[r.below(6)] : int(ns[r.below(10)]);
            const int how = int(r.below(3)); // with a length, without and set up later, never set up
            std::vector<double> x, y;
            const int m1 = mode_ok(k, FWDU) ? r.range(FWD, FWDN) : (r.chance(0.5) ? FWD : FWD0), m2 = mode_ok(k, INVU) ? r.range(INV, INVN) : r.chance(0.5) ? INV : INV0;
            const int m = r.chance(0.5) ? m1 : m2;
            Obj proto(k, n2, AUTO, Obj::Empty());
            x.resize(proto.in_doubles(m));
            make_call_input(proto, m, 0, r.next(), x.data());
            y.assign(proto.out_doubles(m), 0);
            const auto xin = x;
            const auto c0 = alloc::get();
            int outcome = 0;
            std::string text;
            bool null = true, ran = false;
            {
                Obj o(k, n, be, Obj::Empty());
                alloc::track(true);
                step_on();
                try {
                    o.create(how == 0 ? n2 : 0, be);
                    null = !(o.c || o.r || o.d);
                    if (!null && how != 2) {
                        if (how == 1) { o.setup(n); o.setup(n2); }
                        o.n = n2;
                        memset(ran_in, 0, sizeof ran_in);
                        phase = 1;
                        o.run(m, x.data(), y.data());
                        phase = 0;
                        ran = true;
                    }
                    o.c.reset();
                    o.r.reset();
                    o.d.reset();
                }
                catch (const std::domain_error& e) { outcome = 1; }
                catch (const Unavailable&) { outcome = 3; }
                catch (const std::exception& e) { step_off(); outcome = 2; text = e.what(); }
                catch (...) { step_off(); outcome = 2; text = "a foreign exception"; }
                step_off();
                alloc::track(false);
                null = outcome ? !(o.c || o.r || o.d) : null;
            }
            const auto c1 = alloc::get();
            const std::string what = fmt("%s %s n=%d", backend_name[be], kind_name[k], n2);
            st.add("calls");
            if (outcome == 3) { st.add("skipped"); n_bads = 0; continue; }
            if (n_cpuid == asked) { st.add("not_emulated"); n_bads = 0; continue; }
            report_bad(what);
            st.cell(fmt("%s/%d/%d/%d/%d", P->name, be, int(k), how, m));
            const bool sup = supported(be);
            if (sup && outcome) violation("refused", fmt("on %s: %s is supported but the factory threw %s", P->name, what.c_str(), outcome == 1 ? "std::domain_error" : text.c_str()));
            if (!sup && outcome == 0) violation("not-refused", fmt("on %s: %s is not supported but the factory returned an object", P->name, what.c_str()));
            if (!sup && outcome == 2) violation("wrong-exception", fmt("on %s: %s is not supported and the factory threw %s", P->name, what.c_str(), text.c_str()));
            if (!sup && outcome == 1) st.add("refused");
            if (sup && null && !outcome) violation("null", fmt("on %s: %s: null object", P->name, what.c_str()));
            if (c1.live_blocks != c0.live_blocks) violation("leak", fmt("on %s: %s: %lld blocks left after the pointer was reset", P->name, what.c_str(), (long long)(c1.live_blocks - c0.live_blocks)));
            if (ran && n_ranges) {
                // code compiled for the requested backend does the work, and none for a backend the processor lacks
                uint64_t other = 0;
                for (int b = SSE2; b <= AVX2; b++) {
                    if (b != be) other += ran_in[b];
                    if (ran_in[b]) st.add(std::string("instructions of calls in ") + backend_name[b] + " code", double(ran_in[b]));
                    if (ran_in[b] && !has[b]) violation("unsupported-code", fmt("on %s: %s %s ran %llu instructions of code compiled for %s", P->name, what.c_str(), mode_name[m], (unsigned long long)ran_in[b], backend_name[b]));
                }
                if (be != AUTO && !ran_in[be] && other) violation("other-backend", fmt("on %s: %s %s ran %llu instructions of other backends' code and none of its own", P->name, what.c_str(), mode_name[m], (unsigned long long)other));
            }
            if (ran) {
                // a working object of the requested kind: compare with the definition
                std::vector<lc> v(n2);
                std::vector<double> want(proto.out_doubles(m));
                const double* got = proto.inplace() ? x.data() : y.data();
                const ld sc = scale_of(m, n2);
                double worst = 0, top = 1e-300;
                const ld PI = 3.14159265358979323846264338327950288L;
                for (int q = 0; q < n2; q++) {
                    ld re = 0, im = 0;
                    if (k == DCT) {
                        for (int j = 0; j < n2; j++)
                            re += is_inv(m) ? (j ? 2 : 1) * xin[j] * cosl(PI * j * (2 * q + 1) / (2.0L * n2)) : xin[j] * cosl(PI * q * (2 * j + 1) / (2.0L * n2));
                        want[q] = double(re * sc);
                        continue;
                    }
                    for (int j = 0; j < n2; j++) {
                        const lc w = root(uint64_t(q) * j % n2, n2), u = is_inv(m) ? cj(w) : w;
                        const bool real = k == REAL && !is_inv(m);
                        const lc xx = {real ? xin[j] : xin[2 * j], real ? 0 : xin[2 * j + 1]};
                        const lc t = xx * u;
                        re += t.re;
                        im += t.im;
                    }
                    if (k == REAL && is_inv(m)) want[q] = double(re * sc);
                    else { want[2 * q] = double(re * sc); want[2 * q + 1] = double(im * sc); }
                }
                for (size_t i = 0; i < want.size(); i++) { top = std::max(top, std::fabs(want[i])); worst = std::max(worst, std::fabs(want[i] - got[i])); if (got[i] != got[i]) worst = 1e300; }
                st.add("compared");
                if (worst > 1e-12 * top) violation("wrong-result", fmt("on %s: %s %s differs from its definition by %g", P->name, what.c_str(), mode_name[m], worst / top));
            }
        }
    st.add("instructions", double(n_steps));
    st.add("cpuid", double(n_cpuid));
    st.add("xgetbv", double(n_xgetbv));
    for (int i = 0; i < ISAS; i++) if (n_isa[i] && i) st.add(std::string("executed ") + isa_name[i], double(n_isa[i]));
    st.sample(fmt("%s: %llu instructions, %llu CPUID, %llu XGETBV", P->name, (unsigned long long)n_steps, (unsigned long long)n_cpuid, (unsigned long long)n_xgetbv));
    finish();
    return 0;
}
