// C20: what a caller can observe of its environment, before and after every library call.
#include "domain.hpp"
#include "alloc.h"
#include <cfenv>
#include <clocale>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <new>
#include <omp.h>
#include <sched.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
extern char** environ;
namespace otv {

static uint32_t mxcsr() { uint32_t v; asm volatile("stmxcsr %0" : "=m"(v)); return v & 0xFFC0; } // control bits, not the sticky flags
static void set_mxcsr(uint32_t v) { asm volatile("ldmxcsr %0" ::"m"(v)); }
static uint16_t x87cw() { uint16_t v; asm volatile("fnstcw %0" : "=m"(v)); return v; }
static void set_x87cw(uint16_t v) { asm volatile("fldcw %0" ::"m"(v)); }
static uint16_t x87tags()
{
    struct { uint32_t w[7]; } e;
    asm volatile("fnstenv %0\n\tfldenv %0" : "+m"(e));
    return uint16_t(e.w[2]);
}
static uint64_t eflags() { uint64_t f; asm volatile("pushfq; popq %0" : "=r"(f)); return f & 0x40400; } // direction and alignment check

typedef std::vector<std::pair<std::string, std::string>> Snap;
static void put(Snap& s, const char* k, const std::string& v) { s.push_back({k, v}); }
static void put(Snap& s, const char* k, long v) { s.push_back({k, fmt("%#lx", v)}); }

static void snap_fp(Snap& s)
{
    put(s, "MXCSR control bits", mxcsr());
    put(s, "x87 control word", x87cw());
    put(s, "x87 register tags", x87tags());
    put(s, "EFLAGS direction/alignment flags", long(eflags()));
}
static void snap_omp(Snap& s)
{
    put(s, "omp_get_max_threads", omp_get_max_threads());
    put(s, "omp_get_dynamic", omp_get_dynamic());
    put(s, "omp_get_max_active_levels", omp_get_max_active_levels());
    put(s, "omp_get_thread_limit", omp_get_thread_limit());
    put(s, "omp_get_level", omp_get_level());
    put(s, "omp_get_num_threads", omp_get_num_threads());
    put(s, "omp_get_thread_num", omp_get_thread_num());
    put(s, "omp_get_cancellation", omp_get_cancellation());
    put(s, "omp_get_default_device", omp_get_default_device());
    put(s, "omp_get_proc_bind", int(omp_get_proc_bind()));
    omp_sched_t k;
    int c;
    omp_get_schedule(&k, &c);
    put(s, "omp_get_schedule", fmt("%d,%d", int(k), c));
}
static void snap_rest(Snap& s, bool slow)
{
    sigset_t m;
    pthread_sigmask(SIG_SETMASK, 0, &m);
    uint64_t mask = 0;
    for (int i = 1; i <= 64; i++)
        if (sigismember(&m, i) == 1) mask |= 1ull << (i - 1);
    put(s, "signal mask", long(mask));
    sigset_t pend;
    sigpending(&pend);
    long pc = 0;
    for (int i = 1; i <= 64; i++) pc += sigismember(&pend, i) == 1;
    put(s, "pending signals", pc);
    std::string h;
    for (int i = 1; i <= 64; i++) {
        struct sigaction a;
        if (sigaction(i, 0, &a)) continue;
        uint64_t v = fnv(&a.sa_sigaction, sizeof a.sa_sigaction) ^ uint64_t(a.sa_flags) * 31;
        for (int q = 1; q <= 64; q++) v = v * 3 + uint64_t(sigismember(&a.sa_mask, q) == 1);
        h += fmt("%d:%llx ", i, (unsigned long long)v);
    }
    put(s, "signal handlers", h);
    stack_t ss;
    sigaltstack(0, &ss);
    put(s, "alternate signal stack", fmt("%p %d", ss.ss_sp, ss.ss_flags));
    fflush(0);
    std::cout.flush();
    std::cerr.flush();
    for (int f = 1; f <= 2; f++) {
        struct stat b;
        if (!fstat(f, &b)) put(s, f == 1 ? "bytes written to standard output" : "bytes written to standard error", fmt("%llu %ld", (unsigned long long)b.st_size, long(lseek(f, 0, SEEK_CUR))));
    }
    std::string fds;
    for (int f = 0; f < 64; f++) {
        int fl = fcntl(f, F_GETFD), st = fl < 0 ? 0 : fcntl(f, F_GETFL);
        if (fl >= 0) fds += fmt("%d:%x:%x ", f, fl, st);
    }
    put(s, "file descriptors", fds);
    put(s, "locale", setlocale(LC_ALL, 0));
    put(s, "new handler", long(uintptr_t(std::get_new_handler())));
    put(s, "terminate handler", long(uintptr_t(std::get_terminate())));
    put(s, "std::cout format", fmt("%ld %ld %d", long(std::cout.flags()), long(std::cout.precision()), int(std::cout.rdstate())));
    cpu_set_t cs;
    CPU_ZERO(&cs);
    sched_getaffinity(0, sizeof cs, &cs);
    put(s, "processor affinity", long(fnv(&cs, sizeof cs)));
    put(s, "scheduling policy", long(sched_getscheduler(0)));
    errno = 0;
    put(s, "priority", long(getpriority(PRIO_PROCESS, 0)));
    for (int w : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) {
        itimerval t;
        getitimer(w, &t);
        put(s, "interval timers", long(t.it_interval.tv_sec + t.it_value.tv_sec + t.it_value.tv_usec));
    }
    uint64_t e = 0;
    for (char** p = environ; p && *p; p++) e = fnv(*p, strlen(*p), e + 1);
    put(s, "environment variables", long(e));
    if (slow) {
        for (int r : {RLIMIT_STACK, RLIMIT_AS, RLIMIT_NOFILE, RLIMIT_CORE, RLIMIT_DATA}) {
            rlimit l;
            getrlimit(__rlimit_resource_t(r), &l);
            put(s, "resource limits", long(l.rlim_cur ^ l.rlim_max * 3));
        }
        char d[4096];
        put(s, "working directory", getcwd(d, sizeof d) ? d : "?");
        const mode_t u = umask(022);
        umask(u);
        put(s, "umask", long(u));
    }
}
static char g_rand[256];
static Snap snap(bool slow = false)
{
    Snap s;
    snap_fp(s); // first: nothing else may disturb it
    snap_omp(s);
    snap_rest(s, slow);
    put(s, "rand() state", long(fnv(g_rand, sizeof g_rand)));
    return s;
}
// what the threads of the caller's next parallel region see
static Snap snap_team(int n, const sigset_t* set = 0)
{
    const uint32_t mx = mxcsr();
    const uint16_t cw = x87cw();
    std::vector<std::string> v(n);
#pragma omp parallel num_threads(n)
    {
        const int i = omp_get_thread_num();
        sigset_t m;
        if (set) { // the pool's threads keep what they were born with
            set_mxcsr(mx);
            set_x87cw(cw);
            pthread_sigmask(SIG_SETMASK, set, 0);
        }
        pthread_sigmask(SIG_SETMASK, 0, &m);
        uint64_t mask = 0;
        for (int q = 1; q <= 64; q++)
            if (sigismember(&m, q) == 1) mask |= 1ull << (q - 1);
        v[i] = fmt("mxcsr %x x87 %x tags %x signals %llx max threads %d dynamic %d", mxcsr(), x87cw(), x87tags(), (unsigned long long)mask, omp_get_max_threads(), omp_get_dynamic());
    }
    Snap s;
    for (int i = 0; i < n; i++) put(s, "state of an OpenMP thread of the caller", v[i]);
    return s;
}
static bool compare(const Snap& a, const Snap& b, const std::string& what, const std::string& where)
{
    st.add("snapshots");
    for (size_t i = 0; i < a.size() && i < b.size(); i++)
        if (a[i].second != b[i].second) {
            violation("environment", fmt("%s changed %s from %s to %s (%s)", what.c_str(), a[i].first.c_str(), a[i].second.substr(0, 200).c_str(), b[i].second.substr(0, 200).c_str(), where.c_str()));
            return false;
        }
    return true;
}

static uint32_t early_mxcsr;
static uint16_t early_cw;
__attribute__((constructor(101))) static void early() { early_mxcsr = mxcsr(); early_cw = x87cw(); }

static void user_handler(int) {}
// put the caller's environment into some state
static std::string scramble(Rng& r, bool traps)
{
    static const int rm[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
    const int m = r.chance(0.5) ? 0 : int(r.below(4));
    set_x87cw(0x37F);
    set_mxcsr(0x1F80);
    fesetround(rm[m]);
    const bool ftz = r.chance(0.3), daz = r.chance(0.3);
    uint32_t x = mxcsr() | (ftz ? 0x8000 : 0) | (daz ? 0x40 : 0);
    if (traps && r.chance(0.5)) x &= ~uint32_t(0x0200); // divide by zero unmasked (an object without a length does divide by its length)
    set_mxcsr(x);
    uint16_t cw = x87cw();
    const int pc = int(r.below(3));
    if (pc == 1) cw = uint16_t((cw & ~0x300) | 0x200);
    if (pc == 2) cw = uint16_t(cw & ~0x300);
    set_x87cw(cw);
    const int nt = r.chance(0.25) ? 9 + int(r.below(40)) : 1 + int(r.below(8));
    omp_set_num_threads(nt);
    omp_set_dynamic(r.chance(0.3));
    omp_set_max_active_levels(1 + int(r.below(3)));
    omp_set_schedule(omp_sched_t(1 + r.below(3)), int(r.below(5)));
    sigset_t s;
    sigemptyset(&s);
    for (int q : {SIGUSR1, SIGUSR2, SIGTERM, SIGHUP, SIGPIPE, SIGALRM})
        if (r.chance(0.5)) sigaddset(&s, q);
    pthread_sigmask(SIG_SETMASK, &s, 0);
    for (int q : {SIGUSR1, SIGUSR2, SIGPIPE, SIGCHLD, SIGILL, SIGFPE}) signal(q, r.chance(0.3) ? user_handler : r.chance(0.5) && q != SIGILL && q != SIGFPE ? SIG_IGN : SIG_DFL);
    return fmt("mxcsr=%x x87=%x threads=%d", x, cw, nt);
}
struct Restore { // before anything of ours computes
    uint32_t m;
    uint16_t c;
    Restore() : m(mxcsr()), c(x87cw()) { set_mxcsr(0x1F80); set_x87cw(0x37F); }
    ~Restore() { set_mxcsr(m); set_x87cw(c); }
};
// The library call runs under the caller's state; building inputs and reports does not.
template <class F> static void watched(const std::string& what, const std::string& where, bool slow, F f)
{
    const Snap a = snap(slow);
    f();
    const Snap b = snap(slow);
    Restore q;
    compare(a, b, what, where);
}

static void env_run(const Spec& s)
{
    const Kind k = Kind(s.i("kind"));
    const int n = int(s.i("n")), be = int(s.i("be")), n2 = int(s.i("n2"));
    Rng r(s.u("seed"));
    static bool first = true;
    if (first) {
        initstate(unsigned(r.next()), g_rand, sizeof g_rand);
        Restore q;
        if (early_mxcsr != 0x1F80 || early_cw != 0x37F) st.add("odd_start");
        else if (mxcsr() != 0x1F80 || x87cw() != 0x37F) violation("environment", "floating-point state changed before main");
        first = false;
    }
    struct sigaction keep[65];
    for (int i = 1; i <= 64; i++) sigaction(i, 0, &keep[i]);
    const bool empty = r.chance(0.3);
    const std::string caller = scramble(r, !empty);
    const std::string where = label(s) + " " + caller;
    const int team = 1 + int(r.below(8));
    {
        sigset_t sm;
        pthread_sigmask(SIG_SETMASK, 0, &sm);
        snap_team(16, &sm);
        const Snap t0 = snap_team(team, &sm);
        std::unique_ptr<Obj> o;
        if (r.chance(0.5)) { // a creation or setup that runs out of memory
            bool thrown = false;
            alloc::Scope sc;
            o.reset(new Obj(k, 0, 0, Obj::Empty()));
            watched("a creation that fails for lack of memory", where, false, [&] {
                struct Off { ~Off() { alloc::fail_at(0); } } off;
                alloc::fail_at(1 + long(r.below(6)));
                try { o->create(n, be); } catch (const std::bad_alloc&) { thrown = true; }
            });
            if (thrown) st.add("bad_alloc");
            st.cell(fmt("env/%d/%d/%s/oom%d", k, be, size_class(k, n).c_str(), int(thrown)));
            o.reset();
        }
        if (be && r.chance(0.3)) {
            bool thrown = false;
            o.reset(new Obj(k, 0, 0, Obj::Empty()));
            namespace F = OTFFT::Factory;
            watched("a request for an unknown backend", where, false, [&] {
                try { if (k == REAL) F::createRealFFT(n, OTFFT::OptimizationType(99)); else if (k == DCT) F::createDCT(n, OTFFT::OptimizationType(99)); else F::createComplexFFT(n, OTFFT::OptimizationType(99)); }
                catch (const std::exception&) { thrown = true; }
            });
            if (thrown) st.add("refused");
        }
        watched("creation", where, true, [&] { o.reset(new Obj(k, empty ? 0 : n, be)); });
        st.cell(fmt("env/%d/%d/%s/create", k, be, size_class(k, n).c_str()));
        if (empty || r.chance(0.3)) {
            if (r.chance(0.5)) watched("setup", where, false, [&] { o->setup(n2); });
            watched("setup", where, false, [&] { o->setup(n); });
            st.cell(fmt("env/%d/%d/%s/setup", k, be, size_class(k, n).c_str()));
        }
        const int calls = 2 + int(r.below(4));
        for (int q = 0; q < calls; q++) {
            const int m = any_mode(k, r);
            std::vector<double> in(o->in_doubles(m)), out(o->out_doubles(m));
            { Restore z; make_call_input(*o, m, int(r.below(IN_KINDS)), r.next(), in.data()); }
            if (r.chance(0.2)) in[r.below(in.size())] = r.chance(0.5) ? INFINITY : NAN;
            watched(mode_name[m], where, false, [&] { o->run(m, in.data(), out.data()); });
            st.add("calls");
            st.cell(fmt("env/%d/%d/%d/%d", k, be, n, m));
        }
        if (n >= 4096 && r.chance(0.5)) { // from threads of the caller's own parallel region
            std::vector<std::vector<double>> in(2), out(2);
            std::vector<std::unique_ptr<Obj>> os(2);
            for (int i = 0; i < 2; i++) { in[i].assign(2 * size_t(n), 1); out[i].assign(2 * size_t(n), 0); os[i].reset(new Obj(k, n, be)); }
            Snap a[2], b[2];
#pragma omp parallel num_threads(2)
            {
                const int i = omp_get_thread_num();
                if (i < 2) {
                    snap_fp(a[i]); snap_omp(a[i]);
                    os[i]->run(FWD, in[i].data(), out[i].data());
                    os[i]->run(INV, k == REAL ? out[i].data() : in[i].data(), in[i].data());
                    snap_fp(b[i]); snap_omp(b[i]);
                }
            }
            Restore z;
            for (int i = 0; i < 2; i++) compare(a[i], b[i], "a call in a parallel region", where);
            st.add("calls", 4);
        }
        watched("destruction", where, true, [&] { o.reset(); });
        const Snap t1 = snap_team(team);
        Restore z;
        compare(t0, t1, "the library", where);
    }
    set_mxcsr(0x1F80);
    set_x87cw(0x37F);
    sigset_t z;
    sigemptyset(&z);
    pthread_sigmask(SIG_SETMASK, &z, 0);
    for (int i = 1; i <= 64; i++)
        if (i != SIGKILL && i != SIGSTOP && (i < 32 || i > 33)) sigaction(i, &keep[i], 0);
    st.sample("watched " + where);
}
static void env_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 2020));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        DomainOpt d;
        d.small = 128;
        d.maxlog = T ? 22 : 19;
        d.large = T ? 24 : 22;
        d.randoms = T ? 600 : 60;
        d.parallel = T ? 120 : 24;
        d.primes = 6;
        if (k == BLUE) { d.maxlog = 17; d.large = 19; }
        for (int rep = 0; rep < (T ? 4 : 1); rep++)
            for (auto& l : domain(k, d, r)) {
                int be = r.chance(0.3) ? 0 : backend_for(l, r);
                v.push_back(spec_base(k, be, l, r.next()) + fmt(" n2=%d", 2 * (1 + int(r.below(300)))));
            }
    }
}
static Reg reg_env("env", Cmd{env_list, env_run});
}
