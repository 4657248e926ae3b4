#include "shim.h"
#include <atomic>
#include <cstdarg>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

// Teams are static pools of pthreads.  No memory is allocated after the pool threads exist, so that the
// allocation monitors see only the library's own requests.
namespace shim {
static const int MAXT = 64;       // threads of a team
static const int MAXTEAMS = 48;   // teams that may run at once
static std::atomic<int> g_mode{PAR};
static std::atomic<uint64_t> g_seed{1};
static std::atomic<uint64_t> s_regions{0}, s_nested{0}, s_barriers{0}, s_phases{0}, s_max{0};
static std::atomic<uint64_t> g_salt{0};
static std::atomic<int> g_active{0};
static std::atomic<int> g_levels{1};
static void die(const char* w)
{
    fprintf(stderr, "shim: %s\n", w);
    abort();
}
void (*on_error)(const char*) = die;

static uint64_t mixu(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Team;
struct Tls {
    Team* team;
    int tid;
    unsigned single_seen; // single constructs met in this region
    unsigned loop_seen;   // dynamic loops met
    uint64_t rnd;
    // dynamic loop state (this thread's current loop)
    unsigned cur_loop;
    Tls* up;
};
static thread_local Tls* tls;
static thread_local int icv_threads = 0;
static thread_local int push_threads = 0;
static std::atomic<int> g_default{0};

struct Loop { // shared state of a dynamically scheduled loop
    std::atomic<unsigned> id;
    long next, end, incr, chunk;
};

struct Team {
    std::mutex mu;
    std::condition_variable cv;
    bool used = false;
    int n = 0;
    // work for the pool threads
    void (*fn)(void*) = 0;          // GOMP style
    void* data = 0;
    void (*run)(Team*, int) = 0;    // generic
    void** kargs = 0;
    int kargc = 0;
    uint64_t generation = 0;
    int running = 0;
    // barrier
    int arrived = 0;                 // sequential mode
    int finished = 0;
    uint64_t phase = 0;
    // Parallel modes use these instead: a mutex would order a thread that starts or leaves a barrier late
    // after whatever the others have done meanwhile, and hide races from a happens-before detector.
    std::atomic<int> p_started{0}, p_arrived{0}, p_finished{0};
    std::atomic<uint64_t> p_phase{0};
    int mode = PAR;
    uint64_t seed = 0;
    // sequential mode: order[i] is the i-th thread to run in this phase; turn is the index running
    int order[MAXT];
    int turn = 0;
    bool at_barrier[MAXT];
    bool done[MAXT];
    bool broken = false;
    // single / dynamic loops
    std::atomic<unsigned> single_count{0};
    Loop loops[8];
    Loop init_loop;
    int level = 0, active = 0, icv = 0;
    void* copyp = 0;
    Tls t[MAXT];
    pthread_t th[MAXT];
    bool have[MAXT];
};
// Never destroyed: destroying a condition variable waits for its waiters, and pool threads wait forever.
union TeamStore {
    Team t[MAXTEAMS];
    TeamStore() { for (auto& x : t) new (&x) Team(); }
    ~TeamStore() {}
};
static TeamStore store;
static Team* const teams = store.t;
static std::mutex teams_mu;
static std::mutex crit_mu[2];
static pthread_mutex_t rec_mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;

static void pause_random(Tls* t)
{
    t->rnd = mixu(t->rnd);
    switch (t->rnd % 7) {
    case 0: sched_yield(); break;
    case 1: { timespec ts{0, long(t->rnd >> 8) % 200000}; nanosleep(&ts, 0); break; }
    case 2: for (volatile int i = 0; i < int((t->rnd >> 8) % 3000); i++) {} break;
    default: break;
    }
}

static void new_order(Team* T)
{
    uint64_t r = mixu(T->seed ^ (T->phase * 0x51ED2701ull));
    const int kind = int(r % 4);
    for (int i = 0; i < T->n; i++) T->order[i] = kind == 0 ? i : kind == 1 ? T->n - 1 - i : i;
    if (kind >= 2)
        for (int i = T->n - 1; i > 0; i--) {
            r = mixu(r);
            int j = int(r % uint64_t(i + 1));
            int x = T->order[i];
            T->order[i] = T->order[j];
            T->order[j] = x;
        }
    T->turn = 0;
    s_phases.fetch_add(1, std::memory_order_relaxed);
}
// sequential mode, with T->mu held: pass the baton to the next thread of this phase
static void advance(Team* T)
{
    T->turn++;
    while (T->turn < T->n && T->done[T->order[T->turn]]) T->turn++;
    T->cv.notify_all();
}
static void wait_turn(Team* T, int tid, std::unique_lock<std::mutex>& g)
{
    while (!(T->turn < T->n && T->order[T->turn] == tid)) T->cv.wait(g);
}

static void check_divergence(Team* T)
{
    if (T->finished && T->arrived && T->finished + T->arrived == T->n && !T->broken) {
        T->broken = true;
        on_error("barrier divergence: some threads of a team wait at a barrier that others never reach");
        _exit(98);
    }
}

struct Backoff {
    int n = 0;
    void operator()()
    {
        if (++n < 300) sched_yield();
        else { timespec ts{0, 20000}; nanosleep(&ts, 0); }
    }
};

static void team_barrier(Team* T, int tid)
{
    if (T->n == 1) { s_barriers.fetch_add(1, std::memory_order_relaxed); return; }
    if (T->mode != SEQ) {
        if (T->mode == JITTER) pause_random(&T->t[tid]);
        const uint64_t ph = T->p_phase.load(std::memory_order_relaxed);
        if (T->p_arrived.fetch_add(1, std::memory_order_acq_rel) + 1 == T->n) {
            T->p_arrived.store(0, std::memory_order_relaxed);
            s_barriers.fetch_add(1, std::memory_order_relaxed);
            T->p_phase.store(ph + 1, std::memory_order_release);
        }
        else {
            Backoff wait;
            while (T->p_phase.load(std::memory_order_acquire) == ph) {
                wait();
                if (wait.n % 512 == 511 && T->p_finished.load(std::memory_order_relaxed) > 0 && T->p_phase.load(std::memory_order_acquire) == ph) {
                    on_error("barrier divergence: a thread of the team waits at a barrier although another has left the region");
                    _exit(98);
                }
            }
        }
        if (T->mode == JITTER) pause_random(&T->t[tid]);
        return;
    }
    std::unique_lock<std::mutex> g(T->mu);
    const uint64_t ph = T->phase;
    T->arrived++;
    check_divergence(T);
    if (T->arrived == T->n) {
        T->arrived = 0;
        T->phase++;
        s_barriers.fetch_add(1, std::memory_order_relaxed);
        new_order(T);
        T->cv.notify_all();
    }
    else {
        advance(T);
        while (T->phase == ph) T->cv.wait(g);
    }
    wait_turn(T, tid, g);
}

static void member(Team* T, int tid)
{
    Tls* t = &T->t[tid];
    Tls* old = tls;
    t->team = T;
    t->tid = tid;
    t->single_seen = t->loop_seen = t->cur_loop = 0;
    t->rnd = mixu(T->seed ^ uint64_t(tid) * 977);
    t->up = old;
    tls = t;
    if (tid) icv_threads = T->icv;
    if (T->n > 1) {
        if (T->mode == SEQ) {
            std::unique_lock<std::mutex> g(T->mu);
            wait_turn(T, tid, g);
        }
        else {
            T->p_started.fetch_add(1, std::memory_order_acq_rel);
            Backoff wait;
            while (T->p_started.load(std::memory_order_acquire) < T->n) wait();
            if (T->mode == JITTER) pause_random(t);
        }
    }
    g_active.fetch_add(1, std::memory_order_relaxed);
    T->run(T, tid);
    g_active.fetch_sub(1, std::memory_order_relaxed);
    tls = old;
    if (T->n > 1) {
        if (T->mode == SEQ) {
            std::unique_lock<std::mutex> g(T->mu);
            T->finished++;
            T->done[tid] = true;
            check_divergence(T);
            advance(T);
            T->cv.notify_all();
        }
        else T->p_finished.fetch_add(1, std::memory_order_release);
    }
}

struct Arg { Team* T; int tid; };
static Arg args[MAXTEAMS][MAXT];
static void* pool_main(void* a)
{
    Arg* x = (Arg*)a;
    Team* T = x->T;
    uint64_t seen = 0;
    for (;;) {
        {
            std::unique_lock<std::mutex> g(T->mu);
            while (!(T->generation != seen && T->running > 0 && x->tid < T->n)) T->cv.wait(g);
            seen = T->generation;
        }
        member(T, x->tid);
        std::unique_lock<std::mutex> g(T->mu);
        T->running--;
        T->cv.notify_all();
    }
    return 0;
}

static int want_threads(unsigned n)
{
    int k = int(n);
    if (k <= 0) k = push_threads;
    push_threads = 0;
    if (k <= 0) k = icv_threads;
    if (k <= 0) k = g_default;
    if (k <= 0) k = 8;
    return k > MAXT ? MAXT : k;
}

struct MyTeam {
    Team* t = 0;
    ~MyTeam()
    {
        if (t) { std::lock_guard<std::mutex> g(teams_mu); t->used = false; }
    }
};
static thread_local MyTeam my_team;
static thread_local Team nested_team;

static void run_team(unsigned nthreads, void (*run)(Team*, int), void (*fn)(void*), void* data, void** kargs, int kargc, const Loop* loop)
{
    int n = want_threads(nthreads);
    int level = tls ? tls->team->level + 1 : 1;
    const int active = tls ? tls->team->active : 0;
    if (level > 1) s_nested.fetch_add(1, std::memory_order_relaxed);
    if (active >= g_levels.load(std::memory_order_relaxed)) n = 1;
    // Each thread keeps its team: a shared free list would order independent callers after one another.
    Team* T = level > 1 ? &nested_team : my_team.t;
    bool borrowed = false;
    if (level > 1 && (T->used || n > 1)) { T = 0; borrowed = true; }
    while (!T) {
        {
            std::lock_guard<std::mutex> g(teams_mu);
            for (auto& c : store.t)
                if (!c.used) { T = &c; T->used = true; break; }
        }
        if (!T) sched_yield();
        else if (!borrowed) my_team.t = T;
    }
    if (T == &nested_team) T->used = true;
    s_regions.fetch_add(1, std::memory_order_relaxed);
    uint64_t m = s_max.load(std::memory_order_relaxed);
    while (uint64_t(n) > m && !s_max.compare_exchange_weak(m, uint64_t(n), std::memory_order_relaxed)) {}
    {
        std::unique_lock<std::mutex> g(T->mu);
        T->n = n;
        T->fn = fn;
        T->data = data;
        T->run = run;
        T->kargs = kargs;
        T->kargc = kargc;
        T->arrived = T->finished = 0;
        T->p_started = T->p_arrived = T->p_finished = 0;
        T->p_phase = 0;
        T->phase = 0;
        T->mode = n > 1 ? g_mode.load(std::memory_order_relaxed) : int(PAR);
        T->seed = mixu(g_seed.load(std::memory_order_relaxed) + 0x1000193 * g_salt.fetch_add(1, std::memory_order_relaxed));
        T->single_count = 0;
        T->level = level;
        T->active = active + (n > 1);
        T->icv = icv_threads;
        for (auto& l : T->loops) l.id = 0;
        if (loop) {
            T->init_loop.next = loop->next;
            T->init_loop.end = loop->end;
            T->init_loop.incr = loop->incr;
            T->init_loop.chunk = loop->chunk;
        }
        for (int i = 0; i < n; i++) T->done[i] = false;
        if (T->mode == SEQ) new_order(T);
        T->running = n - 1;
        T->generation++;
    }
    for (int i = 1; i < n; i++)
        if (!T->have[i]) {
            T->have[i] = true;
            args[T - teams][i] = Arg{T, i};
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 8u << 20);
            if (pthread_create(&T->th[i], &at, pool_main, &args[T - teams][i])) on_error("pthread_create failed");
            pthread_attr_destroy(&at);
        }
    T->cv.notify_all();
    member(T, 0);
    {
        std::unique_lock<std::mutex> g(T->mu);
        while (T->running > 0) T->cv.wait(g);
    }
    if (level > 1) {
        std::unique_lock<std::mutex> g;
        if (borrowed) g = std::unique_lock<std::mutex>(teams_mu);
        T->used = false;
    }
}

void configure(int mode, uint64_t seed)
{
    g_mode = mode;
    g_seed = seed;
    g_salt = 0;
}
void set_threads(int n) { icv_threads = n; }
Stats stats() { return Stats{s_regions, s_nested, s_barriers, s_phases, s_max}; }
void reset_stats() { s_regions = s_nested = s_barriers = s_phases = s_max = 0; }
int active() { return g_active; }

// ---- single ----
static bool single(Tls* t)
{
    if (!t || t->team->n == 1) return true;
    Team* T = t->team;
    const unsigned k = ++t->single_seen;
    unsigned c = T->single_count.load(std::memory_order_relaxed);
    while (k > c)
        if (T->single_count.compare_exchange_weak(c, k, std::memory_order_relaxed)) return true;
    return false;
}
// ---- dynamic loops ----
static thread_local Loop own_loop; // outside a team
static Loop* enter_loop(long start, long end, long incr, long chunk)
{
    Tls* t = tls;
    Loop* l;
    if (!t) {
        l = &own_loop;
        l->next = start; l->end = end; l->incr = incr; l->chunk = chunk > 0 ? chunk : 1;
        return l;
    }
    Team* T = t->team;
    std::lock_guard<std::mutex> g(T->mu);
    const unsigned k = ++t->loop_seen;
    l = &T->loops[k % 8];
    if (l->id != k) {
        l->id = k;
        l->next = start; l->end = end; l->incr = incr; l->chunk = chunk > 0 ? chunk : 1;
    }
    t->cur_loop = k;
    return l;
}
static bool next_chunk(Loop* l, long* a, long* b)
{
    Tls* t = tls;
    if (t && t->team->mode == JITTER) pause_random(t);
    std::unique_lock<std::mutex> g;
    if (t) g = std::unique_lock<std::mutex>(t->team->mu);
    if (l->incr > 0 ? l->next >= l->end : l->next <= l->end) return false;
    long e = l->next + l->chunk * l->incr;
    if (l->incr > 0 ? e > l->end : e < l->end) e = l->end;
    *a = l->next;
    *b = e;
    l->next = e;
    return true;
}
static Loop* current() { return tls ? &tls->team->loops[tls->cur_loop % 8] : &own_loop; }
static void bar() { if (tls) team_barrier(tls->team, tls->tid); }
} // namespace shim
using namespace shim;

extern "C" {
// ------------------------------------------------------------------ omp_*
int omp_get_num_threads(void) { return tls ? tls->team->n : 1; }
int omp_get_thread_num(void) { return tls ? tls->tid : 0; }
int omp_get_max_threads(void) { return want_threads(0); }
void omp_set_num_threads(int n) { icv_threads = n; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return tls && tls->team->active > 0; }
int omp_get_level(void) { return tls ? tls->team->level : 0; }
int omp_get_active_level(void) { return tls ? tls->team->active : 0; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int n) { g_levels = n ? 20 : 1; }
int omp_get_nested(void) { return g_levels > 1; }
int omp_get_max_active_levels(void) { return g_levels; }
void omp_set_max_active_levels(int n) { g_levels = n; }
double omp_get_wtime(void)
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
void omp_init_lock(void** l) { *l = new std::mutex; }
void omp_destroy_lock(void** l) { delete (std::mutex*)*l; }
void omp_set_lock(void** l) { ((std::mutex*)*l)->lock(); }
void omp_unset_lock(void** l) { ((std::mutex*)*l)->unlock(); }

int omp_test_lock(void** l) { return ((std::mutex*)*l)->try_lock(); }
struct NestLock { std::recursive_mutex m; int depth = 0; };
void omp_init_nest_lock(void** l) { *l = new NestLock; }
void omp_destroy_nest_lock(void** l) { delete (NestLock*)*l; }
void omp_set_nest_lock(void** l) { NestLock* n = (NestLock*)*l; n->m.lock(); n->depth++; }
void omp_unset_nest_lock(void** l) { NestLock* n = (NestLock*)*l; n->depth--; n->m.unlock(); }
static thread_local int g_sched_kind = 1, g_sched_chunk = 0;
void omp_set_schedule(int k, int c) { g_sched_kind = k; g_sched_chunk = c; }
void omp_get_schedule(int* k, int* c) { *k = g_sched_kind; *c = g_sched_chunk; }
int omp_get_team_size(int level) { return level == omp_get_level() ? omp_get_num_threads() : level == 0 ? 1 : -1; }
int omp_get_ancestor_thread_num(int level) { return level == omp_get_level() ? omp_get_thread_num() : level == 0 ? 0 : -1; }
int omp_get_cancellation(void) { return 0; }
int omp_get_proc_bind(void) { return 0; }
int omp_in_final(void) { return 0; }
double omp_get_wtick(void) { return 1e-9; }

// ------------------------------------------------------------------ GOMP
static void run_gomp(Team* T, int) { T->fn(T->data); }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(n, run_gomp, fn, data, 0, 0, 0); }
void GOMP_barrier(void) { bar(); }
bool GOMP_single_start(void) { return single(tls); }
void* GOMP_single_copy_start(void)
{
    if (single(tls)) return 0;
    bar();
    return tls->team->copyp;
}
void GOMP_single_copy_end(void* p)
{
    if (tls) tls->team->copyp = p;
    bar();
}
void GOMP_critical_start(void) { crit_mu[0].lock(); }
void GOMP_critical_end(void) { crit_mu[0].unlock(); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&rec_mu); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&rec_mu); }
void GOMP_atomic_start(void) { crit_mu[1].lock(); }
void GOMP_atomic_end(void) { crit_mu[1].unlock(); }
#define OTV_LOOP(NAME)                                                                                   \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b)                      \
    {                                                                                                    \
        return next_chunk(enter_loop(s, e, i, c), a, b);                                                 \
    }                                                                                                    \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return next_chunk(current(), a, b); }
OTV_LOOP(static)
OTV_LOOP(dynamic)
OTV_LOOP(guided)
OTV_LOOP(nonmonotonic_dynamic)
OTV_LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return next_chunk(enter_loop(s, e, i, 1), a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return next_chunk(current(), a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return next_chunk(enter_loop(s, e, i, 1), a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return next_chunk(current(), a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return next_chunk(enter_loop(s, e, i, 1), a, b); }
bool GOMP_loop_nonmonotonic_runtime_next(long* a, long* b) { return next_chunk(current(), a, b); }
typedef unsigned long long ull;
#define OTV_LOOP_ULL(NAME)                                                                               \
    bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b)               \
    {                                                                                                    \
        (void)up;                                                                                        \
        return next_chunk(enter_loop(long(s), long(e), long(i), long(c)), (long*)a, (long*)b);           \
    }                                                                                                    \
    bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return next_chunk(current(), (long*)a, (long*)b); }
OTV_LOOP_ULL(static)
OTV_LOOP_ULL(dynamic)
OTV_LOOP_ULL(guided)
OTV_LOOP_ULL(nonmonotonic_dynamic)
OTV_LOOP_ULL(nonmonotonic_guided)
#define OTV_LOOP_ULL_RT(NAME)                                                                            \
    bool GOMP_loop_ull_##NAME##_start(bool, ull s, ull e, ull i, ull* a, ull* b) { return next_chunk(enter_loop(long(s), long(e), long(i), 1), (long*)a, (long*)b); } \
    bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return next_chunk(current(), (long*)a, (long*)b); }
OTV_LOOP_ULL_RT(runtime)
OTV_LOOP_ULL_RT(maybe_nonmonotonic_runtime)
OTV_LOOP_ULL_RT(nonmonotonic_runtime)
void GOMP_loop_end(void) { bar(); }
void GOMP_loop_end_nowait(void) {}
static void run_ploop(Team* T, int)
{
    enter_loop(T->init_loop.next, T->init_loop.end, T->init_loop.incr, T->init_loop.chunk);
    T->fn(T->data);
}
#define OTV_PLOOP(NAME)                                                                                                          \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned)             \
    {                                                                                                                            \
        Loop l;                                                                                                                  \
        l.next = s; l.end = e; l.incr = i; l.chunk = c > 0 ? c : 1;                                                              \
        run_team(n, run_ploop, fn, d, 0, 0, &l);                                                                                 \
    }
OTV_PLOOP(static)
OTV_PLOOP(dynamic)
OTV_PLOOP(guided)
OTV_PLOOP(nonmonotonic_dynamic)
OTV_PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
unsigned GOMP_sections_next(void)
{
    long a, b;
    return next_chunk(current(), &a, &b) ? unsigned(a) : 0;
}
unsigned GOMP_sections_start(unsigned n)
{
    enter_loop(1, long(n) + 1, 1, 1);
    return GOMP_sections_next();
}
void GOMP_sections_end(void) { bar(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned)
{
    Loop l;
    l.next = 1; l.end = long(count) + 1; l.incr = 1; l.chunk = 1;
    run_team(n, run_ploop, fn, d, 0, 0, &l);
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
    if (cpy) {
        char* buf = (char*)malloc(size_t(size + align));
        char* p = (char*)(((uintptr_t)buf + uintptr_t(align) - 1) & ~uintptr_t(align - 1));
        cpy(p, data);
        fn(p);
        free(buf);
    }
    else fn(data);
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned, unsigned long, int, long start, long end, long)
{
    char* buf = (char*)malloc(size_t(size + align));
    char* p = (char*)(((uintptr_t)buf + uintptr_t(align) - 1) & ~uintptr_t(align - 1));
    if (cpy) cpy(p, data); else memcpy(p, data, size_t(size));
    ((long*)p)[0] = start;
    ((long*)p)[1] = end;
    fn(p);
    free(buf);
}
void GOMP_taskyield(void) {}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

// ------------------------------------------------------------------ kmpc
typedef int32_t i32;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint64_t u64;
static void run_kmpc(Team* T, int tid)
{
    i32 g = tid, b = tid;
    void** a = T->kargs;
    typedef void (*F)(i32*, i32*, ...);
    F f = (F)T->data;
    switch (T->kargc) {
    case 0: f(&g, &b); break;
    case 1: f(&g, &b, a[0]); break;
    case 2: f(&g, &b, a[0], a[1]); break;
    case 3: f(&g, &b, a[0], a[1], a[2]); break;
    case 4: f(&g, &b, a[0], a[1], a[2], a[3]); break;
    case 5: f(&g, &b, a[0], a[1], a[2], a[3], a[4]); break;
    case 6: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    case 7: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
    case 8: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
    case 9: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
    case 10: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break;
    case 11: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]); break;
    case 12: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); break;
    case 13: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]); break;
    case 14: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]); break;
    default: on_error("too many arguments of a parallel region"); _exit(97);
    }
}
void __kmpc_fork_call(void*, i32 argc, void* fn, ...)
{
    void* a[16];
    va_list ap;
    va_start(ap, fn);
    for (int i = 0; i < argc && i < 16; i++) a[i] = va_arg(ap, void*);
    va_end(ap);
    run_team(0, run_kmpc, 0, fn, a, argc, 0);
}
void __kmpc_push_num_threads(void*, i32, i32 n) { push_threads = n; }
i32 __kmpc_global_thread_num(void*) { return tls ? tls->tid : 0; }
void __kmpc_barrier(void*, i32) { bar(); }
i32 __kmpc_cancel_barrier(void*, i32) { bar(); return 0; }
i32 __kmpc_single(void*, i32) { return single(tls); }
void __kmpc_end_single(void*, i32) {}
i32 __kmpc_master(void*, i32) { return !tls || tls->tid == 0; }
void __kmpc_end_master(void*, i32) {}
i32 __kmpc_masked(void*, i32, i32 f) { return (tls ? tls->tid : 0) == f; }
void __kmpc_end_masked(void*, i32) {}
void __kmpc_critical(void*, i32, void*) { pthread_mutex_lock(&rec_mu); }
void __kmpc_critical_with_hint(void*, i32, void*, u32) { pthread_mutex_lock(&rec_mu); }
void __kmpc_end_critical(void*, i32, void*) { pthread_mutex_unlock(&rec_mu); }
void __kmpc_flush(void*) { std::atomic_thread_fence(std::memory_order_seq_cst); }
i32 __kmpc_ok_to_fork(void*) { return 1; }
void __kmpc_serialized_parallel(void*, i32) {}
void __kmpc_end_serialized_parallel(void*, i32) {}
void __kmpc_copyprivate(void*, i32, size_t, void* data, void (*cpy)(void*, void*), i32 did)
{
    if (did && tls) tls->team->copyp = data;
    bar();
    if (!did && tls) cpy(data, tls->team->copyp);
    bar();
}
i32 __kmpc_reduce(void*, i32, i32, size_t, void*, void (*)(void*, void*), void*) { pthread_mutex_lock(&rec_mu); return 1; }
void __kmpc_end_reduce(void*, i32, void*) { pthread_mutex_unlock(&rec_mu); bar(); }
i32 __kmpc_reduce_nowait(void*, i32, i32, size_t, void*, void (*)(void*, void*), void*) { pthread_mutex_lock(&rec_mu); return 1; }
void __kmpc_end_reduce_nowait(void*, i32, void*) { pthread_mutex_unlock(&rec_mu); }
} // extern "C"

// tasks run at once, in the thread that meets them
struct KTask { void* shareds; i32 (*routine)(i32, KTask*); i32 part; void* d1; void* d2; };
extern "C" {
KTask* __kmpc_omp_task_alloc(void*, i32, i32, size_t size, size_t shared, i32 (*f)(i32, KTask*))
{
    const size_t at = (size + 15) & ~size_t(15);
    char* p = (char*)malloc(at + shared + 64);
    memset(p, 0, at + shared + 64);
    KTask* t = (KTask*)p;
    t->shareds = shared ? p + at : 0;
    t->routine = f;
    return t;
}
i32 __kmpc_omp_task(void*, i32 g, KTask* t) { t->routine(g, t); free(t); return 0; }
void __kmpc_omp_task_begin_if0(void*, i32, KTask*) {}
void __kmpc_omp_task_complete_if0(void*, i32, KTask*) {}
i32 __kmpc_omp_taskwait(void*, i32) { return 0; }
i32 __kmpc_omp_taskyield(void*, i32, i32) { return 0; }
void __kmpc_taskgroup(void*, i32) {}
void __kmpc_end_taskgroup(void*, i32) {}
void __kmpc_push_num_teams(void*, i32, i32, i32) {}
}
template <class T, class S> static void static_init(i32 sched, i32* last, T* lo, T* up, S* stride, S incr, S chunk)
{
    const int n = tls ? tls->team->n : 1, id = tls ? tls->tid : 0;
    const T l = *lo, u = *up;
    if (incr > 0 ? u < l : u > l) { *last = 0; *stride = incr; return; }
    const u64 trip = incr > 0 ? u64(u - l) / u64(incr) + 1 : u64(l - u) / u64(-incr) + 1;
    if (sched == 33 || sched == 45 /* static chunked */) {
        if (chunk < 1) chunk = 1;
        const S span = chunk * incr;
        *stride = span * n;
        *lo = T(l + T(span) * T(id));
        *up = T(*lo + T(span) - T(incr));
        *last = u64(id) == ((trip - 1) / u64(chunk)) % u64(n);
        return;
    }
    // one block per thread, sizes differing by at most one
    const u64 q = trip / u64(n), r = trip % u64(n);
    const u64 b = u64(id) * q + (u64(id) < r ? u64(id) : r), c = q + (u64(id) < r ? 1 : 0);
    *stride = S(trip);
    if (c == 0) { // empty
        *lo = T(u + T(incr));
        *up = u;
        *last = 0;
        return;
    }
    *lo = T(l + T(incr) * T(b));
    *up = T(*lo + T(incr) * T(c - 1));
    *last = b + c == trip;
}
extern "C" {
void __kmpc_for_static_init_4(void*, i32, i32 s, i32* la, i32* lo, i32* up, i32* st, i32 in, i32 ch) { static_init<i32, i32>(s, la, lo, up, st, in, ch); }
void __kmpc_for_static_init_4u(void*, i32, i32 s, i32* la, u32* lo, u32* up, i32* st, i32 in, i32 ch) { static_init<u32, i32>(s, la, lo, up, st, in, ch); }
void __kmpc_for_static_init_8(void*, i32, i32 s, i32* la, i64* lo, i64* up, i64* st, i64 in, i64 ch) { static_init<i64, i64>(s, la, lo, up, st, in, ch); }
void __kmpc_for_static_init_8u(void*, i32, i32 s, i32* la, u64* lo, u64* up, i64* st, i64 in, i64 ch) { static_init<u64, i64>(s, la, lo, up, st, in, ch); }
void __kmpc_for_static_fini(void*, i32) {}
#define OTV_DISPATCH(S, T, ST)                                                                          \
    void __kmpc_dispatch_init_##S(void*, i32, i32, T lo, T up, ST st, ST ch) { enter_loop(long(lo), long(up) + (st > 0 ? 1 : -1), long(st), long(ch)); } \
    i32 __kmpc_dispatch_next_##S(void*, i32, i32* la, T* lo, T* up, ST* st)                             \
    {                                                                                                   \
        long a, b;                                                                                      \
        Loop* l = current();                                                                            \
        if (!next_chunk(l, &a, &b)) return 0;                                                           \
        *lo = T(a);                                                                                     \
        *up = T(b - (l->incr > 0 ? 1 : -1));                                                            \
        *st = ST(l->incr);                                                                              \
        *la = b == l->end;                                                                              \
        return 1;                                                                                       \
    }                                                                                                   \
    void __kmpc_dispatch_fini_##S(void*, i32) {}
OTV_DISPATCH(4, i32, i32)
OTV_DISPATCH(4u, u32, i32)
OTV_DISPATCH(8, i64, i64)
OTV_DISPATCH(8u, u64, i64)
void __kmpc_dispatch_deinit(void*, i32) {}
} // extern "C"
