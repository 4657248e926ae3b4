// Monitors that need the interposed allocator: C07 (guard), C08 (poison), C13 (setup), C16 (fail).
#include <thread>
#include "alloc.h"
#include "domain.hpp"
#include <alloca.h>
#include <climits>
#include <sys/mman.h>
namespace otv {

typedef std::unique_ptr<Obj> ObjP;
static ObjP create(Kind k, int n, int be)
{
    ObjP o(new Obj(k, 0, be, Obj::Empty())); // wrapper memory is not tracked
    alloc::Scope g;
    o->create(n, be);
    return o;
}
static void destroy(ObjP& o)
{
    {
        alloc::Scope g;
        o->c.reset();
        o->r.reset();
        o->d.reset();
    }
    o.reset();
}
static void resetup(Obj& o, int n)
{
    alloc::Scope g;
    o.setup(n);
}
static std::vector<double> input_for(Kind k, int n, int m, int in, uint64_t seed)
{
    Obj o(k, n, AUTO, Obj::Empty());
    std::vector<double> x(o.in_doubles(m));
    make_call_input(o, m, in, seed, x.data());
    return x;
}
// Fills the part of the stack that the next call will use.
__attribute__((noinline)) static void scribble(int kind, uint64_t seed)
{
    const size_t n = 100000;
    volatile uint64_t* p = (volatile uint64_t*)alloca(n);
    Rng r(seed);
    for (size_t i = 0; i < n / 8; i++) p[i] = kind == 2 ? ~0ull : kind == 1 ? 0 : r.next();
}

// ------------------------------------------------------------------ C08
static void poison_run(const Spec& s)
{
    omp_set_num_threads(int(s.i("thr", 1)));
    const Kind k = Kind(s.i("kind"));
    const int n = int(s.i("n")), be = int(s.i("be"));
    Rng r(s.u("seed"));
    const int nm = int(s.i("nm", 2)), via = int(s.i("via"));
    int modes[8];
    std::vector<std::vector<double>> x(nm), y(nm);
    for (int q = 0; q < nm; q++) {
        modes[q] = any_mode(k, r);
        x[q] = input_for(k, n, modes[q], r.chance(0.7) ? 0 : int(r.below(IN_KINDS)), r.next());
    }
    static const int pats[] = {1, 2, 3, 4, 6, 5};
    const int np = int(s.i("np", 4));
    for (int q = 0; q < np; q++) {
        const int pat = pats[q];
        const uint64_t before = alloc::get().calls;
        alloc::poison(pat, r.next());
        scribble(pat, r.next());
        ObjP o;
        if (via) { o = create(k, via, be); resetup(*o, n); }
        else o = create(k, n, be);
        alloc::poison(0, 0);
        st.add("poisoned_blocks", double(alloc::get().calls - before));
        for (int j = 0; j < nm; j++) {
            const int m = modes[j];
            Buf a(x[j].size(), int(r.below(8))), b(o->out_doubles(m), int(r.below(8)));
            memcpy(a.p, x[j].data(), x[j].size() * 8);
            for (size_t i = 0; i < b.n; i++) { uint64_t w = pat == 1 ? 0 : pat == 2 ? ~0ull : pat == 3 ? 0x7FE0000000000000ull : r.next(); memcpy(b.p + i, &w, 8); }
            scribble(pat, r.next());
            o->run(m, a.p, b.p);
            const double* res = o->inplace() ? a.p : b.p;
            st.add("calls");
            st.cell(fmt("%d/%d/%d/%d/%d", k, be, n, m, pat));
            if (q == 0) y[j].assign(res, res + o->out_doubles(m));
            size_t at = 0;
            if (!bits_equal(y[j].data(), res, o->out_doubles(m), &at))
                violation("stale-memory", label(s) + fmt(" %s: element %zu is %.17g when fresh memory holds pattern %d, %.17g when it holds zeros", mode_name[m], at, res[at], pat, y[j][at]));
        }
        destroy(o);
    }
    st.sample(label(s));
}
static void poison_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 8));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        DomainOpt d;
        d.small = T ? 1500 : 500;
        d.maxlog = T ? 22 : 20;
        d.large = T ? 25 : 23;
        d.randoms = T ? 800 : 120;
        d.parallel = T ? 150 : 24;
        d.primes = T ? 60 : 10;
        if (k == BLUE) { d.small = T ? 600 : 260; d.maxlog = T ? 19 : 17; d.large = T ? 20 : 18; }
        for (auto& l : domain(k, d, r)) {
            int other = int(r.below(3) ? 0 : 2 * (1 + r.below(600)));
            v.push_back(spec_base(k, backend_for(l, r), l, r.next()) + fmt(" nm=%d np=%d via=%d", l.n > (1 << 21) ? 1 : l.n > 200000 ? 2 : 3, l.n > (1 << 21) ? 2 : T ? 6 : l.n > 200000 ? 3 : 5, other));
        }
    }
}
static Reg reg_poison("poison", Cmd{poison_list, poison_run});

// ------------------------------------------------------------------ C13
static bool lean_build()
{
    static const bool b = [] {
        try { OTFFT::Factory::createComplexFFT(128, OTFFT::OptimizationType::OPTIMIZED_FFT_SSE2); }
        catch (const Unavailable&) { return true; }
        return false;
    }();
    return b;
}
// whether an SSE2 object of this length would need the kernel a lean build leaves out
static bool left_out(Kind k, int be, int n)
{
    if (be != SSE2 || !lean_build()) return false;
    long m = k == CPLX ? n : k == BLUE ? 1 : n / 2;
    if (k == BLUE) while (m < 2L * n - 1) m *= 2;
    return m == 128 || m == 2048 || (k == BLUE && (m == 256 || m == 4096)); 
}
static int random_len(Kind k, Rng& r, int maxlog, int be = AUTO)
{
    const int step = k == BLUE ? 1 : 2;
    for (;;) {
        int n;
        switch (r.below(5)) {
        case 0: n = 1 << r.range(1, maxlog); break;
        case 1: n = 2 + int(r.below(200)); break;
        case 2: n = int(std::exp(r.unit() * std::log(double(1 << maxlog)))); break;
        case 3: n = step * (1 << r.range(0, maxlog - 2)) * int(1 + 2 * r.below(3)); break;
        default: n = step * int(1 + r.below(60)); break;
        }
        n -= n % step;
        if (n < step || n > (1 << maxlog) || left_out(k, be, n)) continue;
        if (k != BLUE && largest_prime(k == CPLX ? n : std::max(1, n / 2)) > 700) continue;
        return n;
    }
}
static void setup_run(const Spec& s)
{
    const Kind k = Kind(s.i("kind"));
    const int be = int(s.i("be")), steps = int(s.i("steps", 8)), maxlog = int(s.i("maxlog", 14));
    Rng r(s.u("seed"));
    const bool par = maxlog > 14;
    auto thr = [&] { omp_set_num_threads(par ? 1 + int(r.below(8)) : 1); };
    alloc::poison_free(true);
    alloc::poison(4, r.next());
    const auto c0 = alloc::get();
    std::string trace;
    auto compare = [&](Obj& o, Obj& f, const char* when) {
        const int q = 1 + int(r.below(3));
        for (int i = 0; i < q; i++) {
            const int m = any_mode(k, r);
            auto x = input_for(k, o.n, m, r.chance(0.7) ? 0 : int(r.below(IN_KINDS)), r.next());
            thr();
            auto y1 = o.apply(m, x);
            auto y2 = f.apply(m, x);
            size_t at = 0;
            st.add("calls", 2);
            if (!bits_equal(y2.data(), y1.data(), y1.size(), &at)) {
                violation("setup-differs", fmt("%s %s %s after the setups %s%s: element %zu is %.17g, a fresh object gives %.17g", backend_name[be], kind_name[k], mode_name[m], trace.c_str(), when, at, y1[at], y2[at]));
                return false;
            }
        }
        return true;
    };
    int n = random_len(k, r, maxlog, be), prev = 0;
    ObjP o;
    const int start = int(r.below(3));
    thr();
    if (start == 0) { o = create(k, 0, be); trace = "0 "; }
    else { o = create(k, n, be); trace = fmt("%d ", n); prev = n; }
    bool ok = true;
    if (const int streak = int(s.i("streak"))) { // a large length, then a long row of small ones, each looked at
        const int step = k == BLUE ? 1 : 2;
        for (int lap = 0; ok && lap < 2; lap++) {
            int top = random_len(k, r, maxlog, be), cap = step * 4;
            for (int i = 0; i < 200 && top < (1 << (maxlog - 1)); i++) top = std::max(top, random_len(k, r, maxlog, be)); // a lean build may lack all of the largest
            resetup(*o, top);
            while (cap * int(s.i("ratio", 16)) < top) cap *= 2;
            const int how = int(r.below(5)), pool = 1 + int(r.below(12));
            trace += fmt("%d, then %d small ones ", top, streak);
            std::vector<int> small;
            while (int(small.size()) < (how == 0 ? 1 : how == 1 ? 2 : how == 2 ? pool : 60)) {
                const int m = step * (1 + int(r.below(uint64_t(std::max(1, cap / step)))));
                if (!left_out(k, be, m) && (k == BLUE || largest_prime(k == CPLX ? m : std::max(1, m / 2)) <= 700)) small.push_back(m);
            }
            if (how == 3) std::sort(small.begin(), small.end());
            if (how == 4) std::sort(small.rbegin(), small.rend());
            for (int t = 0; ok && t < streak; t++) {
                const int m = small[how < 2 ? t % small.size() : how == 2 ? r.below(small.size()) : size_t(t) * small.size() / streak];
                resetup(*o, m);
                st.add("setups");
                ObjP f = create(k, m, be);
                ok = compare(*o, *f, fmt("(the last of them %d, number %d)", m, t + 1).c_str());
                destroy(f);
            }
            st.cell(fmt("streak/%d/%d/%d/%d", k, be, int(std::log2(double(top))), how));
        }
        prev = o->n;
    }
    std::vector<int> past(1, n);
    for (int t = 0; ok && t < steps; t++) {
        const int how = int(r.below(9));
        if (prev && how == 0) n = prev; // same again
        else if (prev && how == 3) n = past[r.below(past.size())]; // back to an earlier one
        else if (prev && how == 4) { n = prev + (k == BLUE ? 1 : 2) * (r.chance(0.5) ? 1 : -1); if (n < 1 || (k != BLUE && n < 2) || n > (1 << maxlog)) n = prev; } // a neighbour
        else if (prev && how == 5) { // same power of two above it
            int c = 1;
            while (c < prev) c *= 2;
            n = c / 2 + 1 + int(r.below(uint64_t(std::max(1, c / 2))));
            if (k != BLUE) n += n & 1;
            if (n > (1 << maxlog)) n = prev;
        }
        else if (prev && how == 1 && (k == BLUE || prev >= 4)) { n = prev / 2; if (k != BLUE) n -= n & 1; if (n < 2) n = k == BLUE ? 1 : 2; }
        else if (prev && how == 2 && prev * 2 <= (1 << maxlog)) n = prev * 2;
        else n = random_len(k, r, maxlog, be);
        if (left_out(k, be, n) || (k != BLUE && largest_prime(k == CPLX ? n : std::max(1, n / 2)) > 700)) n = random_len(k, r, maxlog, be);
        thr();
        resetup(*o, n);
        past.push_back(n);
        if (trace.size() > 400) trace = "... ";
        trace += fmt("%d ", n);
        st.add("setups");
        st.cell(fmt("%d/%d/%s>%s", k, be, prev ? size_class(k, prev).c_str() : "-", size_class(k, n).c_str()));
        prev = n;
        for (long i = 0; i < s.i("burst"); i++) { // thousands of setups in a row
            resetup(*o, i % 3 ? n : k == BLUE ? 1 : 2);
            if (i % 5 == 0) resetup(*o, n);
            st.add("setups");
        }
        if (s.i("burst")) resetup(*o, n);
        if (r.chance(0.8)) {
            thr();
            ObjP f = create(k, n, be);
            ok = compare(*o, *f, "");
            destroy(f);
        }
        // the memory it holds does not grow when the same length is set up again and again
        if (ok && r.chance(0.15)) {
            resetup(*o, n);
            const int64_t b = alloc::get().live_bytes;
            for (int i = 0; i < 3; i++) resetup(*o, n);
            st.add("setups", 4);
            if (alloc::get().live_bytes > b) { violation("setup-leak", fmt("%s %s: three more setups of length %d hold %lld bytes more", backend_name[be], kind_name[k], n, (long long)(alloc::get().live_bytes - b))); ok = false; }
        }
    }
    destroy(o);
    const auto c1 = alloc::get();
    if (c1.live_blocks != c0.live_blocks) violation("leak", fmt("%s %s: %lld blocks (%lld bytes) left after destroying an object with the setups %s", backend_name[be], kind_name[k], (long long)(c1.live_blocks - c0.live_blocks), (long long)(c1.live_bytes - c0.live_bytes), trace.c_str()));
    st.sample(fmt("%s %s setups: %s", backend_name[be], kind_name[k], trace.c_str()));
}
static void setup_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 13));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        for (int i = 0; i < (T ? 300 : 60); i++)
            v.push_back(fmt("kind=%d be=%d maxlog=%d steps=%d seed=%llu", k, any_backend(r), T ? 21 : 18, 7, (unsigned long long)(r.next() % 1000000007ull)));
        for (int i = 0; i < (T ? 60 : 10); i++)
            v.push_back(fmt("kind=%d be=%d maxlog=%d steps=%d seed=%llu", k, any_backend(r), k == BLUE ? 20 : T ? 24 : 22, 4, (unsigned long long)(r.next() % 1000000007ull)));
        for (int i = 0; i < (T ? 60 : 6); i++) // very long lives
            v.push_back(fmt("kind=%d be=%d maxlog=%d steps=%d seed=%llu", k, any_backend(r), 6 + i % 4, 1500, (unsigned long long)(r.next() % 1000000007ull)));
        for (int i = 0; i < (T ? 12 : 2); i++) // more setups than 16 bits count
            v.push_back(fmt("kind=%d be=%d maxlog=5 steps=2 burst=%d seed=%llu", k, any_backend(r), T ? 300000 : 35000, (unsigned long long)(r.next() % 1000000007ull)));
        for (int i = 0; i < (T ? 200 : 24); i++)
            v.push_back(fmt("kind=%d be=%d maxlog=%d streak=%d ratio=%d steps=1 seed=%llu", k, any_backend(r), i % 6 ? 8 + i % 5 : 17, i % 4 ? 20 + int(r.below(300)) : 600, 2 << r.below(5), (unsigned long long)(r.next() % 1000000007ull)));
        for (int i = 0; i < (T ? 20000 : 2500); i++)
            v.push_back(fmt("kind=%d be=%d maxlog=%d steps=%d seed=%llu", k, any_backend(r), i % 3 ? 9 : 13, i % 3 ? 24 : 10, (unsigned long long)(r.next() % 1000000007ull)));
    }
}
static Reg reg_setup("setup", Cmd{setup_list, setup_run});

// ------------------------------------------------------------------ C07
struct Region {
    char* m;
    size_t len;
    explicit Region(size_t bytes)
    {
        len = (bytes + 4095) / 4096 * 4096;
        m = (char*)mmap(0, len + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(m + 4096, len, PROT_READ | PROT_WRITE);
        for (size_t i = 0; i < len / 8; i++) { uint64_t w = 0x7FF4DEADBEEF0000ull + i % 253; memcpy(m + 4096 + 8 * i, &w, 8); }
    }
    ~Region() { munmap(m, len + 8192); }
    double* place(size_t doubles, int mode) { return mode == 1 ? (double*)(m + 4096 + len) - doubles : (double*)(m + 4096); }
    // first damaged word outside [p, p+n), or -1
    long damaged(const double* p, size_t n) const
    {
        const double* b = (const double*)(m + 4096);
        for (size_t i = 0; i < len / 8; i++) {
            if (b + i >= p && b + i < p + n) continue;
            uint64_t w;
            memcpy(&w, b + i, 8);
            if (w != 0x7FF4DEADBEEF0000ull + i % 253) return long(b + i - p);
        }
        return LONG_MIN;
    }
};
static void guard_run(const Spec& s)
{
    omp_set_num_threads(int(s.i("thr", 1)));
    const Kind k = Kind(s.i("kind"));
    const int n = int(s.i("n")), be = int(s.i("be"));
    Rng r(s.u("seed"));
    const int g = int(s.i("g", 1)), nm = int(s.i("nm", 8));
    const auto c0 = alloc::get();
    alloc::guard(g);
    ObjP o;
    const int life = int(s.i("life"));
    const int hop = int(s.i("hop")); // parts of its life in threads that are gone afterwards
    elsewhere(hop & 1, [&] {
        if (life == 1) { o = create(k, 0, be); resetup(*o, n); }
        else if (life == 2) { o = create(k, 0, be); destroy(o); o = create(k, n, be); }
        else if (life >= 4) { o = create(k, life, be); resetup(*o, n); }
        else o = create(k, n, be);
    });
    for (int q = 0; q < nm; q++) {
        const int m = nm >= 8 ? q : any_mode(k, r);
        if (!mode_ok(k, m)) continue;
        auto x = input_for(k, n, m, 0, r.next());
        const size_t no = o->out_doubles(m);
        Region A(x.size() * 8), B(no * 8);
        double* a = A.place(x.size(), 1 + int(r.below(2)));
        double* b = B.place(no, 1 + int(r.below(2)));
        memcpy(a, x.data(), x.size() * 8);
        elsewhere(hop >> (1 + q % 2) & 1, [&] { o->run(m, a, b); });
        st.add("calls");
        st.cell(fmt("%d/%d/%d/%d/%d", k, be, n, m, g));
        long d = A.damaged(a, x.size());
        if (d == LONG_MIN && k == REAL) d = B.damaged(b, no);
        if (d != LONG_MIN) violation("stray-write", label(s) + fmt(" %s: wrote the double at index %ld of a caller's array", mode_name[m], d));
        if (k == REAL && !is_inv(m) && memcmp(a, x.data(), x.size() * 8)) violation("input-modified", label(s) + fmt(" %s: changed its input", mode_name[m]));
    }
    elsewhere(hop & 8, [&] { destroy(o); });
    alloc::guard(0);
    const auto c1 = alloc::get();
    st.add("guarded_blocks", double(c1.calls - c0.calls));
    if (c1.live_blocks != c0.live_blocks) violation("leak", label(s) + fmt(": %lld blocks (%lld bytes) left after destroying the object", (long long)(c1.live_blocks - c0.live_blocks), (long long)(c1.live_bytes - c0.live_bytes)));
    st.sample(label(s) + fmt(" guard=%d life=%d", g, life));
}
static void guard_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 7));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        DomainOpt d;
        d.small = T ? 4000 : 1300;
        d.maxlog = T ? 24 : 21;
        d.large = T ? 25 : 24;
        d.randoms = T ? 4000 : 500;
        d.parallel = T ? 500 : 80;
        d.primes = T ? 200 : 30;
        if (k == BLUE) { d.small = T ? 2000 : 600; d.maxlog = T ? 20 : 17; d.large = T ? 21 : 20; }
        for (auto& l : domain(k, d, r)) {
            int life = int(r.below(5));
            if (life >= 3) life = r.chance(0.5) ? 0 : 2 * int(2 + r.below(100));
            v.push_back(spec_base(k, backend_for(l, r), l, r.next()) + fmt(" g=%d hop=%d nm=%d life=%d", 1 + int(r.below(2)), r.chance(0.15) ? int(r.below(16)) : 0, l.n > (1 << 21) ? (T ? 3 : 1) : T ? 8 : l.n > 200000 ? 2 : l.n < 2000 ? 8 : 4, life));
        }
    }
}
static Reg reg_guard("guard", Cmd{guard_list, guard_run});

// ------------------------------------------------------------------ C16
struct Probe { // an object that exists all along, and its known result
    ObjP o;
    std::vector<double> x, y;
    int m = FWD0;
    Probe(Kind k, int n, int be) { o.reset(new Obj(k, n, be)); x = input_for(k, n, m, 0, 3); y = o->apply(m, x); }
    bool ok() { auto z = o->apply(m, x); return bits_equal(y.data(), z.data(), z.size()); }
};
struct Small {
    const Obj* o;
    int m;
    double *x, *y;
    static void* go(void* p) { Small& s = *(Small*)p; omp_set_num_threads(1); s.o->run(s.m, s.x, s.y); return 0; }
};
static void fail_run(const Spec& s)
{
    omp_set_num_threads(int(s.i("thr", 1)));
    const Kind k = Kind(s.i("kind"));
    const int n = int(s.i("n")), be = int(s.i("be")), from = int(s.i("from", 0)); // from: -1 create, 0 empty object then setup, else setup from that length
    Rng r(s.u("seed"));
    const Kind pk = Kind(r.below(4));
    Probe probe(pk, random_len(pk, r, 7, be), be);
    const int m0 = mode_ok(k, FWD0) ? FWD0 : FWD;
    const auto x = input_for(k, n, m0, 0, r.next());
    // the first calls a thread ever makes, and the first for this length: no memory is asked for then either
    if (r.chance(0.4)) {
        const int threads = omp_get_max_threads();
        const uint64_t seed = r.next();
        std::thread([&] {
            omp_set_num_threads(threads);
            Rng q(seed);
            ObjP o;
            try { o = create(k, n, be); } catch (const Unavailable&) { return; }
            std::vector<int> ms;
            for (int m = 0; m < 8; m++) if (mode_ok(k, m)) ms.push_back(m);
            for (size_t i = ms.size(); i > 1; i--) std::swap(ms[i - 1], ms[q.below(i)]);
            for (int m : ms) {
                auto y = input_for(k, n, m, 0, q.next());
                std::vector<double> out(o->out_doubles(m));
                const uint64_t c = alloc::get().calls;
                alloc::fail_at(1, true);
                {
                    alloc::Scope g;
                    o->run(m, y.data(), out.data());
                }
                alloc::fail_at(0);
                st.add("first_calls_on_a_thread");
                if (alloc::get().calls != c) violation("allocates", label(s) + fmt(": the first %s of a thread made %llu allocation requests", mode_name[m], (unsigned long long)(alloc::get().calls - c)));
            }
            destroy(o);
        }).join();
    }
    std::vector<double> want, xf, wantf;
    { ObjP f = create(k, n, be); want = f->apply(m0, x); destroy(f); }
    if (from > 0) { xf = input_for(k, from, m0, 0, r.next()); ObjP f = create(k, from, be); wantf = f->apply(m0, xf); destroy(f); }
    const auto base = alloc::get();
    // how many requests does it make?
    long total = 0;
    {
        ObjP o;
        uint64_t c;
        if (from < 0) { c = alloc::get().calls; o = create(k, n, be); }
        else { o = create(k, from, be); c = alloc::get().calls; resetup(*o, n); }
        total = long(alloc::get().calls - c);
        destroy(o);
    }
    const std::string lab = label(s) + (from < 0 ? " create" : fmt(" setup from %d", from));
    auto leak = [&](const char* when) {
        const auto c = alloc::get();
        if (c.live_blocks != base.live_blocks) {
            violation("leak", lab + fmt(": %lld blocks (%lld bytes) leaked %s", (long long)(c.live_blocks - base.live_blocks), (long long)(c.live_bytes - base.live_bytes), when));
            return true;
        }
        return false;
    };
    for (int every = 0; every < 2; every++)
        for (long i = 1; i <= total; i++) {
            const std::string at = fmt("%ld of %ld%s", i, total, every ? " and all later ones" : "");
            ObjP o;
            if (from >= 0) {
                o = create(k, from, be);
                if (from > 0 && r.chance(0.7)) o->apply(m0, input_for(k, from, m0, 0, 5));
            }
            else o.reset(new Obj(k, n, be, Obj::Empty()));
            const auto f0 = alloc::get().failed;
            int outcome = 0; // 0 returned, 1 bad_alloc, 2 something else
            std::string other;
            alloc::fail_at(i, every);
            try {
                alloc::Scope g;
                if (from < 0) o->create(n, be);
                else o->setup(n);
            }
            catch (const std::bad_alloc&) { outcome = 1; }
            catch (const Unavailable&) { alloc::fail_at(0); throw; }
            catch (const std::exception& e) { outcome = 2; other = e.what(); }
            catch (...) { outcome = 2; other = "a foreign exception"; }
            alloc::fail_at(0);
            st.add("calls");
            if (alloc::get().failed == f0) { // the path took fewer requests this time; nothing was injected
                st.add("not_reached");
                destroy(o);
                continue;
            }
            st.add("injected");
            st.cell(fmt("%d/%d/%s/%d/%ld/%d", k, be, size_class(k, n).c_str(), from < 0 ? -1 : from > 0, i, every));
            if (outcome == 0) violation("swallowed", lab + ": allocation " + at + " failed but the call returned normally");
            if (outcome == 2) violation("wrong-exception", lab + ": allocation " + at + " failed and the call threw " + other);
            if (from >= 0) {
                const int what = int(r.below(5));
                for (int again = 0; what >= 3 && again < 1 + int(r.below(3)); again++) { // fails more than once
                    const uint64_t f1 = alloc::get().failed;
                    const int n2 = r.chance(0.3) ? n : from > 0 && r.chance(0.4) ? from : random_len(k, r, 7, be);
                    bool threw = false;
                    alloc::fail_at(1 + long(r.below(uint64_t(total))), r.chance(0.5));
                    try { resetup(*o, n2); }
                    catch (const std::bad_alloc&) { threw = true; }
                    catch (const Unavailable&) { alloc::fail_at(0); throw; }
                    catch (...) { alloc::fail_at(0); violation("wrong-exception", lab + ": a second failing allocation gave another exception"); }
                    alloc::fail_at(0);
                    st.add("failed_again", double(threw));
                    if (!threw && alloc::get().failed != f1) violation("swallowed", lab + ": an allocation of a second setup failed but the call returned normally");
                }
                if (what == 0) {} // just destroy
                else {
                    // usable again, for the length before the failure, the same or another length
                    if (from > 0 && r.chance(0.5)) {
                        try {
                            resetup(*o, from);
                            auto y = o->apply(m0, xf);
                            size_t w = 0;
                            st.add("recovered");
                            if (!bits_equal(wantf.data(), y.data(), y.size(), &w)) violation("not-recovered", lab + ": after allocation " + at + fmt(" failed, set up again with the length before, element %zu is %.17g instead of %.17g", w, y[w], wantf[w]));
                        }
                        catch (const Unavailable&) { throw; }
                        catch (const std::exception& e) { violation("not-recoverable", lab + ": after allocation " + at + " failed, a setup with the length before threw " + e.what()); }
                    }
                    if (what % 2 == 0) { try { resetup(*o, random_len(k, r, 7, be)); } catch (const Unavailable&) { throw; } catch (...) { violation("not-recoverable", lab + ": a later setup threw"); } }
                    try {
                        resetup(*o, n);
                        auto y = o->apply(m0, x);
                        size_t w = 0;
                        st.add("recovered");
                        if (!bits_equal(want.data(), y.data(), y.size(), &w)) violation("not-recovered", lab + ": after allocation " + at + fmt(" failed, set up again, element %zu is %.17g instead of %.17g", w, y[w], want[w]));
                    }
                    catch (const Unavailable&) { throw; }
                    catch (const std::exception& e) { violation("not-recoverable", lab + ": after allocation " + at + " failed, a later setup threw " + e.what()); }
                }
            }
            destroy(o);
            if (leak(("when allocation " + at + " failed").c_str())) return;
            if (!probe.ok()) { violation("other-object", lab + ": an existing object changed its result after allocation " + at + " failed"); return; }
        }
    // transforms need no memory at all, nor a stack that grows with the length
    if (n >= 32768) {
        ObjP o = create(k, n, be);
        for (int m = 0; m < 8; m++) {
            if (!mode_ok(k, m)) continue;
            auto y = input_for(k, n, m, 0, r.next()), y0 = y;
            std::vector<double> out(o->out_doubles(m)), out0(out);
            o->run(m, y0.data(), out0.data());
            Small sm{o.get(), m, y.data(), out.data()};
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 192 * 1024);
            pthread_t th;
            if (pthread_create(&th, &at, Small::go, &sm)) { st.add("no_thread"); continue; }
            pthread_join(th, 0);
            pthread_attr_destroy(&at);
            st.add("small_stack_calls");
            const auto& p = o->inplace() ? y : out;
            const auto& q = o->inplace() ? y0 : out0;
            if (!bits_equal(p.data(), q.data(), q.size())) violation("small-stack", lab + fmt(": %s gives another result on a thread with a small stack", mode_name[m]));
        }
        destroy(o);
    }
    {
        ObjP o = create(k, n, be);
        const uint64_t c = alloc::get().calls;
        for (int m = 0; m < 8; m++) {
            if (!mode_ok(k, m)) continue;
            auto y = input_for(k, n, m, 0, r.next());
            std::vector<double> out(o->out_doubles(m));
            alloc::fail_at(1, true);
            {
                alloc::Scope g;
                o->run(m, y.data(), out.data());
            }
            alloc::fail_at(0);
            st.add("transforms");
        }
        if (alloc::get().calls != c) violation("allocates", lab + fmt(": transform calls made %llu allocation requests", (unsigned long long)(alloc::get().calls - c)));
        destroy(o);
    }
    leak("in the end");
    st.sample(lab + fmt(": %ld allocations", total));
}
// Lengths for which there is not enough memory: every large request is refused.
static void vast_run(const Spec& s)
{
    omp_set_num_threads(int(s.i("thr", 1)));
    const Kind k = Kind(s.i("kind"));
    const int n = int(s.i("n")), be = int(s.i("be")), from = int(s.i("from", 0));
    Rng r(s.u("seed"));
    const Kind pk = Kind(r.below(4));
    Probe probe(pk, random_len(pk, r, 7, be), be);
    const int n2 = random_len(k, r, 8, be), m2 = any_mode(k, r);
    const auto x2 = input_for(k, n2, m2, 0, r.next());
    std::vector<double> want;
    { ObjP f = create(k, n2, be); want = f->apply(m2, x2); destroy(f); }
    const auto base = alloc::get();
    const std::string lab = label(s) + (from < 0 ? " create" : fmt(" setup from %d", from)) + " without the memory for it";
    ObjP o;
    if (from >= 0) {
        o = create(k, from, be);
        if (from > 0) { const int m = any_mode(k, r); o->apply(m, input_for(k, from, m, 0, 5)); }
    }
    else o.reset(new Obj(k, n, be, Obj::Empty()));
    int outcome = 0;
    std::string other;
    alarm(40); // ends the process: reported as a crash
    alloc::limit(s.u("limit"));
    try {
        alloc::Scope g;
        if (from < 0) o->create(n, be);
        else o->setup(n);
    }
    catch (const std::bad_alloc&) { outcome = 1; }
    catch (const Unavailable&) { alloc::limit(0); alarm(0); throw; }
    catch (const std::exception& e) { outcome = 2; other = e.what(); }
    alloc::limit(0);
    alarm(0);
    st.add("calls");
    st.add("refused", double(alloc::get().failed - base.failed));
    st.cell(fmt("vast/%d/%d/%d/%d", k, be, n, from < 0 ? -1 : from > 0));
    if (outcome == 0 && alloc::get().failed == base.failed) st.add("not_reached");
    else if (outcome == 0) violation("swallowed", lab + ": returned normally");
    if (outcome == 2) violation("wrong-exception", lab + ": threw " + other);
    if (outcome == 1) {
        if (from >= 0) {
            for (int again = 0; again < int(r.below(2)); again++) {
                alloc::limit(s.u("limit"));
                bool threw = false;
                try { resetup(*o, n); } catch (const std::bad_alloc&) { threw = true; }
                alloc::limit(0);
                st.add("failed_again");
                if (!threw) violation("swallowed", lab + ": the second attempt returned normally");
            }
            if (r.chance(0.8)) {
                resetup(*o, n2);
                auto y = o->apply(m2, x2);
                size_t w = 0;
                st.add("recovered");
                if (!bits_equal(want.data(), y.data(), y.size(), &w)) violation("not-recovered", lab + fmt(": set up with %d then, element %zu is %.17g instead of %.17g", n2, w, y[w], want[w]));
            }
        }
        destroy(o);
        const auto c = alloc::get();
        if (c.live_blocks != base.live_blocks) violation("leak", lab + fmt(": %lld blocks (%lld bytes) leaked", (long long)(c.live_blocks - base.live_blocks), (long long)(c.live_bytes - base.live_bytes)));
        if (!probe.ok()) violation("other-object", lab + ": an existing object changed its result");
    }
    st.sample(lab);
}
static void vast_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 1616));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        std::vector<int> ns;
        for (int l = 24; l <= 30; l++) {
            ns.push_back(1 << l);
            ns.push_back((1 << l) - 2);
            if (l < 30) ns.push_back((1 << l) + 2);
            if (k == BLUE && l < 30) ns.push_back((1 << l) + 1);
            if (l < 30) for (int i = 0; i < (T ? 10 : 2); i++) ns.push_back((1 << l) + 2 * int(r.below(uint64_t(1) << (l - 1))));
        }
        for (int n : ns) {
            const int from = int(r.below(3)) - 1;
            v.push_back(fmt("kind=%d be=%d n=%d from=%d limit=%d thr=%d seed=%llu", k, int(AVX2), n, from <= 0 ? from : random_len(k, r, 9, AVX2), 1 << (20 + r.below(7)), 1 + int(r.below(4)), (unsigned long long)(r.next() % 1000000007ull)));
        }
    }
}
static Reg reg_vast("vast", Cmd{vast_list, vast_run});
static void fail_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 16));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        std::vector<int> ns;
        for (int l = 1; l <= (T ? 20 : k == BLUE ? 15 : 18); l++) ns.push_back(1 << l);
        if (k != BLUE) for (int n : {1 << 20, 1 << (21 + r.below(3)), (5 + 2 * int(r.below(6))) << 19}) ns.push_back(n);
        for (int n : {6, 10, 12, 18, 30, 34, 60, 90, 98, 100, 154, 250, 360, 500, 1000, 2310, 4096 * 3, 32768 * 3, 65536 * 3, 16384 * 9}) if (k != BLUE || n < 40000) ns.push_back(n);
        if (k == BLUE) for (int n : {1, 3, 5, 7, 13, 97, 255, 257, 1023, 1021, 4099, 16411}) ns.push_back(n);
        const int extra = T ? 500 : 120;
        for (int i = 0; i < extra; i++) ns.push_back(random_len(k, r, 13));
        for (int n : ns)
            for (int from : {-1, 0, random_len(k, r, 10)}) {
                if (n > 40000 && !T && from == 0) continue;
                int be = any_backend(r);
                if (left_out(k, be, n) || (from > 0 && left_out(k, be, from))) be = AVX2;
                v.push_back(spec_base(k, be, {n, n >= 8192 ? 1 + int(r.below(6)) : 1}, r.next()) + fmt(" from=%d", from));
            }
    }
}
static Reg reg_fail("fail", Cmd{fail_list, fail_run});
}
