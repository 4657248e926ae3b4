// Concurrency monitors: C10 (par), C11 (own), C12 (shared).
#include "domain.hpp"
extern "C" { int omp_get_thread_num(void); void omp_set_max_active_levels(int); }
namespace otv {
static void note_shim()
{
    if (!have_shim()) return;
    static shim::Stats last{};
    auto s = shim::stats();
    st.add("omp_regions", double(s.regions - last.regions));
    st.add("omp_barriers", double(s.barriers - last.barriers));
    st.add("omp_adversarial_phases", double(s.phases - last.phases));
    st.max("omp_largest_team", double(s.max_team));
    last = s;
}
static std::vector<double> input_for(Kind k, int n, int m, int in, uint64_t seed)
{
    Obj o(k, n, AUTO, Obj::Empty());
    std::vector<double> x(o.in_doubles(m));
    make_call_input(o, m, in, seed, x.data());
    return x;
}

// ------------------------------------------------------------------ C10
static const int teams[] = {2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 24, 33, 40, 65, 130, 257};
static void par_run(const Spec& s)
{
    const Kind k = Kind(s.i("kind"));
    const int n = int(s.i("n")), be = int(s.i("be")), want = int(s.i("nm", 2)), rounds = int(s.i("rounds", 3)), maxteam = int(s.i("maxteam", 14));
    Rng r(s.u("seed"));
    auto team = [&] { return r.chance(0.06) && maxteam == 14 && !have_shim() ? teams[14 + r.below(4)] : teams[r.below(uint64_t(maxteam))]; };
    std::vector<int> modes;
    if (want >= 8) { for (int m = 0; m < 8; m++) if (mode_ok(k, m)) modes.push_back(m); } // every call once
    else while (int(modes.size()) < want) modes.push_back(any_mode(k, r));
    const int nm = int(modes.size());
    std::vector<std::vector<double>> x(nm), y(nm);
    {
        omp_set_num_threads(1);
        Obj o(k, n, be);
        for (int q = 0; q < nm; q++) {
            x[q] = input_for(k, n, modes[q], r.chance(0.8) ? 0 : int(r.below(IN_KINDS)), r.next());
            y[q] = o.apply(modes[q], x[q]);
        }
    }
    auto check = [&](const Obj& o, int q, const std::string& how) {
        auto z = o.apply(modes[q], x[q]);
        size_t at = 0;
        st.add("calls");
        if (!bits_equal(y[q].data(), z.data(), z.size(), &at))
            violation("schedule-dependent", fmt("%s %s n=%d %s: element %zu is %.17g with one thread and %.17g %s", backend_name[be], kind_name[k], n, mode_name[modes[q]], at, y[q][at], z[at], how.c_str()));
    };
    std::unique_ptr<Obj> o;
    for (int t = 0; t < rounds; t++) {
        const int ts = team();
        omp_set_num_threads(ts);
        if (!o || r.chance(0.5)) o.reset(new Obj(k, n, be));
        else o->setup(n);
        for (int q = 0; q < nm; q++) {
            const int tr = r.chance(0.2) ? 1 : team();
            omp_set_num_threads(tr);
            check(*o, q, fmt("with %d (set up with %d)", tr, ts));
            st.cell(fmt("%d/%d/%d/%d/%d/%d", k, be, n, modes[q], ts, tr));
        }
    }
    if (s.i("nested")) {
        const int outer = 2 + int(r.below(3)), levels = 1 + int(r.below(2)), inner = 1 + int(r.below(4));
        omp_set_max_active_levels(levels);
        #pragma omp parallel num_threads(outer)
        {
            omp_set_num_threads(inner);
            const int id = omp_get_thread_num();
            try {
                Obj p(k, n, be);
                for (int q = 0; q < nm; q++) check(p, (q + id) % nm, fmt("in thread %d of the caller's region, %d inner threads, %d active levels", id, inner, levels));
            }
            catch (const Unavailable&) {}
            catch (const std::exception& e) { violation("exception", e.what()); }
            st.add("nested_runs");
        }
        omp_set_max_active_levels(1);
        st.cell(fmt("nested/%d/%d/%d/%d/%d/%d", k, be, n, outer, levels, inner));
    }
    omp_set_num_threads(1);
    note_shim();
    st.sample(fmt("%s %s n=%d teams varied, %d rounds", backend_name[be], kind_name[k], n, rounds));
}
static void par_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 10 + 100 * uint64_t(a.opt.i("salt"))));
    const bool T = a.thorough;
    const long lo = a.opt.i("minlog", 13), hi = a.opt.i("maxlog", T ? 21 : 18);
    const int mixed = int(a.opt.i("mixed", T ? 200 : 40)), rounds = int(a.opt.i("rounds", T ? 5 : 3)), rep = int(a.opt.i("rep", 1)), maxteam = int(a.opt.i("maxteam", 14));
    static const int odd[] = {3, 5, 7, 9, 11, 13, 15, 21, 25, 27, 35, 39, 45, 49, 55, 63, 75, 77, 81, 99, 105, 121, 125, 135, 169, 225, 243, 289, 343, 375, 625, 729, 1155, 2187, 2401, 3125};
    for (Kind k : kinds(a)) {
        const int mult = k == CPLX ? 1 : 2;
        auto add = [&](long n, int be = -1) {
            v.push_back(fmt("kind=%d be=%d n=%ld nm=%d rounds=%d nested=%d maxteam=%d seed=%llu", k, be < 0 ? any_backend(r) : be, n, be >= 0 ? int(a.opt.i("pownm", 2)) : n > 300000 ? 1 : 2, rounds, n < 150000, maxteam, (unsigned long long)(r.next() % 1000000007ull)));
        };
        for (int i = 0; i < rep; i++)
            for (long l = k == BLUE ? std::min(hi, 17L) : hi; l >= lo; l--)
                for (int be : backends()) add(1L << l, be);
        for (int i = 0; i < mixed; i++) {
            long n = 2L * mult * odd[r.below(36)];
            if (k == BLUE) { n = (1L << lo) + long(r.below(1u << (std::min(hi, 17L) - 1))); add(n); continue; }
            while (n < 32768L * mult) n *= r.chance(0.7) ? 2 : r.chance(0.5) ? 3 : 5;
            if (n > (1L << hi) * 2) { i--; continue; }
            add(n);
        }
        // below the thresholds there is nothing to share, which must not depend on the team either
        for (int i = 0; i < mixed / 2; i++) {
            long n = 2 * (1 + long(r.below(4000)));
            if (k != BLUE && largest_prime(int(n / mult)) > 60) { i--; continue; }
            add(n);
        }
    }
}
static Reg reg_par("par", Cmd{par_list, par_run});

// ------------------------------------------------------------------ threads of the user
struct Gate { // starts all threads at about the same moment, without ordering anything else
    std::atomic<int> in{0};
    int n;
    explicit Gate(int n_) : n(n_) {}
    void wait()
    {
        in.fetch_add(1, std::memory_order_relaxed);
        while (in.load(std::memory_order_relaxed) < n) sched_yield();
    }
};
static void jitter(Rng& r)
{
    switch (r.below(6)) {
    case 0: sched_yield(); break;
    case 1: usleep(useconds_t(r.below(120))); break;
    case 2: for (volatile int i = 0, e = int(r.below(4000)); i < e; i++) {} break;
    default: break;
    }
}
// ------------------------------------------------------------------ C11
struct Op { std::string what; uint64_t hash; };
static int pick_len(Kind k, Rng& r, int big)
{
    static const int odd[] = {3, 5, 7, 9, 15, 21, 27, 45, 49, 75, 77, 81, 105};
    switch (r.below(big ? 6 : 4)) {
    case 0: return 1 << (1 + r.below(r.chance(0.3) ? 14 : 11));
    case 1: return 2 * (1 + int(r.below(60)));
    case 2: return 4 * odd[r.below(13)] * (1 << r.below(r.chance(0.2) ? 7 : 4));
    case 3: return k == BLUE ? 1 + int(r.below(300)) : 2 * (1 + int(r.below(150)));
    case 4: return 1 << (k == BLUE ? 14 + r.below(2) : big > 1 && r.chance(0.2) ? 18 + r.below(4) : 15 + r.below(3));
    default: {
        int n = 4 * odd[r.below(13)];
        while (n < (k == BLUE ? 16000 : 66000)) n *= 2;
        return n;
    }
    }
}
// one thread's life: a deterministic sequence of operations on its own objects; logs every result
static void life(uint64_t seed, int steps, int big, bool jit, int onlykind, std::vector<Op>& log)
{
    Rng r(seed), j(seed ^ 0x5555);
    std::unique_ptr<Obj> held[3];
    for (int t = 0; t < steps; t++) {
        omp_set_num_threads(big ? 1 + int(r.below(3)) : 1);
        auto& o = held[r.below(3)];
        const Kind k = onlykind >= 0 ? Kind(onlykind) : Kind(r.below(4));
        const int be = r.chance(0.25) ? int(AUTO) : any_backend(r), n = pick_len(k, r, big);
        const int how = int(r.below(5));
        std::string what;
        try {
            if (!o || how == 0) { o.reset(); o.reset(new Obj(k, n, be)); what = fmt("create %s %s n=%d", backend_name[be], kind_name[k], n); }
            else if (how == 1) { const int n2 = pick_len(o->k, r, big); o->setup(n2); what = fmt("setup %s n=%d", kind_name[o->k], n2); }
            else if (how == 2 && r.chance(0.3)) { o.reset(); log.push_back({"destroy", 0}); continue; }
            if (jit) jitter(j);
            const int m = any_mode(o->k, r);
            const uint64_t is = r.next();
            auto y = o->apply(m, input_for(o->k, o->n, m, 0, is));
            log.push_back({what + fmt(" %s %s n=%d", mode_name[m], kind_name[o->k], o->n), fnv(y.data(), y.size() * 8)});
            if (jit) jitter(j);
        }
        catch (const Unavailable&) { o.reset(); log.push_back({"skipped", 0}); }
        catch (const std::exception& e) { o.reset(); log.push_back({std::string("threw ") + e.what(), 1}); }
    }
}
static void own_run(const Spec& s)
{
    const int K = int(s.i("threads", 4)), steps = int(s.i("steps", 12)), big = int(s.i("big")), only = int(s.i("only", -1));
    const uint64_t seed = s.u("seed");
    const bool same = s.i("same") != 0; // every thread lives the same life
    std::vector<std::vector<Op>> got(K), alone(K);
    Gate gate(K);
    std::vector<std::thread> th;
    for (int i = 0; i < K; i++)
        th.emplace_back([&, i] {
            gate.wait();
            life(mix(seed, same ? 0 : i), steps, big, true, only, got[i]);
        });
    for (auto& t : th) t.join();
    st.add("threads", K);
    for (int i = 0; i < K; i++) {
        life(mix(seed, same ? 0 : i), steps, big, false, only, alone[i]);
        st.add("calls", double(got[i].size()));
        if (got[i].size() != alone[i].size()) violation("influenced", fmt("thread %d made %zu operations, alone %zu", i, got[i].size(), alone[i].size()));
        for (size_t q = 0; q < std::min(got[i].size(), alone[i].size()); q++) {
            st.cell(got[i][q].what + std::to_string(K));
            if (got[i][q].hash != alone[i][q].hash || got[i][q].what != alone[i][q].what) {
                violation("influenced", fmt("thread %d of %d, step %zu (%s): a different result than alone", i, K, q, got[i][q].what.c_str()));
                break;
            }
        }
    }
    note_shim();
    if (!got[0].empty()) st.sample(fmt("%d threads, %d steps, e.g. %s", K, steps, got[0][0].what.c_str()));
}
static void own_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 11));
    const int n = int(a.opt.i("count", a.thorough ? 1500 : 150)), fresh = int(a.opt.i("fresh"));
    for (int i = 0; i < n; i++) {
        const int big = !fresh && i % 5 == 0 ? 1 + int(a.opt.i("huge")) : 0;
        if (!fresh && i % 12 == 1) { // a crowd
            v.push_back(fmt("threads=%d steps=%d big=0 same=%d only=%d seed=%llu", 9 + int(r.below(int(a.opt.i("crowd", 20)))), 4, int(r.chance(0.5)), r.chance(0.5) ? -1 : int(r.below(4)), (unsigned long long)(r.next() % 1000000007ull)));
            continue;
        }
        v.push_back(fmt("threads=%d steps=%d big=%d same=%d only=%d seed=%llu", 2 + int(r.below(big ? 3 : 5)), fresh ? 2 : big ? 6 : 25, big, int(r.chance(fresh ? 0.6 : 0.25)),
                        r.chance(0.5) ? -1 : int(r.below(4)), (unsigned long long)(r.next() % 1000000007ull)));
    }
}
static Reg reg_own("own", Cmd{own_list, own_run});

// Many objects alive at once, handed from thread to thread: created, set up, used and destroyed by threads
// that come and go, one after the other. Each result is compared with that of an object that lived alone.
static void crowd_run(const Spec& s)
{
    const int M = int(s.i("objects", 40)), steps = int(s.i("steps", 120)), only = int(s.i("only", -1)), be0 = int(s.i("be", -1));
    const double hop = s.i("hop") ? 0.4 : 0;
    Rng r(s.u("seed"));
    struct One {
        std::unique_ptr<Obj> o;
        int m = 0, be = 0;
        std::vector<double> x, y;
    };
    std::vector<One> all(M);
    size_t at = 0;
    auto expect = [&](One& e) { // what an object that lives for one call gives
        e.m = any_mode(e.o->k, r);
        e.x = input_for(e.o->k, e.o->n, e.m, r.chance(0.8) ? 0 : int(r.below(IN_KINDS)), r.next());
        Obj alone(e.o->k, e.o->n, e.be);
        e.y = alone.apply(e.m, e.x);
    };
    int made = 0, live = 0, most = 0;
    for (int t = 0; t < M + steps; t++) {
        One& e = all[t < M ? t : int(r.below(M))];
        omp_set_num_threads(1 + int(r.below(3)));
        try {
            if (!e.o) {
                const Kind k = only >= 0 ? Kind(only) : Kind(r.below(4));
                const int n = pick_len(k, r, t % 40 == 5);
                e.be = be0 >= 0 ? be0 : any_backend(r);
                elsewhere(r.chance(hop), [&] { e.o.reset(new Obj(k, n, e.be)); });
                live++;
                most = std::max(most, live);
                made++;
                expect(e);
                if (t < M && !r.chance(0.2)) continue;
            }
            else if (r.chance(0.12)) { elsewhere(r.chance(hop), [&] { e.o.reset(); }); live--; continue; }
            else if (r.chance(0.15)) {
                const int n = pick_len(e.o->k, r, 0);
                elsewhere(r.chance(hop), [&] { e.o->setup(n); });
                expect(e);
            }
            std::vector<double> y;
            elsewhere(r.chance(hop), [&] { y = e.o->apply(e.m, e.x); });
            st.add("calls");
            st.cell(fmt("crowd/%d/%d/%d/%d/%d", e.o->k, e.be, e.o->n, e.m, live / 16));
            if (!bits_equal(e.y.data(), y.data(), y.size(), &at)) {
                violation("influenced", fmt("%s %s n=%d %s, one of %d objects%s: element %zu is %.17g, an object that lives alone gives %.17g", backend_name[e.be], kind_name[e.o->k], e.o->n, mode_name[e.m], live, hop > 0 ? " handed between threads" : "", at, y[at], e.y[at]));
                return;
            }
        }
        catch (const Unavailable&) { if (e.o) live--; e.o.reset(); }
    }
    note_shim();
    st.add("objects", made);
    st.max("objects_alive_at_once", most);
    omp_set_num_threads(1);
    st.sample(fmt("%d objects, up to %d alive at once%s", made, most, hop > 0 ? ", handed between threads" : ""));
}
// As many objects, divided among threads that call them at the same time; nobody touches another's objects.
static void busy_run(const Spec& s)
{
    const int M = int(s.i("objects", 100)), K = int(s.i("threads", 6)), rounds = int(s.i("rounds", 300)), only = int(s.i("only", -1)), be0 = int(s.i("be", -1));
    Rng r(s.u("seed"));
    struct One {
        std::unique_ptr<Obj> o;
        int m = 0, be = 0;
        std::vector<double> x;
        uint64_t alone = 0;
    };
    std::vector<One> all(M);
    omp_set_num_threads(1);
    const int same = s.i("same") ? pick_len(only >= 0 ? Kind(only) : REAL, r, 0) & ~1 : 0;
    for (auto& e : all) {
        const Kind k = only >= 0 ? Kind(only) : Kind(r.below(4));
        const int n = same >= 2 ? same : pick_len(k, r, 0);
        e.be = be0 >= 0 ? be0 : any_backend(r);
        try { e.o.reset(new Obj(k, n, e.be)); } catch (const Unavailable&) { e.be = be0 >= 0 ? be0 : 0; }
        if (!e.o) continue;
        e.m = any_mode(k, r);
        e.x = input_for(k, n, e.m, 0, r.next());
    }
    Gate gate(K);
    std::vector<std::thread> th;
    std::atomic<uint64_t> calls{0};
    std::vector<std::vector<std::pair<int, uint64_t>>> got(K);
    for (int i = 0; i < K; i++)
        th.emplace_back([&, i] {
            Rng j(mix(s.u("seed"), 300 + i));
            omp_set_num_threads(1);
            gate.wait();
            for (int t = 0; t < rounds; t++) {
                const int q = int(j.below((M - i + K - 1) / K)) * K + i; // the objects of this thread
                if (!all[q].o) continue;
                const auto y = all[q].o->apply(all[q].m, all[q].x);
                got[i].push_back({q, fnv(y.data(), y.size() * sizeof(double))});
                calls.fetch_add(1, std::memory_order_relaxed);
            }
        });
    for (auto& t : th) t.join();
    for (auto& e : all)
        if (e.o) {
            Obj alone(e.o->k, e.o->n, e.be);
            const auto y = alone.apply(e.m, e.x);
            e.alone = fnv(y.data(), y.size() * sizeof(double));
            st.cell(fmt("busy/%d/%d/%d/%d", e.o->k, e.be, e.o->n, e.m));
        }
    for (int i = 0; i < K; i++)
        for (auto& g : got[i])
            if (g.second != all[g.first].alone) {
                const One& e = all[g.first];
                violation("influenced", fmt("%s %s n=%d %s in thread %d of %d, one of %d objects alive: not the result of an object that lives alone", backend_name[e.be], kind_name[e.o->k], e.o->n, mode_name[e.m], i, K, M));
                i = K - 1;
                break;
            }
    note_shim();
    st.add("calls", double(calls));
    st.add("objects", M);
    st.max("objects_alive_at_once", M);
    st.sample(fmt("%d objects divided among %d threads, %llu calls at the same time", M, K, (unsigned long long)calls));
}
static void crowd_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 1111));
    const int n = int(a.opt.i("count", a.thorough ? 400 : 60));
    for (int i = 0; i < n; i++)
        v.push_back(fmt("objects=%d steps=%d hop=%d only=%d be=%ld seed=%llu", i % 10 == 0 ? 300 : 2 + int(r.below(70)), 120, int(r.chance(0.7)), i % 3 ? -1 : int(r.below(4)), a.opt.i("be", -1), (unsigned long long)(r.next() % 1000000007ull)));
}
static Reg reg_crowd("crowd", Cmd{crowd_list, crowd_run});
static void busy_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 1112));
    const int n = int(a.opt.i("count", a.thorough ? 300 : 40)), rounds = int(a.opt.i("rounds", 300));
    for (int i = 0; i < n; i++)
        v.push_back(fmt("objects=%d threads=%d rounds=%d only=%d same=%d be=%ld seed=%llu", i % 3 == 0 ? 300 : 20 + int(r.below(200)), 2 + int(r.below(9)), rounds, i % 5 ? int(r.below(4)) : -1, int(r.chance(0.3)), a.opt.i("be", -1), (unsigned long long)(r.next() % 1000000007ull)));
}
static Reg reg_busy("busy", Cmd{busy_list, busy_run});

// ------------------------------------------------------------------ C12
static void shared_run(const Spec& s)
{
    const int K = int(s.i("threads", 4)), n = int(s.i("n")), be = int(s.i("be")), reps = int(s.i("reps", 10)), omp = int(s.i("thr", 1));
    const uint64_t seed = s.u("seed");
    Rng r(seed);
    omp_set_num_threads(omp);
    const bool cold = s.i("cold") != 0;
    Obj o(REAL, n, be);
    if (s.i("again")) { o.setup(2 + 2 * int(r.below(500))); o.setup(n); }
    const int P = 8; // calls and their results alone
    std::vector<std::vector<double>> x(P), y(P);
    std::vector<int> mode(P);
    for (int q = 0; q < P; q++) {
        mode[q] = q % 2 ? r.range(INV, INVN) : r.range(FWD, FWDN);
        x[q] = input_for(REAL, n, mode[q], 0, r.next());
        if (!cold) y[q] = o.apply(mode[q], x[q]);
    }
    // cold: the very first calls on the object are made by several threads at once, and what they return is
    // compared afterwards with an object nobody shares
    struct Got { int q; uint64_t hash; };
    std::vector<std::vector<Got>> got(K);
    Gate gate(K);
    std::vector<std::thread> th;
    std::atomic<uint64_t> calls{0};
    const Obj& shared = o;
    const int flavour = int(s.i("flavour")); // 0 any call, 1 forward only, 2 inverse only, 3 all the same
    for (int i = 0; i < K; i++)
        th.emplace_back([&, i] {
            Rng j(mix(seed, 100 + i));
            omp_set_num_threads(omp);
            gate.wait();
            for (int t = 0; t < reps; t++) {
                int q = int(j.below(P));
                if (flavour == 1) q &= ~1;
                if (flavour == 2) q |= 1;
                if (flavour == 3) q = int(seed % P);
                auto z = shared.apply(mode[q], x[q]);
                calls.fetch_add(1, std::memory_order_relaxed);
                size_t at = 0;
                if (cold) { got[i].push_back({q, fnv(z.data(), z.size() * sizeof(double))}); continue; }
                if (!bits_equal(y[q].data(), z.data(), z.size(), &at))
                    violation("shared-differs", fmt("%s RealFFT n=%d %s by thread %d of %d: element %zu is %.17g, alone %.17g", backend_name[be], n, mode_name[mode[q]], i, K, at, z[at], y[q][at]));
                if (j.chance(0.3)) jitter(j);
            }
        });
    for (auto& t : th) t.join();
    if (cold) {
        Obj alone(REAL, n, be);
        std::vector<uint64_t> h(P);
        for (int q = 0; q < P; q++) {
            auto z = alone.apply(mode[q], x[q]);
            h[q] = fnv(z.data(), z.size() * sizeof(double));
        }
        for (int i = 0; i < K; i++)
            for (size_t c = 0; c < got[i].size(); c++)
                if (got[i][c].hash != h[got[i][c].q]) {
                    violation("shared-differs", fmt("%s RealFFT n=%d %s, call %zu by thread %d of %d after setup: not the result of an object that is not shared", backend_name[be], n, mode_name[mode[got[i][c].q]], c, i, K));
                    break;
                }
        st.add("objects whose first calls were concurrent", 1);
    }
    st.add("calls", double(calls));
    st.add("threads", K);
    st.cell(fmt("%d/%d/%d/%d/%d/%d", n, be, K, omp, flavour, cold));
    note_shim();
    st.sample(fmt("%s RealFFT n=%d shared by %d threads, %llu calls, %d OpenMP threads each", backend_name[be], n, K, (unsigned long long)calls, omp));
}
static void shared_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 12));
    const bool T = a.thorough;
    const int small = int(a.opt.i("small", T ? 1200 : 200)), big = int(a.opt.i("big", T ? 120 : 16)), reps = int(a.opt.i("reps", 40));
    auto add = [&](int n, int omp, int rp) {
        v.push_back(fmt("n=%d be=%d threads=%d reps=%d thr=%d again=%d flavour=%d cold=%d seed=%llu", n, any_backend(r), 2 + int(r.below(5)), rp, omp, int(r.below(2)), int(r.below(4)), int(r.below(2)), (unsigned long long)(r.next() % 1000000007ull)));
    };
    static const int odd[] = {3, 5, 7, 9, 15, 21, 27, 45, 49, 75, 77, 81, 105};
    for (int i = 0; i < big; i++) {
        int n = i % 2 ? 1 << (16 + r.below(3)) : 4 * odd[r.below(13)];
        while (n < 65536) n *= 2;
        add(n, 1 + int(r.below(4)), 3);
    }
    for (int l = 1; l <= 15; l++) for (int i = 0; i < (T ? 6 : 2); i++) add(1 << l, 1, l > 11 ? reps / 4 + 2 : reps);
    for (int i = 0; i < (T ? 60 : 10); i++) { // a crowd on one object
        const int n = i % 2 ? 1 << (4 + r.below(9)) : 4 * odd[r.below(13)] * (1 << r.below(6));
        v.push_back(fmt("n=%d be=%d threads=%d reps=4 thr=1 again=%d flavour=%d cold=%d seed=%llu", n, any_backend(r), 9 + int(r.below(int(a.opt.i("crowd", 20)))), int(r.below(2)), int(r.below(4)), int(r.below(2)), (unsigned long long)(r.next() % 1000000007ull)));
    }
    for (int i = 0; i < small; i++) {
        int n = 2 * (1 + int(r.below(i % 2 ? 200 : 3000)));
        if (largest_prime(n / 2) > 200) { i--; continue; }
        add(n, 1, n > 2000 ? reps / 4 + 2 : reps);
    }
}
static Reg reg_shared("shared", Cmd{shared_list, shared_run});
}
