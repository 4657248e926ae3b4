// Drives the whole public interface over heap arrays of exactly the documented size, for the builds in
// which a sanitizer is the oracle (C07).
#include "domain.hpp"
#include <unistd.h>
namespace otv {
struct Arr { // exact, separately allocated, never value-initialised
    double* p;
    size_t n;
    explicit Arr(size_t n_) : p((double*)malloc(n_ * 8)), n(n_) {}
    ~Arr() { free(p); }
};
static void use_run(const Spec& s)
{
    omp_set_num_threads(int(s.i("thr", 1)));
    const Kind k = Kind(s.i("kind"));
    const int n = int(s.i("n")), be = int(s.i("be")), nm = int(s.i("nm", 8)), life = int(s.i("life"));
    Rng r(s.u("seed"));
    std::unique_ptr<Obj> o;
    const int hop = int(s.i("hop")); // parts of its life in threads that are gone afterwards
    elsewhere(hop & 1, [&] {
    if (life == 1) { o.reset(new Obj(k, 0, be)); o->setup(n); }
    else if (life == 2) { { Obj gone(k, 0, be); } o.reset(new Obj(k, n, be)); }
    else if (life >= 4) {
        o.reset(new Obj(k, life, be));
        if (r.chance(0.5)) { Arr a(o->in_doubles(FWD)), b(2 * size_t(life)); make_call_input(*o, FWD, 0, 1, a.p); o->run(FWD, a.p, b.p); }
        o->setup(n);
        if (r.chance(0.3)) o->setup(n);
    }
    else o.reset(new Obj(k, n, be));
    });
    for (int q = 0; q < nm; q++) {
        const int m = nm >= 8 ? q : any_mode(k, r);
        if (!mode_ok(k, m)) continue;
        Arr a(o->in_doubles(m)), b(o->out_doubles(m));
        make_call_input(*o, m, 0, r.next(), a.p);
        elsewhere(hop >> (1 + q % 2) & 1, [&] { o->run(m, a.p, b.p); });
        st.add("calls");
        st.cell(fmt("use/%d/%d/%d/%d", k, be, n, m));
    }
    elsewhere(hop & 8, [&] { o.reset(); });
    st.add("objects");
    st.sample("sanitized " + label(s) + fmt(" life=%d", life));
}
static void use_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 77));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        DomainOpt d;
        d.small = T ? 3000 : 1000;
        d.maxlog = T ? 22 : 20;
        d.large = T ? 24 : 22;
        d.randoms = T ? 3000 : 300;
        d.parallel = T ? 300 : 60;
        d.primes = T ? 100 : 20;
        d.maxp = 400;
        if (k == BLUE) { d.small = T ? 1500 : 400; d.maxlog = T ? 18 : 16; d.large = T ? 20 : 18; }
        for (auto& l : domain(k, d, r)) {
            int life = int(r.below(5));
            if (life >= 3) life = r.chance(0.5) ? 0 : 2 * int(2 + r.below(100));
            v.push_back(spec_base(k, backend_for(l, r), l, r.next()) + fmt(" hop=%d nm=%d life=%d", r.chance(0.15) ? int(r.below(16)) : 0, T ? 8 : l.n > (1 << 20) ? 1 : l.n > 200000 ? 2 : l.n < 600 ? 8 : 3, life));
        }
        // lengths whose index products leave the int range: a prime factor above 46340
        if (k != BLUE && T) v.push_back(spec_base(k, any_backend(r), {(k == CPLX ? 2 : 4) * 46349, 1}, r.next()) + " nm=1 life=0 slow=1");
    }
}
static Reg reg_use("use", Cmd{use_list, use_run});

// Objects the user keeps in static storage: created and used in main, used once more and destroyed while the
// process exits.
struct Keep {
    std::unique_ptr<Obj> o;
    int m = 0;
    std::vector<double> x, y;
};
static struct Holder {
    std::vector<Keep> v;
    ~Holder()
    {
        int bad = 0;
        for (auto& k : v) {
            auto z = k.o->apply(k.m, k.x);
            bad += !bits_equal(k.y.data(), z.data(), z.size());
            if (k.m & 1) { k.o->setup(k.o->n); z = k.o->apply(k.m, k.x); bad += !bits_equal(k.y.data(), z.data(), z.size()); }
            k.o.reset();
        }
        if (bad) { fprintf(stderr, "an object in static storage gives other results while the process exits\n"); _exit(9); }
    }
} holder;
static void exit_run(const Spec& s)
{
    Rng r(s.u("seed"));
    for (int i = 0; i < int(s.i("objects", 3)); i++) {
        Keep k;
        const Kind kind = s.i("only", -1) >= 0 ? Kind(s.i("only")) : Kind(r.below(4));
        const int n = 2 * (1 + int(r.below(i ? 600 : 40000)));
        if (kind != BLUE && largest_prime(n) > 500) { i--; continue; }
        omp_set_num_threads(1 + int(r.below(4)));
        k.m = any_mode(kind, r);
        try { k.o.reset(new Obj(kind, n, any_backend(r))); } catch (const Unavailable&) { continue; }
        k.x.resize(k.o->in_doubles(k.m));
        make_call_input(*k.o, k.m, 0, r.next(), k.x.data());
        k.y = k.o->apply(k.m, k.x);
        st.add("calls");
        st.add("objects destroyed at exit");
        st.cell(fmt("exit/%d/%d/%d", kind, n, k.m));
        holder.v.push_back(std::move(k));
    }
}
static Reg reg_exit("exit", Cmd{[](const Args&, std::vector<std::string>&) {}, exit_run});
}
