// C06 (norm), C09 (align), C13 (setup), C14 (hist), C17 (scale).
#include <alloca.h>
#include <sys/mman.h>
#include "domain.hpp"
namespace otv {

static const int PAIRS[4][2] = {{FWD, INV}, {FWDN, INV0}, {FWD0, INVN}, {FWDU, INVU}};
static std::vector<double> input_for(const Obj& o, int m, int in, uint64_t seed)
{
    std::vector<double> x(o.in_doubles(m));
    make_call_input(o, m, in, seed, x.data());
    return x;
}
static Obj make(const Spec& s)
{
    return Obj(Kind(s.i("kind")), int(s.i("n")), int(s.i("be")));
}
static bool diff(const std::vector<double>& a, const std::vector<double>& b, double& mx, double& l2, double fac = 1)
{
    // |a - fac b| against the largest and rms magnitude of a
    double worst = 0, big = 0;
    long double se = 0, sa = 0;
    for (size_t i = 0; i < a.size(); i++) {
        const double e = std::fabs(a[i] - fac * b[i]);
        if (!(e <= worst)) worst = std::isnan(e) ? INFINITY : e;
        big = std::max(big, std::fabs(a[i]));
        se += (long double)e * e;
        sa += (long double)a[i] * a[i];
    }
    mx = big > 0 ? worst / big : (worst > 0 ? INFINITY : 0);
    l2 = sa > 0 ? double(sqrtl(se / sa)) : (worst > 0 ? INFINITY : 0);
    return true;
}
static std::string what_pair(const Spec& s, int a, int b) { return label(s) + fmt(": %s then %s", mode_name[a], mode_name[b]); }

// ------------------------------------------------------------------ C06
static void norm_run(const Spec& s)
{
    omp_set_num_threads(int(s.i("thr", 1)));
    Obj o = make(s);
    const Kind k = o.k;
    const int n = o.n, in = int(s.i("in"));
    const uint64_t seed = s.u("seed");
    const double tol = 2 * tolerance(k, n);
    for (auto& p : PAIRS) {
        if (!mode_ok(k, p[0])) continue;
        if (!(s.i("pairs", 15) >> (&p - PAIRS) & 1)) continue;
        for (int rev = 0; rev < 2; rev++) {
            const int a = p[rev], b = p[1 - rev];
            auto x = input_for(o, a, in, mix(seed, 10 * rev));
            auto f = o.apply(a, x);
            auto y = o.apply(b, f);
            double e, l2;
            diff(x, y, e, l2);
            st.add("calls", 2);
            st.cell(fmt("rt/%d/%ld/%d/%d", k, s.i("be"), n, a));
            st.max("roundtrip_over_tol", std::max(e, l2) / tol);
            if (!(e <= tol && l2 <= tol))
                violation("round-trip", what_pair(s, a, b) + fmt(": error %.3g of the largest element, %.3g in rms, limit %.3g", e, l2, tol));
            if ((a == FWDU || a == INVU) && !(k == REAL && a == INVU)) { // unitary: same sum of squares
                long double sx = 0, sf = 0;
                for (double v : x) sx += (long double)v * v;
                for (double v : f) sf += (long double)v * v;
                const double d = sx > 0 ? double(fabsl(sf - sx) / sx) : double(sf);
                st.max("parseval_over_tol", d / tol);
                if (!(d <= tol)) violation("parseval", label(s) + fmt(": %s changes the sum of squares by a factor 1%+.3g", mode_name[a], double(sf / sx - 1)));
            }
        }
    }
    // factors within a direction
    for (int dir = 0; dir < 2; dir++) {
        const int base = dir ? INV0 : FWD0;
        auto x = input_for(o, base, in, mix(seed, 100 + dir));
        auto ref = o.apply(base, x);
        for (int m = dir * 4; m < dir * 4 + 4; m++) {
            if (m == base || !mode_ok(k, m)) continue;
            auto y = o.apply(m, x);
            const double fac = double(1 / scale_of(m, n));
            double e, l2;
            diff(ref, y, e, l2, fac);
            st.add("calls", 2);
            st.cell(fmt("fac/%d/%ld/%d/%d", k, s.i("be"), n, m));
            st.max("factor_over_tol", std::max(e, l2) / tol);
            if (!(e <= tol && l2 <= tol))
                violation("factor", label(s) + fmt(": %s times %.17g differs from %s by %.3g (limit %.3g)", mode_name[m], fac, mode_name[base], std::max(e, l2), tol));
        }
    }
    st.sample(label(s) + " input=" + input_name[in]);
}
static void norm_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 6));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        DomainOpt d;
        d.small = T ? 1200 : 400;
        d.maxlog = T ? 22 : 19;
        d.large = T ? 24 : 22;
        d.randoms = T ? 600 : 90;
        d.parallel = T ? 150 : 30;
        d.primes = T ? 60 : 12;
        if (k == BLUE) { d.small = T ? 500 : 200; d.maxlog = T ? 19 : 17; d.large = T ? 20 : 19; }
        if (k == CPLX) { // lengths far beyond what a reference can follow: only relations are checked
            for (int l = 24; l >= 20; l--) v.push_back(spec_base(k, any_backend(r), {1 << l, 8}, r.next()) + fmt(" in=%d pairs=%d", IN_DENSE, l >= 23 ? 1 << r.below(4) : 5));
            if (T) v.push_back(spec_base(k, any_backend(r), {1 << 25, 8}, r.next()) + " in=0 pairs=8");
        }
        else if (k != BLUE)
            for (int l = 25; l >= 20; l--) if (T || l <= 22 || (l == 25) == (k == REAL)) v.push_back(spec_base(k, any_backend(r), {1 << l, 8}, r.next()) + fmt(" in=0 pairs=%d", l >= 23 ? 1 << (k == DCT ? r.below(3) : r.below(4)) : 5));
        for (auto& l : domain(k, d, r)) v.push_back(spec_base(k, backend_for(l, r), l, r.next()) + fmt(" in=%d", r.chance(0.6) ? 0 : int(r.below(IN_KINDS))));
    }
}
static Reg reg_norm("norm", Cmd{norm_list, norm_run});

// ------------------------------------------------------------------ C09
// A region of pages between two inaccessible ones.
struct Pages {
    char* m = 0;
    size_t len = 0;
    explicit Pages(size_t bytes)
    {
        len = (bytes + 4095) / 4096 * 4096;
        m = (char*)mmap(0, len + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == (char*)MAP_FAILED) throw std::bad_alloc();
        mprotect(m + 4096, len, PROT_READ | PROT_WRITE);
    }
    ~Pages() { munmap(m, len + 8192); }
    double* at_end(size_t doubles) { return (double*)(m + 4096 + len) - doubles; }
    double* at_start() { return (double*)(m + 4096); }
};
// Runs call m with the input placed at `a` and the output at `b`; returns the output.
static std::vector<double> run_at(const Obj& o, int m, const std::vector<double>& x, double* a, double* b)
{
    memcpy(a, x.data(), x.size() * 8);
    o.run(m, a, b);
    const double* res = o.inplace() ? a : b;
    return std::vector<double>(res, res + o.out_doubles(m));
}
static void align_run(const Spec& s)
{
    omp_set_num_threads(int(s.i("thr", 1)));
    Obj o = make(s);
    Rng r(s.u("seed"));
    const int nm = int(s.i("nm", 2));
    for (int q = 0; q < nm; q++) {
        const int m = any_mode(o.k, r);
        const size_t ni = o.in_doubles(m), no = o.out_doubles(m);
        auto x = input_for(o, m, r.chance(0.7) ? 0 : int(r.below(IN_KINDS)), r.next());
        Pages A(ni * 8 + 128), B(no * 8 + 128);
        auto base = run_at(o, m, x, A.at_start(), B.at_start()); // page aligned, right after an inaccessible page
        auto check = [&](double* a, double* b, const char* how, int oa, int ob) {
            auto y = run_at(o, m, x, a, b);
            size_t at = 0;
            st.add("calls");
            st.cell(fmt("%d/%ld/%d/%d/%d/%d", o.k, s.i("be"), o.n, m, int(uintptr_t(a) / 8 % 8), o.k == REAL ? int(uintptr_t(b) / 8 % 8) : 0));
            if (!bits_equal(base.data(), y.data(), no, &at))
                violation("address", label(s) + fmt(" %s: result depends on the address (%s %d/%d): element %zu is %.17g instead of %.17g", mode_name[m], how, oa, ob, at, y[at], base[at]));
        };
        if (o.n <= int(s.i("all", 4096))) {
            for (int oa = 0; oa < 8; oa++) {
                if (o.k == REAL) for (int ob = 0; ob < 8; ob += 1 + int(r.below(3))) check(A.at_start() + oa, B.at_start() + ob, "offset in doubles", oa, ob);
                else check(A.at_start() + oa, 0, "offset in doubles", oa, 0);
            }
        }
        else
            for (int oa : {1, int(r.below(8)), 2, 5}) check(A.at_start() + oa, B.at_start() + int(r.below(8)), "offset in doubles", oa, -1);
        check(A.at_end(ni), B.at_end(no), "ends at a page boundary", 0, 0);
        check(A.at_start(), B.at_end(no), "output ends at a page boundary", 0, 0);
        check(A.at_end(ni), B.at_start(), "input ends at a page boundary", 0, 0);
        if (q % 2 == 0) continue;
        // somewhere else altogether: one long reservation, so that the distance of the two arrays can be chosen
        const size_t G = size_t(1) << 32, len = 3 * G;
        char* far = (char*)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (far != MAP_FAILED) {
            char* line = far + (G - uintptr_t(far) % G); // a multiple of 2^32 within
            double* a = (double*)(line + 8 * r.below(4096));
            check(a, a + G / 8, "the low halves of the addresses are equal", 0, 0);
            check(a + G / 8, a, "the low halves of the addresses are equal, output first", 0, 0);
            check((double*)line - (ni / 2 / 2 * 2 - 1), (double*)(line + G) - r.below(no), "the arrays lie across a multiple of 2^32", 0, 0);
            a = (double*)(line + 8 * r.below(1024));
            check(a, a + ni, "output directly behind the input", 0, 0);
            check(a + no, a, "input directly behind the output", 0, 0);
            check(a, a + (ni + 511) / 512 * 512, "the addresses agree in their last twelve bits", 0, 0);
            check(a, a + ni + 8 - (uintptr_t(a + ni) / 8 % 8) + r.below(8), "output close behind the input", 0, 0);
            munmap(far, len);
        }
        else st.add("no address space for distant arrays");
        far = (char*)mmap(0, (ni + no + 1024) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
        if (far != MAP_FAILED) {
            double* a = (double*)far + r.below(512);
            check(a, a + ni + r.below(512), "addresses below 2^31", 0, 0);
            check(a + no, B.at_start(), "input below 2^31", 0, 0);
            check(A.at_start(), a, "output below 2^31", 0, 0);
            munmap(far, (ni + no + 1024) * 8);
        }
        if (ni + no < 60000) { // on the stack, in a thread of its own
            elsewhere(r.chance(0.5), [&] {
                double* a = (double*)alloca((ni + no + 64) * 8);
                check(a + r.below(8), a + ni + 8 + r.below(8), "on the stack", 0, 0);
            });
        }
    }
    st.sample(label(s));
}
static void align_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 9));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        DomainOpt d;
        d.small = T ? 1000 : 300;
        d.maxlog = T ? 22 : 19;
        d.large = T ? 24 : 22;
        d.randoms = T ? 600 : 110;
        d.parallel = T ? 150 : 24;
        d.primes = T ? 60 : 10;
        d.maxp = 400;
        if (k == BLUE) { d.small = T ? 400 : 120; d.maxlog = T ? 18 : 15; d.large = T ? 20 : 18; }
        for (auto& l : domain(k, d, r)) {
            int nm = T ? 8 : l.n > (1 << 20) ? 1 : l.n > 200000 ? 2 : l.n < 1000 ? 4 : 3;
            v.push_back(spec_base(k, backend_for(l, r), l, r.next()) + fmt(" nm=%d", nm));
        }
    }
}
static Reg reg_align("align", Cmd{align_list, align_run});

// ------------------------------------------------------------------ C14
static void hostile(Rng& r, double* p, size_t m)
{
    const int kind = int(r.below(8));
    for (size_t i = 0; i < m; i++) {
        double v = r.uni();
        switch (kind) {
        case 0: v = NAN; break;
        case 1: v = r.chance(0.1) ? INFINITY : v; break;
        case 2: v = v * 1.7e308; break;
        case 3: v = v * 4e-320; break;
        case 4: v = r.chance(0.01) ? NAN : v; break;
        case 5: { uint64_t b = r.next(); memcpy(&v, &b, 8); break; }
        case 6: v = 0; break;
        default: break;
        }
        p[i] = v;
    }
}
static void hist_run(const Spec& s)
{
    omp_set_num_threads(int(s.i("thr", 1)));
    Obj o = make(s);
    Rng r(s.u("seed"));
    struct Base { int m; std::vector<double> x, y; };
    std::vector<Base> bs;
    const int nb = int(s.i("nb", 3));
    for (int i = 0; i < nb; i++) {
        Base b;
        b.m = i == 0 ? int(s.u("seed") % 4) : any_mode(o.k, r);
        if (!mode_ok(o.k, b.m)) b.m = FWD0;
        b.x = input_for(o, b.m, r.chance(0.7) ? 0 : int(r.below(IN_KINDS)), r.next());
        b.y = o.apply(b.m, b.x);
        bs.push_back(std::move(b));
    }
    const int steps = int(s.i("steps", 8));
    std::string trace;
    for (int t = 0; t < steps; t++) {
        const int m = any_mode(o.k, r);
        std::vector<double> h(o.in_doubles(m)), out(o.out_doubles(m), NAN);
        hostile(r, h.data(), h.size());
        o.run(m, h.data(), out.data());
        if (trace.size() > 600) trace = "... ";
        trace += std::string(mode_name[m]) + " ";
        st.add("calls");
        for (long i = 0, e = t ? 0 : s.i("burst"); i < e; i++) o.run(m, h.data(), out.data()); // a long time passes
        if (t == 0 && s.i("burst")) st.add("calls", double(s.i("burst")));
        if (r.chance(0.5) || t == steps - 1) {
            const Base& b = bs[r.below(bs.size())];
            auto y = o.apply(b.m, b.x);
            size_t at = 0;
            st.add("calls");
            st.cell(fmt("%d/%ld/%d/%d/%d", o.k, s.i("be"), o.n, m, b.m));
            if (!bits_equal(b.y.data(), y.data(), y.size(), &at)) {
                violation("history", label(s) + fmt(" %s: element %zu is %.17g, was %.17g before the calls %s", mode_name[b.m], at, y[at], b.y[at], trace.c_str()));
                break;
            }
        }
    }
    st.sample(label(s) + ": " + trace);
}
static void hist_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 14));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        DomainOpt d;
        d.small = T ? 1500 : 600;
        d.maxlog = T ? 22 : 20;
        d.large = T ? 24 : 23;
        d.randoms = T ? 800 : 140;
        d.parallel = T ? 150 : 30;
        d.primes = T ? 60 : 12;
        if (k == BLUE) { d.small = T ? 600 : 260; d.maxlog = T ? 19 : 17; d.large = T ? 20 : 19; }
        for (int n : {2, 4, 6, 8, 12, 16, 30, 32, 50, 64, 100, 128, 256, 512, 1024}) // more calls than 16 bits count, once
            v.push_back(spec_base(k, any_backend(r), {n, 1}, r.next()) + fmt(" steps=6 burst=%d", T ? 1 << 22 : 66000));
        for (auto& l : domain(k, d, r))
            v.push_back(spec_base(k, backend_for(l, r), l, r.next()) + fmt(" steps=%d", l.n <= 48 || l.n % 64 == 0 && l.n <= 512 ? 3000 * (T ? 20 : 1) : (T ? 2 : 1) * (l.n > (1 << 21) ? 2 : l.n > 200000 ? 4 : l.n > 20000 ? 8 : 16)));
    }
}
static Reg reg_hist("hist", Cmd{hist_list, hist_run});

// ------------------------------------------------------------------ C17
static double ldx(double v, int e) { return std::ldexp(v, e); }
static void scale_run(const Spec& s)
{
    omp_set_num_threads(int(s.i("thr", 1)));
    Obj o = make(s);
    Rng r(s.u("seed"));
    const int nm = int(s.i("nm", 2));
    const double tol = tolerance(o.k, o.n);
    for (int q = 0; q < nm; q++) {
        const int m = any_mode(o.k, r);
        const int in = r.chance(0.7) ? IN_DENSE : int(r.below(IN_KINDS));
        auto x = input_for(o, m, in, r.next());
        auto y = o.apply(m, x);
        const double sc = double(scale_of(m, o.n));
        auto cell = [&](const char* w) { st.add("calls"); st.cell(fmt("%d/%ld/%d/%d/%s", o.k, s.i("be"), o.n, m, w)); };
        double big = 0, xin = 0;
        for (double v : y) big = std::max(big, std::fabs(v));
        for (double v : x) xin = std::max(xin, std::fabs(v));
        // exact powers of two; values stay normal as the inputs are of order one (tiny leftovers of
        // cancellation are exempt only where they would leave the normal range, which 2^+-820 cannot cause)
        // upwards the range is the largest that no intermediate sum or product of any reasonable method leaves
        const int lg = int(std::ceil(std::log2(o.n + 1.0))) + 2, top = 1018 - int(std::ceil(std::log2(std::max(xin, 1.0)))) - (o.k == BLUE ? 4 : 2) * lg;
        for (int e : {r.range(1, 40), -r.range(1, 40), r.range(100, 300), -r.range(100, 300), r.range(301, 820), -r.range(301, 820),
                      r.range(821, top), -r.range(821, in == IN_DENSE ? 860 : 822), top}) {
            std::vector<double> x2(x);
            for (double& v : x2) v = ldx(v, e);
            auto y2 = o.apply(m, x2);
            cell("pow2");
            for (size_t i = 0; i < y.size(); i++)
                if (y2[i] != ldx(y[i], e)) {
                    violation("power-of-two", label(s) + fmt(" %s: scaling the input by 2^%d gives element %zu = %.17g instead of %.17g", mode_name[m], e, i, y2[i], ldx(y[i], e)));
                    break;
                }
        }
        {
            std::vector<double> x2(x);
            for (double& v : x2) v = -v;
            auto y2 = o.apply(m, x2);
            cell("neg");
            for (size_t i = 0; i < y.size(); i++)
                if (y2[i] != -y[i]) {
                    violation("negation", label(s) + fmt(" %s: negating the input gives element %zu = %.17g instead of %.17g", mode_name[m], i, y2[i], -y[i]));
                    break;
                }
        }
        // extremes: same accuracy at 1e+-290 as at 1
        for (int e : {963, -963}) {
            std::vector<double> x2(x);
            const double f = 1 / xin;
            for (double& v : x2) v = ldx(v * f, e);
            std::vector<double> x1(x);
            for (double& v : x1) v = v * f;
            if (e > 0 && o.k == BLUE && o.n > 30000) continue; // its convolution sums come too close to overflow
            auto y1 = o.apply(m, x1);
            auto y2 = o.apply(m, x2);
            cell(e > 0 ? "huge" : "tiny");
            double worst = 0, b1 = 0;
            size_t at = 0;
            for (size_t i = 0; i < y1.size(); i++) {
                double d = std::fabs(ldx(y2[i], -e) - y1[i]);
                if (!(d <= worst)) { worst = std::isnan(d) ? INFINITY : d; at = i; }
                b1 = std::max(b1, std::fabs(y1[i]));
            }
            const double rel = b1 > 0 ? worst / b1 : 0;
            st.max("extreme_over_tol", rel / tol);
            if (!(rel <= tol)) violation("extreme", label(s) + fmt(" %s: with inputs of order 2^%d element %zu is %.17g*2^%d, with inputs of order 1 it is %.17g", mode_name[m], e, at, ldx(y2[at], -e), e, y1[at]));
        }
        // subnormal inputs: unscaled sums keep their leading bits
        if (sc == 1 && o.n <= (1 << 17)) {
            // inputs are whole multiples of 2^-1074 with up to 40 bits; exact sums scale from order-one data
            std::vector<double> x1(x);
            for (double& v : x1) v = std::nearbyint(ldx(v / xin, 40));
            std::vector<double> x2(x1);
            for (double& v : x2) v = ldx(v, -1074);
            auto y1 = o.apply(m, x1);
            auto y2 = o.apply(m, x2);
            cell("subnormal");
            double worst = 0, b1 = 0, s1 = 0;
            size_t at = 0;
            for (size_t i = 0; i < y1.size(); i++) {
                double d = std::fabs(ldx(y2[i], 1074) - y1[i]);
                if (!(d <= worst)) { worst = std::isnan(d) ? INFINITY : d; at = i; }
                b1 = std::max(b1, std::fabs(y1[i]));
                s1 = std::max(s1, std::fabs(x1[i % x1.size()]));
            }
            // every operation may lose up to half a unit of 2^-1074; Bluestein's inner transform divides by
            // its length in between, which costs that factor
            const double inner = o.k == BLUE ? 4.0 * o.n : 1;
            const double lim = tol * b1 + 40.0 * std::sqrt(double(o.n)) * (std::log2(o.n + 1.0) + largest_prime(o.n)) * inner + 200;
            st.max("subnormal_over_limit", worst / lim);
            if (!(worst <= lim)) violation("subnormal", label(s) + fmt(" %s: with subnormal inputs element %zu is %.17g units of 2^-1074, expected about %.17g (limit %.3g)", mode_name[m], at, ldx(y2[at], 1074), y1[at], lim));
        }
    }
    st.sample(label(s));
}
static void scale_list(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 17));
    const bool T = a.thorough;
    for (Kind k : kinds(a)) {
        DomainOpt d;
        d.small = T ? 1000 : 400;
        d.maxlog = T ? 22 : 19;
        d.large = T ? 24 : 22;
        d.randoms = T ? 600 : 110;
        d.parallel = T ? 150 : 24;
        d.primes = T ? 60 : 10;
        d.maxp = 400;
        if (k == BLUE) { d.small = T ? 400 : 200; d.maxlog = T ? 19 : 16; d.large = T ? 20 : 18; }
        for (auto& l : domain(k, d, r))
            v.push_back(spec_base(k, backend_for(l, r), l, r.next()) + fmt(" nm=%d", T ? 6 : l.n > 200000 ? 1 : l.n < 2000 ? 4 : 2));
    }
}
static Reg reg_scale("scale", Cmd{scale_list, scale_run});
}
