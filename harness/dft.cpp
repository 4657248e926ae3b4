// C01-C05: every output element against the long-double reference.
#include "cmds.hpp"
#include "domain.hpp"
#include <cfenv>
namespace otv {

// Exact plain sum for a direction, in long double, as doubles pairs (hi) plus low part.
struct Ref {
    std::vector<ld> v; // out doubles
    ld rms = 0, mx = 0; // root mean square and largest magnitude of the elements
};
static void set_rms(Ref& r, size_t per)
{
    long double s = 0;
    for (ld x : r.v) s += x * x;
    r.rms = sqrtl(s / (ld)std::max<size_t>(1, r.v.size() / per));
    for (size_t i = 0; i < r.v.size(); i += per) r.mx = std::max(r.mx, per == 2 ? hypotl(r.v[i], r.v[i + 1]) : fabsl(r.v[i]));
}

static Ref ref_complex(const double* in, int n, bool inverse)
{
    std::vector<lc> x(n);
    for (int i = 0; i < n; i++) x[i] = {in[2 * i], in[2 * i + 1]};
    x = ref_fft(x);
    Ref r;
    r.v.resize(2 * size_t(n));
    for (int k = 0; k < n; k++) {
        const lc& t = x[inverse ? (k ? n - k : 0) : k];
        r.v[2 * k] = t.re;
        r.v[2 * k + 1] = t.im;
    }
    set_rms(r, 2);
    return r;
}
static Ref ref_real_fwd(const double* in, int n)
{
    std::vector<double> c(2 * size_t(n));
    for (int i = 0; i < n; i++) c[2 * i] = in[i];
    return ref_complex(c.data(), n, false);
}
static Ref ref_real_inv(const double* in, int n)
{
    Ref c = ref_complex(in, n, true), r;
    r.v.resize(n);
    for (int i = 0; i < n; i++) r.v[i] = c.v[2 * i];
    set_rms(r, 1);
    return r;
}
static Ref ref_dct(const double* in, int n, bool inverse)
{
    std::vector<lc> x(2 * size_t(n), lc{0, 0});
    Ref r;
    r.v.resize(n);
    if (!inverse) {
        for (int i = 0; i < n; i++) { x[i] = {in[i], 0}; x[2 * n - 1 - i] = {in[i], 0}; }
        x = ref_fft(x);
        for (int k = 0; k < n; k++) {
            lc t = x[k] * root(k, 4 * uint64_t(n)); // e^{-i pi k/(2n)}
            r.v[k] = t.re / 2;
        }
    } else {
        for (int k = 0; k < n; k++) {
            ld a = in[k] * (k ? 2.0L : 1.0L);
            lc w = root(k, 4 * uint64_t(n));
            x[k] = {a * w.re, a * w.im}; // conjugated: forward transform of conj(c) gives conj of the inverse
        }
        x = ref_fft(x);
        for (int i = 0; i < n; i++) r.v[i] = x[i].re;
    }
    set_rms(r, 1);
    return r;
}

// C20: the caller's rounding mode, in force only while the library runs
struct Rounding {
    int old;
    explicit Rounding(int m) : old(fegetround())
    {
        static const int rm[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
        fesetround(rm[m & 3]);
    }
    ~Rounding() { fesetround(old); }
};

static void run_case(const Spec& s)
{
    const int rm = int(s.i("rm")), rm2 = int(s.i("rm2", rm));
    const Kind k = Kind(s.i("kind"));
    std::vector<int> bes;
    if (s.i("be") >= 0) bes.push_back(int(s.i("be")));
    else for (int b : backends()) bes.push_back(b);
    const int n = int(s.i("n")), thr = int(s.i("thr", 1)), input = int(s.i("in"));
    const int off = int(s.i("off")), off2 = int(s.i("off2")), via = int(s.i("via"));
    // one byte of modes per backend (the last one repeats)
    const uint64_t modes3 = s.u("modes", 255);
    const uint64_t seed = s.u("seed", 1);
    omp_set_num_threads(thr);
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<unsigned> masks;
    unsigned modes = 0;
    for (size_t i = 0; i < bes.size(); i++) {
        {
            Rounding rr(rm);
            objs.emplace_back(new Obj(k, via ? 0 : n, bes[i]));
            if (via) objs.back()->setup(n);
        }
        unsigned mk = unsigned(modes3 >> (8 * i)) & 255;
        if (!mk) mk = i ? masks.back() : 255;
        masks.push_back(mk);
        modes |= mk;
    }
    const double tol = tolerance(k, n) * s.d("tolx", 1);
    Buf in(1), out(1);
    const int dirs = int(s.i("dirs", 3));
    for (int dir = 0; dir < 2; dir++) {
        if (!(dirs >> dir & 1)) continue;
        int first = -1;
        for (int m = dir * 4; m < dir * 4 + 4; m++)
            if ((modes >> m & 1) && mode_ok(k, m)) { first = m; break; }
        if (first < 0) continue;
        std::vector<double> src(objs[0]->in_doubles(first));
        make_call_input(*objs[0], first, input, mix(seed, dir), src.data());
        Ref ref = k == CPLX || k == BLUE ? ref_complex(src.data(), n, dir) : k == DCT ? ref_dct(src.data(), n, dir)
                : dir ? ref_real_inv(src.data(), n) : ref_real_fwd(src.data(), n);
        for (size_t bi = 0; bi < bes.size(); bi++)
        for (int m = dir * 4; m < dir * 4 + 4; m++) {
            if (!(masks[bi] >> m & 1) || !mode_ok(k, m)) continue;
            const Obj& o = *objs[bi];
            const int be = bes[bi];
            const size_t no = o.out_doubles(m);
            in.reset(src.size(), off);
            memcpy(in.p, src.data(), src.size() * 8);
            double* res = in.p;
            if (k == REAL) {
                out.reset(no, off2);
                for (size_t i = 0; i < no; i++) out.p[i] = NAN;
                res = out.p;
            }
            {
                Rounding rr(rm2);
                o.run(m, in.p, res);
            }
            const ld sc = scale_of(m, n);
            const double rms = double(ref.rms * sc), mx = double(ref.mx * sc);
            double worst = 0;
            ld sq = 0;
            size_t at = 0;
            for (size_t i = 0; i < no; i++) {
                const double e = std::fabs(double((ld)res[i] - ref.v[i] * sc));
                sq += (ld)e * e;
                if (!(e <= worst)) { worst = std::isnan(e) ? INFINITY : e; at = i; if (std::isinf(worst)) break; }
            }
            const size_t per = k == DCT || (k == REAL && dir) ? 1 : 2;
            const double rel = mx > 0 ? worst / mx : (worst == 0 ? 0 : INFINITY);
            const double l2 = rms > 0 ? double(sqrtl(sq / (ld)(no / per))) / rms : (worst == 0 ? 0 : INFINITY);
            st.add("elements", double(no));
            st.add("calls");
            st.max("err_over_tol", rel / tol);
            st.max("l2_over_tol", l2 / tol);
            st.max(std::string("err_over_tol.") + kind_name[k] + "." + size_class(k, n), rel / tol);
            st.max(std::string("l2_over_tol.") + kind_name[k] + "." + size_class(k, n), l2 / tol);
            st.cell(fmt("%d/%d/%d/%d/%d/%d", k, be, m, n, rm, rm2));
            if (!(rel <= tol) || !(l2 <= tol))
                violation("accuracy", fmt("%s %s %s n=%d threads=%d%s input=%s: element %zu is %.17g, exact %.17g (error %.3g of the largest element, %.3g in rms, limit %.3g)",
                    backend_name[be], kind_name[k], mode_name[m], n, thr, rm || rm2 ? fmt(" rounding modes %d,%d", rm, rm2).c_str() : "", input_name[input], at / per, res[at], double(ref.v[at] * sc), rel, l2, tol));
            int dmg = in.damaged();
            if (!dmg && k == REAL) dmg = out.damaged();
            if (dmg) violation("stray-write", fmt("%s %s %s n=%d wrote %d doubles outside an array", backend_name[be], kind_name[k], mode_name[m], n, dmg));
            if (k == REAL && !dir) {
                size_t w = 0;
                if (!bits_equal(in.p, src.data(), src.size(), &w))
                    violation("input-modified", fmt("%s real %s n=%d changed input element %zu", backend_name[be], mode_name[m], n, w));
                for (int q = 1; q < n - q; q++)
                    if (!(res[2 * q] == res[2 * (n - q)] && res[2 * q + 1] == -res[2 * (n - q) + 1])) {
                        violation("not-hermitian", fmt("%s real %s n=%d: bin %d is not the exact conjugate of bin %d", backend_name[be], mode_name[m], n, n - q, q));
                        break;
                    }
            }
        }
    }
    if (k == REAL && dirs == 2 && !s.has("rm") && n <= (1 << 18) && largest_prime(n / 2) < 3000) { // an inverse call undoes the matching forward call
        static const int pair[4][2] = {{FWD, INV}, {FWD0, INVN}, {FWDU, INVU}, {FWDN, INV0}};
        std::vector<double> x(n), f(2 * size_t(n)), y(n);
        make_input(x.data(), n, false, input, mix(seed, 9));
        double mx = 0, sq = 0;
        for (double v : x) { mx = std::max(mx, std::fabs(v)); sq += v * v; }
        for (auto& o : objs)
            for (auto& pr : pair) {
                std::vector<double> x2(x);
                o->run(pr[0], x2.data(), f.data());
                o->run(pr[1], f.data(), y.data());
                double worst = 0, e2 = 0;
                for (int i = 0; i < n; i++) { double e = std::fabs(y[i] - x[i]); e2 += e * e; if (!(e <= worst)) worst = std::isnan(e) ? INFINITY : e; }
                const double rel = mx > 0 ? std::max(worst / mx, std::sqrt(e2 / sq)) / (2 * tol) : worst == 0 ? 0 : INFINITY;
                st.add("calls", 2);
                st.max("roundtrip_over_tol", rel);
                if (!(rel <= 1)) violation("round-trip", fmt("real %s then %s n=%d: error %.3g of the signal", mode_name[pr[0]], mode_name[pr[1]], n, rel * 2 * tol));
            }
    }
    st.sample(fmt("%s %s n=%d input=%s threads=%d modes=%02x", bes.size() > 1 ? "all" : backend_name[bes[0]], kind_name[k], n, input_name[input], thr, modes));
}

static int g_dirs = 3;
static void add(std::vector<std::string>& v, Kind k, int be, int n, int thr, int input, uint64_t modes, uint64_t seed, const char* extra = "")
{
    Rng r(mix(seed, 77));
    v.push_back(fmt("kind=%d be=%d n=%d thr=%d in=%d off=%d off2=%d dirs=%d via=%d modes=%llu seed=%llu%s", k, be, n, thr, input, int(r.below(8)), int(r.below(8)), g_dirs, int(r.chance(0.25)), (unsigned long long)modes,
        (unsigned long long)(seed % 1000000007ull), extra));
}

static void list_cases(const Args& a, std::vector<std::string>& v)
{
    const Kind k = Kind(a.opt.i("kind"));
    const bool T = a.thorough;
    Rng r(mix(a.seed, 1000 + k + 10 * uint64_t(a.opt.i("salt"))));
    g_dirs = int(a.opt.i("dirs", 3));
    std::vector<int> be = backends();
    const int step = k == BLUE ? 1 : 2;
    auto anybe = [&] { return be[r.below(be.size())]; };
    auto inp = [&] { return r.chance(0.4) ? IN_DENSE : int(r.below(IN_KINDS)); };
    auto thr = [&](int n) { static const int t[] = {1, 2, 3, 4, 5, 6, 7, 8}; return n >= 4096 ? t[r.below(8)] : 1; };
    // big ones first: powers of two (each its own shard slot)
    const int maxlog = T ? 25 : k == CPLX ? 24 : k == BLUE ? 21 : 24;
    std::vector<int> big;
    for (int l = maxlog; l >= 16; l--) big.push_back(l);
    for (int l : big) {
        // one reference for all backends; every mode at least once over the backends
        uint64_t modes = 255;
        if (!T && l >= 22) { // two modes a backend, rotating with the seed
            const int q = int(r.below(4));
            modes = 0;
            for (int i = 0; i < 3; i++) modes |= uint64_t((1u << ((q + i) & 3)) | (16u << ((q + 2 * i + l) & 3))) << (8 * i);
            modes |= uint64_t(255) << (8 * r.below(be.size())); // and one backend all of them
        }
        add(v, k, -1, 1 << l, thr(1 << l), IN_DENSE, modes, r.next());
    }
    // smooth lengths beyond the classes, a few in every octave
    for (int l = k == BLUE ? 19 : 22; l >= 17; l--)
        for (int q = 0; q < (T ? 8 : l >= 21 ? 1 : 2); q++) {
            static const int odd[] = {3, 5, 7, 9, 11, 13, 15, 17, 21, 25, 27, 35, 39, 45, 49, 55, 63, 77, 81, 91, 99, 121, 125, 143, 169, 243, 343, 625, 729, 1001, 2401, 3125, 6561, 16807, 19683};
            long n = 0;
            while (n < (1L << l) || n > (2L << l) || (k != CPLX && k != BLUE && n % 4 && q)) {
                if (n < (1L << l) && n) n *= r.chance(0.7) ? 2 : r.chance(0.5) ? 3 : r.chance(0.5) ? 5 : 7;
                else n = (k == BLUE ? 1 : 2) * odd[r.below(sizeof odd / sizeof *odd)];
            }
            add(v, k, anybe(), int(n), 1 + int(r.below(8)), IN_DENSE, T ? 255 : 0x11 << (k == DCT ? (r.below(2) ? 3 : r.below(2)) : r.below(4)), r.next());
        }
    for (int q = 0; q < (T ? 6 : 1); q++)
        for (int n : class_lengths(k, 1 << 17, 300, r)) add(v, k, anybe(), n, thr(n), IN_DENSE, 255, r.next());
    // one length with a prime factor whose square exceeds 2^31
    if (k == CPLX || k == REAL) add(v, k, anybe(), 2 * 46349, 8, IN_DENSE, k == CPLX ? 2 : (r.chance(0.5) ? 2 : 64), r.next());
    // small lengths, exhaustively
    const int smallmax = k == BLUE ? (T ? 1100 : 300) : (T ? 2048 : 640);
    for (int n = k == BLUE ? 1 : 2; n <= smallmax; n += step)
        add(v, k, -1, n, 1, n % 3 ? IN_DENSE : inp(), 255, r.next());
    for (int n = k == BLUE ? 1 : 2; n <= 64; n += step)
        for (int in = 0; in <= IN_KINDS; in++) add(v, k, AUTO, n, 1, in, 255, r.next());
    // powers of two below 2^16, several inputs
    for (int l = 1; l <= 15; l++)
        for (int q = 0; q < (T ? 6 : 3); q++) add(v, k, -1, 1 << l, thr(1 << l), q ? inp() : IN_DENSE, 255, r.next());
    // random lengths
    const int nr = T ? 900 : 140;
    for (int i = 0; i < nr; i++) {
        int n = int(std::exp(std::log(double(smallmax)) + r.unit() * (std::log(65536.0) - std::log(double(smallmax)))));
        n -= n % step;
        int inner = k == CPLX ? n : n / 2;
        if (k != BLUE && largest_prime(inner) > 2500 && !r.chance(0.15)) { i--; continue; }
        add(v, k, anybe(), n, thr(n), inp(), 255, r.next());
    }
    // smooth lengths through the parallel mixed-radix path
    static const int odd[] = {3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 33, 35, 37, 39, 45, 49, 55, 63, 75, 77, 81, 91, 105, 121, 125, 135, 143, 147, 165, 169, 175, 189, 225, 243, 245, 289, 315, 343, 361, 375, 405, 441, 625, 675, 729, 841, 1001, 1155, 1331, 2187, 2401, 3125, 6561, 15625, 19683, 16807, 14641, 30375, 50625, 59049, 78125, 91125, 32805, 38885, 33075};
    const int np = T ? 500 : 66;
    for (int i = 0; i < np; i++) {
        int o = odd[i < 66 ? i : int(r.below(sizeof odd / sizeof *odd))];
        long n = o;
        const long lo = k == CPLX ? 32768 : 65536, hi = lo * (T ? 16 : 4);
        n *= step;
        while (n < lo) n *= 2;
        while (r.chance(0.5) && n * 2 <= hi) n *= 2;
        add(v, k, anybe(), int(n), 1 + int(r.below(8)), r.chance(0.7) ? IN_DENSE : inp(), T ? 255 : r.chance(0.5) ? 0x5A : 0xA5, r.next());
    }
    // lengths with a medium prime factor, below and above the parallel threshold
    std::vector<int> pr = primes_upto(1500);
    const int nm = T ? 200 : 36;
    for (int i = 0; i < nm; i++) {
        int p = pr[4 + r.below(pr.size() - 4)];
        long n = p;
        if (k != BLUE) n *= 2;
        if (i % 2) while (n < (k == CPLX ? 32768 : 65536)) n *= r.chance(0.6) ? 2 : r.chance(0.5) ? 3 : 5;
        if (n > 400000) n = 2 * p;
        add(v, k, anybe(), int(n), thr(int(n)), IN_DENSE, 255, r.next());
    }
    // around the parallel thresholds
    for (int c : {1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17})
        for (int d : {-2, 2}) {
            int n = c + d;
            int inner = k == CPLX ? n : n / 2;
            if (k != BLUE && largest_prime(inner) > 12000) continue;
            add(v, k, anybe(), n, thr(n), IN_DENSE, T ? 255 : 0x22, r.next());
        }
    if (k == BLUE) {
        for (int i = 0; i < (T ? 300 : 60); i++) { // primes and neighbours of powers of two
            static std::vector<int> big = primes_upto(1 << 18);
            int n = i % 3 == 0 ? (1 << r.range(3, 17)) + r.range(-1, 1) : big[r.below(big.size())];
            add(v, k, anybe(), n, thr(n), inp(), i % 2 ? 0x5A : 0xA5, r.next());
        }
    }
    if (T) { // more seeds of everything small
        for (int rep = 0; rep < 3; rep++)
            for (int n = k == BLUE ? 1 : 2; n <= 512; n += step) add(v, k, anybe(), n, 1, inp(), 255, r.next());
    }
}
// C20: the four rounding modes, at setup and at the call
static void list_rounding(const Args& a, std::vector<std::string>& v)
{
    Rng r(mix(a.seed, 2021));
    const bool T = a.thorough;
    g_dirs = 3;
    for (Kind k : kinds(a)) {
        DomainOpt d;
        d.small = 200;
        d.maxlog = T ? 22 : 19;
        d.randoms = T ? 600 : 60;
        d.parallel = T ? 120 : 24;
        d.primes = 12;
        if (k == BLUE) d.maxlog = T ? 19 : 16;
        for (int rep = 0; rep < (T ? 4 : 1); rep++)
            for (auto& l : domain(k, d, r))
                for (int m = 1; m < 4; m++) {
                    if (l.n > 40000 && !r.chance(0.4)) continue;
                    const int both = int(r.below(4)); // usually the same mode throughout
                    add(v, k, l.n <= 300 && !(l.n % 8) ? -1 : backend_for(l, r), l.n, l.thr, r.chance(0.7) ? 0 : int(r.below(IN_KINDS)), l.n > 100000 ? 0x42 : 255, r.next(),
                        fmt(" rm=%d rm2=%d tolx=%g", both == 1 ? 0 : m, both == 2 ? 0 : m, 8.0).c_str());
                }
    }
}
static Reg reg_rounding("rounding", Cmd{list_rounding, run_case});
static Reg reg("dft", Cmd{list_cases, run_case});
}
