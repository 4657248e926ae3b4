// C18: runs generated client programs and checks every value they leave behind against their mathematical
// meaning, evaluated in long double with error bounds.
#include "otv.hpp"
namespace otv {
static char case_buf[1024];
char* g_case = case_buf;
Stats st;
}
using namespace otv;
struct Entry {
    void (*f)(complex_t*, double*, complex_t*, double*, int);
    const int* steps;
    int nsteps;
    const double* consts;
    int nt, nz, nd;
};
struct Direct {
    int op, kind;
    void (*f)(const complex_t&, const complex_t&, double, double, complex_t*, double*);
    const char* text;
};
extern "C" { extern const Entry otv_programs[]; extern const int otv_nprograms; extern const Direct otv_direct[]; extern const int otv_ndirect; }
static std::string g_opts;
enum Op { MOV, ADD, SUB, MUL, DIV, CONJ, JX, MJX, NEG, POLAR, EXPJ, MAKE, RE, IM, NORM, ABS, ARG, CONST, DADD, DSUB, DMUL, DMOV, TOC, ZERO };
static const char* op_name[] = {"assign", "+", "-", "*", "/", "conj", "jx", "mjx", "neg", "polar", "expj", "construct", "Re", "Im", "norm", "abs", "arg", "constant", "+", "-", "*", "assign", "construct from real", "default construct"};
static const ld U = 1.02L / 9007199254740992.0L, TINY = 1e-306L;
static const ld LO = 1e-150L, HI = 1e150L;
// value with an error bound per part; not ok: outside the range the property speaks of
struct V {
    ld re = 0, im = 0, er = 0, ei = 0;
    bool ok = true;
    ld mag() const { return hypotl(re, im); }
    ld err() const { return er + ei; }
};
struct State {
    V z[6], tz[512], oz[16], d[4], od[16]; // reals use re, er
};
static bool insq(const V& a) { ld m = a.mag(); return m == 0 || (m >= LO && m <= HI); }
static V bad() { V v; v.ok = false; return v; }
static V get(const State& s, int c)
{
    if (c < 6) return s.z[c];
    if (c < 200) return s.d[c - 100];
    if (c < 300) { V v; v.re = s.z[c - 200].re; v.er = s.z[c - 200].er; v.ok = s.z[c - 200].ok; return v; }
    if (c < 400) { V v; v.re = s.z[c - 300].im; v.er = s.z[c - 300].ei; v.ok = s.z[c - 300].ok; return v; }
    if (c < 2000) return s.tz[c - 1000];
    if (c < 4000) return s.tz[c - 2000];
    if (c < 5000) return s.oz[c - 4000];
    return s.od[c - 5000];
}
static bool is_real(int c) { return (c >= 100 && c < 1000) || (c >= 2000 && c < 4000) || c >= 5000; }
static void set(State& s, int c, V v)
{
    if (v.ok && !(fabsl(v.re) < 1e290L && fabsl(v.im) < 1e290L)) v.ok = false;
    if (c < 6) s.z[c] = v;
    else if (c < 200) s.d[c - 100] = v;
    else if (c < 300) { s.z[c - 200].re = v.re; s.z[c - 200].er = v.er; s.z[c - 200].ok &= v.ok; }
    else if (c < 400) { s.z[c - 300].im = v.re; s.z[c - 300].ei = v.er; s.z[c - 300].ok &= v.ok; }
    else if (c < 2000) s.tz[c - 1000] = v;
    else if (c < 4000) s.tz[c - 2000] = v;
    else if (c < 5000) s.oz[c - 4000] = v;
    else s.od[c - 5000] = v;
}
static V apply(int op, const V& a, const V& b, bool ra, bool rb, double k)
{
    V r;
    if (op == CONST) { r.re = k; return r; }
    if (op == ZERO) return r;
    if (!a.ok || ((op <= DIV && op != MOV) || op == POLAR || op == MAKE || (op >= DADD && op <= DMUL) ? !b.ok : false)) return bad();
    switch (op) {
    case MOV: case DMOV: return a;
    case ADD: case SUB: case DADD: case DSUB: {
        const ld s = op == ADD || op == DADD ? 1 : -1;
        r.re = a.re + s * b.re;
        r.im = a.im + s * b.im;
        r.er = (a.er + b.er) * (1 + U) + U * fabsl(r.re);
        r.ei = (a.ei + b.ei) * (1 + U) + U * fabsl(r.im);
        return r;
    }
    case MUL: case DMUL: {
        if (!insq(a) || !insq(b)) return bad();
        if (op == DMUL || ra || rb) { // a real factor scales each part on its own
            const V& x = ra ? a : b;
            const V& c = ra ? b : a;
            const ld fx = fabsl(x.re);
            r.re = x.re * c.re;
            r.im = x.re * c.im;
            r.er = (fx * c.er + x.er * (fabsl(c.re) + c.er)) * (1 + 4 * U) + 2 * U * fabsl(r.re) + TINY;
            r.ei = (fx * c.ei + x.er * (fabsl(c.im) + c.ei)) * (1 + 4 * U) + 2 * U * fabsl(r.im) + TINY;
            // complex * real may also be done as complex * complex
            if (op == MUL) { r.er += 2 * U * r.mag(); r.ei += 2 * U * r.mag(); }
            return r;
        }
        r.re = a.re * b.re - a.im * b.im;
        r.im = a.re * b.im + a.im * b.re;
        const ld m = (a.mag() + a.err()) * (b.mag() + b.err());
        r.er = r.ei = (a.mag() * b.err() + b.mag() * a.err() + a.err() * b.err()) * (1 + 8 * U) + 4 * U * m + TINY;
        return r;
    }
    case DIV: {
        const ld bm = b.mag();
        if (!insq(a) || !insq(b) || bm == 0 || b.err() > 0.01L * bm) return bad();
        if (a.mag() != 0 && (a.mag() * bm < 1e-280L || a.mag() / bm < 1e-280L || a.mag() / bm > 1e280L)) return bad();
        const ld n = b.re * b.re + b.im * b.im;
        r.re = (a.re * b.re + a.im * b.im) / n;
        r.im = (a.im * b.re - a.re * b.im) / n;
        const ld q = r.mag();
        r.er = r.ei = (a.err() + q * b.err()) / (bm - b.err()) * 1.05L + 10 * U * q + TINY;
        return r;
    }
    case CONJ: r = a; r.im = -a.im; return r;
    case NEG: r = a; r.re = -a.re; r.im = -a.im; return r;
    case JX: r.re = -a.im; r.im = a.re; r.er = a.ei; r.ei = a.er; return r;
    case MJX: r.re = a.im; r.im = -a.re; r.er = a.ei; r.ei = a.er; return r;
    case POLAR:
        if (!insq(a) || fabsl(b.re) > 1e9L) return bad();
        r.re = a.re * cosl(b.re);
        r.im = a.re * sinl(b.re);
        r.er = r.ei = (a.er + (fabsl(a.re) + a.er) * b.er) * (1 + 4 * U) + 4 * U * fabsl(a.re) + TINY;
        return r;
    case EXPJ:
        if (fabsl(a.re) > 1e9L) return bad();
        r.re = cosl(a.re);
        r.im = sinl(a.re);
        r.er = r.ei = a.er + 3 * U;
        return r;
    case MAKE: r.re = a.re; r.er = a.er; r.im = b.re; r.ei = b.er; return r;
    case TOC: r.re = a.re; r.er = a.er; return r;
    case RE: r.re = a.re; r.er = a.er; return r;
    case IM: r.re = a.im; r.er = a.ei; return r;
    case NORM:
        if (!insq(a)) return bad();
        r.re = a.re * a.re + a.im * a.im;
        r.er = (2 * a.mag() * a.err() + a.err() * a.err()) * (1 + 4 * U) + 3 * U * r.re + TINY;
        return r;
    case ABS:
        if (!insq(a)) return bad();
        r.re = a.mag();
        r.er = a.err() * (1 + 4 * U) + 4 * U * r.re + (a.err() > 0 && a.mag() < LO ? LO : 0);
        return r;
    case ARG: {
        const ld m = a.mag();
        if (!insq(a) || m == 0 || a.err() > 0.01L * m) return bad();
        if (a.re - a.er <= 0 && fabsl(a.im) <= 2 * a.ei + 4 * U * fabsl(a.re)) return bad(); // at the cut
        r.re = atan2l(a.im, a.re);
        r.er = a.err() / (m - a.err()) * 1.05L + 4 * U * (fabsl(r.re) + 1e-300L) + TINY;
        return r;
    }
    }
    return bad();
}
static double value(Rng& r)
{
    switch (r.below(12)) {
    case 0: return double(r.range(-3, 3));
    case 1: return r.chance(0.5) ? 0.0 : -0.0;
    case 2: return std::ldexp(r.uni(), r.range(-160, 160));
    case 3: return std::ldexp(r.uni() < 0 ? -1.0 : 1.0, r.range(-60, 60));
    case 4: return std::ldexp(r.uni(), r.range(-20, 20));
    default: return r.uni() * 4;
    }
}
static void fail(int p, const char* what, int i, ld got, const V& want, ld w, ld e, uint64_t seed)
{
    violation("complex", fmt("program %d, %s %d: got %.17Lg, expected %.17Lg within %.3Lg (input seed %llu)", p, what, i, got, w, e, (unsigned long long)seed));
    (void)want;
}
static long g_weak, g_checked, g_out;
static bool cmp(double got, ld want, ld err, ld mag)
{
    g_checked++;
    if (err > 1e-6L * mag) g_weak++;
    const ld e = fabsl((ld)got - want);
    if (err > 0) st.max("err_over_bound", double(e / err));
    return e <= err * 1.0001L + 0; // NaN fails
}
static void run(int p, uint64_t seed)
{
    const Entry& e = otv_programs[p];
    Rng r(seed);
    complex_t z[6], oz[16];
    double d[4], od[16];
    State s;
    const bool tame = r.chance(0.5);
    for (int i = 0; i < 6; i++) {
        z[i].Re = tame ? r.uni() * 3 : value(r);
        z[i].Im = tame ? r.uni() * 3 : value(r);
        s.z[i].re = z[i].Re;
        s.z[i].im = z[i].Im;
    }
    for (int i = 0; i < 4; i++) { d[i] = tame ? r.uni() * 3 : value(r); s.d[i].re = d[i]; }
    for (int k = 0; k < e.nsteps; k++) {
        const int* q = e.steps + 4 * k;
        const bool ra = q[2] >= 0 && is_real(q[2]), rb = q[3] >= 0 && is_real(q[3]);
        V a, b;
        if (q[0] != CONST && q[2] >= 0) a = get(s, q[2]);
        if (q[3] >= 0) b = get(s, q[3]);
        V v = apply(q[0], a, b, ra, rb, q[0] == CONST ? e.consts[q[2]] : 0);
        if (v.ok && v.err() < 1e-3L * v.mag()) st.cell(fmt("%s/%s/%d%d/%d", g_opts.c_str(), op_name[q[0]], ra, rb, p));
        set(s, q[1], v);
    }
    e.f(z, d, oz, od, 2);
    auto chk = [&](const char* what, int i, complex_t got, const V& w) {
        if (!w.ok) { g_out++; return; }
        if (!cmp(got.Re, w.re, w.er, w.mag())) return fail(p, what, i, got.Re, w, w.re, w.er, seed);
        if (!cmp(got.Im, w.im, w.ei, w.mag())) return fail(p, what, i, got.Im, w, w.im, w.ei, seed);
    };
    for (int i = 0; i < 6; i++) chk("variable z", i, z[i], s.z[i]);
    for (int i = 0; i < e.nz; i++) chk("observed complex value", i, oz[i], s.oz[i]);
    auto chd = [&](const char* what, int i, double got, const V& w) {
        if (!w.ok) { g_out++; return; }
        if (!cmp(got, w.re, w.er, fabsl(w.re))) fail(p, what, i, got, w, w.re, w.er, seed);
    };
    for (int i = 0; i < 4; i++) chd("variable d", i, d[i], s.d[i]);
    for (int i = 0; i < e.nd; i++) chd("observed real value", i, od[i], s.od[i]);
    st.add("calls", e.nsteps);
}
// every operation by itself on values at and around the corners
static void corner_ops(uint64_t seed, int pairs)
{
    static const double m[] = {0.0, -0.0, 1, -1, 0.5, -3, 2.5, 1e-3, -1e-3, 1e-7, -1e-9, 1e-12, -1e-15, 1e-17, 1e-20, 1e7, -1e11, 1e16, 1e-60, -1e60, 1e-140, 1e140, M_PI, -M_PI / 2, M_PI / 4, 355};
    const int nm = sizeof m / sizeof *m;
    Rng r(seed);
    auto part = [&](int i) { return i < nm ? m[i] : r.chance(0.5) ? r.uni() * 4 : std::ldexp(r.uni(), r.range(-50, 50)); };
    for (int q = 0; q < otv_ndirect; q++) {
        const Direct& e = otv_direct[q];
        const int total = e.kind == 4 ? nm + 200 : e.kind == 0 || e.kind == 5 ? (nm + 4) * (nm + 4) : pairs;
        for (int k = 0; k < total; k++) {
            complex_t a, b, o(7, 7);
            double x = 0, y = 0, d = 7;
            if (e.kind == 4) x = part(k);
            else if (e.kind == 0) a = complex_t(part(k % (nm + 4)), part(k / (nm + 4)));
            else if (e.kind == 5) { x = part(k % (nm + 4)); y = part(k / (nm + 4)); }
            else {
                a = complex_t(part(r.below(nm + 6)), part(r.below(nm + 6)));
                b = complex_t(part(r.below(nm + 6)), part(r.below(nm + 6)));
                x = part(r.below(nm + 6));
            }
            V va, vb, vx, vy;
            va.re = a.Re; va.im = a.Im; vb.re = b.Re; vb.im = b.Im; vx.re = x; vy.re = y;
            V w;
            switch (e.kind) {
            case 0: w = apply(e.op, va, V(), false, false, 0); break;
            case 1: w = apply(e.op, va, vb, false, false, 0); break;
            case 2: w = apply(e.op, va, vx, false, true, 0); break;
            case 3: w = apply(e.op, vx, va, true, false, 0); break;
            case 4: w = apply(e.op, vx, V(), true, false, 0); break;
            case 5: w = apply(e.op, vx, vy, true, true, 0); break;
            }
            const bool cut = e.op == ARG && a.Im == 0 && a.Re < 0 && insq(va);
            if (!w.ok && !cut) { g_out++; continue; }
            e.f(a, b, x, y, &o, &d);
            st.add("calls");
            st.cell(fmt("%s/%s", g_opts.c_str(), e.text));
            bool good;
            if (cut) good = fabsl(fabsl(d) - acosl(-1.0L)) <= 8 * U * 4;
            else if (e.op >= RE && e.op <= ARG) good = cmp(d, w.re, w.er, fabsl(w.re));
            else good = cmp(o.Re, w.re, w.er, w.mag()) && cmp(o.Im, w.im, w.ei, w.mag());
            if (!good) {
                violation("complex", fmt("%s with a = (%.17g, %.17g), b = (%.17g, %.17g), x = %.17g, y = %.17g gives (%.17g, %.17g) / %.17g, expected (%.17Lg, %.17Lg)",
                    e.text, a.Re, a.Im, b.Re, b.Im, x, y, o.Re, o.Im, d, w.re, w.im));
                break;
            }
        }
    }
}
int main(int argc, char** argv)
{
    init_report();
    std::string spec;
    for (int i = 1; i < argc; i++)
        if (!strncmp(argv[i], "--one=", 6)) spec = argv[i] + 6;
    Spec s(spec);
    g_opts = s.s("options");
    Rng r(s.u("seed", 1));
    if (!s.has("only")) { set_case(spec); corner_ops(r.next(), s.i("pairs", 3000)); }
    for (int p = 0; p < otv_nprograms; p++)
        for (int q = 0; q < s.i("inputs", 100); q++) {
            const uint64_t seed = r.next() % 1000000007ull;
            set_case(s.has("only") ? spec : fmt("%s only=%d input=%llu", spec.c_str(), p, (unsigned long long)seed));
            if (s.has("only")) {
                if (p != s.i("only") || q) continue;
                run(p, s.u("input"));
            } else run(p, seed);
        }
    st.add("values_checked", double(g_checked));
    st.add("values_loosely_bounded", double(g_weak));
    st.add("values_outside_range", double(g_out));
    st.add("programs", otv_nprograms);
    st.sample(spec);
    finish();
}
