// C01-C05 at lengths a full reference cannot follow: inputs of a few impulses, whose transform is known in closed form.
#include "cmds.hpp"
#include "domain.hpp"
#include <thread>
namespace otv {
struct Imp { uint64_t p; ld re, im; };
// exact unscaled output element e of call m, as (re, im)
static lc exact(Kind k, bool inv, uint64_t n, const std::vector<Imp>& v, uint64_t e)
{
    lc s{0, 0};
    for (auto& i : v) {
        if (k == DCT) {
            const uint64_t freq = inv ? i.p : e, pos = inv ? e : i.p;
            const ld c = root(freq * (2 * pos + 1) % (4 * n), 4 * n).re;
            s.re += i.re * c * (inv && freq ? 2 : 1);
        }
        else {
            const lc w = root(i.p * e % n, n);
            s = s + lc{i.re, i.im} * (inv ? cj(w) : w);
        }
    }
    return s;
}
static void huge_run(const Spec& s)
{
    const Kind k = Kind(s.i("kind"));
    const int n = int(s.i("n")), be = int(s.i("be")), m = int(s.i("m"));
    const bool inv = is_inv(m);
    omp_set_num_threads(int(s.i("thr", 8)));
    Obj o(k, n, be);
    Rng r(s.u("seed"));
    std::vector<double> in(o.in_doubles(m)), out(o.inplace() ? 0 : o.out_doubles(m), NAN);
    std::vector<Imp> v;
    const bool cin = in.size() == 2 * size_t(n), cout = o.out_doubles(m) == 2 * size_t(n);
    const int q = int(s.i("imp", 10));
    for (int i = 0; i < q; i++) {
        uint64_t p = i == 0 ? uint64_t(n) - 1 : i == 1 ? uint64_t(n) / 2 + r.below(3) : r.below(uint64_t(n));
        bool dup = p >= uint64_t(n);
        const uint64_t mp = (uint64_t(n) - p) % uint64_t(n);
        for (auto& w : v) dup |= w.p == p || w.p == mp;
        if (dup) continue;
        Imp a{p, r.uni(), cin ? r.uni() : 0};
        if (k == REAL && inv && mp == p) a.im = 0;
        v.push_back(a);
        if (k == REAL && inv && mp != p) v.push_back({mp, a.re, -a.im});
    }
    for (auto& a : v) {
        in[cin ? 2 * a.p : a.p] = double(a.re);
        if (cin) in[2 * a.p + 1] = double(a.im);
    }
    o.run(m, in.data(), out.data());
    const double* res = o.inplace() ? in.data() : out.data();
    const ld sc = scale_of(m, n);
    const uint64_t samples = uint64_t(s.u("samples", 1 << 21)), stride = std::max<uint64_t>(1, uint64_t(n) / samples);
    struct Part { double worst = 0, big = 0; uint64_t at = 0, count = 0; };
    std::vector<Part> parts(8);
    std::vector<std::thread> ts;
    const uint64_t seed = r.next();
    for (int t = 0; t < 8; t++)
        ts.emplace_back([&, t] {
            Part& P = parts[t];
            Rng q(mix(seed, t));
            const uint64_t a = uint64_t(n) * t / 8, b = uint64_t(n) * (t + 1) / 8;
            for (uint64_t base = a; base < b; base += stride) {
                const uint64_t e = std::min(b - 1, base + q.below(stride));
                const lc x = exact(k, inv, uint64_t(n), v, e);
                const double d = cout ? std::max(std::fabs(double((ld)res[2 * e] - x.re * sc)), std::fabs(double((ld)res[2 * e + 1] - x.im * sc))) : std::fabs(double((ld)res[e] - x.re * sc));
                if (!(d <= P.worst)) { P.worst = std::isnan(d) ? INFINITY : d; P.at = e; }
                P.big = std::max(P.big, double(hypotl(x.re, x.im) * sc));
                P.count++;
            }
        });
    for (auto& t : ts) t.join();
    Part all;
    for (auto& p : parts) {
        if (p.worst > all.worst) { all.worst = p.worst; all.at = p.at; }
        all.big = std::max(all.big, p.big);
        all.count += p.count;
    }
    const double tol = std::max(tolerance(k, n), 1e-12), rel = all.worst / all.big;
    st.add("calls");
    st.add("huge_calls");
    st.add("elements", double(all.count));
    st.max("largest_length", n);
    st.max("huge_err_over_tol", rel / tol);
    st.cell(fmt("%d/%d/%d/%d/huge", k, be, m, n));
    if (!(rel <= tol))
        violation("accuracy", fmt("%s %s %s n=%d threads=%d input=%zu impulses: element %llu is off by %.3g of the largest element (limit %.3g)", backend_name[be], kind_name[k], mode_name[m], n, int(s.i("thr", 8)), v.size(), (unsigned long long)all.at, rel, tol));
    st.sample(fmt("%s %s %s n=%d impulses", backend_name[be], kind_name[k], mode_name[m], n));
}
static void huge_list(const Args& a, std::vector<std::string>& v)
{
    const Kind k = Kind(a.opt.i("kind"));
    const int dirs = int(a.opt.i("dirs", 3));
    Rng r(mix(a.seed, 5000 + k));
    std::vector<long> ns;
    const long M = 1 << 20;
    if (a.thorough) {
        if (k == BLUE) ns = {16 * M, 16 * M + 1, 20000003, 33554393, 32 * M + 1, 64 * M - 3, 64 * M};
        else ns = {32 * M, 64 * M, 128 * M, 256 * M, 96 * M, 80 * M, 120 * M, 135 * M, 224 * M, 99 * M, 40 * M + 20, 2 * 14348907};
    }
    else {
        if (k == BLUE) ns = {2 * M + 1 + long(r.below(uint64_t(2 * M)))};
        else ns = {32 * M, long((3 + 2 * r.below(6)) * 4 * M)};
    }
    for (long n : ns) {
        if (k != BLUE && largest_prime(int(k == CPLX ? n : n / 2)) > 200) continue;
        for (int rep = 0; rep < (a.thorough ? 2 : 1); rep++)
            for (int d = 0; d < 2; d++) {
                if (!(dirs >> d & 1)) continue;
                if (!a.thorough && dirs == 3 && r.chance(0.5) == (d == 1)) { if (n != ns[0]) continue; }
                int m;
                do m = 4 * d + int(r.below(4)); while (!mode_ok(k, m));
                v.push_back(fmt("kind=%d n=%ld be=%d m=%d seed=%llu samples=%d", k, n, any_backend(r), m, (unsigned long long)(r.next() % 1000000007ull), a.thorough ? 1 << 22 : 1 << 20));
            }
    }
}
static Reg reg_huge("huge", Cmd{huge_list, huge_run});
}
