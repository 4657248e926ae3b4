#include "domain.hpp"
namespace otv {
std::vector<int> class_lengths(Kind k, long maxn, int maxp, Rng& r)
{
    static const int lo[] = {131072, 65536, 32768, 16384, 4096, 512};
    std::vector<int> v;
    const int step = k == BLUE ? 1 : 2, mod = k == BLUE ? 8 : 16;
    for (int l : lo) {
        if (l > maxn) continue;
        for (int res = 0; res < mod; res += step) {
            int n, tries = 0;
            do n = l + mod * int(r.below(uint64_t(l) / mod)) + res;
            while (k != BLUE && largest_prime(k == CPLX ? n : n / 2) > maxp * (1 + tries++ / 200));
            v.push_back(n);
        }
    }
    return v;
}
std::vector<Len> domain(Kind k, const DomainOpt& o, Rng& r)
{
    std::vector<Len> v;
    const int step = k == BLUE ? 1 : 2, first = k == BLUE ? 1 : 2;
    auto thr = [&](int n) { return n >= 8192 ? 2 + int(r.below(7)) : 1; };
    static const int odd[] = {3, 5, 7, 9, 15, 21, 25, 27, 35, 45, 49, 63, 75, 81, 105, 121, 125, 135, 169, 225, 243, 343, 375, 625, 729, 1155, 2187, 2401, 3125, 6561, 15625, 16807, 50625};
    // where the inner transform of length n/2 or 2n is what matters
    const int mult = k == CPLX ? 1 : 2;
    for (int l = o.large - 1; l >= 17; l--) {
        if (l >= o.maxlog) v.push_back({2 << l, 2 + int(r.below(7))});
        for (long n = 0; !n;) { // between 2^l and 2^(l+1)
            n = 2L * mult * odd[r.below(33)];
            while (n < (1L << l)) n *= r.chance(0.7) ? 2 : r.chance(0.5) ? 3 : r.chance(0.5) ? 5 : 7;
            if (n > (2L << l)) n = 0;
            else v.push_back({int(n), 2 + int(r.below(7))});
        }
    }
    for (int l = o.maxlog; l >= 1; l--)
        for (int be : backends()) v.push_back({1 << l, thr(1 << l), be});
    for (int i = 0; i < o.classes; i++)
        for (int n : class_lengths(k, 1L << std::min(o.maxlog, 17), std::min(o.maxp, 300), r)) v.push_back({n, thr(n)});
    if (k != BLUE)
        for (int i = 0; i < o.parallel; i++) {
            long n = odd[(i + r.below(3) * 11) % 33] * mult;
            n *= 2;
            const long lo = 32768L * mult;
            while (n < lo) n *= 2;
            if (r.chance(0.5) && n < (1 << 17)) n *= 2;
            v.push_back({int(n), 2 + int(r.below(7))});
        }
    static const std::vector<int> pr = primes_upto(4000);
    for (int i = 0; i < o.primes; i++) {
        int p;
        do p = pr[4 + r.below(pr.size() - 4)]; while (p > o.maxp);
        long n = k == BLUE ? p : 2 * p;
        if (i % 2) while (n < 32768L * mult && k != BLUE) n *= r.chance(0.6) ? 2 : 3;
        v.push_back({int(n), thr(int(n))});
    }
    for (int i = 0; i < o.randoms; i++) {
        int n = int(std::exp(std::log(double(o.small + 2)) + r.unit() * (std::log(65536.0) - std::log(double(o.small + 2)))));
        if (k == BLUE && i % 4 == 0) n = (1 << r.range(2, 15)) + r.range(-1, 1);
        n -= n % step;
        if (n < first) n = first;
        if (k != BLUE && largest_prime(k == CPLX ? n : n / 2) > o.maxp) { if (!r.chance(0.05)) { i--; } continue; }
        v.push_back({n, thr(n)});
    }
    for (int n = o.small - o.small % step; n >= first; n -= step) v.push_back({n, 1});
    return v;
}
std::vector<Kind> kinds(const Args& a)
{
    long m = a.opt.i("kinds", 15);
    std::vector<Kind> v;
    for (int k = 0; k < 4; k++)
        if (m >> k & 1) v.push_back(Kind(k));
    return v;
}
int any_backend(Rng& r)
{
    static const std::vector<int> b = backends();
    return b[r.below(b.size())];
}
int backend_for(const Len& l, Rng& r) { return l.be >= 0 ? l.be : any_backend(r); }
int any_mode(Kind k, Rng& r)
{
    int m;
    do m = int(r.below(8)); while (!mode_ok(k, m));
    return m;
}
}
