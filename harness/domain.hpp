// Lengths and case lists shared by the monitors.
#pragma once
#include "cmds.hpp"
namespace otv {
struct DomainOpt {
    int small = 256;      // every valid length up to here
    int maxlog = 18;      // powers of two up to 2^maxlog, each with every backend
    int large = 0;        // above that, up to 2^large: one power of two and one smooth length per octave
    int randoms = 60;     // random lengths up to 2^16
    int parallel = 24;    // smooth lengths through the parallel mixed-radix path
    int primes = 10;      // lengths with a medium or large prime factor
    int maxp = 900;       // largest such prime
    int classes = 1;      // rounds over all classes of (size region, residue)
};
// one length in every class of (below and above each parallel threshold, residue mod 16 or 8)
std::vector<int> class_lengths(Kind k, long maxn, int maxp, Rng& r);
// (length, suggested threads); big ones first
struct Len { int n, thr, be = -1; Len(int n_, int t, int b = -1) : n(n_), thr(t), be(b) {} };
std::vector<Len> domain(Kind k, const DomainOpt& o, Rng& r);
// kinds selected by the option kinds= (bit mask), default all
std::vector<Kind> kinds(const Args& a);
int any_backend(Rng& r);
int backend_for(const Len& l, Rng& r); // the one the length asks for, or any
int any_mode(Kind k, Rng& r);
// expected kernel of an SSE2 object that the lean build leaves out
inline std::string spec_base(Kind k, int be, const Len& l, uint64_t seed)
{
    return fmt("kind=%d be=%d n=%d thr=%d seed=%llu", int(k), be, l.n, l.thr, (unsigned long long)(seed % 1000000007ull));
}
inline std::string label(const Spec& s)
{
    return fmt("%s %s n=%ld threads=%ld", backend_name[s.i("be")], kind_name[s.i("kind")], s.i("n"), s.i("thr", 1));
}
}
