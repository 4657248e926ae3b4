// A small OpenMP runtime for monitored runs.  It implements the entry points gcc (GOMP_*) and clang
// (__kmpc_*) generate calls to, on plain pthreads, so that race detectors see every synchronisation,
// and it can run a team in three ways.
#pragma once
#include <cstdint>
namespace shim {
enum Mode {
    PAR = 0,   // threads really run in parallel
    JITTER,    // in parallel, with random pauses at barriers, chunk and region starts
    SEQ        // one thread at a time, switched only at barriers and at the end of the region, in an order
               // drawn from the seed for every phase: the most extreme interleavings of whole phases
};
struct Stats {
    uint64_t regions, nested, barriers, phases, max_team;
};
void configure(int mode, uint64_t seed);
void set_threads(int n);
Stats stats();
void reset_stats();
extern void (*on_error)(const char* what); // called for barrier divergence and similar; default aborts
// number of threads of the current team that are inside a region right now, 0 if none
int active();
}
