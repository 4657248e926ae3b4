// Interposed allocator: counts, poisons, guards or fails the library's own allocations.
#pragma once
#include <cstddef>
#include <cstdint>
namespace alloc {
// Only allocations requested by code of the main program (library and harness) while `tracking` is on are
// looked at; the C and C++ runtime libraries' own requests never are.
void track(bool on);
bool tracking();
struct Scope {
    bool old;
    Scope() : old(tracking()) { track(true); }
    ~Scope() { track(old); }
};
struct Counters {
    uint64_t calls;      // tracked allocation requests (including failed ones)
    uint64_t failed;     // of which made to fail
    int64_t live_blocks; // tracked blocks not freed yet
    int64_t live_bytes;  // their requested bytes
    uint64_t foreign;    // frees of tracked blocks outside tracking
    uint64_t bad_free;   // frees of blocks already freed (guard mode only)
};
Counters get();
void reset_counters();
// fill every tracked block with 64-bit pattern(s): 0 none, 1 zeros, 2 all ones (NaN), 3 huge, 4 random, 5 denormal, 6 signalling NaN
void poison(int kind, uint64_t seed);
// fill blocks when they are freed
void poison_free(bool on);
// the k-th tracked request from now on fails (1 = next), 0 = never; every = all from the k-th on
void fail_at(long k, bool every = false);
// tracked requests of more bytes than this fail, 0 = none
void limit(size_t bytes);
// 0 normal, 1 block ends at an inaccessible page, 2 block starts after one. Freed blocks stay inaccessible.
void guard(int mode);
}
