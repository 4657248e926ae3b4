#pragma once
#include "otv.hpp"
#include <exception>
#include <thread>
namespace otv {
// A monitor: lists its cases as specs (deterministic in the arguments) and runs one.
struct Cmd {
    std::function<void(const Args&, std::vector<std::string>&)> list;
    std::function<void(const Spec&)> run;
};
std::map<std::string, Cmd>& registry();
struct Reg {
    Reg(const char* n, Cmd c) { registry()[n] = c; }
};
// Run f, if asked to in a thread of its own that is gone afterwards (with the caller's number of OpenMP threads).
template <class F> void elsewhere(bool other, F f)
{
    if (!other) { f(); return; }
    std::exception_ptr e;
    const int t = omp_get_max_threads();
    std::thread th([&] {
        omp_set_num_threads(t);
        try { f(); } catch (...) { e = std::current_exception(); }
    });
    th.join();
    if (e) std::rethrow_exception(e);
}
// buffer with guard words and a chosen 8-byte offset
struct Buf {
    static const int G = 40;
    std::vector<double> v;
    double* p = 0;
    size_t n = 0;
    static uint64_t pat(size_t i) { return 0x7FF4DEADBEEF0000ull + i % 251; }
    explicit Buf(size_t n_, int off = 0) { reset(n_, off); }
    void reset(size_t n_, int off)
    {
        n = n_;
        v.resize(n + 2 * G + 16);
        uintptr_t a = (uintptr_t)(v.data() + G);
        a = (a + 63) & ~uintptr_t(63);
        p = (double*)a + (off & 7);
        for (int i = 1; i <= G / 2; i++) { put(p - i, i); put(p + n - 1 + i, i + 100); }
    }
    static void put(double* q, size_t i) { uint64_t b = pat(i); memcpy(q, &b, 8); }
    static bool is(const double* q, size_t i) { uint64_t b = pat(i), c; memcpy(&c, q, 8); return b == c; }
    // 0: intact, else signed distance of the first damaged word
    int damaged() const
    {
        for (int i = 1; i <= G / 2; i++) {
            if (!is(p - i, i)) return -i;
            if (!is(p + n - 1 + i, i + 100)) return i;
        }
        return 0;
    }
};
}
