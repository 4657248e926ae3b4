#include "cmds.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define OTV_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#define OTV_SAN 1
#endif
#endif
#ifdef OTV_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" void __sanitizer_set_report_fd(void*);
static void on_death()
{
    char b[1600];
    int k = snprintf(b, sizeof b, "{\"viol\":\"sanitizer\",\"case\":\"%s\",\"what\":\"sanitizer report\"}\n", otv::g_case);
    (void)!write(otv::report_fd(), b, size_t(k));
}
#endif
namespace otv {
std::map<std::string, Cmd>& registry() { static std::map<std::string, Cmd> m; return m; }
}
// Stand-in for the one translation unit that some builds leave out (the SSE2 radix-16 kernel takes as long
// to compile as everything else together); the real definition wins when it is linked in.
extern "C" __attribute__((weak)) void _ZN10OTFFT_SSE214OTFFT_AVXDIF168instanceEv() { throw otv::Unavailable(); }
using namespace otv;
int main(int argc, char** argv)
{
    init_report();
#ifdef OTV_SAN
    __sanitizer_set_death_callback(on_death);
#else
    install_crash_handler();
#endif
    if (!ref_selfcheck()) { emit("{\"fatal\":\"reference self-check failed\"}"); return 3; }
    Args a(argc, argv);
    auto it = registry().find(a.cmd);
    if (it == registry().end()) { emit("{\"fatal\":\"unknown command\"}"); return 3; }
    if (have_shim()) shim::configure(int(a.opt.i("omp", 0)), a.seed);
    if (!a.spec.empty()) {
        set_case(a.spec);
        try { it->second.run(Spec(a.spec)); }
        catch (const Unavailable&) { st.add("skipped"); }
        catch (const std::exception& e) { violation("exception", std::string("unexpected exception: ") + e.what()); }
        finish();
        return 0;
    }
    std::vector<std::string> cs;
    it->second.list(a, cs);
    // Shared with the driver and the other workers: a counter that hands out cases, then one slot per
    // worker holding its current case.
    std::atomic<uint64_t> local{0};
    std::atomic<uint64_t>* next = &local;
    const std::string ctr = a.opt.s("ctr");
    if (!ctr.empty()) {
        int fd = open(ctr.c_str(), O_RDWR);
        const size_t len = 4096 + 1024 * size_t(a.shards);
        void* m = fd < 0 ? MAP_FAILED : mmap(0, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { emit("{\"fatal\":\"cannot map the case counter\"}"); return 3; }
        close(fd);
        next = (std::atomic<uint64_t>*)m;
        g_case = (char*)m + 4096 + 1024 * a.shard;
    }
    for (;;) {
        const size_t i = size_t(next->fetch_add(1));
        if (i >= cs.size()) break;
        set_case(cs[i]);
        try {
            it->second.run(Spec(cs[i]));
            st.add("cases");
        }
        catch (const Unavailable&) { st.add("skipped"); }
        catch (const std::exception& e) { violation("exception", std::string("unexpected exception: ") + e.what()); }
    }
    set_case("");
    finish();
    return 0;
}
