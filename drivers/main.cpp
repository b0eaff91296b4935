// Driver entry point: runs the cases of one driver until the time is used, or one case again.
#include "common.hpp"
#include <csignal>
#include <unistd.h>
namespace drv
{
std::string trace;
std::vector<int64_t> poolInts;
std::vector<double> poolDoubles;
static uint64_t g_seed = 1;
static uint64_t g_iter = 0;
static const char *g_case = "";
static void report(const char *kind, const char *msg)
{
    printf("\nFAIL kind=%s case=%s seed=%llu iter=%llu\nWHAT %s\nINPUT %s\n", kind, g_case,
           (unsigned long long)g_seed, (unsigned long long)g_iter, msg, trace.substr(0, 4000).c_str());
    fflush(stdout);
}
static void death() { report("sanitizer", "the sanitizer stopped the real code (see stderr)"); }
static void onsig(int s)
{
    report("signal", s == SIGALRM ? "the case did not terminate" : s == SIGSEGV ? "segmentation fault" : "abort");
    _exit(3);
}
} // namespace drv
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void __ubsan_on_report(void) { drv::death(); }
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:allocator_may_return_null=1:handle_segv=1:max_allocation_size_mb=4096:"
           "alloc_dealloc_mismatch=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
int main(int argc, char **argv)
{
    using namespace drv;
    double seconds = 5;
    long only = -1;
    uint64_t maxiter = ~0ull;
    const char *sel = nullptr;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i];
        if (a == "--seed")
            g_seed = strtoull(argv[i + 1], 0, 10);
        else if (a == "--seconds")
            seconds = atof(argv[i + 1]);
        else if (a == "--iter")
            only = atol(argv[i + 1]);
        else if (a == "--case")
            sel = argv[i + 1];
        else if (a == "--max")
            maxiter = strtoull(argv[i + 1], 0, 10);
        else if (a == "--int")
            poolInts.push_back(strtoll(argv[i + 1], 0, 0));
        else if (a == "--double")
        {
            uint64_t b = strtoull(argv[i + 1], 0, 0);
            double d;
            memcpy(&d, &b, 8);
            poolDoubles.push_back(d);
        }
    }
    if (__sanitizer_set_death_callback)
        __sanitizer_set_death_callback(death);
    else
        signal(SIGSEGV, onsig);
    signal(SIGABRT, onsig);
    signal(SIGALRM, onsig);
    std::map<std::string, uint64_t> done;
    auto t0 = std::chrono::steady_clock::now();
    std::vector<Case *> bag;
    for (auto &c : cases)
        if (!sel || c.name == std::string(sel))
            for (int i = 0; i < c.weight; i++)
                bag.push_back(&c);
    std::set<std::string> samples;
    uint64_t total = 0;
    std::set<uint64_t> distinct;
    for (uint64_t it = only >= 0 ? only : 0; it < maxiter; it++)
    {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (only < 0 && el > seconds && total >= bag.size())
            break;
        g_iter = it;
        Case *c = bag[it % bag.size()];
        g_case = c->name;
        trace.clear();
        Rng r(g_seed * 1000003 + it);
        alarm(60);
        try
        {
            c->fn(r);
        }
        catch (const Violation &v)
        {
            report("mismatch", v.what());
            return 3;
        }
        catch (const std::exception &e)
        {
            report("exception", e.what());
            return 3;
        }
        total++;
        done[c->name]++;
        distinct.insert(std::hash<std::string>()(trace));
        if (samples.size() < 4 && it < 64)
            samples.insert(std::string(c->name) + ": " + trace.substr(0, 200));
        if (only >= 0)
            break;
    }
    printf("DONE total=%llu distinct=%zu\n", (unsigned long long)total, distinct.size());
    for (auto &d : done)
        printf("CASE %s %llu\n", d.first.c_str(), (unsigned long long)d.second);
    for (auto &s : samples)
    {
        std::string t;
        for (char ch : s)
            t += (ch >= 32 && ch < 127) ? ch : '?';
        printf("SAMPLE %s\n", t.c_str());
    }
    return 0;
}
