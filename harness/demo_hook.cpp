// Watches an instrumented program (-finstrument-functions): which library algorithms were entered, what TBB allowed at
// that moment, how many threads were inside library code at once.  Appends to $VERIF_RAN[.rank].
#include <dlfcn.h>
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <atomic>
#include <string>
#ifdef HOOK_TBB
#define TBB_PREVIEW_GLOBAL_CONTROL 1
#include <tbb/global_control.h>
#endif
namespace {
std::atomic<int> inside(0), most(0);
struct Slot { std::atomic<void*> fn; std::atomic<int> kind; };
Slot slots[1 << 14];
void say(const std::string &s) {
    const char *f = std::getenv("VERIF_RAN"); if (!f) return;
    std::string p = f; if (const char *r = std::getenv("OMPI_COMM_WORLD_RANK")) p += std::string(".") + r;
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd < 0) return;
    std::string l = s + "\n"; if (::write(fd, l.data(), l.size()) < 0) {} ::close(fd);
}
bool algorithm(const std::string &n) {
    static const char *what[] = { "mcb_sva_", "CyclesBuilder", "SPTree", "greedy_fvs", "BaseApproxSpanner", "spanner", "SpanningForest", "ForestIndex", "signed_dijkstra", "lex_dijkstra" };
    if (n.find("parmcb::") == std::string::npos) return false;
    for (const char *w : what) if (n.find(w) != std::string::npos) return true;
    return false;
}
void first(void *fn) {
    Dl_info i; if (!dladdr(fn, &i) || !i.dli_sname || i.dli_saddr != fn) return;
    int st; char *d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st);
    std::string n = d ? d : i.dli_sname; free(d);
    if (!algorithm(n)) return;
    // the name without its arguments and template arguments
    std::string q; int depth = 0;
    for (char c : n) { if (c == '<') depth++; else if (c == '>') depth--; else if (!depth) q += c; }
    std::string::size_type at = q.find("parmcb::"); q = q.substr(at == std::string::npos ? 0 : at); q = q.substr(0, q.find('('));
    std::string l = "enter " + q;
#ifdef HOOK_TBB
    l += " " + std::to_string(tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism));
#endif
    say(l);
}
thread_local int depth_ = 0;
struct AtExit { ~AtExit() { say("threads " + std::to_string(most.load())); } } atexit_;
}
extern "C" {
void __cyg_profile_func_enter(void *fn, void *) __attribute__((no_instrument_function));
void __cyg_profile_func_exit(void *fn, void *) __attribute__((no_instrument_function));
void __cyg_profile_func_enter(void *fn, void *) {
    if (depth_++ == 0) { int k = ++inside; int m = most.load(); while (k > m && !most.compare_exchange_weak(m, k)); }
    std::size_t h = (reinterpret_cast<std::size_t>(fn) >> 2) * 2654435761u % (1 << 14);
    for (int t = 0; t < 64; t++, h = (h + 1) % (1 << 14)) {
        void *c = slots[h].fn.load(std::memory_order_relaxed);
        if (c == fn) return;
        if (!c) { void *z = 0; if (slots[h].fn.compare_exchange_strong(z, fn)) { first(fn); return; } if (z == fn) return; }
    }
}
void __cyg_profile_func_exit(void *, void *) { if (--depth_ == 0) --inside; }
}
