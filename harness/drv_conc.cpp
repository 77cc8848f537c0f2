// histories of set_global_tbb_concurrency, queries and library calls; instrumented, so that the limit is also read inside the calls
#include <parmcb/config.hpp>
#include "hist.hpp"
#include <atomic>
#include <mutex>
#include <random>
#include <thread>
#include <boost/graph/adjacency_list.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
#include <tbb/global_control.h>
#define NOI __attribute__((no_instrument_function))
void unit_set(std::size_t n);
std::size_t unit_query();
static std::size_t active() NOI;
static std::size_t active() { return tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism); }
static std::atomic<bool> on(false);
static std::atomic<int> inside(0), most(0), ticks(0);
static std::mutex mx;
static std::set<std::size_t> *seen;
static thread_local int depth_ = 0;
extern "C" {
void __cyg_profile_func_enter(void *, void *) NOI;
void __cyg_profile_func_exit(void *, void *) NOI;
void __cyg_profile_func_enter(void *, void *) {
    if (depth_++) { }
    else { int k = ++inside; int m = most.load(); while (k > m && !most.compare_exchange_weak(m, k)); }
    if (on.load(std::memory_order_relaxed) && ticks++ % 512 == 0) {
        on = false; std::size_t v = active();
        { std::lock_guard<std::mutex> l(mx); seen->insert(v); }
        on = true;
    }
}
void __cyg_profile_func_exit(void *, void *) { if (--depth_ == 0) --inside; }
}
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> G;
typedef boost::graph_traits<G>::edge_descriptor E;
static G make(int n, int m) {
    G g(n); std::mt19937 r(7); std::set<std::pair<int,int>> s;
    while ((int) s.size() < m) { int a = r() % n, b = r() % n; if (a > b) std::swap(a, b); if (a != b && s.insert({a, b}).second) boost::add_edge(a, b, 1.0 + r() % 5, g); }
    return g;
}
static void call(G &g, int which) {
    std::list<std::list<E>> out; auto w = boost::get(boost::edge_weight, g);
    switch (which) {
    case 0: parmcb::mcb_sva_signed_tbb(g, w, std::back_inserter(out)); break;
    case 1: parmcb::mcb_sva_fvs_trees_tbb(g, w, std::back_inserter(out)); break;
    case 2: parmcb::mcb_sva_iso_trees_tbb(g, w, std::back_inserter(out)); break;
    case 3: parmcb::approx_mcb_sva_signed_tbb(g, w, 2, std::back_inserter(out)); break;
    case 4: parmcb::approx_mcb_sva_fvs_trees_tbb(g, w, 2, std::back_inserter(out)); break;
    default: parmcb::approx_mcb_sva_iso_trees_tbb(g, w, 2, std::back_inserter(out)); break;
    }
}
template<class F> static void at(bool thread, F f) NOI;
template<class F> static void at(bool thread, F f) { if (thread) std::thread(f).join(); else f(); }
int main(int argc, char **argv) NOI;
int main(int argc, char **argv) {
    G g = make(14, 30);
    seen = new std::set<std::size_t>();
    return verif::run_hists(argc, argv, [&](const verif::Hist &h, verif::HTrace &t) NOI {
        for (auto &o : h.ops) {
            std::size_t n = o.a[0]; bool unit = o.a[1], th = o.a[2];
            if (o.name == "Set") { at(th, [&] NOI { if (unit) unit_set(n); else parmcb::set_global_tbb_concurrency(n); }); t.ev(o, "\"done\":1"); }
            else if (o.name == "Query") { std::size_t v = 0; at(th, [&] NOI { v = unit ? unit_query() : active(); }); t.ev(o, "\"v\":" + std::to_string(v)); }
            else {
                seen->clear(); most = 0; inside = 0; ticks = 0; on = true;
                at(th, [&] NOI { call(g, (int) n); });
                on = false;
                std::string s; for (auto v : *seen) s += (s.empty() ? "" : ",") + std::to_string(v);
                t.ev(o, "\"v\":[" + s + "],\"threads\":" + std::to_string(most.load()));
            }
        }
    });
}
