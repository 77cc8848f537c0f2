// Every allocation and release during a call, and every object a returned descriptor refers to, for Lifetime.tla.
// Each call is made once unrecorded first, so that storage the process keeps for later calls is not counted.
// -DTBB: the parallel entry points over tbbmock (threads)
#include <cstddef>
#include <cstdlib>
#include <mutex>
#include <new>
namespace ledger {
struct Block { Block *self; std::size_t id, size; int dead, kind; };   // in front of every block, 32 bytes + alignment
const std::size_t HEAD = 48;
struct State {
    std::mutex m;
    bool on = false, keep = false;
    std::size_t next = 1;
    Block **all = nullptr; std::size_t n = 0, cap = 0;     // blocks of this case
    long *log = nullptr; std::size_t ln = 0, lcap = 0;      // +id allocated, -id released
    int mismatch = 0;
};
inline State& st() { static State *s = new (std::malloc(sizeof(State))) State; return *s; }
inline void put(long x) { State &s = st(); if (s.ln == s.lcap) { s.lcap = s.lcap ? 2 * s.lcap : 4096; s.log = (long*) std::realloc(s.log, s.lcap * sizeof(long)); } s.log[s.ln++] = x; }
inline void* take(std::size_t n, int kind) {
    State &s = st();
    std::lock_guard<std::mutex> l(s.m);
    Block *b = (Block*) std::malloc(n + HEAD);
    if (!b) throw std::bad_alloc();
    b->self = b; b->size = n; b->dead = 0; b->kind = kind; b->id = 0;
    if (s.on) {
        b->id = s.next++;
        if (s.n == s.cap) { s.cap = s.cap ? 2 * s.cap : 4096; s.all = (Block**) std::realloc(s.all, s.cap * sizeof(Block*)); }
        s.all[s.n++] = b;
        put((long) b->id);
        unsigned char *p = (unsigned char*) b + HEAD;       // storage without a value does not look like a small number
        for (std::size_t i = 0; i < n; i++) p[i] = 0xC5;
    }
    return (char*) b + HEAD;
}
inline void give(void *q, int kind, std::size_t size, bool sized) {
    if (!q) return;
    State &s = st();
    std::lock_guard<std::mutex> l(s.m);
    Block *b = (Block*) ((char*) q - HEAD);
    if (b->self != b) { put(-999999999); return; }          // not a block
    if (b->kind != kind || (sized && b->size != size)) s.mismatch++;
    if (b->id) { if (s.keep) put(-(long) b->id); }
    if (b->dead) { if (!b->id) put(-999999998); return; }
    b->dead = 1;
    if (!b->id) { b->self = nullptr; std::free(b); return; }
    unsigned char *p = (unsigned char*) q;
    for (std::size_t i = 0; i < b->size; i++) p[i] = 0xD7;   // kept until the end of the case, but unusable
}
// the object an address lies in, 0 when none of this case
inline long find(const void *q) {
    State &s = st();
    for (std::size_t i = 0; i < s.n; i++) {
        const char *p = (const char*) s.all[i] + HEAD;
        if ((const char*) q >= p && (const char*) q < p + s.all[i]->size) return (long) s.all[i]->id;
    }
    return 0;
}
inline void begin() { State &s = st(); s.on = s.keep = true; s.next = 1; s.n = 0; s.ln = 0; s.mismatch = 0; }
inline void pause() { st().on = false; st().keep = false; }
inline void resume() { st().on = true; st().keep = true; }
inline void reset() { State &s = st(); s.on = s.keep = false; for (std::size_t i = 0; i < s.n; i++) if (s.all[i]->dead) { s.all[i]->self = nullptr; std::free(s.all[i]); } s.n = 0; s.ln = 0; }
}
void* operator new(std::size_t n) { return ledger::take(n, 1); }
void* operator new[](std::size_t n) { return ledger::take(n, 2); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return ledger::take(n, 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return ledger::take(n, 2); }
void operator delete(void *p) noexcept { ledger::give(p, 1, 0, false); }
void operator delete[](void *p) noexcept { ledger::give(p, 2, 0, false); }
void operator delete(void *p, const std::nothrow_t&) noexcept { ledger::give(p, 1, 0, false); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { ledger::give(p, 2, 0, false); }
void operator delete(void *p, std::size_t n) noexcept { ledger::give(p, 1, n, true); }
void operator delete[](void *p, std::size_t n) noexcept { ledger::give(p, 2, n, true); }

#include "common.hpp"
#include <memory>
#ifdef TBB
#include <tbb/tbb.h>
#endif
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/detail/fvs.hpp>
#include <parmcb/detail/cycles.hpp>
#include <parmcb/detail/approx_spanner.hpp>
#include <parmcb/util.hpp>
using namespace verif;
#ifndef WT
#define WT double
#endif
typedef GraphOf<WT>::type Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef boost::property_map<Graph, boost::edge_weight_t>::type WMap;
typedef std::list<std::list<Edge>> Cycles;
typedef parmcb::SPTree<Graph, WMap> Tree;
typedef parmcb::CandidateCycle<Graph, WMap> Cand;

// a recorder that allocates nothing while recording is on
struct Rec {
    std::string out;
    std::vector<long> handed;
    void flush() {
        ledger::pause();
        ledger::State &s = ledger::st();
        for (std::size_t i = 0; i < s.ln; i += 400) {
            out += std::string(out.empty() ? "" : ",") + "{\"op\":\"Mem\",\"a\":[";
            for (std::size_t j = i; j < s.ln && j < i + 400; j++) out += (j > i ? "," : "") + std::to_string(s.log[j]);
            out += "]}";
        }
        s.ln = 0;
        ledger::resume();
    }
    void ev(const char *e, const std::string &name = "") {
        flush();
        ledger::pause();
        out += std::string(out.empty() ? "" : ",") + "{\"op\":\"" + e + "\"" + (name.empty() ? "" : ",\"alg\":\"" + name + "\"") + "}";
        ledger::resume();
    }
    void hand(const Edge &e) { ledger::pause(); handed.push_back(ledger::find(const_cast<Edge&>(e).get_property())); ledger::resume(); }
    void handed_all() {
        flush();
        ledger::pause();
        std::sort(handed.begin(), handed.end()); handed.erase(std::unique(handed.begin(), handed.end()), handed.end());
        out += ",{\"op\":\"Handed\",\"o\":" + jarr(handed) + "}";
        std::vector<long>().swap(handed);
        ledger::resume();
    }
};

template<class Make, class Look> static void call(Rec &r, const std::string &name, Make make, Look look) {
    ledger::pause();
    { auto warm = make(); (void) warm; }
    ledger::resume();
    r.ev("Enter", name);
    {
        auto res = make();
        r.ev("Return");
        look(*res);
        r.handed_all();
    }
    if (ledger::st().mismatch) r.ev("Mismatch", name);
    r.ev("Leave");
}
struct Parts { std::vector<Tree> trees; std::vector<Cand> cycles; };

int main(int argc, char **argv) {
    const std::string algs = envs("VERIF_ALGS", "");
    return run_cases(argc, argv, [&](const Case &c, Trace &t) {
        Rec r;
        r.out.reserve(1 << 20);
        ledger::begin();
        {
            Built<Graph> b(c);
            WMap wm = boost::get(boost::edge_weight, b.g);
            auto index = boost::get(boost::vertex_index, b.g);
            auto cycles = [&](const char *name, auto f) {
                if (!algs.empty() && !has(algs, name)) return;
                call(r, name, [&] { auto p = std::unique_ptr<Cycles>(new Cycles); f(std::back_inserter(*p)); return p; },
                     [&](Cycles &cs) { for (auto &cy : cs) for (auto &e : cy) r.hand(e); });
            };
            typedef std::back_insert_iterator<Cycles> It;
#ifndef TBB
            cycles("signed", [&](It out) { parmcb::mcb_sva_signed(b.g, wm, out); });
            cycles("fvs", [&](It out) { parmcb::mcb_sva_fvs_trees(b.g, wm, out); });
            cycles("iso", [&](It out) { parmcb::mcb_sva_iso_trees(b.g, wm, out); });
            for (int k : c.ks) {
                cycles("asigned", [&](It out) { parmcb::approx_mcb_sva_signed(b.g, wm, k_of(k), out); });
                cycles("afvs", [&](It out) { parmcb::approx_mcb_sva_fvs_trees(b.g, wm, k_of(k), out); });
                cycles("aiso", [&](It out) { parmcb::approx_mcb_sva_iso_trees(b.g, wm, k_of(k), out); });
            }
            auto builder = [&](const char *name, auto bld) {
                if (!algs.empty() && !has(algs, name)) return;
                call(r, name, [&] { auto p = std::unique_ptr<Parts>(new Parts); bld(b.g, wm, p->trees, p->cycles); return p; },
                     [&](Parts &p) {
                         for (auto &cc : p.cycles) r.hand(cc.edge());
                         for (auto &tr : p.trees) for (int v = 0; v < c.n; v++) { auto nd = tr.node(v); if (nd && (std::size_t) v != tr.source()) r.hand(nd->pred()); }
                     });
            };
            builder("horton", parmcb::detail::HortonCyclesBuilder<Graph, WMap>());
            builder("fvscand", parmcb::detail::FVSCyclesBuilder<Graph, WMap>());
            builder("isocand", parmcb::detail::ISOCyclesBuilder<Graph, WMap>());
            if (algs.empty()) {
                if (c.n > 0)
                    call(r, "tree", [&] { return std::unique_ptr<Tree>(new Tree(0, b.g, index, wm, (std::size_t) (c.n - 1))); },
                         [&](Tree &tr) { for (int v = 0; v < c.n; v++) { auto nd = tr.node(v); if (nd && (std::size_t) v != tr.source()) r.hand(nd->pred()); } });
                call(r, "greedy_fvs", [&] { auto p = std::unique_ptr<std::vector<std::size_t>>(new std::vector<std::size_t>); parmcb::greedy_fvs(b.g, std::back_inserter(*p)); return p; },
                     [&](std::vector<std::size_t> &) {});
                call(r, "forestindex", [&] { return std::unique_ptr<parmcb::ForestIndex<Graph>>(new parmcb::ForestIndex<Graph>(b.g)); },
                     [&](parmcb::ForestIndex<Graph> &f) { for (int i = 0; i < c.m; i++) r.hand(f((std::size_t) i)); });
                call(r, "validators", [&] { parmcb::has_loops(b.g); parmcb::has_multiple_edges(b.g); parmcb::has_non_positive_weights(b.g, wm); return std::unique_ptr<int>(new int(0)); }, [&](int &) {});
                call(r, "dimacs", [&] {
                    FILE *fp = std::tmpfile();
                    std::fprintf(fp, "c life\np edge %d %d\n", c.n, c.m);
                    for (int i = 0; i < c.m; i++) std::fprintf(fp, "e %d %d %ld\n", c.u[i] + 1, c.v[i] + 1, c.w[i]);
                    std::rewind(fp);
                    auto p = std::unique_ptr<GraphOf<double>::type>(new GraphOf<double>::type);
                    parmcb::read_dimacs_from_file(fp, *p);
                    std::fclose(fp);
                    return p;
                }, [&](GraphOf<double>::type &) {});
            }
#else
            cycles("signed", [&](It out) { parmcb::mcb_sva_signed_tbb(b.g, wm, out); });
            cycles("fvs", [&](It out) { parmcb::mcb_sva_fvs_trees_tbb(b.g, wm, out); });
            cycles("iso", [&](It out) { parmcb::mcb_sva_iso_trees_tbb(b.g, wm, out); });
            for (int k : c.ks) {
                cycles("asigned", [&](It out) { parmcb::approx_mcb_sva_signed_tbb(b.g, wm, k_of(k), out); });
                cycles("afvs", [&](It out) { parmcb::approx_mcb_sva_fvs_trees_tbb(b.g, wm, k_of(k), out); });
                cycles("aiso", [&](It out) { parmcb::approx_mcb_sva_iso_trees_tbb(b.g, wm, k_of(k), out); });
            }
#endif
        }
        r.flush();
        ledger::pause();
        t.raw(r.out);
        ledger::reset();
    });
}
