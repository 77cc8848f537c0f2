// Runs entry points and logs Call / Emit* / Return (or Throw) for each.
// -DWT=double|int   weight type          -DAPPROX  the approximate entry points
// -DTBB             the *_tbb entry points  -DEXTW  weights in a map of the caller, graph property zero
#include "common.hpp"
#include <memory>
#ifdef TBB
#include <tbb/tbb.h>
#endif
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>

using namespace verif;
#ifndef WT
#define WT double
#endif
typedef GraphOf<WT>::type Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef std::list<std::list<Edge>> Cycles;

#ifdef EXTW
typedef std::map<Edge, WT> WStore;
typedef boost::const_associative_property_map<WStore> WMap;
#else
typedef boost::property_map<Graph, boost::edge_weight_t>::type WMap;
#endif

#include "weights.hpp"

#ifdef VERIF_TBB_HPP
// a schedule for every repetition of every call
static void prepare(const Case &c, const std::string &name, int rep) {
    auto &ctl = verif_sched::control();
    unsigned h = 2166136261u + (unsigned) rep * 977 + (unsigned) std::atol(envs("VERIF_SEED", "1").c_str()) * 7919;
    for (char ch : c.id + "/" + name) h = (h ^ (unsigned char) ch) * 16777619u;
    ctl.rng.seed(h);
    ctl.lib_percent = rep % 2 ? 20 : 100;
    ctl.preempt = rep % 4 >= 2 ? 2 + (int) (h % 200) : 0;
    if (!envs("VERIF_NOPREEMPT", "").empty()) ctl.preempt = 0;
    ctl.logging = !envs("VERIF_LOGREG", "").empty() && h % 4 == 0;
    ctl.log.clear();
}
static const int REPS = std::atoi(envs("VERIF_REPS", "4").c_str());
#else
static void prepare(const Case&, const std::string&, int) {}
static const int REPS = 1;
#endif

template<class F>
static void one(const Case &c, Trace &t, const Built<Graph> &b, const std::string &name, int k, F f) {
    t.ev("Call", kvs("alg", name) + "," + kv("k", k));
    Cycles cycles;
    std::string thrown;
    WT w = WT();
    try {
        w = f(std::back_inserter(cycles));
    } catch (const std::exception &e) {
        thrown = "std";
    } catch (...) {
        thrown = "other";
    }
#ifdef VERIF_TBB_HPP
    if (!verif_sched::control().log.empty()) t.raw(verif_sched::control().log);
    verif_sched::control().log.clear();
#endif
    auto wm = boost::get(boost::edge_weight, b.g);
    static const bool quiet = !envs("VERIF_QUIET", "").empty();
    if (!quiet) for (auto &cy : cycles) {
        // dereference the caller's map after the call returned
        std::string extra;
#ifndef EXTW
        double s = 0;
        for (auto &e : cy) s += (double) boost::get(wm, e);
        extra = "," + kvw("w", s / scale_of(c), c.den);
#else
        extra = ",\"w\":-1,\"x\":0,\"nr\":0";
#endif
        t.ev("Emit", kv("c", b.ids(cy)) + extra);
    }
    if (!thrown.empty()) t.ev("Throw", kvs("what", thrown));
    else t.ev("Return", kvw("w", (double) w / scale_of(c), c.den));
}

int main(int argc, char **argv) {
#ifdef VERIF_TBB_HPP
    if (!envs("VERIF_SCHEDLIB", "").empty() && !verif_sched::control().load(envs("VERIF_SCHEDLIB", "").c_str())) return 3;
#endif
#if defined(TBB) && !defined(VERIF_TBB_HPP)
    std::unique_ptr<tbb::global_control> gc;
    if (!envs("VERIF_WORKERS", "").empty())
        gc.reset(new tbb::global_control(tbb::global_control::max_allowed_parallelism, std::stoul(envs("VERIF_WORKERS", ""))));
#endif
    const std::string algs = envs("VERIF_ALGS", "signed,fvs,iso");
    return run_cases(argc, argv, [&](const Case &c, Trace &t) {
#ifdef EXTW
        Built<Graph> b(c, false);
        WStore store;
        for (int i = 0; i < c.m; i++) store[b.edges[i]] = value_of<WT>(c.w[i], c.den);
        WMap wm(store);
#else
        Built<Graph> b(c);
        WMap wm = boost::get(boost::edge_weight, b.g);
        reweigh(c, b, wm);
#endif
#define RUN(name, k, call) if (has(algs, name)) for (int rep = 0; rep < REPS; rep++) \
        prepare(c, name, rep), one(c, t, b, name, (int) k, [&](std::back_insert_iterator<Cycles> out) { return call; })
#ifndef APPROX
#ifndef TBB
        RUN("signed", 0, parmcb::mcb_sva_signed(b.g, wm, out));
        RUN("fvs", 0, parmcb::mcb_sva_fvs_trees(b.g, wm, out));
        RUN("iso", 0, parmcb::mcb_sva_iso_trees(b.g, wm, out));
#else
        RUN("signed", 0, parmcb::mcb_sva_signed_tbb(b.g, wm, out));
        RUN("fvs", 0, parmcb::mcb_sva_fvs_trees_tbb(b.g, wm, out));
        RUN("iso", 0, parmcb::mcb_sva_iso_trees_tbb(b.g, wm, out));
#endif
#else
        for (int kk : c.ks) {
            std::size_t k = k_of(kk);
#ifndef TBB
            RUN("asigned", kk, parmcb::approx_mcb_sva_signed(b.g, wm, k, out));
            RUN("afvs", kk, parmcb::approx_mcb_sva_fvs_trees(b.g, wm, k, out));
            RUN("aiso", kk, parmcb::approx_mcb_sva_iso_trees(b.g, wm, k, out));
#else
            RUN("asigned", kk, parmcb::approx_mcb_sva_signed_tbb(b.g, wm, k, out));
            RUN("afvs", kk, parmcb::approx_mcb_sva_fvs_trees_tbb(b.g, wm, k, out));
            RUN("aiso", kk, parmcb::approx_mcb_sva_iso_trees_tbb(b.g, wm, k, out));
#endif
        }
#endif
    });
}
