// The three candidate collections, every candidate unfolded through its tree.
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/sptrees.hpp>
#include <parmcb/detail/fvs.hpp>
#include <parmcb/detail/cycles.hpp>
using namespace verif;
#ifndef WT
#define WT double
#endif
typedef GraphOf<WT>::type Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef boost::property_map<Graph, boost::edge_weight_t>::type WMap;
typedef parmcb::SPTree<Graph, WMap> Tree;
typedef parmcb::CandidateCycle<Graph, WMap> Cand;

static std::string path(const Built<Graph> &b, Tree &tree, std::size_t v, int limit) {
    std::vector<int> r;
    while (v != tree.source() && limit-- > 0) {
        auto node = tree.node(v);
        if (!node) { r.push_back(0); break; }
        Edge e = node->pred();
        r.push_back(b(e));
        if (boost::source(e, b.g) != v && boost::target(e, b.g) != v) { r.push_back(0); break; }
        v = boost::source(e, b.g) == v ? boost::target(e, b.g) : boost::source(e, b.g);
    }
    return jarr(r);
}
template<class B> static void collect(const Case &c, Trace &t, const Built<Graph> &b, const WMap &wm, const char *name) {
    std::vector<Tree> trees;
    std::vector<Cand> cycles;
    B()(b.g, wm, trees, cycles);
    t.ev("Begin", kvs("coll", name));
    for (auto &cc : cycles) {
        if (cc.tree() >= trees.size()) { t.ev("Cand", "\"r\":-1,\"e\":0,\"w\":-1,\"p\":[],\"q\":[]"); continue; }
        Tree &tree = trees[cc.tree()];
        Scaled s = scaled((double) cc.weight(), c.den);
        t.ev("Cand", kv("r", (long) tree.source()) + "," + kv("e", b(cc.edge())) + "," + kv("w", s.exact ? s.w : -1) + ","
                + kv("p", path(b, tree, boost::source(cc.edge(), b.g), c.n + 1)) + ","
                + kv("q", path(b, tree, boost::target(cc.edge(), b.g), c.n + 1)));
    }
    t.ev("End");
}
int main(int argc, char **argv) {
    return run_cases(argc, argv, [&](const Case &c, Trace &t) {
        Built<Graph> b(c);
        WMap wm = boost::get(boost::edge_weight, b.g);
        collect<parmcb::detail::HortonCyclesBuilder<Graph, WMap>>(c, t, b, wm, "horton");
        collect<parmcb::detail::FVSCyclesBuilder<Graph, WMap>>(c, t, b, wm, "fvs");
        collect<parmcb::detail::ISOCyclesBuilder<Graph, WMap>>(c, t, b, wm, "iso");
    });
}
