// has_loops, has_multiple_edges, has_non_positive_weights on multigraphs; the weight code of an edge stands for a special value
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/util.hpp>
using namespace verif;
template<class W> static W value(long code);
template<> double value<double>(long code) {
    switch (code) {
    case 0: return 0.0; case -1: return -1.0; case -2: return -5e-324; case -3: return -0.0; case -4: return -1e300; case -5: return -0.25;
    case 1: return 1.0; case 2: return 1e-300; case 3: return 5e-324; case 4: return 1e300; case 5: return 0.25; default: return (double) code;
    }
}
template<> int value<int>(long code) { return code == -3 ? 0 : (int) code; }
template<class W> static void go(const Case &c, Trace &t) {
    typedef typename GraphOf<W>::type Graph;
    Graph g(c.n);
    auto wm = boost::get(boost::edge_weight, g);
    std::map<typename boost::graph_traits<Graph>::edge_descriptor, W> own;
    for (int i = 0; i < c.m; i++) {
        auto e = boost::add_edge(c.u[i], c.v[i], g).first;
        wm[e] = value<W>(c.w[i]);
    }
    t.ev("Loops", kv("r", (long) parmcb::has_loops(g)));
    t.ev("Multi", kv("r", (long) parmcb::has_multiple_edges(g)));
    t.ev("NonPos", kv("r", (long) parmcb::has_non_positive_weights(g, wm)));
    t.ev("NonPos", kv("r", (long) parmcb::has_non_positive_weights(g, boost::get(boost::edge_weight, (const Graph &) g))));
}
int main(int argc, char **argv) {
    return run_cases(argc, argv, [&](const Case &c, Trace &t) { go<double>(c, t); go<int>(c, t); });
}
