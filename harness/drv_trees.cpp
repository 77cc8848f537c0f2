// Shortest path trees from every vertex.
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/sptrees.hpp>
using namespace verif;
#ifndef WT
#define WT double
#endif
typedef GraphOf<WT>::type Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef boost::property_map<Graph, boost::edge_weight_t>::type WMap;
int main(int argc, char **argv) {
    return run_cases(argc, argv, [&](const Case &c, Trace &t) {
        Built<Graph> b(c);
        WMap wm = boost::get(boost::edge_weight, b.g);
        auto index = boost::get(boost::vertex_index, b.g);
        std::vector<int> roots = c.ks;        // none: all
        if (roots.empty()) for (int r = 0; r < c.n; r++) roots.push_back(r);
        for (int r : roots) {
            parmcb::SPTree<Graph, WMap> tree((std::size_t) r, b.g, index, wm, (std::size_t) r);
            std::ostringstream os;
            os << "[";
            bool first = true;
            for (int v = 0; v < c.n; v++) {
                auto node = tree.node(v);
                if (!node) continue;
                Scaled s = scaled((double) node->weight(), c.den);
                os << (first ? "" : ",") << "[" << v << "," << (s.exact ? s.w : -1) << ","
                   << (v == r ? 0 : b(node->pred())) << "," << (v == r ? r : (long) tree.first(v)) << "]";
                first = false;
            }
            t.ev("Tree", kv("r", r) + ",\"nodes\":" + os.str() + "]");
        }
    });
}
