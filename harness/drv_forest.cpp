// ForestIndex of every case: both lookups, forest membership, dimension, components; copy and assignment too.
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/forestindex.hpp>
using namespace verif;
typedef GraphOf<double>::type Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;

static void report(const Case &c, Trace &t, const Built<Graph> &b, const parmcb::ForestIndex<Graph> &f, const char *how) {
    std::vector<long> idx, back, on;
    bool swapped = false;
    for (auto &e : b.edges) {
        idx.push_back((long) f(e));
        on.push_back(f.is_on_forest(e) ? 1 : 0);
    }
    for (std::size_t i = 0; i < (std::size_t) c.m; i++) back.push_back(b(f(i)));
    (void) swapped;
    t.ev("Index", kvs("how", how) + "," + kv("dim", (long) f.cycle_space_dimension()) + ","
            + kv("comp", (long) f.weak_connected_components()) + "," + kv("idx", jarr(idx)) + "," + kv("back", jarr(back)) + ","
            + kv("on", jarr(on)));
}
int main(int argc, char **argv) {
    return run_cases(argc, argv, [&](const Case &c, Trace &t) {
        Built<Graph> b(c);
        parmcb::ForestIndex<Graph> f(b.g);
        report(c, t, b, f, "new");
        parmcb::ForestIndex<Graph> copy(f);
        report(c, t, b, copy, "copy");
        Graph other(3);
        boost::add_edge(0, 1, other); boost::add_edge(1, 2, other); boost::add_edge(0, 2, other);
        parmcb::ForestIndex<Graph> assigned(other);
        assigned = f;
        assigned = *&assigned;
        report(c, t, b, assigned, "assigned");
        // descriptors obtained from the other end name the same edge
        std::vector<long> rev;
        for (auto &e : b.edges) rev.push_back((long) f(boost::edge(boost::target(e, b.g), boost::source(e, b.g), b.g).first));
        t.ev("Reversed", kv("idx", jarr(rev)));
    });
}
