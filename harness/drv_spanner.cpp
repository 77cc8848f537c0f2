// The spanner the approximation algorithms work on, for every k of the case.
// With the accessors of PARMCB_VERIF; -DNOHOOK observes it through the exact algorithm parameter instead.
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/detail/approx_spanner.hpp>
using namespace verif;
#ifndef WT
#define WT double
#endif
typedef GraphOf<WT>::type Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef boost::property_map<Graph, boost::edge_weight_t>::type WMap;
typedef std::list<std::list<Edge>> Cycles;

struct Seen { std::size_t nv; std::vector<std::tuple<double, int, int>> e; };
static Seen seen;
struct Spy {   // stands in for the exact algorithm: hands out every spanner edge once, in order
    WT operator()(const Graph &s, const WMap &w, std::back_insert_iterator<Cycles> out) {
        seen = Seen(); seen.nv = boost::num_vertices(s);
        boost::graph_traits<Graph>::edge_iterator a, b;
        for (boost::tie(a, b) = boost::edges(s); a != b; ++a) {
            seen.e.push_back(std::make_tuple((double) w[*a], (int) boost::source(*a, s), (int) boost::target(*a, s)));
            *out++ = std::list<Edge>{*a};
        }
        return WT();
    }
};

int main(int argc, char **argv) {
    return run_cases(argc, argv, [&](const Case &c, Trace &t) {
        Built<Graph> b(c);
        WMap wm = boost::get(boost::edge_weight, b.g);
        for (int kk : c.ks) {
            std::size_t k = k_of(kk);
            parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WMap, Spy, false> algo(b.g, wm, boost::get(boost::vertex_index, b.g), k);
            std::ostringstream kept, dropped;
            std::size_t nv;
            kept << "["; dropped << "[";
            bool first = true;
            auto put = [&](int id, double w, int x, int y) {
                Scaled s = scaled(w, c.den);
                kept << (first ? "" : ",") << "[" << id << "," << (s.exact ? s.w : -1) << "," << x << "," << y << "]";
                first = false;
            };
#ifndef NOHOOK
            const Graph &s = algo.verif_spanner();
            auto sw = boost::get(boost::edge_weight, s);
            nv = boost::num_vertices(s);
            boost::graph_traits<Graph>::edge_iterator p, q;
            for (boost::tie(p, q) = boost::edges(s); p != q; ++p) {
                auto it = algo.verif_edge_spanner_to_g().find(*p);
                put(it == algo.verif_edge_spanner_to_g().end() ? 0 : b(it->second), (double) boost::get(sw, *p),
                        (int) boost::source(*p, s), (int) boost::target(*p, s));
            }
            first = true;
            for (auto &e : algo.verif_non_spanner_edges()) { dropped << (first ? "" : ",") << b(e); first = false; }
#else
            Cycles cycles;
            algo.run(std::back_inserter(cycles));
            nv = seen.nv;
            std::set<int> keptids;
            auto it = cycles.begin();
            for (std::size_t i = 0; i < seen.e.size() && it != cycles.end(); ++i, ++it) {
                int id = it->empty() ? 0 : b(it->front());
                keptids.insert(id);
                put(id, std::get<0>(seen.e[i]), std::get<1>(seen.e[i]), std::get<2>(seen.e[i]));
            }
            first = true;
            for (int i = 1; i <= c.m; i++) if (!keptids.count(i)) { dropped << (first ? "" : ",") << i; first = false; }
#endif
            t.ev("Spanner", kv("k", kk) + "," + kv("nv", (long) nv) + ",\"kept\":" + kept.str() + "],\"dropped\":" + dropped.str() + "]");
        }
    });
}
