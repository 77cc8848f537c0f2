// Searches bidirectional_signed_dijkstra in the two ways the algorithms do, for support vectors of several kinds, with
// and without limits.  -DWT=double|int
#include "common.hpp"
#include <random>
#include <parmcb/config.hpp>
#include <parmcb/detail/signed_dijkstra.hpp>
using namespace verif;
#ifndef WT
#define WT double
#endif
typedef GraphOf<WT>::type Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef boost::property_map<Graph, boost::edge_weight_t>::type WMap;
typedef std::tuple<std::set<Edge>, WT, bool> Res;

int main(int argc, char **argv) {
    return run_cases(argc, argv, [&](const Case &c, Trace &t) {
        Built<Graph> b(c);
        WMap wm = boost::get(boost::edge_weight, b.g);
        unsigned seed = 17;
        for (char ch : c.id) seed = seed * 31 + (unsigned char) ch;
        std::mt19937 rng(seed);
        auto log = [&](const char *mode, int v, int e, const std::set<Edge> &hid, long lim, const Res &r) {
            t.ev("Search", kvs("mode", mode) + "," + kv("v", v) + "," + kv("e", e) + "," + kv("H", b.ids(hid)) + "," + kv("lim", lim) + ","
                    + kv("f", std::get<2>(r)) + "," + kv("c", b.ids(std::get<0>(r))) + "," + kvw("w", std::get<2>(r) ? (double) std::get<1>(r) : 0.0, c.den));
        };
        int sets = c.ks.empty() ? 2 : c.ks[0];
        for (int k = 0; k < sets && c.m > 0; k++) {
            std::set<Edge> s;
            int kind = (int) (rng() % 4);
            int take = kind == 0 ? 1 : kind == 1 ? 1 + (int) (rng() % std::min(4, c.m)) : (int) (rng() % (c.m + 1));
            for (int i = 0; i < take; i++) s.insert(b.edges[rng() % c.m]);
            if (kind == 3) s.insert(b.edges.begin(), b.edges.end());
            t.ev("Signed", kv("S", b.ids(s)));
            for (int mode = 0; mode < 2; mode++) {
                // the phase: the limit is the best so far
                Res best(std::set<Edge>(), (std::numeric_limits<WT>::max)(), false);
                std::set<Edge> hid(mode ? s : std::set<Edge>());
                auto it = s.begin();
                for (int i = 0; i < (mode ? (int) s.size() : c.n); i++) {
                    Res r;
                    long lim = std::get<2>(best) ? scaled((double) std::get<1>(best), c.den).w : 0;
                    // now and then any other limit, or none
                    long lim2 = rng() % 3 ? 0 : 1 + (long) (rng() % (lim ? 2 * lim : 40));
                    if (mode == 0) {
                        auto v = boost::vertex(i, b.g);
                        r = parmcb::bidirectional_signed_dijkstra(b.g, wm, s, hid, false, v, true, v, false, std::get<2>(best), std::get<1>(best));
                        log("v", i, 0, hid, lim, r);
                        auto r2 = parmcb::bidirectional_signed_dijkstra(b.g, wm, s, hid, false, v, true, v, false, lim2 != 0, value_of<WT>(lim2, c.den));
                        log("v", i, 0, hid, lim2, r2);
                    } else {
                        Edge e = *it++;
                        auto x = boost::source(e, b.g), y = boost::target(e, b.g);
                        r = parmcb::bidirectional_signed_dijkstra(b.g, wm, s, hid, true, x, true, y, true, std::get<2>(best), std::get<1>(best));
                        log("e", 0, b(e), hid, lim, r);
                        auto r2 = parmcb::bidirectional_signed_dijkstra(b.g, wm, s, hid, true, x, true, y, true, lim2 != 0, value_of<WT>(lim2, c.den));
                        log("e", 0, b(e), hid, lim2, r2);
                        hid.erase(e);
                        if (std::get<2>(r)) { std::get<1>(r) += wm[e]; std::get<0>(r).insert(e); }
                    }
                    if (std::get<2>(r) && (!std::get<2>(best) || std::get<1>(r) < std::get<1>(best))) best = r;
                }
                t.ev("Phase", kv("f", std::get<2>(best)) + "," + kv("c", b.ids(std::get<0>(best))) + "," + kvw("w", std::get<2>(best) ? (double) std::get<1>(best) : 0.0, c.den));
            }
        }
    });
}
