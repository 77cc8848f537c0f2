#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/detail/fvs.hpp>
using namespace verif;
typedef GraphOf<double>::type Graph;
int main(int argc, char **argv) {
    return run_cases(argc, argv, [&](const Case &c, Trace &t) {
        Built<Graph> b(c);
        std::vector<boost::graph_traits<Graph>::vertex_descriptor> out;
        parmcb::greedy_fvs(b.g, std::back_inserter(out));
        std::vector<long> r;
        for (auto v : out) r.push_back(v < 1000000 ? (long) v : -1);
        t.ev("FVS", kv("s", jarr(r)));
    });
}
