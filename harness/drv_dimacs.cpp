// read_dimacs_from_file on generated texts
#include "common.hpp"
#include "hist.hpp"
#include <parmcb/config.hpp>
#include <parmcb/util.hpp>
using namespace verif;
#ifdef LISTS
typedef boost::adjacency_list<boost::listS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> Graph;
#else
typedef GraphOf<double>::type Graph;
#endif
static std::string weight(double x) {
    double a = std::fabs(x);
    double ip = std::floor(a);
    double fp = std::nearbyint((a - ip) * 1e6);
    long i = -1, f = -1;
    if (std::isfinite(x) && ip < 1e9) {
        if (fp >= 1e6) { fp = 0; ip += 1; }
        if ((ip * 1e6 + fp) / 1e6 == a) { i = (long) ip; f = (long) fp; }
    }
    return "{\"s\":" + std::to_string(x > 0 ? 1 : x < 0 ? -1 : 0) + ",\"i\":" + std::to_string(i) + ",\"f\":" + std::to_string(f) + "}";
}
// ops: Line <codes...>, nonl (no newline after the last line), then read
int main(int argc, char **argv) {
    return run_hists(argc, argv, [&](const Hist &h, HTrace &t) {
        std::string text;
        bool final_nl = h.par.empty() || h.par[0] != "nonl";
        for (std::size_t i = 0; i < h.ops.size(); i++) {
            const Op &o = h.ops[i];
            std::string line;
            for (long c : o.a) line.push_back((char) c);
            text += line;
            if (i + 1 < h.ops.size() || final_nl) text += "\n";
            t.ev(o, kv("s", jarr(o.a)));
        }
        FILE *fp = std::tmpfile();
        std::fwrite(text.data(), 1, text.size(), fp);
        std::rewind(fp);
        Graph g;
        bool err = false;
        try { parmcb::read_dimacs_from_file(fp, g); } catch (const std::exception &) { err = true; }
        std::fclose(fp);
        Op r;
        if (err) { r.name = "Error"; t.ev(r, "\"what\":\"std\""); return; }
        r.name = "Graph";
        std::ostringstream es;
        auto wm = boost::get(boost::edge_weight, g);
        auto im = boost::get(boost::vertex_index, g);
        bool first = true;
        auto er = boost::edges(g);
        for (auto it = er.first; it != er.second; ++it) {
            es << (first ? "" : ",") << "[" << im[boost::source(*it, g)] + 1 << "," << im[boost::target(*it, g)] + 1 << "," << weight(boost::get(wm, *it)) << "]";
            first = false;
        }
        t.ev(r, kv("n", (long) boost::num_vertices(g)) + ",\"E\":[" + es.str() + "]");
    });
}
