// operation histories in, ndjson traces out
#ifndef VERIF_HIST_HPP
#define VERIF_HIST_HPP
#include "common.hpp"
namespace verif {
struct Op { std::string name, json; std::vector<long> a; std::vector<std::string> s; };
struct Hist { std::string id; int nr = 0; std::string head; std::vector<std::string> par; std::vector<Op> ops; };
// hist <id> <nr> <nops> <npar> <par...>\n  then per line: <op>\t<args, space separated>\t<json members>
inline std::vector<Hist> read_hists(const char *path) {
    std::vector<Hist> res;
    std::ifstream in(path);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string tok; Hist h; int nops, npar;
        is >> tok >> h.id >> h.nr >> nops >> npar;
        if (tok != "hist") { std::cerr << "bad history file\n"; std::exit(3); }
        for (int i = 0; i < npar; i++) { std::string p; is >> p; h.par.push_back(p); }
        for (int i = 0; i < nops; i++) {
            std::getline(in, line);
            std::size_t a = line.find('\t'), b = line.find('\t', a + 1);
            Op o; o.name = line.substr(0, a); o.json = line.substr(b + 1);
            std::istringstream as(line.substr(a + 1, b - a - 1)); std::string x;
            while (as >> x) { o.s.push_back(x); o.a.push_back(std::strtol(x.c_str(), nullptr, 10)); }
            h.ops.push_back(o);
        }
        res.push_back(h);
    }
    return res;
}
struct HTrace {
    std::ostringstream os; bool first = true;
    HTrace(const Hist &h) { os << "{\"id\":\"" << h.id << "\",\"n\":" << h.nr << ",\"ev\":["; }
    void ev(const Op &o, const std::string &members) { os << (first ? "" : ",") << "{\"op\":\"" << o.name << "\"" << (o.json.empty() ? "" : ",") << o.json << "," << members << "}"; first = false; }
    std::string str() const { return os.str() + "]}"; }
};
template<class F> int run_hists(int argc, char **argv, F f) {
    if (argc < 3) return 3;
    auto hs = read_hists(argv[1]);
    std::size_t skip = argc > 3 ? (std::size_t) std::atol(argv[3]) : 0;
    FILE *out = std::fopen(argv[2], skip ? "a" : "w");
    for (std::size_t i = skip; i < hs.size(); i++) {
        alarm(60);
        HTrace t(hs[i]);
        f(hs[i], t);
        leak_check();
        std::string s = t.str() + "\n";
        std::fwrite(s.data(), 1, s.size(), out);
        std::fflush(out);
    }
    std::fclose(out);
    return 0;
}
}
#endif
