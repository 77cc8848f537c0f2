// Shared by every driver: cases in, ndjson traces out.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <unistd.h>

#include <boost/graph/adjacency_list.hpp>
#include <boost/property_map/property_map.hpp>

namespace verif {

struct Case {
    std::string id;
    int n = 0, m = 0;
    long den = 1;           // weight of an edge is wi / den; den = -1: see stretched()
    std::vector<int> ks;    // parameters (k values, roots ...), meaning depends on the driver
    std::vector<int> u, v;
    std::vector<long> w;
};

inline std::vector<Case> read_cases(const char *path) {
    std::vector<Case> res;
    std::ifstream in(path);
    std::string tok;
    while (in >> tok) {
        if (tok != "case") { std::cerr << "bad case file\n"; std::exit(3); }
        Case c;
        int nk;
        in >> c.id >> c.n >> c.m >> c.den >> nk;
        for (int i = 0; i < nk; i++) { int k; in >> k; c.ks.push_back(k); }
        for (int i = 0; i < c.m; i++) {
            int a, b; long w;
            in >> a >> b >> w;
            c.u.push_back(a); c.v.push_back(b); c.w.push_back(w);
        }
        res.push_back(c);
    }
    return res;
}

// ---------------------------------------------------------------- output
class Trace {
public:
    explicit Trace(const Case &c) {
        os << "{\"id\":\"" << c.id << "\",\"n\":" << c.n << ",\"den\":" << c.den << ",\"E\":[";
        for (int i = 0; i < c.m; i++)
            os << (i ? "," : "") << "[" << c.u[i] << "," << c.v[i] << "," << c.w[i] << "]";
        os << "],\"ev\":[";
    }
    // kv: already formatted JSON members, e.g. "\"w\":3"
    void ev(const std::string &op, const std::string &kv = "") {
        os << (first ? "" : ",") << "{\"op\":\"" << op << "\"" << (kv.empty() ? "" : ",") << kv << "}";
        first = false;
    }
    // already formatted events
    void raw(const std::string &evs) { os << (first ? "" : ",") << evs; first = false; }
    std::string str() const { return os.str() + "]}"; }
private:
    std::ostringstream os;
    bool first = true;
};

template<class It> std::string jarr(It b, It e) {
    std::ostringstream os;
    os << "[";
    for (It i = b; i != e; ++i) os << (i == b ? "" : ",") << *i;
    os << "]";
    return os.str();
}
template<class C> std::string jarr(const C &c) { return jarr(c.begin(), c.end()); }
inline std::string kv(const char *k, long v) { return std::string("\"") + k + "\":" + std::to_string(v); }
inline std::string kv(const char *k, const std::string &raw) { return std::string("\"") + k + "\":" + raw; }
inline std::string kvs(const char *k, const std::string &s) { return std::string("\"") + k + "\":\"" + s + "\""; }

// The integer wi with value == wi/den.  exact: value is that number as a double
// (the quotient rounded once); near: within 1e-9 relative.  TLC integers have 32 bits,
// anything that does not fit is reported as not near.
struct Scaled { long w; int exact, near; };
// den = -1: the number a * 2^14 + b stands for a * 2^42 + b, which orders sums in the same way, exactly in a double, but
// with relative differences of 1e-12
inline double stretched(long w) { return (double) (w >> 14) * 4398046511104.0 + (double) (w & 16383); }
// den = -S, S >= 8: the number a * 2^14 + b stands for a + b * 2^-S (near: what sums of inexact weights are judged by)
template<class W> W value_of(long w, long den) {
    if (den == -1) return (W) stretched(w);
    if (den < 0) return (W) ((double) (w >> 14) + std::ldexp((double) (w & 16383), (int) den));
    return (W) ((W) w / (W) den);
}
inline Scaled scaled(double x, long den) {
    Scaled s{-1, 0, 0};
    if (!(std::isfinite(x))) return s;
    if (den == -1) {
        double hi = std::floor(x / 4398046511104.0), lo = x - hi * 4398046511104.0;
        if (!(hi >= 0 && hi < 60000 && lo < 16384)) return s;
        s.w = (long) hi * 16384 + (long) std::nearbyint(lo);
        s.exact = s.near = (lo == std::nearbyint(lo));
        return s;
    }
    if (den < 0) {
        double z = std::ldexp(x, (int) -den), y = std::nearbyint(z), hi = std::floor(std::ldexp(y, (int) den)), lo = y - std::ldexp(hi, (int) -den);
        if (!(hi >= 0 && hi < 60000 && lo < 16384)) return s;
        s.w = (long) hi * 16384 + (long) lo;
        s.exact = z == y;
        s.near = std::fabs(z - y) <= 1e-9 * y;
        return s;
    }
    double y = std::nearbyint(x * (double) den);
    if (!(std::fabs(y) < 1.0e9)) return s;
    s.w = (long) y;
    double r = (double) s.w / (double) den;
    s.exact = (r == x);
    s.near = (std::fabs(r - x) <= 1e-9 * std::fabs(r));
    return s;
}
inline std::string kvw(const char *k, double x, long den) {
    Scaled s = scaled(x, den);
    return kv(k, s.w) + ",\"x\":" + std::to_string(s.exact) + ",\"nr\":" + std::to_string(s.near);
}

// ---------------------------------------------------------------- graphs
template<class W> struct GraphOf {
    typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property,
            boost::property<boost::edge_weight_t, W>> type;
};

template<class Graph> struct Built {
    typedef typename boost::graph_traits<Graph>::edge_descriptor Edge;
    Graph g;
    std::map<Edge, int> id;      // 1-based position in the case
    std::vector<Edge> edges;

    explicit Built(const Case &c, bool fill = true) : g(c.n) {
        typedef typename boost::property_traits<
                typename boost::property_map<Graph, boost::edge_weight_t>::type>::value_type W;
        auto wm = boost::get(boost::edge_weight, g);
        for (int i = 0; i < c.m; i++) {
            Edge e = boost::add_edge(c.u[i], c.v[i], g).first;
            wm[e] = fill ? value_of<W>(c.w[i], c.den) : (W) 0;
            edges.push_back(e);
        }
        for (int i = 0; i < c.m; i++) id[edges[i]] = i + 1;
    }
    // 0 when the descriptor does not name an edge of this graph
    int operator()(const Edge &e) const {
        auto it = id.find(e);
        if (it == id.end()) return 0;
        const Edge &o = it->first;
        bool same = (o.m_source == e.m_source && o.m_target == e.m_target)
                || (o.m_source == e.m_target && o.m_target == e.m_source);
        return same ? it->second : 0;
    }
    template<class C> std::string ids(const C &cyc) const {
        std::vector<int> r;
        for (auto it = cyc.begin(); it != cyc.end(); ++it) r.push_back((*this)(*it));
        return jarr(r);
    }
};

// leaks are reported with the case they belong to, where the sanitizer can do that
#if defined(__SANITIZE_ADDRESS__)
} extern "C" int __lsan_do_recoverable_leak_check(); namespace verif {
inline void leak_check() { static const bool on = std::getenv("VERIF_LSAN") != nullptr; if (on && __lsan_do_recoverable_leak_check()) _exit(67); }
#else
inline void leak_check() {}
#endif

// ---------------------------------------------------------------- main loop
// Calls f(case, trace) for every case from argv[3] on; every finished case is one line.
// "START id" on the progress file tells the orchestrator which case a crash belongs to.
template<class F> int run_cases(int argc, char **argv, F f) {
    if (argc < 3) { std::cerr << "usage: drv cases out [skip]\n"; return 3; }
    auto cases = read_cases(argv[1]);
    std::size_t skip = argc > 3 ? (std::size_t) std::atol(argv[3]) : 0;
    FILE *out = std::fopen(argv[2], skip ? "a" : "w");
    unsigned limit = std::getenv("VERIF_CASE_TIMEOUT") ? (unsigned) std::atoi(std::getenv("VERIF_CASE_TIMEOUT")) : 60;
    for (std::size_t i = skip; i < cases.size(); i++) {
        alarm(limit);
        Trace t(cases[i]);
        f(cases[i], t);
        leak_check();
        std::string s = t.str();
        std::fwrite(s.data(), 1, s.size(), out);
        std::fputc('\n', out);
        std::fflush(out);
    }
    alarm(0);
    std::fclose(out);
    return 0;
}

// k of an approximation: -1, -2, ... are the largest there are, -(1000 e + d) is 2^e + d
inline std::size_t k_of(int k) {
    if (k >= 0) return (std::size_t) k;
    if (k > -1000) return (std::numeric_limits<std::size_t>::max)() - (std::size_t) (-k - 1);
    return ((std::size_t) 1 << (-k / 1000)) + (std::size_t) (-k % 1000);
}

inline bool has(const std::string &list, const std::string &x) {
    return ("," + list + ",").find("," + x + ",") != std::string::npos;
}
inline std::string envs(const char *k, const char *d) { const char *v = std::getenv(k); return v ? v : d; }

} // namespace verif
#endif
