// The MPI entry points, for several process counts per graph.  ks = process counts.
// -DVERIF_REALMPI: run under mpirun, every rank calls with its own rank, rank 0 writes the traces (ks ignored).
// otherwise: over mpimock (every rank a forked process, this process is the switch)
#ifdef VERIF_REALMPI
#include <boost/mpi.hpp>
#endif
#include "common.hpp"
#ifndef VERIF_NOHEAP
#include "heap.hpp"
#else
namespace verif_heap { inline void seed(unsigned long) {} }
#endif
#include <memory>
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/mpi/parmcb_sva_signed.hpp>
#include <parmcb/mpi/parmcb_sva_trees.hpp>
#include <tbb/tbb.h>
#ifndef VERIF_REALMPI
#include <poll.h>
#include <sys/socket.h>
#include <sys/wait.h>
#endif
#include "weights.hpp"
using namespace verif;
#ifndef WT
#define WT double
#endif
typedef GraphOf<WT>::type Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef std::list<std::list<Edge>> Cycles;

static const char *ALGS[] = {"signed_mpi", "fvs_mpi", "fvs_tbb_mpi", "iso_mpi", "iso_tbb_mpi"};

struct Outcome { std::string events; int emitted = 0; std::string ended; };   // ended: returned / std / other

static Outcome call(const Case &c, const Built<Graph> &b, int alg, boost::mpi::communicator &world) {
    Outcome o;
    Cycles cycles;
    WT w = WT();
    auto wm = boost::get(boost::edge_weight, b.g);
    auto out = std::back_inserter(cycles);
    try {
        switch (alg) {
        case 0: w = parmcb::mcb_sva_signed_mpi(b.g, wm, out, world); break;
        case 1: w = parmcb::mcb_sva_fvs_trees_mpi(b.g, wm, out, world); break;
        case 2: w = parmcb::mcb_sva_fvs_trees_tbb_mpi(b.g, wm, out, world); break;
        case 3: w = parmcb::mcb_sva_iso_trees_mpi(b.g, wm, out, world); break;
        case 4: w = parmcb::mcb_sva_iso_trees_tbb_mpi(b.g, wm, out, world); break;
        }
        o.ended = "returned";
    } catch (const std::exception &e) {
        o.ended = "std";
    } catch (...) {
        o.ended = "other";
    }
    o.emitted = (int) cycles.size();
    Trace t(c);
    std::string s;
    for (auto &cy : cycles) s += ",{\"op\":\"Emit\"," + kv("c", b.ids(cy)) + ",\"w\":-1,\"x\":0,\"nr\":0}";
    if (o.ended == "returned") s += ",{\"op\":\"Return\"," + kvw("w", (double) w / scale_of(c), c.den) + "}";
    else s += ",{\"op\":\"Throw\"," + kvs("what", o.ended) + "}";
    o.events = s;
    return o;
}

static std::uint64_t heapseed(const Case &c, int rank, int size) {
    std::uint64_t h = 1469598103934665603ull + (std::uint64_t) std::atol(envs("VERIF_SEED", "1").c_str());
    for (char ch : c.id) h = (h ^ (unsigned char) ch) * 1099511628211ull;
    return h * 31 + (std::uint64_t) rank * 1000003 + (std::uint64_t) size;
}

static std::string ranks(int P, const std::vector<std::string> &seq, const std::vector<int> &emitted, const std::vector<std::string> &ended) {
    std::string s = "{\"op\":\"Ranks\"," + kv("P", P) + ",\"seq\":[";
    for (int r = 0; r < P; r++) s += std::string(r ? "," : "") + "\"" + seq[r] + "\"";
    s += "],\"emitted\":" + jarr(emitted) + ",\"ended\":[";
    for (int r = 0; r < P; r++) s += std::string(r ? "," : "") + "\"" + ended[r] + "\"";
    return s + "]}";
}

#ifdef VERIF_REALMPI
int main(int argc, char **argv) {
    boost::mpi::environment env(argc, argv);
    boost::mpi::communicator world;
    std::unique_ptr<tbb::global_control> gc(new tbb::global_control(tbb::global_control::max_allowed_parallelism, 2));
    auto cases = read_cases(argv[1]);
    FILE *out = world.rank() == 0 ? std::fopen(argv[2], "w") : nullptr;
    for (auto &c : cases) {
        alarm(25);
        verif_heap::seed(heapseed(c, world.rank(), world.size()));
        Built<Graph> b(c);
        reweigh(c, b, boost::get(boost::edge_weight, b.g));
        Trace t(c);
        for (int a = 0; a < 5; a++) {
            Outcome o = call(c, b, a, world);
            std::vector<int> em; std::vector<std::string> en;
            boost::mpi::gather(world, o.emitted, em, 0);
            boost::mpi::gather(world, o.ended, en, 0);
            if (world.rank() == 0)
                t.raw("{\"op\":\"Call\"," + kvs("alg", ALGS[a]) + ",\"k\":0}," + ranks(world.size(), std::vector<std::string>(world.size(), "?"), em, en) + o.events);
        }
        if (out) { std::string s = t.str(); std::fwrite(s.data(), 1, s.size(), out); std::fputc('\n', out); std::fflush(out); }
    }
    if (out) std::fclose(out);
    return 0;
}
#else
using verif_mpi::Frame;

static void child(const Case &c, int rank, int P, int fd, int first) {
    verif_mpi::self().rank = rank; verif_mpi::self().size = P; verif_mpi::self().fd = fd;
    verif_heap::seed(heapseed(c, rank, P));
    std::unique_ptr<tbb::global_control> gc(new tbb::global_control(tbb::global_control::max_allowed_parallelism, P <= 3 ? 2 : 1));
    Built<Graph> b(c);
    reweigh(c, b, boost::get(boost::edge_weight, b.g));
    boost::mpi::communicator world;
    for (int a = first; a < 5; a++) {
        Outcome o = call(c, b, a, world);
        verif_mpi::call('F', a, verif_mpi::join({std::to_string(o.emitted), o.ended, o.events}));
    }
    leak_check();
    _exit(0);
}

// runs the entry points from `first` on; returns the next one to run (5: all done)
static int session(const Case &c, Trace &t, int P, int first, std::mt19937 &rng) {
    std::vector<int> fd(P); std::vector<pid_t> pid(P);
    for (int r = 0; r < P; r++) {
        int s[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) { std::perror("socketpair"); std::exit(3); }
        fflush(nullptr);
        pid[r] = fork();
        if (pid[r] < 0) { std::perror("fork"); std::exit(3); }
        if (pid[r] == 0) {
            close(s[0]);
            for (int q = 0; q < r; q++) close(fd[q]);
            alarm(300);
            child(c, r, P, s[1], first);
        }
        close(s[1]); fd[r] = s[0];
    }
    int next = first;
    std::vector<std::string> seq(P);
    std::vector<Frame> pending(P); std::vector<bool> have(P, false);
    std::vector<std::pair<int, std::string>> mail;     // unreceived sends: dest*P+src
    std::string bad; int badrank = -1;
    auto push = [&](int r, const std::string &data) { have[r] = false; verif_mpi::put(fd[r], Frame{'.', 0, data}); };
    while (bad.empty() && next < 5) {
        // wait until every rank has something pending
        bool all = true;
        for (int r = 0; r < P; r++) all = all && have[r];
        if (!all) {
            std::vector<pollfd> pf; std::vector<int> who;
            for (int r = 0; r < P; r++) if (!have[r]) { pf.push_back(pollfd{fd[r], POLLIN, 0}); who.push_back(r); }
            int k = poll(pf.data(), pf.size(), 60000);
            if (k <= 0) { bad = "timeout"; badrank = who[0]; break; }
            for (std::size_t i = 0; i < pf.size() && bad.empty(); i++) if (pf[i].revents) {
                int r = who[i];
                if (!verif_mpi::get(fd[r], pending[r])) { bad = "died"; badrank = r; break; }
                have[r] = true;
                if (pending[r].kind != 'F' && pending[r].kind != '>' && pending[r].kind != '<') seq[r] += std::string(1, pending[r].kind) + std::to_string(pending[r].root) + " ";
                if (pending[r].kind == '>') { mail.push_back({pending[r].root * P + r, pending[r].data}); push(r, ""); }
            }
            continue;
        }
        // receives that can be answered
        bool moved = false;
        for (int r = 0; r < P; r++) if (have[r] && pending[r].kind == '<') {
            const std::string tag = pending[r].data;
            for (std::size_t i = 0; i < mail.size(); i++) {
                int src = mail[i].first % P, dest = mail[i].first / P;
                if (dest == r && (pending[r].root == src || pending[r].root < 0) && mail[i].second.compare(0, tag.size(), tag) == 0) {
                    std::string d = mail[i].second; mail.erase(mail.begin() + (long) i); push(r, d); moved = true; break;
                }
            }
        }
        if (moved) continue;
        char k = pending[0].kind; int root = pending[0].root;
        for (int r = 0; r < P; r++) if (pending[r].kind != k || pending[r].root != root) bad = "stuck";
        if (k == '<') bad = "stuck";
        if (k != 'F' && (root < 0 || root >= P)) bad = "stuck";
        if (!bad.empty()) break;
        if (k == 'F') {
            std::vector<int> em(P); std::vector<std::string> en(P);
            std::string events;
            for (int r = 0; r < P; r++) { auto v = verif_mpi::cut(pending[r].data); em[r] = std::atoi(v[0].c_str()); en[r] = v[1]; if (r == 0) events = v[2]; }
            t.raw("{\"op\":\"Call\"," + kvs("alg", ALGS[next]) + ",\"k\":0}," + ranks(P, seq, em, en) + events);
            for (auto &s : seq) s.clear();
            next++;
            for (int r = 0; r < P; r++) push(r, "");
            continue;
        }
        std::vector<std::string> parts(P);
        for (int r = 0; r < P; r++) parts[r] = pending[r].data;
        if (k == 'c' || k == 'C' || k == 'r' || k == 'R') {
            // an order for commutative operators, and a way to combine neighbours
            if (k == 'c' || k == 'C') std::shuffle(parts.begin(), parts.end(), rng);
            std::string plan;
            int style = (int) (rng() % 3);
            for (int left = P; left > 1; left--) plan += (char) (style == 0 ? 0 : style == 1 ? std::min(left - 2, 255) : (int) (rng() % 256));
            parts.push_back(plan);
        }
        std::string all_parts = verif_mpi::join(parts);
        for (int r = 0; r < P; r++) {
            switch (k) {
            case 'w': push(r, ""); break;
            case 'b': push(r, r == root ? std::string() : parts[root]); break;
            case 'c': case 'r': case 'g': push(r, r == root ? all_parts : std::string()); break;
            case 'C': case 'R': case 'G': push(r, all_parts); break;
            case 's': { auto v = verif_mpi::cut(parts[root]); push(r, v.at(r)); break; }
            default: bad = "stuck";
            }
        }
    }
    for (int r = 0; r < P; r++) close(fd[r]);
    if (!bad.empty()) for (int r = 0; r < P; r++) if (r != badrank || bad == "timeout") kill(pid[r], SIGKILL);
    int status = 0;
    for (int r = 0; r < P; r++) { int s; waitpid(pid[r], &s, 0); if (r == badrank) status = s; }
    if (!bad.empty()) {
        std::vector<std::string> at(P);
        for (int r = 0; r < P; r++) at[r] = seq[r] + (have[r] && pending[r].kind == 'F' ? "returned" : have[r] ? "waiting" : "computing");
        std::string s = "{\"op\":\"Call\"," + kvs("alg", ALGS[next]) + ",\"k\":0},{\"op\":\"Hang\"," + kv("P", P) + "," + kvs("what", bad) + "," + kv("rank", badrank) + "," + kv("status", status) + ",\"at\":[";
        for (int r = 0; r < P; r++) s += std::string(r ? "," : "") + "\"" + at[r] + "\"";
        t.raw(s + "]}");
        return 6;
    }
    return next;
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, [&](const Case &c, Trace &t) {
        std::mt19937 rng((unsigned) heapseed(c, 0, 0));
        // the process counts of the case, or of the environment where ks means something else
        std::vector<int> procs = c.ks;
        const std::string given = envs("VERIF_PROCS", "");
        if (!given.empty()) {
            std::istringstream in(given);
            procs.assign(1, 0);
            std::vector<int> all; int P; while (in >> P) all.push_back(P);
            procs[0] = all[(unsigned) heapseed(c, 0, 0) % all.size()];
        }
        for (int P : procs) { alarm(300); if (session(c, t, P, 0, rng) > 5) break; }
    });
}
#endif
