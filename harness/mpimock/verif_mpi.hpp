// Included before everything else (-include).  boost::mpi::communicator and the collectives, over a message switch in
// the parent process instead of an MPI runtime: every rank is a forked process with its own heap, the switch sees the
// sequence of collectives of every rank, chooses the order in which a reduction combines the contributions, and
// knows exactly when the ranks can no longer proceed.
#ifndef VERIF_MPI_HPP
#define VERIF_MPI_HPP
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <numeric>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <boost/mpi.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/list.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/optional.hpp>

namespace verif_mpi {

// frames: kind, root, length, payload
struct Frame { char kind; int root; std::string data; };
inline bool wr(int fd, const void *p, std::size_t n) {
    const char *c = (const char*) p;
    while (n) { ssize_t k = ::write(fd, c, n); if (k <= 0) return false; c += k; n -= (std::size_t) k; }
    return true;
}
inline bool rd(int fd, void *p, std::size_t n) {
    char *c = (char*) p;
    while (n) { ssize_t k = ::read(fd, c, n); if (k <= 0) return false; c += k; n -= (std::size_t) k; }
    return true;
}
inline bool put(int fd, const Frame &f) {
    std::uint64_t len = f.data.size();
    std::int32_t root = f.root;
    return wr(fd, &f.kind, 1) && wr(fd, &root, 4) && wr(fd, &len, 8) && wr(fd, f.data.data(), f.data.size());
}
inline bool get(int fd, Frame &f) {
    std::uint64_t len; std::int32_t root;
    if (!rd(fd, &f.kind, 1) || !rd(fd, &root, 4) || !rd(fd, &len, 8)) return false;
    f.root = root; f.data.resize(len);
    return rd(fd, len ? &f.data[0] : nullptr, len);
}

struct Self { int rank = 0, size = 1, fd = -1; };
inline Self& self() { static Self s; return s; }

inline Frame call(char kind, int root, const std::string &data) {
    if (!put(self().fd, Frame{kind, root, data})) ::_exit(0);
    Frame r;
    if (!get(self().fd, r)) ::_exit(0);     // the switch ended the run
    return r;
}

template<class T> std::string pack(const T &x) {
    std::ostringstream os;
    { boost::archive::binary_oarchive a(os, boost::archive::no_header); a << x; }
    return os.str();
}
template<class T> void unpack(const std::string &s, T &x) {
    std::istringstream is(s);
    boost::archive::binary_iarchive a(is, boost::archive::no_header); a >> x;
}
// many strings in one
inline std::string join(const std::vector<std::string> &v) {
    std::string r;
    for (auto &s : v) { std::uint64_t n = s.size(); r.append((const char*) &n, 8); r += s; }
    return r;
}
inline std::vector<std::string> cut(const std::string &s) {
    std::vector<std::string> v;
    for (std::size_t i = 0; i + 8 <= s.size();) { std::uint64_t n; std::copy(s.begin() + (long) i, s.begin() + (long) i + 8, (char*) &n); v.push_back(s.substr(i + 8, n)); i += 8 + n; }
    return v;
}
} // namespace verif_mpi

namespace boost { namespace mpi {
class verif_communicator {
public:
    verif_communicator() {}
    int rank() const { return verif_mpi::self().rank; }
    int size() const { return verif_mpi::self().size; }
    void barrier() const { verif_mpi::call('w', 0, ""); }
    explicit operator bool() const { return true; }
    template<class T> void send(int dest, int tag, const T &x) const { verif_mpi::call('>', dest, verif_mpi::pack(tag) + verif_mpi::pack(x)); }
    template<class T> void recv(int src, int tag, T &x) const {
        std::string t = verif_mpi::pack(tag);
        x = T(); auto r = verif_mpi::call('<', src, t);
        verif_mpi::unpack(r.data.substr(t.size()), x);
    }
};
template<class T> void verif_broadcast(const verif_communicator &c, T &x, int root) {
    auto r = verif_mpi::call('b', root, c.rank() == root ? verif_mpi::pack(x) : std::string());
    if (c.rank() != root) verif_mpi::unpack(r.data, x);
}
template<class T> void verif_broadcast(const verif_communicator &c, T *x, int n, int root) {
    std::vector<T> v(x, x + n);
    verif_broadcast(c, v, root);
    if (c.rank() != root) std::copy(v.begin(), v.end(), x);
}
// data of a reply to a reduction: contributions in the order in which they are combined, and one byte per
// combination saying which two neighbours are combined next
template<class T, class Op> T verif_combine(const std::string &data, Op op) {
    auto parts = verif_mpi::cut(data);
    auto plan = parts.back(); parts.pop_back();
    std::vector<T> v(parts.size());
    for (std::size_t i = 0; i < parts.size(); i++) verif_mpi::unpack(parts[i], v[i]);
    for (unsigned char at : plan) {
        std::size_t i = at % (v.size() - 1);
        T r = op(v[i], v[i + 1]);
        v[i] = r;
        v.erase(v.begin() + (long) i + 1);
    }
    return v[0];
}
template<class T, class Op> void verif_reduce(const verif_communicator &c, const T &in, T &out, Op op, int root) {
    auto r = verif_mpi::call(is_commutative<Op, T>::value ? 'c' : 'r', root, verif_mpi::pack(in));
    if (c.rank() == root) out = verif_combine<T>(r.data, op);
}
template<class T, class Op> void verif_reduce(const verif_communicator &c, const T &in, Op op, int root) {
    verif_mpi::call(is_commutative<Op, T>::value ? 'c' : 'r', root, verif_mpi::pack(in));
    (void) c;
}
template<class T, class Op> void verif_all_reduce(const verif_communicator&, const T &in, T &out, Op op) {
    auto r = verif_mpi::call(is_commutative<Op, T>::value ? 'C' : 'R', 0, verif_mpi::pack(in));
    out = verif_combine<T>(r.data, op);
}
template<class T, class Op> T verif_all_reduce(const verif_communicator &c, const T &in, Op op) { T out; verif_all_reduce(c, in, out, op); return out; }
template<class T> void verif_scatter(const verif_communicator &c, const std::vector<T> &in, T &out, int root) {
    std::string s;
    if (c.rank() == root) {
        std::vector<std::string> v;
        for (auto &x : in) v.push_back(verif_mpi::pack(x));
        if ((int) v.size() < c.size()) { std::fprintf(stderr, "scatter of %d values to %d ranks\n", (int) v.size(), c.size()); std::abort(); }
        v.resize((std::size_t) c.size());
        s = verif_mpi::join(v);
    }
    auto r = verif_mpi::call('s', root, s);
    T fresh; verif_mpi::unpack(r.data, fresh); out = fresh;
}
template<class T> void verif_scatter(const verif_communicator &c, T &out, int root) { verif_scatter(c, std::vector<T>(), out, root); }
template<class T> void verif_gather(const verif_communicator &c, const T &in, std::vector<T> &out, int root) {
    auto r = verif_mpi::call('g', root, verif_mpi::pack(in));
    if (c.rank() == root) { auto p = verif_mpi::cut(r.data); out.assign(p.size(), T()); for (std::size_t i = 0; i < p.size(); i++) verif_mpi::unpack(p[i], out[i]); }
}
template<class T> void verif_gather(const verif_communicator &c, const T &in, int root) { std::vector<T> v; verif_gather(c, in, v, root); }
template<class T> void verif_all_gather(const verif_communicator&, const T &in, std::vector<T> &out) {
    auto r = verif_mpi::call('G', 0, verif_mpi::pack(in));
    auto p = verif_mpi::cut(r.data); out.assign(p.size(), T());
    for (std::size_t i = 0; i < p.size(); i++) verif_mpi::unpack(p[i], out[i]);
}
}} // namespace boost::mpi

#define communicator verif_communicator
#define broadcast verif_broadcast
#define reduce verif_reduce
#define all_reduce verif_all_reduce
#define scatter verif_scatter
#define gather verif_gather
#define all_gather verif_all_gather
#endif
