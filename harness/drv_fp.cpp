// fp, primes and SpVecFP: replays operation histories, logs results as base 1000 numbers.
#include "common.hpp"
#include "hist.hpp"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/cpp_int/serialize.hpp>
#include <memory>
namespace mp = boost::multiprecision;
#ifndef PT
#define PT int
#endif
typedef PT P;
namespace boost { namespace serialization {
template<class A> void serialize(A &ar, boost::tuple<std::size_t, P> &t, const unsigned) { ar & boost::get<0>(t); ar & boost::get<1>(t); }
} }
#include <parmcb/config.hpp>
#include <parmcb/arithmetic.hpp>
#include <parmcb/fp.hpp>
#include <parmcb/spvecfp.hpp>
using namespace verif;
#ifndef BASEIDX
#define BASEIDX 0
#endif
typedef parmcb::SpVecFP<P> V;

static P parse(const std::string &s) { return static_cast<P>(mp::cpp_int(s)); }
static std::string big(const P &v) {
    mp::cpp_int x(v);
    std::ostringstream os;
    os << "[" << (x < 0 ? -1 : x > 0 ? 1 : 0);
    if (x < 0) x = -x;
    while (x > 0) { os << "," << (x % 1000); x /= 1000; }
    os << "]";
    return os.str();
}
static long down(std::size_t u) { long d = (long) (u - (std::size_t) (BASEIDX)); return d >= 0 && d < 1000000000L ? d : -7; }

int main(int argc, char **argv) {
    return run_hists(argc, argv, [&](const Hist &h, HTrace &t) {
        std::vector<std::unique_ptr<V>> R;
        for (int i = 0; i <= h.nr; i++) R.emplace_back(new V());
        for (const Op &o : h.ops) {
            if (o.name == "gcd") {
                P a = parse(o.s[0]), b = parse(o.s[1]), x = 77, y = 55;
                P g = parmcb::fp<P>::ext_gcd(a, b, x, y);
                t.ev(o, kv("g", big(g)) + "," + kv("x", big(x)) + "," + kv("y", big(y)));
                continue;
            }
            if (o.name == "inv") {
                P a = parse(o.s[0]), p = parse(o.s[1]), r = 0;
                int threw = 0;
                try { r = parmcb::fp<P>::get_mult_inverse(a, p); } catch (const std::exception &) { threw = 1; r = 0; }
                t.ev(o, kv("r", big(r)) + "," + kv("threw", (long) threw));
                continue;
            }
            if (o.name == "prime") {
                P p = parse(o.s[0]);
                t.ev(o, kv("res", (long) (parmcb::primes<P>::is_prime(p) ? 1 : 0)));
                continue;
            }
            P res = 0;
            auto A = [&](int k) { return (int) o.a[k]; };
            if (o.name == "new") R[A(0)].reset(new V(parse(o.s[1])));
            else if (o.name == "newdef") R[A(0)].reset(new V());
            else if (o.name == "unit") *R[A(0)] = (std::size_t) ((std::size_t) o.a[1] + (std::size_t) (BASEIDX));
            else if (o.name == "copy") { std::unique_ptr<V> x(new V(*R[A(1)])); R[A(0)] = std::move(x); }
            else if (o.name == "move") { std::unique_ptr<V> x(new V(std::move(*R[A(1)]))); R[A(0)] = std::move(x); }
            else if (o.name == "asg") *R[A(0)] = *R[A(1)];
            else if (o.name == "masg") *R[A(0)] = std::move(*R[A(1)]);
            else if (o.name == "plus") *R[A(0)] = *R[A(1)] + *R[A(2)];
            else if (o.name == "pluseq") *R[A(0)] += *R[A(1)];
            else if (o.name == "scale") *R[A(0)] = *R[A(1)] * parse(o.s[2]);
            else if (o.name == "scaleeq") *R[A(0)] *= parse(o.s[1]);
            else if (o.name == "clear") R[A(0)]->clear();
            else if (o.name == "dot") res = *R[A(0)] * *R[A(1)];
            else if (o.name == "ser") {
                std::stringstream ss;
                { boost::archive::text_oarchive oa(ss); const V &src = *R[A(1)]; oa << src; }
                V back; back = (std::size_t) 5;
                { boost::archive::text_iarchive ia(ss); ia >> back; }
                *R[A(0)] = back;
            } else { std::cerr << "unknown op " << o.name << "\n"; std::exit(3); }
            std::ostringstream after;
            after << "[";
            for (int i = 1; i <= h.nr; i++) {
                after << (i > 1 ? "," : "") << "{\"p\":" << big(R[i]->prime()) << ",\"size\":" << R[i]->size() << ",\"v\":[";
                bool first = true;
                for (auto it = R[i]->begin(); it != R[i]->end(); ++it) {
                    after << (first ? "" : ",") << "[" << down(boost::get<0>(*it)) << "," << big(boost::get<1>(*it)) << "]";
                    first = false;
                }
                after << "]}";
            }
            t.ev(o, kv("res", big(res)) + ",\"after\":" + after.str() + "]");
        }
    });
}
