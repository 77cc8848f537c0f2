// Replays operation histories on SpVecGF2 objects and logs what every object lists after each operation.
#include "common.hpp"
#include "hist.hpp"
#include <sstream>
#include <memory>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <parmcb/config.hpp>
#include <parmcb/spvecgf2.hpp>
using namespace verif;
#ifndef UT
#define UT std::size_t
#endif
#ifndef BASE
#define BASE 0
#endif
typedef UT U;
typedef parmcb::SpVecGF2<U> V;
static U up(long i) { return (U) (i + (long) (BASE)); }
static long down(U u) { long d = (long) u - (long) (BASE); return d >= 0 && d < 1000000000L ? d : -7; }

int main(int argc, char **argv) {
    return run_hists(argc, argv, [&](const Hist &h, HTrace &t) {
        std::vector<std::unique_ptr<V>> R;
        for (int i = 0; i <= h.nr; i++) R.emplace_back(new V());
        for (const Op &o : h.ops) {
            long res = 0;
            auto A = [&](int k) { return (int) o.a[k]; };
            std::set<U> S;
            if (o.name == "set" || o.name == "dots") for (std::size_t k = 1; k < o.a.size(); k++) S.insert(up(o.a[k]));
            if (o.name == "new") R[A(0)].reset(new V());
            else if (o.name == "unit") R[A(0)].reset(new V(up(o.a[1])));
            else if (o.name == "set") R[A(0)].reset(new V(S));
            else if (o.name == "copy") { std::unique_ptr<V> x(new V(*R[A(1)])); R[A(0)] = std::move(x); }
            else if (o.name == "move") { std::unique_ptr<V> x(new V(std::move(*R[A(1)]))); R[A(0)] = std::move(x); }
            else if (o.name == "asg") *R[A(0)] = *R[A(1)];
            else if (o.name == "masg") *R[A(0)] = std::move(*R[A(1)]);
            else if (o.name == "plus") *R[A(0)] = *R[A(1)] + *R[A(2)];
            else if (o.name == "pluseq") *R[A(0)] += *R[A(1)];
            else if (o.name == "append") R[A(0)]->add(up(o.a[1]));
            else if (o.name == "clear") R[A(0)]->clear();
            else if (o.name == "dot") res = *R[A(0)] * *R[A(1)];
            else if (o.name == "dots") res = *R[A(0)] * S;
            else if (o.name == "ser") {
                std::stringstream ss;
                { boost::archive::text_oarchive oa(ss); const V &src = *R[A(1)]; oa << src; }
                V back; back.add(up(0));
                { boost::archive::text_iarchive ia(ss); ia >> back; }
                *R[A(0)] = back;
            } else { std::cerr << "unknown op " << o.name << "\n"; std::exit(3); }
            std::ostringstream after, size;
            after << "["; size << "[";
            for (int i = 1; i <= h.nr; i++) {
                std::vector<long> is;
                for (auto it = R[i]->begin(); it != R[i]->end(); ++it) is.push_back(down(*it));
                after << (i > 1 ? "," : "") << jarr(is);
                size << (i > 1 ? "," : "") << R[i]->size();
            }
            t.ev(o, kv("res", res) + ",\"after\":" + after.str() + "],\"size\":" + size.str() + "]");
        }
    });
}
