// -DEXPO, -DINEXACT: weights that are not simply wi / den
#ifndef VERIF_WEIGHTS_HPP
#define VERIF_WEIGHTS_HPP
#include "common.hpp"
using namespace verif;
#ifdef INEXACT
// C09: the weight of an edge is the double nearest to w * unit, moved by a few units in the last place (or by a small
// relative amount), so that sums are not exact and equal paths are only nearly equal.  ks = [unit, jitter].
static double unit_of(int k) {
    static const double t[] = {0.1, 0.01, 0.001, 1.0 / 3, 1.0 / 7, 0.7, 3.14159265358979323846 / 100, 1.1, 2.718281828459045 / 1000};
    return t[k];
}
static double scale_of(const Case &c) { return unit_of(c.ks[0]); }
static double jitter(const Case &c, int i, double x) {
    unsigned h = (unsigned) (c.u[i] * 7919 + c.v[i] * 104729 + c.w[i] * 31 + i * 1299709 + 12345);
    h ^= h >> 13; h *= 2654435761u; h ^= h >> 16;
    int s = (int) (h % 7) - 3;
    if (c.ks[1] == 1) for (int j = 0; j < std::abs(s); j++) x = std::nextafter(x, s > 0 ? 1e9 : 0);
    if (c.ks[1] == 2) x *= 1 + s * 1e-13;
    if (c.ks[1] == 3) x *= 1 + s * 1e-11;
    return x;
}
#else
#ifdef EXPO
// C08: all weights times 2^ks[0]
static double scale_of(const Case &c) { return std::ldexp(1.0, c.ks[0]); }
#else
static double scale_of(const Case &) { return 1; }
#endif
#endif
template<class B, class M> void reweigh(const Case &c, const B &b, M wm) {
    (void) c; (void) b; (void) wm;
#ifdef EXPO
    for (int i = 0; i < c.m; i++) boost::put(wm, b.edges[i], std::ldexp((double) c.w[i] / (double) c.den, c.ks[0]));
#endif
#ifdef INEXACT
    for (int i = 0; i < c.m; i++) boost::put(wm, b.edges[i], jitter(c, i, value_of<double>(c.w[i], c.den) * unit_of(c.ks[0])));
#endif
}
#endif
