"""C12: shortest path trees."""
from vlib import *
from props import parts
import graphs, random
def cases_for(seed, k):
    rnd = random.Random(seed)
    cases = graphs.exact_cases(seed, k, atlas_n=6, atlas_sample=400, maxn=14, wk=['unit', 'unit', 'unit', 'one2', 'one2', 'one3', 'to5', 'to10', 'pow2', 'big'])
    for i in range(k // 4):
        g = rnd.choice([lambda: graphs.hypercube(4), lambda: graphs.grid(rnd.randint(3, 5), rnd.randint(3, 5)), lambda: graphs.torus(rnd.randint(3, 4), rnd.randint(3, 5)),
                        lambda: graphs.bipartite(rnd.randint(3, 6), rnd.randint(3, 6)), lambda: graphs.gnm(rnd, rnd.randint(15, 24), rnd.randint(20, 60)),
                        lambda: graphs.gpetersen(rnd.randint(5, 9), rnd.randint(1, 2)), lambda: graphs.theta([rnd.randint(2, 5) for _ in range(5)])])()
        n, E = graphs.shuffle(rnd, g[0], graphs.weights(rnd, g[1], rnd.choice(['unit', 'unit', 'one2', 'one3', 'pow2'])))
        cases.append(graphs.Case('t%d' % i, n, E, rnd.choice([1, 1, 2, 1024])))
    return cases
def long_cases(rnd, k):
    """ties between paths of hundreds of hops: two routes of equal weight and nearly equal length, with tails; ladders; cycles"""
    res = []
    for i in range(k):
        h = rnd.choice([125, 126, 127, 128, 250, 253, 254, 255, 256, 257]) - rnd.randint(0, 6) if i % 3 else 255 - rnd.randint(0, 5)
        d = rnd.randint(1, 12)
        if i % 5 == 4:
            n, E = graphs.ladder(rnd.randint(90, 150)); E = [e + (1,) for e in E]; tails = []
            roots = rnd.sample(range(n), 12)
        else:
            W = 2 * h + 40
            route = lambda hops, first: [1] * (hops - 1) + [W - hops + 1] if first else [W - hops + 1] + [1] * (hops - 1)
            E, n, a, b = [], 2, 0, 1
            for hops in (h, h + d):
                ws = route(hops, rnd.random() < .5); u = a
                for j, w in enumerate(ws):
                    v = b if j == hops - 1 else n
                    if v == n: n += 1
                    E.append((u, v, w)); u = v
            roots = [a, b]
            for end in (a, b):
                u = end
                for _ in range(rnd.randint(8, 14)):
                    E.append((u, n, rnd.choice([1, 1, 2]))); u = n; n += 1
                    if rnd.random() < .6: roots.append(u)
        p = list(range(n)); rnd.shuffle(p)
        E = [(p[u], p[v], w) if rnd.random() < .5 else (p[v], p[u], w) for u, v, w in E]; rnd.shuffle(E)
        res.append(graphs.Case('L%d' % i, n, E, 1, sorted({p[r] for r in roots})))
    return res
def main(ctx):
    exes = parallel([lambda: cxx(ctx, 'drv_trees.cpp', 'tr_d'), lambda: cxx(ctx, 'drv_trees.cpp', 'tr_i', defs=['WT=int'])])
    d = 'SPECIFICATION Spec\nCONSTANTS N = %d W = %d\nINVARIANTS Exact Consistent Settled\n'
    tlc_model(ctx, 'MC_LexTrees', d % (4, 2), deadlock=False, expect_min=5000)
    if THOROUGH: tlc_model(ctx, 'MC_LexTrees', d % (5, 1), deadlock=False, timeout=3000)
    filt = lambda lb, c: c.den == 1 if lb == 'i' else True
    # the int trees are validated as traces of their own: roots may not repeat within a trace
    for lb, exe in zip('di', exes):
        cs = [c for c in cases_for(SEED, 3000 if THOROUGH else 700) if filt(lb, c)]
        parts.simple(ctx, None, 'TraceLexTrees', cs, 2, 'C12', exes={lb: exe})
    rnd = random.Random(SEED + 5)
    parts.simple(ctx, None, 'TraceLongTrees', long_cases(rnd, 80 if THOROUGH else 16), 1, 'C12.long', exes={'d': exes[0]})
