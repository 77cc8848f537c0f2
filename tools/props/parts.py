"""Component builders: helpers."""
from vlib import *
import graphs, random, itertools

def shapes(seed, k):
    """unweighted graphs: every atlas graph (7 vertices), every labelled graph on 4, random labelled graphs, larger ones"""
    rnd = random.Random(seed)
    cases = graphs.exact_cases(seed, k // 3, atlas_n=6, atlas_sample=500, maxn=16)
    P = list(itertools.combinations(range(4), 2))
    for mask in range(64):
        cases.append(graphs.Case('l4_%d' % mask, 4, [p + (1,) for i, p in enumerate(P) if mask >> i & 1]))
    P = list(itertools.combinations(range(5), 2))
    for mask in (range(1024) if THOROUGH else rnd.sample(range(1024), 300)):
        E = [p + (1,) for i, p in enumerate(P) if mask >> i & 1]
        rnd.shuffle(E)
        cases.append(graphs.Case('l5_%d' % mask, 5, E))
    for i in range(k // 2):
        g = rnd.choice([lambda: graphs.gnm(rnd, rnd.randint(10, 40), rnd.randint(5, 70)), lambda: graphs.cactus(rnd, rnd.randint(2, 12)),
                        lambda: graphs.pendant(rnd, graphs.gnp(rnd, rnd.randint(3, 12), .4), rnd.randint(1, 20)),
                        lambda: graphs.union(*[graphs.small_random(rnd, 8) for _ in range(rnd.randint(2, 5))]),
                        lambda: graphs.tree(rnd, rnd.randint(1, 30)), lambda: graphs.gnp(rnd, rnd.randint(5, 18), rnd.random()),
                        lambda: graphs.gluecycles(rnd, rnd.randint(2, 12))])()
        n, E = graphs.shuffle(rnd, g[0], graphs.weights(rnd, g[1], 'unit'))
        cases.append(graphs.Case('p%d' % i, n, E))
    return cases

def simple(ctx, driver, spec, cases, per_trace, label, defs=(), exes=None, filt=None, **kw):
    """one driver (or several variants), one trace specification"""
    from props import mcb
    if exes is None: exes = {'d': cxx(ctx, driver, 'drv_' + label, defs=defs)}
    byid = {c.id: c for c in cases}
    go = lambda cs: mcb.run_all(ctx, exes, cs, filt)
    traces = go(cases)
    for t in traces: ctx.cov['max_m'] = max(ctx.cov.get('max_m', 0), len(t['E']))
    log('drivers done: %d traces' % len(traces))
    ctx.add('graphs', len(cases)); ctx.add('events', sum(len(t['ev']) for t in traces))
    ctx.add('max_n', max(c.n for c in cases)); ctx.add('forests', sum(1 for c in cases if c.dim() == 0))
    for t in traces[5::max(1, len(traces) // 3)]:
        ctx.sample({'id': t['id'], 'n': t['n'], 'E': t['E'], 'events': t['ev'][:2]})
    check_traces(ctx, spec, 'SPECIFICATION TSpec\n', traces, lambda i: go([byid[i]])[0], label, per_trace=per_trace, **kw)

def wide_shapes(rnd):
    """vertices of large degree, long paths and cycles, many components: quantities that do not fit a byte"""
    res = []
    def add(n, E):
        n, E = graphs.shuffle(rnd, n, [(u, v, 1) for u, v in E])
        res.append(graphs.Case('W%d' % len(res), n, E))
    def windmill(k):      # k triangles at a hub
        return 2 * k + 1, [e for i in range(k) for e in ((0, 2 * i + 1), (2 * i + 1, 2 * i + 2), (0, 2 * i + 2))]
    def books(k): return k + 2, [(0, 1)] + [(a, i + 2) for i in range(k) for a in (0, 1)]
    def star(k): return k + 1, [(0, i + 1) for i in range(k)]
    def hubwheel(k): return graphs.wheel(k)
    for d in (255, 256, 257, 258, 300, 512):
        add(*graphs.bipartite(2, d))
        add(*star(d)); add(*hubwheel(d))
        if d % 2 == 0: add(*windmill(d // 2))
    # a hub in a cycle that also has exactly 256 pendant edges beside its two cycle edges, and the like
    for d in (253, 254, 255, 256, 257):
        n, E = graphs.cycle(rnd.randint(3, 6))
        add(n + d, E + [(0, n + i) for i in range(d)])
    add(*graphs.cycle(300)); add(*graphs.path(400)); add(*graphs.union(*[graphs.cycle(3)] * 90)); add(*graphs.union(*[graphs.cycle(3)] * 90, (300, [])))
    add(*graphs.union(*[graphs.path(2)] * 140)); add(400, []); add(*graphs.gnm(rnd, 300, 500)); add(*graphs.gnm(rnd, 60, 700)); add(*graphs.complete(32)); add(*graphs.grid(17, 17))
    if THOROUGH:
        for _ in range(12): add(*graphs.gnm(rnd, rnd.randint(200, 700), rnd.randint(200, 1500)))
    return res

def huge(rnd):
    """more than 65536 edges"""
    res = []
    for k, (n, E) in enumerate((graphs.gnm(rnd, 450, 66500), graphs.complete(365))):
        n, E = graphs.shuffle(rnd, n, [(u, v, 1) for u, v in E])
        res.append(graphs.Case('H%d' % k, n, E))
    return res
