"""C09: exact variants on inexact doubles, against the optimum in exact integers (units of the decimal)."""
from vlib import *
from props import mcb
import graphs, random, math

UNIT = [0.1, 0.01, 0.001, 1 / 3, 1 / 7, 0.7, 3.14159265358979323846 / 100, 1.1, 2.718281828459045 / 1000]

def cases_for(seed, k):
    rnd = random.Random(seed); res = []
    small = [g for g in graphs.atlas(7) if len(g[1]) >= g[0]]
    def add(g, kind=None, unit=None):
        n, E = g
        unit = rnd.randrange(9) if unit is None else unit
        kind = kind or rnd.choice(['unit', 'one2', 'one3', 'to10', 'mix', 'mix', 'wide'])
        hi = min(10 ** 6, int(999.9 / UNIT[unit]))
        lo = max(1, int(1e-3 / UNIT[unit]) + 1)
        c = rnd.choice([1, 1, 2, 3, 7, 11])
        f = {'unit': lambda: c, 'one2': lambda: rnd.choice([c, 2 * c]), 'one3': lambda: c * rnd.randint(1, 3), 'to10': lambda: rnd.randint(1, 10),
             'mix': lambda: rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15]), 'wide': lambda: rnd.choice([1, 2, 3, 10, 30, 100, 999, rnd.randint(1, hi)])}[kind]
        E = [(u, v, min(hi, max(lo, f()))) for u, v in E]
        n, E = graphs.shuffle(rnd, n, E)
        res.append(graphs.Case('g%d' % len(res), n, E, 1, [unit, rnd.choice([0, 0, 0, 1, 1, 2, 3])]))
    fam = lambda: rnd.choice([
        lambda: graphs.grid(rnd.randint(2, 4), rnd.randint(3, 5)), lambda: graphs.hypercube(3), lambda: graphs.torus(3, rnd.randint(3, 4)),
        lambda: graphs.bipartite(rnd.randint(2, 4), rnd.randint(3, 5)), lambda: graphs.complete(rnd.randint(4, 8)), lambda: graphs.theta([rnd.randint(2, 5) for _ in range(rnd.randint(2, 5))]),
        lambda: graphs.wheel(rnd.randint(4, 9)), lambda: graphs.prism(rnd.randint(3, 7)), lambda: graphs.mobius(rnd.randint(3, 7)), lambda: graphs.gpetersen(rnd.randint(4, 7), rnd.randint(1, 2)),
        lambda: graphs.gluecycles(rnd, rnd.randint(2, 7)), lambda: graphs.cycle(rnd.randint(3, 12)), lambda: graphs.ladder(rnd.randint(3, 8)),
        lambda: graphs.union(graphs.cycle(rnd.randint(3, 8)), graphs.grid(2, rnd.randint(2, 5)), (1, [])), lambda: graphs.small_random(rnd, 14)])()
    for i in range(k):
        add(rnd.choice(small) if i % 5 == 0 else fam())
    for i in range(k // 60):
        add(rnd.choice([lambda: graphs.grid(5, 6), lambda: graphs.hypercube(4), lambda: graphs.torus(4, 5), lambda: graphs.gnm(rnd, 30, 55), lambda: graphs.bipartite(5, 6)])())
    # nearly equal but different, by as little as still shows in 1e-9 of the total
    for i in range(k // 3):
        n, E = rnd.choice(small) if i % 3 == 0 else fam()
        n, E = graphs.shuffle(rnd, n, graphs.stretched(rnd, E))
        if len(E) > 45: continue
        S = int(-math.log2(2e-9 * max(1, fundamental(n, E))))
        res.append(graphs.Case('n%d' % i, n, E, -max(10, S - rnd.choice([0, 0, 1, 3, 6])), [rnd.randrange(9), rnd.choice([0, 0, 1, 2, 3])]))
    return res

def fundamental(n, E):
    """weight of the fundamental cycles of a breadth first forest: the optimum is at most that"""
    adj = [[] for _ in range(n)]
    for u, v, w in E: adj[u].append((v, w)); adj[v].append((u, w))
    par = {}
    for r in range(n):
        if r in par: continue
        par[r] = (None, 0, 0); q = [r]
        for u in q:
            for v, w in adj[u]:
                if v not in par: par[v] = (u, w, par[u][2] + 1); q.append(v)
    total = 0
    for u, v, w in E:
        if par[u][0] == v or par[v][0] == u: continue
        total += w
        while u != v:
            if par[u][2] < par[v][2]: u, v = v, u
            total += par[u][1]; u = par[u][0]
    return (total >> 14) + 1

def main(ctx):
    exes = mcb.variants(ctx, [('d', {'defs': ['INEXACT']}), ('tbb', {'defs': ['INEXACT', 'TBB']})])
    mpi = cxx(ctx, 'drv_mpi.cpp', 'mpi_n', mpi=1, defs=['INEXACT'], extra=['-include', os.path.join(HARN, 'mpimock', 'verif_mpi.hpp')], must=False)
    if not mpi: ctx.assumptions.append('the MPI entry points do not run over the message switch')
    mcb.oracle(ctx)
    cases = cases_for(SEED, 9000 if THOROUGH else 1800)
    byid = {c.id: c for c in cases}
    filt = lambda lb, c: lb == 'd' or mcb.hash_(c.id) % 3 == 0
    def go(cs):
        ts = mcb.run_all(ctx, exes, cs, filt)
        if not mpi: return ts
        ms = run_driver(ctx, mpi, [c for c in cs if mcb.hash_(c.id) % 7 == 0 and c.n <= 14], env={'VERIF_PROCS': '1 2 3 4 5'}, case_timeout=300)
        for t in ms: t['ev'] = [e for e in t['ev'] if e['op'] != 'Ranks']
        return mcb.merge([('', ts), ('mpi', ms)])
    traces = go(cases)
    mcb.note(ctx, cases, traces)
    aspects = ['cycle', 'independent', 'complete', 'sum', 'approxsum', 'optimum', 'list']
    check_traces(ctx, 'TraceCycleBasis', mcb.aspects_cfg(aspects), traces, lambda i: go([byid[i]])[0], 'C09')
    ctx.assumptions += ['weights are w * unit with small integers w and a unit that is no dyadic number, optionally moved by at most 3 ulp / 3e-13 / 3e-11: the optimum in units decides the optimum up to 1e-9',
                        'weights lie in [1e-3, 1e3]']
