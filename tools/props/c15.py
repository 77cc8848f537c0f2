"""C15: the spanner."""
from vlib import *
import graphs, random
from props import mcb
CFG = 'SPECIFICATION TSpec\n'
DESIGN = 'SPECIFICATION Spec\nCONSTANTS N = %d W = %d K = {%s}\nINVARIANTS SpannerInv HopsOK Count Independent Approx ExactForOne\nPROPERTIES Terminates\n'

def design(ctx):
    tlc_model(ctx, 'MC_Spanner', DESIGN % (4, 2, '1, 2, 3'), deadlock=False, expect_min=10000)
    if THOROUGH: tlc_model(ctx, 'MC_Spanner', DESIGN % (5, 1, '1, 2, 3'), deadlock=False, timeout=3000)

def sort_perms(ctx, ms):
    """what std::sort does to m equal keys"""
    exe = cxx(ctx, 'sortperm.cpp', 'sortperm', tbb=0, libs=[])
    ms = sorted(set(ms))
    rc, o, e = run([exe] + [str(m) for m in ms])
    return {m: [int(x) for x in line.split()] for m, line in zip(ms, o.strip().split('\n'))}

def heavy_light(rnd, perms, k):
    """A heavy tree of small diameter and light edges between its vertices: keeping the heavy edges instead of the light ones
    costs more than 2k-1.  Orders: as given, reversed, shuffled, and such that sorting equal keys visits the heavy ones first."""
    res = []
    for i in range(k):
        p = rnd.randint(4, 7)
        f = i % 3
        if f == 0:    # diameter 3
            n = 2 + 2 * p; H = [(0, 1)] + [(j % 2, 2 + j) for j in range(2 * p)]
            L = [(2 + a, 2 + b) for a in range(2 * p) for b in range(a) if (a + b) % 2]
        elif f == 1:  # star
            n = 1 + p; H = [(0, 1 + j) for j in range(p)]
            L = [(1 + a, 1 + b) for a in range(p) for b in range(a)]
        else:         # diameter 4: three levels
            n = 1 + 3 + 3 * 3; H = [(0, 1 + j) for j in range(3)] + [(1 + j, 4 + 3 * j + x) for j in range(3) for x in range(3)]
            L = [(4 + a, 4 + b) for a in range(9) for b in range(a) if a // 3 != b // 3 and rnd.random() < .8]
        den, hw, lw = rnd.choice([(1, 1000, 1), (1024, 1000, 1), (1024, 1023, 2), (1024, 1024 + 1000, 1024 + 1), (1, 17, 1)])
        E = [(u, v, hw) for u, v in H] + [(u, v, lw) for u, v in L]
        m = len(E); order = i // 3 % 4
        if order == 1: E.reverse()
        elif order == 2: rnd.shuffle(E)
        elif order == 3 and m in perms:
            F = [None] * m
            for j in range(m): F[perms[m][j]] = E[j]
            E = F
        res.append(graphs.Case('h%d' % i, n, E, den))
    return res

def spanner_cases(n, seed, zero=False, perms={}):
    rnd = random.Random(seed)
    cases = graphs.exact_cases(seed, n, atlas_n=5, atlas_sample=300, maxn=14)
    # sparse graphs of larger girth: the hop bound matters for k = 2, 3, 4
    for i in range(n // 3):
        g = rnd.choice([lambda: graphs.gnm(rnd, rnd.randint(12, 24), rnd.randint(16, 45)), lambda: graphs.gpetersen(rnd.randint(5, 9), 2),
                        lambda: graphs.torus(rnd.randint(3, 5), rnd.randint(3, 5)), lambda: graphs.hypercube(4),
                        lambda: graphs.gluecycles(rnd, rnd.randint(3, 8)), lambda: graphs.theta([rnd.randint(2, 6) for _ in range(4)]),
                        lambda: graphs.union(*[graphs.cycle(j) for j in rnd.sample(range(3, 12), 3)]), lambda: graphs.bipartite(4, 5)])()
        k, E = graphs.shuffle(rnd, g[0], graphs.weights(rnd, g[1], rnd.choice(['unit', 'unit', 'one2', 'one3', 'to10', 'pow2'])))
        cases.append(graphs.Case('s%d' % i, k, E, rnd.choice([1, 1, 2])))
    cases += heavy_light(rnd, perms, 40 if n <= 1500 else 200)
    for c in cases:
        c.ks = ([0] if zero else []) + [1, 2, 3, rnd.choice([4, 5]), rnd.choice([6, 9, 40]), rnd.choice([-1, -2, 1000, 2147483])]
        if rnd.random() < .5: c.ks.append(-1 - rnd.randint(0, 3))
        # where k or 2k-1 does not fit a narrower type
        c.ks.append(-(1000 * rnd.choice([7, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63]) + rnd.choice([0, 1, 1, 2, 3])))
    return cases

def main(ctx):
    def comp(defs, name):
        e = cxx(ctx, 'drv_spanner.cpp', name, defs=defs, must=False)
        return e or cxx(ctx, 'drv_spanner.cpp', name + '_nh', defs=list(defs) + ['NOHOOK'])
    exes = parallel([lambda: comp([], 'sp_d'), lambda: comp(['WT=int'], 'sp_i')])
    exes = dict(zip('di', exes))
    design(ctx)
    cases = spanner_cases(6000 if THOROUGH else 1200, SEED, perms=sort_perms(ctx, range(2, 110)))
    byid = {c.id: c for c in cases}
    filt = lambda lb, c: c.den == 1 if lb == 'i' else True
    traces = mcb.run_all(ctx, exes, cases, filt)
    mcb_note(ctx, cases, traces)
    check_traces(ctx, 'TraceSpanner', CFG, traces, lambda i: mcb.run_all(ctx, exes, [byid[i]], filt)[0], 'C15')

def mcb_note(ctx, cases, traces):
    ctx.add('graphs', len(cases))
    sp = [e for t in traces for e in t['ev'] if e['op'] == 'Spanner']
    ctx.add('spanners', len(sp)); ctx.add('spanners_with_dropped_edges', sum(1 for e in sp if e['dropped']))
    for t in traces[::max(1, len(traces) // 3)]: ctx.sample({'id': t['id'], 'n': t['n'], 'E': t['E'], 'events': t['ev'][:2]})
