"""Exact and approximate entry points against CycleBasis.tla."""
import random
from vlib import *
import graphs

def aspects_cfg(aspects):
    return 'SPECIFICATION TSpec\nCONSTANT Aspects = {%s}\n' % ', '.join('"%s"' % a for a in aspects)

def variants(ctx, specs):
    """specs: list of (label, kwargs for cxx) -> dict label -> exe (compiled in parallel)"""
    exes = parallel([lambda s=s: cxx(ctx, 'drv_mcb.cpp', 'mcb_' + s[0], **s[1]) for s in specs])
    return {s[0]: e for s, e in zip(specs, exes)}

def merge(tracesets):
    """traces of the same case from several drivers -> one trace (so that the oracle runs once per graph)"""
    res, order = {}, []
    for label, ts in tracesets:
        for t in ts:
            for e in t['ev']:
                if e['op'] == 'Call': e['alg'] = e['alg'] + '.' + label
                if e['op'] == 'Crash': e['by'] = label
            if t['id'] not in res:
                res[t['id']] = t; order.append(t['id'])
            else:
                res[t['id']]['ev'] += t['ev']
    return [res[i] for i in order]

def run_all(ctx, exes, cases, filt=None, env=None, **kw):
    out = []
    for label, exe in exes.items():
        cs = [c for c in cases if filt is None or filt(label, c)]
        out.append((label, run_driver(ctx, exe, cs, env=env, **kw)))
    return merge(out)

def exact(ctx, aspects, label):
    exes = variants(ctx, [('d', {}), ('i', {'defs': ['WT=int']}), ('x', {'defs': ['EXTW']})])
    filt = lambda lb, c: c.den == 1 if lb == 'i' else (hash_(c.id) % 4 == 0 if lb == 'x' else True)
    design(ctx, 'optimum' in aspects)
    n = 8000 if THOROUGH else 1500
    cases = graphs.exact_cases(SEED, n, atlas_n=6 if THOROUGH else 5, atlas_sample=900 if THOROUGH else 400, maxn=16 if THOROUGH else 14)
    cases += medium(SEED + 7, 150 if THOROUGH else 24)
    cases += large(SEED + 8, 40 if THOROUGH else 14, 'optimum' in aspects)
    if THOROUGH: cases += labelled(SEED)
    byid = {c.id: c for c in cases}
    traces = run_all(ctx, exes, cases, filt)
    log('drivers done: %d traces' % len(traces))
    note(ctx, cases, traces)
    def again(i): return run_all(ctx, exes, [byid[i]], filt)[0]
    check_traces(ctx, 'TraceCycleBasis', aspects_cfg(aspects), traces, again, label)
    ctx.assumptions += ['optimum: greedy over Horton candidates in TLA+ (Graphs.tla), itself checked against the brute force definition by MC_Graphs',
                        'inputs: seeded families; exhaustive only over the non-isomorphic graphs listed in coverage']

def hash_(s):
    return sum((i + 1) * ord(ch) for i, ch in enumerate(s))

def medium(seed, k):
    """larger sparse and dense graphs, many ties"""
    rnd = random.Random(seed); res = []
    for i in range(k):
        f = i % 6
        if f == 0: g = graphs.gnm(rnd, rnd.randint(25, 45), rnd.randint(50, 75))
        elif f == 1: g = graphs.complete(rnd.randint(10, 12))
        elif f == 2: g = graphs.torus(4, rnd.randint(4, 6))
        elif f == 3: g = graphs.hypercube(4)
        elif f == 4: g = graphs.grid(5, rnd.randint(5, 7))
        else: g = graphs.bipartite(5, rnd.randint(5, 6))
        n, E = graphs.shuffle(rnd, g[0], graphs.weights(rnd, g[1], rnd.choice(['unit', 'one2', 'one3'])))
        res.append(graphs.Case('m%d' % i, n, E, rnd.choice([1, 1, 4])))
    return res

def large(seed, k, optimum):
    """cycle spaces of dimension over 64, 128 and 256; with an optimum, mostly many components, which keeps the oracle cheap"""
    rnd = random.Random(seed); res = []
    def add(g, kind):
        n, E = graphs.shuffle(rnd, g[0], graphs.weights(rnd, g[1], kind))
        res.append(graphs.Case('l%d' % len(res), n, E, 1))
    block = lambda: rnd.choice([lambda: graphs.complete(rnd.randint(4, 7)), graphs.petersen, lambda: graphs.hypercube(3), lambda: graphs.wheel(rnd.randint(4, 8)), lambda: graphs.bipartite(3, 5)])()
    for i in range(k):
        kind = rnd.choice(['one2', 'one3', 'to5'])
        if not optimum and i % 2: add(rnd.choice([lambda: graphs.complete(rnd.randint(14, 24)), lambda: graphs.bipartite(12, rnd.randint(12, 14)), lambda: graphs.gnm(rnd, 60, rnd.randint(140, 300))])(), kind)
        elif optimum and i % 4 == 3: add(graphs.complete(rnd.randint(13, 18)), rnd.choice(['unit', 'one2']))
        elif i % 4 == 2: add(graphs.cactus(rnd, rnd.randint(20, 70)), 'to5')
        else: add(graphs.union(*[block() for _ in range(rnd.choice([10, 18, 30]))]), kind)
    return res

def labelled(seed):
    """all labelled graphs on 4 vertices x all {1,2} weights, a sample on 5"""
    import itertools
    res = []
    P = list(itertools.combinations(range(4), 2))
    for mask in range(64):
        E = [P[i] for i in range(6) if mask >> i & 1]
        for ws in itertools.product((1, 2), repeat=len(E)):
            res.append(graphs.Case('L%d_%s' % (mask, ''.join(map(str, ws))), 4, [(u, v, w) for (u, v), w in zip(E, ws)]))
    return res

def note(ctx, cases, traces):
    ctx.add('graphs', len(cases))
    ctx.add('forests', sum(1 for c in cases if c.dim() == 0))
    ctx.add('max_dim', max(c.dim() for c in cases))
    ctx.add('calls', sum(1 for t in traces for e in t['ev'] if e['op'] == 'Call'))
    ctx.add('emitted_cycles', sum(1 for t in traces for e in t['ev'] if e['op'] == 'Emit'))
    for t in traces[-400::130]: ctx.sample({'id': t['id'], 'n': t['n'], 'den': t['den'], 'E': t['E'], 'events': t['ev'][:6]})

def oracle(ctx):
    """the TLA+ optimum against its definition"""
    tlc_model(ctx, 'MC_Graphs', 'INIT Init\nNEXT Next\nCONSTANTS N = 4 W = 2 Deep = TRUE\n', deadlock=False, expect_min=1458)
    if THOROUGH:
        tlc_model(ctx, 'MC_Graphs', 'INIT Init\nNEXT Next\nCONSTANTS N = 5 W = 1 Deep = FALSE\n', deadlock=False, expect_min=2048)

def design(ctx, with_oracle):
    """exhaustive checks of the specification itself"""
    if with_oracle: oracle(ctx)
    sva = 'SPECIFICATION Spec\nCONSTANTS N = %d W = %d\nINVARIANTS TypeOK Orthogonal SupportIndependent CycleExists Optimal ReturnStep\nPROPERTIES EmitSteps Terminates\n'
    tlc_model(ctx, 'SVA', sva % (4, 2), deadlock=False, expect_min=7000)
    if THOROUGH: tlc_model(ctx, 'SVA', sva % (5, 1), deadlock=False, timeout=3000)
