"""C10: DIMACS reader and validators against Dimacs.tla."""
from vlib import *
from props import hist
import graphs, random, itertools

def text_case(rnd, id, big=False):
    n = rnd.choice([0, 1, 2, 3, 5, 9, 12, 40, 1000 if big else 7])
    lines = []
    sp = lambda: rnd.choice([' ', ' ', ' ', ' ', '  ', '\t'])
    def comment():
        body = rnd.choice(['', ' p edge 3 3', ' e 1 2 5', 'omment', ' a 1 1', ' ' + 'x' * rnd.choice([5, 80, 300]), ' %d %s', ' \x01\x7f'])
        s = rnd.choice('c#') + body
        if rnd.random() < .03: s = s[:1] + ' e 1 2' + 'p' * (rnd.choice([1015, 1014, 900]))
        if rnd.random() < .05:                # long lines: any fixed buffer would cut them and read the rest as lines
            cut = rnd.choice([127, 255, 511, 1023, 1023, 1023, 1024, 2047, 4095, 8191])
            s = s[:1] + 'x' * (cut - 1) + rnd.choice(['e 1 1 5', 'a 1 2 5', 'p edge 9 9', 'e 0 0'])
        if rnd.random() < .02: s = s[:1] + rnd.choice([' \0', '\0e 1 2', ' x\0p edge 7 7', ' \xff\xfe'])
        return s
    def weight():
        return rnd.choice(['', '', str(rnd.randint(1, 9)), str(rnd.randint(1, 99999)), '%d.%d' % (rnd.randint(0, 20), rnd.randint(0, 9)), '%.3f' % (rnd.random() * 100), '%.6f' % (rnd.random() * 9),
                           '0', '-1', '-0.5', '0.0', '.5', '7.', '007', '1000000', '0.000001', '123456.789', str(rnd.randint(10 ** 6, 9 * 10 ** 8))])
    for _ in range(rnd.choice([0, 0, 1, 3])): lines.append(comment())
    bad = rnd.random()
    if bad > .04: lines.append('p%s%s%s%d%s%d' % (sp(), rnd.choice(['edge', 'sp', 'col', 'max', 'x', 'aecp#' * 5]), sp(), n, sp(), rnd.choice([0, 5, 10 ** 9])) + rnd.choice(['', '', ' ']))
    m = rnd.choice([0, 1, 2, 5, 12, 60 if big else 8])
    for _ in range(m):
        if rnd.random() < .2: lines.append(comment())
        hi = max(1, n)
        u, v = rnd.randint(1, hi), rnd.randint(1, hi)
        if rnd.random() < .25 and lines and lines[-1][0] in 'ea':           # repeat the last pair, maybe reversed
            f = lines[-1].split(); u, v = rnd.choice([(f[1], f[2]), (f[2], f[1])])
        if rnd.random() < .03: u = rnd.choice([0, n + 1, n + 10, 2 * n + 3])
        if rnd.random() < .03: v = rnd.choice([0, n + 1, 10 * n + 11])
        w = weight()
        lines.append(rnd.choice('ea') + sp() + str(u) + sp() + str(v) + (sp() + w if w else '') + rnd.choice(['', '', '', ' ', '\t', '\r', ' ' * 200 if rnd.random() < .2 else ' ', ' ' * 1100 + '\t' if rnd.random() < .05 else '']))
    if rnd.random() < .2: lines.append(comment())
    nonl = rnd.random() < .4
    ops = [('Line', [ord(x) for x in s], {}) for s in lines]
    return hist.Hist(id, 0, ops, ['nonl'] if nonl else ['nl'])

def multigraphs(seed, k):
    rnd = random.Random(seed); res = []
    P = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 0), (0, 2), (2, 1)]
    for r in range(0, 4):
        for E in itertools.product(P, repeat=r):
            if r == 3 and rnd.random() < .3: continue
            res.append(graphs.Case('m%d' % len(res), 3, [(u, v, 1) for u, v in E]))
    W = [1, 1, 1, 1, 2, 3, 4, 5, 7]
    for _ in range(k):
        n = rnd.randint(1, 9)
        loops = rnd.random() < .3; multi = rnd.random() < .4; neg = rnd.random() < .4
        pairs = [(u, v) for u in range(n) for v in range(n) if u < v]
        E = rnd.sample(pairs, rnd.randint(0, len(pairs)))
        if multi and E:
            for _ in range(rnd.choice([1, 1, 1, 2])): E.append(rnd.choice(E))
        if loops: E += [(x, x) for x in [rnd.randrange(n)] * rnd.choice([1, 1, 2])]
        E = [(v, u) if rnd.random() < .5 else (u, v) for u, v in E]
        rnd.shuffle(E)
        E = [(u, v, rnd.choice(W)) for u, v in E]
        if neg and E:
            i = rnd.randrange(len(E)); E[i] = E[i][:2] + (rnd.choice([0, -1, -2, -3, -4, -5, -9]),)
        res.append(graphs.Case('m%d' % len(res), n, E))
    return res

def main(ctx):
    exes = dict(zip('vld', parallel([lambda: cxx(ctx, 'drv_dimacs.cpp', 'di_v'), lambda: cxx(ctx, 'drv_dimacs.cpp', 'di_l', defs=['LISTS']), lambda: cxx(ctx, 'drv_validators.cpp', 'va')])))
    tlc_model(ctx, 'MC_Dimacs', 'SPECIFICATION Spec\nCONSTANTS MaxLines = %d B = 14\nINVARIANTS Faithful NeverBoth\n' % (4 if THOROUGH else 3), deadlock=False, expect_min=3000)
    rnd = random.Random(SEED)
    hs = [text_case(rnd, 't%d' % i, i % 10 == 0) for i in range(12000 if THOROUGH else 2500)]
    byid = {h.id: h for h in hs}
    for lb in 'vl':
        part = hs if lb == 'v' else hs[::5]
        ts = run_driver(ctx, exes[lb], part)
        if lb == 'v':
            ctx.add('texts', len(part)); ctx.add('lines', sum(len(h.ops) for h in part))
            ctx.add('texts_without_final_newline', sum(1 for h in part if h.par[0] == 'nonl'))
            ctx.add('rejected_texts', sum(1 for t in ts if t['ev'][-1]['op'] == 'Error'))
            for t in ts[5:400:130]: ctx.sample({'id': t['id'], 'lines': [''.join(map(chr, e['s']))[:80] for e in t['ev'] if e['op'] == 'Line'][:6], 'result': t['ev'][-1]})
        check_traces(ctx, 'TraceDimacs', 'SPECIFICATION TSpec\n', ts, lambda i: run_driver(ctx, exes[lb], [byid[i]])[0], 'C10 reader', per_trace=1)
    ms = multigraphs(SEED + 1, 6000 if THOROUGH else 1500)
    mid = {c.id: c for c in ms}
    ts = run_driver(ctx, exes['d'], ms)
    ctx.add('multigraphs', len(ms))
    check_traces(ctx, 'TraceDimacs', 'SPECIFICATION TSpec\n', ts, lambda i: run_driver(ctx, exes['d'], [mid[i]])[0], 'C10 validators', per_trace=1)
    ctx.assumptions += ['texts have at most one problem line and well-formed edge lines; weights have at most 6 decimals']
