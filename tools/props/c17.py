"""C17: SpVecGF2 against GF2Vec.tla."""
from vlib import *
from props import hist
import random

def conv(o):
    """JSON operation of the generator -> (name, args, members)"""
    a = [o['r']] + [o[k] for k in ('s', 't', 'i') if k in o] + list(o.get('is', []))
    return (o['op'], a, {k: v for k, v in o.items() if k != 'op'})

def rnd_hist(rnd, id, nr, dim, L, appends=True):
    """seeded random history over a larger dimension; keeps a dense shadow only to know which operations are allowed"""
    reg = [None] + [frozenset()] * nr
    ops = []
    while len(ops) < L:
        k = rnd.choice(['unit', 'set', 'set', 'copy', 'move', 'asg', 'masg', 'plus', 'plus', 'plus', 'pluseq', 'pluseq', 'pluseq', 'append', 'clear', 'dot', 'dots', 'ser', 'new'])
        r, s, t = (rnd.randint(1, nr) for _ in range(3)); i = rnd.randrange(dim)
        S = lambda: sorted(rnd.sample(range(dim), min(dim, rnd.choice([0, 1, 2, 3, 5, dim // 2, dim]))))
        o = {'op': k, 'r': r}
        if k in ('unit', 'append'): o['i'] = i
        if k in ('set', 'dots'): o['is'] = S()
        if k in ('copy', 'move', 'asg', 'masg', 'plus', 'pluseq', 'dot', 'ser'): o['s'] = s
        if k == 'plus': o['t'] = t
        need = [x for x in (o.get('s'), o.get('t')) if x]
        if k in ('pluseq', 'dot', 'dots', 'append'): need.append(r)
        if any(reg[x] is None for x in need): continue
        if k in ('move', 'masg') and r == s: continue
        if k == 'append':
            lo = max(reg[r], default=-1) + 1
            if lo >= dim: continue
            o['i'] = i = rnd.randint(lo, min(dim - 1, lo + 3))
        new = {'new': lambda: frozenset(), 'clear': lambda: frozenset(), 'unit': lambda: frozenset([i]), 'set': lambda: frozenset(o['is']),
               'copy': lambda: reg[s], 'asg': lambda: reg[s], 'ser': lambda: reg[s], 'move': lambda: reg[s], 'masg': lambda: reg[s],
               'plus': lambda: reg[s] ^ reg[t], 'pluseq': lambda: reg[r] ^ reg[s], 'append': lambda: reg[r] | {i}}
        if k in new:
            v = new[k](); 
            if k in ('move', 'masg'): reg[s] = None
            reg[r] = v
        ops.append(conv(o))
    return hist.Hist(id, nr, ops)

def main(ctx):
    types = [('sz', []), ('hi', ['BASE=(1L<<40)']), ('int', ['UT=int', 'BASE=-3']), ('us', ['UT=unsigned short', 'BASE=65000'])]
    libs = LIBS + ['-lboost_serialization']
    jobs = [lambda t=t: cxx(ctx, 'drv_gf2.cpp', 'gf2_' + t[0], defs=t[1], libs=libs) for t in types]
    cfg = 'INIT Init\nNEXT Next\nCONSTANTS NR = %d Dim = %d\nINVARIANTS CanonicalForm Algebra\n'
    exes = dict(zip([t[0] for t in types], parallel(jobs)))
    tlc_model(ctx, 'MC_GF2Vec', cfg % (3, 3) if not THOROUGH else cfg % (3, 4), deadlock=False, expect_min=500)
    gen = 'SPECIFICATION Spec\nCONSTANTS NR = %d Dim = %d L = %d MaxCard = %d\nINVARIANT Emit\n'
    hs = []
    short = hist.tlc_histories(ctx, 'GenGF2Vec', gen % (2, 2, 2, 2), expect=500)
    sim = hist.tlc_histories(ctx, 'GenGF2Vec', gen % (3, 5, 24, 5), simulate=1500 if THOROUGH else 200, depth=26, seed=SEED, expect=150)
    for i, h in enumerate(short): hs.append(hist.Hist('s%d' % i, 2, [conv(o) for o in h]))
    for i, h in enumerate(sim): hs.append(hist.Hist('g%d' % i, 3, [conv(o) for o in h]))
    rnd = random.Random(SEED)
    for i in range(2500 if THOROUGH else 500):
        hs.append(rnd_hist(rnd, 'r%d' % i, rnd.randint(1, 5), rnd.choice([1, 2, 3, 5, 8, 16, 64, 200]), rnd.choice([10, 30, 60])))
    ctx.add('histories', len(hs)); ctx.add('operations', sum(len(h.ops) for h in hs))
    byid = {h.id: h for h in hs}
    for lb, exe in exes.items():
        part = hs if lb in ('sz', 'hi') else hs[::4]
        traces = run_driver(ctx, exe, part)
        if lb == 'sz':
            for t in traces[-3:]: ctx.sample({'id': t['id'], 'events': t['ev'][:5]})
        check_traces(ctx, 'TraceGF2Vec', 'SPECIFICATION TSpec\n', traces, lambda i: run_driver(ctx, exe, [byid[i]])[0], 'C17.' + lb, per_trace=1)
    ctx.assumptions += ['a moved-from vector is valid but unspecified until assigned or cleared', 'add(pos) is only called with pos beyond the last coordinate (its stated precondition)',
                        'coordinates above 2^31 are represented by an order preserving offset']
