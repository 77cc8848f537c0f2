"""C02: exact algorithms return a minimum weight basis and its weight."""
from vlib import *
from props import mcb, parts
import graphs, random

def design(ctx):
    cfg = 'SPECIFICATION Spec\nCONSTANTS N = %d W = %d Mode = "%s" Limits = {%s} Variant = "right"\nINVARIANTS %s\n%s'
    jobs = [(4, 1, 'v', '0, 3', 'Settled Answered Meets Walks', 'PROPERTY Terminates\n'), (4, 1, 'e', '0, 2, 3', 'Settled Answered Meets', ''), (3, 4, 'v', '0, 5', 'Answered Meets', ''), (3, 4, 'e', '0, 5', 'Answered Meets', '')]
    if THOROUGH: jobs += [(4, 2, 'v', '0, 5', 'Answered Meets', ''), (4, 2, 'e', '0, 4', 'Answered Meets Walks', ''), (4, 3, 'v', '0', 'Answered Meets', ''), (5, 1, 'e', '0', 'Answered Meets', '')]
    for j in jobs: tlc_model(ctx, 'SignedSearch', cfg % j, deadlock=False, expect_min=300, timeout=3000)
    r = tlc(ctx, 'SignedSearch', 'SPECIFICATION Spec\nCONSTANTS N = 4 W = 2 Mode = "v" Limits = {0} Variant = "first"\nINVARIANT Answered\n', deadlock=False)
    if r['rc'] != 12: raise CheckError('SignedSearch: a search that stops at the first meeting is not seen, rc=%d\n%s' % (r['rc'], r['out'][-2000:]))

def searches(ctx):
    """the search behind every phase of the signed variant, on its own"""
    exes = parallel([lambda: cxx(ctx, 'drv_signed.cpp', 'sg_d', must=False), lambda: cxx(ctx, 'drv_signed.cpp', 'sg_i', defs=['WT=int'], must=False)])
    exes = {lb: e for lb, e in zip('di', exes) if e}
    if not exes:
        ctx.assumptions.append('bidirectional_signed_dijkstra cannot be called as before: it was only seen through the entry points')
        return
    cs = graphs.exact_cases(SEED + 77, 2500 if THOROUGH else 350, atlas_n=5, atlas_sample=300 if THOROUGH else 60, maxn=12)
    cs += [c for c in mcb.medium(SEED + 78, 30 if THOROUGH else 6) if len(c.E) < 60]
    # long cycles with chords and few signed edges: sides that progress unevenly
    rnd = random.Random(SEED + 79)
    for i in range(300 if THOROUGH else 60):
        g = rnd.choice([lambda: graphs.theta([rnd.randint(1, 6) for _ in range(rnd.randint(2, 4))]), lambda: graphs.cycle(rnd.randint(3, 14)), lambda: graphs.wheel(rnd.randint(4, 8)), lambda: graphs.gluecycles(rnd, rnd.randint(2, 5))])()
        n, E = graphs.shuffle(rnd, g[0], graphs.weights(rnd, g[1], rnd.choice(['one3', 'to10', 'to30', 'pow2'])))
        cs.append(graphs.Case('u%d' % i, n, E, rnd.choice([1, 1, 2])))
    for c in cs: c.ks = [2 if len(c.E) < 30 else 1]
    byid = {c.id: c for c in cs}
    go = lambda part: mcb.run_all(ctx, exes, part, lambda lb, c: lb == 'd' or c.den == 1 and mcb.hash_(c.id) % 3 == 0)
    ts = go(cs)
    ctx.add('searches', sum(1 for t in ts for e in t['ev'] if e['op'] == 'Search'))
    ctx.add('searches_answered', sum(1 for t in ts for e in t['ev'] if e['op'] == 'Search' and e['f']))
    ctx.sample({'id': ts[-1]['id'], 'n': ts[-1]['n'], 'E': ts[-1]['E'], 'events': ts[-1]['ev'][:6]})
    check_traces(ctx, 'TraceSignedSearch', 'SPECIFICATION TSpec\n', ts, lambda i: go([byid[i]])[0], 'C02.search', per_trace=1)

def main(ctx):
    design(ctx)
    searches(ctx)
    if ctx.violations: return
    mcb.exact(ctx, ['sum', 'optimum', 'list'], 'C02')
