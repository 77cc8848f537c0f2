"""C04: the MPI entry points over a message switch (mpimock) and under mpirun, against MpiMcb / TraceMpi."""
from vlib import *
from props import mcb, mpi
import graphs, random

ASPECTS = ['cycle', 'independent', 'complete', 'sum', 'optimum']
CFG = 'SPECIFICATION MpiSpec\nCONSTANT Aspects = {%s}\n' % ', '.join('"%s"' % a for a in ASPECTS)

def design(ctx):
    cfg = 'SPECIFICATION Spec\nCONSTANTS N = 4 W = %d P = %d Variant = "%s" Agreed = %s\nINVARIANTS Covered Found Optimal Together\nPROPERTY Terminates\n'
    runs = [(2, 2, 'signed'), (1, 4, 'signed'), (1, 3, 'trees')]
    if THOROUGH: runs += [(2, 3, 'signed'), (2, 4, 'signed'), (2, 2, 'trees'), (2, 3, 'trees'), (1, 5, 'signed'), (1, 1, 'signed')]
    for w, p, v in runs: tlc_model(ctx, 'MpiMcb', cfg % (w, p, v, 'TRUE'), expect_min=300, timeout=3000)
    # the model must see that processes ordering edges on their own lose cycles
    r = tlc(ctx, 'MpiMcb', cfg % (1, 2, 'signed', 'FALSE'))
    if r['rc'] != 12: raise CheckError('MpiMcb does not depend on the agreed order: rc=%d\n%s' % (r['rc'], r['out'][-2000:]))

def real(ctx, exe, cases, P):
    f = ctx.fresh('mpi'); o = f + '.out'
    open(f, 'w').write(''.join(c.text() for c in cases)); open(o, 'w').close()
    rc, so, se = mpi.mpirun(ctx, P, [exe, f, o], 240)
    full = [x for x in open(o).read().split('\n')[:-1] if x]
    ts = [json.loads(x) for x in full]
    if rc != 0 or len(ts) < len(cases):
        if len(ts) < len(cases): ts.append(json.loads(crash_line(cases[len(ts)], rc, se)))
        else: ts[-1]['ev'].append({'op': 'Crash', 'what': 'rc=%d' % rc, 'stderr': se[-800:]})
    return ts

def dense(rnd, k):
    """dense graphs whose vertices leave a remainder when dealt out: supports with more signed edges than vertices"""
    res = []
    for i in range(k):
        n, P = rnd.choice([(9, 5), (10, 6), (11, 4), (11, 6), (11, 8), (12, 7), (13, 7), (14, 5), (15, 8), (17, 6)])
        n, E = graphs.complete(n) if i % 4 else graphs.gnp(rnd, n, .85)
        n, E = graphs.shuffle(rnd, n, graphs.weights(rnd, E, rnd.choice(['to10', 'to30', 'to30', 'big'])))
        res.append(graphs.Case('k%d' % i, n, E, 1, [P]))
    return res

def main(ctx):
    rnd = random.Random(SEED)
    mock = dict(mpi=1, extra=['-include', os.path.join(HARN, 'mpimock', 'verif_mpi.hpp')], must=False)
    exes = dict(zip(('md', 'mi', 'r'), parallel([lambda: cxx(ctx, 'drv_mpi.cpp', 'mpi_md', **mock), lambda: cxx(ctx, 'drv_mpi.cpp', 'mpi_mi', defs=['WT=int'], **mock),
            lambda: cxx(ctx, 'drv_mpi.cpp', 'mpi_r', mpi=1, defs=['VERIF_REALMPI'])])))
    design(ctx)
    cases = graphs.exact_cases(SEED + 41, 3000 if THOROUGH else 420, atlas_n=5, atlas_sample=250 if THOROUGH else 60, maxn=13)
    cases += mcb.medium(SEED + 43, 60 if THOROUGH else 12)
    cases += mcb.large(SEED + 44, 16 if THOROUGH else 4, True)
    special = dense(rnd, 80 if THOROUGH else 24)
    cases += special
    for c in cases:
        if c in special: continue
        d = c.dim()
        # 1, sizes that do not divide the work, beyond candidates / vertices / signed edges
        P = {1, rnd.choice([2, 3, 4]), rnd.choice([2, 3, 5, 6, 7, 8]), rnd.choice([c.n, c.n + 1, max(1, d), d + 1, 2 * c.n + 1, 11, 16])}
        c.ks = sorted(p for p in P if 1 <= p <= 40)
        if THOROUGH: c.ks = sorted(set(c.ks) | {2, 3, 5})
    byid = {c.id: c for c in cases}
    env = {'VERIF_SEED': str(SEED)}
    if exes['md']:
        def go(cs): return mcb.merge([('d', run_driver(ctx, exes['md'], cs, env=env, case_timeout=300)),
                                      ('i', run_driver(ctx, exes['mi'], [c for c in cs if c.den == 1 and mcb.hash_(c.id) % 3 == 0], env=env, case_timeout=300) if exes['mi'] else [])])
        traces = go(cases)
        mcb.note(ctx, cases, traces)
        for P in sorted({p for c in cases for p in c.ks}): ctx.cov.setdefault('process_counts', []).append(P)
        ctx.add('calls_over_the_switch', sum(1 for t in traces for e in t['ev'] if e['op'] == 'Ranks'))
        log('switch:', len(traces), 'graphs')
        check_traces(ctx, 'TraceMpi', CFG, traces, lambda i: go([byid[i]])[0], 'C04.switch')
    else: ctx.assumptions.append('the code uses MPI in a way the message switch does not support: only mpirun was observed')
    if ctx.violations: return
    if mpi.available(ctx):
        small = [c for c in cases if c.n <= 12]
        for P in (1, 2, 3, 5) if not THOROUGH else (1, 2, 3, 4, 5, 6, 7, 8, 11):
            part = rnd.sample(small, 150 if THOROUGH else 50)
            part.sort(key=lambda c: c.id)
            ts = real(ctx, exes['r'], part, P)
            ctx.add('calls_under_mpirun', 5 * len(ts))
            check_traces(ctx, 'TraceMpi', CFG, ts, lambda i: real(ctx, exes['r'], [byid[i]], P)[0], 'C04.mpirun%d' % P, max_rejects=1)
            if ctx.violations: return
        log('mpirun done')
    else:
        if not exes['md']: raise CheckError('neither the switch nor mpirun can run the MPI entry points')
        ctx.assumptions.append('mpirun does not work in this sandbox: only the message switch was used')
    ctx.assumptions += ['the message switch gives MPI semantics: collectives complete when every rank has called the same one, a reduction with a commutative operator combines in any order']
