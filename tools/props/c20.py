"""C20: set_global_tbb_concurrency and the --cores option, against Concurrency.tla / TraceConcurrency.tla."""
from vlib import *
from props import demos, hist, c11
import graphs, random, re

def split(ts):
    """what TBB allowed (a fact of the process) and how many threads were inside (which depends on the machine), as two events"""
    for t in ts:
        t['ev'] = [x for e in t['ev'] for x in ([e, {'op': 'Threads', 'threads': e['threads']}] if e['op'] == 'Call' else [e])]
    return ts

def main(ctx):
    cfg = 'SPECIFICATION Spec\nCONSTANTS HW = 4 MaxN = 6 Impl = "%s"\nINVARIANT InForce\n'
    inst = ['-finstrument-functions', '-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,bits/', os.path.join(HARN, 'conc_unit.cpp')]
    jobs = parallel([lambda: demos.build(ctx, progs=('mcb', 'approx')), lambda: cxx(ctx, 'drv_conc.cpp', 'conc', opt='-O0', extra=inst)])
    exes, drv = jobs
    tlc_model(ctx, 'Concurrency', cfg % 'held', deadlock=False, expect_min=50)
    for bad in ('temporary', 'leaked', 'first'):
        r = tlc(ctx, 'Concurrency', cfg % bad, deadlock=False)
        if r['rc'] != 12: raise CheckError('Concurrency: %s is not seen, rc=%d\n%s' % (bad, r['rc'], r['out'][-2000:]))
    gen = 'SPECIFICATION Spec\nCONSTANTS Len_ = %d Ns = {%s} Exhaustive = TRUE\n'
    hs = hist.tlc_histories(ctx, 'GenConcurrency', gen % (2, '1, 2, 5, 13'), expect=900)
    hs += hist.tlc_histories(ctx, 'GenConcurrency', gen % (9, '1, 2, 3, 4, 6, 7, 8, 9, 16, 33, 64'), simulate=800 if THOROUGH else 90, depth=11, seed=SEED, expect=60)
    hists = [hist.Hist('h%d' % i, 0, [(o['op'], [o['n'], o['unit'], o['thread']], {'n': o['n']}) for o in h]) for i, h in enumerate(hs)]
    byid = {h.id: h for h in hists}
    # a set before everything, a query and a call after it, in new processes
    rnd = random.Random(SEED)
    first = [hist.Hist('p%d' % i, 0, [('Set', [n, u, t], {'n': n}), ('Query', [0, 0, 0], {'n': 0}), ('Call', [i % 6, 0, 0], {'n': i % 6}), ('Query', [0, 1, 1], {'n': 0})])
             for i, (n, u, t) in enumerate((n, u, t) for n in (1, 2, 3, 7, 40) for u in (0, 1) for t in (0, 1))]
    byid.update((h.id, h) for h in first)
    ts = run_driver(ctx, drv, hists, case_timeout=120)
    ts += [t for h in first for t in run_driver(ctx, drv, [h])]
    ctx.add('call_histories', len(ts))
    ctx.add('limits_seen_inside_calls', sum(len(e.get('v', [])) for t in ts for e in t['ev'] if e['op'] == 'Call'))
    ctx.cov['most_threads_inside_by_limit'] = {}
    for t in ts:
        lim = 0
        for e in t['ev']:
            if e['op'] == 'Set': lim = e['n']
            elif e['op'] == 'Call' and lim:
                k = str(lim); ctx.cov['most_threads_inside_by_limit'][k] = max(e['threads'], ctx.cov['most_threads_inside_by_limit'].get(k, 0))
    ctx.sample(ts[-1]['ev'])
    split(ts)
    check_traces(ctx, 'TraceConcurrency', 'SPECIFICATION TSpec\n', ts, lambda i: split(run_driver(ctx, drv, [byid[i]]))[0], 'C20 calls', per_trace=1, certain=lambda e: e['op'] != 'Threads')
    # the demos
    configs = [c for c in hist.tlc_histories(ctx, 'GenDemo', 'SPECIFICATION Spec\n', expect=1000) if c['prog'] in ('mcb', 'approx') and c['par'] != 0 and c['cores'] > 0]
    configs.sort(key=lambda c: json.dumps(c, sort_keys=True))
    rnd.shuffle(configs)
    mcb = [c for c in configs if c['prog'] == 'mcb']; apx = [c for c in configs if c['prog'] == 'approx']
    pick = mcb + (apx if THOROUGH else apx[:600])
    fs = []
    for i, g in enumerate([graphs.grid(3, 4), graphs.complete(7), graphs.petersen()]):
        E = graphs.weights(rnd, g[1], 'one3')
        p = ctx.path('c%d.gr' % i); open(p, 'w').write('\n'.join(c11.dimacs(rnd, g[0], E, 1)) + '\n'); fs.append(p)
    def go(c, i):
        c = dict(c, cores=c['cores'] if i % 3 else rnd.choice([1, 2, 3, 4, 6, 7, 9, 24]))
        r = demos.one(ctx, exes[(c['prog'], 1)], c, fs[i % 3], 1, 60)
        entered, v = False, []
        for name, a in r['all']:
            entered = entered or bool(re.search(r'_tbb\b', name))
            if entered: v.append(a)
        return {'op': 'Demo', 'n': c['cores'], 'v': v, 'threads': r['threads'], 'args': r['args'], 'prog': c['prog'], 'exit': r['exit'], 'stderr': r['stderr']}
    jobs = [(c, i) for i, c in enumerate(pick)]
    rs = parallel([lambda j=j: go(*j) for j in jobs])
    ctx.add('demo_runs', len(rs)); ctx.sample(rs[0])
    dt = [{'id': 'demo%d' % i, 'n': 0, 'den': 1, 'E': [], 'ev': [e]} for i, e in enumerate(rs)]
    check_traces(ctx, 'TraceConcurrency', 'SPECIFICATION TSpec\n', dt, lambda i: dict(dt[int(i[4:])], ev=[go(*jobs[int(i[4:])])]), 'C20 demo', per_trace=1, certain=False)
    ctx.assumptions += ['entry into a function named *_tbb is the start of the parallel algorithm', 'limits up to 64 were set; TBB may cap larger ones']
