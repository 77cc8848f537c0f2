from vlib import *
from props import mcb, c15
def check(ctx, aspects, label, zero):
    exes = mcb.variants(ctx, [('d', {'defs': ['APPROX']}), ('i', {'defs': ['APPROX', 'WT=int']}), ('t', {'defs': ['APPROX', 'TBB']}),
                              ('ti', {'defs': ['APPROX', 'TBB', 'WT=int']})])
    algs = {'VERIF_ALGS': 'asigned,afvs,aiso'}
    c15.design(ctx)
    if 'bound' in aspects: mcb.oracle(ctx)
    cases = c15.spanner_cases(4000 if THOROUGH else 600, SEED + (5 if zero else 0), zero, c15.sort_perms(ctx, range(2, 110)))
    byid = {c.id: c for c in cases}
    # sequential variants on every graph; the *_tbb variants under the real runtime on a share of them (schedules: C03)
    plan = [('d', exes['d'], lambda c: True, {}), ('i', exes['i'], lambda c: c.den == 1, {}),
            ('t1', exes['t'], lambda c: mcb.hash_(c.id) % 3 != 0, {'VERIF_WORKERS': '1'}), ('t4', exes['t'], lambda c: mcb.hash_(c.id) % 3 == 0, {'VERIF_WORKERS': '4'}),
            ('ti', exes['ti'], lambda c: c.den == 1 and mcb.hash_(c.id) % 4 == 1, {'VERIF_WORKERS': '2'})]
    def go(cs): return mcb.merge([(lb, run_driver(ctx, exe, [c for c in cs if f(c)], env=dict(algs, **e))) for lb, exe, f, e in plan])
    traces = go(cases)
    log('drivers done: %d traces' % len(traces))
    mcb.note(ctx, cases, traces)
    check_traces(ctx, 'TraceCycleBasis', mcb.aspects_cfg(aspects), traces, lambda i: go([byid[i]])[0], label)
