"""C03: the TBB entry points under chosen schedules (TbbRuntime.tla), under TSan, and under the real runtime."""
from vlib import *
from props import mcb, hist, c15
import graphs, random

MOCK = os.path.join(HARN, 'tbbmock', 'verif_tbb.hpp')
EXACT = ['cycle', 'independent', 'complete', 'sum', 'optimum']
APPROX = ['cycle', 'independent', 'complete', 'sum', 'bound']

def dedupe(traces):
    """equal calls (same entry point, same cycles, same weight) once; the executions of their regions are all kept"""
    n = 0
    for t in traces:
        calls, cur = [], None
        for e in t['ev']:
            if e['op'] == 'Call': cur = [e]; calls.append(cur)
            elif cur is None: calls.append([e])
            else: cur.append(e)
        seen, ev = set(), []
        for c in calls:
            n += 1
            regs = [e for e in c if e['op'] == 'Region']
            if regs: ev += c; continue
            key = json.dumps(c)
            if key in seen: continue
            seen.add(key); ev += c
        t['ev'] = ev
    return n

def schedules(ctx):
    gen = 'SPECIFICATION Spec\nCONSTANTS Lo = %d Hi = %d Fair = 9\nINVARIANT Emit\n'
    hs = hist.tlc_histories(ctx, 'GenTbb', gen % (1, 3), expect=2000)
    hs += hist.tlc_histories(ctx, 'GenTbb', gen % (4, 7), simulate=4000 if THOROUGH else 600, depth=90, seed=SEED, expect=500)
    seen = {json.dumps(h) for h in hs}
    f = ctx.path('schedlib')
    with open(f, 'w') as fh:
        for h in sorted(seen):
            h = json.loads(h)
            fh.write('%s %d %d %s\n' % (h['kind'], h['n'], len(h['a']), ' '.join('%s %d %d' % tuple(a) for a in h['a'])))
    ctx.add('schedules_from_spec', len(seen))
    return f

def compile_all(ctx):
    fiber = dict(extra=['-include', MOCK], libs=LIBS + LIBS_TBB + ['-ldl'], must=False)
    thr = dict(extra=['-include', MOCK, '-fsanitize=thread'], must=False)
    v = [('fd', dict(fiber, defs=['TBB', 'VERIF_FIBER'])), ('fi', dict(fiber, defs=['TBB', 'VERIF_FIBER', 'WT=int'])),
         ('fa', dict(fiber, defs=['TBB', 'VERIF_FIBER', 'APPROX'])),
         ('td', dict(thr, defs=['TBB', 'VERIF_THREADS'])), ('ta', dict(thr, defs=['TBB', 'VERIF_THREADS', 'APPROX'])),
         ('rd', dict(defs=['TBB'])), ('ri', dict(defs=['TBB', 'WT=int'])), ('ra', dict(defs=['TBB', 'APPROX']))]
    return mcb.variants(ctx, v)

def main(ctx):
    for kind, n, w in (('reduce', 4, 2), ('for', 4, 1)) if not THOROUGH else (('reduce', 4, 3), ('reduce', 5, 2), ('for', 5, 1)):
        tlc_model(ctx, 'MC_TbbRuntime', 'SPECIFICATION Spec\nCONSTANTS N = %d W = %d Kind = "%s"\nINVARIANTS Shape EachOnce MinFound Result PushedOnce AllPushed\n' % (n, w, kind),
                  deadlock=False, expect_min=1000, timeout=3000)
    lib = schedules(ctx)
    exes = compile_all(ctx)
    log('compiled', [k for k, e in exes.items() if e])
    if not exes['fd']: ctx.assumptions.append('the code uses TBB in a way the controllable scheduler does not support: only the real runtime was observed')
    env = {'VERIF_SCHEDLIB': lib, 'VERIF_SEED': str(SEED), 'VERIF_REPS': '16' if THOROUGH else '8'}
    algs = {'VERIF_ALGS': 'asigned,afvs,aiso'}
    rnd = random.Random(SEED)
    cases = graphs.exact_cases(SEED + 31, 2500 if THOROUGH else 300, atlas_n=5, atlas_sample=200 if THOROUGH else 60, maxn=13)
    ap = [c for c in c15.spanner_cases(800 if THOROUGH else 160, SEED + 32, False)]
    big = mcb.medium(SEED + 33, 60 if THOROUGH else 12)
    big += mcb.large(SEED + 34, 16 if THOROUGH else 3, True)
    for c in ap:
        if len(c.ks) > 3: c.ks = sorted(rnd.sample(c.ks, 3))
    isint = lambda c: c.den == 1

    def fib(exe, cs, extra, logged):
        e = dict(env); e.update(extra)
        if logged: e['VERIF_LOGREG'] = '1'
        ts = run_driver(ctx, exe, cs, env=e)
        byid = {c.id: c for c in cs}
        for i, t in enumerate(ts):
            # a hang under preemption may be ours (locks we cannot see); without preemption it is not
            if t['ev'] and t['ev'][-1]['op'] == 'Crash' and ('timeout' in t['ev'][-1]['what'] or 'VERIF-DEADLOCK' in t['ev'][-1].get('stderr', '')):
                ts[i] = run_driver(ctx, exe, [byid[t['id']]], env=dict(e, VERIF_NOPREEMPT='1'))[0]
        return ts

    def judge(label, run, cs, aspects):
        traces = run(cs)
        byid = {c.id: c for c in cs}
        ctx.add('calls', dedupe(traces)); ctx.add('graphs', len(cs))
        ctx.add('regions_validated', sum(1 for t in traces for e in t['ev'] if e['op'] == 'Region'))
        for t in traces[len(traces) // 2:][:1]: ctx.sample({'variant': label, 'id': t['id'], 'n': t['n'], 'E': t['E'], 'events': t['ev'][:8]})
        log(label, len(traces), 'graphs,', sum(len(t['ev']) for t in traces), 'events')
        def again(i):
            t = run([byid[i]]); dedupe(t)
            return t[0]
        check_traces(ctx, 'TraceTbb', mcb.aspects_cfg(aspects).replace('TSpec', 'TbbSpec'), traces, again, 'C03.' + label)

    def merged(*runs):
        """several ways to run the same graphs: one trace per graph"""
        def go(cs):
            return mcb.merge([(lb, f([c for c in cs if flt(c)])) for lb, flt, f in runs])
        return go
    yes = lambda c: True
    ex, axs = [], []
    if exes['fd']: ex.append(('fd', yes, lambda cs: fib(exes['fd'], cs, {}, True)))
    if exes['fi']: ex.append(('fi', isint, lambda cs: fib(exes['fi'], cs, {'VERIF_REPS': '3'}, False)))
    if exes['fa']: axs.append(('fa', yes, lambda cs: fib(exes['fa'], cs, algs, True)))
    for w in ('1', '2', '8', '64'):
        if exes['rd'] and w in ('1', '8'): ex.append(('real%s' % w, yes, lambda cs, w=w: run_driver(ctx, exes['rd'], cs, env={'VERIF_WORKERS': w}, shards=4)))
        if exes['ri'] and w in ('2', '64'): ex.append(('ireal%s' % w, isint, lambda cs, w=w: run_driver(ctx, exes['ri'], cs, env={'VERIF_WORKERS': w}, shards=4)))
        if exes['ra'] and w in ('2', '64'): axs.append(('areal%s' % w, yes, lambda cs, w=w: run_driver(ctx, exes['ra'], cs, env=dict(algs, VERIF_WORKERS=w), shards=4)))
    if not exes['rd'] or not exes['ra']: raise CheckError('the TBB entry points do not compile')
    # data races: every segment of a region is a thread
    tsan = {'TSAN_OPTIONS': 'halt_on_error=1 exitcode=66 report_signal_unsafe=0 history_size=7 suppressions=' + os.path.join(HARN, 'tbbmock/tsan.supp'), 'VERIF_SEED': str(SEED), 'VERIF_REPS': '2'}
    probe = exes['td'] and tsan_works(ctx)
    if probe:
        races = [c for i, c in enumerate(cases) if i % 3 == 0]
        ex.append(('tsan', lambda c: c.id in race_ids, lambda cs: tsan_run(ctx, exes['td'], cs, tsan)))
        race_ids = {c.id for c in races + big}
        ctx.add('tsan_graphs', len(race_ids))
        if exes['ta']: axs.append(('atsan', lambda c: hash_(c.id) % 2 == 0, lambda cs: tsan_run(ctx, exes['ta'], cs, dict(tsan, **algs))))
    else:
        ctx.assumptions.append('ThreadSanitizer is not available here: races were not looked for')
    judge('exact', merged(*ex), cases + big, EXACT)
    if not ctx.violations: judge('approx', merged(*axs), ap, APPROX)
    ctx.assumptions += ['schedules: all executions of TbbRuntime.tla over up to 3 elements, simulated ones over 4..7 stretched over larger ranges, seeded random ones otherwise',
                        'races are those ThreadSanitizer sees when every segment of a region is a thread']

def hash_(s): return mcb.hash_(s)

def tsan_run(ctx, exe, cs, env):
    ts = run_driver(ctx, exe, cs, env=env, case_timeout=300)
    for t in ts:
        for e in t['ev']:
            if e['op'] == 'Crash' and 'data race' in e.get('stderr', ''): e['what'] = 'data race'
    return ts

TSAN_SRC = '''#include <thread>
int x; int main(int c, char **v) { std::thread a([&]{ x++; }); if (c > 1) a.join(); x++; if (c < 2) a.join(); return 0; }'''
def tsan_works(ctx):
    f = ctx.path('tsanprobe.cpp'); open(f, 'w').write(TSAN_SRC)
    rc, o, e = run(['g++', '-g', '-fsanitize=thread', f, '-o', f + '.exe', '-pthread'])
    if rc: return False
    ok = all(run([f + '.exe', 'j'], timeout=60, env={'TSAN_OPTIONS': 'exitcode=66'})[0] == 0 for _ in range(2))
    bad = any(run([f + '.exe'], timeout=60, env={'TSAN_OPTIONS': 'exitcode=66'})[0] == 66 for _ in range(5))
    return ok and bad
