"""C07: no undefined behaviour, nothing leaked, nothing handed out that dies (Lifetime.tla)."""
from vlib import *
from props import mcb, hist, c03, c10, c15, c17, c18
import graphs, random

SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
DBG = ['-D_GLIBCXX_DEBUG']
MOCK = ['-include', c03.MOCK]
MMOCK = ['-include', os.path.join(HARN, 'mpimock', 'verif_mpi.hpp')]
ENV = {'ASAN_OPTIONS': 'detect_stack_use_after_return=1:detect_leaks=%d:exitcode=66:strict_string_checks=1:check_initialization_order=1:malloc_fill_byte=197:max_malloc_fill_size=4096:max_free_fill_size=4096:free_fill_byte=215',
       'UBSAN_OPTIONS': 'print_stacktrace=0', 'VERIF_ALGS': 'signed,fvs,iso,asigned,afvs,aiso', 'VERIF_QUIET': ''}
MARKS = ('AddressSanitizer', 'runtime error:', 'LeakSanitizer', 'ThreadSanitizer', 'Error: attempt to', 'Error: ', "Assertion '", '== ', 'double free', 'corruption', 'invalid pointer', 'stack smashing')
LEAK = '''#include <cstdlib>
extern "C" int __lsan_do_recoverable_leak_check();
void *p; __attribute__((noinline)) void f(int n) { p = std::malloc(n); } 
int main(int c, char **v) { f(100); if (c > 1) { p = nullptr; f(5); p = nullptr; } volatile char junk[4096]; for (int i = 0; i < 4096; i++) junk[i] = 0; return __lsan_do_recoverable_leak_check() ? 67 : 0; }'''

def lsan_works(ctx):
    f = ctx.path('lsanprobe.cpp'); open(f, 'w').write(LEAK)
    rc, o, e = run(['g++', '-g', '-O0', '-fsanitize=address', f, '-o', f + '.exe'])
    if rc: return False
    env = {'ASAN_OPTIONS': 'detect_leaks=1:exitcode=66'}
    return run([f + '.exe'], timeout=60, env=env)[0] == 0 and run([f + '.exe', 'x'], timeout=60, env=env)[0] in (66, 67)

def valgrind_works(ctx):
    f = ctx.path('vgprobe.cpp')
    open(f, 'w').write('#include <cstdlib>\n#include <cstdio>\nint main(int c, char **v) { int *p = (int*) std::malloc(8); if (c == 1) p[0] = 1; if (p[0] == 77) std::puts("x"); return 0; }')
    rc, o, e = run(['g++', '-g', '-O0', f, '-o', f + '.exe'])
    return rc == 0 and run(VG + [f + '.exe'], timeout=120)[0] == 0 and run(VG + [f + '.exe', 'x'], timeout=120)[0] == 99
VG = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no']

def verdict(label, t):
    """what the monitor says about one case"""
    for e in t['ev']:
        if e['op'] == 'Hang' and e['what'] == 'died': return {'op': 'Fault', 'by': label, 'what': 'a process died (status %d)' % e['status'], 'report': ''}
        if e['op'] == 'Crash':
            se = e.get('stderr', '')
            if 'Flag parsing failed' in se or 'valgrind: failed' in se.lower() or 'ASan runtime does not come first' in se: raise CheckError(se)
            if 'timeout' in e['what'] or e['what'] == 'rc=-9': return {'op': 'Clean', 'by': label, 'n': 0}
            if e['what'] == 'rc=-6' and 'terminate called' in se and not any(m in se for m in MARKS[:4]): return {'op': 'Clean', 'by': label, 'n': 0}
            return {'op': 'Fault', 'by': label, 'what': e['what'], 'report': se[:1500]}
    return {'op': 'Clean', 'by': label, 'n': len(t['ev'])}

def main(ctx):
    for tr, rel, rc in (('TRUE', 'TRUE', 0), ('FALSE', 'TRUE', 12), ('TRUE', 'FALSE', 11)):
        cfg = 'SPECIFICATION Spec\nCONSTANTS E = %d Translate = %s Release = %s\nCONSTRAINT Bound\nINVARIANTS TypeOK CallerKept NoDangling\n' % (3 if THOROUGH and rc == 0 else 2, tr, rel)
        if rc == 0: tlc_model(ctx, 'MC_Lifetime', cfg, expect_min=5000, timeout=3000)
        elif tlc(ctx, 'MC_Lifetime', cfg)['rc'] != rc: raise CheckError('MC_Lifetime misses a broken design')

    # ---------------------------------------------------------------- programs
    def san(src, name, defs=(), extra=(), **kw):
        # the debug containers do not fit the installed Boost.Serialization
        return ('libs' not in kw and 'mpi' not in kw or None) and cxx(ctx, src, name, defs=defs, extra=SAN + DBG + list(extra), must=False, **kw) or \
               cxx(ctx, src, name + '_nd', defs=defs, extra=SAN + list(extra), must=False, **kw)
    # storage that was never written has other contents in these
    fill = lambda src, name, defs=(): cxx(ctx, src, name, defs=defs, extra=['-ftrivial-auto-var-init=pattern', '-fno-lifetime-dse'], opt='-O0', must=False)
    FILLED = [('p' + k, lambda k=k, a=a: fill(a[0], 'p_' + k, a[1])) for k, a in
              {'vd': ('drv_mcb.cpp', []), 'vi': ('drv_mcb.cpp', ['WT=int']), 'va_': ('drv_mcb.cpp', ['APPROX']), 'vc': ('drv_cand.cpp', []), 'vfo': ('drv_forest.cpp', []), 'vfv': ('drv_fvs.cpp', []), 'vdi': ('drv_dimacs.cpp', [])}.items()]
    ser = dict(libs=LIBS + ['-lboost_serialization'])
    S = [('life', lambda: cxx(ctx, 'drv_life.cpp', 'life')), ('lifei', lambda: cxx(ctx, 'drv_life.cpp', 'lifei', defs=['WT=int'])),
         ('lifet', lambda: cxx(ctx, 'drv_life.cpp', 'lifet', defs=['TBB', 'VERIF_THREADS'], extra=MOCK, must=False)),
         ('mpi', lambda: san('drv_mpi.cpp', 'a_mpi', ['VERIF_NOHEAP'], MMOCK, mpi=1)),
         ('at', lambda: san('drv_mcb.cpp', 'a_at', ['TBB', 'VERIF_THREADS', 'APPROX'], MOCK)),
         ('t', lambda: san('drv_mcb.cpp', 'a_t', ['TBB', 'VERIF_THREADS'], MOCK)),
         ('rt', lambda: san('drv_mcb.cpp', 'a_rt', ['TBB', 'WT=int'])),
         ('d', lambda: san('drv_mcb.cpp', 'a_d')), ('i', lambda: san('drv_mcb.cpp', 'a_i', ['WT=int'])), ('x', lambda: san('drv_mcb.cpp', 'a_x', ['EXTW'])),
         ('a', lambda: san('drv_mcb.cpp', 'a_a', ['APPROX'])), ('ai', lambda: san('drv_mcb.cpp', 'a_ai', ['APPROX', 'WT=int'])),
         ('c', lambda: san('drv_cand.cpp', 'a_c')), ('ci', lambda: san('drv_cand.cpp', 'a_ci', ['WT=int'])), ('tr', lambda: san('drv_trees.cpp', 'a_tr')), ('fo', lambda: san('drv_forest.cpp', 'a_fo')),
         ('fv', lambda: san('drv_fvs.cpp', 'a_fv')), ('va', lambda: san('drv_validators.cpp', 'a_va')),
         ('sp', lambda: san('drv_spanner.cpp', 'a_sp') or san('drv_spanner.cpp', 'a_spn', ['NOHOOK'])),
         ('di', lambda: san('drv_dimacs.cpp', 'a_di')), ('gf', lambda: san('drv_gf2.cpp', 'a_gf', **ser)),
         ('fp', lambda: san('drv_fp.cpp', 'a_fp', ['PT=long'], **ser)), ('fpi', lambda: san('drv_fp.cpp', 'a_fpi', ['PT=int'], **ser)),
         ('vd', lambda: cxx(ctx, 'drv_mcb.cpp', 'v_d', opt='-O0', extra=['-fno-lifetime-dse'])), ('va_', lambda: cxx(ctx, 'drv_mcb.cpp', 'v_a', opt='-O0', extra=['-fno-lifetime-dse'], defs=['APPROX'])), ('vi', lambda: cxx(ctx, 'drv_mcb.cpp', 'v_i', opt='-O0', extra=['-fno-lifetime-dse'], defs=['WT=int'])),
         ('vc', lambda: cxx(ctx, 'drv_cand.cpp', 'v_c', opt='-O0', extra=['-fno-lifetime-dse'])), ('vdi', lambda: cxx(ctx, 'drv_dimacs.cpp', 'v_di', opt='-O0', extra=['-fno-lifetime-dse'])), ('vfo', lambda: cxx(ctx, 'drv_forest.cpp', 'v_fo', opt='-O0', extra=['-fno-lifetime-dse'])), ('vfv', lambda: cxx(ctx, 'drv_fvs.cpp', 'v_fv', opt='-O0', extra=['-fno-lifetime-dse'])),
         ('vgf', lambda: cxx(ctx, 'drv_gf2.cpp', 'v_gf', opt='-O0', extra=['-fno-lifetime-dse'], **ser)),
         ] + FILLED + [('ts', lambda: cxx(ctx, 'drv_mcb.cpp', 't_d', defs=['TBB', 'VERIF_THREADS'], extra=MOCK + ['-fsanitize=thread'], must=False)),
         ('tsa', lambda: cxx(ctx, 'drv_mcb.cpp', 't_a', defs=['TBB', 'VERIF_THREADS', 'APPROX'], extra=MOCK + ['-fsanitize=thread'], must=False))]
    exe = dict(zip([k for k, _ in S], parallel([f for _, f in S])))
    log('compiled', [k for k in exe if exe[k]], 'not:', [k for k in exe if not exe[k]])
    leaks, vg, tsan = lsan_works(ctx), valgrind_works(ctx), c03.tsan_works(ctx)
    ctx.cov['monitors'] = {'AddressSanitizer+UBSan': True, 'LeakSanitizer': leaks, 'memcheck': vg, 'ThreadSanitizer': tsan}
    env = dict(ENV, ASAN_OPTIONS=ENV['ASAN_OPTIONS'] % leaks, VERIF_SEED=str(SEED), VERIF_REPS='1')
    if leaks: env['VERIF_LSAN'] = '1'

    # ---------------------------------------------------------------- ownership, event by event
    rnd = random.Random(SEED)
    small = graphs.exact_cases(SEED + 71, 500 if THOROUGH else 60, atlas_n=5 if THOROUGH else 4, atlas_sample=20, maxn=9)
    small = [c for c in small if len(c.E) <= 22]
    for c in small: c.ks = [1, rnd.choice([2, 3]), 50]
    byid = {c.id: c for c in small}
    for lb, cs in (('life', small), ('lifei', [c for c in small if c.den == 1][::3]), ('lifet', small[::2])):
        if not exe[lb]: continue
        def life(cs):
            ts = run_driver(ctx, exe[lb], cs, env={'VERIF_REPS': '1'})
            for t in ts:
                if t['ev'] and t['ev'][-1]['op'] == 'Crash': t['ev'] = t['ev'][:-1] + [verdict(lb, t)]
            return ts
        ts = life(cs)
        ctx.add('calls_with_every_allocation', sum(1 for t in ts for e in t['ev'] if e['op'] == 'Enter'))
        ctx.add('allocations_and_releases', sum(len(e['a']) for t in ts for e in t['ev'] if e['op'] == 'Mem'))
        ctx.add('objects_referred_to', sum(len(e['o']) for t in ts for e in t['ev'] if e['op'] == 'Handed'))
        check_traces(ctx, 'TraceLifetime', 'SPECIFICATION TSpec\n', ts, lambda i: life([byid[i]])[0], 'C07.' + lb, per_trace=1, certain=False)
        log(lb, len(ts), 'graphs')

    # ---------------------------------------------------------------- monitored runs
    cases = graphs.exact_cases(SEED + 72, 5000 if THOROUGH else 700, atlas_n=6 if THOROUGH else 5, atlas_sample=250, maxn=14) + mcb.medium(SEED + 73, 30 if THOROUGH else 12) + limits(rnd) + long(rnd) + deep(rnd)
    for c in cases: c.ks = sorted({1, rnd.choice([2, 3]), rnd.choice([4, 50, -1])})
    h = lambda c: mcb.hash_(c.id)
    light = lambda c: c.n <= 60
    shal = lambda c: c.id[0] != 'D'
    isint = lambda c: c.den == 1 and shal(c)
    one = lambda c: c.id[0] != 'M'            # sums that do not fit an int: only the int programs care
    plan = [('d', shal, {}), ('i', isint, {}), ('x', lambda c: light(c) and h(c) % 3 == 0, {}), ('a', lambda c: light(c) or c.id[0] == 'w', {}), ('ai', lambda c: isint(c) and light(c), {}),
            ('t', lambda c: light(c) and h(c) % 4 == 0, {}), ('at', lambda c: light(c) and h(c) % 8 == 0, {}), ('rt', lambda c: isint(c) and light(c) and h(c) % 2 == 0, {'VERIF_WORKERS': '4'}),
            ('c', lambda c: light(c) or c.id == 'w2', {}), ('ci', lambda c: isint(c) and light(c), {}), ('tr', light, {}), ('sp', shal, {}), ('fo', lambda c: True, {}), ('fv', lambda c: True, {}), ('va', lambda c: True, {})]
    runs = []
    def go1(lb, ex, cs, e, **kw):
        return {t['id']: verdict(lb, t) for t in run_driver(ctx, ex, cs, env=dict(env, **e), case_timeout=100, **kw)}
    for lb, f, e in plan:
        if exe[lb]: runs.append((lb, f, lambda cs, lb=lb, e=e: go1(lb, exe[lb], cs, e, shards=4 if lb == 'rt' else None)))
        else: ctx.assumptions.append('%s did not compile with sanitizers' % lb)
    if exe['mpi']:
        def gompi(cs):
            sub = [graphs.Case(c.id, c.n, c.E, c.den, [1, 2 + h(c) % 4]) for c in cs]
            return go1('mpi', exe['mpi'], sub, {})
        runs.append(('mpi', lambda c: light(c) and one(c) and h(c) % (2 if THOROUGH else 6) == 0, gompi))
    if vg:
        k = 1 if THOROUGH else 4
        for lb, f in (('vd', lambda c: light(c) and h(c) % k == 0), ('vi', lambda c: isint(c) and light(c) and h(c) % k == 1 % k), ('va_', lambda c: light(c) and h(c) % k == 2 % k), ('vc', lambda c: light(c) and h(c) % k == 3 % k),
                      ('vfo', lambda c: light(c) and h(c) % 3 == 0), ('vfv', lambda c: light(c) and h(c) % 3 == 0)):
            runs.append((lb, f, lambda cs, lb=lb: go1('memcheck.' + lb, exe[lb], cs, {}, wrap=VG)))
    else: ctx.assumptions.append('valgrind does not work here: uninitialised storage was only looked for with fill patterns')
    def pair(lb, cs, wrap=()):
        """the same run with different contents of unwritten storage"""
        a = {t['id']: t for t in run_driver(ctx, exe[lb], cs, env=env, case_timeout=100)}
        b = {t['id']: t for t in run_driver(ctx, exe['p' + lb], cs, env=dict(env, MALLOC_PERTURB_='165'), case_timeout=100)}
        sig = lambda t: json.dumps(t['ev'])
        a2 = None
        res = {}
        for i in a:
            if i not in b: continue
            v = verdict('plain.' + lb, a[i])
            if v['op'] == 'Clean': v = verdict('filled.' + lb, b[i])
            if v['op'] == 'Clean' and v['n'] > 0:
                x, y = sig(a[i]), sig(b[i])
                if x != y:          # not a difference if the plain program does not agree with itself
                    if a2 is None: a2 = {t['id']: t for t in run_driver(ctx, exe[lb], cs, env=env, case_timeout=100)}
                    if i not in a2 or sig(a2[i]) != x: y = x; ctx.add('runs_that_differ_by_themselves')
                d = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                v = {'op': 'Twice', 'by': lb, 'a': hashlib.md5(x.encode()).hexdigest(), 'b': hashlib.md5(y.encode()).hexdigest(), 'at': [] if x == y else [x[max(0, d - 150):d + 100], y[max(0, d - 150):d + 100]]}
            res[i] = v
        return res
    for lb in ('vd', 'vi', 'va_', 'vc', 'vfo', 'vfv'):
        if exe['p' + lb]: runs.append((('filled.' + lb), (lambda c: isint(c) and light(c)) if lb == 'vi' else light, lambda cs, lb=lb: pair(lb, cs)))
    if tsan and exe['ts']:
        te = {'TSAN_OPTIONS': 'halt_on_error=1 exitcode=66 report_signal_unsafe=0 history_size=7 suppressions=' + os.path.join(HARN, 'tbbmock/tsan.supp'), 'VERIF_REPS': '1'}
        for lb in ('ts', 'tsa'):
            if exe[lb]: runs.append((lb, lambda c: light(c) and h(c) % 6 == 1, lambda cs, lb=lb: go1('tsan.' + lb, exe[lb], cs, te)))
    if not leaks: ctx.assumptions.append('LeakSanitizer does not work here: leaks were only looked for in the event-by-event runs')

    def every(cs):
        res = {c.id: [] for c in cs}
        for lb, f, g in runs:
            part = [c for c in cs if f(c)]
            if not part: continue
            vs = g(part)
            for i, v in vs.items(): res[i].append(v)
            ctx.add('monitored_runs', len(vs)); ctx.cov.setdefault('runs', {})[lb] = len(vs)
            log(lb, len(vs), [v for v in vs.values() if v['op'] == 'Fault' or v['op'] == 'Twice' and v['a'] != v['b']][:1])
        return [{'id': c.id, 'n': c.n, 'den': c.den, 'E': [list(e) for e in c.E], 'ev': res[c.id]} for c in cs if res[c.id]]
    ts = every(cases)
    ctx.add('graphs', len(cases)); ctx.add('forests', sum(1 for c in cases if c.dim() == 0)); ctx.add('max_n', max(c.n for c in cases))
    for t in ts[7::max(1, len(ts) // 3)]: ctx.sample({'id': t['id'], 'n': t['n'], 'E': t['E'][:20], 'events': t['ev'][:4]})
    # a report keeps only what does not fit TLC's integers out of the trace
    for t in ts: t['E'] = t['E'] if all(abs(x) < 2 ** 31 for e in t['E'] for x in e) else []
    check_traces(ctx, 'TraceLifetime', 'SPECIFICATION TSpec\n', ts, None, 'C07.monitors', per_trace=1)

    # ---------------------------------------------------------------- histories: reader and vectors
    hs = {'di': [c10.text_case(rnd, 'x%d' % i, i % 10 == 0) for i in range(3000 if THOROUGH else 900)],
          'gf': [c17.rnd_hist(rnd, 'y%d' % i, rnd.randint(1, 4), rnd.choice([1, 3, 8, 64]), 40) for i in range(800 if THOROUGH else 250)]}
    hs['vdi'] = hs['di'][:120]; hs['vgf'] = hs['gf'][:40]
    hs['fp'] = [c18.vec_hist(rnd, 'z%d' % i, 'long', 2 ** 63 - 1, 25) for i in range(150)] + c18.numeric(random.Random(SEED), 'long', 2 ** 63 - 1)[:25]
    hs['fpi'] = [c18.vec_hist(rnd, 'z%d' % i, 'int', 2 ** 31 - 1, 25) for i in range(150)] + c18.numeric(random.Random(SEED), 'int', 2 ** 31 - 1)[:25]
    for lb, part in hs.items():
        if not exe[lb] or not part or (lb[0] == 'v' and not vg): continue
        def goh(p): return [{'id': t['id'], 'n': t['n'], 'ev': [verdict(lb, t)]} for t in run_driver(ctx, exe[lb], p, env=env, wrap=VG if lb[0] == 'v' else ())]
        ts = goh(part)
        if lb == 'vdi' and exe['pvdi']: ts += [{'id': i, 'n': 0, 'ev': [v]} for i, v in pair('vdi', part).items()]
        ctx.cov.setdefault('runs', {})[lb] = len(ts)
        check_traces(ctx, 'TraceLifetime', 'SPECIFICATION TSpec\n', ts, None, 'C07.' + lb, per_trace=1)
    ctx.assumptions += ['faults are those the monitors see: AddressSanitizer, UBSan, LeakSanitizer, libstdc++ debug mode, memcheck, ThreadSanitizer',
                        'what a process keeps for later calls does not count as leaked: every recorded call is preceded by an equal one']
def limits(rnd):
    """int weights whose path and cycle sums fit, but only just"""
    M = 2 ** 31 - 1; res = []
    for n in (3, 4, 5, 6, 9):
        for kind in range(4):
            if kind == 0: w = [M // n] * n
            elif kind == 1: w = [M - n + 1] + [1] * (n - 1)
            elif kind == 2: w = [M // 2 - n] + [1] * (n - 2) + [M // 2 - n]
            else:
                w = [rnd.random() for _ in range(n)]; s = sum(w); w = [max(1, int(x / s * (M - n))) for x in w]
            n2, E = graphs.shuffle(rnd, n, [(u, v, x) for (u, v), x in zip(graphs.cycle(n)[1], w)])
            res.append(graphs.Case('M%d' % len(res), n2, E))
    for n in (2, 3, 5, 8):
        n2, E = graphs.shuffle(rnd, n, [(u, v, M // (n - 1)) for u, v in graphs.tree(rnd, n)[1]])
        res.append(graphs.Case('M%d' % len(res), n2, E))
    return res

def deep(rnd):
    """long enough for anything that recurses along a path to run out of stack"""
    res = []
    for k, (n, E) in enumerate([graphs.cycle(150000), graphs.path(150000)]):
        res.append(graphs.Case('D%d' % k, n, [(u, v, 1) for u, v in E]))
    n, E = graphs.shuffle(rnd, *graphs.cycle(60000)); res.append(graphs.Case('D2', n, [(u, v, 1) for u, v in E]))
    return res

def long(rnd):
    """deep structures"""
    res = []
    for k, (n, E) in enumerate([graphs.cycle(100), graphs.path(150), graphs.theta([30, 30, 30]), (200, [(0, i) for i in range(1, 200)]), graphs.union(graphs.cycle(40), graphs.cycle(41), (80, []))]):
        n, E = graphs.shuffle(rnd, n, [(u, v, 1) for u, v in E])
        res.append(graphs.Case('w%d' % k, n, E))
    return res
