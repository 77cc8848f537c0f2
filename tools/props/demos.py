"""The command line programs: build, run, observe."""
from vlib import *
from props import mpi, hist
import random, re
PROG = {'mcb': 'mcb-dimacs', 'approx': 'approx-mcb-dimacs', 'stats': 'collection-stats-dimacs', 'mpi': 'mcb-dimacs-mpi'}

def build(ctx, progs=('mcb', 'approx', 'stats', 'mpi'), plain=()):
    """instrumented builds (which algorithms were entered, what TBB allows then), and plain optimised ones"""
    hook = ctx.path('hook.o')
    rc, o, e = run(['g++', '-std=c++17', '-O1', '-DHOOK_TBB', '-c', os.path.join(HARN, 'demo_hook.cpp'), '-o', hook])
    if rc: raise CheckError(e[-2000:])
    def go(p, inst):
        libs = ['-lboost_program_options'] + LIBS + ['-lboost_thread'] + LIBS_TBB + (LIBS_MPI if p == 'mpi' else [])
        src = os.path.join(REPO, 'src', PROG[p] + '.cpp')
        if inst: return cxx(ctx, src, 'demo_i_' + p, mpi=int(p == 'mpi'), inv=1, opt='-O0', extra=['-finstrument-functions', '-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,bits/', '-rdynamic'],
                            libs=[hook, '-ldl'] + libs)
        return cxx(ctx, src, 'demo_o_' + p, mpi=int(p == 'mpi'), inv=1, opt='-O2', libs=libs)
    jobs = [(p, 1) for p in progs] + [(p, 0) for p in plain]
    return dict(zip(jobs, parallel([lambda j=j: go(*j) for j in jobs])))

def args(c):
    b = lambda x: ['false', 'true'][x]
    a = []
    for o, v in (('signed', c['alg']['signed']), ('fvstrees', c['alg']['fvs']), ('isotrees', c['alg']['iso'])):
        if c['prog'] != 'stats' and v != -1 and not (o != 'signed' and v == 0): a.append('--%s=%s' % (o, b(v)))
    if c['prog'] in ('mcb', 'approx'):
        if c['par'] != -1: a.append('--parallel=' + b(c['par']))
        if c['cores'] != -1: a.append('--cores=%d' % c['cores'])
    if c['prog'] == 'approx' and c['k'] != -1: a.append('--k=%d' % c['k'])
    if c['verbose']: a.append('-v')
    if c['print']: a.append('--printcycles')
    return a

def interval(s, den):
    """the scaled weights a printed decimal stands for (6 significant digits are printed), as <<lo, hi>>"""
    from fractions import Fraction as F
    import math
    try: v = F(s)
    except ValueError:
        try: v = F(float(s))
        except (ValueError, OverflowError): return [-1, -1]
    dig = re.sub(r'e.*', '', s.lower()).lstrip('-+')
    nd = len(dig.replace('.', '').lstrip('0'))
    if nd < 6: u = F(0)                                        # fewer digits than printed at most: exact
    else:
        e = int(s.lower().split('e')[1]) if 'e' in s.lower() else 0
        dec = len(dig.split('.')[1]) if '.' in dig else 0
        u = F(10) ** (e - dec) / 2
    lo, hi = math.ceil((v - u) * den), math.floor((v + u) * den)
    if hi > 2 ** 31 - 1 or lo < -2 ** 31 or lo > hi: return [-1, -1]
    return [lo, hi]

def observe(outs, errs, den):
    text = '\n'.join(outs)
    ws = [interval(x, den) for x in re.findall(r'(?i)weight\s*[=:]\s*(\S+)', text)]
    lines = [x for x in ('\n'.join(outs + errs)).split('\n') if x.strip() and not re.search(r'(?i)(vertices|edges$|processor name|^graph [nm])', x)]
    return ws, int(bool(lines))

def read_ran(f):
    ran, av, threads = [], [], 0
    try: data = open(f).read()
    except OSError: return ran, av, threads
    for x in data.split('\n'):
        p = x.split()
        if len(p) >= 2 and p[0] == 'enter': ran.append(' '.join(p[1:-1])); av.append(int(p[-1]))
        if len(p) == 2 and p[0] == 'threads': threads = int(p[1])
    return ran, av, threads

SH = 'R=$OMPI_COMM_WORLD_RANK; F=$1; shift; "$@" >$F.out.$R 2>$F.err.$R; echo $? >$F.rc.$R; exit 0'
def one(ctx, exe, c, file, den, limit):
    f = ctx.fresh('run')
    P = c['P']
    cmd = [exe] + ([file] + args(c) if c['verbose'] or P % 2 == 0 else args(c) + ['-I', file])   # -v takes the next word for its value
    t0 = time.time()
    if c['prog'] == 'mpi':
        tmp = f + '.d'; os.makedirs(tmp)
        env = dict(mpi.ENV, OMPI_MCA_orte_tmpdir_base=tmp, TMPDIR=tmp, VERIF_RAN=f + '.ran')
        rc, o, e = run(['mpirun', '--allow-run-as-root', '--oversubscribe', '-n', str(P), 'sh', '-c', SH, 'sh', f] + cmd, timeout=limit, env=env)
        codes, outs, errs, ran = [], [], [], []
        for r in range(P):
            rd = lambda x: open('%s.%s.%d' % (f, x, r), errors='replace').read() if os.path.exists('%s.%s.%d' % (f, x, r)) else ''
            codes.append(int(rd('rc')) if rd('rc').strip() else (-1 if rc == -9999 else -2))
            outs.append(rd('out')); errs.append(rd('err')); ran += read_ran('%s.ran.%d' % (f, r))[0]
        shutil.rmtree(tmp, ignore_errors=True)
        av, threads = [], 0
        xs = 1 if rc else 0
    else:
        rc, o, e = run(cmd, timeout=limit, env={'VERIF_RAN': f + '.ran'})
        codes = [-1 if rc == -9999 else 128 - rc if rc < 0 else rc]
        outs, errs = [o], [e]
        ran, av, threads = read_ran(f + '.ran')
        xs = 1 if rc else 0
    ws, diag = observe(outs, errs, den)
    return {'op': 'Run', 'prog': c['prog'], 'args': ' '.join(args(c)), 'k': c['k'] if c['k'] != -1 else 2, 'P': P, 'cores': c['cores'], 'par': c['par'], 'exit': xs, 'codes': codes,
            'diag': diag, 'weights': ws, 'ran': [x for x in ran if re.search(r'mcb_sva_|CyclesBuilder', x)], 'all': list(zip(ran, av)), 'threads': threads, 'secs': round(time.time() - t0, 2),
            'stderr': ' '.join(errs)[-300:]}
