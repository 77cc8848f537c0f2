"""C11: the command line programs, run as processes, against Demo.tla / TraceDemo.tla."""
from vlib import *
from props import demos, mpi, hist
import graphs, random

def num(w, den, rnd):
    if den == 1: return rnd.choice(['%d', '%d', '%d', '%d.0', '%d.']) % w if w >= 0 else '%d' % w
    s = '-' if w < 0 else ''; w = abs(w)
    d = len(str(den)) - 1 if den != 2 else 1
    f = (w % den) * (10 ** d // den)
    t = '%d.%0*d' % (w // den, d, f)
    return s + (t.rstrip('0').rstrip('.') if rnd.random() < .5 else t)

def dimacs(rnd, n, E, den):
    ls = []
    if rnd.random() < .5: ls.append('c a graph')
    ls.append('p %s %d %d' % (rnd.choice(['edge', 'sp', 'col']), n, len(E)))
    for u, v, w in E:
        if rnd.random() < .05: ls.append(rnd.choice(['c e 1 1 5', '# nothing', 'c']))
        ls.append('%s %d %d' % (rnd.choice('eea'), u + 1, v + 1) + ('' if w == den and rnd.random() < .7 else ' ' + num(w, den, rnd)))
    return ls

def break_(rnd, n, E, den, bad):
    """violate exactly these preconditions"""
    E = list(E)
    if n < 2: n = 2
    big = lambda: rnd.randint(1, 5) * den
    if not E: E.append((0, 1, big()))
    if 'multiple' in bad:
        for _ in range(rnd.choice([1, 1, 1, 2])):
            u, v, w = rnd.choice(E); e = rnd.choice([(u, v), (v, u)])
            E.insert(rnd.choice([len(E), rnd.randint(0, len(E))]), e + (rnd.choice([w, big()]),))
    if 'loop' in bad:
        xs = {u for u, _, _ in E} | {v for _, v, _ in E}
        x = rnd.choice([rnd.randrange(n), n - 1, 0, rnd.choice(sorted(xs))])
        E.insert(rnd.choice([len(E), 0, rnd.randint(0, len(E))]), (x, x, big()))
    if 'nonpositive' in bad:
        for _ in range(rnd.choice([1, 1, 2])):
            i = rnd.choice([len(E) - 1, 0, rnd.randrange(len(E))])
            E[i] = E[i][:2] + (rnd.choice([0, 0, -1, -den, -7 * den]),)
    return n, E

class File:
    def __init__(self, id, n, E, den, bad, lines):
        self.id, self.n, self.E, self.den, self.bad, self.lines = id, n, E, den, sorted(bad), lines
        self.runs = []
    def head(self):
        return [{'op': 'Line', 's': [ord(c) for c in x]} for x in self.lines] + [{'op': 'Gate', 'bad': self.bad}]

def files(seed, nvalid, nbad):
    rnd = random.Random(seed); res = []
    fixed = [(0, []), (1, []), (5, []), graphs.path(4), graphs.cycle(3), graphs.complete(5), graphs.union(graphs.cycle(3), graphs.cycle(4), (2, [])), graphs.petersen(), graphs.grid(3, 4), graphs.hypercube(3)]
    kinds = [set(), {'loop'}, {'multiple'}, {'nonpositive'}, {'loop', 'multiple'}, {'loop', 'nonpositive'}, {'multiple', 'nonpositive'}, {'loop', 'multiple', 'nonpositive'}]
    for i in range(nvalid + nbad):
        bad = set() if i < nvalid else kinds[1 + i % 7]
        g = fixed[i] if i < len(fixed) else graphs.small_random(rnd, rnd.choice([5, 8, 12] if bad else [6, 9, 13]))
        den = rnd.choice([1, 1, 1, 10, 100, 1000, 2])
        E = graphs.weights(rnd, g[1], rnd.choice(['unit', 'one2', 'one3', 'to10', 'to10']))
        if den != 1: E = [(u, v, rnd.choice([w, w * den, w * den // 2 or 1])) for u, v, w in E]
        n, E = graphs.shuffle(rnd, g[0], E)
        if bad: n, E = break_(rnd, n, E, den, bad)
        res.append(File('f%d' % i, n, E, den, bad, dimacs(rnd, n, E, den)))
    return res

def main(ctx):
    exes = demos.build(ctx, plain=('mcb', 'approx', 'stats', 'mpi'))
    cfg = 'SPECIFICATION Spec\nCONSTANTS P = %d Rounds = %d Gate = "%s"\nINVARIANTS Gated Honest\nPROPERTY Terminates\n'
    for p in (1, 2, 3, 4) + ((5, 6) if THOROUGH else ()): tlc_model(ctx, 'Demo', cfg % (p, 3, 'all'), deadlock=False, expect_min=8)
    r = tlc(ctx, 'Demo', cfg % (3, 3, 'root'), deadlock=False)
    if r['rc'] not in (12, 13): raise CheckError('Demo: a gate on process 0 alone is not seen: rc=%d\n%s' % (r['rc'], r['out'][-2000:]))
    configs = hist.tlc_histories(ctx, 'GenDemo', 'SPECIFICATION Spec\n', expect=1000)
    by = {p: [c for c in configs if c['prog'] == p] for p in demos.PROG}
    for p in by: by[p].sort(key=lambda c: json.dumps(c, sort_keys=True))
    rnd = random.Random(SEED + 11)
    X = 6 if THOROUGH else 1
    fs = files(SEED + 12, 70 * X, 105 * X)
    usempi = mpi.available(ctx)
    if not usempi: ctx.assumptions.append('mpirun does not work in this sandbox: the MPI program was not run')
    def share(p, k): return rnd.sample(by[p], min(k, len(by[p])))
    for i, f in enumerate(fs):
        if f.bad: f.runs = share('mcb', 3) + share('approx', 3) + share('stats', 1)
        else:
            ks = rnd.sample([2, 2, 3, 4, 9], 2)
            f.runs = share('mcb', 14) + [dict(c, k=ks[j % 2]) for j, c in enumerate(share('approx', 10))] + share('stats', 1)
    for f in fs[7:9]: f.runs = by['mcb'][::3]                # (nearly) all combinations on two graphs
    good = [f for f in fs if not f.bad]; bad = [f for f in fs if f.bad]
    if usempi:
        for f in rnd.sample(good, 16 * X) + rnd.sample(bad, 21 * X) + good[:3]: f.runs = f.runs + share('mpi', 1)
        f = good[5]; f.runs = f.runs + [c for P in (1, 2, 3, 4, 8) for c in [rnd.choice([c for c in by['mpi'] if c['P'] == P])]]
        for f in bad[:7]: f.runs = f.runs + [rnd.choice([c for c in by['mpi'] if c['P'] == P]) for P in (1, 3)]
    os.makedirs(ctx.path('files'))
    for f in fs:
        f.path = ctx.path('files/%s.gr' % f.id)
        open(f.path, 'w').write('\n'.join(f.lines) + rnd.choice(['\n', '\n', '']))
    sem = threading.Semaphore(4)
    limit = lambda c, again: 60 if again else 30
    def go(f, c, again=False):
        exe = exes[(c['prog'], mcbhash(f.id + json.dumps(c, sort_keys=True)) % 3 != 0)] if not again else exes[(c['prog'], 1)]
        if c['prog'] == 'mpi':
            with sem: r = demos.one(ctx, exe, c, f.path, f.den, limit(c, again))
        else: r = demos.one(ctx, exe, c, f.path, f.den, limit(c, again))
        if -1 in r['codes'] and not again:
            r = go(f, c, True)                                          # slow machine? once more, longer
            if -1 in r['codes']: hung[f.id] = hung.get(f.id, 0) + 1
        return r
    hung = {}
    def job(f, c): return None if len(hung) >= 2 else go(f, c)          # two files on which a program hangs are enough
    def trace(f, runs): return {'id': f.id, 'n': f.n, 'den': f.den, 'E': [], 'file': f.lines, 'ev': f.head() + runs}
    jobs = [(f, c) for f in fs for c in f.runs]
    log(len(fs), 'files', len(jobs), 'runs', sum(c['prog'] == 'mpi' for _, c in jobs), 'under mpirun')
    jobs.sort(key=lambda j: j[1]['prog'] != 'mpi')
    res = parallel([lambda j=j: job(*j) for j in jobs])
    jobs = [j for j, r in zip(jobs, res) if r]; res = [r for r in res if r]
    got = {}
    for (f, c), r in zip(jobs, res): got.setdefault(f.id, []).append(r)
    ts = [trace(f, got[f.id]) for f in fs if f.id in got]
    if hung: ts = [t for t in ts if t['id'] in hung]
    fid = {f.id: f for f in fs}
    for k in ('all', 'stderr'):
        for r in res: r.pop(k, None)
    for p in demos.PROG: ctx.add('runs_' + p, sum(1 for r in res if r['prog'] == p))
    ctx.add('rejected_files', len(bad)); ctx.add('accepted_files', len(good))
    ctx.cov['process_counts'] = sorted({r['P'] for r in res if r['prog'] == 'mpi'})
    ctx.cov['slowest_run_s'] = max(r['secs'] for r in res)
    if not any(r['ran'] for r in res): raise CheckError('instrumentation saw no algorithm at all')
    for t in ts[3:200:60]: ctx.sample({'file': t['file'][:8], 'run': {k: v for k, v in t['ev'][-1].items() if k not in ('all',)}})
    first = {t['id']: t for t in ts}
    def again(i):
        if i in hung: return first[i]
        rs = [go(fid[i], c, True) for c in fid[i].runs]
        for r in rs:
            for k in ('all', 'stderr'): r.pop(k, None)
        return trace(fid[i], rs)
    check_traces(ctx, 'TraceDemo', 'SPECIFICATION TSpec\n', ts, again, 'C11', per_trace=1, certain=False)
    ctx.assumptions += ['a program that does not end within 30 s (60 s when repeated) on a graph of at most 14 vertices is taken not to terminate',
                        'printed weights have 6 significant digits; algorithms are seen through instrumented function entries']

def mcbhash(s): return int(hashlib.md5(s.encode()).hexdigest()[:8], 16)
