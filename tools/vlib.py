"""Build, run, validate, report: shared by all checks."""
import os, sys, json, time, re, shutil, subprocess, tempfile, threading, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
HARN = os.path.join(ROOT, 'harness')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = max(2, os.cpu_count() or 8)
TLCCP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class CheckError(Exception):
    """the check could not decide (exit 2)"""

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)
T0 = time.time()

# ------------------------------------------------------------------ processes
def run(cmd, timeout=600, env=None, cwd=None, stdin=None):
    """-> (rc, out, err); rc = -9999 on timeout.  The whole process group is ended on timeout."""
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL if stdin is None else stdin,
                         cwd=cwd, env=e, start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        for s in (signal.SIGTERM, signal.SIGKILL):
            try: os.killpg(p.pid, s)
            except ProcessLookupError: pass
            try:
                o, r = p.communicate(timeout=3); break
            except subprocess.TimeoutExpired:
                o, r = b'', b''
        rc = -9999
    return rc, o.decode('utf8', 'replace'), r.decode('utf8', 'replace')

# ------------------------------------------------------------------ scratch
class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.replays = os.path.join(ROOT, 'replays', pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []       # (what, replay)
        self.known = []
        self._cfg = {}
        self.n = 0
        self.lock = threading.Lock()
    def path(self, name):
        return os.path.join(self.dir, name)
    def fresh(self, prefix):
        with self.lock:
            self.n += 1
            return self.path('%s%d' % (prefix, self.n))
    def add(self, key, k=1):
        with self.lock: self.cov[key] = self.cov.get(key, 0) + k
    def sample(self, x, limit=6):
        with self.lock:
            if len(self.samples) < limit: self.samples.append(x)
    def replay_dir(self):
        os.makedirs(self.replays, exist_ok=True)
        return self.replays
    def violation(self, what, files=None):
        """record a violation; files: name -> text kept beside it"""
        d = os.path.join(self.replay_dir(), 'v%d' % (len(self.violations) + 1))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'README'), 'w') as f: f.write(what + '\n')
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), 'w') as f: f.write(v)
        self.violations.append((what, d))
        log('violation:', what.splitlines()[0][:300])
    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -------------------------------------------------------------- building
    def config(self, tbb=1, mpi=0, inv=0, logging=0):
        key = 'cfg_t%d_m%d_i%d_l%d' % (tbb, mpi, inv, logging)
        d = self.path(key)
        with self.lock:
            if key not in self._cfg:
                os.makedirs(d + '/parmcb')
                with open(d + '/parmcb/config.hpp', 'w') as f:
                    f.write('#ifndef _PARMCB_CONFIG_HPP_\n#define _PARMCB_CONFIG_HPP_\n#define PARMCB_HAVE_BOOST\n')
                    if tbb: f.write('#define PARMCB_HAVE_TBB\n')
                    if mpi: f.write('#define PARMCB_HAVE_MPI\n')
                    if inv: f.write('#define PARMCB_INVARIANTS_CHECK\n')
                    if logging: f.write('#define PARMCB_LOGGING\n')
                    f.write('#endif\n')
                self._cfg[key] = d
        return d

MPI_INC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
LIBS = ['-lboost_timer', '-lboost_chrono', '-lboost_system']
LIBS_TBB = ['-ltbb']
LIBS_MPI = ['-lboost_mpi', '-lboost_serialization', '-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmpi_cxx', '-lmpi']

def cxx(ctx, src, name, defs=(), tbb=1, mpi=0, inv=0, opt='-O1', extra=(), pre_inc=(), libs=None, cc='g++', must=True, logging=0):
    """compile one driver from /repo's working tree; returns path (None when must is False and it does not compile)"""
    out = ctx.path(name)
    cmd = [cc, '-std=c++14', opt, '-g1', '-DNDEBUG', '-DPARMCB_VERIF', '-w'] + list(extra) + ['-D' + d for d in defs] + \
          ['-I' + p for p in pre_inc] + ['-I' + ctx.config(tbb, mpi, inv, logging), '-I' + os.path.join(REPO, 'include'), '-I' + HARN] + \
          (MPI_INC if mpi else []) + [src if src.startswith('/') else os.path.join(HARN, src), '-o', out] + \
          (libs if libs is not None else LIBS + (LIBS_TBB if tbb else []) + (LIBS_MPI if mpi else [])) + ['-pthread']
    rc, o, e = run(cmd, timeout=800)
    if rc != 0:
        if must: raise CheckError('does not compile: %s\n%s' % (' '.join(cmd), e[-4000:]))
        log('does not compile:', name, e.strip().splitlines()[:3])
        return None
    return out

def parallel(jobs, width=None):
    """jobs: list of thunks, run concurrently, results in order, first exception raised"""
    with ThreadPoolExecutor(max_workers=width or NCPU) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]

# ------------------------------------------------------------------ drivers
HISTORY = {}    # case id -> functions that repeat the process in which it crashed, True if it crashes at that case again

def run_driver(ctx, exe, cases, env=None, shards=None, timeout=900, wrap=(), max_crashes=3, case_timeout=60, on_stderr=None):
    """Run a driver over cases in parallel shards.  Returns list of traces (dict), in case order.
    A case on which the process dies gets a trace whose only event is Crash (with what happened)."""
    shards = min(shards or NCPU, max(1, len(cases)))
    parts = [cases[i::shards] for i in range(shards)]
    def replay(part):
        f = ctx.fresh('cases')
        with open(f, 'w') as fh: fh.write(''.join(c.text() for c in part))
        e = {'VERIF_CASE_TIMEOUT': str(case_timeout)}; e.update(env or {})
        rc, so, se = run(list(wrap) + [exe, f, f + '.out'], timeout=timeout, env=e)
        return rc not in (0, 3, -9999, -14, -9) and sum(1 for _ in open(f + '.out', 'rb')) == len(part) - 1
    def go(part):
        if not part: return []
        f = ctx.fresh('cases'); o = f + '.out'
        with open(f, 'w') as fh: fh.write(''.join(c.text() for c in part))
        res, skip, crashes = [], 0, 0
        open(o, 'w').close()
        while True:
            e = {'VERIF_CASE_TIMEOUT': str(case_timeout)}; e.update(env or {})
            rc, so, se = run(list(wrap) + [exe, f, o] + ([str(skip)] if skip else []), timeout=timeout, env=e)
            data = open(o, 'rb').read().decode('utf8', 'replace')
            lines = data.split('\n')
            full = [x for x in lines[:-1] if x]
            if on_stderr: on_stderr(se, rc, part, len(full))
            if rc == 0 and len(full) == len(part): break
            if rc == 3: raise CheckError('driver: ' + se[-2000:])
            bad = len(full)
            if bad >= len(part):
                # all cases done, but the process failed at exit
                full[-1] = crash_line(part[-1], rc, se); 
                open(o, 'w').write('\n'.join(full) + '\n'); break
            with open(o, 'w') as fh: fh.write(''.join(x + '\n' for x in full) + crash_line(part[bad], rc, se) + '\n')
            # a crash may need the cases before it in the same process
            if rc not in (-9999, -14, -9): HISTORY.setdefault(part[bad].id, []).append(lambda a=skip, b=bad: replay(part[a:b + 1]))
            crashes += 1; skip = bad + 1
            if crashes >= max_crashes or skip >= len(part): break
        return [json.loads(x) for x in open(o).read().split('\n') if x]
    outs = parallel([lambda p=p: go(p) for p in parts])
    byid = {t['id']: t for o in outs for t in o}
    return [byid[c.id] for c in cases if c.id in byid]

def crash_line(case, rc, se):
    what = 'timeout' if rc in (-9999, -14) else 'rc=%d' % rc
    d = {'id': case.id, 'n': case.n, 'den': case.den, 'E': [list(e) for e in case.E],
         'ev': [{'op': 'Crash', 'what': what, 'stderr': se if len(se) <= 1800 else se[:800] + ' ... ' + se[-1000:]}]}
    return json.dumps(d)

# ------------------------------------------------------------------ TLC
def tlc(ctx, module, cfg, env=None, workers=None, timeout=800, extra=(), heap='6g', deadlock=True, stack='64m'):
    """run TLC; -> dict(rc, out, distinct, generated)"""
    meta = ctx.fresh('tlc'); os.makedirs(meta)
    cfgf = meta + '.cfg'
    with open(cfgf, 'w') as f: f.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + stack, '-Djava.io.tmpdir=' + meta, '-cp', TLCCP + ':' + SPEC, 'tlc2.TLC', '-nowarning',
           '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers or NCPU), '-config', cfgf] + \
          ([] if deadlock else ['-deadlock']) + list(extra) + [os.path.join(SPEC, module + '.tla')]
    rc, o, e = run(cmd, timeout=timeout, env=env, cwd=meta)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', o)
    num = lambda s: int(s.replace(',', ''))
    shutil.rmtree(meta, ignore_errors=True)
    o = '\n'.join(x for x in o.split('\n') if not re.match(r'(Parsing file|Semantic processing|Linting of|Computed \d+ init)', x))
    return {'rc': rc, 'out': o + e, 'generated': num(m[-1][0]) if m else 0, 'distinct': num(m[-1][1]) if m else 0}

def tlc_model(ctx, module, cfg, env=None, expect_min=1, **kw):
    """exhaustive check of a design; any error is a check error (the model is ours), unless the caller handles it"""
    r = tlc(ctx, module, cfg, env, **kw)
    if r['rc'] != 0: raise CheckError('design model %s rejected (rc=%d):\n%s' % (module, r['rc'], r['out'][-4000:]))
    if r['distinct'] < expect_min: raise CheckError('design model %s: vacuous, %d states' % (module, r['distinct']))
    ctx.states += r['distinct']; ctx.transitions += r['generated']
    ctx.cov.setdefault('design_models', {})[module] = {'states': r['distinct'], 'transitions': r['generated']}
    log('design', module, r['distinct'], 'states')
    return r

def last_state(out):
    """tid and l of the last state of the printed error trace"""
    t = re.findall(r'/\\ tid = (\d+)', out); l = re.findall(r'/\\ l = (\d+)', out)
    return (int(t[-1]), int(l[-1])) if t and l else (None, None)

def validate(ctx, module, cfg, traces, per_trace=2, timeout=800, heap='8g', workers=None, env=None, stack='64m'):
    """Validate traces (list of dict with 'ev') against a trace specification.
    Returns (index, l, tlc output) of a rejected trace, or None.  Counts states; checks non-vacuity: every trace
    contributes one state per event plus per_trace (the initial state, and the step that loads the case)."""
    if not traces: return None
    f = ctx.fresh('trace') + '.ndjson'
    with open(f, 'w') as fh:
        for t in traces: fh.write(json.dumps(t) + '\n')
    e = {'TRACE': f}; e.update(env or {})
    r = tlc(ctx, module, cfg, e, timeout=timeout, heap=heap, workers=workers, stack=stack)
    if r['rc'] == 0:
        want = sum(len(t['ev']) + per_trace for t in traces)
        if r['distinct'] != want:
            raise CheckError('%s: %d states, expected %d: trace specification is not linear\n%s' % (module, r['distinct'], want, r['out'][-1500:]))
        ctx.states += r['distinct']; ctx.transitions += r['generated']
        ctx.traces += len(traces)
        os.unlink(f)
        return None
    if r['rc'] in (10, 11, 12, 13) or 'Deadlock reached' in r['out'] or 'is violated' in r['out']:
        tid, l = last_state(r['out'])
        if tid is None: raise CheckError('cannot read the error trace of %s\n%s' % (module, r['out'][-4000:]))
        return tid - 1, l - 1, r['out']
    raise CheckError('TLC failed on %s rc=%s\n%s' % (module, r['rc'], r['out'][-4000:]))

def check_traces(ctx, module, cfg, traces, again=None, label='', max_rejects=2, certain=True, **kw):
    """validate; on rejection run `again(case id)` -> fresh trace, validate that alone, and report only if it is rejected too.
    A rejected observation that is not repeated alone is reported all the same if it cannot come from the environment (`certain`:
    wrong results, but no crash or hang): it depends on what the process did before, or on the schedule.  A crash is repeated
    together with the cases before it.
    Rejected traces are removed and the rest validated again (up to max_rejects)."""
    traces = list(traces)
    found = tried = 0
    while found < max_rejects and tried < 6:
        tried += 1
        rej = validate(ctx, module, cfg, traces, **kw)
        if rej is None: break
        i, l, out = rej
        t = traces.pop(i)
        second = again(t['id']) if again else t
        rej2 = validate(ctx, module, cfg, [second], **kw) if second is not None else None
        if rej2 is None and again is not None:
            # not reproduced: schedule dependent entry points may need more than one try
            tries = 0
            while rej2 is None and tries < 2:
                tries += 1
                second = again(t['id'])
                rej2 = validate(ctx, module, cfg, [second], **kw)
        how = ''
        if rej2 is None and again is not None and l < len(t['ev']):
            e = t['ev'][l]
            if e['op'] == 'Crash' and any(f() for f in HISTORY.get(t['id'], [])[:3]): how = ' (only after the cases before it in the same process)'
            elif e['op'] not in ('Crash', 'Hang') and (certain(e) if callable(certain) else certain): how = ' (not when repeated alone: depends on earlier calls in the process or on the schedule)'
            if how: second, rej2 = t, rej
        if rej2 is None:
            log('rejection of %s not reproduced' % t['id'])
            ctx.add('unreproduced_rejections')
            continue
        _, l2, out2 = rej2
        found += 1
        ev = second['ev'][l2] if l2 < len(second['ev']) else {'op': 'end of trace'}
        ctx.violation('%s %s: event %d %s is no step of %s%s' % (label, t['id'], l2 + 1, json.dumps(ev)[:600], module, how),
                      {'trace.ndjson': json.dumps(second) + '\n', 'tlc.txt': out2[-20000:], 'config.cfg': cfg})
    return traces

# ------------------------------------------------------------------ reporting
def finish(ctx, level='model_checking', extra=None):
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces,
           'samples': ctx.samples or ['none']}
    cov.update(ctx.cov)
    if extra: cov.update(extra)
    ev = {'property': ctx.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(ctx.violations)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', ctx.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in ctx.known: print('KNOWN-FINDING: property=%s %s' % (ctx.pid, k))
    for what, d in ctx.violations:
        print('VIOLATION property=%s replay=%s' % (ctx.pid, d))
    log('done: %d states, %d traces, %d violations' % (ctx.states, ctx.traces, len(ctx.violations)))
    return 1 if ctx.violations else 0
