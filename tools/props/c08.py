"""C08: metamorphic chains of large graphs against Invariance.tla."""
from vlib import *
from props import mcb
import graphs, random

class Chain:
    def __init__(self, rnd, id, size):
        self.rnd, self.id, self.steps = rnd, id, []      # steps: (event without observations, slot, graph) in order
        self.g = {}
        self.base(1, size)
        nt = rnd.randint(4, 7)
        for _ in range(nt): self.transform(1)
        if rnd.random() < .5:
            self.base(2, max(8, size // 2))
            if rnd.random() < .5: self.transform(2, only=('rename', 'reorder', 'subdivide', 'isolated', 'scaleint'))
            g1, g2 = self.g[1], self.g[2]
            if (g1['den'], g1['exp']) == (g2['den'], g2['exp']):
                G = {'n': g1['n'] + g2['n'], 'E': g1['E'] + [(u + g1['n'], v + g1['n'], w) for u, v, w in g2['E']], 'den': g1['den'], 'exp': g1['exp']}
                self.put('Join', 1, G, {})
                t = {'t': 'bridge', 'u': self.rnd.randrange(g1['n']), 'v': g1['n'] + self.rnd.randrange(g2['n']), 'w': self.rnd.randint(1, 5)} if g1['n'] and g2['n'] else None
                if t and rnd.random() < .7: self.apply(1, t)
                for _ in range(2): self.transform(1)
    def put(self, op, s, G, extra):
        self.g[s] = G
        self.steps.append((dict({'op': op, 's': s}, **extra), s, G))
    def base(self, s, size):
        rnd = self.rnd
        r = rnd.random()
        den = self.g[1]['den'] if s == 2 else 1; ex = self.g[1]['exp'] if s == 2 else 0
        if r < .3:      # a family with a known optimum
            q = max(2, int(size ** .5))
            f, a, b = rnd.choice([('grid', rnd.randint(2, q + 2), rnd.randint(2, q + 2)), ('complete', rnd.randint(3, max(4, q + 4)), 0), ('bipartite', rnd.randint(2, q + 2), rnd.randint(2, q + 2)),
                                  ('cycle', rnd.randint(3, size), 0), ('wheel', rnd.randint(3, size // 2), 0), ('cube', rnd.randint(2, max(2, size.bit_length() - 1)), 0)])
            g = {'grid': lambda: graphs.grid(a, b), 'complete': lambda: graphs.complete(a), 'bipartite': lambda: graphs.bipartite(a, b), 'cycle': lambda: graphs.cycle(a),
                 'wheel': lambda: graphs.wheel(a), 'cube': lambda: graphs.hypercube(a)}[f]()
            c = rnd.choice([1, 1, 2, 7])
            n, E = g; E = [e + (c,) for e in E]; rnd.shuffle(E)
            self.put('Family', s, {'n': n, 'E': E, 'den': den, 'exp': ex}, {'f': f, 'a': a, 'b': b})
            return
        n = rnd.randint(max(4, size // 2), size)
        g = rnd.choice([lambda: graphs.gnm(rnd, n, int(n * rnd.choice([1.2, 1.5, 2.0]))), lambda: graphs.gnm(rnd, n, int(n * 1.3)), lambda: graphs.torus(max(3, int(n ** .5)), max(3, int(n ** .5))),
                        lambda: graphs.gnm(rnd, max(6, n // 4), n), lambda: graphs.gpetersen(max(5, n // 2), 2), lambda: graphs.gluecycles(rnd, max(3, n // 3)), lambda: graphs.cactus(rnd, max(2, n // 4)),
                        lambda: graphs.union(graphs.gnm(rnd, n // 2, n), graphs.grid(3, max(2, n // 6)), (3, []))])()
        n, E = graphs.shuffle(rnd, g[0], graphs.weights(rnd, g[1], rnd.choice(['unit', 'one2', 'one3', 'to5', 'to10', 'pow2', 'big'])))
        self.put('Base', s, {'n': n, 'E': E, 'den': den, 'exp': ex}, {})
    def transform(self, s, only=None):
        rnd = self.rnd; G = self.g[s]; n, E = G['n'], G['E']; m = len(E)
        k = rnd.choice(only or ('rename', 'rename', 'reorder', 'reorder', 'isolated', 'pendant', 'bridge', 'subdivide', 'subdivide', 'scaleint', 'scaleden', 'scaleexp'))
        if k == 'rename':
            p = list(range(n)); rnd.shuffle(p)
            if rnd.random() < .2: p = [n - 1 - i for i in range(n)]
            t = {'t': k, 'p': p}
        elif k == 'reorder':
            p = list(range(1, m + 1)); rnd.shuffle(p)
            if rnd.random() < .2: p.sort(key=lambda i: E[i - 1][2], reverse=rnd.random() < .5)
            t = {'t': k, 'p': p, 'f': [rnd.randint(0, 1) for _ in p]}
        elif k == 'isolated': t = {'t': k, 'k': rnd.randint(1, 3)}
        elif k == 'pendant' and n: t = {'t': k, 'v': rnd.randrange(n), 'w': rnd.choice([1, 2, 9])}
        elif k == 'bridge' and n:        # through a new isolated vertex
            self.apply(s, {'t': 'isolated', 'k': 1}); n += 1
            t = {'t': k, 'u': rnd.randrange(n - 1), 'v': n - 1, 'w': rnd.choice([1, 3, 50])}
        elif k == 'subdivide' and m:
            if max(e[2] for e in E) < 2: self.apply(s, {'t': 'scaleint', 'k': 1}); E = self.g[s]['E']
            c = [i for i, e in enumerate(E) if e[2] >= 2]
            i = rnd.choice(c); t = {'t': k, 'e': i + 1, 'w': rnd.randint(1, E[i][2] - 1)}
        elif k == 'scaleint' and sum(e[2] for e in E) < 10 ** 5: t = {'t': k, 'k': rnd.randint(1, 4)}
        elif k == 'scaleden' and G['den'] < 2 ** 20: t = {'t': k, 'k': rnd.randint(1, 12)}
        elif k == 'scaleexp': t = {'t': k, 'k': rnd.choice([1, -1, 30, -30, 300, -300, 900, -900]) if G['exp'] == 0 else -G['exp']}
        else: return
        self.apply(s, t)
    def apply(self, s, t):
        G = self.g[s]; n, E = G['n'], list(G['E']); H = dict(G)
        k = t['t']
        if k == 'rename': E = [(t['p'][u], t['p'][v], w) for u, v, w in E]
        elif k == 'reorder': E = [(E[i - 1][1], E[i - 1][0], E[i - 1][2]) if f else E[i - 1] for i, f in zip(t['p'], t['f'])]
        elif k == 'isolated': n += t['k']
        elif k == 'pendant': E.append((t['v'], n, t['w'])); n += 1
        elif k == 'bridge': E.append((t['u'], t['v'], t['w']))
        elif k == 'subdivide': u, v, w = E[t['e'] - 1]; E[t['e'] - 1] = (u, n, t['w']); E.append((n, v, w - t['w'])); n += 1
        elif k == 'scaleint': E = [(u, v, w << t['k']) for u, v, w in E]
        elif k == 'scaleden': H['den'] = G['den'] << t['k']
        elif k == 'scaleexp': H['exp'] = G['exp'] + t['k']
        H['n'], H['E'] = n, E
        self.put('Transform', s, H, {'t': t})
    def cases(self):
        return [graphs.Case('%s.%d' % (self.id, i), G['n'], G['E'], G['den'], [G['exp']]) for i, (ev, s, G) in enumerate(self.steps)]

def record(ctx, exes, chains):
    """run every graph of every chain with every backend; one trace per chain"""
    cases = [c for ch in chains for c in ch.cases()]
    obs, crash = {}, {}
    gr = {}
    for lb, exe in exes.items():
        cs = [c for c in cases if (lb == 'd') or (lb == 'tbb' and mcb.hash_(c.id) % 2 == 0) or (lb == 'i' and c.den == 1 and c.ks == [0])
              or (lb == 'mpi' and c.n <= 40 and mcb.hash_(c.id) % 3 == 0)]
        for t in run_driver(ctx, exe, cs, env={'VERIF_QUIET': '1', 'VERIF_PROCS': '1 2 3 4 5'}, case_timeout=300):
            gr[t['id']] = t
            alg = None
            for e in t['ev']:
                if e['op'] == 'Call': alg = e['alg'] + '.' + lb
                elif e['op'] == 'Return': obs.setdefault(t['id'], []).append({'op': 'Return', 'alg': alg, 'w': e['w'], 'x': e['x']})
                elif e['op'] in ('Ranks', 'Emit'): pass
                else: obs.setdefault(t['id'], []).append({'op': e['op'], 'alg': alg or lb, 'what': e.get('what', '')})
    traces = []
    for ch in chains:
        ev = []
        for i, (e, s, G) in enumerate(ch.steps):
            id = '%s.%d' % (ch.id, i)
            if id not in gr: break
            t = gr[id]     # the graph as the driver built it
            ev.append(dict(e, g={'n': t['n'], 'E': t['E'], 'den': t['den'], 'exp': G['exp']}))
            ev += [dict(o, s=s) for o in obs.get(id, [])]
        traces.append({'id': ch.id, 'ev': ev})
    return traces

def main(ctx):
    exes = mcb.variants(ctx, [('d', {'opt': '-O2', 'defs': ['EXPO']}), ('i', {'opt': '-O2', 'defs': ['WT=int']}), ('tbb', {'opt': '-O2', 'defs': ['TBB', 'EXPO']})])
    exes['mpi'] = cxx(ctx, 'drv_mpi.cpp', 'mpi_e', mpi=1, opt='-O2', defs=['EXPO'], extra=['-include', os.path.join(HARN, 'mpimock', 'verif_mpi.hpp')], must=False)
    if not exes['mpi']: del exes['mpi']; ctx.assumptions.append('the MPI entry points do not run over the message switch: C04 sees them under mpirun')
    tlc_model(ctx, 'MC_Invariance', 'INIT Init\nNEXT Next\nCONSTANTS N = 4 W = %d\nINVARIANT Claims\n' % (3 if THOROUGH else 1), deadlock=False, expect_min=64)
    rnd = random.Random(SEED)
    sizes = [12] * 150 + [30] * 100 + [80] * 50 + [160] * 20 + [300] * 8
    if THOROUGH: sizes = sizes * 6 + [400] * 6
    chains = [Chain(random.Random('%d %d' % (SEED, i)), 'c%d' % i, z) for i, z in enumerate(sizes)]
    byid = {c.id: c for c in chains}
    traces = record(ctx, exes, chains)
    log('recorded', len(traces))
    ctx.add('chains', len(chains)); ctx.add('graphs', sum(len(c.steps) for c in chains))
    ctx.add('max_vertices', max(G['n'] for c in chains for _, _, G in c.steps))
    ctx.add('observations', sum(1 for t in traces for e in t['ev'] if e['op'] == 'Return'))
    ctx.cov['max_dim'] = max(cs.dim() for c in chains for cs in c.cases())
    for t in traces[:3]: ctx.sample({'id': t['id'], 'events': [{k: v for k, v in e.items() if k not in ('g', 't')} for e in t['ev'][:8]]})
    check_traces(ctx, 'TraceInvariance', 'SPECIFICATION TSpec\n', traces, lambda i: record(ctx, exes, [byid[i]])[0], 'C08', per_trace=1)
    ctx.assumptions += ['graphs beyond the oracle are related to each other and to families with a known optimum, not to an oracle']
