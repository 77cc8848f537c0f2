"""Seeded graph families. A graph is (n, [(u, v, w)]), weights positive integers; a Case adds id, den, ks."""
import os, random, itertools

HERE = os.path.dirname(os.path.abspath(__file__))

def atlas(maxn=7):
    res = []
    for line in open(os.path.join(HERE, 'atlas.txt')):
        p = line.split()
        n = int(p[0])
        if n <= maxn:
            res.append((n, [tuple(int(x) for x in e.split(',')) for e in p[1:]]))
    return res

def gnp(rnd, n, p):
    return n, [(u, v) for u in range(n) for v in range(u + 1, n) if rnd.random() < p]
def gnm(rnd, n, m):
    allp = [(u, v) for u in range(n) for v in range(u + 1, n)]
    return n, rnd.sample(allp, min(m, len(allp)))
def complete(n): return n, list(itertools.combinations(range(n), 2))
def bipartite(a, b): return a + b, [(i, a + j) for i in range(a) for j in range(b)]
def cycle(n): return n, [(i, (i + 1) % n) for i in range(n)]
def path(n): return n, [(i, i + 1) for i in range(n - 1)]
def grid(a, b):
    return a * b, [(i * b + j, i * b + j + 1) for i in range(a) for j in range(b - 1)] + \
                  [(i * b + j, (i + 1) * b + j) for i in range(a - 1) for j in range(b)]
def torus(a, b):
    s = set()
    for i in range(a):
        for j in range(b):
            for x, y in (((i + 1) % a, j), (i, (j + 1) % b)):
                if (x, y) != (i, j):
                    s.add(tuple(sorted((i * b + j, x * b + y))))
    return a * b, sorted(s)
def hypercube(d): return 1 << d, [(x, x | 1 << i) for x in range(1 << d) for i in range(d) if not x >> i & 1]
def wheel(n): return n + 1, [(i, (i + 1) % n) for i in range(n)] + [(i, n) for i in range(n)]
def petersen(): return 10, [(i, (i + 1) % 5) for i in range(5)] + [(i, i + 5) for i in range(5)] + [(5 + i, 5 + (i + 2) % 5) for i in range(5)]
def gpetersen(n, k):
    s = {tuple(sorted(e)) for i in range(n) for e in ((i, (i + 1) % n), (i, n + i), (n + i, n + (i + k) % n))}
    return 2 * n, sorted(s)
def prism(n): return 2 * n, [(i, (i + 1) % n) for i in range(n)] + [(n + i, n + (i + 1) % n) for i in range(n)] + [(i, n + i) for i in range(n)]
def mobius(n): return 2 * n, [(i, (i + 1) % (2 * n)) for i in range(2 * n)] + [(i, i + n) for i in range(n)]
def theta(lens):
    n, E = 2, []
    for k in lens:
        prev = 0
        for _ in range(k - 1):
            E.append((prev, n)); prev = n; n += 1
        E.append((prev, 1))
    return n, E
def ladder(n): return grid(2, n)
def tree(rnd, n): return n, [(rnd.randrange(i), i) for i in range(1, n)]
def cactus(rnd, blocks):
    n, E = 1, []
    for _ in range(blocks):
        a = rnd.randrange(n); k = rnd.randint(2, 5)
        vs = [a] + list(range(n, n + k - 1)); n += k - 1
        E += [(vs[i], vs[i + 1]) for i in range(k - 1)]
        if k > 2: E.append((vs[-1], vs[0]))
    return n, E
def union(*gs):
    n, E = 0, []
    for g in gs:
        E += [(u + n, v + n) for u, v in g[1]]; n += g[0]
    return n, E
def pendant(rnd, g, k):
    n, E = g[0], list(g[1])
    for _ in range(k):
        if n == 0: n = 1; continue
        E.append((rnd.randrange(n), n)); n += 1
    return n, E
def wheel_like(rnd, n):
    n0, E = cycle(n)
    hub = n; E = E + [(i, hub) for i in range(n) if rnd.random() < .6]
    return n + 1, E
def gluecycles(rnd, k):
    """cycles glued along edges or vertices: many cycles of the same length through the same vertices"""
    n, E = cycle(rnd.randint(3, 6))
    S = {tuple(sorted(e)) for e in E}
    for _ in range(k):
        u, v = rnd.choice(sorted(S))
        L = rnd.randint(1, 3)
        prev = u
        for _ in range(L):
            S.add(tuple(sorted((prev, n)))); prev = n; n += 1
        S.add(tuple(sorted((prev, v))))
    return n, sorted(S)

# 'near': sums of equally many edges differ by 1e-5 to 1e-6 only; 'wide': heavy and light edges
def weights(rnd, E, kind):
    f = {'unit': lambda: 1, 'two': lambda: 2, 'one2': lambda: rnd.randint(1, 2), 'one3': lambda: rnd.randint(1, 3),
         'to10': lambda: rnd.randint(1, 10), 'pow2': lambda: 1 << rnd.randint(0, 8),
         'big': lambda: rnd.randint(1, 100000), 'to5': lambda: rnd.randint(1, 5), 'to30': lambda: rnd.randint(1, 30),
         'near': lambda: 262144 + rnd.randint(0, 7), 'wide': lambda: rnd.choice([1, 2, 3, 1000, 1001, 1024])}[kind]
    return [(u, v, f()) for u, v in E]

def shuffle(rnd, n, E):
    """renumber the vertices, permute the edges, flip endpoints"""
    p = list(range(n)); rnd.shuffle(p)
    E = [(p[e[0]], p[e[1]]) + tuple(e[2:]) for e in E]
    E = [(e[1], e[0]) + tuple(e[2:]) if rnd.random() < .5 else e for e in E]
    rnd.shuffle(E)
    return n, E

def small_random(rnd, maxn=14):
    """one graph of a random family, at most about maxn vertices"""
    f = rnd.randrange(15)
    if f < 5:
        n = rnd.randint(4, maxn); return gnp(rnd, n, rnd.choice([.2, .3, .4, .6, .9]))
    if f == 5: return complete(rnd.randint(4, min(9, maxn)))
    if f == 6: return bipartite(rnd.randint(2, 4), rnd.randint(2, max(2, min(5, maxn - 4))))
    if f == 7: a = rnd.randint(2, 4); return grid(a, max(2, min(5, maxn // a)))
    if f == 8: return rnd.choice([hypercube(3), petersen(), wheel(rnd.randint(3, 8)), prism(rnd.randint(3, 6)), mobius(rnd.randint(3, 6)), torus(3, 3), torus(3, 4)])
    if f == 9: return theta([rnd.randint(2, 4) for _ in range(rnd.randint(2, 5))])
    if f == 10: return pendant(rnd, cactus(rnd, rnd.randint(1, 4)), rnd.randint(0, 3))
    if f == 11:
        return union(small_random(rnd, max(4, maxn // 2)), small_random(rnd, max(4, maxn // 2)), (rnd.randint(0, 2), []))
    if f == 12: return gluecycles(rnd, rnd.randint(1, 5))
    if f == 13: return wheel_like(rnd, rnd.randint(4, max(4, maxn - 2)))
    return rnd.choice([tree(rnd, rnd.randint(1, maxn)), (rnd.randint(0, 4), []), pendant(rnd, gnp(rnd, 6, .5), 4)])

def stretched(rnd, E):
    """weights for den = -1 (common.hpp): relative differences of 1e-12"""
    return [(u, v, (rnd.choice([1, 1, 1, 2]) << 14) + rnd.randint(0, 6)) for u, v in E]

class Case:
    def __init__(self, id, n, E, den=1, ks=()):
        self.id, self.n, self.E, self.den, self.ks = id, n, list(E), den, list(ks)
    def text(self):
        return 'case %s %d %d %d %d %s\n%s' % (self.id, self.n, len(self.E), self.den, len(self.ks),
            ' '.join(map(str, self.ks)), ''.join('%d %d %d\n' % e for e in self.E))
    def dim(self):
        p = list(range(self.n))
        def find(x):
            while p[x] != x: p[x] = p[p[x]]; x = p[x]
            return x
        d = 0
        for u, v, *_ in self.E:
            a, b = find(u), find(v)
            if a == b: d += 1
            else: p[a] = b
        return d

def exact_cases(seed, nrandom, atlas_n=5, atlas_sample=0, maxn=14, dens=(1, 1, 1, 2, 8, 1024), wk=None, prefix='g'):
    """The standard mix for the exact domain: atlas graphs, families, random; ties everywhere."""
    rnd = random.Random(seed)
    res = []
    def add(g, kind, den=1, sh=True):
        n, E = g[0], weights(rnd, g[1], kind)
        if sh: n, E = shuffle(rnd, n, E)
        res.append(Case('%s%d' % (prefix, len(res)), n, E, den))
    for g in atlas(atlas_n): add(g, rnd.choice(['unit', 'one2', 'one3']))
    if atlas_sample:
        big = [g for g in atlas(7) if g[0] > atlas_n]
        for g in rnd.sample(big, min(atlas_sample, len(big))): add(g, rnd.choice(['unit', 'one2', 'one3', 'to5']))
    for g in (complete(6), complete(8), bipartite(3, 3), bipartite(4, 4), grid(3, 4), grid(4, 4), hypercube(3), petersen(),
              wheel(6), prism(5), torus(3, 3), mobius(4), theta([2, 2, 2, 2]), union(cycle(3), cycle(4), path(3), (1, [])),
              (0, []), (1, []), (7, []), path(6), cycle(3), cycle(9)):
        add(g, 'unit'); add(g, rnd.choice(['one2', 'to10', 'pow2', 'big']))
    for _ in range(nrandom):
        add(small_random(rnd, maxn), rnd.choice(wk or ['unit', 'unit', 'one2', 'one2', 'one3', 'to5', 'to10', 'pow2', 'big']),
            rnd.choice(list(dens)))
    for i in range(nrandom // 8):
        g = small_random(rnd, maxn) if i % 3 else rnd.choice([grid(3, 4), torus(3, 4), complete(rnd.randint(5, 7)), hypercube(3), gluecycles(rnd, 5), bipartite(3, 4)])
        if i % 2:
            n, E = shuffle(rnd, g[0], stretched(rnd, g[1])); res.append(Case('%s%d' % (prefix, len(res)), n, E, -1))
        else: add(g, rnd.choice(['near', 'near', 'wide']), rnd.choice(list(dens)))
    return res
