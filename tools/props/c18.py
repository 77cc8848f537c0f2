"""C18: fp, primes, SpVecFP against FpField.tla."""
from vlib import *
from props import hist
import random

def big(x):
    s = (x > 0) - (x < 0); x = abs(x); r = [s]
    while x: r.append(x % 1000); x //= 1000
    return r
def unbig(b): return b[0] * sum(d * 1000 ** i for i, d in enumerate(b[1:]))

def is_prime(n):
    """Miller-Rabin, only used to construct inputs"""
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def prev_prime(n):
    while not is_prime(n): n -= 1
    return n
def _sieve(n):
    f = bytearray([1]) * (n + 1)
    for i in range(2, int(n ** .5) + 1):
        if f[i]: f[i * i::i] = bytearray(len(range(i * i, n + 1, i)))
    return [i for i in range(2, n + 1) if f[i]]
PRIMES = _sieve(50000)
HINT = {}          # products built from known factors
def factor(n):
    """prime factors; the last may be composite when n has two factors above 50000 and no hint"""
    f = []
    if n in HINT: return [HINT[n], n // HINT[n]]
    for d in PRIMES:
        if d * d > n: break
        while n % d == 0: f.append(d); n //= d
    if n > 1: f.append(n)
    return f

TYPES = {'short': ('short', 2 ** 15 - 1), 'int': ('int', 2 ** 31 - 1), 'long': ('long', 2 ** 63 - 1),
         'i128': ('boost::multiprecision::int128_t', 2 ** 120), 'cpp': ('parmcb_ptype', 10 ** 45)}

def prime_op(n):
    """is_prime query with what the specification needs to decide it: nothing below 2*10^9, else a factor or a Lucas certificate"""
    j = {'p': big(n), 'factor': [0], 'gen': [0], 'qs': [], 'fact': []}
    if n >= 2 * 10 ** 9:
        if not is_prime(n):
            f = factor(n)[0]
            if f == n: return None
            j['factor'] = big(f)
        else:
            fact = factor(n - 1); qs = sorted(set(fact))
            if max(qs) >= 2 * 10 ** 9 or not all(is_prime(q) for q in qs): return None
            g = 2
            while any(pow(g, (n - 1) // q, n) == 1 for q in qs): g += 1
            j.update(gen=big(g), qs=[big(q) for q in qs], fact=[big(q) for q in fact])
    return ('prime', [n], j)

def numeric(rnd, lb, mx):
    ops = []
    gcd = lambda a, b: ops.append(('gcd', [a, b], {'a': big(a), 'b': big(b)})) if a or b else None
    inv = lambda a, p: ops.append(('inv', [a, p], {'a': big(a), 'p': big(p)}))
    R = 12 if lb != 'int' else 25
    for a in range(-R, R + 1):
        for b in range(-R, R + 1): gcd(a, b)
    for p in range(1, R + 3):
        for a in range(-p - 3, 2 * p + 3): inv(a, p)
    fib = [1, 2]
    while fib[-1] + fib[-2] <= mx: fib.append(fib[-1] + fib[-2])
    edge = [mx, mx - 1, mx // 2, mx // 2 + 1, 0, 1, 2, fib[-1], fib[-2], prev_prime(mx), prev_prime(mx - 1000)]
    for a in edge:
        for b in edge:
            for sa, sb in ((1, 1), (-1, 1), (1, -1), (-1, -1)): gcd(sa * a, sb * b)
            if b > 0: inv(a, b); inv(-a, b)
    for _ in range(1200 if THOROUGH else 250):
        d = rnd.choice([1, 1, 2, 6, 97, rnd.randint(1, max(1, int(mx ** .4)))])
        x = lambda: rnd.choice([1, -1]) * d * rnd.randint(0, max(1, int(mx // d ** rnd.choice([1, 1, 2])) // rnd.choice([1, 1, 10, 10 ** 3])))
        a, b = x(), x()
        if abs(a) <= mx and abs(b) <= mx: gcd(a, b)
        if abs(a) <= mx and 0 < abs(b) <= mx: inv(a, abs(b))
        p = prev_prime(rnd.randint(2, min(mx, 10 ** rnd.randint(1, 25))))
        inv(rnd.randint(-mx, mx), p)
    pr = list(range(2, (6000 if lb == 'int' else 1000)))
    cap = min(mx, 10 ** 12 if not THOROUGH else 10 ** 13)
    small = [p for p in range(2, 400) if is_prime(p)]
    for p in small: pr += [p * p, p * p * p if p < 30 else p * p]
    for _ in range(150):
        p = prev_prime(rnd.randint(2, int(cap ** .5))); q = prev_prime(rnd.randint(max(2, p - 200), p))
        HINT[p * p] = p; HINT[p * q] = q
        pr += [p * p, p * q, rnd.randint(2, cap), prev_prime(rnd.randint(2, min(cap, 2 * 10 ** 9 - 1)))]
    n = 0
    while n < 12 and cap > 10 ** 10:     # primes with a short certificate
        m = 2
        while m < cap // 50: m *= rnd.choice([2, 3, 5, 7, 11, 101, 1009])
        if m < cap and is_prime(m + 1): pr.append(m + 1); n += 1
    a, b, c = prev_prime(10 ** 7), prev_prime(94906265), prev_prime(94900000)
    HINT[a * a] = a; HINT[b * b] = b; HINT[b * c] = c
    if lb == 'long': pr += [prev_prime(10 ** 7) ** 2, prev_prime(94906265) ** 2, prev_prime(94906265) * prev_prime(94900000)]
    if lb in ('cpp', 'i128'): pr += [6 * 10 ** 30, 3 ** 40, 10 ** 20 + 11 * 3]
    pr += [x for x in (mx, mx - 1, prev_prime(mx)) if mx < 2 * 10 ** 9]
    for p in pr:
        if 2 <= p <= mx:
            if (p > 2 ** 53 or lb in ('cpp', 'i128')) and p > 10 ** 10 and factor(p)[0] > 10 ** 5: continue     # the loop of is_prime would be too long
            o = prime_op(p)
            if o: ops.append(o)
    return [hist.Hist('%s.n%d' % (lb, i // 60), 0, ops[i:i + 60]) for i in range(0, len(ops), 60)]

def conv(o):
    a = [o['r']]
    for k in ('s', 't', 'i'):
        if k in o: a.append(o[k])
    for k in ('p', 'a'):
        if k in o: a.append(unbig(o[k]))
    return (o['op'], a, {k: v for k, v in o.items() if k != 'op'})

def vec_hist(rnd, id, lb, mx, L):
    ps = [2, 3, 5, 7, 97, 181, 191, 32749, 46337, 46349, 2 ** 31 - 1, 2147483629, 3037000493, 3037000507, 2 ** 61 - 1, 9223372036854775783, 2 ** 89 - 1, 2 ** 127 - 1]
    ps = [p for p in ps if p <= mx] + [prev_prime(mx)]
    p = rnd.choice(ps + ps[-3:])
    nr = rnd.randint(1, 4); dim = rnd.choice([1, 2, 3, 6, 20])
    ops = [('new', [r, p], {'r': r, 'p': big(p)}) for r in range(1, nr + 1)]
    ok = [True] * (nr + 1); mod = [p] * (nr + 1)
    sc = lambda: rnd.choice([0, 1, -1, 2, -2, p, -p, p - 1, 1 - p, p + 1 if p < mx else 3, -p - 1 if p < mx else -3, mx, -mx, -mx - 1 if lb in ('short', 'int', 'long') else -mx,
                             rnd.randint(-mx, mx), rnd.randint(-mx, mx), rnd.randint(-10, 10)])
    while len(ops) < L:
        k = rnd.choice(['unit', 'unit', 'scaleeq', 'scaleeq', 'scale', 'scale', 'plus', 'plus', 'plus', 'pluseq', 'pluseq', 'dot', 'dot', 'copy', 'asg', 'move', 'masg', 'clear', 'ser', 'new', 'newdef'])
        if k in ('clear', 'ser', 'new', 'newdef', 'move') and rnd.random() < .6: continue
        r, s, t = (rnd.randint(1, nr) for _ in range(3))
        o = {'op': k, 'r': r}
        if k == 'unit': o['i'] = rnd.randrange(dim)
        if k in ('copy', 'move', 'asg', 'masg', 'plus', 'pluseq', 'dot', 'ser', 'scale'): o['s'] = s
        if k == 'plus': o['t'] = t
        if k in ('scale', 'scaleeq'): o['a'] = big(sc())
        if k == 'new': q = rnd.choice([p, p, rnd.choice(ps)]); o['p'] = big(q)
        need = [x for x in (o.get('s'), o.get('t')) if x] + ([r] if k in ('pluseq', 'dot', 'scaleeq', 'unit', 'clear') else [])
        if any(not ok[x] for x in need) or (k in ('move', 'masg') and r == s): continue
        if k in ('plus',) and mod[s] != mod[t] or k in ('pluseq', 'dot') and mod[r] != mod[s]: continue
        if k in ('copy', 'asg', 'ser', 'move', 'masg', 'plus', 'scale'): mod[r] = mod[s]; ok[r] = True
        if k in ('move', 'masg'): ok[s] = False
        if k == 'new': mod[r] = q; ok[r] = True
        if k == 'newdef': mod[r] = 3; ok[r] = True
        ops.append(conv(o))
    return hist.Hist(id, nr, ops)

def main(ctx):
    libs = LIBS + ['-lboost_serialization']
    jobs = {lb: (lambda lb=lb, t=t: cxx(ctx, 'drv_fp.cpp', 'fp_' + lb, defs=['PT=' + (t if t != 'parmcb_ptype' else 'boost::multiprecision::cpp_int')]
                                        + (['BASEIDX=(1UL<<40)'] if lb == 'long' else []), libs=libs)) for lb, (t, mx) in TYPES.items()}
    exes = dict(zip(jobs, parallel(list(jobs.values()))))
    log('built')
    tlc_model(ctx, 'MC_FpField', 'SPECIFICATION Spec\nCONSTANTS R = %d P = 1500 Ps = {2, 3, 5} Dim = 2\nINVARIANTS Bez GcdRight NoOverflow\nPROPERTY Terminates\n' % (60 if THOROUGH else 24), deadlock=False, expect_min=2000)
    sim = hist.tlc_histories(ctx, 'GenFpField', 'SPECIFICATION Spec\nCONSTANTS NR = 2 Dim = 3 L = 16 Ps = {2, 3, 5, 7} Scalars = {0, 7, 8, 9, 10, 11, 13}\nINVARIANT Emit\n',
                             simulate=400 if THOROUGH else 80, depth=24, seed=SEED, expect=60)
    gen = [hist.Hist('g%d' % i, 2, [conv(o) for o in h]) for i, h in enumerate(sim)]
    allt, byid = [], {}
    def go(lb):
        mx = TYPES[lb][1]; rnd = random.Random('%d %s' % (SEED, lb))
        hs = numeric(rnd, lb, mx) + [vec_hist(rnd, '%s.v%d' % (lb, i), lb, mx, rnd.choice([12, 25, 40])) for i in range(600 if THOROUGH else 90)]
        hs += [hist.Hist('%s.%s' % (lb, h.id), h.nr, h.ops) for h in gen]
        return lb, hs
    jobs = [go(lb) for lb in TYPES]
    for lb, hs in jobs:
        for h in hs: byid[h.id] = (exes[lb], h)
        allt += run_driver(ctx, exes[lb], hs, timeout=300)
        ctx.add('histories', len(hs)); ctx.add('operations', sum(len(h.ops) for h in hs))
    log('recorded', len(allt))
    for t in allt[::max(1, len(allt) // 4)]: ctx.sample({'id': t['id'], 'events': t['ev'][:3]})
    check_traces(ctx, 'TraceFpField', 'SPECIFICATION TSpec\n', allt, lambda i: run_driver(ctx, byid[i][0], [byid[i][1]])[0], 'C18', per_trace=1)
    ctx.assumptions += ['most negative value of a built-in type is outside the domain of ext_gcd (its absolute value is not representable)',
                        'vector operands share one prime modulus', 'moduli of get_mult_inverse are positive']
