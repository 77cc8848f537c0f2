"""Operation histories: from TLC behaviours and from seeded generators."""
import json, re, random
from vlib import *

class Hist:
    """ops: list of (name, [args], {json members})"""
    def __init__(self, id, nr, ops, par=()):
        self.id, self.nr, self.ops, self.par = id, nr, ops, list(par)
        self.n, self.E, self.den = nr, [], 1
    def text(self):
        head = 'hist %s %d %d %d %s\n' % (self.id, self.nr, len(self.ops), len(self.par), ' '.join(map(str, self.par)))
        return head + ''.join('%s\t%s\t%s\n' % (o, ' '.join(map(str, a)), json.dumps(j)[1:-1]) for o, a, j in self.ops)

def tlc_histories(ctx, module, cfg, simulate=None, depth=None, seed=1, expect=1):
    """behaviours of a generator specification, printed as HIST lines"""
    extra = ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(seed)] if simulate else []
    r = tlc(ctx, module, cfg, extra=extra, deadlock=False, workers=None if not simulate else 4)
    if r['rc'] != 0: raise CheckError('generator %s failed:\n%s' % (module, r['out'][-3000:]))
    hs = []
    for line in r['out'].split('\n'):
        if line.startswith('"HIST '):
            hs.append(json.loads(json.loads(line)[5:]))
    if len(hs) < expect: raise CheckError('generator %s: only %d histories' % (module, len(hs)))
    ctx.add('tlc_generated_histories', len(hs))
    return hs
