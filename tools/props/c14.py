"""C14: candidate collections."""
from vlib import *
from props import parts, c12, mcb
def main(ctx):
    exes = parallel([lambda: cxx(ctx, 'drv_cand.cpp', 'ca_d'), lambda: cxx(ctx, 'drv_cand.cpp', 'ca_i', defs=['WT=int'])])
    d = 'INIT Init\nNEXT Next\nCONSTANTS N = %d W = %d\n'
    tlc_model(ctx, 'MC_Candidates', d % (4, 2), deadlock=False, expect_min=1400)
    if THOROUGH: tlc_model(ctx, 'MC_Candidates', d % (5, 1), deadlock=False, timeout=3000)
    for lb, exe in zip('di', exes):
        cs = [c for c in c12.cases_for(SEED + 3, 2500 if THOROUGH else 500) if lb == 'd' or (c.den == 1 and len(c.id) % 2 == 0)]
        # feedback vertex sets over 16, collections over 1000 candidates
        cs += mcb.large(SEED + 4, 24 if THOROUGH else 8, True) + [c for c in mcb.medium(SEED + 5, 24 if THOROUGH else 6) if lb == 'd' or c.den == 1]
        parts.simple(ctx, None, 'TraceCandidates', cs, 2, 'C14', exes={lb: exe})
