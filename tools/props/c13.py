"""C13: greedy_fvs."""
from vlib import *
from props import parts
import random
def main(ctx):
    d = 'SPECIFICATION Spec\nCONSTANTS N = %d\nINVARIANTS Result Progress\nPROPERTIES Terminates\n'
    tlc_model(ctx, 'MC_FVS', d % 4, deadlock=False, expect_min=500)
    if THOROUGH: tlc_model(ctx, 'MC_FVS', d % 5, deadlock=False, timeout=3000)
    parts.simple(ctx, 'drv_fvs.cpp', 'TraceFVS', parts.shapes(SEED, 12000 if THOROUGH else 2500) + parts.wide_shapes(random.Random(SEED + 5)), 1, 'C13')
    if not ctx.violations: parts.simple(ctx, 'drv_fvs.cpp', 'TraceFVS', parts.huge(random.Random(SEED + 6)), 1, 'C13', stack='900m', heap='12g')
