"""C16: ForestIndex."""
from vlib import *
from props import parts
import random
def main(ctx):
    tlc_model(ctx, 'MC_ForestIndex', 'SPECIFICATION Spec\nCONSTANTS N = %d\nINVARIANTS ForestInv Numbered NoOverlap\n' % 4, deadlock=False, expect_min=1000)
    if THOROUGH: tlc_model(ctx, 'MC_ForestIndex', 'SPECIFICATION Spec\nCONSTANTS N = %d\nINVARIANTS ForestInv Numbered NoOverlap\n' % 5, deadlock=False, timeout=3000)
    parts.simple(ctx, 'drv_forest.cpp', 'TraceForestIndex', parts.shapes(SEED, 12000 if THOROUGH else 2500) + parts.wide_shapes(random.Random(SEED + 5)), 1, 'C16')
    if not ctx.violations: parts.simple(ctx, 'drv_forest.cpp', 'TraceForestIndex', parts.huge(random.Random(SEED + 6)), 1, 'C16', stack='900m', heap='12g')
