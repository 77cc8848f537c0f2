"""C01: exact algorithms emit a basis."""
from vlib import *
import graphs
from props import mcb
def main(ctx):
    mcb.exact(ctx, ['cycle', 'independent', 'complete'], 'C01')
