"""C05: approximate algorithms emit a basis of the caller's graph with its true weight."""
from props import approx
def main(ctx):
    approx.check(ctx, ['cycle', 'independent', 'complete', 'sum', 'maps'], 'C05', zero=False)
