"""C06: approximation guarantee, k = 0 rejected."""
from props import approx
def main(ctx):
    approx.check(ctx, ['bound', 'reject'], 'C06', zero=True)
