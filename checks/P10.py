"""Optionals against what was last put into them."""
from vp import sums


def run(c):
    names = [n for n in sums.KINDS if sums.KINDS[n][0] == 1]
    sums.run(c, names)
