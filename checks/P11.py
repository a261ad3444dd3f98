"""Results and choices against the alternative last stored."""
from vp import sums


def run(c):
    names = [n for n in sums.KINDS if sums.KINDS[n][0] != 1]
    sums.run(c, names)
