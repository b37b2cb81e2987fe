"""Exact positions a hair beside the sides, ends and corners of figures of very different sizes.

Everything is dyadic: a figure of size up to 2^m is combined with offsets down to 2^-k, m + k <= 22, so that the differences and their
products are exact in binary floating point and the exact answer is the only right one."""
from fractions import Fraction as F

SCALES = (1, 8, 64, 512)
OFFS = {1: ((0, 0), (3, -2)), 8: ((0, 0), (-52, 34)), 64: ((0, 0), (-96, 32)), 512: ((0, 0),)}


def steps(scale, tier):
    """offsets to try with a figure of lattice unit scale"""
    top = 17 - (scale.bit_length() - 1)
    ks = range(2, top + 1) if tier == 'thorough' else sorted({3, 7, top - 4, top})
    return [F(1, 2 ** k) for k in ks if k > 0]


def scaled(shape, scale, off):
    return [(F(off[0] + scale * x), F(off[1] + scale * y)) for x, y in shape]


def beside(a, b, hs):
    """points on the side a-b, a hair to its left and right, and a hair beyond and before its ends"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    u = int(max(abs(dx), abs(dy)))
    ux, uy = (0 if not dx else 1 if dx > 0 else -1), (0 if not dy else 1 if dy > 0 else -1)
    ln = F(1, 1 << max(0, u - 1).bit_length())
    for t in (F(0), F(1, 4), F(1, 2), F(1)):
        p = (a[0] + t * dx, a[1] + t * dy)
        yield p
        for h in hs:
            yield (p[0] - h * uy, p[1] + h * ux)
            yield (p[0] + h * uy, p[1] - h * ux)
    for h in hs:
        k = h * ln
        yield (a[0] - k * dx, a[1] - k * dy)
        yield (b[0] + k * dx, b[1] + k * dy)
        yield (b[0] - k * dx, b[1] - k * dy)
