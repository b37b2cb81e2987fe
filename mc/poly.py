"""Families of vertex lists used by the polygon and hull checks (integer coordinates)."""
import itertools
from mc import geo, mine


def sequences(lo, hi, cells):
    for n in range(lo, hi + 1):
        yield from itertools.product(cells, repeat=n)


def canonical(seq):
    """first of its cyclic shifts"""
    return all(seq <= seq[k:] + seq[:k] for k in range(1, len(seq)))


def comb(n):
    """simple polygon with n teeth, many vertices level with each other"""
    top = []
    for i in range(n):
        top += [(2 * i, 3 + i % 2), (2 * i + 1, 1)]
    return [(0, 0), (2 * n - 1, 0)] + [(x, y) for x, y in reversed(top)]


def stairs(n):
    p = [(0, 0)]
    for i in range(n):
        p += [(i + 1, i), (i + 1, i + 1)]
    return p + [(0, n)]


def spiral(n):
    """rectangular corridor wound inwards n times (outer path then back)"""
    out, back = [], []
    lo, hi = 0, 4 * n
    for k in range(n):
        a, b = lo + 2 * k, hi - 2 * k
        out += [(a, a), (b, a), (b, b), (a, b)]
        back = [(a + 1, a + 1), (b - 1, a + 1), (b - 1, b - 1), (a + 1, b - 1)][::-1] + back
    return out + back


def star(m, k):
    """self-crossing star on a convex m-gon of lattice points"""
    c = convex(m)
    return [c[(i * k) % m] for i in range(m)]


def convex(m):
    """m points in convex position (on a parabola pair), counter-clockwise"""
    h = m // 2
    low = [(i, i * i) for i in range(-((m - h) // 2), (m - h) - (m - h) // 2)]
    top = 2 * max(y for _, y in low) + 7
    up = [(i, top - (i * i)) for i in range(-(h // 2), h - h // 2)]
    pts = geo.hull(low + up)
    return pts


def subdivided(poly, k):
    """the same region with k extra vertices on every edge"""
    out = []
    n = len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        for j in range(k + 1):
            out.append((a[0] * (k + 1) + (b[0] - a[0]) * j, a[1] * (k + 1) + (b[1] - a[1]) * j))
    return out


def ring(n):
    """closed walk around an (n x n) square visiting every lattice point of its border"""
    return [(i, 0) for i in range(n)] + [(n, i) for i in range(n)] + [(n - i, n) for i in range(n)] + [(0, n - i) for i in range(n)]


def zigzag(n):
    """simple polygon with exactly n >= 3 vertices"""
    m = n // 2
    low = [(2 * i, (i % 2) - (i % 3)) for i in range(n - m)]
    return low + [(2 * i + 1, 4 + i % 2) for i in reversed(range(m))]


def structured(tier):
    top = 7 if tier != 'thorough' else 12
    out = []
    for k in range(1, top):
        out += [comb(k), stairs(k), ring(k)]
    for k in range(1, 4 if tier != 'thorough' else 6):
        out.append(spiral(k))
    for m in range(3, 14 if tier != 'thorough' else 22):
        c = convex(m)
        out.append(c)
        out += [[c[(i * k) % len(c)] for i in range(len(c))] for k in (2, 3) if len(c) > 4]
    out += [subdivided([(0, 0), (2, 0), (1, 2)], k) for k in (1, 2, 4, 9)]
    out += [[(0, 0), (3, 3), (3, 0), (0, 3)] * 2, [(0, 0), (4, 0), (4, 4), (0, 4)] + [(1, 1), (3, 1), (3, 3), (1, 3)], [(0, 0), (2, 0), (2, 2), (0, 2)] * 3]
    for c in [50, 100] + [int(c) for c in mine.near(6, 150, 4)]:
        out += [zigzag(n) for n in (c - 1, c, c + 1)] if c not in (50, 100) else [zigzag(c + 1)]
    res = []
    for p in out:
        for q in (p, p[::-1], p[len(p) // 3:] + p[:len(p) // 3], [(y, x) for x, y in p], [(-x, y) for x, y in p]):
            if q not in res:
                res.append(q)
    return res
