"""Crossings of a line / ray / segment with the boundary of a convex polygon, exact (oracle of C14 and C18)."""
from fractions import Fraction as F
from mc import geo


def crossings(poly, p, d, lo=None, hi=None):
    """distinct boundary points of the convex polygon on p + t d with lo <= t <= hi, ascending t.
    An edge lying on the operand contributes its two ends (through the adjacent edges)."""
    ts = {}
    n = len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        e = geo.sub(b, a)
        den = d[0] * e[1] - d[1] * e[0]
        if den == 0:
            continue
        w = geo.sub(a, p)
        u = F(w[0] * d[1] - w[1] * d[0], den)
        if 0 <= u <= 1:
            t = F(w[0] * e[1] - w[1] * e[0], den)
            if (lo is None or t >= lo) and (hi is None or t <= hi):
                ts[t] = (p[0] + t * d[0], p[1] + t * d[1])
    return [ts[t] for t in sorted(ts)]


def dirs(k):
    return sorted({geo.primitive(x, y) for x in range(-k, k + 1) for y in range(-k, k + 1) if x or y})


def near_corners(poly, s, tier):
    """lines that pass a corner of the convex polygon by a hair: (p, q, points of the boundary on the line pq, all strictly between p and q).
    s: length of the lattice unit; what is closer than a few 1e-6 is within the documented tolerances and left out."""
    n = len(poly)
    for i in range(n):
        c = poly[i]
        e, f = geo.sub(poly[i - 1], c), geo.sub(poly[(i + 1) % n], c)
        m, d = (e[0] + f[0], e[1] + f[1]), geo.sub(e, f)
        for k in (range(3, 21) if tier == 'thorough' else (4, 9, 12, 15, 18, 20)):
            h = F(1, 2 ** k)
            for sg in (1, -1):
                x = (c[0] + sg * h * m[0], c[1] + sg * h * m[1])
                pts = [] if sg < 0 else [(c[0] + 2 * h * e[0], c[1] + 2 * h * e[1]), (c[0] + 2 * h * f[0], c[1] + 2 * h * f[1])]
                if s * h < 5e-7 or s * s * h < 1e-8 or pts and 2 * h * s * max(abs(d[0]), abs(d[1])) < 1e-5:
                    continue
                yield (x[0] - 2 * d[0], x[1] - 2 * d[1]), (x[0] + 2 * d[0], x[1] + 2 * d[1]), pts


def near_ends(poly, s, tier):
    """rays and segments with one end a hair inside or outside a side of the convex polygon: (kind, p, q, points of the boundary on it)"""
    n = len(poly)
    g = (F(sum(a[0] for a in poly), n), F(sum(a[1] for a in poly), n))
    for i in range(n):
        a, b = poly[i - 1], poly[i]
        for u in (F(1, 2), F(1, 8)):
            x = (a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1]))
            d = geo.sub(g, x)
            m = max(abs(d[0]), abs(d[1]))
            for k in (range(2, 19) if tier == 'thorough' else (4, 8, 12, 16)):
                h = F(1, 2 ** k)
                if s * h * m < 5e-6:
                    continue
                for sg in (1, -1):
                    p = (x[0] + sg * h * d[0], x[1] + sg * h * d[1])
                    for t in (F(1, 2), -F(1, 2)):
                        q = (p[0] + t * d[0], p[1] + t * d[1])
                        yield 'Ray2D', p, q, crossings(poly, p, geo.sub(q, p), 0, None)
                        if (s * m) ** 2 * h < 2e-8:
                            continue
                        want = crossings(poly, p, geo.sub(q, p), 0, 1)
                        yield 'Segment2D', p, q, want
                        yield 'Segment2D', q, p, want
