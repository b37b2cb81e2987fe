"""Exact reference geometry on integers / Fractions (the oracle side; shares no code with the library)."""
from fractions import Fraction as F
from math import gcd, isqrt


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def sgn(v):
    return (v > 0) - (v < 0)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def d2(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2


def on_seg(p, a, b):
    """p on the closed segment ab (degenerate allowed)."""
    return cross(a, b, p) == 0 and dot(sub(p, a), sub(p, b)) <= 0


def segs_meet(a, b, c, d):
    """closed segments share a point."""
    s1, s2 = sgn(cross(a, b, c)), sgn(cross(a, b, d))
    s3, s4 = sgn(cross(c, d, a)), sgn(cross(c, d, b))
    if s1 * s2 < 0 and s3 * s4 < 0:
        return True
    return on_seg(c, a, b) or on_seg(d, a, b) or on_seg(a, c, d) or on_seg(b, c, d)


def segs_cross(a, b, c, d):
    """segments cross at a point interior to both, transversally."""
    return (sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 and sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0)


def line_meet(a, b, c, d):
    """intersection of the lines ab and cd, None when parallel (or degenerate)."""
    r, s = sub(b, a), sub(d, c)
    den = r[0] * s[1] - r[1] * s[0]
    if den == 0:
        return None
    q = sub(c, a)
    t = F(q[0] * s[1] - q[1] * s[0], den)
    return (a[0] + t * r[0], a[1] + t * r[1])


def seg_pt_d2(a, b, p):
    """squared distance point - closed segment and the nearest point, exact."""
    v = sub(b, a)
    n = dot(v, v)
    if n == 0:
        return F(d2(a, p)), (F(a[0]), F(a[1]))
    t = F(dot(sub(p, a), v), n)
    t = min(max(t, F(0)), F(1))
    q = (a[0] + t * v[0], a[1] + t * v[1])
    return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2, q


def shoelace2(poly):
    n = len(poly)
    return sum(poly[i][0] * poly[(i + 1) % n][1] - poly[(i + 1) % n][0] * poly[i][1] for i in range(n))


def pip(poly, p):
    """'border', True or False: exact even-odd membership."""
    n = len(poly)
    inside = False
    px, py = p
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        if on_seg(p, a, b):
            return 'border'
        if (a[1] > py) != (b[1] > py):
            c = cross(a, b, p)
            if (c > 0) == (b[1] > a[1]):
                inside = not inside
    return inside


def hull(points):
    """strict convex hull, counter-clockwise, from the lexicographically smallest point (monotone chain)."""
    ps = sorted(set(points))
    if len(ps) < 3:
        return ps
    def half(seq):
        h = []
        for p in seq:
            while len(h) > 1 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(ps) + half(reversed(ps))


def clip_halfplane(poly, f):
    """Sutherland-Hodgman pass against f(p) >= 0 (f affine), exact."""
    out = []
    n = len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        fa, fb = f(a), f(b)
        if fa >= 0 and fb >= 0:
            out.append(b)
        elif fa >= 0 > fb or fa < 0 <= fb:
            t = F(fa) / (fa - fb)
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            out.append(q)
            if fa < 0:
                out.append(b)
    return out


def clip_rect(poly, l, t, r, b):
    for f in (lambda p: r - p[0], lambda p: b - p[1], lambda p: p[0] - l, lambda p: p[1] - t):
        poly = clip_halfplane(poly, f)
    return poly


def primitive(dx, dy):
    g = gcd(dx, dy)
    return (dx // g, dy // g)


def exact_sqrt(n):
    r = isqrt(n)
    return r if r * r == n else None


class Place:
    """exact affine placement of lattice points: p -> (ox + s x, oy + s y); dyadic s, ox, oy."""
    def __init__(self, s, ox, oy, as_int=False):
        self.s, self.ox, self.oy, self.as_int = s, ox, oy, as_int
        self.tiny = s < 1e-5
        self.mag = max(abs(ox), abs(oy)) + 8 * abs(s)

    def x(self, v):
        r = self.ox + self.s * v
        return int(r) if self.as_int and r == int(r) else float(r)

    def y(self, v):
        r = self.oy + self.s * v
        return int(r) if self.as_int and r == int(r) else float(r)

    def xy(self, p):
        return self.x(p[0]), self.y(p[1])

    def fx(self, q):
        return float(F(self.ox) + F(self.s) * q)

    def fy(self, q):
        return float(F(self.oy) + F(self.s) * q)

    def __repr__(self):
        return f'x{self.s:g}+({self.ox:g},{self.oy:g}){"i" if self.as_int else ""}'
