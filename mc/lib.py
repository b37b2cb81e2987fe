"""Helpers shared by the geometry checks (implementation side: build library objects on placed lattices)."""
import itertools
import math
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.line_2d import Line2D
from mc import mine
from mc.geo import Place

PL = [(1.0, 0.0, 0.0, True), (0.5, -52.5, 34.0, False), (8.0, 100.0, -200.0, False), (1.0, -1.0, -1.0, True), (1 / 64, 0.0, -1 / 64, False), (64.0, -96.0, -32.0, False)]
PL_T = [(0.25, 3.0, -7.0, False), (16.0, -24.0, -24.0, False), (64.0, 512.0, 256.0, False), (1 / 64, -6.0, 5.0, False)]


# placements so small that any absolute tolerance in an exact predicate shows; products of coordinates stay exact
TINY = [Place(2.0 ** -20, 0.0, 0.0), Place(2.0 ** -20, 3.0, -1.0)]
# and so large and far that no finite start value of a minimum or maximum is beyond them; coordinates are multiples of the scale
FAR = [Place(2.0 ** 20, 2.0 ** 23, 2.0 ** 23), Place(2.0 ** 20, -2.0 ** 26, -2.0 ** 26)]


def places(tier, extra=True, lo=0.25, hi=64.0, omax=512.0, cap=6):
    out = [Place(*p) for p in PL + (PL_T if tier == 'thorough' else [])]
    if extra:
        seen = {(p.s, p.ox, p.oy) for p in out}
        for s, ox, oy in mine.placements([], lo, hi, omax, cap):
            if (s, ox, oy) not in seen:
                seen.add((s, ox, oy))
                out.append(Place(s, ox, oy, False))
    return out


# factors (in powers of two) and axis by which a lattice is stretched: very flat and very steep configurations, still exact
def stretches(tier):
    return [(k, m) for k in ((3, 7, 11) if tier != 'thorough' else range(2, 13)) for m in (0, 1)]


def stretched(ps, k, m):
    return [(x * 2 ** k, y) if m else (x, y * 2 ** k) for x, y in ps]


def grid(n, lo=0):
    return [(x, y) for x in range(lo, lo + n) for y in range(lo, lo + n)]


def V(pl, p):
    return Vector2D(*pl.xy(p))


def vs(pl, p):
    return f'Vector2D{pl.xy(p)!r}'


def at(v, pl, q, tol=1e-9):
    """library vector v equals the placed exact point q"""
    t = tol * (1.0 + pl.mag)
    return v.is_valid() and abs(v.x() - pl.fx(q[0])) <= t and abs(v.y() - pl.fy(q[1])) <= t


def same_points(sols, pl, want, tol=1e-8):
    """list of library vectors is exactly the set of placed exact points (any order, each once)"""
    if len(sols) != len(want):
        return False
    left = list(want)
    for v in sols:
        for q in left:
            if at(v, pl, q, tol):
                left.remove(q)
                break
        else:
            return False
    return True


def show(pl, want):
    return [(pl.fx(q[0]), pl.fy(q[1])) for q in want]


def pt(v):
    return (v.x(), v.y(), v.is_valid())


def split(seq, i, n):
    return itertools.islice(seq, i, None, n)


def angle_gap(a, b):
    t = (a - b) % 360.0
    return min(t, 360.0 - t)


def deg(dx, dy):
    return math.degrees(math.atan2(dy, dx))


def debruijn(k):
    """one sequence over range(k) in which every ordered pair of symbols occurs consecutively: an Euler circuit of the complete digraph with loops"""
    left = [list(range(k)) for _ in range(k)]
    stack, out = [0], []
    while stack:
        u = stack[-1]
        if left[u]:
            stack.append(left[u].pop())
        else:
            out.append(stack.pop())
    return out[::-1]
