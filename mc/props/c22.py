"""C22: clipping by a rectangle and by a half plane."""
import math
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.polygon_2d import Polygon2D, XLessEqual, XMoreEqual, YLessEqual, YMoreEqual
from mc import geo, poly
from mc.lib import V, vs
from mc.props.c21 import halved

TITLE = 'Clipping a polygon by a rectangle keeps exactly the common region'
BOUNDS = ('all triangles (up to the start vertex) on a 4x4 lattice, all quadrilaterals (up to the start vertex, self-crossing included) on a 3x3 lattice and 284 structured polygons with up to 101 vertices, each with rectangles whose sides run through, beside and '
          'outside the lattice (36 per polygon; thorough 225 and pentagons too), and with one side 2^-4 to 2^-13 beside a lattice line that carries vertices, 2 (thorough 5) placements per case; half-plane clips of the same lists by the four predicates at 7 thresholds, with the line given by direction, two points or coefficients')
ASSUMPTIONS = ['known finding bottom-side: a case is attributed to it only when the result equals, vertex by vertex, the result of cutting the bottom side with the line through the top side',
               'vertices are compared at 1e-9 relative after dropping repeated and collinear ones']
SIDE = 'bottom-side'


def clip_wrong(seq, l, t, r, b):
    """the pinned defect: edges that cross y = bottom are cut with the line y = top.  A point created by the first pass that lies exactly
    on y = bottom may be rounded to either side of it: both are modelled.  Returns all resulting vertex lists."""
    p = geo.clip_halfplane(seq, lambda q: r - q[0])
    ties = [i for i, q in enumerate(p) if q[1] == b and q[0] == r][:8]
    res = []
    for mask in range(1 << len(ties)):
        off = {q for k, q in enumerate(ties) if (mask >> k) & 1}
        out = []
        for i in range(len(p)):
            u, v = p[i], p[(i + 1) % len(p)]
            iu, iv = u[1] <= b and i not in off, v[1] <= b and (i + 1) % len(p) not in off
            if iu and iv:
                out.append(v)
            elif iu != iv:
                if u[1] == v[1]:      # a horizontal edge with one end rounded over the side
                    out.append(u if iu else v)
                else:
                    k = F(t - u[1]) / (v[1] - u[1])
                    out.append((u[0] + k * (v[0] - u[0]), F(t)))
                if iv:
                    out.append(v)
        q = geo.clip_halfplane(out, lambda q: q[0] - l)
        res.append(geo.clip_halfplane(q, lambda q: q[1] - t))
    return res


def canon(ps, tol):
    """drop repeated and collinear vertices"""
    ps = list(ps)
    changed = True
    while changed and len(ps) > 2:
        changed = False
        for i in range(len(ps)):
            a, b, c = ps[i - 1], ps[i], ps[(i + 1) % len(ps)]
            u, v = (b[0] - a[0], b[1] - a[1]), (c[0] - b[0], c[1] - b[1])
            if abs(u[0] * v[1] - u[1] * v[0]) <= tol * (1 + math.hypot(*u) + math.hypot(*v)):
                del ps[i]
                changed = True
                break
    return ps if len(ps) > 2 else []


def rotations_equal(a, b, tol):
    n = len(a)
    if n != len(b):
        return False
    if n == 0:
        return True
    return any(all(abs(a[(i + k) % n][0] - b[i][0]) <= tol and abs(a[(i + k) % n][1] - b[i][1]) <= tol for i in range(n)) for k in range(n))


def area2(ps):
    n = len(ps)
    if n < 3:
        return 0.0
    x0, y0 = ps[0]
    return sum((ps[i][0] - x0) * (ps[(i + 1) % n][1] - y0) - (ps[(i + 1) % n][0] - x0) * (ps[i][1] - y0) for i in range(n))


def inside(ps, x, y):
    r = False
    for i in range(len(ps)):
        (ax, ay), (bx, by) = ps[i - 1], ps[i]
        if (ay > y) != (by > y) and x < ax + (y - ay) * (bx - ax) / (by - ay):
            r = not r
    return r


def convex(seq):
    n = len(seq)
    s = [geo.sgn(geo.cross(seq[i - 2], seq[i - 1], seq[i])) for i in range(n)]
    if min(s) * max(s) < 0 or 0 in s:
        return False
    return abs(geo.shoelace2(seq)) == abs(geo.shoelace2(geo.hull(seq))) and len(geo.hull(seq)) == n


def oracle(seq, rc, memo):
    w = memo.get(rc)
    if w is None:
        l, t, r, b = rc
        good = geo.clip_rect(list(seq), l, t, r, b)
        cuts = any((seq[i - 1][1] <= b) != (seq[i][1] <= b) for i in range(len(seq)))
        bad = clip_wrong(list(seq), l, t, r, b) if cuts else None
        w = memo[rc] = (good, bad, geo.shoelace2(good) if len(good) > 2 else 0)
    return w


def rect_case(ctx, pl, seq, rc, memo, cvx):
    l, t, r, b = rc
    psrc = lambda: 'Polygon2D([' + ', '.join(vs(pl, a) for a in seq) + '])'
    rsrc = lambda: f'Rect2D({pl.x(l)!r}, {pl.y(t)!r}, {pl.x(r) - pl.x(l)!r}, {pl.y(b) - pl.y(t)!r})'
    ctx.case = lambda: f'p = {psrc()}; r = {rsrc()}\nprint(p.get_rectangle_clipped_polygon(r).vertices(), p)'
    p = Polygon2D([V(pl, a) for a in seq])
    rect = Rect2D(pl.x(l), pl.y(t), pl.x(r) - pl.x(l), pl.y(b) - pl.y(t))
    res = p.get_rectangle_clipped_polygon(rect)
    if [(v.x(), v.y()) for v in p.vertices()] != [pl.xy(a) for a in seq] or (rect.left(), rect.top(), rect.right(), rect.bottom()) != (pl.x(l), pl.y(t), pl.x(r), pl.y(b)):
        ctx.fail(f'{psrc()}.get_rectangle_clipped_polygon({rsrc()}) changed the polygon or the rectangle: {p}')
    good, bad, s2 = oracle(seq, rc, memo)
    got = [(float(v.x()), float(v.y())) for v in res.vertices()]
    tol = 1e-9 * (1 + pl.mag)
    msg = judge(pl, seq, rc, got, good, s2, cvx, tol)
    ctx.transitions += 1
    if msg is None:
        ctx.outcome('empty' if not good else 'no area' if s2 == 0 else 'unchanged' if abs(s2) == abs(geo.shoelace2(seq)) else 'cut')
        return
    if bad is not None:
        if any(rotations_equal(canon(got, tol), canon([(pl.fx(q[0]), pl.fy(q[1])) for q in w], tol), 4 * tol) for w in bad):
            ctx.known_finding(SIDE, lambda: ctx.case())
            ctx.outcome('known finding: bottom side')
            return
    ctx.fail(f'{psrc()} clipped by {rsrc()}: {msg}; got {got}, expected {[(pl.fx(q[0]), pl.fy(q[1])) for q in good]}')


def judge(pl, seq, rc, got, good, s2, cvx, tol):
    l, t, r, b = rc
    x0, y0, x1, y1 = pl.fx(l), pl.fy(t), pl.fx(r), pl.fy(b)
    for x, y in got:
        if not (x0 - tol <= x <= x1 + tol and y0 - tol <= y <= y1 + tol):
            return f'vertex {(x, y)} is outside the rectangle'
    unit = float(pl.s) ** 2
    a = area2(got)
    if abs(a - float(s2) * unit) > 1e-9 * (unit + (pl.mag * pl.s) * 64):
        return f'signed area {a / 2!r}, the common region has {float(s2) * unit / 2!r}'
    if all(l <= x <= r and t <= y <= b for x, y in seq):
        if not rotations_equal(got, [pl.xy(q) for q in seq], 0.0):
            return 'the polygon is inside the rectangle but did not come back unchanged'
        return None
    if cvx:
        want = [(pl.fx(q[0]), pl.fy(q[1])) for q in good]
        if s2 != 0 and not rotations_equal(canon(got, tol), canon(want, tol), 4 * tol):
            return 'wrong corner points of the common region'
        if not good and got:
            return 'polygon and rectangle are apart but the result is not empty'
    # membership of generic points (never on a border of the lattice figures)
    for i in range(4):
        for j in range(4):
            ux, uy = l + (r - l) * (0.13 + 0.241 * i), t + (b - t) * (0.09 + 0.2477 * j)
            if near_border(seq, ux, uy):
                continue
            if inside(got, pl.ox + pl.s * ux, pl.oy + pl.s * uy) is not inside(seq, ux, uy):
                return f'point {(pl.ox + pl.s * ux, pl.oy + pl.s * uy)} of the rectangle is {"not " if inside(seq, ux, uy) else ""}in the result'
    return None


def near_border(seq, x, y):
    for i in range(len(seq)):
        (ax, ay), (bx, by) = seq[i - 1], seq[i]
        dx, dy = bx - ax, by - ay
        n2 = dx * dx + dy * dy
        k = 0 if n2 == 0 else min(1, max(0, ((x - ax) * dx + (y - ay) * dy) / n2))
        if abs(x - ax - k * dx) + abs(y - ay - k * dy) < 1e-3:
            return True
    return False


HALF = [('XLessEqual', XLessEqual, 0, lambda c: (lambda p: c - p[0])), ('XMoreEqual', XMoreEqual, 0, lambda c: (lambda p: p[0] - c)),
        ('YLessEqual', YLessEqual, 1, lambda c: (lambda p: c - p[1])), ('YMoreEqual', YMoreEqual, 1, lambda c: (lambda p: p[1] - c))]


def dedup(ps, tol):
    out = []
    for p in ps:
        if not out or abs(p[0] - out[-1][0]) > tol or abs(p[1] - out[-1][1]) > tol:
            out.append(p)
    while len(out) > 1 and abs(out[0][0] - out[-1][0]) <= tol and abs(out[0][1] - out[-1][1]) <= tol:
        out.pop()
    return out


def half_case(ctx, pl, seq, c, which, form):
    name, cls, axis, mk = HALF[which]
    thr = pl.x(c) if axis == 0 else pl.y(c)
    base = (thr, 0.0) if axis == 0 else (0.0, thr)
    other = (thr, 7.0) if axis == 0 else (-3.0, thr)
    lsrc = [f'Line2D(Vector2D{base!r}, AngleDeg({90.0 if axis == 0 else 0.0}))', f'Line2D(Vector2D{base!r}, Vector2D{other!r})', f'Line2D({1.0 if axis == 0 else 0.0}, {0.0 if axis == 0 else 1.0}, {-thr!r})'][form]
    line = [lambda: Line2D(Vector2D(*base), AngleDeg(90.0 if axis == 0 else 0.0)), lambda: Line2D(Vector2D(*base), Vector2D(*other)), lambda: Line2D(1.0 if axis == 0 else 0.0, 0.0 if axis == 0 else 1.0, -thr)][form]()
    ctx.case = lambda: f'ps = [{", ".join(vs(pl, a) for a in seq)}]\nprint(Polygon2D.get_line_clipped_polygon({name}({thr!r}), ps, {lsrc}))'
    pts = [V(pl, a) for a in seq]
    pred = cls(thr)
    if pred.thr() != thr or [bool(pred(v)) for v in pts] != [mk(c)(a) >= 0 for a in seq]:
        ctx.fail(f'{name}({thr!r}) on {[pl.xy(a) for a in seq]}: {[pred(v) for v in pts]}')
    res = Polygon2D.get_line_clipped_polygon(pred, pts, line)
    if [(v.x(), v.y()) for v in pts] != [pl.xy(a) for a in seq]:
        ctx.fail(f'get_line_clipped_polygon changed the points it was given: {pts}')
    want = geo.clip_halfplane(list(seq), mk(c))
    tol = 1e-9 * (1 + pl.mag)
    got = dedup([(v.x(), v.y()) for v in res], tol)
    if not rotations_equal(got, dedup([(pl.fx(q[0]), pl.fy(q[1])) for q in want], tol), 4 * tol):
        ctx.fail(f'{[pl.xy(a) for a in seq]} clipped by {name}({thr!r}) is {got}, expected {[(pl.fx(q[0]), pl.fy(q[1])) for q in want]}')
    ctx.transitions += 2
    ctx.outcome(f'half plane: {"all" if all(mk(c)(a) >= 0 for a in seq) else "none" if not want else "part"} kept')


TRI4 = [(x, y) for x in (0, 2, 4, 6) for y in (0, 2, 4, 6)]
SQ3 = [(x, y) for x in (0, 2, 4) for y in (0, 2, 4)]


def rects(tier, lim):
    """sides on, between and outside the lattice lines; the bottom side mostly below the figure (the listed finding) but also through it"""
    m = lim
    if tier == 'thorough':
        xs = [(a, b) for a in (-2, 0, 1, 2, 3, m) for b in (1, 2, 3, m, m + 2, m + 3) if a < b]
        ys = [(a, b) for a in (-2, 0, 1, 2, 3) for b in (2, 3, m, m + 3) if a < b]
    else:
        xs = [(-2, m + 2), (1, m), (0, 3), (2, m + 3), (-1, 2), (m, m + 2)]
        ys = [(-2, m + 2), (1, m), (2, m + 3), (0, 3), (3, m + 1), (m + 1, m + 2)]
    return [(a, c, b, d) for a, b in xs for c, d in ys]


HAIRS = [(sd, v, sg * F(1, 2 ** k)) for k in (4, 8, 11, 13) for sg in (1, -1) for sd in range(4) for v in (0, 1)]


def hair_rects(seq, j, tier):
    """rectangles with one side a hair beside a lattice line that carries vertices of the figure"""
    xs, ys = sorted({a[0] for a in seq}), sorted({a[1] for a in seq})
    for sd, v, h in (HAIRS if tier == 'thorough' else HAIRS[j % 8::8]):
        co = xs if sd in (0, 2) else ys
        c = co[len(co) // 2] if v else co[0] if sd < 2 else co[-1]
        rc = [xs[0] - 1, ys[0] - 1, xs[-1] + 1, ys[-1] + 1]
        rc[sd] = c + h
        if rc[0] < rc[2] and rc[1] < rc[3]:
            yield h, tuple(rc)


def shards(tier):
    out = [(k, i, 16) for k in ('tri', 'quad', 'big') for i in range(16)] + ([('pent', i, 32) for i in range(32)] if tier == 'thorough' else [])
    return out if tier != 'smoke' else out[::16]


def family(kind, tier):
    if kind == 'tri':
        return [s for s in poly.sequences(1, 3, TRI4) if poly.canonical(s)], 6
    if kind == 'quad':
        return [s for s in poly.sequences(4, 4, SQ3) if poly.canonical(s)], 4
    if kind == 'pent':
        return [s for s in poly.sequences(5, 5, SQ3) if poly.canonical(s)], 4
    return [tuple((2 * x, 2 * y) for x, y in s) for s in poly.structured('quick')], None


def run(shard, ctx):
    kind, i, n = shard
    pls = halved(ctx.tier, False)
    seqs, lim = family(kind, ctx.tier)
    for j, seq in enumerate(seqs):
        if j % n != i:
            continue
        memo = {}
        cvx = len(seq) > 2 and convex(seq)
        if lim is None:
            xs, ys = [a[0] for a in seq], [a[1] for a in seq]
            x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
            rcs = [(a, c, b, d) for a, b in ((x0 - 1, x1 + 1), (x0 + 1, x1 + 1), (x0, (x0 + x1) // 2), ((x0 + x1) // 2 - 1, x1 - 1)) for c, d in ((y0 - 2, y1 + 1), (y0 + 1, y1), ((y0 + y1) // 2, y1 + 3), (y0, (y0 + y1) // 2 + 1)) if a < b and c < d]
        else:
            rcs = rects(ctx.tier if kind != 'pent' else 'quick', lim)
        for m, rc in enumerate(rcs):
            for pl in ([pls[0], pls[1 + (j + m) % (len(pls) - 1)]] if ctx.tier != 'thorough' else pls[:3] + pls[3 + (j + m) % (len(pls) - 3):][:2]):
                rect_case(ctx, pl, seq, rc, memo, cvx)
            ctx.states += 1
        for m, (h, rc) in enumerate(hair_rects(seq, j, ctx.tier)):
            for pl in (pls[0], pls[1 + (j + m) % (len(pls) - 1)]):
                if abs(h) * pl.s > 1e-5:
                    rect_case(ctx, pl, seq, rc, memo, cvx)
            ctx.states += 1
        top = lim or max(max(a) for a in seq)
        for w in range(4):
            for c in (-1, 0, 1, 2, 3, top, top + 1):
                half_case(ctx, pls[(j + w + c) % len(pls)], seq, c, w, (j + c + w) % 3)
        ctx.traces += len(rcs) + 28
    ctx.sample(ctx.case)
