"""C11: circles."""
import math
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.circle_2d import Circle2D, quadratic_f
from mc import geo
from mc.lib import places, grid, V, vs, pt, deg

TITLE = 'Circle containment and circle intersections are complete and correct'
BOUNDS = ('circles with centres on a 3x3 lattice and radii 1/2, 1, ..., 3, 5 against all lines and segments through two points of a 4x4 lattice (thorough 5x5), all rays from 3x3 (4x4) origins in 16 (32) '
          'lattice directions, all circles of the same family except itself; lines given by coefficients scaled 2^-16..2^12; lines, rays and segments tilted by 2^-4..2^-13 off the axes (where the conditioning of the quadratic leaves an error below 2e-4); lines and circle pairs that miss tangency by 2^-3..2^-14 of the radius; crossing circles with centres 2^-4..2^-12 apart; all quarter-lattice points around, and points 2^-3 to 2^-23 inside and outside circles of these radii and 64 times larger, built and assigned; negative radii; all integer quadratics with coefficients in -6..6; placements up to magnitude 300')
ASSUMPTIONS = ['intersections of a circle with itself are not decided', 'tangency is explored where it is exact; the smallest explored non-tangency has a squared half-chord of 1/1000, above the documented tolerances']

RADII = [F(1, 2), F(1), F(3, 2), F(2), F(5, 2), F(3), F(5)]


def places11(tier):
    return [p for p in places(tier, hi=16.0, omax=128.0) if p.mag <= 300]


def circles(tier):
    return [(c, r) for c in grid(3) for r in RADII]


def C(pl, c, r):
    return Circle2D(V(pl, c), float(r) * pl.s)


def cs(pl, c, r):
    return f'Circle2D({vs(pl, c)}, {float(r) * pl.s!r})'


def line_points(c, r, p, d):
    """[(t, x, y)]: parameters and points (lattice units, floats) of p + t d on the circle; kind by the exact discriminant"""
    n = geo.dot(d, d)
    w = geo.sub(c, p)
    t0 = F(geo.dot(w, d), n)
    cr = w[0] * d[1] - w[1] * d[0]
    h2 = r * r - F(cr * cr, n)           # exact
    if h2 < 0:
        return 'none', []
    if h2 == 0:
        return 'tangent', [(t0, t0)]
    k2 = h2 / n
    sn, sd = geo.exact_sqrt(k2.numerator), geo.exact_sqrt(k2.denominator)
    k = F(sn, sd) if sn is not None and sd is not None else math.sqrt(k2)
    if isinstance(k, F):
        return 'secant', [(t0 - k, t0 - k), (t0 + k, t0 + k)]
    return 'secant', [(float(t0) - k, None), (float(t0) + k, None)]


def where(p, d, t):
    return (p[0] + t * d[0], p[1] + t * d[1])


def matches(sols, pl, want, tol=None):
    if len(sols) != len(want):
        return False
    left = list(want)
    tol = tol or 1e-8 * (1 + pl.mag)
    for v in sols:
        for q in left:
            if v.is_valid() and abs(v.x() - (pl.ox + pl.s * float(q[0]))) <= tol and abs(v.y() - (pl.oy + pl.s * float(q[1]))) <= tol:
                left.remove(q)
                break
        else:
            return False
    return True


def show(pl, want):
    return [(pl.ox + pl.s * float(q[0]), pl.oy + pl.s * float(q[1])) for q in want]


def check(ctx, circ, other, pl, want, what, alias):
    for name, got in (('intersection', circ.intersection(other)), (alias, getattr(circ, alias)(other))):
        if not matches(got, pl, want):
            ctx.fail(f'{what()}: {name} is {[pt(g) for g in got]}, expected {show(pl, want)}')
    ctx.transitions += 2
    ctx.traces += 1


def with_lines(ctx, pl, cl, tier):
    g = grid(5 if tier == 'thorough' else 4)
    for p in g:
        for q in g:
            if p == q:
                continue
            d = geo.sub(q, p)
            l, s = Line2D(V(pl, p), V(pl, q)), Segment2D(V(pl, p), V(pl, q))
            for c, r in cl:
                circ = C(pl, c, r)
                kind, ts = line_points(c, r, p, d)
                if p < q:
                    what = lambda: f'c = {cs(pl, c, r)}; l = Line2D({vs(pl, p)}, {vs(pl, q)})'
                    ctx.case = lambda: what() + '\nprint(c.intersection(l))'
                    check(ctx, circ, l, pl, [where(p, d, t) for t, _ in ts], what, 'intersection_with_line')
                    ctx.outcome('line ' + kind)
                what = lambda: f'c = {cs(pl, c, r)}; s = Segment2D({vs(pl, p)}, {vs(pl, q)})'
                ctx.case = lambda: what() + '\nprint(c.intersection(s))'
                on = [where(p, d, t) for t, e in ts if 0 <= t <= 1]
                check(ctx, circ, s, pl, on, what, 'intersection_with_segment')
                ctx.outcome(f'segment {kind}: {len(on)} on it')


def with_rays(ctx, pl, cl, tier):
    k = 3 if tier == 'thorough' else 2
    ds = sorted({geo.primitive(x, y) for x in range(-k, k + 1) for y in range(-k, k + 1) if x or y})
    for o in grid(4 if tier == 'thorough' else 3):
        for j, d in enumerate(ds):
            a = deg(*d)
            ray = [Ray2D(V(pl, o), V(pl, (o[0] + d[0], o[1] + d[1]))), Ray2D(V(pl, o), AngleDeg(a)), Ray2D(V(pl, o), a)][j % 3]
            for c, r in cl:
                kind, ts = line_points(c, r, o, d)
                what = lambda: f'c = {cs(pl, c, r)}; r = Ray2D({vs(pl, o)}, {vs(pl, (o[0] + d[0], o[1] + d[1]))})'
                ctx.case = lambda: what() + '\nprint(c.intersection(r))'
                on = [where(o, d, t) for t, e in ts if t >= 0]
                check(ctx, C(pl, c, r), ray, pl, on, what, 'intersection_with_ray')
                ctx.outcome(f'ray {kind}: {len(on)} on it')


def with_circles(ctx, pl, cl, al):
    for c, r in cl:
        circ = C(pl, c, r)
        for e, s in al:
            if (c, r) == (e, s):
                continue
            other = C(pl, e, s)
            what = lambda: f'c = {cs(pl, c, r)}; d = {cs(pl, e, s)}'
            ctx.case = lambda: what() + '\nprint(c.intersection(d))'
            v = geo.sub(e, c)
            n = geo.dot(v, v)
            if n == 0 or n > (r + s) ** 2 or n < (r - s) ** 2:
                kind, want = 'apart, concentric or nested', []
            else:
                t = F(n + r * r - s * s) / (2 * n)
                h2 = F(r * r) / n - t * t
                base = where(c, v, t)
                if h2 == 0:
                    kind, want = 'tangent', [base]
                else:
                    h = math.sqrt(h2)
                    kind, want = 'crossing', [(float(base[0]) - h * v[1], float(base[1]) + h * v[0]), (float(base[0]) + h * v[1], float(base[1]) - h * v[0])]
            check(ctx, circ, other, pl, want, what, 'intersection_with_circle')
            ctx.outcome('circles ' + kind)


def near_axis(ctx, pl, cl, tier):
    """lines tilted by a hair from the axes: 2^-k over 3 units"""
    ks = range(4, 14) if tier == 'thorough' else (4, 7, 9, 10, 11, 12, 13)
    ends = [e for k in ks for e in ((F(3), F(1, 2 ** k)), (F(3), F(-1, 2 ** k)), (F(1, 2 ** k), F(3)), (F(-1, 2 ** k), F(3)))]
    for p in grid(4):
        for d in ends:
            q = (p[0] + d[0], p[1] + d[1])
            # what solving for the badly conditioned coordinate may lose
            lose = 5e-15 * (1 + pl.mag) ** 2 * float(3 / min(abs(d[0]), abs(d[1]))) ** 2
            forms = [('line', 'Line2D({}, {})', Line2D(V(pl, p), V(pl, q)), -9 ** 9, 9 ** 9),
                     ('segment', 'Segment2D({}, {})', Segment2D(V(pl, p), V(pl, q)), 0, 1),
                     ('ray', 'Ray2D({}, {})', Ray2D(V(pl, p), V(pl, q)), 0, 9 ** 9)]
            for c, r in cl:
                circ = C(pl, c, r)
                n, w = geo.dot(d, d), geo.sub(c, p)
                h2 = r * r - F((w[0] * d[1] - w[1] * d[0]) ** 2) / n
                if abs(h2) < F(1, 64):
                    continue
                tol = lose / min(1.0, math.sqrt(abs(h2)) * pl.s) + 1e-8 * (1 + pl.mag)       # the square root of a small discriminant
                if tol > 2e-4 * pl.s:
                    continue
                t0, k = float(F(geo.dot(w, d)) / n), math.sqrt(max(h2, 0) / n)
                ts = [t0 - k, t0 + k] if h2 > 0 else []
                for kind, text, o, lo, hi in forms:
                    if any(min(abs(t - lo), abs(t - hi)) < 1e-3 for t in ts):
                        continue
                    want = [(float(p[0]) + t * float(d[0]), float(p[1]) + t * float(d[1])) for t in ts if lo <= t <= hi]
                    what = lambda: f'c = {cs(pl, c, r)}; o = ' + text.format(vs(pl, p), vs(pl, q))
                    ctx.case = lambda: what() + '\nprint(c.intersection(o))'
                    got = circ.intersection(o)
                    if not matches(got, pl, want, tol):
                        ctx.fail(f'{what()}: intersection is {[pt(g) for g in got]}, expected {show(pl, want)}')
                    ctx.transitions += 1
                    ctx.traces += 1
                    ctx.outcome(f'{kind} nearly along an axis: {len(want)} points')


def by_coefficients(ctx, pl, cl, tier):
    """the same line written with coefficients of any size"""
    dirs = [(1, 0), (0, 1), (1, 1), (1, -2), (-3, 1)]
    for p in grid(3):
        x, y = pl.xy(p)
        for a, b in dirs:
            for k in (-16, -12, -8, 0, 6, 12):
                f = 2.0 ** k
                A, B, Cc = a * f, b * f, -(a * x + b * y) * f
                l = Line2D(A, B, Cc)
                for c, r in cl:
                    kind, ts = line_points(c, r, p, (-b, a))
                    what = lambda: f'c = {cs(pl, c, r)}; l = Line2D({A!r}, {B!r}, {Cc!r})'
                    ctx.case = lambda: what() + '\nprint(c.intersection(l))'
                    check(ctx, C(pl, c, r), l, pl, [where(p, (-b, a), t) for t, _ in ts], what, 'intersection_with_line')
                    ctx.outcome('line by coefficients ' + kind)


def near_tangent(ctx, pl, cl, tier):
    """lines and circles that miss tangency by 2^-k radii"""
    tol = 1e-5 * (1 + pl.mag)
    for c, r in cl:
        circ = C(pl, c, r)
        for k in (range(3, 15) if tier == 'thorough' else (4, 8, 12)):
            for sgn in (-1, 1):
                f = 1 + sgn * F(1, 2 ** k)
                for u in ((F(1), F(0)), (F(0), F(-1)), (F(3, 5), F(4, 5)), (F(-4, 5), F(3, 5)), (F(5, 13), F(-12, 13))):
                    foot = (c[0] + r * f * u[0], c[1] + r * f * u[1])
                    h2 = r * r * (1 - f * f)
                    if abs(h2) * F(pl.s) ** 2 < F(1, 1000) * (1 if pl.mag <= 8 else F(pl.mag)):
                        continue
                    h = math.sqrt(max(h2, 0))
                    want = [(float(foot[0]) + e * h * float(u[1]), float(foot[1]) - e * h * float(u[0])) for e in (1, -1)] if h2 > 0 else []
                    a, b = (foot[0] - 7 * u[1], foot[1] + 7 * u[0]), (foot[0] + 7 * u[1], foot[1] - 7 * u[0])
                    for kind, text, o in (('line', 'Line2D', Line2D(V(pl, a), V(pl, b))), ('segment', 'Segment2D', Segment2D(V(pl, a), V(pl, b))),
                                          ('ray', 'Ray2D', Ray2D(V(pl, a), V(pl, b)))):
                        what = lambda: f'c = {cs(pl, c, r)}; o = {text}({vs(pl, a)}, {vs(pl, b)})'
                        ctx.case = lambda: what() + '\nprint(c.intersection(o))'
                        got = circ.intersection(o)
                        if not matches(got, pl, want, tol):
                            ctx.fail(f'{what()}: intersection is {[pt(g) for g in got]}, expected {show(pl, want)}')
                        ctx.transitions += 1
                        ctx.traces += 1
                        ctx.outcome(f'{kind} near tangency: {len(want)} points')
                    for s in (F(1), F(2)):
                        for inner in (False, True):
                            if inner and s == r:
                                continue
                            D = r - s * 1 if inner else r + s
                            D = D * f
                            e = (c[0] + D * u[0], c[1] + D * u[1])
                            t = F(D * D + r * r - s * s) / (2 * D * D)
                            g2 = r * r / (D * D) - t * t
                            if abs(g2 * D * D) * F(pl.s) ** 2 < F(1, 1000) * (1 if pl.mag <= 8 else F(pl.mag)):
                                continue
                            bx, by = c[0] + t * D * u[0], c[1] + t * D * u[1]
                            g = math.sqrt(max(g2, 0))
                            w2 = [(float(bx) - m * g * float(D * u[1]), float(by) + m * g * float(D * u[0])) for m in (1, -1)] if g2 > 0 else []
                            what = lambda: f'c = {cs(pl, c, r)}; d = {cs(pl, e, s)}'
                            ctx.case = lambda: what() + '\nprint(c.intersection(d))'
                            for A, B in ((circ, C(pl, e, s)), (C(pl, e, s), circ)):
                                got = A.intersection(B)
                                if not matches(got, pl, w2, tol):
                                    ctx.fail(f'{what()}: intersection is {[pt(g) for g in got]}, expected {show(pl, w2)}')
                                ctx.transitions += 1
                            ctx.traces += 1
                            ctx.outcome(f'circles near {"inner" if inner else "outer"} tangency: {len(w2)} points')


def nearly_concentric(ctx, pl, cl, tier):
    """crossing circles of (nearly) equal radii whose centres are 2^-k apart"""
    for c, r in cl:
        circ = C(pl, c, r)
        for k in (range(2, 15) if tier == 'thorough' else (4, 7, 8, 10, 12)):
            dl = F(1, 2 ** k)
            tol = (1e-14 * (1 + pl.mag) ** 2 / (float(dl) * pl.s) + 1e-8 * (1 + pl.mag)) / min(1.0, float(r) * pl.s)
            if tol > 1e-3 * pl.s:
                continue
            for u in ((F(1), F(0)), (F(0), F(-1)), (F(3, 5), F(4, 5)), (F(-4, 5), F(3, 5))):
                for s in (r, r + dl / 2, r - dl / 2):
                    e = (c[0] + dl * u[0], c[1] + dl * u[1])
                    t = F(dl * dl + r * r - s * s) / (2 * dl)
                    h = math.sqrt(r * r - t * t)
                    bx, by = c[0] + t * u[0], c[1] + t * u[1]
                    want = [(float(bx) - m * h * float(u[1]), float(by) + m * h * float(u[0])) for m in (1, -1)]
                    what = lambda: f'c = {cs(pl, c, r)}; d = {cs(pl, e, s)}'
                    ctx.case = lambda: what() + '\nprint(c.intersection(d))'
                    for A, B in ((circ, C(pl, e, s)), (C(pl, e, s), circ)):
                        got = A.intersection(B)
                        if not matches(got, pl, want, tol):
                            ctx.fail(f'{what()}: intersection is {[pt(g) for g in got]}, expected {show(pl, want)}')
                        ctx.transitions += 1
                    ctx.traces += 1
                    ctx.outcome('nearly concentric circles')


def points(ctx, pl, cl):
    for c, r in cl:
        circ = C(pl, c, r)
        R = float(r) * pl.s
        ctx.case = lambda: f'c = {cs(pl, c, r)}; print(c.area(), c.radius(), c.center())'
        if abs(circ.area() - math.pi * R * R) > 1e-9 * (1 + R * R) or circ.radius() != R or pt(circ.center())[:2] != pl.xy(c):
            ctx.fail(f'{cs(pl, c, r)}: area {circ.area()!r}, radius {circ.radius()!r}, centre {pt(circ.center())}')
        for qx in range(-24, 36):
            for qy in (range(-24, 36) if qx % 2 == 0 else range(-24, 36, 3)):
                P = Vector2D(pl.ox + pl.s * qx / 4, pl.oy + pl.s * qy / 4)
                inside = (qx - 4 * c[0]) ** 2 + (qy - 4 * c[1]) ** 2 < 16 * r * r
                ctx.case = lambda: f'print({cs(pl, c, r)}.contains(Vector2D({P.x()!r}, {P.y()!r})))'
                if bool(circ.contains(P)) != inside:
                    ctx.fail(f'{cs(pl, c, r)} contains ({P.x()!r},{P.y()!r}): {circ.contains(P)}, expected {inside}')
                ctx.transitions += 1
                ctx.outcome('point inside' if inside else 'point outside')
        ctx.states += 1


def near_points(ctx, pl, cl):
    """points a hair inside and outside; circles assigned over another one; negative radii"""
    us = ((F(1), F(0)), (F(0), F(-1)), (F(-1), F(0)), (F(3, 5), F(4, 5)), (F(-5, 13), F(12, 13)), (F(8, 17), F(-15, 17)))
    for c, r in cl:
        for R in (float(r) * pl.s, 64 * float(r) * pl.s):
            x, y = pl.xy(c)
            made = Circle2D(Vector2D(x, y), R), Circle2D(Vector2D(7, 7), 3)
            made[1].assign(Vector2D(x, y), R)
            for u in us:
                for k in (range(2, 25) if ctx.tier == 'thorough' else (3, 8, 13, 18, 23)):
                    for sg in (1, -1):
                        for m in (R * (1 + sg * 2.0 ** -k), R + sg * 2.0 ** -k):
                            P = Vector2D(x + m * float(u[0]), y + m * float(u[1]))
                            d = (F(P.x()) - F(x)) ** 2 + (F(P.y()) - F(y)) ** 2 - F(R) ** 2
                            if abs(d) <= 1e-13 * (1 + pl.mag + R) ** 2:
                                continue
                            for how, circ in zip(('built', 'assigned'), made):
                                ctx.case = lambda: f'c = Circle2D(Vector2D(7, 7), 3); c.assign(Vector2D({x!r}, {y!r}), {R!r}); print(c.contains(Vector2D({P.x()!r}, {P.y()!r})), Circle2D(Vector2D({x!r}, {y!r}), {R!r}).contains(Vector2D({P.x()!r}, {P.y()!r})))'
                                if bool(circ.contains(P)) != (d < 0):
                                    ctx.fail(f'circle ({how}) at ({x!r},{y!r}) with radius {R!r} contains ({P.x()!r},{P.y()!r}): {circ.contains(P)}, expected {d < 0}')
                                ctx.transitions += 1
                            ctx.outcome('point a hair inside' if d < 0 else 'point a hair outside')
            for how, circ in zip(('built', 'assigned'), made):
                ctx.case = lambda: f'c = Circle2D(Vector2D(7, 7), 3); c.assign(Vector2D({x!r}, {y!r}), {R!r}); print(c.area(), c.radius(), c.center())'
                if abs(circ.area() - math.pi * R * R) > 1e-9 * (1 + R * R) or circ.radius() != R or pt(circ.center())[:2] != (x, y):
                    ctx.fail(f'circle ({how}) at ({x!r},{y!r}) with radius {R!r}: area {circ.area()!r}, radius {circ.radius()!r}, centre {pt(circ.center())}')
            neg = Circle2D(Vector2D(x, y), -R), Circle2D(Vector2D(7, 7), 3), Circle2D(Vector2D(x, y), 0)
            neg[1].assign(Vector2D(x, y), -R)
            for how, circ in zip(('built with a negative radius', 'assigned a negative radius', 'of radius 0'), neg):
                ctx.case = lambda: f'c = Circle2D(Vector2D(7, 7), 3); c.assign(Vector2D({x!r}, {y!r}), {-R!r}); print(c.area(), c.radius(), c.contains(Vector2D({x!r}, {y!r})))'
                if circ.area() != 0 or circ.radius() != 0 or any(circ.contains(Vector2D(x + a, y + b)) for a in (0, R / 2, -1) for b in (0, R / 2, 1)):
                    ctx.fail(f'circle at ({x!r},{y!r}) {how} ({R!r}): area {circ.area()!r}, radius {circ.radius()!r}, contains something')
                ctx.transitions += 11
            ctx.states += 1
        ctx.traces += 1


def quadratics(ctx):
    for a in [x for x in range(-6, 7) if x] + [0.25, -2.5]:
        for b in range(-6, 7):
            for c in range(-6, 7):
                disc = F(b) ** 2 - 4 * F(a) * F(c)
                ctx.case = lambda: f'print(quadratic_f({a}, {b}, {c}))'
                for A, B, Cc in ((a, b, c), (float(a), float(b), float(c))):
                    got = quadratic_f(A, B, Cc)
                    if disc < 0:
                        ok = len(got) == 0
                    else:
                        k = math.sqrt(disc)
                        want = sorted([(-b - k) / (2 * a), (-b + k) / (2 * a)])
                        ok = len(got) == 2 and all(abs(x - y) < 1e-9 for x, y in zip(sorted(got), want))
                    if not ok:
                        ctx.fail(f'quadratic_f({A}, {B}, {Cc}) = {got}')
                    ctx.transitions += 1
                ctx.traces += 1
                ctx.outcome('quadratic with %d roots' % (0 if disc < 0 else 1 if disc == 0 else 2))


def shards(tier):
    n = 9
    out = [('quad', 0, 0, 1)]
    for k in range(len(places11(tier))):
        out += [(kind, k, i, n) for kind in ('pts', 'lines', 'rays', 'circles', 'axis', 'tangent') for i in range(n)]
    if tier == 'smoke':
        out = [o for o in out if o[1] < 2 and o[2] < 2]
    return out


def run(shard, ctx):
    kind, k, i, n = shard
    if kind == 'quad':
        return quadratics(ctx)
    pl = places11(ctx.tier)[k]
    al = circles(ctx.tier)
    cl = al[i::n]
    if kind == 'pts':
        points(ctx, pl, cl)
        near_points(ctx, pl, cl)
    elif kind == 'lines':
        with_lines(ctx, pl, cl, ctx.tier)
    elif kind == 'axis':
        near_axis(ctx, pl, cl, ctx.tier)
        by_coefficients(ctx, pl, cl, ctx.tier)
    elif kind == 'tangent':
        near_tangent(ctx, pl, cl, ctx.tier)
        nearly_concentric(ctx, pl, cl, ctx.tier)
    elif kind == 'rays':
        with_rays(ctx, pl, cl, ctx.tier)
    else:
        with_circles(ctx, pl, cl, al)
    ctx.sample(f'{kind}: {cs(pl, *cl[0])} and {len(cl) - 1} more circles')
