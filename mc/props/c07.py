"""C07: rays."""
import math
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from mc import geo, mine
from mc.lib import places, grid, V, vs, at, pt, deg, angle_gap

TITLE = 'Rays meet lines and rays exactly where geometry says'
BOUNDS = ('rays from the 9 points of a 3x3 lattice (thorough 4x4) in 16 (thorough 32) lattice directions, each given by a target point and by an angle; all ordered ray/ray pairs, '
          'all ray/line pairs with the lines through two lattice points; the direction test for all points of a 13x13 lattice around the origin and 14 thresholds; points and crossings 2^-3 to 2^-18 in front of, behind and beside the origin; equality of all pairs of 61 rays from one origin, across the +-180 seam and with directions up to 900 degrees; crossings up to 4096 lattice units away of carriers down to 1/4096 from parallel; 5 (9) placements')
ASSUMPTIONS = ['angles within 1e-7 degree of the threshold are not decided', 'carriers closer to parallel than a slope of 1/4096 are not explored']

FORMS = ('target', 'angle object', 'number')


def directions(tier):
    k = 3 if tier == 'thorough' else 2
    return sorted({geo.primitive(x, y) for x in range(-k, k + 1) for y in range(-k, k + 1) if x or y}, key=lambda d: (abs(d[0]) + abs(d[1]), d))


def make(pl, o, d, form):
    if form == 'target':
        return Ray2D(V(pl, o), V(pl, (o[0] + d[0], o[1] + d[1])))
    a = deg(*d)
    return Ray2D(V(pl, o), AngleDeg(a) if form == 'angle object' else a)


def src(pl, o, d, form):
    if form == 'target':
        return f'Ray2D({vs(pl, o)}, {vs(pl, (o[0] + d[0], o[1] + d[1]))})'
    a = repr(deg(*d))
    return f'Ray2D({vs(pl, o)}, {"AngleDeg(" + a + ")" if form == "angle object" else a})'


def rays_of(tier):
    return [(o, d) for o in grid(4 if tier == 'thorough' else 3) for d in directions(tier)]


def meet(o, d, q, e):
    """(t, u, point) with o + t d == q + u e, None when parallel"""
    den = d[0] * e[1] - d[1] * e[0]
    if den == 0:
        return None
    w = geo.sub(q, o)
    t = F(w[0] * e[1] - w[1] * e[0], den)
    u = F(w[0] * d[1] - w[1] * d[0], den)
    return t, u, (o[0] + t * d[0], o[1] + t * d[1])


def expect(ctx, got, pl, want, what):
    if want is None:
        if got.is_valid():
            ctx.fail(f'{what()}: intersection {pt(got)}, expected none')
    elif not at(got, pl, want, 1e-8):
        ctx.fail(f'{what()}: intersection {pt(got)}, expected ({pl.fx(want[0])!r},{pl.fy(want[1])!r})')


def pairs(ctx, pl, mine_, all_):
    objs = {(o, d): [make(pl, o, d, f) for f in FORMS] for o, d in all_}
    # the shared objects are only asked questions; fresh ones are made for every first operand
    for i, (o, d) in enumerate(mine_):
        fi = i % 3
        r = make(pl, o, d, FORMS[fi])
        ctx.case = lambda: f'r = {src(pl, o, d, FORMS[fi])}; print(r, r.origin(), r.dir(), r.line())'
        for f in FORMS:
            s = make(pl, o, d, f)
            for name, x in ((f, s), ('copy of ' + f, s.copy())):
                if not at(x.origin(), pl, o) or not at(x.origin_(), pl, o):
                    ctx.fail(f'{name} {src(pl, o, d, f)}: origin {pt(x.origin())}')
                if angle_gap(x.dir().degree(), deg(*d)) > 1e-9 or angle_gap(x.dir_().degree(), deg(*d)) > 1e-9:
                    ctx.fail(f'{name} {src(pl, o, d, f)}: direction {x.dir().degree()!r}, expected {deg(*d)!r}')
                ln = x.line()
                n = math.hypot(ln.a(), ln.b())
                for k in (0, 1, -2):
                    X, Y = pl.fx(o[0] + k * d[0]), pl.fy(o[1] + k * d[1])
                    if not n > 0 or abs(ln.a() * X + ln.b() * Y + ln.c()) > 1e-9 * (1 + pl.mag) * n:
                        ctx.fail(f'{name} {src(pl, o, d, f)}: the line {ln!r} misses ({X!r},{Y!r})')
                if not x == r:
                    ctx.fail(f'{name} {src(pl, o, d, f)} does not equal {src(pl, o, d, FORMS[fi])}')
            ctx.transitions += 8
        ctx.states += 1
        for j, (q, e) in enumerate(all_):
            s = objs[q, e][(i + j) % 3]
            what = lambda: f'r = {src(pl, o, d, FORMS[fi])}; s = {src(pl, q, e, FORMS[(i + j) % 3])}'
            ctx.case = lambda: what() + '\nprint(r.intersection(s), r == s)'
            m = meet(o, d, q, e)
            want = m[2] if m and m[0] >= 0 and m[1] >= 0 else None
            expect(ctx, r.intersection(s), pl, want, what)
            if (r == s) != (o == q and d == e):
                ctx.fail(f'{what()}: r == s is {r == s}')
            ctx.transitions += 2
            ctx.traces += 1
            ctx.outcome('rays ' + ('parallel' if m is None else 'meet at an origin' if want and (m[0] == 0 or m[1] == 0) else 'meet' if want else 'carriers cross behind'))


def with_lines(ctx, pl, mine_, lines):
    ls = [(p, q, Line2D(V(pl, p), V(pl, q))) for p, q in lines]
    for i, (o, d) in enumerate(mine_):
        r = make(pl, o, d, FORMS[i % 3])
        for p, q, l in ls:
            what = lambda: f'r = {src(pl, o, d, FORMS[i % 3])}; l = Line2D({vs(pl, p)}, {vs(pl, q)})'
            ctx.case = lambda: what() + '\nprint(r.intersection(l))'
            m = meet(o, d, p, geo.sub(q, p))
            expect(ctx, r.intersection(l), pl, m[2] if m and m[0] >= 0 else None, what)
            ctx.transitions += 1
            ctx.outcome('line ' + ('parallel' if m is None else 'through the origin' if m[0] == 0 else 'hit' if m[0] > 0 else 'behind'))
        ctx.traces += 1


THR = (10.0, 0.5, 1.0, 2, 5.0, 9.999, 10.001, 26.6, 30, 45.5, 90, 90.001, 135.5, 180.5)


def thresholds(ctx, pl, o, d, thrs):
    for f in FORMS:
        r = make(pl, o, d, f)
        for x in range(-6, 7):
            for y in range(-6, 7):
                P = V(pl, (o[0] + x, o[1] + y))
                ctx.case = lambda: f'r = {src(pl, o, d, f)}; print([(t, r.in_right_dir(Vector2D({P.x()!r}, {P.y()!r}), t)) for t in {thrs!r}])'
                gap = abs(math.degrees(math.atan2(d[0] * y - d[1] * x, d[0] * x + d[1] * y)))
                for t in thrs:
                    if (x or y) and abs(gap - t) < 1e-7:
                        continue
                    want = not (x or y) or gap < t
                    got = r.in_right_dir(P, t)
                    if bool(got) != want:
                        ctx.fail(f'{src(pl, o, d, f)}.in_right_dir(({P.x()!r},{P.y()!r}), {t!r}) is {got!r}; the angle is {gap!r}')
                    ctx.transitions += 1
                if abs(gap - 10) > 1e-7 and bool(r.in_right_dir(P)) != (not (x or y) or gap < 10):
                    ctx.fail(f'{src(pl, o, d, f)}.in_right_dir(({P.x()!r},{P.y()!r})) is wrong; the angle is {gap!r}')
                ctx.outcome('at the origin' if not (x or y) else 'in direction' if gap < 10 else 'off direction')
    ctx.states += 1


def near(ctx, pl, o, d):
    """points and crossings a hair in front of, behind and beside the origin of the ray (further than the tolerance of equality)"""
    ks = [k for k in (range(1, 19) if ctx.tier == 'thorough' else (3, 6, 9, 12, 15, 17, 18)) if 2.0 ** -k > 1e-11 * (1 + pl.mag)]
    ox, oy = V(pl, o).x(), V(pl, o).y()
    for f in FORMS:
        r = make(pl, o, d, f)
        for k in ks:
            h = 2.0 ** -k
            for e in directions(ctx.tier):
                P = Vector2D(ox + h * e[0], oy + h * e[1])
                x, y = P.x() - ox, P.y() - oy
                gap = abs(math.degrees(math.atan2(d[0] * y - d[1] * x, d[0] * x + d[1] * y)))
                ctx.case = lambda: f'r = {src(pl, o, d, f)}; print(r.in_right_dir(Vector2D({P.x()!r}, {P.y()!r})))'
                for t in (10.0, 1.0, 60.0, 150.0):
                    if abs(gap - t) > 1e-3 and bool(r.in_right_dir(P, t)) != (gap < t):
                        ctx.fail(f'{src(pl, o, d, f)}.in_right_dir(({P.x()!r},{P.y()!r}), {t!r}) is {not gap < t}; the angle is {gap!r}')
                    ctx.transitions += 1
                if d[0] * e[1] == d[1] * e[0]:
                    continue
                for sg in (1, -1):
                    c = (ox + sg * h * d[0], oy + sg * h * d[1])
                    p, q = (c[0] - pl.s * e[0], c[1] - pl.s * e[1]), (c[0] + 2 * pl.s * e[0], c[1] + 2 * pl.s * e[1])
                    other = Line2D(Vector2D(*p), Vector2D(*q)), Ray2D(Vector2D(*p), Vector2D(*q))
                    for cls, x in zip(('Line2D', 'Ray2D'), other):
                        ctx.case = lambda: f'r = {src(pl, o, d, f)}; s = {cls}(Vector2D{p!r}, Vector2D{q!r})\nprint(r.intersection(s))'
                        m = r.intersection(x)
                        if m.is_valid() != (sg > 0) or sg > 0 and math.hypot(m.x() - c[0], m.y() - c[1]) > 1e-9 * (1 + pl.mag):
                            ctx.fail(f'{src(pl, o, d, f)} and {cls}(Vector2D{p!r}, Vector2D{q!r}): intersection {pt(m)}, expected {c if sg > 0 else None} ({h!r} {"in front of" if sg > 0 else "behind"} the origin)')
                        ctx.transitions += 1
                        if cls == 'Ray2D':
                            m = x.intersection(r)
                            if m.is_valid() != (sg > 0):
                                ctx.fail(f'{cls}(Vector2D{p!r}, Vector2D{q!r}) and {src(pl, o, d, f)}: intersection {pt(m)}, expected {c if sg > 0 else None}')
    ctx.states += 1
    ctx.outcome('close to the origin of the ray')


def seam(ctx, pl, o):
    """equality of rays whose directions are written differently, across the +-180 seam included"""
    base = [180.0, -180, 540.0, -900.0, 180 - 4e-7, -180 + 4e-7, 180 - 3e-6, -180 + 3e-6, 179.5, -179.5, 0, 360.0, -0.0, 4e-7, -4e-7, 3e-6, -3e-6, 90, -270, 450.0, -90, 270.0, 90 + 5e-7, 45.0, -135.0, 225, 720 + 45.0]
    O, Q = V(pl, o), V(pl, (o[0] + 1, o[1]))
    rays = [(f'Ray2D({vs(pl, o)}, {t!r})', Ray2D(O, t), t) for t in base] + [(f'Ray2D({vs(pl, o)}, AngleDeg({t!r}))', Ray2D(O, AngleDeg(t)), t) for t in base]
    rays += [(f'Ray2D({vs(pl, o)}, {vs(pl, (o[0] + d[0], o[1] + d[1]))})', make(pl, o, d, 'target'), deg(*d)) for d in ((-1, 0), (-7, 0), (1, 0), (0, 1), (0, -2), (3, 3), (-2, -2))]
    for s, r, t in rays:
        for s2, r2, u in rays:
            g = angle_gap(t, u)
            if 0.9e-6 < g < 1.1e-6:
                continue
            ctx.case = lambda: f'print({s} == {s2})'
            if bool(r == r2) is not (g < 1e-6):
                ctx.fail(f'{s} == {s2} is {r == r2}; the directions are {g!r} degrees apart')
            ctx.transitions += 1
            ctx.traces += 1
        ctx.case = lambda: f'print({s} == Ray2D({vs(pl, (o[0] + 1, o[1]))}, {t!r}))'
        if r == Ray2D(Q, t):
            ctx.fail(f'{s} equals the ray with the same direction from {vs(pl, (o[0] + 1, o[1]))}')
        ctx.states += 1
    ctx.outcome('equality across the seam', len(rays) ** 2)


def far(ctx, pl, o):
    """crossings far away, of carriers that are nearly parallel"""
    for k in (range(2, 13) if ctx.tier == 'thorough' else (3, 5, 7, 9, 10, 12)):
        if 2.0 ** -k * pl.s * pl.s < 1e-4 or 2.0 ** -k < 1e-4:
            continue
        D = 2 ** k
        for rx, ry in ((1, 0), (0, 1), (-1, 0), (0, -1)):
            turn = lambda x, y: (rx * x - ry * y, ry * x + rx * y)
            d = turn(D, 1)
            for j in (1, 2, -1):
                c = (o[0] + j * d[0], o[1] + j * d[1])
                for e, n in (((1, 0), 2), ((1, 0), D * abs(j) + 3), ((0, 1), 3), ((1, 1), 5), ((-1, 0), 4), ((-D, 1), 1)):
                    e = turn(*e)
                    q = (c[0] - n * e[0], c[1] - n * e[1])
                    for f in FORMS:
                        r = make(pl, o, d, f)
                        L, R, W = Line2D(V(pl, q), V(pl, (q[0] + e[0], q[1] + e[1]))), make(pl, q, e, f), make(pl, q, (-e[0], -e[1]), f)
                        tol = 1e-8 * (1 + pl.mag) + 1e-13 * (D * (n + 2) * (pl.s + pl.mag)) ** 2 / min(1.0, pl.s)
                        if tol > 0.05 * pl.s:
                            continue
                        for what, got, want in ((f'Line2D({vs(pl, q)}, {vs(pl, (q[0] + e[0], q[1] + e[1]))})', r.intersection(L), j > 0), (src(pl, q, e, f), r.intersection(R), j > 0),
                                                (src(pl, q, (-e[0], -e[1]), f), r.intersection(W), False)):
                            ctx.case = lambda: f'r = {src(pl, o, d, f)}; s = {what}\nprint(r.intersection(s))'
                            if got.is_valid() != want or want and max(abs(got.x() - pl.fx(c[0])), abs(got.y() - pl.fy(c[1]))) > tol:
                                ctx.fail(f'{src(pl, o, d, f)} and {what}: intersection {pt(got)}, expected {pl.xy(c) if want else None}')
                            ctx.transitions += 1
                        ctx.traces += 1
        ctx.states += 1
    ctx.outcome('far crossings', ctx.traces)


def shards(tier):
    np = len(places(tier))
    n = 6 if tier != 'thorough' else 24
    out = [(kind, k, i, n) for k in range(np) for kind in ('pairs', 'lines', 'thr', 'near') for i in range(n)] + [('seam', k, i, 2) for k in range(np) for i in range(2)] + [('far', k, i, 2) for k in range(np) for i in range(2)]
    if tier == 'smoke':
        out = [o for o in out if o[1] < 1 and o[2] < 2]
    return out


def run(shard, ctx):
    kind, k, i, n = shard
    pl = places(ctx.tier)[k]
    rs = rays_of(ctx.tier)
    if kind == 'pairs':
        pairs(ctx, pl, rs[i::n], rs)
        ctx.sample(lambda: f'{src(pl, *rs[i], "angle object")} against {len(rs)} rays')
    elif kind == 'lines':
        g = grid(4)
        with_lines(ctx, pl, rs[i::n], [(p, q) for p in g for q in g if p < q])
        ctx.sample(lambda: f'{src(pl, *rs[i], "target")} against {len(g) * (len(g) - 1) // 2} lines')
    elif kind in ('seam', 'far'):
        (seam if kind == 'seam' else far)(ctx, pl, ((0, 0), (1, 2))[i])
        ctx.sample(lambda: f'{kind}: rays from {vs(pl, ((0, 0), (1, 2))[i])}')
    elif kind == 'near':
        for d in directions(ctx.tier)[i::n]:
            for o in ((0, 0), (1, 2)):
                near(ctx, pl, o, d)
        ctx.sample(lambda: f'crossings 2^-3 to 2^-18 in front of and behind the origin of {src(pl, (0, 0), (1, 0), "number")}')
    else:
        thrs = list(THR) + [t + e for t in mine.near(0.5, 180, 5) for e in (-0.01, 0.01)]
        os_ = ((0, 0), (1, 2)) if ctx.tier != 'thorough' else ((0, 0), (1, 2), (2, 0), (3, 3))
        for o in os_:
            for d in directions(ctx.tier)[i::n]:
                thresholds(ctx, pl, o, d, thrs)
        ctx.sample(lambda: f'direction test of {src(pl, (0, 0), (1, 0), "number")} on 169 points')
