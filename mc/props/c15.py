"""C15: sectors."""
import math
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.sector_2d import Sector2D
from mc import mine
from mc.lib import pt, angle_gap
from mc.obs import obs

TITLE = 'Sector geometry matches its radii and its swept angle'
BOUNDS = ('all combinations of 31 (thorough 55) start and end angles (objects and numbers, in and out of range), 20 radius pairs, 3 (5) centres and the 13x13 half lattice of points around the centre points 0.06 to 1e-4 from the centre, points 2^-5 to 2^-23 beside the arcs and 0.01 and 0.0001 degree beside the border directions, '
          'for construction and for assignment over another sector; all ordered pairs of 288 sectors for equality')
ASSUMPTIONS = ['points within 1e-6 degree of a border direction are decided only when direction and border are multiples of 45 degrees', 'the centre point itself and sectors with a negative outer radius are not decided for containment']

RADII = [(0, 0), (0, 1), (0, 2.5), (1, 2.5), (0.5, 0.5), (2, 3), (-1, 2), (-0.5, 0.25), (2.5, 1), (3, 0), (1.5, 1.5), (0.25, 8.5), (0, 3), (2, 2.5), (1, 1), (-2, -1), (-1, 0), (16.5, 40), (0, 128.0), (63.5, 64)]


def angles(tier):
    a = [0, 45, 90, 135, 180, -180, -45, -90, -135, 30.0, -30.0, 10, 60, 100, 120.5, 150, 170, 179.5, -179.5, -170, -150, -100, -60, -10, 1.0, -1, 360, 270, -270, 405, 725.5]
    if tier == 'thorough':
        a += [15.0 * k + 0.25 for k in range(-12, 12)]
    for c in mine.near(1e-2, 720, 3):
        a += [c, -c]
    return a


def centres(tier):
    cs = [(0, 0), (-52.5, 34.0), (1, -2)]
    if tier == 'thorough':
        cs += [(8.25, 0.5), (-1024.0, 3)]
    for c in mine.near(1 / 8, 1e4, 2):
        cs.append((mine.dyadic(c), -mine.dyadic(c)))
    return cs


def points():
    out = []
    for x in range(-6, 7):
        for y in range(-6, 7):
            if x or y:
                e = math.degrees(math.atan2(y, x))
                exact = x == 0 or y == 0 or abs(x) == abs(y)
                out.append((x / 2, y / 2, F(x * x + y * y, 4), e, exact))
    return out


def norm(a):
    return float(-((180 - F(a)) % 360 - 180))     # (-180, 180]


def check(ctx, s, c, lo, hi, a, b, pts, what):
    rlo, rhi = max(0.0, lo), max(lo, hi)
    sweep = float((F(b) - F(a)) % 360)
    if s.radius_min() != rlo or s.radius_max() != rhi:
        ctx.fail(f'{what()}: radii {s.radius_min()!r}, {s.radius_max()!r}, expected {rlo}, {rhi}')
    for v in (s.center(), s.center_()):
        if pt(v) != (c[0], c[1], True):
            ctx.fail(f'{what()}: centre {pt(v)}')
    for v, w in ((s.angle_left_start(), a), (s.angle_left_start_(), a), (s.angle_right_end(), b), (s.angle_right_end_(), b)):
        if angle_gap(v.degree(), float(w)) > 1e-9 or abs(v.degree()) > 180:
            ctx.fail(f'{what()}: angle {v.degree()!r}, expected {norm(w)!r}')
    for name, got, want in (('area', s.area(), math.pi * (rhi * rhi - rlo * rlo) * sweep / 360), ('get_circumference_min', s.get_circumference_min(), 2 * math.pi * rlo * sweep / 360),
                            ('get_circumference_max', s.get_circumference_max(), 2 * math.pi * rhi * sweep / 360)):
        if not abs(got - want) <= 1e-9 * (1 + abs(want)):
            ctx.fail(f'{what()}: {name} is {got!r}, expected {want!r}')
    ctx.transitions += 12
    if rhi < 0:
        return
    start_exact, end_exact = F(a) % 45 == 0, F(b) % 45 == 0
    lo2, hi2 = F(rlo) ** 2, F(rhi) ** 2
    for x, y, d2, e, exact in pts:
        t = (e - float(a)) % 360.0
        near_start = min(t, 360 - t) < 1e-6
        g = abs(t - sweep)
        near_end = min(g, 360 - g) < 1e-6
        if near_start:
            if not (exact and start_exact):
                continue
            within = True
        elif near_end:
            if not (exact and end_exact):
                continue
            within = True
        else:
            within = t < sweep
        want = within and lo2 <= d2 <= hi2
        P = Vector2D(c[0] + x, c[1] + y)
        got = s.contains(P)
        if bool(got) != want:
            ctx.fail(f'{what()}: contains ({c[0] + x!r},{c[1] + y!r}) is {got}, expected {want} (distance {math.sqrt(d2)!r}, direction {e!r})')
        ctx.transitions += 1
        ctx.outcome('on a border direction' if near_start or near_end else 'inside' if want else 'wrong distance' if within else 'wrong direction')


def one(ctx, c, lo, hi, a, b, pts, form):
    A = AngleDeg(a) if form & 1 else a
    B = AngleDeg(b) if form & 2 else b
    what = lambda: f'Sector2D(Vector2D{c!r}, {lo!r}, {hi!r}, {"AngleDeg(%r)" % a if form & 1 else repr(a)}, {"AngleDeg(%r)" % b if form & 2 else repr(b)})'
    ctx.case = lambda: f's = {what()}\nprint(s, s.area(), s.get_circumference_min(), s.get_circumference_max())'
    check(ctx, Sector2D(Vector2D(*c), lo, hi, A, B), c, lo, hi, a, b, pts, what)
    hair(ctx, Sector2D(Vector2D(*c), lo, hi, A, B), c, lo, hi, a, b, what)
    s = Sector2D(Vector2D(3, 3), 1, 7, 33, -44)
    ctx.case = lambda: f's = Sector2D(Vector2D(3, 3), 1, 7, 33, -44); s.assign{what()[8:]}\nprint(s, s.area(), s.get_circumference_min(), s.get_circumference_max())'
    s.assign(Vector2D(*c), lo, hi, A, B)
    check(ctx, s, c, lo, hi, a, b, pts[::7], lambda: 'assigned ' + what())
    ctx.states += 1
    ctx.traces += 2


def hair(ctx, s, c, lo, hi, a, b, what):
    """points a hair inside and outside the two arcs and the two border directions"""
    rlo, rhi = max(0.0, lo), max(lo, hi)
    sweep = float((F(b) - F(a)) % 360)
    if rhi <= 0:
        return
    rs = [(r, r * (1 + sg * h)) for r in {rlo, rhi} if r > 0 for h in ((2.0 ** -k for k in range(4, 26)) if ctx.tier == 'thorough' else (2.0 ** -5, 2.0 ** -10, 2.0 ** -17, 2.0 ** -23)) for sg in (1, -1)]
    rs += [(0, r) for r in (0.0625, 2.0 ** -8, 1e-4)]      # close to the centre
    ds = [float(a) + sweep / 2, float(a) + sweep / 2 + 180]
    ps = [(r, d, rlo <= r <= rhi and d == ds[0]) for _, r in rs for d in ds if (sweep if d == ds[0] else 360 - sweep) > 1e-3]
    mid = (rlo + rhi) / 2
    if rlo < rhi:
        for e in ((0.5, 0.01, 1e-4, 1e-5) if ctx.tier == 'thorough' else (0.01, 1e-4)):
            for t in (e, -e, sweep + e, sweep - e):
                if min(t % 360, 360 - t % 360) > e / 2 and (g := (t - sweep) % 360) > e / 2 and 360 - g > e / 2:
                    ps.append((mid, float(a) + t, t % 360 < sweep))
    for r, d, want in ps:
        if min(abs(r - rlo), abs(r - rhi)) < 1e-9 * (1 + rhi + abs(c[0]) + abs(c[1])) and rlo < rhi:
            continue                           # a hair from one arc that lands on the other
        x, y = c[0] + r * math.cos(math.radians(d)), c[1] + r * math.sin(math.radians(d))
        got = s.contains(Vector2D(x, y))
        if bool(got) != want:
            ctx.fail(f'{what()}: contains ({x!r},{y!r}) is {got}, expected {want} (distance {r!r}, direction {d!r})')
        ctx.transitions += 1
    ctx.outcome('near the border', len(ps))


def equality(ctx):
    al = [(c, lo, hi, a, b) for c in ((0, 0), (0, 1.5), (-3, 0)) for lo, hi in ((0, 2), (1, 2), (-1, 2), (1, 1), (2, 1), (1, 2.001)) for a in (0, 90, 180, -180) for b in (0, 45, 360, 90.001)]
    ss = [Sector2D(Vector2D(*c), lo, hi, a, b) for c, lo, hi, a, b in al]
    key = [(c, max(0, lo), max(lo, hi), F(a) % 360, F(b) % 360) for c, lo, hi, a, b in al]
    for i, s in enumerate(ss):
        for j, t in enumerate(ss):
            ctx.case = lambda: f's = Sector2D(Vector2D{al[i][0]}, *{al[i][1:]}); t = Sector2D(Vector2D{al[j][0]}, *{al[j][1:]}); print(s == t)'
            if bool(s == t) != (key[i] == key[j]):
                ctx.fail(f'Sector2D{al[i]} == Sector2D{al[j]} is {s == t}')
            ctx.transitions += 1
            ctx.outcome('equal sectors' if key[i] == key[j] else 'different sectors')
        ctx.traces += 1


def shards(tier):
    out = [('eq', 0, 0)] + [('c', i, j) for i in range(len(centres(tier))) for j in range(len(angles(tier)))]
    return out if tier != 'smoke' else out[::20]


def run(shard, ctx):
    kind, i, j = shard
    if kind == 'eq':
        return equality(ctx)
    c, a = centres(ctx.tier)[i], angles(ctx.tier)[j]
    pts = points()
    for m, b in enumerate(angles(ctx.tier)):
        for k, (lo, hi) in enumerate(RADII):
            one(ctx, c, lo, hi, a, b, pts if k < 4 else pts[k % 3::3], (m + k) % 4)
    ctx.sample(f'sector centre {c}, start {a}, all ends and radii')
