"""C13: triangle centres and circumcircle."""
import itertools
import math
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.triangle_2d import Triangle2D
from mc import geo
from mc.lib import Place, places, grid, V, vs, at, pt

TITLE = 'Triangle centres and circumcircle satisfy their defining equations'
BOUNDS = ('all ordered vertex triples of a 4x4 lattice (thorough 5x5) in 5 (thorough 9) placements and in three small ones (lattice unit 2^-6, 2^-9, 2^-14; the last not for the orthocenter); each with all lattice and half-lattice points for the in-circle test (one order per vertex set in the quick tier); all vertex orders of flat triangles, needles and large triangles (sides to 8192, heights from 1/256) in 6 sizes and 6 positions, with points 2^-4 to 2^-22 of the radius inside and outside the circumcircle')
ASSUMPTIONS = ['the circumcenter of a triple with repeated points is not decided', 'points exactly on the circumcircle are decided for coordinates up to 12 only (beyond that they are inside the rounding of the documented 1e-6 tolerance)']


def circumcentre(a, b, c):
    d = 2 * geo.cross(a, b, c)
    bx, by, cx, cy = b[0] - a[0], b[1] - a[1], c[0] - a[0], c[1] - a[1]
    b2, c2 = bx * bx + by * by, cx * cx + cy * cy
    return (a[0] + F(cy * b2 - by * c2, d), a[1] + F(bx * c2 - cx * b2, d))


def tri(ctx, pl, t, pts):
    a, b, c = t
    A, B, C = V(pl, a), V(pl, b), V(pl, c)
    src = lambda: f't = Triangle2D({vs(pl, a)}, {vs(pl, b)}, {vs(pl, c)})'
    ctx.case = lambda: src() + '\nprint(t.centroid(), t.incenter(), t.circumcenter(), t.orthocenter(), Circle2D.circum_circle(t.a(), t.b(), t.c()))'
    x = Triangle2D(A, B, C)
    ds = geo.cross(a, b, c)
    g = (F(a[0] + b[0] + c[0], 3), F(a[1] + b[1] + c[1], 3))
    for name, got in (('centroid', x.centroid()), ('tri_centroid', Triangle2D.tri_centroid(A, B, C))):
        if not at(got, pl, g):
            ctx.fail(f'{src()}: {name} is {pt(got)}, expected ({pl.fx(g[0])!r},{pl.fy(g[1])!r})')
    ctx.transitions += 2
    ctx.states += 1
    if ds == 0:
        for name, got in (('circumcenter', x.circumcenter()), ('tri_circumcenter', Triangle2D.tri_circumcenter(A, B, C))):
            if len({a, b, c}) == 3 and got.is_valid():
                ctx.fail(f'{src()} (collinear): {name} is {pt(got)}')
        for w, W in pts[::5]:
            ctx.case = lambda: f'print(Circle2D.circum_circle_contains(Vector2D({W.x()!r}, {W.y()!r}), {vs(pl, a)}, {vs(pl, b)}, {vs(pl, c)}))'
            if Circle2D.circum_circle_contains(W, A, B, C):
                ctx.fail(f'collinear {src()}: the circumcircle contains ({W.x()!r},{W.y()!r})')
            ctx.transitions += 1
        ctx.transitions += 2
        ctx.outcome('collinear')
        return
    la, lb, lc = math.dist(b, c), math.dist(a, c), math.dist(a, b)
    per = la + lb + lc
    inc = ((la * a[0] + lb * b[0] + lc * c[0]) / per, (la * a[1] + lb * b[1] + lc * c[1]) / per)
    tol = 1e-8 * (1 + pl.mag)
    for name, got in (('incenter', x.incenter()), ('tri_incenter', Triangle2D.tri_incenter(A, B, C))):
        if not got.is_valid() or abs(got.x() - pl.ox - pl.s * inc[0]) > tol or abs(got.y() - pl.oy - pl.s * inc[1]) > tol:
            ctx.fail(f'{src()}: {name} is {pt(got)}, expected ({pl.ox + pl.s * inc[0]!r},{pl.oy + pl.s * inc[1]!r})')
    cc = circumcentre(a, b, c)
    r2 = (cc[0] - a[0]) ** 2 + (cc[1] - a[1]) ** 2
    circumscribed(ctx, src, pl, t, x, cc, r2, tol)
    in_circle(ctx, src, pl, t, cc, r2, pts)
    ctx.traces += 1
    ctx.outcome('proper triangle')


def circumscribed(ctx, src, pl, t, x, cc, r2, tol):
    a, b, c = t
    A, B, C = V(pl, a), V(pl, b), V(pl, c)
    for name, got in (('circumcenter', x.circumcenter()), ('tri_circumcenter', Triangle2D.tri_circumcenter(A, B, C))):
        if not at(got, pl, cc, 1e-8):
            ctx.fail(f'{src()}: {name} is {pt(got)}, expected ({pl.fx(cc[0])!r},{pl.fy(cc[1])!r})')
    if pl.s <= 2.0 ** -10:
        tol = 1e-9 * pl.s * (1 + math.sqrt(r2))
        for name, got in (('circumcenter', x.circumcenter()), ('tri_circumcenter', Triangle2D.tri_circumcenter(A, B, C))):
            if abs(got.x() - pl.fx(cc[0])) > tol or abs(got.y() - pl.fy(cc[1])) > tol:
                ctx.fail(f'{src()}: {name} is {pt(got)}, expected ({pl.fx(cc[0])!r},{pl.fy(cc[1])!r})')
        circ = Circle2D.circum_circle(A, B, C)
        if abs(circ.radius() - math.sqrt(r2) * pl.s) > tol:
            ctx.fail(f'{src()}: circum_circle is {pt(circ.center())} radius {circ.radius()!r}')
        ctx.transitions += 3
        return                          # the altitudes are within the documented parallel tolerance
    oc = (a[0] + b[0] + c[0] - 2 * cc[0], a[1] + b[1] + c[1] - 2 * cc[1])
    for name, got in (('orthocenter', x.orthocenter()), ('tri_orthocenter', Triangle2D.tri_orthocenter(A, B, C))):
        if not at(got, pl, oc, 1e-8):
            ctx.fail(f'{src()}: {name} is {pt(got)}, expected ({pl.fx(oc[0])!r},{pl.fy(oc[1])!r})')
    circ = Circle2D.circum_circle(A, B, C)
    if not at(circ.center(), pl, cc, 1e-8) or abs(circ.radius() - math.sqrt(r2) * pl.s) > tol:
        ctx.fail(f'{src()}: circum_circle is {pt(circ.center())} radius {circ.radius()!r}')
    ctx.transitions += 7


def in_circle(ctx, src, pl, t, cc, r2, pts):
    a, b, c = t
    A, B, C = V(pl, a), V(pl, b), V(pl, c)
    for w, W in pts:
        k = (w[0] - cc[0]) ** 2 + (w[1] - cc[1]) ** 2
        if k == r2 and pl.mag > 12:
            continue
        ctx.case = lambda: f'print(Circle2D.circum_circle_contains(Vector2D({W.x()!r}, {W.y()!r}), {vs(pl, a)}, {vs(pl, b)}, {vs(pl, c)}))'
        got = Circle2D.circum_circle_contains(W, A, B, C)
        if bool(got) != (k < r2):
            ctx.fail(f'{src()}: circum_circle_contains(({W.x()!r},{W.y()!r})) is {got}, expected {k < r2}')
        ctx.transitions += 1
        ctx.outcome('point on the circle' if k == r2 else 'point inside' if k < r2 else 'point outside')


def thin(ctx, scale):
    """flat and large triangles, whose circumcenter and orthocenter lie far away; needles"""
    hs = [F(1), F(3, 4), F(1, 16), F(1, 64)] + ([F(1, 4), F(1, 256)] if ctx.tier == 'thorough' else [])
    shapes = [((0, 0), (w, 0), (x, h)) for w in (4, 16, 50) for x in sorted({0, 1, w // 2, w, w + 3}) for h in hs] + [((0, 0), (w, 0), (w // 2, w)) for w in (40, 64)]
    for sh in shapes:
        for tx, ty, ox, oy in ((1, 0, 0, 0), (0, 1, -20, 7), (-1, 0, 52, -34), (0, -1, 0, 300), (F(3, 5), F(4, 5), 0, 0), (1, 1, 3, 3)):
            g = [(F(ox) + scale * (tx * F(x) - ty * F(y)), F(oy) + scale * (ty * F(x) + tx * F(y))) for x, y in sh]
            v = [Vector2D(float(x), float(y)) for x, y in g]
            e = [(F(p.x()), F(p.y())) for p in v]
            area2 = abs(float(geo.cross(*e)))
            cc = circumcentre(*e)
            R = math.sqrt((cc[0] - e[0][0]) ** 2 + (cc[1] - e[0][1]) ** 2)
            M = max(abs(float(z)) for p in e for z in p) + max(math.dist(p, q) for p in e for q in e)
            tol = 1e-13 * (R + M) * max(1.0, M * M / area2)
            if tol > 1e-4 * R or area2 < 2e-3:
                continue
            oc = (e[0][0] + e[1][0] + e[2][0] - 2 * cc[0], e[0][1] + e[1][1] + e[2][1] - 2 * cc[1])
            la, lb, lc = math.dist(e[1], e[2]), math.dist(e[0], e[2]), math.dist(e[0], e[1])
            inc = [float(la * float(e[0][i]) + lb * float(e[1][i]) + lc * float(e[2][i])) / (la + lb + lc) for i in (0, 1)]
            cen = [(e[0][i] + e[1][i] + e[2][i]) / 3 for i in (0, 1)]
            near = []
            for ux, uy in ((1, 0), (0, -1), (0.6, 0.8), (-0.8, 0.6), (-0.6, -0.8)):
                for k in (range(2, 24) if ctx.tier == 'thorough' else (4, 10, 16, 20, 22)):
                    for sg in (1, -1):
                        P = Vector2D(float(cc[0]) + R * (1 + sg * 2.0 ** -k) * ux, float(cc[1]) + R * (1 + sg * 2.0 ** -k) * uy)
                        d = (F(P.x()) - cc[0]) ** 2 + (F(P.y()) - cc[1]) ** 2 - F(R) ** 2
                        if abs(d) > 8 * tol * R and abs(d) > 1e-10:
                            near.append((P, d < 0))
            for A, B, C in itertools.permutations(v):
                src = lambda: f't = Triangle2D(Vector2D{pt(A)[:2]!r}, Vector2D{pt(B)[:2]!r}, Vector2D{pt(C)[:2]!r})'
                ctx.case = lambda: src() + '\nprint(t.centroid(), t.incenter(), t.circumcenter(), t.orthocenter(), Circle2D.circum_circle(t.a(), t.b(), t.c()))'
                t = Triangle2D(A, B, C)
                circ = Circle2D.circum_circle(A, B, C)
                for name, got, want, k in (('centroid', t.centroid(), cen, 1e-10 * (1 + M)), ('incenter', t.incenter(), inc, 1e-9 * (1 + M)), ('circumcenter', t.circumcenter(), cc, tol), ('orthocenter', t.orthocenter(), oc, 4 * tol),
                                           ('tri_circumcenter', Triangle2D.tri_circumcenter(A, B, C), cc, tol), ('tri_orthocenter', Triangle2D.tri_orthocenter(A, B, C), oc, 4 * tol), ('circum_circle centre', circ.center(), cc, tol)):
                    if not got.is_valid() or max(abs(got.x() - float(want[0])), abs(got.y() - float(want[1]))) > k:
                        ctx.fail(f'{src()}: {name} is {pt(got)}, expected {tuple(map(float, want))}')
                    ctx.transitions += 1
                for P, want in near:
                    ctx.case = lambda: f'print(Circle2D.circum_circle_contains(Vector2D({P.x()!r}, {P.y()!r}), Vector2D{pt(A)[:2]!r}, Vector2D{pt(B)[:2]!r}, Vector2D{pt(C)[:2]!r}))'
                    if bool(Circle2D.circum_circle_contains(P, A, B, C)) != want:
                        ctx.fail(f'{src()}: circum_circle_contains(({P.x()!r},{P.y()!r})) is {not want}, expected {want}')
                    ctx.transitions += 1
                if abs(circ.radius() - R) > 2 * tol:
                    ctx.fail(f'{src()}: circum_circle has radius {circ.radius()!r}, expected {R!r}')
                ctx.traces += 1
            ctx.states += 1
            ctx.outcome('flat triangle' if R > 5 * M else 'large triangle')
    ctx.sample(lambda: src())


def places13(tier):
    return places(tier, hi=16.0) + [Place(2.0 ** -6, 0.0, 0.0), Place(2.0 ** -9, 0.0, 0.0), Place(2.0 ** -14, 0.0, 0.0)]


def shards(tier):
    n = 16
    out = [(k, i, n) for k in range(len(places13(tier))) for i in range(n)] + [('thin', i, 0) for i in range(6)]
    if tier == 'smoke':
        out = [o for o in out if o[0] in (0, 1) and o[1] < 2]
    return out


def run(shard, ctx):
    k, i, n = shard
    if k == 'thin':
        return thin(ctx, (F(1, 4), 1, 2, 8, 32, 128)[i])
    pl = places13(ctx.tier)[k]
    thorough = ctx.tier == 'thorough'
    m = 5 if thorough else 4
    pts = [((F(x, 2), F(y, 2)), Vector2D(pl.ox + pl.s * x / 2, pl.oy + pl.s * y / 2)) for x in range(-1, 2 * m) for y in range(-1, 2 * m)]
    if thorough:
        pts = pts[::3] + pts[1::7]
    for j, t in enumerate(itertools.product(grid(m), repeat=3)):
        if j % n == i:
            full = t[0] < t[1] < t[2] if not thorough else t[0] <= t[1]
            tri(ctx, pl, t, pts if full else pts[j % 9::9])
    ctx.sample(f'triangle {[pl.xy(p) for p in t]}')
