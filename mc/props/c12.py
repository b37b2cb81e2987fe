"""C12: triangle area, orientation, containment, validity."""
import itertools
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from mc import geo, hair
from mc.geo import Place
from mc.lib import places, TINY, grid, V, vs, stretches, stretched

TITLE = 'Triangle area, orientation, containment and validity are exact'
BOUNDS = ('all ordered vertex triples of a 4x4 lattice (thorough 5x5, points of the lattice only) with all 81 half-lattice points of and around it, in 5 (thorough 9) exactly representable placements and two of scale 2^-20; '
          'all validity patterns of three vertices over a 2x2 lattice; 6 triangles in 4 sizes (1 to 512 times), 4 vertex orders and up to 2 positions, with points on, and 2^-3 to 2^-17 beside, their sides and corners, and the slivers these points form with the side; the same on 3x3 lattices stretched by 2^3..2^11 (thorough 2^2..2^12) along one axis')
ASSUMPTIONS = ['containment in a degenerate (collinear) triangle is not decided']


def tri(ctx, pl, t, pts):
    a, b, c = t
    A, B, C = V(pl, a), V(pl, b), V(pl, c)
    srct = lambda: f't = Triangle2D({vs(pl, a)}, {vs(pl, b)}, {vs(pl, c)})'
    ctx.case = lambda: srct() + '\nprint(t.area(), t.signed_area(), t.double_signed_area(), t.ccw(), t.is_valid())'
    x = Triangle2D(A, B, C)
    y = Triangle2D(Segment2D(A, B), C)
    ds2 = geo.cross(a, b, c) * pl.s * pl.s
    tol = 1e-9 * (1 + pl.mag * pl.mag)
    for name, o in (('vertices', x), ('segment and vertex', y)):
        for what, got, want in (('area', o.area(), abs(ds2) / 2), ('signed_area', o.signed_area(), ds2 / 2), ('double_signed_area', o.double_signed_area(), ds2)):
            if not abs(got - want) <= min(tol, 1e-6 + 1e-9 * abs(want), 1e-9 * pl.s * pl.s if pl.tiny else 1.0):
                ctx.fail(f'{srct()} (from {name}): {what} is {got!r}, expected {want!r}')
        if bool(o.ccw()) != (ds2 > 0):
            ctx.fail(f'{srct()} (from {name}): ccw is {o.ccw()}')
        if bool(o.is_valid()) != (len({a, b, c}) == 3):
            ctx.fail(f'{srct()} (from {name}): is_valid is {o.is_valid()}')
    for what, got, want in (('signed_area_st', Triangle2D.signed_area_st(A, B, C), ds2 / 2), ('double_signed_area_st', Triangle2D.double_signed_area_st(A, B, C), ds2)):
        if not abs(got - want) <= min(tol, 1e-6 + 1e-9 * abs(want), 1e-9 * pl.s * pl.s if pl.tiny else 1.0):
            ctx.fail(f'{srct()}: {what} is {got!r}, expected {want!r}')
    if bool(Triangle2D.tri_ccw(A, B, C)) != (ds2 > 0):
        ctx.fail(f'{srct()}: tri_ccw is {Triangle2D.tri_ccw(A, B, C)}')
    ctx.transitions += 13
    ctx.states += 1
    ctx.outcome('counter-clockwise' if ds2 > 0 else 'clockwise' if ds2 < 0 else 'collinear')
    if ds2 == 0:
        return
    sg = 1 if ds2 > 0 else -1
    a2, b2, c2 = ((2 * p[0], 2 * p[1]) for p in t)
    for p2, P in pts:
        s1, s2, s3 = sg * geo.cross(a2, b2, p2), sg * geo.cross(b2, c2, p2), sg * geo.cross(c2, a2, p2)
        inside = s1 >= 0 and s2 >= 0 and s3 >= 0
        ctx.case = lambda: srct() + f'\np = Vector2D({P.x()!r}, {P.y()!r}); print(t.contains(p), Triangle2D.tri_contains(t.a(), t.b(), t.c(), p))'
        if bool(x.contains(P)) != inside:
            ctx.fail(f'{srct()}: contains ({P.x()!r},{P.y()!r}) is {x.contains(P)}, expected {inside}')
        if bool(Triangle2D.tri_contains(A, B, C, P)) != inside:
            ctx.fail(f'{srct()}: tri_contains ({P.x()!r},{P.y()!r}) is {Triangle2D.tri_contains(A, B, C, P)}, expected {inside}')
        ctx.transitions += 2
        ctx.outcome('point on the border' if inside and not (s1 and s2 and s3) else 'point inside' if inside else 'point outside')
    ctx.traces += 1


SHAPES = [((0, 0), (4, 0), (0, 4)), ((0, 0), (4, 1), (1, 4)), ((-2, -1), (2, 0), (-1, 1)), ((0, 0), (8, 1), (4, 1)), ((1, 1), (2, 4), (4, 2)), ((0, 0), (1, 0), (0, 1))]


def near(ctx, scale):
    """points on and a hair beside the sides of triangles of very different sizes"""
    hs = hair.steps(scale, ctx.tier)
    for sh in SHAPES:
        for off in hair.OFFS[scale]:
            e = hair.scaled(sh, scale, off)
            for t in (e, [e[1], e[2], e[0]], [e[2], e[1], e[0]], [e[0], e[2], e[1]]):
                v = [Vector2D(float(x), float(y)) for x, y in t]
                x = Triangle2D(*v)
                sg = geo.sgn(geo.cross(*t))
                src = lambda: 't = Triangle2D(' + ', '.join(f'Vector2D({float(p[0])!r}, {float(p[1])!r})' for p in t) + ')'
                for i in range(3):
                    for p in hair.beside(t[i], t[(i + 1) % 3], hs):
                        inside = all(sg * geo.cross(t[j], t[(j + 1) % 3], p) >= 0 for j in range(3))
                        P = Vector2D(float(p[0]), float(p[1]))
                        ctx.case = lambda: src() + f'\np = Vector2D({P.x()!r}, {P.y()!r}); print(t.contains(p), Triangle2D.tri_contains(t.a(), t.b(), t.c(), p))'
                        if bool(x.contains(P)) != inside or bool(Triangle2D.tri_contains(*v, P)) != inside:
                            ctx.fail(f'{src()}: contains ({P.x()!r},{P.y()!r}) is {x.contains(P)}, tri_contains {Triangle2D.tri_contains(*v, P)}, expected {inside}')
                        # the sliver with this point as its third vertex
                        w = geo.cross(t[i], t[(i + 1) % 3], p)
                        y = Triangle2D(v[i], v[(i + 1) % 3], P)
                        d = (y.double_signed_area(), Triangle2D.double_signed_area_st(v[i], v[(i + 1) % 3], P))
                        if any(abs(k - float(w)) > 1e-7 * abs(float(w)) for k in d) or bool(y.ccw()) != (w > 0) or bool(Triangle2D.tri_ccw(v[i], v[(i + 1) % 3], P)) != (w > 0):
                            ctx.fail(f'sliver of {src()} and ({P.x()!r},{P.y()!r}): double signed area {d}, ccw {y.ccw()}, expected {float(w)!r}')
                        if bool(y.is_valid()) != (p not in (t[i], t[(i + 1) % 3])):
                            ctx.fail(f'sliver of {src()} and ({P.x()!r},{P.y()!r}): is_valid is {y.is_valid()}')
                        ctx.transitions += 6
                        ctx.outcome('a hair inside or on the border' if inside else 'a hair outside')
                ctx.states += 1
                ctx.traces += 1
    ctx.sample(lambda: ctx.case())


def validity(ctx):
    g = [(0, 0), (1, 0), (0, 2.5), (1, 2.5)]
    for t in itertools.product(g, repeat=3):
        for flags in itertools.product((True, False), repeat=3):
            vs_ = [Vector2D(*p) for p in t]
            for v, f in zip(vs_, flags):
                if not f:
                    v.invalidate()
            ctx.case = lambda: f'vs = [Vector2D(*p) for p in {t!r}]\nfor v, f in zip(vs, {flags!r}):\n    if not f: v.invalidate()\nprint(Triangle2D(*vs).is_valid())'
            want = all(flags) and len(set(t)) == 3
            got = Triangle2D(*vs_).is_valid()
            if bool(got) != want:
                ctx.fail(f'triangle {t} with validity {flags}: is_valid is {got}')
            ctx.transitions += 1
            ctx.outcome('valid' if want else 'invalid')
        ctx.traces += 1


def thin(ctx, k, m):
    """all triangles of a lattice stretched along one axis"""
    pl = Place(1.0, 0.0, 0.0)
    half = stretched([(x, y) for x in range(-1, 6) for y in range(-1, 6)], k, m)
    pts = [(p, Vector2D(p[0] / 2, p[1] / 2)) for p in half]
    for t in itertools.product(stretched(grid(3), k, m), repeat=3):
        tri(ctx, pl, t, pts)
    ctx.sample(ctx.case)


def shards(tier):
    n = 16
    out = [('thin', k, m, 1) for k, m in stretches(tier)] + [('valid', 0, 0, 1)] + [('near', s, 0, 1) for s in hair.SCALES] + [('t', k, i, n) for k in range(len(places(tier)) + len(TINY)) for i in range(n)]
    if tier == 'smoke':
        out = [o for o in out if o[1] < 4 and o[2] < 2]
    return out


def run(shard, ctx):
    kind, k, i, n = shard
    if kind == 'near':
        return near(ctx, k)
    if kind == 'thin':
        return thin(ctx, k, i)
    if kind == 'valid':
        return validity(ctx)
    pl = (TINY + places(ctx.tier))[k]
    m = 5 if ctx.tier == 'thorough' else 4
    pts = [((x, y), Vector2D(pl.ox + pl.s * x / 2, pl.oy + pl.s * y / 2)) for x in range(-1, 2 * m) for y in range(-1, 2 * m)]
    if ctx.tier == 'thorough':
        pts = [p for p in pts if (p[0][0] + p[0][1]) % 2 == 0]
    for j, t in enumerate(itertools.product(grid(m), repeat=3)):
        if j % n == i:
            tri(ctx, pl, t, pts)
    ctx.sample(f'triangle {[pl.xy(p) for p in t]} and {len(pts)} points')
