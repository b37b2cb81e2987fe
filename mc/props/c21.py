"""C21: polygon containment and distance."""
import math
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.polygon_2d import Polygon2D
from mc import geo, hair, poly
from mc.geo import Place
from mc.lib import places, FAR, TINY, V, vs, stretches, stretched

TITLE = 'Polygon containment obeys even-odd and border rules; distance agrees'
BOUNDS = ('all vertex lists of length 1..4 on a 3x3 lattice (self-crossing, repeated and collinear vertices included) and all of length 5 up to cyclic shift (thorough: every one), with all 49 lattice and half-lattice points around them; '
          'all simple-or-not quadrilaterals on a 4x4 lattice (thorough); 284 (thorough 486) structured polygons with up to 101 vertices, shifted starts and both orientations, with the half-lattice points of the rows and columns of their vertices (a fixed subset of about 250, thorough 2000, when there are more); 10 (thorough 14; two of scale 2^-20, two of 2^20) placements, the first with every point and the others with a fixed third of them (length 5: one placement per list, fixed half of the points); 7 polygons in 4 sizes (1 to 512 times), both orientations and up to 2 positions, with points on, and 2^-3 to 2^-17 beside, their sides and corners; the same on 3x3 lattices stretched by 2^3..2^11 (thorough 2^2..2^12) along one axis')
ASSUMPTIONS = ['a polygon with two vertices is its segment, with one vertex its point', 'distances are compared at 1e-9 relative']


def halved(tier, tiny=True):
    """lattice coordinates are counted in half units so that half-lattice points are integers"""
    return [Place(p.s / 2, p.ox, p.oy, p.as_int) for p in places(tier) + (TINY + FAR if tiny else [])]


def min_d(seq, q):
    n = len(seq)
    if n == 1:
        return math.sqrt(geo.d2(seq[0], q))
    return math.sqrt(min(geo.seg_pt_d2(seq[i], seq[(i + 1) % n], q)[0] for i in range(n)))


def check(ctx, pl, p, seq, qs, memo, dist=True):
    """p: the library polygon for seq placed with pl; qs: test points; memo: expected results of seq (shared over the placements)"""
    psrc = lambda: 'Polygon2D([' + ', '.join(vs(pl, a) for a in seq) + '])'
    for q in qs:
        w = memo.get(q)
        if w is None:
            if len(seq) == 1:
                m = 'border' if q == seq[0] else False
            else:
                m = geo.pip(seq, q)
            w = memo[q] = (m, min_d(seq, q))
        m, dd = w
        ctx.case = lambda: f'p = {psrc()}; q = {vs(pl, q)}\nprint(p.contains(q), p.contains(q, False), p.dist(q), p.dist(q, False))'
        v = V(pl, q)
        g1, g0 = p.contains(v), p.contains(v, False)
        gt = p.contains(v, True) if dist else g1
        w1, w0 = m == 'border' or m is True, m is True
        if bool(g1) is not w1 or bool(gt) is not w1 or bool(g0) is not w0:
            ctx.fail(f'{psrc()} and {vs(pl, q)} ({"on the border" if m == "border" else "inside" if m else "outside"} by the even-odd rule): contains is {g1} (border allowed) / {g0} (border not allowed)')
        ctx.transitions += 3
        if dist:
            r = dd * pl.s
            tol = 1e-8 * pl.s if pl.tiny else 1e-9 * (1 + pl.mag)
            f, e = p.dist(v), p.dist(v, False)
            if abs(f - (0.0 if w1 else r)) > tol or abs(e - r) > tol:
                ctx.fail(f'{psrc()}.dist({vs(pl, q)}) is {f!r} (as a region) / {e!r} (as an outline); expected {0.0 if w1 else r!r} / {r!r}')
            ctx.transitions += 2
        ctx.outcome('border' if m == 'border' else 'inside' if m else 'outside')


def box(seq, pad=1):
    xs, ys = [a[0] for a in seq], [a[1] for a in seq]
    return [(x, y) for x in range(min(xs) - pad, max(xs) + pad + 1) for y in range(min(ys) - pad, max(ys) + pad + 1)]


SHAPES = [((0, 0), (4, 0), (4, 4), (0, 4)), ((0, 0), (4, 1), (1, 4)), ((0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)), ((0, 0), (4, 4), (4, 0), (0, 4)), ((0, 2), (2, 0), (4, 2), (2, 4)),
          ((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (4, 2), (3, 1), (2, 2), (1, 1), (0, 2)), ((0, 0), (4, 2))]


def near(ctx, scale, i, n):
    """points on and a hair beside the sides and corners of polygons of very different sizes"""
    hs = hair.steps(scale, ctx.tier)
    for sh in SHAPES[i::n]:
        for off in hair.OFFS[scale]:
            for rev in (False, True):
                e = hair.scaled(sh, scale, off)
                e = e[::-1] if rev else e
                f = lambda p: (float(p[0]), float(p[1]))
                p = Polygon2D([Vector2D(*f(a)) for a in e])
                psrc = lambda: 'Polygon2D([' + ', '.join(f'Vector2D{f(a)!r}' for a in e) + '])'
                m = len(e)
                for q in {q for j in range(m) for q in hair.beside(e[j], e[(j + 1) % m], hs)}:
                    ctx.case = lambda: f'p = {psrc()}; q = Vector2D{f(q)!r}\nprint(p.contains(q), p.contains(q, False), p.dist(q), p.dist(q, False))'
                    k = geo.pip(e, q)
                    v = Vector2D(*f(q))
                    w1, w0 = k == 'border' or k is True, k is True
                    g1, g0 = p.contains(v), p.contains(v, False)
                    if bool(g1) is not w1 or bool(g0) is not w0:
                        ctx.fail(f'{psrc()} and Vector2D{f(q)!r} ({"on the border" if k == "border" else "inside" if k else "outside"} by the even-odd rule): contains is {g1} (border allowed) / {g0} (border not allowed)')
                    r = math.sqrt(min(geo.seg_pt_d2(e[j], e[(j + 1) % m], q)[0] for j in range(m)))
                    d1, d0 = p.dist(v), p.dist(v, False)
                    if abs(d0 - r) > 1e-10 * (1 + scale) or abs(d1 - (0.0 if w1 else r)) > 1e-10 * (1 + scale):
                        ctx.fail(f'{psrc()}.dist(Vector2D{f(q)!r}) is {d1!r} (as a region) / {d0!r} (as an outline); expected {0.0 if w1 else r!r} / {r!r}')
                    ctx.transitions += 4
                    ctx.outcome('border' if k == 'border' else 'a hair inside' if k else 'a hair outside')
                ctx.states += 1
                ctx.traces += 1
    ctx.sample(ctx.case)


CELLS = [(x, y) for x in (0, 2, 4) for y in (0, 2, 4)]
CELLS4 = [(x, y) for x in (0, 2, 4, 6) for y in (0, 2, 4, 6)]
QS = [(x, y) for x in range(-1, 6) for y in range(-1, 6)]


def thin(ctx, k, m):
    """polygons of a lattice stretched along one axis"""
    pl = Place(0.5, 0.0, 0.0)
    qs = stretched(QS, k, m)
    for j, seq in enumerate(poly.sequences(2, 4, CELLS)):
        if len(seq) < 4 or poly.canonical(seq) and (ctx.tier == 'thorough' or j % 3 == k % 3):
            one(ctx, [pl], tuple(stretched(seq, k, m)), qs[j % 2::2] if len(seq) > 3 else qs, j)
    ctx.sample(ctx.case)


def shards(tier):
    out = [('thin', km, 1) for km in stretches(tier)] + [('near', (s, i), len(SHAPES)) for s in hair.SCALES for i in range(len(SHAPES))] + [('seq', i, 48) for i in range(48)] + [('big', i, 24) for i in range(24)]
    if tier == 'thorough':
        out += [('quad', i, 48) for i in range(48)]
    return out if tier != 'smoke' else out[::24]


def one(ctx, pls, seq, qs, j, dist=True):
    memo = {}
    for k, pl in enumerate(pls):
        p = Polygon2D([V(pl, a) for a in seq]) if (j + k) % 2 else Polygon2D(*[V(pl, a) for a in seq])
        check(ctx, pl, p, seq, qs if k == 0 else qs[(j + k) % 3::3], memo, dist and k < 2)
    ctx.states += 1
    ctx.traces += len(qs)


def run(shard, ctx):
    kind, i, n = shard
    if kind == 'near':
        return near(ctx, i[0], i[1], n)
    if kind == 'thin':
        return thin(ctx, *i)
    pls = halved(ctx.tier)
    if kind == 'seq':
        for j, seq in enumerate(poly.sequences(1, 5, CELLS)):
            if j % n != i:
                continue
            if len(seq) < 4:
                one(ctx, pls, seq, QS, j)
            elif len(seq) == 4:
                one(ctx, [pls[0], pls[1 + j % (len(pls) - 1)]] if ctx.tier != 'thorough' else pls, seq, QS, j, ctx.tier == 'thorough' or j % 3 == 0)
            elif ctx.tier == 'thorough' or poly.canonical(seq):
                one(ctx, [pls[j % len(pls)]], seq, QS if ctx.tier == 'thorough' else QS[j % 2::2], j, j % 4 == 0 or ctx.tier == 'thorough')
    elif kind == 'quad':
        for j, seq in enumerate(poly.sequences(4, 4, CELLS4)):
            if j % n == i and poly.canonical(seq):
                one(ctx, [pls[j % len(pls)]], seq, box(seq), j)
    else:
        for j, seq in enumerate(poly.structured(ctx.tier)):
            if j % n == i:
                seq = tuple((2 * x, 2 * y) for x, y in seq)
                qs = box(seq)
                if len(qs) > 400:      # the rows through the vertices and their neighbours, every column
                    ys = sorted({y + d for _, y in seq for d in (-1, 0, 1)})
                    xs = sorted({x + d for x, _ in seq for d in (-1, 0, 1)})
                    qs = [(x, y) for x in xs for y in ys]
                    step = max(1, len(qs) // (250 if ctx.tier != 'thorough' else 2000)) | 1
                    qs = qs[j % step::step]
                one(ctx, pls[:1] + pls[1 + j % (len(pls) - 1):][:1] if ctx.tier != 'thorough' else pls[:4], seq, qs, j)
    ctx.sample(ctx.case)
