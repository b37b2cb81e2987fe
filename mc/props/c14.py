"""C14: triangle intersections."""
import itertools
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from mc import geo
from mc.cross import crossings, dirs, near_corners, near_ends
from mc.lib import places, grid, V, vs, pt, same_points, show, deg

TITLE = 'Triangle intersections return each boundary crossing exactly once'
BOUNDS = ('all ordered non-degenerate vertex triples of a 3x3 lattice (thorough 4x4) against all lines and directed segments through two points of the 4x4 lattice around it and all rays '
          'from those points in 16 lattice directions; each triangle also with lines, rays and segments that cut off or miss a corner by 2^-3..2^-20 of its edges, and rays and segments that end 2^-4..2^-16 inside or outside a side; 5 (thorough 9) placements')
ASSUMPTIONS = ['degenerate triangles are not explored']


def operands(pl, lo, n):
    g = grid(n, lo)
    out = []
    for p in g:
        for q in g:
            if p < q:
                out.append((Line2D(V(pl, p), V(pl, q)), p, geo.sub(q, p), None, None, f'Line2D({vs(pl, p)}, {vs(pl, q)})'))
            if p != q:
                out.append((Segment2D(V(pl, p), V(pl, q)), p, geo.sub(q, p), 0, 1, f'Segment2D({vs(pl, p)}, {vs(pl, q)})'))
        for j, d in enumerate(dirs(2)):
            t = (p[0] + d[0], p[1] + d[1])
            if j % 2:
                out.append((Ray2D(V(pl, p), V(pl, t)), p, d, 0, None, f'Ray2D({vs(pl, p)}, {vs(pl, t)})'))
            else:
                out.append((Ray2D(V(pl, p), AngleDeg(deg(*d))), p, d, 0, None, f'Ray2D({vs(pl, p)}, AngleDeg({deg(*d)!r}))'))
    return out


def hair(pl, poly, tier):
    """[(operand, expected points, source)]"""
    for p, q, want in near_corners(poly, pl.s, tier):
        P, Q = Vector2D(pl.fx(p[0]), pl.fy(p[1])), Vector2D(pl.fx(q[0]), pl.fy(q[1]))
        for cls in (Line2D, Segment2D, Ray2D):
            yield cls(P, Q), want, f'{cls.__name__}(Vector2D({P.x()!r}, {P.y()!r}), Vector2D({Q.x()!r}, {Q.y()!r}))'
    for kind, p, q, want in near_ends(poly, pl.s, tier):
        P, Q = Vector2D(pl.fx(p[0]), pl.fy(p[1])), Vector2D(pl.fx(q[0]), pl.fy(q[1]))
        yield (Ray2D if kind == 'Ray2D' else Segment2D)(P, Q), want, f'{kind}(Vector2D({P.x()!r}, {P.y()!r}), Vector2D({Q.x()!r}, {Q.y()!r}))'


def shards(tier):
    n = 40 if tier != 'thorough' else 200
    out = [(i, n) for i in range(n)]
    return out if tier != 'smoke' else out[:2]


def run(shard, ctx):
    i, n = shard
    pls = places(ctx.tier)
    tables = [operands(pl, -1, 4) for pl in pls]
    ts = [t for t in itertools.product(grid(3), repeat=3) if geo.cross(*t)]
    if ctx.tier == 'thorough':
        big = [t for t in itertools.combinations(grid(4), 3) if geo.cross(*t)]
        ts += [tuple(b[(s + r) % 3] for r in range(3)) if j % 2 else tuple(b[(s - r) % 3] for r in range(3)) for j, b in enumerate(big) for s in range(3)]
    for t in ts[i::n]:
        wants = [crossings(t, p, d, lo, hi) for _, p, d, lo, hi, _ in tables[0]]
        for pl, ops in zip(pls, tables):
            tri = Triangle2D(*(V(pl, p) for p in t))
            for (op, p, d, lo, hi, src), want in zip(ops, wants):
                ctx.case = lambda: f't = Triangle2D({", ".join(vs(pl, q) for q in t)}); o = {src}\nprint(t.intersection(o))'
                got = tri.intersection(op)
                if len(got) < 1 + len(want) or got[0] != len(want) or not same_points(got[1:1 + len(want)], pl, want):
                    ctx.fail(f'Triangle2D({", ".join(vs(pl, q) for q in t)}).intersection({src}) = {got!r}, expected {show(pl, want)}')
                ctx.transitions += 1
                ctx.outcome(f'{type(op).__name__}: {len(want)} points')
            for op, want, src in hair(pl, t, ctx.tier):
                ctx.case = lambda: f't = Triangle2D({", ".join(vs(pl, q) for q in t)}); o = {src}\nprint(t.intersection(o))'
                got = tri.intersection(op)
                if len(got) < 1 + len(want) or got[0] != len(want) or not same_points(got[1:1 + len(want)], pl, want):
                    ctx.fail(f'Triangle2D({", ".join(vs(pl, q) for q in t)}).intersection({src}) = {got!r}, expected {show(pl, want)}')
                ctx.transitions += 1
                ctx.outcome(f'{type(op).__name__} near a corner or side: {len(want)} points')
            ctx.states += 1
        ctx.traces += len(ops)
    ctx.sample(lambda: ctx.case())
