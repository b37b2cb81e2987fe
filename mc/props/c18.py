"""C18: rectangle intersections."""
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from mc.cross import crossings
from mc.lib import places, V, vs, pt, same_points, show
from mc.props.c14 import operands, hair

TITLE = 'Rectangle intersections with lines, rays and segments are complete'
BOUNDS = ('all 36 rectangles of positive area with corners on a 4x4 lattice, from every constructor, against all lines and directed segments through two points of the 6x6 lattice around it (thorough 7x7) and all '
          'rays from those points in 16 lattice directions, and lines, rays and segments that cut off or miss a corner by 2^-3..2^-20 of its edges or end 2^-4..2^-16 inside or outside a side, 5 (thorough 9) placements')
ASSUMPTIONS = ['empty rectangles are not explored']


def rects():
    return [(l, t, r, b) for l in range(4) for r in range(l + 1, 4) for t in range(4) for b in range(t + 1, 4)]


def build(pl, q, how):
    l, t, r, b = q
    x0, y0, x1, y1 = pl.x(l), pl.y(t), pl.x(r), pl.y(b)
    return [lambda: Rect2D(x0, y0, x1 - x0, y1 - y0), lambda: Rect2D(Vector2D(x0, y0), x1 - x0, y1 - y0), lambda: Rect2D(Vector2D(x0, y0), Size2D(x1 - x0, y1 - y0)),
            lambda: Rect2D(Vector2D(x0, y0), Vector2D(x1, y1)), lambda: Rect2D(Vector2D(x1, y0), Vector2D(x0, y1)), lambda: Rect2D.from_center((x0 + x1) / 2, (y0 + y1) / 2, x1 - x0, y1 - y0)][how % 6]()


def shards(tier):
    n = 36
    out = [(i, n) for i in range(n)]
    return out if tier != 'smoke' else out[:2]


def run(shard, ctx):
    i, n = shard
    pls = places(ctx.tier)
    tables = [operands(pl, -1, 6) if ctx.tier != 'thorough' else operands(pl, -2, 8) for pl in pls]
    for j, q in enumerate(rects()):
        if j % n != i:
            continue
        l, t, r, b = q
        wants = [crossings([(l, t), (r, t), (r, b), (l, b)], p, d, lo, hi) for _, p, d, lo, hi, _ in tables[0]]
        for pl, ops in zip(pls, tables):
            rsrc = f'Rect2D({pl.x(l)!r}, {pl.y(t)!r}, {pl.x(r) - pl.x(l)!r}, {pl.y(b) - pl.y(t)!r})'
            for how in (0, 1 + j % 5):
                rc = build(pl, q, how)
                for (op, p, d, lo, hi, src), want in zip(ops, wants):
                    ctx.case = lambda: f'r = {rsrc}; o = {src}\nprint(r.intersection(o))'
                    got = rc.intersection(op)
                    if not same_points(got, pl, want):
                        ctx.fail(f'{rsrc}.intersection({src}) = {[pt(g) for g in got]}, expected {show(pl, want)}')
                    ctx.transitions += 1
                    ctx.outcome(f'{type(op).__name__}: {len(want)} points')
                for op, want, src in hair(pl, [(l, t), (r, t), (r, b), (l, b)], ctx.tier):
                    ctx.case = lambda: f'r = {rsrc}; o = {src}\nprint(r.intersection(o))'
                    got = rc.intersection(op)
                    if not same_points(got, pl, want):
                        ctx.fail(f'{rsrc}.intersection({src}) = {[pt(g) for g in got]}, expected {show(pl, want)}')
                    ctx.transitions += 1
                    ctx.outcome(f'{type(op).__name__} near a corner or side: {len(want)} points')
            ctx.states += 1
        ctx.traces += len(ops)
    ctx.sample(lambda: ctx.case())
