"""C24: histories of a hull object."""
import itertools
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.convex_hull import ConvexHull, MethodType
from mc import geo, poly
from mc.lib import debruijn, grid
from mc.props.c23 import verdict, key

TITLE = 'A hull object can be grown, recomputed and cleared without corrupting input'
BOUNDS = ('all histories of 4 starting lists followed by 4 (thorough 5) of 15 operations (add_point, add_points (also with the own list of the hull), the computations, clear_results, clear, growing and editing the caller\'s list and the lists handed out), '
          'histories through every ordered pair of operations in two orders, and inputs of up to 101 points; ' + \
          'input, results and caller list compared with the reference after every operation')
ASSUMPTIONS = ['inputs that lie on one line are only required to keep their input points', 'vertex objects are not edited']
A, B, C = [(4, 1), (0, 0), (1, 3)], [(2, 1), (5, 5), (0, 0)], [(3, -2)]
INIT = [[], A, A + [(1, 1), (1, 3)], [(2, 2), (6, 0), (3, 5), (1, -1), (2, 2)]]
L = lambda ps: '[' + ', '.join(f'Vector2D{p!r}' for p in ps) + ']'


class Ref:
    """inp: multiset of stored points, res: None (cleared) or (input at the time, method)"""
    def __init__(self, pts):
        self.inp, self.res, self.mine = list(pts), None, list(pts)


def _add(ps):
    def f(r):
        r.inp = r.inp + ps
    return f


def _comp(m):
    def f(r):
        r.res = (tuple(r.inp), m)
    return f


def _clr(r):
    r.res = None


def _all(r):
    r.inp, r.res = [], None


def _dup(r):
    if len(r.inp) < 40:
        r.inp = r.inp * 2


def _mine(r):
    r.mine = r.mine + [(9, 9)]


OPS = [('h.add_point(Vector2D(5, 5))', _add([(5, 5)])), ('h.add_point(Vector2D(-3, 2))', _add([(-3, 2)])), (f'h.add_points({L(B)})', _add(B)), (f'extra = {L(C)}; h.add_points(extra); assert len(extra) == 1; extra.append(Vector2D(8, 8))', _add(C)),
       ('h.compute()', _comp('w')), ('h.compute(MethodType.GRAHAN_SCAN)', _comp('g')), ('h.compute_wrapping_method()', _comp('w')), ('h.compute_graham_scan()', _comp('g')), ('h.clear_results()', _clr), ('h.clear()', _all),
       ('mine.append(Vector2D(9, 9))', _mine), ('h.input_points().append(Vector2D(7, 7)); h.vertices().append(Vector2D(7, 7)); h.edges().clear()', lambda r: None), ('h.to_polygon().add_vertex(Vector2D(11, 0)); h.to_polygon().clear()', lambda r: None),
       ('h.input_points_().append(Vector2D(-4, -4))', _add([(-4, -4)])), ('len(h.input_points_()) < 40 and h.add_points(h.input_points_())', _dup)]
CODE = [compile(s, '<op>', 'exec') for s, _ in OPS]


def inspect(ctx, h, ref, mine, done):
    inp = sorted(key(v) for v in h.input_points())
    want = sorted((float(x), float(y)) for x, y in ref.inp)
    if inp != want or sorted(key(v) for v in h.input_points_()) != want:
        ctx.fail(f'after {done()}: input points {inp}, expected {want}')
    if [key(v) for v in mine] != [(float(x), float(y)) for x, y in ref.mine]:
        ctx.fail(f"after {done()}: the caller's own list is {[key(v) for v in mine]}, expected {ref.mine}")
    pts, m = ref.res if ref.res else ((), 'w')
    hull = geo.hull(pts)
    if len(pts) < 3:
        if h.vertices() or h.edges() or h.vertices_() or h.edges_():
            ctx.fail(f'after {done()}: vertices {[key(v) for v in h.vertices()]} and {len(h.edges())} edges, expected none')
    elif len(hull) > 2:
        bad = verdict(h, [(float(x), float(y)) for x, y in pts], hull, m == 'w')
        if bad:
            ctx.fail(f'after {done()}: {bad}')
        if [key(v) for v in h.vertices_()] != [key(v) for v in h.vertices()] or len(h.edges_()) != len(h.edges()):
            ctx.fail(f'after {done()}: vertices_()/edges_() differ from vertices()/edges()')
    ctx.transitions += 1
    ctx.seen.add((tuple(want), ref.res))


def history(ctx, init, ops, all_steps):
    done = lambda: 'h = ConvexHull(' + L(init) + '); ' + '; '.join(OPS[k][0] for k in ops[:n[0]])
    n = [0]
    ctx.case = lambda: f'mine = {L(init)}; h = ConvexHull(mine)\n' + '\n'.join(OPS[k][0] for k in ops) + '\nprint(h.input_points(), h.vertices(), h.edges(), mine)'
    mine = [Vector2D(*p) for p in init]
    h = ConvexHull(mine)
    env = dict(h=h, mine=mine, Vector2D=Vector2D, MethodType=MethodType)
    ref = Ref(init)
    for j, k in enumerate(ops):
        exec(CODE[k], env)
        OPS[k][1](ref)
        n[0] = j + 1
        if all_steps or j == len(ops) - 1:
            inspect(ctx, h, ref, mine, done)
    ctx.traces += 1
    ctx.outcome(f'history of length {len(ops)}')


def large(ctx):
    """large inputs, built at once and added in pieces, with the caller's list edited afterwards"""
    for seq in [poly.convex(m) for m in (20, 33, 65, 101)] + [grid(7), grid(11), grid(6) + poly.convex(50)]:
        for m in 'wg':
            for how in ('new', 'points', 'point'):
                ctx.case = lambda: f'{how}, {m}: {L(seq)}'
                mine = [Vector2D(*p) for p in seq]
                h = ConvexHull(mine if how == 'new' else [])
                if how == 'points':
                    h.add_points(mine)
                elif how == 'point':
                    for q in mine:
                        h.add_point(q)
                mine.append(Vector2D(999, 999))
                mine.reverse()
                ref = Ref(seq)
                ref.mine = (list(seq) + [(999, 999)])[::-1]
                for step in range(3):
                    h.compute() if m == 'w' else h.compute_graham_scan()
                    ref.res = (tuple(ref.inp), m)
                    inspect(ctx, h, ref, mine, lambda: f'computing ({m}) {how} {list(seq)}, computation {step + 1}')
                    out = h.input_points()
                    out.clear()
                    if step == 1:
                        h.add_point(Vector2D(-200, 3))
                        ref.inp = ref.inp + [(-200, 3)]
                h.clear()
                ref.inp, ref.res = [], None
                inspect(ctx, h, ref, mine, lambda: f'clearing the hull of {list(seq)}')
                ctx.traces += 1
    ctx.outcome('large inputs')
    ctx.sample(ctx.case)


def shards(tier):
    out = [(i, j) for i in range(len(INIT)) for j in list(range(len(OPS))) + ['long']]
    out.append((0, 'large'))
    return out if tier != 'smoke' else out[::20]


def run(shard, ctx):
    i, j = shard
    if j == 'large':
        large(ctx)
        return
    if j == 'long':
        seq = tuple(debruijn(len(OPS)))
        for s in (seq, seq[::-1]):
            for every in (True, False):
                history(ctx, INIT[i], s, every)
        ctx.sample(ctx.case)
        return
    for n in range(0, 4 if ctx.tier != 'thorough' else 5):
        for rest in itertools.product(range(len(OPS)), repeat=n):
            history(ctx, INIT[i], (j,) + rest, n == 3)
    ctx.sample(ctx.case)
