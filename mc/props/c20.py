"""C20: polygon area, orientation and bounding box."""
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.rect_2d import Rect2D
from mc import geo, poly
from mc.lib import places, FAR, TINY, grid, V, vs
from mc.props import c10
from mc.props.c10 import Spec, history

TITLE = 'Polygon area, orientation and bounding box follow its current vertices'
BOUNDS = ('all vertex lists of length 1..5 on a 3x3 lattice and 1..4 on a 4x4 lattice (thorough: also all of length 5 on 4x4), built from a list or from separate points, in the first and one further placement each (shorter lists in all 10, thorough 14; two of them of scale 2^-20, two of 2^20); 284 (thorough 486) structured polygons with up to 101 '
          'vertices in both orientations and shifted starts; all operation histories of constructor + 3 (thorough 4) operations with queries interleaved in every way, one object per constructor that lives through every ordered pair of operations; every structured polygon also grown vertex by vertex and built or assigned from a list that is edited afterwards')
ASSUMPTIONS = ['coordinates are dyadic so that the shoelace sum is exact', 'polygons without any vertex have no claimed bounding box']
TRI = [p for p in grid(3)]
QUAD = grid(4)


def check(ctx, pl, seq, how=0, shift=False):
    vsrc = lambda: ', '.join(vs(pl, p) for p in seq)
    ctx.case = lambda: (f'p = Polygon2D([{vsrc()}])' if how == 0 else f'p = Polygon2D({vsrc()})') + '\nprint(p.double_signed_area(), p.area(), p.is_clockwise(), p.is_counter_clockwise(), p.get_bounding_box(), p.bounding_box_center())'
    pts = [V(pl, p) for p in seq]
    p = Polygon2D(pts) if how == 0 else Polygon2D(*pts)
    s2 = geo.shoelace2(seq) if len(seq) > 2 else 0
    unit = float(pl.s) ** 2
    tol = 1e-3 * unit if pl.tiny else 1e-9 * (1.0 + pl.mag * pl.mag)
    d = p.double_signed_area()
    if abs(d - s2 * unit) > tol:
        ctx.fail(f'double_signed_area of [{vsrc()}] is {d!r}, expected {s2 * unit!r}')
    if p.is_counter_clockwise() is not (s2 > 0) or p.is_clockwise() is not (s2 < 0):
        ctx.fail(f'orientation of [{vsrc()}]: counter-clockwise {p.is_counter_clockwise()}, clockwise {p.is_clockwise()}, signed area {s2 * unit!r}')
    a = p.area()
    if abs(a - abs(s2) * unit / 2) > tol:
        ctx.fail(f'area of [{vsrc()}] is {a!r}, expected {abs(s2) * unit / 2!r}')
    bb = p.get_bounding_box()
    xs, ys = [q[0] for q in seq], [q[1] for q in seq]
    want = (pl.fx(min(xs)), pl.fy(min(ys)), pl.fx(max(xs)), pl.fy(max(ys)))
    got = (bb.left(), bb.top(), bb.right(), bb.bottom())
    t = 1e-8 * pl.s if pl.tiny else 1e-9 * (1 + pl.mag)
    if any(abs(u - v) > t for u, v in zip(got, want)):
        ctx.fail(f'bounding box of [{vsrc()}] is {got}, expected {want}')
    c = p.bounding_box_center()
    if abs(c.x() - (want[0] + want[2]) / 2) > t or abs(c.y() - (want[1] + want[3]) / 2) > t:
        ctx.fail(f'bounding box centre of [{vsrc()}] is ({c.x()}, {c.y()}), box {want}')
    vv = p.vertices()
    if [(v.x(), v.y()) for v in vv] != [pl.xy(q) for q in seq]:
        ctx.fail(f'vertices of [{vsrc()}] read back as {[(v.x(), v.y()) for v in vv]}')
    ctx.transitions += 7
    ctx.states += 1
    ctx.outcome('counter-clockwise' if s2 > 0 else 'clockwise' if s2 < 0 else 'zero area')


def grown(ctx, seq):
    """a large polygon grown vertex by vertex (measured on the way), and one whose source list is edited afterwards"""
    src = 'Polygon2D([' + ', '.join(f'Vector2D{p!r}' for p in seq) + '])'
    g = Polygon2D(Vector2D(*seq[0]))
    ctx.case = lambda: f'p = Polygon2D(Vector2D{seq[0]!r})\nfor q in {list(seq[1:])}: p.add_vertex(Vector2D(*q)); print(p.double_signed_area(), p.get_bounding_box())'
    for k in range(1, len(seq)):
        g.add_vertex(Vector2D(*seq[k]))
        part = seq[:k + 1]
        s2 = geo.shoelace2(part) if k > 1 else 0
        bb = g.get_bounding_box()
        if g.double_signed_area() != s2 or (bb.left(), bb.top(), bb.right(), bb.bottom()) != (min(x for x, _ in part), min(y for _, y in part), max(x for x, _ in part), max(y for _, y in part)):
            ctx.fail(f'polygon grown to {list(part)}: double_signed_area {g.double_signed_area()!r}, expected {s2}; bounding box {bb!r}')
        ctx.transitions += 2
    edits = [('append', lambda l: l.append(Vector2D(99, -99))), ('pop', lambda l: l.pop()), ('clear', lambda l: l.clear()), ('reverse', lambda l: l.reverse()), ('replacing the first', lambda l: l.__setitem__(0, Vector2D(77, 5)))]
    for name, f in edits:
        for how in ('new', 'assign', 'vertices'):
            ctx.case = lambda: f'{name} on the list ({how}) of p = {src}'
            pts = [Vector2D(*p) for p in seq]
            if how == 'new':
                p = Polygon2D(pts)
            else:
                p = Polygon2D([Vector2D(1, 1)])
                p.assign(pts)
                if how == 'vertices':
                    pts = p.vertices()
            f(pts)
            got = [(q.x(), q.y()) for q in p.vertices()]
            if got != [tuple(q) for q in seq]:
                ctx.fail(f'{src} reads {got} after {name} on ' + {'new': 'the list it was built from', 'assign': 'the list it was assigned', 'vertices': 'the list vertices() returned'}[how])
            ctx.transitions += 1


def v(p):
    return ('Vector2D', float(p[0]), float(p[1]), True)


def ref(d):
    s2 = float(geo.shoelace2(d)) if len(d) > 2 else 0.0
    r = {'o.vertices()': ('list',) + tuple(v(p) for p in d), 'o.vertices_()': ('list',) + tuple(v(p) for p in d), 'o.double_signed_area()': s2, 'o.area()': abs(s2) / 2,
         'o.is_clockwise()': s2 < 0, 'o.is_counter_clockwise()': s2 > 0}
    if d:
        xs, ys = [float(p[0]) for p in d], [float(p[1]) for p in d]
        r['o.get_bounding_box()'] = ('Rect2D', min(xs), min(ys), max(xs), max(ys))
        r['o.bounding_box_center()'] = v(((min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2))
    return r


c10.ENV['Polygon2D'], c10.ENV['Rect2D'] = Polygon2D, Rect2D
L = lambda ps: '[' + ', '.join(f'Vector2D{p!r}' for p in ps) + ']'
A = ((0, 0), (4, 0), (4, 3), (1, 5))
B = ((2, 2), (2, -3), (-1, 1))
C = ((5, 5), (-2, 4), (-2, -2), (5, -2), (1, 1))
SPEC = Spec('polygon',
            [('Polygon2D()', ((0, 0),)), (f'Polygon2D({L(A)})', A), (f'Polygon2D({L(B)[1:-1]})', B), ('Polygon2D([Vector2D(1, 1)])', ((1, 1),))],
            [('o.add_vertex(Vector2D(-3, 2))', lambda d: d + ((-3, 2),)), ('o.add_vertex(Vector2D(6, -1))', lambda d: d + ((6, -1),)), ('o.add_vertex(Vector2D(2, 7))', lambda d: d + ((2, 7),)), (f'assert o.assign({L(A)}) is o', lambda d: A), (f'o.assign({L(C)})', lambda d: C),
             ('o.assign([Vector2D(3, 1)])', lambda d: ((3, 1),)), ('o.clear()', lambda d: ((0, 0),)), ('o = Polygon2D([]); o.clear()', lambda d: ((0, 0),)), ('o.vertices_().append(Vector2D(0.5, -6))', lambda d: d + ((0.5, -6),)), ('o.vertices_().reverse()', lambda d: d[::-1]),
             ('o.vertices_()[0] = Vector2D(-7, 1)', lambda d: ((-7, 1),) + d[1:]), ('o.assign(o.vertices()[1:] + o.vertices()[:1])', lambda d: d[1:] + d[:1]), ('o = Polygon2D(o.vertices())', lambda d: d), ('o.vertices().append(Vector2D(50, 50))', lambda d: d),
             ('o.vertices_()[-1].assign(8, 8)', lambda d: d[:-1] + ((8, 8),)), ('o.vertices_().pop() if len(o.vertices_()) > 1 else 0', lambda d: d[:-1] if len(d) > 1 else d)],
            lambda d: f'Polygon2D({L(d)})',
            ['o.vertices()', 'o.vertices_()', 'o.double_signed_area()', 'o.area()', 'o.is_clockwise()', 'o.is_counter_clockwise()', 'o.get_bounding_box()', 'o.bounding_box_center()', 'o.contains(Vector2D(1.1, 1.3))', 'o.contains(Vector2D(-0.7, 2.2), False)',
             'o.dist(Vector2D(1.1, 1.3))', 'o.dist(Vector2D(1.1, 1.3), False)', 'o.dist(Vector2D(9, 4.5))', 'o.get_rectangle_clipped_polygon(Rect2D(-0.6, -9.1, 3.2, 99))'], ref)


def shards(tier):
    out = [('h', j) for j in range(len(SPEC.ops))] + [('long',)] + [('seq', i, 24) for i in range(24)] + [('big', i, 8) for i in range(8)]
    return out if tier != 'smoke' else out[::16]


def run(shard, ctx):
    if shard[0] == 'h':
        import itertools
        first = SPEC.ops[shard[1]]
        for ini in SPEC.init:
            history(ctx, SPEC, ini, [first], 0)
            for n in ((1, 2) if ctx.tier != 'thorough' else (1, 2, 3)):
                for rest in itertools.product(SPEC.ops, repeat=n):
                    for mask in (range(1 << n) if n < 3 else (0, 7)):
                        history(ctx, SPEC, ini, (first,) + rest, mask)
    elif shard[0] == 'long':
        c10.long(ctx, SPEC)
    elif shard[0] == 'seq':
        _, i, n = shard
        pls = places(ctx.tier) + TINY + FAR
        fam = [(poly.sequences(1, 4, QUAD), True), (poly.sequences(5, 5, TRI), ctx.tier == 'thorough')]
        if ctx.tier == 'thorough':
            fam.append((poly.sequences(5, 5, QUAD), False))
        for seqs, full in fam:
            for j, seq in enumerate(seqs):
                if j % n != i:
                    continue
                for k, pl in enumerate(pls):
                    if len(seq) < 4 or k == 0 or full and len(seq) < 5 and k < 3 or k == 1 + j % (len(pls) - 1):
                        check(ctx, pl, seq, (j + k) % 2)
                ctx.traces += 1
    else:
        _, i, n = shard
        for j, seq in enumerate(poly.structured(ctx.tier)):
            if j % n == i:
                for k, pl in enumerate(places(ctx.tier) + TINY + FAR):
                    check(ctx, pl, tuple(seq), k % 2)
                grown(ctx, tuple(seq))
                ctx.traces += 1
    ctx.sample(ctx.case)
