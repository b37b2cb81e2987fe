"""C17: rectangle set operations."""
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.size_2d import Size2D
from mc.lib import places, TINY

TITLE = 'Rectangle containment, intersection and union are set operations'
BOUNDS = ('all ordered pairs of the 100 (thorough 225) rectangles, empty ones included, with sides on a 4x4 (5x5) lattice, all half-lattice points around, 5 tolerances, 5 (thorough 9) placements; 8 rectangles of sizes 1/8 to 2e5 with points, tolerances and second rectangles 2^-1 to 2^-23 (thorough 2^-32) inside or outside every side; every rectangle of a 3x3 lattice reached from 5 starts (empty ones included), after 6 kinds of look, by 13 kinds of edit')
ASSUMPTIONS = ['coordinates are dyadic, so border comparisons are exact', 'the union with an empty rectangle is not decided']


def rects(n):
    return [(l, t, r, b) for l in range(n) for r in range(l, n) for t in range(n) for b in range(t, n)]


def R(pl, q):
    l, t, r, b = q
    return Rect2D(pl.x(l), pl.y(t), pl.s * (r - l), pl.s * (b - t))


def src(pl, q):
    l, t, r, b = q
    return f'Rect2D({pl.x(l)!r}, {pl.y(t)!r}, {pl.s * (r - l)!r}, {pl.s * (b - t)!r})'


def sides(o):
    return (o.left(), o.top(), o.right(), o.bottom())


def placed(pl, q):
    return (pl.fx(q[0]), pl.fy(q[1]), pl.fx(q[2]), pl.fy(q[3]))


def same(a, b):
    return all(abs(x - y) <= 1e-14 * (1 + abs(x)) for x, y in zip(a, b))


def pair(ctx, pl, p, q, a, b, objs):
    ctx.case = lambda: f'a = {src(pl, p)}; b = {src(pl, q)}\nprint(a.intersected(b), a.united(b), a, b)'
    what = lambda: f'a = {src(pl, p)}; b = {src(pl, q)}'
    l, t, r, bt = max(p[0], q[0]), max(p[1], q[1]), min(p[2], q[2]), min(p[3], q[3])
    real = p[0] < p[2] and p[1] < p[3] and q[0] < q[2] and q[1] < q[3]
    x = a.intersected(b)
    if real and l < r and t < bt:
        if not same(sides(x), placed(pl, (l, t, r, bt))):
            ctx.fail(f'{what()}: intersection {x!r}, expected sides {placed(pl, (l, t, r, bt))}')
        ctx.outcome('overlap')
    else:
        if x.is_valid() or x.area() != 0 or x.size().length() != 0 or x.size().width() != 0:
            ctx.fail(f'{what()}: intersection {x!r}, expected an empty rectangle')
        ctx.outcome('no common area')
    ctx.transitions += 1
    if real:
        u = a.united(b)
        e = placed(pl, (min(p[0], q[0]), min(p[1], q[1]), max(p[2], q[2]), max(p[3], q[3])))
        if not same(sides(u), e):
            ctx.fail(f'{what()}: union {u!r}, expected sides {e}')
        ctx.transitions += 1
    if not same(sides(a), placed(pl, p)) or not same(sides(b), placed(pl, q)):
        ctx.fail(f'{what()}: an operand changed to {a!r} / {b!r}')
    ctx.traces += 1


def points(ctx, pl, q, n):
    a = R(pl, q)
    l, t, r, b = (4 * v for v in q)
    for x in range(-7, 4 * n + 5):
        for y in (range(-7, 4 * n + 5) if x % 2 == 0 else range(-7, 4 * n + 5, 3)):
            P = Vector2D(pl.ox + pl.s * x / 4, pl.oy + pl.s * y / 4)
            ctx.case = lambda: f'a = {src(pl, q)}; p = Vector2D({P.x()!r}, {P.y()!r})\nprint(a.contains(p), [a.contains_almost(p, e * {pl.s!r} / 4) for e in (0, 1, 2, 4, 7)])'
            want = l <= x <= r and t <= y <= b
            if bool(a.contains(P)) != want:
                ctx.fail(f'{src(pl, q)} contains ({P.x()!r},{P.y()!r}): {a.contains(P)}, expected {want}')
            for e in (0, 1, 2, 4, 7):
                w = l - e <= x <= r + e and t - e <= y <= b + e
                if bool(a.contains_almost(P, pl.s * e / 4)) != w:
                    ctx.fail(f'{src(pl, q)} contains_almost ({P.x()!r},{P.y()!r}) within {pl.s * e / 4!r}: expected {w}')
            ctx.transitions += 6
            ctx.outcome('point inside' if want else 'point outside')
    ctx.states += 1


BIG = [(-52.5, -34.0, 105.0, 68.0), (-52.5, -20.125, 16.5, 40.25), (0.0, 0.0, 1000.0, 2000.0), (-300.25, 17.5, 0.5, 4096.0), (2.0, 3.0, 0.25, 0.125), (-1.0, -1.0, 2.0, 2.0), (700.0, -900.5, 1.0, 1.0), (-1e5, -1e5, 2e5, 2e5)]


def hair(ctx, i, n):
    """points, tolerances and second rectangles a hair inside or outside the sides of rectangles of very different sizes"""
    ks = range(1, 24 if ctx.tier == 'quick' else 33)
    for j, (l, t, w, h) in enumerate(BIG):
        if j % n != i:
            continue
        r, b = l + w, t + h
        o = Rect2D(l, t, w, h)
        xs = [(v, l <= v <= r) for v in (l - 3, l, (l + r) / 2, r, r + 3)]
        ys = [(v, t <= v <= b) for v in (t - 3, t, (t + b) / 2, b, b + 3)]
        for k in ks:
            e = 2.0 ** -k
            hx = [(v, l <= v <= r) for v in (l - e, l + e, r - e, r + e)]
            hy = [(v, t <= v <= b) for v in (t - e, t + e, b - e, b + e)]
            for (x, ix), (y, iy) in [(p, q) for p in hx for q in ys + hy] + [(p, q) for p in xs for q in hy]:
                P = Vector2D(x, y)
                ctx.case = lambda: f'a = Rect2D({l!r}, {t!r}, {w!r}, {h!r}); p = Vector2D({x!r}, {y!r})\nprint(a.contains(p), a.contains_almost(p, {e / 2!r}), a.contains_almost(p, {e!r}), a.contains_almost(p, {2 * e!r}))'
                if bool(o.contains(P)) != (ix and iy):
                    ctx.fail(f'Rect2D({l}, {t}, {w}, {h}) contains ({x!r},{y!r}): {o.contains(P)}, expected {ix and iy}')
                for d in (e / 2, e, 2 * e, 1.0, 0.0):
                    want = l - d <= x <= r + d and t - d <= y <= b + d
                    if bool(o.contains_almost(P, d)) != want:
                        ctx.fail(f'Rect2D({l}, {t}, {w}, {h}) contains_almost ({x!r},{y!r}) within {d!r}: expected {want}')
                ctx.transitions += 6
                ctx.outcome('hair inside' if ix and iy else 'hair outside')
            # a second rectangle overlapping by a hair, or missing by one, at either end of either axis; and one a hair smaller or larger
            for dx, dy in ((w - e, 0), (e - w, 0), (w + e, 0), (-w - e, 0), (0, h - e), (0, e - h), (0, h + e), (0, -h - e), (w - e, h - e), (e - w, e - h), (e, e), (-e, e)):
                q = (l + dx, t + dy, r + dx, b + dy)
                two(ctx, (l, t, r, b), q)
            for d in (e, -e):
                if w + 2 * d > 0 and h + 2 * d > 0:
                    two(ctx, (l, t, r, b), (l - d, t - d, r + d, b + d))
                    two(ctx, (l, t, r, b), (l - d, t, r + d, b))
        ctx.states += 1


def two(ctx, p, q):
    A = lambda s: (s[0], s[1], s[2] - s[0], s[3] - s[1])
    a, b = Rect2D(*A(p)), Rect2D(*A(q))
    ctx.case = lambda: f'a = Rect2D{A(p)!r}; b = Rect2D{A(q)!r}\nprint(a.intersected(b), b.intersected(a), a.united(b), b.united(a))'
    x = (max(p[0], q[0]), max(p[1], q[1]), min(p[2], q[2]), min(p[3], q[3]))
    u = (min(p[0], q[0]), min(p[1], q[1]), max(p[2], q[2]), max(p[3], q[3]))
    for m, o in ((a, b), (b, a)):
        g = m.intersected(o)
        if x[0] < x[2] and x[1] < x[3]:
            if not same(sides(g), x):
                ctx.fail(f'{m!r} and {o!r}: intersection {g!r}, expected sides {x}')
            ctx.outcome('overlap by a hair')
        elif g.is_valid() or g.area() != 0 or g.size().length() != 0 or g.size().width() != 0:
            ctx.fail(f'{m!r} and {o!r}: intersection {g!r}, expected an empty rectangle')
        if not same(sides(m.united(o)), u):
            ctx.fail(f'{m!r} and {o!r}: union {m.united(o)!r}, expected sides {u}')
        ctx.transitions += 2
    ctx.traces += 1


LOOK = ['', 'a.is_valid()', 'a.intersected(a)', 'a.united(a)', 'a.area(); a.center(); a.contains(Vector2D(1, 1)); a.is_valid()', 'Rect2D(a).intersected(a)']
EDIT = ['a.assign({l}, {t}, {w}, {h})', 'a.assign(Vector2D({l}, {t}), {w}, {h})', 'a.assign(Vector2D({l}, {t}), Size2D({w}, {h}))', 'a.assign(Vector2D({l}, {t}), Vector2D({r}, {b}))', 'a.assign(Rect2D({l}, {t}, {w}, {h}))',
        'a.move_top_left(Vector2D({l}, {t})); a.set_size({w}, {h})', 'a.set_size(Size2D({w}, {h})); a.move_bottom_right(Vector2D({r}, {b}))', 'a.set_length({w}); a.set_width({h}); a.move_left({l}); a.move_top({t})',
        'a.move_left({l}); a.move_top({t}); a.set_right({r}); a.set_bottom({b})', 'a.move_right({r}); a.move_bottom({b}); a.set_left({l}); a.set_top({t})', 'a.move_top_left(Vector2D({l}, {t})); a.set_bottom_right({r}, {b})',
        'a.move_bottom_right(Vector2D({r}, {b})); a.set_top_left({l}, {t})', 'a.size_().assign({w}, {h}); a.top_left_().assign({l}, {t})']
START = ['Rect2D(0, 0, 0, 0)', 'Rect2D(1, 1, 2, 0)', 'Rect2D(0, 0, 3, 3)', 'Rect2D(0.5, -1, 1, 4)', 'Rect2D(Rect2D(0, 0, 0, 0))']


def hist(ctx, i, n):
    """rectangles looked at while they had other sides (empty ones included) and edited to the sides in question"""
    env = dict(Rect2D=Rect2D, Vector2D=Vector2D, Size2D=Size2D)
    qs = rects(3)
    ways = [(st, lk, ed) for st in START for lk in LOOK for ed in EDIT]
    for st, lk, ed in ways[i::n]:
        for q in qs:
            l, t, r, b = q
            code = f'a = {st}\n{lk}\n' + ed.format(l=l, t=t, r=r, b=b, w=r - l, h=b - t)
            ctx.case = lambda: code + '\nprint(a, a.is_valid())'
            d = dict(env)
            exec(code, d)
            a = d['a']
            if sides(a) != q or bool(a.is_valid()) != (l < r and t < b):
                ctx.fail(f'{code!r}: {a!r} valid {a.is_valid()}, expected sides {q}')
            d = dict(env)
            exec(code, d)
            for p in qs[::5] + [(0, 0, 2, 2), (1, 0, 2, 2)]:
                a, o = d['a'], Rect2D(p[0], p[1], p[2] - p[0], p[3] - p[1])
                ctx.case = lambda: code + f'\no = Rect2D{(p[0], p[1], p[2] - p[0], p[3] - p[1])!r}\nprint(a.intersected(o), o.intersected(a), a.united(o), o.united(a))'
                x = (max(p[0], q[0]), max(p[1], q[1]), min(p[2], q[2]), min(p[3], q[3]))
                real = p[0] < p[2] and p[1] < p[3] and l < r and t < b
                for m, k in ((a, o), (o, a)):
                    g = m.intersected(k)
                    if real and x[0] < x[2] and x[1] < x[3]:
                        if sides(g) != x:
                            ctx.fail(f'{code!r}: intersection of {m!r} and {k!r} is {g!r}, expected sides {x}')
                        ctx.outcome('overlap, edited')
                    elif g.area() != 0 or g.is_valid():
                        ctx.fail(f'{code!r}: intersection of {m!r} and {k!r} is {g!r}, expected an empty rectangle')
                    if real:
                        u = (min(p[0], q[0]), min(p[1], q[1]), max(p[2], q[2]), max(p[3], q[3]))
                        if sides(m.united(k)) != u:
                            ctx.fail(f'{code!r}: union of {m!r} and {k!r} is {m.united(k)!r}, expected sides {u}')
                    ctx.transitions += 2
            for pt in ((l, t), (r, b), (r + 1, b), (l, t - 1), ((l + r) / 2, (t + b) / 2)):
                want = l <= pt[0] <= r and t <= pt[1] <= b
                if bool(a.contains(Vector2D(*pt))) != want:
                    ctx.fail(f'{code!r}: contains {pt}: expected {want}')
                ctx.transitions += 1
            ctx.states += 1
            ctx.traces += 1


def shards(tier):
    n = 10
    out = [(kind, k, i, n) for k in range(len(places(tier)) + len(TINY)) for kind in ('pts', 'pair') for i in range(n)] + [('hair', 0, i, 8) for i in range(8)] + [('hist', 0, i, 8) for i in range(8)]
    return out if tier != 'smoke' else out[::17]


def run(shard, ctx):
    kind, k, i, n = shard
    if kind == 'hist':
        hist(ctx, i, n)
        ctx.sample('rectangles edited after being looked at')
        return
    if kind == 'hair':
        hair(ctx, i, n)
        ctx.sample('points and rectangles 2^-1 .. 2^-23 from the sides')
        return
    pl = (TINY + places(ctx.tier))[k]
    m = 5 if ctx.tier == 'thorough' else 4
    qs = rects(m)
    objs = [R(pl, q) for q in qs]
    for q in qs[i::n]:
        if kind == 'pts':
            points(ctx, pl, q, m)
        else:
            a = R(pl, q)
            for p, b in zip(qs, objs):
                pair(ctx, pl, q, p, a, b, objs)
    ctx.sample(f'{kind}: {src(pl, q)}')
