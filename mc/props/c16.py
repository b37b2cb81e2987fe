"""C16: rectangle edits."""
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from mc import mine
from mc.lib import debruijn
from mc.obs import obs, close

TITLE = 'Rectangle edits keep the rectangle normalised and move only what they say'
BOUNDS = ('rectangles that live through every ordered pair of edits; fixpoint of the rectangles reachable on a 7x7 (thorough 9x9, half-integer) coordinate window from every constructor under about 260 edits, every transition compared with a four-number model through all accessors; '
          'all ordered pairs of edits on one object from 6 starts (thorough also all triples of a core set), with and without queries in between, in 4 coordinate ranges (one with sides of 2^-24)')
ASSUMPTIONS = ['coordinates are dyadic, so every expected value is exact']
ENV = dict(Vector2D=Vector2D, Size2D=Size2D, Rect2D=Rect2D)


def mk_ops(vals, pts, sizes):
    ops = []

    def op(src, f):
        ops.append((src, compile(src, '<op>', 'exec'), f))
    for x in vals:
        for n in ('move_left', 'move_min_x'):
            op(f'o.{n}({x!r})', lambda m, x=x: (x, m[1], x + m[2] - m[0], m[3]))
        for n in ('move_right', 'move_max_x'):
            op(f'o.{n}({x!r})', lambda m, x=x: (x - (m[2] - m[0]), m[1], x, m[3]))
        for n in ('move_top', 'move_min_y'):
            op(f'o.{n}({x!r})', lambda m, x=x: (m[0], x, m[2], x + m[3] - m[1]))
        for n in ('move_bottom', 'move_max_y'):
            op(f'o.{n}({x!r})', lambda m, x=x: (m[0], x - (m[3] - m[1]), m[2], x))
        for n in ('set_left', 'set_min_x'):
            op(f'o.{n}({x!r})', lambda m, x=x: (min(m[2], x), m[1], max(m[2], x), m[3]))
        for n in ('set_right', 'set_max_x'):
            op(f'o.{n}({x!r})', lambda m, x=x: (min(m[0], x), m[1], max(m[0], x), m[3]))
        for n in ('set_top', 'set_min_y'):
            op(f'o.{n}({x!r})', lambda m, x=x: (m[0], min(m[3], x), m[2], max(m[3], x)))
        for n in ('set_bottom', 'set_max_y'):
            op(f'o.{n}({x!r})', lambda m, x=x: (m[0], min(m[1], x), m[2], max(m[1], x)))
    for p in pts:
        x, y = p
        op(f'o.move_center(Vector2D{p!r})', lambda m, x=x, y=y: (x - (m[2] - m[0]) / 2, y - (m[3] - m[1]) / 2, x + (m[2] - m[0]) / 2, y + (m[3] - m[1]) / 2))
        op(f'o.move_top_left(Vector2D{p!r})', lambda m, x=x, y=y: (x, y, x + m[2] - m[0], y + m[3] - m[1]))
        op(f'o.move_bottom_right(Vector2D{p!r})', lambda m, x=x, y=y: (x - m[2] + m[0], y - m[3] + m[1], x, y))
        for a in (f'Vector2D{p!r}', f'{x!r}, {y!r}'):
            op(f'assert o.set_top_left({a}) is o', lambda m, x=x, y=y: (min(m[2], x), min(m[3], y), max(m[2], x), max(m[3], y)))
            op(f'assert o.set_bottom_right({a}) is o', lambda m, x=x, y=y: (min(m[0], x), min(m[1], y), max(m[0], x), max(m[1], y)))
        op(f'o.top_left_().assign({x!r}, {y!r})', lambda m, x=x, y=y: (x, y, x + m[2] - m[0], y + m[3] - m[1]))
    for k, z in enumerate(sizes):
        w = sizes[(k + 2) % len(sizes)]
        op(f'o.set_length({z!r})', lambda m, z=z: (m[0], m[1], m[0] + abs(z), m[3]))
        op(f'o.set_width({z!r})', lambda m, z=z: (m[0], m[1], m[2], m[1] + abs(z)))
        op(f'o.set_size({z!r}, {w!r})', lambda m, z=z, w=w: (m[0], m[1], m[0] + abs(z), m[1] + abs(w)))
        op(f'o.set_size(Size2D({z!r}, {w!r}))', lambda m, z=z, w=w: (m[0], m[1], m[0] + abs(z), m[1] + abs(w)))
        op(f'o.size_().assign({w!r}, {z!r})', lambda m, z=z, w=w: (m[0], m[1], m[0] + abs(w), m[1] + abs(z)))
        x, y = pts[k % len(pts)]
        op(f'assert o.assign({x!r}, {y!r}, {z!r}, {w!r}) is o', lambda m, x=x, y=y, z=z, w=w: (x, y, x + abs(z), y + abs(w)))
        op(f'assert o.assign(Vector2D({x!r}, {y!r}), {w!r}, {z!r}) is o', lambda m, x=x, y=y, z=z, w=w: (x, y, x + abs(w), y + abs(z)))
        op(f'assert o.assign(Vector2D({x!r}, {y!r}), Size2D({z!r}, {w!r})) is o', lambda m, x=x, y=y, z=z, w=w: (x, y, x + abs(z), y + abs(w)))
    for k, p in enumerate(pts):
        q = pts[(k * 2 + 3) % len(pts)]
        box = (min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1]))
        op(f'assert o.assign(Vector2D{p!r}, Vector2D{q!r}) is o', lambda m, box=box: box)
        op(f'assert o.assign(Rect2D(Vector2D{p!r}, Vector2D{q!r})) is o', lambda m, box=box: box)
    op('o.assign(o.bottom_right(), o.top_left())', lambda m: m)
    op('o.assign(o.top_right(), o.bottom_left())', lambda m: m)
    op('o.assign(o)', lambda m: m)
    op('o = Rect2D(o)', lambda m: m)
    op('o = Rect2D(o.top_left_(), o.size_())', lambda m: m)
    op('o = Rect2D.from_center(o.center(), o.size().length(), o.size().width())', lambda m: m)
    op('o.set_size(o.size_())', lambda m: m)
    op('o.move_top_left(o.top_left_())', lambda m: m)
    op('o.assign(o.top_left_(), o.size_())', lambda m: m)
    op('o.assign(o.top_left_(), o.bottom_right())', lambda m: m)
    op('o.assign(o.bottom_right(), o.top_left_())', lambda m: m)
    op('o.assign(o.top_left_(), o.size_().width(), o.size_().length())', lambda m: (m[0], m[1], m[0] + m[3] - m[1], m[1] + m[2] - m[0]))
    op('o.set_top_left(o.top_left_())', lambda m: m)
    op('o.set_bottom_right(o.top_left_())', lambda m: (m[0], m[1], m[0], m[1]))
    op('o.move_center(o.top_left_())', lambda m: (m[0] - (m[2] - m[0]) / 2, m[1] - (m[3] - m[1]) / 2, m[0] + (m[2] - m[0]) / 2, m[1] + (m[3] - m[1]) / 2))
    op('o.move_bottom_right(o.top_left_())', lambda m: (m[0] - (m[2] - m[0]), m[1] - (m[3] - m[1]), m[0], m[1]))
    return ops


def ctors(m):
    l, t, r, b = m
    w, h, cx, cy = r - l, b - t, (l + r) / 2, (t + b) / 2
    return [f'Rect2D({l!r}, {t!r}, {w!r}, {h!r})', f'Rect2D({l!r}, {t!r}, {-w!r}, {h!r})', f'Rect2D(Vector2D({l!r}, {t!r}), {w!r}, {-h!r})', f'Rect2D(Vector2D({l!r}, {t!r}), Size2D({w!r}, {h!r}))',
            f'Rect2D(Vector2D({l!r}, {t!r}), Vector2D({r!r}, {b!r}))', f'Rect2D(Vector2D({r!r}, {b!r}), Vector2D({l!r}, {t!r}))', f'Rect2D(Vector2D({r!r}, {t!r}), Vector2D({l!r}, {b!r}))', f'Rect2D(Vector2D({l!r}, {b!r}), Vector2D({r!r}, {t!r}))',
            f'Rect2D(Rect2D({l!r}, {t!r}, {w!r}, {h!r}))', f'Rect2D.from_center({cx!r}, {cy!r}, {w!r}, {h!r})', f'Rect2D.from_center(Vector2D({cx!r}, {cy!r}), {w!r}, {h!r})']


NAMES = ['left', 'min_x', 'right', 'max_x', 'top', 'min_y', 'bottom', 'max_y', 'area', 'is_valid']


def inspect(ctx, o, m, hist):
    l, t, r, b = m
    w, h = r - l, b - t
    for n, want in zip(NAMES, (l, l, r, r, t, t, b, b, w * h, w > 0 and h > 0)):
        got = getattr(o, n)()
        if got != want:
            ctx.fail(f'{hist()}: {n} is {got!r}, expected {want!r}')
    for n, want in (('top_left', (l, t)), ('top_left_', (l, t)), ('top_right', (r, t)), ('bottom_left', (l, b)), ('bottom_right', (r, b)), ('center', ((l + r) / 2, (t + b) / 2))):
        v = getattr(o, n)()
        if (v.x(), v.y()) != want or not v.is_valid():
            ctx.fail(f'{hist()}: {n} is {v!r}, expected {want!r}')
    for n in ('size', 'size_'):
        z = getattr(o, n)()
        if (z.length(), z.width()) != (w, h):
            ctx.fail(f'{hist()}: {n} is {z!r}, expected {(w, h)!r}')
    ctx.transitions += 18
    if w > 0 and h > 0:
        for n, (px, py), (qx, qy) in (('left_edge', (l, t), (l, b)), ('right_edge', (r, t), (r, b)), ('top_edge', (l, t), (r, t)), ('bottom_edge', (l, b), (r, b))):
            e = getattr(o, n)()
            k = abs(e.a()) + abs(e.b())
            if not k > 0 or abs(e.a() * px + e.b() * py + e.c()) > 1e-9 * k or abs(e.a() * qx + e.b() * qy + e.c()) > 1e-9 * k:
                ctx.fail(f'{hist()}: {n} is {e!r}')
        ctx.transitions += 4


def window(tier):
    return (range(-3, 4), 1) if tier != 'thorough' else (range(-8, 9), 2)


def fix(ctx, i, n):
    """every state of the window (= the fixpoint of the reachable states inside it) x every edit"""
    rng, den = window(ctx.tier)
    vals = [-3, -1, 0, 2.0, 3]
    ops = mk_ops(vals, [(x, y) for x in (-3, 0, 2.0) for y in (-2, 0.0, 3)], [0, 1, 2.5, -3])
    co = [x / den for x in rng]
    states = [(l, t, r, b) for l in co for r in co if l <= r for t in co for b in co if t <= b]
    lo, hi = co[0], co[-1]
    for j, m in enumerate(states):
        if j % n != i:
            continue
        for c, src in enumerate(ctors(m)):
            ctx.case = lambda: f'o = {src}; print(o, o.left(), o.right(), o.top(), o.bottom())'
            inspect(ctx, eval(src, dict(ENV)), m, lambda: src)
        ctx.states += 1
        every = ops if ctx.tier != 'thorough' else ops[j % 3::3]
        for k, (s, code, f) in enumerate(every):
            src = ctors(m)[(j + k) % 11]
            env = dict(ENV)
            env['o'] = eval(src, env)
            ctx.case = lambda: f'o = {src}\n{s}\nprint(o, o.left(), o.right(), o.top(), o.bottom())'
            exec(code, env)
            m2 = f(m)
            inspect(ctx, env['o'], m2, lambda: f'o = {src}; {s}')
            ctx.outcome('stays in the window' if lo <= m2[0] and m2[2] <= hi and lo <= m2[1] and m2[3] <= hi else 'leaves the window')
        ctx.traces += len(every)
    ctx.sample(lambda: ctx.case())


def histories(ctx, rangeno, i, n, triples):
    vals, pts, sizes = RANGES(rangeno)
    ops = mk_ops(vals, pts, sizes)
    (ax, ay), (bx, by) = pts[0], pts[1]
    starts = [(min(ax, bx), min(ay, by), max(ax, bx), max(ay, by)), (vals[0], vals[1], vals[0] + 4, vals[1] + 2.5), (vals[0], vals[0], vals[0], vals[0])]
    core = [o for k, o in enumerate(ops) if k % 7 == 0] if triples else None
    for si, m0 in enumerate(starts):
        src = ctors(m0)[(si * 4 + rangeno) % 11]
        for j, first in enumerate(core or ops):
            if j % n != i:
                continue
            for second in (core or ops):
                for third in (core or [None]):
                    for q in (0, 1):
                        seq = [first, second] + ([third] if third else [])
                        env = dict(ENV)
                        env['o'] = eval(src, env)
                        m = m0
                        done = []
                        ctx.case = lambda: '\n'.join([f'o = {src}'] + done + ['print(o, o.left(), o.right(), o.top(), o.bottom())'])
                        hist = lambda: f'o = {src}; ' + '; '.join(done)
                        for s, code, f in seq:
                            done.append(s)
                            exec(code, env)
                            m = f(m)
                            if q or s is seq[-1][0]:
                                inspect(ctx, env['o'], m, hist)
                        ctx.traces += 1
    ctx.outcome('edit histories', ctx.traces)
    ctx.sample(lambda: ctx.case())


def long(ctx, rangeno):
    """one rectangle through every ordered pair of edits"""
    vals, pts, sizes = RANGES(rangeno)
    ops = mk_ops(vals, pts, sizes)
    m = (min(pts[0][0], pts[1][0]), min(pts[0][1], pts[1][1]), max(pts[0][0], pts[1][0]), max(pts[0][1], pts[1][1]))
    src = ctors(m)[rangeno]
    env = dict(ENV)
    env['o'] = eval(src, env)
    done = []
    ctx.case = lambda: '\n'.join([f'o = {src}'] + done + ['print(o, o.left(), o.right(), o.top(), o.bottom())'])
    hist = lambda: f'o = {src}; ... ({len(done) - 1} edits); {done[-1]}'
    for k in debruijn(len(ops)):
        s, code, f = ops[k]
        done.append(s)
        exec(code, env)
        m = f(m)
        inspect(ctx, env['o'], m, hist)
    ctx.traces += 1
    ctx.sample(lambda: f'{src} through {len(done)} edits')


def RANGES(k):
    if k == 0:
        return [-2, 1, 3.0], [(0, 0), (3, -2), (-1.5, 2)], [0, 1.5, -3]
    if k == 1:
        return [-52.5, 0.0, 34.25], [(-52.5, -34.0), (52.5, 34.0), (10.0, 0)], [105.0, 0.25, -68]
    if k == 3:
        u = 2.0 ** -24
        return [-2 * u, u, 3.0], [(0, 0), (3 * u, -2 * u), (-1.5, 2 * u)], [0, u, -3 * u]
    c = [mine.dyadic(x) for x in mine.near(1e-2, 1e5, 2)] or [1024.0]
    return [c[0], -c[-1], 0.5], [(c[0], c[-1]), (-c[-1], 0.25), (0, -c[0])], [c[0], 0.125, -2 * c[-1]]


def shards(tier):
    out = [('fix', 0, i, 24) for i in range(24)] + [('hist', k, i, 8) for k in range(4) for i in range(8)]
    out += [('long', k, 0, 1) for k in range(4)]
    if tier == 'thorough':
        out += [('hist3', k, i, 8) for k in range(4) for i in range(8)]
    if tier == 'smoke':
        out = out[::12]
    return out


def run(shard, ctx):
    kind, k, i, n = shard
    if kind == 'long':
        long(ctx, k)
    elif kind == 'fix':
        fix(ctx, i, n)
    else:
        histories(ctx, k, i, n, kind == 'hist3')
