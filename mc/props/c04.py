"""C04: vector arithmetic, in place or not."""
import itertools
import math
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from mc import mine
from mc.lib import debruijn

TITLE = 'Vector arithmetic, in place or not, follows component arithmetic'
BOUNDS = ('one pair of vectors per start that lives through every ordered pair of operations (two orders); every operation (66) from 776 pairs of lattice vectors, valid and not; all operation sequences of length <= 2 over the full alphabet and of length 3 (thorough 4) over a core alphabet, from 8 start pairs, one of them '
          'the same object twice; all ordered pairs of 441 lattice vectors at several magnitudes for the binary queries')
ASSUMPTIONS = ['each step is compared with arithmetic on the components observed before it (1e-12 relative)', 'weak equality is not decided for differences in [0.95e-6, 1.05e-6]']

# every operation works on variables a, b (possibly the same object) and may rebind them.
# (source text, kind, receiver-model: function(ax, ay, bx, by, same) -> (ax', ay'))
OPS = []


def op(src, model, kind='inplace', valid='keep'):
    OPS.append((src, compile(src, '<op>', 'exec'), model, kind, valid))


op('a += b', lambda ax, ay, bx, by: (ax + bx, ay + by))
op('a -= b', lambda ax, ay, bx, by: (ax - bx, ay - by))
op('a *= 3', lambda ax, ay, bx, by: (ax * 3, ay * 3))
op('a *= -0.5', lambda ax, ay, bx, by: (ax / -2, ay / -2))
op('a *= 0', lambda ax, ay, bx, by: (ax * 0, ay * 0))
op('a /= 4', lambda ax, ay, bx, by: (ax / 4, ay / 4))
op('a /= -0.5', lambda ax, ay, bx, by: (ax * -2, ay * -2))
op('a.add(b)', lambda ax, ay, bx, by: (ax + bx, ay + by))
op('a.add(1.5, -2)', lambda ax, ay, bx, by: (ax + F(3, 2), ay - 2))
op('a.add_x(2.25)', lambda ax, ay, bx, by: (ax + F(9, 4), ay))
op('a.add_y(-1)', lambda ax, ay, bx, by: (ax, ay - 1))
op('a.sub(b)', lambda ax, ay, bx, by: (ax - bx, ay - by))
op('a.sub(-3, 0.5)', lambda ax, ay, bx, by: (ax + 3, ay - F(1, 2)))
op('a.sub_x(1)', lambda ax, ay, bx, by: (ax - 1, ay))
op('a.sub_y(0.25)', lambda ax, ay, bx, by: (ax, ay - F(1, 4)))
op('a.scale(2)', lambda ax, ay, bx, by: (ax * 2, ay * 2))
op('a.scale(-1.25)', lambda ax, ay, bx, by: (ax * F(-5, 4), ay * F(-5, 4)))
op('assert a.assign(7, -8) is a', lambda ax, ay, bx, by: (F(7), F(-8)))
op('a.set_x(0.5)', lambda ax, ay, bx, by: (F(1, 2), ay))
op('a.set_y(6)', lambda ax, ay, bx, by: (ax, F(6)))
op('a.set_x_y(-3, 4)', lambda ax, ay, bx, by: (F(-3), F(4)))
op('a.set_vector(b)', lambda ax, ay, bx, by: (bx, by), valid='b')
op('assert a.reverse() is a', lambda ax, ay, bx, by: (-ax, -ay))
op('a.invalidate()', lambda ax, ay, bx, by: (ax, ay), valid=False)
op('a.validate()', lambda ax, ay, bx, by: (ax, ay), valid=True)
op('a.set_length(5)', 5, kind='length')
op('a.set_length(0.25)', 0.25, kind='length')
op('a.set_length(0)', 0.0, kind='length')
op('a.set_length(-2)', -2.0, kind='length')
op('a = a.set_length_vector(-1.5)', -1.5, kind='lengthnew')
op('a.normalize()', 1.0, kind='length')
op('a = a.set_length_vector(3)', 3.0, kind='lengthnew')
op('a = a.normalize_vector()', 1.0, kind='lengthnew')
op('a = a + b', lambda ax, ay, bx, by: (ax + bx, ay + by), kind='new')
op('a = a - b', lambda ax, ay, bx, by: (ax - bx, ay - by), kind='new')
op('a = a * 2', lambda ax, ay, bx, by: (ax * 2, ay * 2), kind='new')
op('a = a * -1.5', lambda ax, ay, bx, by: (ax * F(-3, 2), ay * F(-3, 2)), kind='new')
op('a = a / 2', lambda ax, ay, bx, by: (ax / 2, ay / 2), kind='new')
op('a = a / -8.0', lambda ax, ay, bx, by: (ax / -8, ay / -8), kind='new')
op('a = a.reverse_vector()', lambda ax, ay, bx, by: (-ax, -ay), kind='new')
op('a = a.abs()', lambda ax, ay, bx, by: (abs(ax), abs(ay)), kind='new')
op('a = Vector2D(a)', lambda ax, ay, bx, by: (ax, ay), kind='copy')
op('a = a.copy()', lambda ax, ay, bx, by: (ax, ay), kind='copy')
op('a = a.get_copy()', lambda ax, ay, bx, by: (ax, ay), kind='copy')
op('b = a', None, kind='alias')
op('b = Vector2D(a)', None, kind='copyb')
op('b = a.copy()', None, kind='copyb')
op('a, b = b, a', None, kind='swap')
op('a = Vector2D(2, -1)', None, kind='fresh')
op('a = Vector2D(x=2, y=-1)', None, kind='fresh')
op('a = Vector2D.invalid()', None, kind='invalid')
op('q = [a.r(), a.r2(), a.dist(b), a.dist2(b), a.inner_product(b), a.outer_product(b), a.th(), a == b, hash(a), a.equals_weakly(b)]',
   lambda ax, ay, bx, by: (ax, ay))
CORE = ['a += b', 'a -= b', 'a *= -0.5', 'a /= 4', 'a.add(b)', 'a.sub(b)', 'a.set_vector(b)', 'a.invalidate()', 'a.set_length(5)', 'a = a + b', 'a = a - b', 'a = a * 2', 'a = Vector2D(a)',
        'a = a.copy()', 'b = a', 'b = a.copy()', 'a, b = b, a', 'assert a.reverse() is a', 'a.scale(2)', 'a = a.abs()', 'a.add_x(2.25)', 'a.set_y(6)', 'a = a / 2', OPS[-1][0], 'a.validate()']
STARTS = ['a = Vector2D(3, 4); b = Vector2D(-1, 2)', 'a = Vector2D(3.5, -4.0); b = a', 'a = Vector2D(0, 0); b = Vector2D(1.25, -6.5)', 'a = Vector2D(-52.5, 34.0); b = Vector2D(0.0, -7)',
          'a = Vector2D(5, 12); a.invalidate(); b = Vector2D(2, 2)', 'a = Vector2D(); b = Vector2D(x=-8, y=0.5)', 'a = Vector2D(1e-7, 0.0); b = Vector2D(1000.25, -2000)', 'a = Vector2D(3e-5, -4e-5); b = Vector2D(0.0, 2e-4)']


def obs(v):
    return (v.x(), v.y(), v.is_valid())


def near(got, want, tol):
    return abs(F(got) - want) <= tol


def step(ctx, env, o, where):
    src, code, model, kind, valid = o
    a0, b0 = env['a'], env['b']
    same = a0 is b0
    (ax, ay, av), (bx, by, bv) = obs(a0), obs(b0)
    exec(code, env)
    a, b = env['a'], env['b']
    for v in (a, b):
        if v.x() != v.get_x() or v.y() != v.get_y():
            ctx.fail(f'{where}: accessors disagree')
    big = 1e-12 * (1 + max(abs(ax), abs(ay), abs(bx), abs(by)))

    def expect(v, x, y, val, what):
        if not near(v.x(), x, big) or not near(v.y(), y, big):
            ctx.fail(f'{where}: {what} is {v!r}, expected ({float(x)!r},{float(y)!r})')
        if val is not None and v.is_valid() != val:
            ctx.fail(f'{where}: {what} validity is {v.is_valid()}, expected {val}')

    def unchanged(v, o3, what):
        if obs(v) != o3:
            ctx.fail(f'{where}: {what} changed from {o3} to {obs(v)}')
    A, B = (F(ax), F(ay)), (F(bx), F(by))
    if kind == 'inplace':
        x, y = model(*A, *B)
        if a is not a0:
            ctx.fail(f'{where}: the variable was rebound to another object by an in-place operation')
        val = av if valid == 'keep' else bv if valid == 'b' else valid
        expect(a, x, y, val, 'receiver')
        if not same:
            unchanged(b0, (bx, by, bv), 'the other operand')
    elif kind in ('length', 'lengthnew'):
        r = math.hypot(ax, ay)
        if r < 0.9e-6:
            x, y = F(ax), F(ay)
        elif r < 1.1e-6:
            x, y = F(a.x()), F(a.y())
        else:
            x, y = F(ax * (model / r)), F(ay * (model / r))
        big = 1e-11 * (1e-3 + abs(model))
        expect(a, x, y, av if kind == 'length' else None, 'receiver' if kind == 'length' else 'result')
        if kind == 'lengthnew':
            if a is a0:
                ctx.fail(f'{where}: result is the receiver itself')
            unchanged(a0, (ax, ay, av), 'the receiver')
        if not same:
            unchanged(b0, (bx, by, bv), 'the other operand')
    elif kind in ('new', 'copy'):
        x, y = model(*A, *B)
        expect(a, x, y, av if kind == 'copy' else None, 'result')
        if kind == 'copy' and (a.x(), a.y()) != (ax, ay):
            ctx.fail(f'{where}: copy differs')
        if a is a0 or a is b0:
            ctx.fail(f'{where}: the result is an operand itself, not a new vector')
        unchanged(a0, (ax, ay, av), 'left operand')
        unchanged(b0, (bx, by, bv), 'right operand')
    elif kind == 'copyb':
        unchanged(a, (ax, ay, av), 'source')
        if b is a or obs(b) != (ax, ay, av):
            ctx.fail(f'{where}: copy is {obs(b)}, source {(ax, ay, av)}')
    elif kind in ('alias', 'swap'):
        unchanged(a0, (ax, ay, av), 'a')
        unchanged(b0, (bx, by, bv), 'b')
    elif kind == 'fresh':
        if obs(a) != (2, -1, True):
            ctx.fail(f'{where}: new vector reads {obs(a)}')
        if not same:
            unchanged(b0, (bx, by, bv), 'b')
    elif kind == 'invalid':
        if a.is_valid():
            ctx.fail(f'{where}: Vector2D.invalid() is valid')


def dyadic_small(v):
    return abs(v) < 1e9


def sequences(ctx, start, ops, depth, i, n):
    for no, seq in enumerate(itertools.product(ops, repeat=depth)):
        if no % n != i:
            continue
        ctx.case = lambda: '\n'.join([start.replace('; ', '\n')] + [o[0] for o in seq] + ['print(a, a.is_valid(), b, b.is_valid())'])
        env = {'Vector2D': Vector2D}
        exec(start, env)
        for j, o in enumerate(seq):
            step(ctx, env, o, start + '; ' + '; '.join(s[0] for s in seq[:j + 1]))
        ctx.transitions += depth
        ctx.traces += 1
        ctx.seen.add((obs(env['a']), obs(env['b']), env['a'] is env['b']))
    ctx.sample(lambda: start + '; ' + '; '.join(o[0] for o in seq))


def long(ctx, start):
    """two vectors that live through every ordered pair of operations; oversized components are cut back by an ordinary operation"""
    cut = [o for o in OPS if 'assign(7, -8)' in o[0]][0]
    for seq in (debruijn(len(OPS)), debruijn(len(OPS))[::-1]):
        env = {'Vector2D': Vector2D}
        exec(start, env)
        done = []
        ctx.case = lambda: '\n'.join([start.replace('; ', '\n')] + done + ['print(a, a.is_valid(), b, b.is_valid())'])
        for k in seq:
            for o in ([cut] if max(abs(env['a'].x()), abs(env['a'].y())) > 1e6 else []) + [OPS[k]]:
                done.append(o[0])
                step(ctx, env, o, f'{start}; ... ({len(done) - 1} operations); {o[0]}')
                ctx.transitions += 1
        ctx.traces += 1


def lattice(ctx, i, n):
    """every operation from every pair of small lattice vectors (mirror images, multiples and equal ones included), valid and invalid"""
    vals = [(x, y) for x in (-4, -3, -2, -1, 0, 1, 2, 3, 4) for y in (-4, -3, -2, -1, 0, 1, 2, 3, 4)] + [(x / 2, y / 2) for x in (-5, -3, 3, 5) for y in (-5, -3, 3, 5)]
    for x, y in vals[i::n]:
        for u, v in ((x, y), (-x, -y), (y, x), (-y, x), (2 * x, 2 * y), (0, 0), (x, 5.0), (0.25, -7)):
            for av in ('', '; a.invalidate()', '; b.invalidate()'):
                start = f'a = Vector2D({x!r}, {y!r}); b = Vector2D({u!r}, {v!r})' + av
                for o in OPS:
                    ctx.case = lambda: '\n'.join([start.replace('; ', '\n'), o[0], 'print(a, a.is_valid(), b, b.is_valid())'])
                    env = {'Vector2D': Vector2D}
                    env['a'], env['b'] = Vector2D(x, y), Vector2D(u, v)
                    if av:
                        env[av[2]].invalidate()
                    step(ctx, env, o, start + '; ' + o[0])
                    ctx.transitions += 1
                    ctx.traces += 1
        ctx.states += 1
    ctx.outcome('operation on a lattice pair', ctx.traces)


def pairs(ctx, m, ox, oy, i, n, side):
    pts = [(ox + m * x, oy + m * y) for x in range(-side, side + 1) for y in range(-side, side + 1)]
    for p in pts[i::n]:
        a = Vector2D(*p)
        ax, ay = F(p[0]), F(p[1])
        r2 = ax * ax + ay * ay
        ctx.case = lambda: f'a = Vector2D{p!r}; print(a.r2(), a.r(), a.length(), a.length2(), a.abs(), a.abs_x(), a.abs_y())'
        t = 1e-12 * float(r2)
        if not near(a.r2(), r2, t) or not near(a.length2(), r2, t) or abs(a.r() ** 2 - float(r2)) > 4 * t or a.length() != a.r():
            ctx.fail(f'length of {p}: r2={a.r2()!r} r={a.r()!r}')
        if a.abs_x() != abs(p[0]) or a.abs_y() != abs(p[1]) or obs(a.abs())[:2] != (abs(p[0]), abs(p[1])):
            ctx.fail(f'absolute values of {p}: {a.abs()} {a.abs_x()} {a.abs_y()}')
        ctx.states += 1
        for q in pts:
            b = Vector2D(*q)
            ctx.case = lambda: (f'a = Vector2D{p!r}; b = Vector2D{q!r}\nprint(a.dist(b), a.dist2(b), a.inner_product(b), a.outer_product(b), a == b, a.equals(b), a.equals_weakly(b), '
                                'hash(a) == hash(b), Vector2D.inner_product_static(a, b), Vector2D.outer_product_static(a, b))')
            bx, by = F(q[0]), F(q[1])
            dd = (ax - bx) ** 2 + (ay - by) ** 2
            ip, outp = ax * bx + ay * by, ax * by - ay * bx
            t = 1e-12 * float(r2 + bx * bx + by * by)
            if not near(a.dist2(b), dd, 1e-9 * float(dd)) or abs(a.dist(b) - math.sqrt(dd)) > 1e-9 * m:
                ctx.fail(f'distance of {p} and {q}: {a.dist(b)!r}, squared {a.dist2(b)!r}, expected squared {float(dd)!r}')
            if not near(a.inner_product(b), ip, t) or not near(Vector2D.inner_product_static(a, b), ip, t):
                ctx.fail(f'inner product of {p} and {q}: {a.inner_product(b)!r}, expected {float(ip)!r}')
            if not near(a.outer_product(b), outp, t) or not near(Vector2D.outer_product_static(a, b), outp, t):
                ctx.fail(f'outer product of {p} and {q}: {a.outer_product(b)!r}, expected {float(outp)!r}')
            eq = p[0] == q[0] and p[1] == q[1]
            if a.equals(b) != eq or (a == b) != eq or (a != b) == eq:
                ctx.fail(f'equality of {p} and {q}: equals {a.equals(b)}, == {a == b}, expected {eq}')
            if eq and hash(a) != hash(b):
                ctx.fail(f'equal vectors {p} and {q} have different hashes')
            g = max(abs(ax - bx), abs(ay - by))
            if g < 0.95e-6 or g > 1.05e-6:
                if a.equals_weakly(b) != (g < 1e-6):
                    ctx.fail(f'weak equality of {p} and {q} is {a.equals_weakly(b)}')
            ctx.transitions += 9
            ctx.outcome('equal' if eq else 'different')
        if obs(a) != (p[0], p[1], True):
            ctx.fail(f'queries changed {p} to {obs(a)}')


def weak(ctx):
    for x, y in ((0.0, 0.0), (3, 4), (-52.5, 34.0), (1000.0, -1.0)):
        for e in (0, 0.4e-6, -0.4e-6, 0.49e-6, 0.9e-6, -0.95e-6, 1.1e-6, 2.5e-6, -3e-6, 1e-3, -1.0):
            for f in (0, 0.4e-6, -0.45e-6, 0.9e-6, -0.95e-6, -1.1e-6, 2.5e-6, -3e-6, 0.5):
                a, b = Vector2D(x, y), Vector2D(x + e, y + f)
                ctx.case = lambda: f'print(Vector2D({x!r}, {y!r}).equals_weakly(Vector2D({x + e!r}, {y + f!r})), Vector2D({x!r}, {y!r}) == Vector2D({x + e!r}, {y + f!r}))'
                want = abs(e) < 1e-6 and abs(f) < 1e-6
                strict = (x + e == x and y + f == y)
                if a.equals_weakly(b) != want or b.equals_weakly(a) != want or (a == b) != strict or a.equals(b) != strict:
                    ctx.fail(f'({x},{y}) against offset ({e},{f}): weak {a.equals_weakly(b)}, strict {a == b}')
                ctx.transitions += 4
                ctx.outcome('weakly equal' if want else 'different')
    for x, y in itertools.product((0, -0.0, 0.0, 1, 1.0, -3, -3.0), repeat=2):
        for u, v in itertools.product((0, -0.0, 0.0, 1, 1.0, -3, -3.0), repeat=2):
            a, b = Vector2D(x, y), Vector2D(u, v)
            ctx.case = lambda: f'print(Vector2D({x!r}, {y!r}) == Vector2D({u!r}, {v!r}), hash(Vector2D({x!r}, {y!r})), hash(Vector2D({u!r}, {v!r})))'
            eq = x == u and y == v
            if (a == b) != eq or (eq and (hash(a) != hash(b) or len({a, b}) != 1)):
                ctx.fail(f'({x!r},{y!r}) and ({u!r},{v!r}): == {a == b}, hashes {hash(a)}, {hash(b)}')
            ctx.transitions += 2
    for other in (None, 3, 'x', (3, 4), [3, 4]):
        ctx.case = f'print(Vector2D(3, 4) == {other!r})'
        if (Vector2D(3, 4) == other) is not False:
            ctx.fail(f'Vector2D(3, 4) == {other!r}')
    ctx.traces += 1


def shards(tier):
    full, core = len(OPS), len(CORE)
    out = [('weak',)] + [('lat', i, 8) for i in range(8)]
    for s in range(len(STARTS)):
        out.append(('seq', s, 'full', 1, 0, 1))
        out.append(('seq', s, 'full', 2, 0, 1))
        out.append(('long', s))
        d, n = (3, 2) if tier != 'thorough' else (4, 12)
        if tier == 'smoke':
            continue
        for i in range(n):
            out.append(('seq', s, 'core', d, i, n))
    pl = [(1, 0, 0), (0.5, -52.5, 34.0), (8.0, 100.0, -200.0), (0.125, 0.0, 0.0), (2.0 ** -14, 0.0, 2.0 ** -14), (2.0 ** -10, 1000.0, -500.0), (2.0 ** -6, -20000.0, 52.5), (0.001, 1000.1, -499.9), (0.1, 20000.3, 0.7)]
    for c in mine.near(1.0 / 64, 1e5, 8):
        pl += [(mine.dyadic(c / 4, 5), 0.0, 0.0), (1.0, mine.dyadic(c, 7) - 2, -mine.dyadic(c, 7) + 1), (mine.dyadic(math.sqrt(c) / 4, 5), 0.0, 0.0)]
    side = 10 if tier == 'thorough' else 5
    for p in pl:
        for i in range(2):
            out.append(('pairs', *p, i, 2, side))
    return out


def run(shard, ctx):
    if shard[0] == 'seq':
        _, s, which, depth, i, n = shard
        al = OPS if which == 'full' else [o for o in OPS if o[0] in CORE]
        sequences(ctx, STARTS[s], al, depth, i, n)
    elif shard[0] == 'long':
        long(ctx, STARTS[shard[1]])
    elif shard[0] == 'pairs':
        pairs(ctx, *shard[1:])
        ctx.traces += 1
    elif shard[0] == 'lat':
        lattice(ctx, *shard[1:])
    else:
        weak(ctx)
