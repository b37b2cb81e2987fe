"""C19: matrices as affine maps."""
import itertools
import math
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.matrix_2d import Matrix2D
from mc import mine
from mc.lib import debruijn

TITLE = 'Matrices behave as affine maps: products compose, inverses undo'
BOUNDS = ('one matrix per start that lives through every ordered pair of operations (two orders); all sequences of 3 (thorough 4) in-place operations out of 22 from 3 starts, compared with a 3x3 reference after every step; all ordered pairs of 34 matrices with determinants from 3.8e-6 to 1e6 (all triples of 17 for associativity), '
          'each applied to 9 points; all single-entry changes for equality; all integer matrices with entries -3..3 (int and float) against their exact inverse; translations, scalings and rotations by 5e-10 to 1e-3 and by up to 1e6, in every form, from 7 matrices, with the entries exact to 1e-13')
ASSUMPTIONS = ['entries are compared at 1e-9 relative (1e-13 for tiny steps)', 'matrices with a non-zero determinant below 3e-6 (the documented threshold is 1e-6) are not explored', 'translate, scale and rotate are compared with left multiplication as documented']
ENV = dict(Vector2D=Vector2D, AngleDeg=AngleDeg, Matrix2D=Matrix2D)
I6 = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


def mul(p, q):
    """p after q"""
    a, b, c, d, x, y = p
    e, f, g, h, u, v = q
    return (a * e + b * g, a * f + b * h, c * e + d * g, c * f + d * h, a * u + b * v + x, c * u + d * v + y)


def det(m):
    return m[0] * m[3] - m[1] * m[2]


def inv(m):
    a, b, c, d, x, y = m
    k = det(m)
    return (d / k, -b / k, -c / k, a / k, (b * y - d * x) / k, (c * x - a * y) / k)


def rot(t):
    c, s = math.cos(math.radians(t)), math.sin(math.radians(t))
    return (c, -s, s, c, 0.0, 0.0)


def app(m, p):
    return (m[0] * p[0] + m[1] * p[1] + m[4], m[2] * p[0] + m[3] * p[1] + m[5])


def ent(o):
    return (o.m11(), o.m12(), o.m21(), o.m22(), o.dxtf(), o.dytf())


def close(a, b, scale=None):
    k = scale if scale is not None else 1 + max(map(abs, a)) + max(map(abs, b))
    return all(abs(x - y) <= 1e-9 * k for x, y in zip(a, b))


PTS = [(0, 0), (1, 0), (0, 1), (-2.5, 3), (52.5, -34.0), (-1, -1), (7, 0.125), (0.5, 0.5), (-1000.0, 250)]


def inspect(ctx, o, m, hist):
    k = 1 + max(map(abs, m))
    if not close(ent(o), m, k):
        ctx.fail(f'{hist()}: entries {ent(o)}, expected {m}')
    if abs(o.det() - det(m)) > 1e-9 * k * k:
        ctx.fail(f'{hist()}: det {o.det()!r}, expected {det(m)!r}')
    if abs(det(m)) > max(3e-6, 1e-11 * k * k) or det(m) == 0:
        if bool(o.invertible()) != (det(m) != 0):
            ctx.fail(f'{hist()}: invertible is {o.invertible()} with determinant {det(m)!r}')
    for p in PTS:
        e = app(m, p)
        v = Vector2D(*p)
        for name, w in (('transform', o.transform(v)), ('transform(x, y)', o.transform(*p)), ('*', o * v)):
            if not w.is_valid() or not close((w.x(), w.y()), e, k * 2000):
                ctx.fail(f'{hist()}: {name} of {p} is {w!r}, expected {e}')
        if (v.x(), v.y()) != p:
            ctx.fail(f'{hist()}: the transformed vector {p} became {v!r}')
        r = o.transform_vec(v)
        if r is not v or not close((v.x(), v.y()), e, k * 2000):
            ctx.fail(f'{hist()}: transform_vec of {p} gives {r!r}, the vector is {v!r}, expected {e}')
    ctx.transitions += 3 + 4 * len(PTS)


def mk_ops():
    ops = []

    def op(src, f):
        ops.append((src, compile(src, '<op>', 'exec'), f))
    for dx, dy in ((1, -2), (0.5, 0), (0, 3.25)):
        op(f'o.translate({dx}, {dy})', lambda m, dx=dx, dy=dy: mul((1, 0, 0, 1, dx, dy), m))
        op(f'o = Matrix2D.make_translation({dx}, {dy}) * o', lambda m, dx=dx, dy=dy: mul((1, 0, 0, 1, dx, dy), m))
    for sx, sy in ((2, 3), (-1, 0.5), (0, 1), (-1, -1)):
        op(f'o.scale({sx}, {sy})', lambda m, sx=sx, sy=sy: mul((sx, 0, 0, sy, 0, 0), m))
    op('o = o * Matrix2D.make_scaling(2, -3)', lambda m: mul(m, (2, 0, 0, -3, 0, 0)))
    for t in (90, 30.0, -135):
        op(f'o.rotate(AngleDeg({t}))', lambda m, t=t: mul(rot(t), m))
    op('o = Matrix2D.make_rotation(AngleDeg(200)) * o', lambda m: mul(rot(200), m))
    op('o *= Matrix2D(1, 2, -3, 0.5, 4, -1)', lambda m: mul(m, (1, 2, -3, 0.5, 4, -1)))
    op('o *= Matrix2D(0, 1, 1, 0, -2, 2)', lambda m: mul(m, (0, 1, 1, 0, -2, 2)))
    op('o *= o', lambda m: mul(m, m))
    op('o = o * o', lambda m: mul(m, m))
    op('p = o; p *= Matrix2D(2, 0, 1, 1, 0, 3); assert p is o', lambda m: mul(m, (2, 0, 1, 1, 0, 3)))
    op('o.reset()', lambda m: I6)
    op('o.assign(3, -1, 0.5, 2, -7, 0.25)', lambda m: (3, -1, 0.5, 2, -7, 0.25))
    op('o = o.inverted()', lambda m: inv(m) if det(m) != 0 else I6)
    op('q = o * Matrix2D(5, 4, 3, 2, 1, 0); r = o.inverted(); s = o.det(); t = o * Vector2D(1, 1)', lambda m: m)
    op('q = Matrix2D(5, 4, 3, 2, 1, 0); r = o * q; r.translate(9, 9); r.scale(2, 2); q.reset()', lambda m: m)
    return ops


STARTS = [('Matrix2D()', I6), ('Matrix2D(2, 1, -1, 3, 5, -2)', (2, 1, -1, 3, 5, -2)), ('Matrix2D.make_rotation(AngleDeg(45))', rot(45))]


def histories(ctx, i, n):
    ops = mk_ops()
    for src, m0 in STARTS:
        for seq in itertools.product(ops, repeat=n - 1):
            env = dict(ENV)
            env['o'] = eval(src, env)
            m = m0
            done = []
            ctx.case = lambda: '\n'.join([f'o = {src}'] + done + ['print(o, o.det())'])
            hist = lambda: f'o = {src}; ' + '; '.join(done)
            ok = True
            for j, (s, code, f) in enumerate((ops[i],) + seq):
                d = det(m)
                if 'inverted' in s and 0 < abs(d) < 1e-3:
                    ok = False
                    break
                if 'o = o.inverted()' in s and d == 0 and env['o'].det() != 0:
                    ok = False          # singular only up to rounding
                    break
                done.append(s)
                exec(code, env)
                m = f(m)
                if max(map(abs, m)) > 1e7:
                    ok = False
                    break
                if not close(ent(env['o']), m, 1 + max(map(abs, m))):
                    ctx.fail(f'{hist()}: entries {ent(env["o"])}, expected {m}')
                ctx.transitions += 1
            if ok:
                if (det(m) == 0) == (env['o'].det() == 0):
                    inspect(ctx, env['o'], m, hist)
                ctx.seen.add(tuple(round(v, 6) + 0.0 for v in m))
                ctx.outcome('invertible' if det(m) else 'singular')
            ctx.traces += 1
    ctx.sample(lambda: ctx.case())


def long(ctx):
    """one matrix through every ordered pair of operations; large or ill-conditioned states are reset by an ordinary assignment"""
    ops = mk_ops()
    cut = [o for o in ops if o[0].startswith('o.assign')][0]
    for src, m in STARTS:
        for seq in (debruijn(len(ops)), debruijn(len(ops))[::-1]):
            env = dict(ENV)
            env['o'] = eval(src, env)
            m, done = dict(STARTS)[src], []
            ctx.case = lambda: '\n'.join([f'o = {src}'] + done + ['print(o, o.det())'])
            hist = lambda: f'o = {src}; ... ({len(done) - 1} operations); {done[-1]}'
            for k in seq:
                d = abs(det(m))
                bad = max(map(abs, m)) > 1e3 or 0 < d < 1e-2 or (d == 0) != (env['o'].det() == 0)
                for s, code, f in ([cut] if bad else []) + [ops[k]]:
                    done.append(s)
                    exec(code, env)
                    m = f(m)
                    if not close(ent(env['o']), m, 1 + max(map(abs, m))):
                        ctx.fail(f'{hist()}: entries {ent(env["o"])}, expected {m}')
                    m = ent(env['o'])
                    ctx.transitions += 1
            ctx.traces += 1
    ctx.outcome('long histories', ctx.traces)
    ctx.sample(lambda: f'{src} through {len(done)} operations')


def tiny(ctx):
    """very small and very large steps leave their exact mark on the entries (1e-13 of the largest entry involved)"""
    ms = [I6, (2, 1, -1, 3, 5, -2), rot(45), (0.25, 8, -2, 0.5, 100, -50), (2.0 ** -9, 0, 0, 2.0 ** -9, -1, 0.5), (0, 0, 0, 0, 0, 0), (1, 2, 2, 4, 2.0 ** -20, 2.0 ** -22)]
    sm = (5e-10, 2.0 ** -25, 5e-7, 9e-7, 3e-6, 1e-5, 2.0 ** -15, 1e-4, 2.0 ** -10)
    steps = [('translate', f'{x!r}, {y!r}', (1, 0, 0, 1, x, y)) for e in sm + (3000.0, 1e6) for x, y in ((e, -e), (0, e), (-e, 2.5), (1 + e, 0))]
    steps += [('scale', f'{x!r}, {y!r}', (x, 0, 0, y, 0, 0)) for e in sm + (3000.0, 1e6) for x, y in ((1 + e, 1), (1, 1 - e), (1 - e, -1 + e), (e, 1), (1, e))]
    steps += [('rotate', f'AngleDeg({t!r})', rot(t)) for e in sm for t in (e, -e, 90 + e, -90 + e, 180 - e, 45 + e, 30 - e)]
    makers = {'translate': 'make_translation', 'scale': 'make_scaling', 'rotate': 'make_rotation'}
    for m in ms:
        for name, args, s in steps:
            for kind in range(5):
                e = (mul(s, m), mul(s, m), mul(s, m), mul(m, s), mul(m, s))[kind]
                mk = f'Matrix2D.{makers[name]}({args})'
                src = f'o = Matrix2D{m!r}; ' + (f'o.{name}({args})', f'o = {mk} * o', f'p = {mk}; p *= o; o = p', f'o = o * {mk}', f'o *= {mk}')[kind]
                ctx.case = lambda: src + '\nprint(o)'
                env = dict(ENV)
                exec(src, env)
                k = 1e-13 * max(map(abs, s)) * max(map(abs, m)) + 1e-13 * (max(map(abs, s)) + max(map(abs, m)))
                got = ent(env['o'])
                if any(abs(x - y) > k for x, y in zip(got, e)):
                    ctx.fail(f'{src}: entries {got}, expected {e}')
                v = env['o'].transform(3, -2)
                w = app(e, (3, -2))
                if abs(v.x() - w[0]) > 8 * k or abs(v.y() - w[1]) > 8 * k:
                    ctx.fail(f'{src}: (3, -2) goes to {v!r}, expected {w}')
                ctx.transitions += 2
                ctx.traces += 1
        ctx.states += 1
    for p in ms + [(1e4, 0, 0, 1e4, 0, 0)]:
        for z in range(6):
            for d in sm[1:]:
                for e in (d, -d):
                    q = p[:z] + (p[z] + e,) + p[z + 1:]
                    if q == p:
                        continue
                    ctx.case = lambda: f'print(Matrix2D{q!r}, Matrix2D{p!r} * Matrix2D{q!r})'
                    if ent(Matrix2D(*q)) != q:
                        ctx.fail(f'Matrix2D{q!r} reads {ent(Matrix2D(*q))}')
                    k = 1e-13 * (1 + max(map(abs, p))) * (1 + max(map(abs, q)))
                    r = ent(Matrix2D(*p) * Matrix2D(*q))
                    if any(abs(x - y) > k for x, y in zip(r, mul(p, q))):
                        ctx.fail(f'Matrix2D{p!r} * Matrix2D{q!r} is {r}, expected {mul(p, q)}')
                    if abs(det(q)) > 3e-6:
                        i, j = ent(Matrix2D(*q).inverted()), inv(q)
                        k = 1e-12 * (1 + max(map(abs, q))) ** 2 * (1 + max(map(abs, j)))
                        if any(abs(x - y) > k for x, y in zip(i, j)):
                            ctx.fail(f'Matrix2D{q!r}.inverted() is {i}, expected {j}')
                    ctx.transitions += 3
    ctx.outcome('tiny and huge steps', ctx.traces)
    ctx.sample(lambda: src)


def matrices():
    ms = [I6, (0, 0, 0, 0, 0, 0), (1, 0, 0, 1, 3, -4), (2, 0, 0, 0.5, 0, 0), (-1, 0, 0, 1, 0, 7), (0, -1, 1, 0, 0, 0), (0, 1, 1, 0, 2, 2), (1, 2, 2, 4, 1, 1), (3, -1, 0.5, 2, -7, 0.25), (1, 1, 0, 1, 0, 0), (1, 0, -3, 1, 5, 5),
          rot(30), mul(rot(-120), (1, 0, 0, 1, 4, 1)), (0.25, 8, -2, 0.5, 100, -50), (1, 2, -1, -2, 0.5, 3), (-1, 0, 0, -1, 1, 1), (5, 0, 0, 5, 0, 0), (1, -1, -1, 1, 2, 2), (0, 2, 0, 0, 0, 1), (10, 3, 7, 2, -1, 6), (1, 0, 0, 0, 0, 0), (4, 4, 4, 4.5, 0, 0),
          mul((2, 0, 0, 3, 0, 0), rot(77)), (0, 0, 1, 1, 1, 0), (1, 0.001, 0, 1, 0, 0), (-2, -3, 5, 7, 11, -13), (0.5, 0, 0, 0.125, 0.0625, -8), (1000, 0, 0, 1000, -250, 40),
          (2.0 ** -6, 0, 0, 2.0 ** -6, 1, 2), (2.0 ** -9, 0, 0, 2.0 ** -9, -1, 0.5), (0, -2.0 ** -7, 2.0 ** -8, 0, 0, 3), (1, 1, 1, 1 + 2.0 ** -16, 0, 1), (2.0 ** -18, 0, 0, -1, 2, 2), (0.5, 2.0 ** -10, -2.0 ** -10, 2.0 ** -10, 0, 0)]
    for c in mine.near(1e-2, 1e4, 3):
        ms += [(c, 1, -1, c, c, -c), (1, c / 2, 0, 1, 0, c)]
    return ms


def pairs(ctx, i, n):
    ms = matrices()
    for j, p in enumerate(ms):
        if j % n != i:
            continue
        P = Matrix2D(*p)
        ctx.case = lambda: f'p = Matrix2D{p!r}; print(p, p.det(), p.inverted(), p.inverted() * p)'
        inspect(ctx, P, p, lambda: f'Matrix2D{p!r}')
        Q = P.inverted()
        if det(p) == 0:
            if ent(Q) != I6:
                ctx.fail(f'Matrix2D{p!r} is singular, inverted() is {Q!r}')
        else:
            k = (1 + max(map(abs, p))) ** 2 * (1 + max(map(abs, inv(p))))
            for name, o in (('inverse * m', Q * P), ('m * inverse', P * Q)):
                if not close(ent(o), I6, k):
                    ctx.fail(f'Matrix2D{p!r}: {name} is {o!r}')
        if ent(P) != p:
            ctx.fail(f'inverting Matrix2D{p!r} changed it to {P!r}')
        ctx.transitions += 4
        for q in ms:
            ctx.case = lambda: f'p = Matrix2D{p!r}; q = Matrix2D{q!r}; r = p * q; print(r, p, q, r.det()); p *= q; print(p)'
            A, B = Matrix2D(*p), Matrix2D(*q)
            R = A * B
            e = mul(p, q)
            what = lambda: f'Matrix2D{p!r} * Matrix2D{q!r}'
            k = (1 + max(map(abs, p))) * (1 + max(map(abs, q)))
            if not close(ent(R), e, k):
                ctx.fail(f'{what()} = {R!r}, expected {e}')
            if ent(A) != p or ent(B) != q or R is A or R is B:
                ctx.fail(f'{what()} changed an operand: {A!r} {B!r}')
            if abs(R.det() - A.det() * B.det()) > 1e-9 * k * k:
                ctx.fail(f'{what()}: determinant {R.det()!r}, expected {A.det() * B.det()!r}')
            for x in PTS:
                v, w = R * Vector2D(*x), A * (B * Vector2D(*x))
                if not close((v.x(), v.y()), (w.x(), w.y()), k * 2000):
                    ctx.fail(f'({what()}) applied to {x} is {v!r}, one after the other {w!r}')
            C = A
            C *= B
            if C is not A or not close(ent(C), e, k) or ent(B) != q:
                ctx.fail(f'in-place {what()} gives {C!r}, right operand {B!r}')
            if bool(Matrix2D(*p) == Matrix2D(*q)) != (p == q):
                ctx.fail(f'Matrix2D{p!r} == Matrix2D{q!r} is {Matrix2D(*p) == Matrix2D(*q)}')
            ctx.transitions += 4 + len(PTS)
            ctx.traces += 1
            ctx.outcome('pair with singular factor' if det(p) * det(q) == 0 else 'pair of invertible matrices')
        for z in range(6):
            for d in (1, -0.5, 1e-3, 2 * p[z] + 1):
                q = p[:z] + (p[z] + d,) + p[z + 1:]
                ctx.case = lambda: f'print(Matrix2D{p!r} == Matrix2D{q!r})'
                if Matrix2D(*p) == Matrix2D(*q) or not (Matrix2D(*p) == Matrix2D(*p)):
                    ctx.fail(f'Matrix2D{p!r} == Matrix2D{q!r}')
                ctx.transitions += 1
        ctx.states += 1
    ctx.sample(f'Matrix2D{p!r} with {len(ms)} others')


def integers(ctx, i, n):
    """every integer matrix with entries -3..3: product with its inverse, and the point a map and its inverse take each other's image of"""
    for a, b, c, d in itertools.islice(itertools.product(range(-3, 4), repeat=4), i, None, n):
        for tx, ty in ((0, 0), (3, -2)):
            p = (a, b, c, d, tx, ty)
            for q in (p, tuple(map(float, p))):
                ctx.case = lambda: f'p = Matrix2D{q!r}; q = p.inverted(); print(p.det(), q, p * q, q * p, q * (p * Vector2D(5, -7)))'
                P = Matrix2D(*q)
                Q = P.inverted()
                if P.det() != a * d - b * c:
                    ctx.fail(f'Matrix2D{q!r}: determinant {P.det()!r}')
                want = inv(p) if a * d != b * c else I6
                if not close(ent(Q), want, 50) or ent(P) != q:
                    ctx.fail(f'Matrix2D{q!r}: inverse {Q!r}, expected {want}')
                v = P * Vector2D(5, -7)
                if not close((v.x(), v.y()), (5 * a - 7 * b + tx, 5 * c - 7 * d + ty)):
                    ctx.fail(f'Matrix2D{q!r} takes (5,-7) to {v!r}')
                if a * d != b * c:
                    w = Q * v
                    if not close((w.x(), w.y()), (5, -7), 100):
                        ctx.fail(f'Matrix2D{q!r}: the inverse takes the image of (5,-7) to {w!r}')
                ctx.transitions += 4
                ctx.traces += 1
                ctx.outcome('integer matrix, singular' if a * d == b * c else f'integer matrix, determinant {"+" if a * d > b * c else "-"}')


def triples(ctx, i, n):
    ms = matrices()[::2]
    for p in ms[i::n]:
        for q in ms:
            for r in ms:
                ctx.case = lambda: f'p = Matrix2D{p!r}; q = Matrix2D{q!r}; r = Matrix2D{r!r}; print((p * q) * r, p * (q * r))'
                P, Q, R = Matrix2D(*p), Matrix2D(*q), Matrix2D(*r)
                a, b = (P * Q) * R, P * (Q * R)
                k = (1 + max(map(abs, p))) * (1 + max(map(abs, q))) * (1 + max(map(abs, r)))
                if not close(ent(a), mul(mul(p, q), r), k) or not close(ent(a), ent(b), k):
                    ctx.fail(f'products of Matrix2D{p!r}, Matrix2D{q!r}, Matrix2D{r!r}: {a!r} / {b!r}')
                ctx.transitions += 2
                ctx.traces += 1
    ctx.outcome('triples', ctx.traces)


def shards(tier):
    n = 3 if tier != 'thorough' else 4
    out = [('hist', i, n) for i in range(len(mk_ops()))] + [('pair', i, 8) for i in range(8)] + [('tri', i, 7) for i in range(7)] + [('int', i, 3) for i in range(3)] + [('long', 0, 1), ('tiny', 0, 1)]
    return out if tier != 'smoke' else out[::9]


def run(shard, ctx):
    kind, i, n = shard
    if kind == 'long':
        return long(ctx)
    if kind == 'tiny':
        return tiny(ctx)
    {'hist': histories, 'pair': pairs, 'tri': triples, 'int': integers}[kind](ctx, i, n)
