"""C03: degree trigonometry, polar conversion and rotation."""
import math
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.vector_2d import Vector2D
from mc import mine
from mc.lib import debruijn

TITLE = 'Degree trigonometry, polar conversion and rotation are consistent'
BOUNDS = ('trigonometry: every quarter degree in [-1080,1080] as angle object and as number; inverse functions: every 1/128 in [-2,2] and 25x25 signed '
          'coordinates at 8 magnitudes; polar/redirect/rotate: 10 radii x every 1.25 degrees (thorough 0.25) and out-of-range notations (every multiple of 45 up to 3.5 turns either way, quarter turns beyond 10 and 100 turns) x 26 vectors; all ordered pairs of '
          '24 rotations on 20 vectors; angle and vector objects read before, between and after all ordered pairs of 21 (32) changes from 8 (6) starts, and one object living through all of those pairs')
ASSUMPTIONS = ['reference is the C library trigonometry at 1e-11 relative tolerance']
T = 1e-11


def cs(d):
    r = math.fmod(d, 360.0)
    return math.cos(math.radians(r)), math.sin(math.radians(r))


def close(a, b, scale=1.0):
    return abs(a - b) <= T * (1.0 + abs(scale))


def angle_gap(a, b):
    t = (a - b) % 360.0
    return min(t, 360.0 - t)


def angles():
    out = [q / 4 for q in range(-4320, 4321)] + list(range(-720, 721, 45))
    for k in range(-16, 17):
        out += [45 * k + s * e for e in (0.1, 1e-2, 1e-3, 1e-4, 5e-5, 1e-5, 1e-6) for s in (1, -1)]
    for c in mine.near(1e-3, 1e5, 10):
        out += [c, -c, c + 0.5, c - 0.5, 2 * c]
    return out


def trig(ctx, d):
    c, s = cs(d)
    ctx.case = lambda: f'd = {d!r}\nprint(AngleDeg.cos_deg(d), AngleDeg.sin_deg(d), AngleDeg.tan_deg(d), AngleDeg(d).cos(), AngleDeg(d).sin(), AngleDeg(d).tan())'
    a = AngleDeg(d)
    for name, got, want in (('cos_deg', AngleDeg.cos_deg(d), c), ('sin_deg', AngleDeg.sin_deg(d), s), ('cos', a.cos(), c), ('sin', a.sin(), s)):
        if abs(got - want) > T:
            ctx.fail(f'{name} of {d!r} is {got!r}, expected {want!r}')
    if abs(c) > 1e-9:
        t = s / c
        for name, got in (('tan_deg', AngleDeg.tan_deg(d)), ('tan', a.tan())):
            if abs(got - t) > 1e-10 * (1 + t * t):
                ctx.fail(f'{name} of {d!r} is {got!r}, expected {t!r}')
    if not close(AngleDeg.deg2rad(d), d * math.pi / 180, d) or not close(AngleDeg.rad2deg(d), d * 180 / math.pi, d * 60):
        ctx.fail(f'deg2rad/rad2deg of {d!r}')
    ctx.states += 1
    ctx.transitions += 8
    ctx.outcome('trig')


def inv(ctx, x):
    ctx.case = lambda: f'print(AngleDeg.acos_deg({x!r}), AngleDeg.asin_deg({x!r}), AngleDeg.atan_deg({x!r}))'
    cl = min(1.0, max(-1.0, x))
    for name, got, want in (('acos_deg', AngleDeg.acos_deg(x), math.degrees(math.acos(cl))), ('asin_deg', AngleDeg.asin_deg(x), math.degrees(math.asin(cl))),
                            ('atan_deg', AngleDeg.atan_deg(x), math.degrees(math.atan(x)))):
        if abs(got - want) > 1e-9:
            ctx.fail(f'{name}({x!r}) = {got!r}, expected {want!r}')
    ctx.states += 1
    ctx.transitions += 3
    ctx.outcome('inverse')


def direction(ctx, x, y):
    ctx.case = lambda: f'v = Vector2D({x!r}, {y!r}); print(AngleDeg.atan2_deg({y!r}, {x!r}), v.th(), v.dir(), v.r())'
    v = Vector2D(x, y)
    want = math.degrees(math.atan2(y, x)) if (abs(x) > 0 or abs(y) > 0) else 0.0
    for name, got in (('atan2_deg', AngleDeg.atan2_deg(y, x)), ('th', v.th().degree()), ('dir', v.dir().degree())):
        if angle_gap(got, want) > 1e-9 or abs(got) > 180.0 + 1e-12 or ((x == 0 and y == 0) and got != 0):
            ctx.fail(f'{name} of ({x!r},{y!r}) = {got!r}, expected {want!r}')
    r = math.hypot(x, y)
    if not close(v.r(), r, r) or not close(v.length(), r, r):
        ctx.fail(f'length of ({x!r},{y!r}) = {v.r()!r}, expected {r!r}')
    ctx.states += 1
    ctx.transitions += 4
    ctx.outcome('direction')


def vec_close(v, x, y, scale):
    return abs(v.x() - x) <= 1e-10 * (1e-3 + scale) and abs(v.y() - y) <= 1e-10 * (1e-3 + scale)


def polar(ctx, r, d):
    c, s = cs(d)
    ctx.case = lambda: (f'print(Vector2D(r={r!r}, a={d!r}), Vector2D.from_polar({r!r}, {d!r}), Vector2D.polar2vector({r!r}, AngleDeg({d!r})))\n'
                        f'v = Vector2D(5, -7); v.set_polar({r!r}, {d!r}); print(v)')
    v1 = Vector2D(5, -7)
    v1.set_polar(r, d)
    v2 = Vector2D(-0.5, 3)
    v2.set_polar(r, AngleDeg(d))
    for name, v in (('set_polar', v1), ('set_polar(AngleDeg)', v2), ('Vector2D(r,a)', Vector2D(r=r, a=d)), ('Vector2D(r,AngleDeg)', Vector2D(r=r, a=AngleDeg(d))),
                    ('from_polar', Vector2D.from_polar(r, d)), ('from_polar(AngleDeg)', Vector2D.from_polar(r, AngleDeg(d))),
                    ('polar2vector', Vector2D.polar2vector(r, d)), ('polar2vector(AngleDeg)', Vector2D.polar2vector(r, AngleDeg(d)))):
        if not vec_close(v, r * c, r * s, abs(r)) or not v.is_valid():
            ctx.fail(f'{name} of ({r!r}, {d!r}) = {v!r}, expected ({r * c!r},{r * s!r})')
    ctx.states += 1
    ctx.transitions += 8
    ctx.outcome('polar')


def turn(ctx, x, y, d):
    c, s = cs(d)
    ctx.case = lambda: (f'v = Vector2D({x!r}, {y!r}); v.rotate({d!r}); print(v, Vector2D({x!r}, {y!r}).rotated_vector(AngleDeg({d!r})))\n'
                        f'w = Vector2D({x!r}, {y!r}); w.set_dir({d!r}); print(w)')
    R = math.hypot(x, y)
    ex, ey = x * c - y * s, x * s + y * c
    v = Vector2D(x, y)
    ret = v.rotate(d)
    v2 = Vector2D(x, y)
    v2.rotate(AngleDeg(d))
    src = Vector2D(x, y)
    v3, v4 = src.rotated_vector(d), src.rotated_vector(AngleDeg(d))
    if src.x() != x or src.y() != y:
        ctx.fail(f'rotated_vector changed its receiver to {src!r}')
    for name, w in (('rotate', v), ('rotate result', ret), ('rotate(AngleDeg)', v2), ('rotated_vector', v3), ('rotated_vector(AngleDeg)', v4)):
        if not vec_close(w, ex, ey, R):
            ctx.fail(f'{name} of ({x!r},{y!r}) by {d!r} = {w!r}, expected ({ex!r},{ey!r})')
    if R > 1e-5:
        if angle_gap(v.th().degree(), math.degrees(math.atan2(y, x)) + d) > 1e-7:
            ctx.fail(f'direction after rotating ({x!r},{y!r}) by {d!r} is {v.th()!r}')
    u1, u2 = Vector2D(x, y), Vector2D(x, y)
    u1.set_dir(d)
    u2.set_dir(AngleDeg(d))
    for name, w in (('set_dir', u1), ('set_dir(AngleDeg)', u2)):
        if not vec_close(w, R * c, R * s, R):
            ctx.fail(f'{name} of ({x!r},{y!r}) to {d!r} = {w!r}, expected ({R * c!r},{R * s!r})')
    ctx.states += 1
    ctx.transitions += 8
    ctx.outcome('turn')


VECS = [(x, y) for x in (-3, 0, 1, 2.5) for y in (-2, 0, 1, 4.25)] + [(x, y) for x in range(-3, 4) for y in range(-3, 4)] + [(1e-3, 0), (-52.5, 34), (0, -1e-2), (100, 100), (-0.0, 5.0), (1000.5, -2000.25), (1e-7, 2e-7), (0.125, 0), (3e-5, -4e-5), (0.0, 2e-4)]
DIRS = [1.25 * k for k in range(-144, 145)] + [360, -360, 375.0, 540.0, -541.25, 719, -720, 1000.5, 4000] + [45 * k for k in range(-28, 29) if abs(k) > 4] + [q * m for q in (3690, 3780, 3870, 36090, 36225) for m in (1, -1)]


A_OPS = [(s, compile(s, '<op>', 'exec')) for s in (
    'a.set_degree(75)', 'a.set_angle(AngleDeg(-130))', 'a.set_angle(a)', 'a.reverse()', 'a.normal()', 'a += 50', 'a += AngleDeg(33)', 'a += a', 'a -= 170', 'a -= AngleDeg(-20)', 'a *= -1', 'a *= 3', 'a /= 2', 'a = -a', 'a = a + 90', 'a = a - AngleDeg(300)', 'a = a.copy()',
    'a = a.reverse_angle()', 'a.set_degree(-a.degree())', 'a.set_degree(180 - a.degree())', 'a = AngleDeg(a)')]
V_OPS = [(s, compile(s, '<op>', 'exec')) for s in (
    'v.assign(v.y(), v.x())', 'v.set_x(-v.x())', 'v.set_y(-v.y())', 'v.set_x_y(v.y(), v.x())', 'v.set_vector(Vector2D(-v.y(), v.x()))', 'v.set_polar(v.r(), 77)', 'v.add(1, 2)', 'v.add(Vector2D(-3, 1.5))', 'v.add_x(2)', 'v.add_y(-1)', 'v.sub(2, -1)',
    'v.sub(Vector2D(1, 4))', 'v.sub_x(7)', 'v.sub_y(7)', 'v.scale(-2)', 'v.reverse()', 'v.set_length(3)', 'v.normalize()', 'v.rotate(90)', 'v.rotate(AngleDeg(-33))', 'v.set_dir(140)', 'v.set_dir(AngleDeg(-90))', 'v += Vector2D(1, 1)', 'v -= Vector2D(2, -6)',
    'v *= -1', 'v *= 0.5', 'v /= -3', 'v.validate()', 'v.add(v)', 'v.sub_x(2 * v.x())', 'v = v.copy()', 'v = v.rotated_vector(180)')]


def read_angle(ctx, a, hist):
    d = a.degree()
    c, s = cs(d)
    v = Vector2D(3, 4)
    v.set_polar(2, a)
    w = Vector2D(1, 2)
    w.rotate(a)
    u = Vector2D(-3, 4).rotated_vector(a)
    z = Vector2D(0, 5)
    z.set_dir(a)
    x = Vector2D(r=4, a=a)
    for name, got, want in (('cos', a.cos(), c), ('sin', a.sin(), s), ('radian', a.radian(), math.radians(d)), ('tan', a.tan() * c, s),
                            ('set_polar(2, a).x', v.x(), 2 * c), ('set_polar(2, a).y', v.y(), 2 * s), ('(1,2).rotate(a).x', w.x(), c - 2 * s), ('(1,2).rotate(a).y', w.y(), s + 2 * c),
                            ('(-3,4).rotated_vector(a).x', u.x(), -3 * c - 4 * s), ('(-3,4).rotated_vector(a).y', u.y(), -3 * s + 4 * c), ('(0,5).set_dir(a).x', z.x(), 5 * c), ('(0,5).set_dir(a).y', z.y(), 5 * s),
                            ('Vector2D(r=4, a=a).x', x.x(), 4 * c), ('Vector2D(r=4, a=a).y', x.y(), 4 * s)):
        if name == 'tan' and abs(c) < 1e-9:
            continue
        if abs(got - want) > 1e-9:
            ctx.fail(f'after {hist()} the angle is {d!r}, {name} is {got!r}, expected {want!r}')
    ctx.transitions += 14


def read_vector(ctx, v, hist):
    x, y = v.x(), v.y()
    r = math.hypot(x, y)
    w = v.rotated_vector(30)
    c, s = cs(30)
    if not vec_close(w, x * c - y * s, x * s + y * c, r):
        ctx.fail(f'after {hist()} the vector is ({x!r},{y!r}), rotated by 30 it is {w!r}')
    if not close(v.r(), r, r) or not close(v.length(), r, r) or not close(v.r2(), r * r, r * r) or not close(v.length2(), r * r, r * r):
        ctx.fail(f'after {hist()} the vector is ({x!r},{y!r}), its length {v.r()!r} and {v.length()!r}, squared {v.r2()!r} and {v.length2()!r}')
    if r > 1e-5 or r == 0:
        want = math.degrees(math.atan2(y, x)) if r else 0
        for name, got in (('th', v.th().degree()), ('dir', v.dir().degree())):
            if angle_gap(got, want) > 1e-8:
                ctx.fail(f'after {hist()} the vector is ({x!r},{y!r}), {name} is {got!r}, expected {want!r}')
    ctx.transitions += 7


def histories(ctx, i, n):
    """every object read before, between and after (or only after) two mutators"""
    env = dict(AngleDeg=AngleDeg, Vector2D=Vector2D)
    for name, ops, reader, starts in (('a', A_OPS, read_angle, ['AngleDeg(%s)' % d for d in (0, 30, -120.5, 180, 90, 45.0, -90, 15)]),
                                      ('v', V_OPS, read_vector, ['Vector2D(%s)' % d for d in ('3, 4', '-5, 12', '0, 2', '-1.5, -2.5', '0, 0', 'r=5, a=160')])):
        longest = [ops[k] for k in debruijn(len(ops))] if i == 0 else []
        for src in starts:
            for seq in [(o, p) for o in ops[i::n] for p in ops] + [longest]:
                for between in (True, False):
                    done = []
                    ctx.case = lambda: '\n'.join([f'{name} = {src}'] + [d + ('; read()' if between else '') for d in done])
                    hist = lambda: '; '.join([f'{name} = {src}'] + done[-30:]) + (' with readings between' if between else '')
                    env[name] = eval(src, env)
                    reader(ctx, env[name], hist)
                    for s, c in seq:
                        exec(c, env)
                        done.append(s)
                        if between:
                            reader(ctx, env[name], hist)
                        if len(done) > 2 and name == 'v' and env[name].r() > 1e3:
                            env[name].set_length(2)
                            done.append('v.set_length(2)')
                    reader(ctx, env[name], hist)
                    ctx.traces += 1
                    ctx.states += 1
            ctx.outcome('history of ' + ('an angle' if name == 'a' else 'a vector'))
    ctx.sample(ctx.case)


def shards(tier):
    n = 8
    out = [('trig', i, n) for i in range(n)] + [('inv', 0, 1), ('dir', 0, 1)] + [('polar', i, 4) for i in range(4)] + [('turn', i, 8) for i in range(8)] + [('comp', i, 8) for i in range(8)] + [('hist', i, 8) for i in range(8)]
    if tier == 'thorough':
        out += [('turn4', i, 16) for i in range(16)]
    return out


def extra_vecs():
    out = []
    for c in mine.near(1e-3, 1e5, 8):
        out += [(c, 0.0), (0.0, -c), (c * 0.6, c * 0.9), (-c * 1.25, c * 0.25), (c / 2, -c / 2)]
    return out


def run(shard, ctx):
    k, i, n = shard
    if k == 'hist':
        return histories(ctx, i, n)
    if k == 'trig':
        for d in angles()[i::n]:
            trig(ctx, d)
        for d in (1e5 + 0.25, -1e5, 3e6) if i == 0 else ():
            c, s = cs(d)
            ctx.case = f'print(AngleDeg({d!r}).cos(), AngleDeg({d!r}).sin())'
            if abs(AngleDeg(d).cos() - c) > 1e-9 or abs(AngleDeg(d).sin() - s) > 1e-9:
                ctx.fail(f'cos/sin of AngleDeg({d!r})')
        ctx.traces += 1
        ctx.sample(f'cos/sin/tan of {d}')
    elif k == 'inv':
        for q in range(-256, 257):
            inv(ctx, q / 128)
        for x in (1.0, -1.0, 1, -1, 0, 1 + 1e-15, -1 - 1e-15, math.nextafter(1, 0), math.nextafter(-1, 0), 2, -2, 1e9, -1e9, 1e-12):
            inv(ctx, x)
        for c in mine.near(1e-6, 1e6, 12):
            for x in (c, -c, 1 - c, c - 1, c * 0.9, c * 1.1, -c * 1.1):
                inv(ctx, x)
        ctx.traces += 1
    elif k == 'dir':
        for m in (1, 0.01, 17.25, 300, 1e4, 1e-5, 2e-6, 2e-4):
            for a in range(-12, 13):
                for b in range(-12, 13):
                    direction(ctx, a * m, b * m)
        for x, y in VECS + extra_vecs():
            if abs(x) > 2e-6 or abs(y) > 2e-6 or (x == 0 and y == 0):
                direction(ctx, x, y)
                direction(ctx, -x, y)
                direction(ctx, y, x)
        for z in ((0.0, 0.0), (-0.0, 0.0), (0, -0.0), (-0.0, -0.0), (0, 0)):
            direction(ctx, *z)
        ctx.traces += 1
        ctx.sample('direction and length of 25x25 signed coordinates at 8 magnitudes')
    elif k == 'polar':
        rs = [0, 1, 0.5, 2, 10.25, 1e-3, 2e-5, 1000, -1, -7.5] + [v for c in mine.near(1e-3, 1e5, 6) for v in (c * 0.75, c, c * 1.5)]
        for r in rs:
            for d in DIRS[i::n]:
                polar(ctx, r, d)
        for c in mine.near(1e-3, 1e4, 6):
            for d in (c, -c, c + 1, c - 1):
                polar(ctx, 2, d)
        ctx.traces += 1
        ctx.sample(f'polar ({r}, {d}) by all eight constructions')
    elif k == 'turn4':
        for q in range(-1440 + i, 1441, n):
            for x, y in VECS:
                turn(ctx, x, y, q / 4)
            for r in (0, 1, 0.5, 2, 10.25, 1e-3, 1000, -1, -7.5):
                polar(ctx, r, q / 4)
        ctx.traces += 1
    elif k == 'turn':
        for d in DIRS[i::n]:
            for x, y in VECS + extra_vecs():
                turn(ctx, x, y, d)
        for c in mine.near(1e-3, 1e4, 6):
            for d in (c, -c, c + 1, c - 1):
                for x, y in VECS[:6]:
                    turn(ctx, x, y, d)
        ctx.traces += 1
        ctx.sample(f'rotate/redirect ({x},{y}) by {d}')
    else:
        rots = [15 * k for k in range(-12, 13)] + [0.25, 400, -370.5]
        for p, d1 in enumerate(rots):
            if p % n != i:
                continue
            for d2 in rots:
                for x, y in VECS[:20]:
                    ctx.case = lambda: f'v = Vector2D({x!r}, {y!r}); v.rotate({d1!r}); v.rotate({d2!r}); print(v, Vector2D({x!r}, {y!r}).rotated_vector({d1 + d2!r}))'
                    v = Vector2D(x, y)
                    v.rotate(d1)
                    v.rotate(AngleDeg(d2))
                    w = Vector2D(x, y).rotated_vector(d1 + d2)
                    R = math.hypot(x, y)
                    if not vec_close(v, w.x(), w.y(), R) or not close(v.r(), R, R):
                        ctx.fail(f'rotating ({x},{y}) by {d1} then {d2} gives {v!r}, by the sum {w!r}')
                    ctx.transitions += 3
                    ctx.traces += 1
        ctx.sample(f'rotations {d1} then {d2}')
