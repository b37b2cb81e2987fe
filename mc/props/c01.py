"""C01: angles stay normalised and congruent to the exact result of the last operation."""
import math
import itertools
from fractions import Fraction as F
from pyrusgeom.angle_deg import AngleDeg
from mc import mine
from mc.lib import debruijn

TITLE = 'Angles stay normalised to [-180,180] and congruent to the exact result'
BOUNDS = ('angles that live through every ordered pair of operations (4 starts, two orders); fixpoint of all quarter-degree angles reachable from 0 under the operation alphabet (every state x every operation); '
          'all operation sequences to depth 3 (thorough 4) from 6 start values without state merging; constructors/setters/normaliser over '
          'all quarter degrees in +-2000 plus boundary neighbours, non-dyadic and large values')
ASSUMPTIONS = ['operands outside the lists are not explored', 'quotients off the quarter-degree lattice are checked but not expanded further',
               'rounding tolerance 1e-9 degree (relative 1e-15 for large operands)']

VALS = [0, 0.25, -0.25, 1, -1, 45, -60.5, 89.75, 90, -90, 135, 179.75, 180, -180, 180.25, -180.25, 270, -271, 359.75, 360, -360, 360.25, 540, -540,
        719.5, -720, 1000, -1000.25, 3600.25, -36000, 1000000.75]
MULS = [0, 1, -1, 2, -2, 3, 0.5, -0.25, 7, 10.5, -16, 100, -1000.5]
DIVS = [1, -1, 2, -4, 0.5, 0.25, 3, -7, 10, -0.75, 0.2, 0.125, -0.0625, 0.001953125, 100]


def congruent(got, want, tol):
    d = math.fmod(float(F(got) - F(want)) if isinstance(want, (int, float)) else float(F(got) - want), 360.0)
    return min(abs(d), 360.0 - abs(d)) <= tol


def check_reading(ctx, a, where):
    d = a.degree()
    if not -180.0 <= d <= 180.0:
        ctx.fail(f'{where}: degree {d!r} outside [-180, 180]')
    if a.degree_() != d:
        ctx.fail(f'{where}: degree_() {a.degree_()!r} != degree() {d!r}')
    if a.abs() != abs(d) or float(a) != d or repr(a) != str(d) or str(a) != str(d):
        ctx.fail(f'{where}: abs/float/text readings {a.abs()!r} {float(a)!r} {a!r} disagree with degree {d!r}')
    if abs(a.radian() - math.radians(d)) > 1e-12 or abs(a.get_normalized() - (d + 180) / 360) > 1e-12:
        ctx.fail(f'{where}: radian/unit readings {a.radian()!r} {a.get_normalized()!r} disagree with degree {d!r}')
    ctx.seen.add(d)
    return d


def tol(*vs):
    return 1e-9 + 1e-15 * sum(abs(v) for v in vs)


def expect(ctx, a, want, t, where):
    d = check_reading(ctx, a, where)
    if not congruent(d, want, t):
        ctx.fail(f'{where}: degree {d!r} is not congruent to the exact result {float(want)!r}')
    return d


def _extra():
    out = []
    for c in mine.near(1e-3, 1e6, 10):
        out += [c, -c, c + 0.25, -c - 0.25, c - 0.25]
    return out


def ops():
    """(label, source text, function(angle) -> (resulting object, exact result as Fraction of pre), in_place)"""
    vals = VALS + [v for v in _extra() if v * 4 == int(v * 4)]
    out = []
    for v in vals:
        out.append((f'a += {v!r}', 'iadd', v))
        out.append((f'a -= {v!r}', 'isub', v))
        out.append((f'a += AngleDeg({v!r})', 'iaddA', v))
        out.append((f'a -= AngleDeg({v!r})', 'isubA', v))
        out.append((f'a = a + {v!r}', 'add', v))
        out.append((f'a = a - {v!r}', 'sub', v))
        out.append((f'a = a + AngleDeg({v!r})', 'addA', v))
        out.append((f'a = a - AngleDeg({v!r})', 'subA', v))
    for k in MULS:
        out.append((f'a *= {k!r}', 'imul', k))
        out.append((f'a = a * {k!r}', 'mul', k))
    for k in DIVS:
        out.append((f'a /= {k!r}', 'idiv', k))
        out.append((f'a = a // {k!r}', 'fdiv', k))
    out += [('a = -a', 'neg', None), ('a.reverse()', 'reverse', None), ('a = a.reverse_angle()', 'reversed', None),
            ('a = a.copy()', 'copy', None), ('a = AngleDeg(a)', 'ctor', None), ('a += a', 'iaddself', None), ('a -= a', 'isubself', None),
            ('b = AngleDeg(17.5); b.set_angle(a); a = b', 'setangle', None)]
    for v in (0, 180, -180, 33.25, 725, -541):
        out.append((f'a.set_degree({v!r})', 'setdeg', v))
        out.append((f'a.set_angle(AngleDeg({v!r}))', 'setA', v))
    return out


def apply(ctx, a, kind, v, where):
    """apply one operation to the real object and check it; returns the resulting object"""
    pre = a.degree()
    P = F(pre)
    r, arg = a, None
    inplace = False
    if kind in ('iaddA', 'isubA', 'addA', 'subA', 'setA'):
        arg = AngleDeg(v)
        av = arg.degree()
        if not congruent(av, v, tol(v)):
            ctx.fail(f'{where}: AngleDeg({v!r}) reads {av!r}')
    if kind == 'iadd':
        r = a; r += v; want = P + F(v); inplace = True
    elif kind == 'isub':
        r = a; r -= v; want = P - F(v); inplace = True
    elif kind == 'iaddA':
        r = a; r += arg; want = P + F(av); inplace = True
    elif kind == 'isubA':
        r = a; r -= arg; want = P - F(av); inplace = True
    elif kind == 'add':
        r = a + v; want = P + F(v)
    elif kind == 'sub':
        r = a - v; want = P - F(v)
    elif kind == 'addA':
        r = a + arg; want = P + F(av)
    elif kind == 'subA':
        r = a - arg; want = P - F(av)
    elif kind == 'imul':
        r = a; r *= v; want = P * F(v); inplace = True
    elif kind == 'mul':
        r = a * v; want = P * F(v)
    elif kind == 'idiv':
        r = a; r /= v; want = P / F(v); inplace = True
    elif kind == 'fdiv':
        # documented as floor division, implemented as the quotient: either is accepted
        r = a // v; want = P / F(v)
        if isinstance(r, AngleDeg) and not congruent(r.degree(), want, 1e-9) and math.isfinite(r.degree()):
            want = F(math.floor(want))
    elif kind == 'neg':
        r = -a; want = -P
    elif kind == 'reverse':
        a.reverse(); want = P + 180; inplace = True
    elif kind == 'reversed':
        r = a.reverse_angle(); want = P + 180
    elif kind == 'copy':
        r = a.copy(); want = P
    elif kind == 'ctor':
        r = AngleDeg(a); want = P
    elif kind == 'iaddself':
        r = a; r += a; want = 2 * P; inplace = True
    elif kind == 'isubself':
        r = a; r -= a; want = F(0); inplace = True
    elif kind == 'setangle':
        r = AngleDeg(17.5); r.set_angle(a); want = P
    elif kind == 'setdeg':
        a.set_degree(v); want = F(v); inplace = True
    elif kind == 'setA':
        a.set_angle(arg); want = F(av); inplace = True
    t = (1e-12 if kind in ('copy', 'ctor', 'setangle') else 1e-11) + 1e-13 * abs(float(want))
    if not isinstance(r, AngleDeg):
        ctx.fail(f'{where}: result is {r!r}, not an angle')
    expect(ctx, r, want, t, where)
    if inplace:
        if r is not a:
            expect(ctx, a, want, t, where + ' (seen through the alias)')
    elif a is not r and a.degree() != pre:
        ctx.fail(f'{where}: the operand changed from {pre!r} to {a.degree()!r}')
    elif a is r:
        ctx.fail(f'{where}: the result is the operand itself, not a new angle')
    if arg is not None and arg.degree() != av:
        ctx.fail(f'{where}: the angle operand changed from {av!r} to {arg.degree()!r}')
    if arg is r and arg is not None:
        ctx.fail(f'{where}: the result is the argument object')
    return r


def shards(tier):
    out = [('fix', i, 8) for i in range(8)]
    starts = [0, 170, -180, 180, 10.25, -89.5]
    for s in starts:
        for i in range(2 if tier == 'quick' else 8):
            out.append(('seq', s, 3 if tier == 'quick' else 4, i, 2 if tier == 'quick' else 8))
    out += [('ctor', i, 6) for i in range(6)] + [('odd', 0, 1), ('long', 0, 1)]
    if tier == 'smoke':
        out = [o for o in out if o[0] != 'seq'] + [('seq', 170, 2, 0, 1)]
    return out


SEQ = ['a += 45', 'a -= 360.25', 'a += AngleDeg(179.75)', 'a *= -2', 'a *= 3', 'a /= 2', 'a /= -4', 'a.reverse()', 'a = -a', 'a = a + 270', 'a = a - AngleDeg(-60.5)',
       'a = a * 7', 'a = a.reverse_angle()', 'a = a.copy()', 'a.set_degree(725)', 'a += a', 'a = AngleDeg(a)', 'a.set_angle(AngleDeg(-180))', 'a -= 1', 'a = a + AngleDeg(180)']


def ctor_checks(ctx, v):
    ctx.case = lambda: f'v = {v!r}\nprint(AngleDeg(v).degree(), AngleDeg(af=v).degree(), AngleDeg.normalize_angle(v))'
    t = tol(v)
    d = expect(ctx, AngleDeg(v), v, t, f'AngleDeg({v!r})')
    expect(ctx, AngleDeg(af=v), v, t, f'AngleDeg(af={v!r})')
    expect(ctx, AngleDeg(AngleDeg(v)), d, t, f'AngleDeg(AngleDeg({v!r}))')
    a = AngleDeg(12.5)
    a.set_degree(v)
    expect(ctx, a, v, t, f'set_degree({v!r})')
    n = AngleDeg.normalize_angle(v)
    if not -180 <= n <= 180 or not congruent(n, v, t):
        ctx.fail(f'normalize_angle({v!r}) = {n!r}')
    ctx.transitions += 5
    ctx.traces += 1
    ctx.outcome('wrapped' if abs(v) > 180 else 'kept')


def run(shard, ctx):
    kind = shard[0]
    if kind == 'fix':
        # The fixpoint is the same for every worker; each worker expands the states of its residue class and
        # checks closure: all reachable lattice states are the 1441 quarter degrees, each expanded by exactly one worker.
        _, i, n = shard
        al = ops()
        ctx.transitions += 1
        for q in range(-720 + i, 721, n):
            start = q / 4
            for typed in ((start, int(start)) if start == int(start) else (start,)):
                for src, k, v in al:
                    ctx.case = lambda typed=typed, src=src: f'a = AngleDeg({typed!r})\n{src}\nprint(a.degree())'
                    a = AngleDeg(typed)
                    r = apply(ctx, a, k, v, f'AngleDeg({typed!r}) then {src}')
                    ctx.transitions += 1
                    if r.degree() * 4 == int(r.degree() * 4):
                        ctx.outcome('lattice successor')
                    else:
                        ctx.outcome('off-lattice leaf')
            ctx.traces += 1
        ctx.sample(lambda: f'state {start} expanded by {len(al)} operations')
    elif kind == 'seq':
        _, s, depth, i, n = shard
        table = {src: (k, v) for src, k, v in ops()}
        table.update({src: tuple(x) for src, x in {'a += 45': ('iadd', 45)}.items()})
        for no, seq in enumerate(itertools.product(SEQ, repeat=depth)):
            if no % n != i:
                continue
            ctx.case = lambda: f'a = AngleDeg({s!r})\n' + '\n'.join(seq) + '\nprint(a.degree())'
            a = AngleDeg(s)
            for j, src in enumerate(seq):
                k, v = table[src]
                a = apply(ctx, a, k, v, f'AngleDeg({s!r}); ' + '; '.join(seq[:j + 1]))
            ctx.transitions += depth
            ctx.traces += 1
        ctx.sample(lambda: text_seq(s, seq))
    elif kind == 'long':
        al = ops()
        for s in (0, 170, -180, 10.25):
            for seq in (debruijn(len(al)), debruijn(len(al))[::-1]):
                ctx.case = lambda: f'a = AngleDeg({s!r})\n' + '\n'.join(al[k][0] for k in seq[:no + 1]) + '\nprint(a.degree())'
                a = AngleDeg(s)
                for no, k in enumerate(seq):
                    a = apply(ctx, a, al[k][1], al[k][2], f'AngleDeg({s!r}) after {no} operations, then {al[k][0]}')
                    ctx.transitions += 1
                ctx.traces += 1
        ctx.sample(f'AngleDeg({s!r}) through {len(seq)} operations, every ordered pair of the {len(al)} operations consecutively')
    elif kind == 'ctor':
        _, i, n = shard
        for q in range(-8000 + i, 8001, n):
            ctor_checks(ctx, q / 4)
        for q in range(-2000 + i, 2001, n):
            ctor_checks(ctx, q)
        ctx.sample('AngleDeg(v), AngleDeg(af=v), set_degree(v), normalize_angle(v) for every quarter degree v in +-2000')
    else:
        for k in range(-12, 13):
            b = 180.0 * k
            for e in (1e-12, 1e-9, 1e-6, 2.0 ** -20, 1e-3):
                ctor_checks(ctx, b + e)
                ctor_checks(ctx, b - e)
            ctor_checks(ctx, math.nextafter(b, 1e9))
            ctor_checks(ctx, math.nextafter(b, -1e9))
        for i in range(-3000, 3001):
            for v in (i / 3, i * 0.1, i * 0.37, i * math.pi / 7):
                ctor_checks(ctx, v)
        for v in (1e4, 1e5 + 0.25, 123456.75, 1e6 + 0.5, 1e9, 2.0 ** 40 + 0.5, 36000, 36000.5, 7 * 360 + 180, 99 * 360 - 180.0, 10 ** 7, 2 ** 31, 2 ** 53 - 1):
            ctor_checks(ctx, v)
            ctor_checks(ctx, -v)
        ctor_checks(ctx, -0.0)
        al = ops()
        for b in (0.0, 45.0, -45.0, 90.0, -90.0, 135.0, 180.0, -180.0):
            for e in (1e-2, 1e-3, 5e-4, 1e-4, 1e-5, 2.0 ** -20, 1e-7):
                for s in (b + e, b - e):
                    for src, k, v in al:
                        ctx.case = lambda: f'a = AngleDeg({s!r})\n{src}\nprint(a.degree())'
                        apply(ctx, AngleDeg(s), k, v, f'AngleDeg({s!r}) then {src}')
                        ctx.transitions += 1
                    for src, k in ((f'a += {s!r}', 'iadd'), (f'a = a - {s!r}', 'sub'), (f'a = a + AngleDeg({s!r})', 'addA'), (f'a -= AngleDeg({s!r})', 'isubA')):
                        for w in VALS:
                            ctx.case = lambda: f'a = AngleDeg({w!r})\n{src}\nprint(a.degree())'
                            apply(ctx, AngleDeg(w), k, s, f'AngleDeg({w!r}); {src}')
                            ctx.transitions += 1
                ctx.traces += 1
        for v in _extra():
            for m in (1, 2, 3, 0.5):
                ctor_checks(ctx, v * m)
        if AngleDeg().degree() != 0:
            ctx.fail('AngleDeg() is not 0')
        for v in _extra():
            for w in VALS:
                for src, k, x in ((f'a += {v!r}', 'iadd', v), (f'a = a - {v!r}', 'sub', v), (f'a *= {v!r}', 'imul', v), (f'a = a + AngleDeg({v!r})', 'addA', v)):
                    ctx.case = lambda: f'a = AngleDeg({w!r})\n{src}\nprint(a.degree())'
                    apply(ctx, AngleDeg(w), k, x, f'AngleDeg({w!r}); {src}')
                    ctx.transitions += 1


def text_seq(s, seq):
    return f'AngleDeg({s!r}); ' + '; '.join(seq)
