"""C02: comparisons, containment, equality and bisector follow the circular order of directions."""
import itertools
from pyrusgeom.angle_deg import AngleDeg
from mc import mine

TITLE = 'Left/right/within/equal/bisect follow the circular order of directions'
BOUNDS = ('all ordered pairs of integer degrees in [-180,180] (both representations of 180), of 7.5-degree directions with 2^-20 offsets and of plain '
          'numbers up to +-3 turns; all triples of 15-degree (thorough 6-degree) directions and of offset directions for containment')
ASSUMPTIONS = ['angles between the lattice directions are not explored', 'equality is not decided for differences in [0.5e-6, 2e-6]']
E20 = 2.0 ** -20


def wrap(v):
    return v % 360.0


def rep(v, form):
    """the same direction written in one of several ways"""
    if form == 0:
        return AngleDeg(v)
    if form == 1:
        return v
    if form == 2:
        return v + 360
    if form == 3:
        return v - 720
    if form == 4:
        return AngleDeg(v + 1080)
    if form == 5:
        return v + 1080
    if form == 6:
        return v - 360
    return v + 720.0


def rep_src(v, form):
    return [f'AngleDeg({v!r})', f'{v!r}', f'{v + 360!r}', f'{v - 720!r}', f'AngleDeg({v + 1080!r})', f'{v + 1080!r}', f'{v - 360!r}', f'{v + 720.0!r}'][form]


def pair(ctx, a, b, form):
    A, B = AngleDeg(a), rep(b, form)
    ctx.case = lambda: (f'A = AngleDeg({a!r}); B = {rep_src(b, form)}\nprint(A.is_left_of(B), A.is_right_of(B), A.is_left_equal_of(B), '
                        f'A.is_right_equal_of(B), A == B, AngleDeg.bisect(A, B))')
    t = wrap(b - a)            # turn from A to B by increasing degrees, [0, 360)
    left, right, same = 0 < t < 180, 180 < t < 360, t == 0
    got = (A.is_left_of(B), A.is_right_of(B), A.is_left_equal_of(B), A.is_right_equal_of(B))
    want = (left, right, left or same, right or same)
    if got != want:
        ctx.fail(f'({a!r}, {rep_src(b, form)}): left/right/left-or-equal/right-or-equal = {got}, expected {want}')
    gap = min(t, 360 - t)
    if gap < 0.5e-6 or gap > 2e-6:
        eq = gap < 1e-6
        if (A == B) != eq or (A != B) == eq:
            ctx.fail(f'AngleDeg({a!r}) == {rep_src(b, form)} is {A == B}, expected {eq}')
    # bisector of (left=a, right=b): middle of the turn from b to a by increasing degrees
    turn = wrap(a - b)
    if turn == 0:
        turn = 360.0
    mid = wrap(b + turn / 2)
    for L in (A, rep(a, form)):
        m = AngleDeg.bisect(L, B)
        d = AngleDeg(m).degree() if not isinstance(m, AngleDeg) else m.degree()
        e = wrap(d - mid)
        if not -180 <= d <= 180 or min(e, 360 - e) > 1e-9:
            ctx.fail(f'bisect({a!r}, {rep_src(b, form)}) = {d!r}, expected direction {mid!r}')
    if A.degree() % 360 != a % 360 or (isinstance(B, AngleDeg) and B.degree() % 360 != b % 360):
        ctx.fail(f'operands changed: {A.degree()!r}, {B!r}')
    ctx.states += 1
    ctx.transitions += 7
    ctx.outcome('left' if left else 'right' if right else 'same' if same else 'opposite')


def triple(ctx, a, l, r, fl, fr):
    A, L, R = AngleDeg(a), rep(l, fl), rep(r, fr)
    ctx.case = lambda: f'print(AngleDeg({a!r}).is_within({rep_src(l, fl)}, {rep_src(r, fr)}))'
    want = wrap(a - l) <= wrap(r - l)
    got = A.is_within(L, R)
    if got != want:
        ctx.fail(f'AngleDeg({a!r}).is_within({rep_src(l, fl)}, {rep_src(r, fr)}) = {got}, expected {want}')
    ctx.traces += 1
    ctx.transitions += 1
    ctx.outcome('within' if want else 'outside')


def offsets():
    out = []
    for k in range(-48, 49):
        b = 7.5 * k
        if abs(b) <= 180:
            out += [b]
            if b % 45 == 0:
                out += [v for v in (b - E20, b + E20, b - 2 * E20) if abs(v) <= 180]
    for c in mine.near(1e-3, 720, 8):
        d = mine.dyadic(c, 12)
        out += [((v + 180) % 360) - 180 for v in (d, -d, 180 - d, d + 0.25, d - 0.25)]
    return sorted(set(out))


def dirs3(step):
    return [float(v) for v in range(-180, 181, step)]


def shards(tier):
    out = [('int', i, 8) for i in range(8)]
    out += [('off', i, 4) for i in range(4)]
    step = 15 if tier != 'thorough' else 6
    out += [('tri', step, i, 8) for i in range(8)] + [('trioff', i, 4) for i in range(4)] + [('alias', 0, 1)]
    if tier == 'thorough':
        out += [('q', i, 32) for i in range(32)]
    if tier == 'smoke':
        out = [o for o in out if o[0] != 'int'] + [('int', 0, 8)]
    return out


def run(shard, ctx):
    k = shard[0]
    if k == 'int':
        _, i, n = shard
        for a in range(-180 + i, 181, n):
            for b in range(-180, 181):
                for f in ((0, 1, 5 + (a + b) % 3) if b % 3 else range(8)):
                    pair(ctx, float(a) if (a // 2 + b) % 2 else a, float(b) if b % 2 else b, f)
        ctx.sample(f'all pairs ({a}, -180..180) in up to 8 notations')
    elif k == 'q':
        _, i, n = shard
        for a in range(-720 + i, 721, n):
            for b in range(-720, 721):
                pair(ctx, a / 4, b / 4, (a + b) % 8)
    elif k == 'off':
        _, i, n = shard
        ds = offsets()
        for a in ds[i::n]:
            for b in ds:
                for f in range(8):
                    pair(ctx, a, b, f)
        for a in ds[i::n]:
            for e in (0.25e-6, -0.25e-6, 0.45e-6, 3e-6, -3e-6, 1e-4):
                A, B = AngleDeg(a), AngleDeg(a + e)
                ctx.case = lambda: f'print(AngleDeg({a!r}) == AngleDeg({a + e!r}), AngleDeg({a!r}) == {a + e!r})'
                want = abs(e) < 1e-6
                if (A == B) != want or (A == a + e) != want or (B == A) != want:
                    ctx.fail(f'AngleDeg({a!r}) == AngleDeg({a + e!r}): {A == B}, {A == a + e}, {B == A}, expected {want}')
                ctx.transitions += 3
    elif k in ('tri', 'trioff'):
        if k == 'tri':
            _, step, i, n = shard
            ds = dirs3(step)
        else:
            _, i, n = shard
            ds = [-180.0, -180.0 + E20, -90.0, -45.0, -E20, 0.0, E20, 45.0, 90.0 - E20, 90.0, 90.0 + E20, 135.0, 180.0 - E20, 180.0]
            for c in mine.near(1e-3, 720, 4):
                d = mine.dyadic(c, 12)
                ds += [((v + 180) % 360) - 180 for v in (d, -d)]
        for j, (a, l, r) in enumerate(itertools.product(ds, repeat=3)):
            if j % n == i:
                if k == 'tri':
                    fs = ((0, 0), (1, 1), (j % 8, (j // 8) % 8))
                else:
                    fs = ((0, 0), (1, 0), (0, 1), (2, 3), (4, 1))
                for fl, fr in fs:
                    triple(ctx, a, l, r, fl, fr)
                ctx.states += 1
        ctx.sample(f'AngleDeg({a}).is_within({l}, {r})')
    else:
        for d in offsets():
            a = AngleDeg(d)
            ctx.case = lambda: f'a = AngleDeg({d!r}); print(a == a, a.is_left_of(a), a.is_within(a, a))'
            if not (a == a and a.is_left_equal_of(a) and a.is_right_equal_of(a) and a.is_within(a, a)) or a.is_left_of(a) or a.is_right_of(a):
                ctx.fail(f'AngleDeg({d!r}) compared with itself')
            if wrap(AngleDeg.bisect(a, a).degree() - d - 180) not in (0.0, 360.0):
                ctx.fail(f'bisect of {d!r} with itself is {AngleDeg.bisect(a, a)}')
            ctx.transitions += 7
            ctx.traces += 1
