"""C30: equality is by value."""
import itertools
from mc import mine
from mc.probes import ENV

TITLE = 'Equality compares current values, in every class that defines it'
BOUNDS = ('vectors, angles, segments, rays, sizes, sectors and matrices: families of a base value, every change of one defining number by 1, 0.5, 2^-12, 3e-6, 9e-7, 3e-7 and 0, every change of a sign, every exchange of two numbers, every pair of changes by 2^-12, '
          'in 4 magnitudes, written with integers or floats, each built in every available way (constructor, copy, assignment over another value); all ordered pairs of a family, with ==, !=, the weak form and (vectors) hash, set and dictionary lookup')
ASSUMPTIONS = ['tolerant equality is not decided for differences in (0.95e-6, 1.05e-6)', 'shapes without an equality of their own (circles, triangles, rectangles, polygons, hulls) compare by identity and are not explored']

# class: (base numbers, expression, other ways to build, strict?, circular positions, sign conditions)
B = {
    'Vector2D': [(3.0, -1.0), (-1.0, -2.0), (-52.5, 34.0), (0.25, 1024.0), (2048.0, -4096.0)],
    'AngleDeg': [(30.0,), (180.0,), (-135.0,), (-179.75,)],
    'Segment2D': [(-4.0, -3.0, 5.0, 3.5), (0.0, 0.0, 2.0, 2.0), (-52.5, 34.0, 52.5, -34.0), (-2048.0, 1024.0, 4096.0, -3000.0)],
    'Ray2D': [(-4.0, 0.5, 5.0), (0.0, 0.0, 180.0), (-52.5, 34.0, -90.0), (2048.0, -1024.0, 37.0)],
    'Size2D': [(4.0, 3.0), (105.0, 68.0), (0.5, 512.0), (3000.0, 2048.0)],
    'Sector2D': [(0.5, 0.25, 1.0, 4.0, -40.0, 80.0), (-2.0, 3.0, 0.5, 9.0, 180.0, -90.0), (-52.5, 34.0, 2.0, 16.5, 0.0, 0.0), (2048.0, -1024.0, 100.0, 3000.0, 12.0, -160.0)],
    'Matrix2D': [(1.0, 2.0, -1.0, 3.0, 5.0, -4.0), (0.0, 0.0, 0.0, 0.0, 0.0, 0.0), (16.0, 0.5, 0.25, -8.0, 100.0, 200.0), (2048.0, -1024.0, 3000.0, 4096.0, -2048.0, 5000.0)],
}
WAYS = {
    'Vector2D': ['Vector2D({0!r}, {1!r})', 'Vector2D(x={0!r}, y={1!r})', 'Vector2D({0!r}, {1!r}).copy()', 'Vector2D(Vector2D({0!r}, {1!r}))', 'put(Vector2D(7, 7), "set_x_y", {0!r}, {1!r})', 'put(hashed(Vector2D(7, 7)), "assign", {0!r}, {1!r})'],
    'AngleDeg': ['AngleDeg({0!r})', 'AngleDeg({0!r} + 360.0)', 'AngleDeg({0!r}).copy()', 'put(AngleDeg(7), "set_degree", {0!r})', 'AngleDeg(AngleDeg({0!r} - 720))'],
    'Segment2D': ['Segment2D({0!r}, {1!r}, {2!r}, {3!r})', 'Segment2D(Vector2D({0!r}, {1!r}), Vector2D({2!r}, {3!r}))', 'Segment2D({0!r}, {1!r}, {2!r}, {3!r}).copy()', 'Segment2D({2!r}, {3!r}, {0!r}, {1!r}).reversed_segment()', 'put(Segment2D(7, 7, 8, 8), "assign", {0!r}, {1!r}, {2!r}, {3!r})'],
    'Ray2D': ['Ray2D(Vector2D({0!r}, {1!r}), AngleDeg({2!r}))', 'Ray2D(Vector2D({0!r}, {1!r}), {2!r} - 360)', 'Ray2D(Vector2D({0!r}, {1!r}), {2!r}).copy()'],
    'Size2D': ['Size2D({0!r}, {1!r})', 'Size2D(-{0!r}, -({1!r}))', 'put(Size2D(7, 7), "assign", {0!r}, {1!r})', 'put(put(Size2D(7, 7), "set_length", {0!r}), "set_width", {1!r})'],
    'Sector2D': ['Sector2D(Vector2D({0!r}, {1!r}), {2!r}, {3!r}, AngleDeg({4!r}), AngleDeg({5!r}))', 'Sector2D(Vector2D({0!r}, {1!r}), {2!r}, {3!r}, {4!r}, {5!r})', 'put(Sector2D(Vector2D(7, 7), 1, 2, 3, 4), "assign", Vector2D({0!r}, {1!r}), {2!r}, {3!r}, {4!r}, {5!r})'],
    'Matrix2D': ['Matrix2D({0!r}, {1!r}, {2!r}, {3!r}, {4!r}, {5!r})', 'put(Matrix2D(), "assign", {0!r}, {1!r}, {2!r}, {3!r}, {4!r}, {5!r})', 'Matrix2D() * Matrix2D({0!r}, {1!r}, {2!r}, {3!r}, {4!r}, {5!r})'],
}
ANG = {'AngleDeg': (0,), 'Ray2D': (2,), 'Sector2D': (4, 5)}
EXACT = {'Vector2D': (0, 1), 'Segment2D': (0, 1, 2, 3), 'Ray2D': (0, 1), 'Matrix2D': (0, 1, 2, 3, 4, 5)}
WEAK = ('Vector2D', 'Segment2D')
DELTA = (1.0, 0.5, 2.0 ** -12, 3e-6, 9e-7, 3e-7, -3e-7, -9e-7, -1.2e-6, -2.0 ** -12, -0.5, -1.0)


def put(o, name, *args):
    getattr(o, name)(*args)
    return o


def hashed(o):
    hash(o)
    return o


E = dict(ENV, put=put, hashed=hashed)


def gap(cls, i, x, y):
    if i in ANG.get(cls, ()):
        t = (x - y) % 360.0
        return min(t, 360.0 - t)
    return abs(x - y)


def expect(cls, a, b, weak=False):
    """True / False / None (not decided)"""
    out = True
    for i, (x, y) in enumerate(zip(a, b)):
        if i in EXACT.get(cls, ()) and not weak:
            if x != y:
                return False
        else:
            g = gap(cls, i, x, y)
            if g >= 1.05e-6:
                return False
            if g > 0.95e-6:
                out = None
    return out


def family(base):
    out = [tuple(base)]
    for i in range(len(base)):
        for d in DELTA:
            t = list(base)
            t[i] += d
            out.append(tuple(t))
        out.append(tuple(-x if j == i else x for j, x in enumerate(base)))
    for i, j in itertools.combinations(range(len(base)), 2):
        t = list(base)
        t[i], t[j] = t[j], t[i]
        out.append(tuple(t))
        for d, e in ((2.0 ** -12, 2.0 ** -12), (2.0 ** -12, -2.0 ** -12), (3e-7, -3e-7), (9e-7, 9e-7), (-9e-7, 9e-7), (0.5, -0.5), (0.5, 0.5)):
            t = list(base)
            t[i] += d
            t[j] += e
            out.append(tuple(t))
    if all(float(x).is_integer() for x in base):
        out.append(tuple(int(x) for x in base))
    out.append(tuple(-0.0 if x == 0 else x for x in base))
    seen, res = set(), []
    for t in out:
        k = repr(t)
        if k not in seen:
            seen.add(k)
            res.append(t)
    return res


def bases(cls):
    out = list(B[cls])
    for c in mine.near(1e-3, 500.0, cap=3):
        c = mine.dyadic(c)
        out.append(tuple(c * (1 + i) if i not in ANG.get(cls, ()) else (c * (1 + i)) % 180 for i in range(len(out[0]))))
    return out


def legal(cls, t):
    if cls == 'Sector2D':
        return 0 <= t[2] <= t[3]
    if cls == 'Size2D':
        return t[0] >= 0 and t[1] >= 0
    return True


def shards(tier):
    return [(cls, k, w) for cls in B for k in range(len(bases(cls))) for w in range(len(WAYS[cls]))]


def run(shard, ctx):
    cls, k, w = shard
    fam = [t for t in family(bases(cls)[k]) if legal(cls, t)]
    way = WAYS[cls][w]
    left = [(t, eval(way.format(*t), dict(E))) for t in fam]
    right = [(t, eval(WAYS[cls][0].format(*t), dict(E))) for t in fam]
    sample = None
    for t, a in left:
        ctx.states += 1
        for u, b in right:
            ctx.case = lambda: (f'def put(o, name, *args): getattr(o, name)(*args); return o\ndef hashed(o): hash(o); return o\n'
                                f'a = {way.format(*t)}; b = {WAYS[cls][0].format(*u)}\nprint(a == b, b == a, a != b)')
            want = expect(cls, t, u)
            if want is None:
                continue
            got = (a == b, b == a, not (a != b), not (b != a))
            if any(bool(g) is not want for g in got):
                ctx.fail(f'{cls} {t} and {u}: ==, reversed, not !=, reversed are {got}, expected {want}')
            if cls == 'Vector2D':
                if want and hash(a) != hash(b):
                    ctx.fail(f'equal vectors {t} and {u} have different hashes')
                if (a in {b}) is not want or (b in {a: 1}) is not want or (a in [b]) is not want or a.equals(b) is not want:
                    ctx.fail(f'{t} in a set, dictionary or list with {u}, or equals(): expected {want}')
            if cls in WEAK:
                ww = expect(cls, t, u, weak=True)
                if ww is not None and (bool(a.equals_weakly(b)), bool(b.equals_weakly(a))) != (ww, ww):
                    ctx.fail(f'{cls} {t} and {u}: equals_weakly {a.equals_weakly(b)}, {b.equals_weakly(a)}, expected {ww}')
            ctx.transitions += 4
            ctx.traces += 1
            ctx.outcome(f'{cls}: {"equal" if want else "different"}')
        if not (a == a) or a != a:
            ctx.fail(f'{cls} {t} is not equal to itself')
        sample = sample or f'{way.format(*t)} against {len(right)} {cls} values'
    ctx.sample(sample)
