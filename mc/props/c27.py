"""C27: soccer formulas, series, ranges and clamps."""
import itertools
import math
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom import soccer_math as sm
from mc import mine

TITLE = 'Soccer formulas, series, ranges and clamps match their definitions'
BOUNDS = ('full cartesian products of argument alphabets (with boundary values: 90 and 180 degrees, zero speeds, equal bounds, limits exactly reached): kick rate 3402, dash-direction rate 1792, turn 729, speeds 13230, '
          'series up to length 40, ordered clamps 1815, float ranges 1170 (and 90 of up to 700 values), wind 20160 tuples; new constants of the source extend every alphabet')
ASSUMPTIONS = ['decay and series ratio are not 1, the float-range step is not 0, weights and the kickable margin are not 0', 'results compared at 1e-9 relative; the over-speed test is not decided within 1e-9 of the limit']


def close(g, w, rel=1e-9):
    return abs(g - w) <= rel * (1 + abs(w))


def near(lo, hi, n=3):
    return [x for c in mine.near(lo, hi, n) for x in (c, c * 1.001, c * 0.999)]


def kick(ctx, part, n):
    A = dict(dist=[0.0, 0.085, 0.385, 0.5, 0.7, 1.085, 2.0] + near(0, 5), d=[-180, -90.5, -30, 0.0, 45, 90, 179.0, 180.0, 270] + near(0, 360), p=[0.027, 1.0, -0.5], b=[0.0, 0.085, 0.3], pl=[0.3, 0.0], m=[0.6, 1.0, 0.7])
    for j, (dist, d, p, b, pl, m) in enumerate(itertools.product(*A.values())):
        if j % n != part:
            continue
        ctx.case = lambda: f'print(kick_rate({dist!r}, {d!r}, {p!r}, {b!r}, {pl!r}, {m!r}))'
        g, w = sm.kick_rate(dist, d, p, b, pl, m), p * (1 - 0.25 * abs(d) / 180 - 0.25 * (dist - b - pl) / m)
        if not close(g, w):
            ctx.fail(f'kick_rate({dist}, {d}, {p}, {b}, {pl}, {m}) = {g!r}, expected {w!r}')
        ctx.transitions += 1
        ctx.outcome('kick rate')


def dash(ctx, part, n):
    ds = [s * x for x in [0.0, 1, 22.5, 45, 60.5, 89.99, 90, 90.01, 91, 120, 135.5, 150, 179, 180] + near(0, 180, 6) for s in (1, -1)]
    rates = [0.0, 0.2, 0.25, 0.4, 0.5, 0.6, 0.7, 1.0] + near(0, 1)
    for j, (d, b, s) in enumerate(itertools.product(ds, rates, rates)):
        if j % n != part:
            continue
        ctx.case = lambda: f'print(dir_rate({d!r}, {b!r}, {s!r}))'
        a = abs(d)
        w = s + (1 - s) * (1 - a / 90) if a <= 90 else b - (b - s) * (1 - (a - 90) / 90)
        g = sm.dir_rate(d, b, s)
        if not close(g, w):
            ctx.fail(f'dir_rate({d}, {b}, {s}) = {g!r}, expected {w!r}')
        ctx.transitions += 1
        ctx.outcome('forward' if a <= 90 else 'backward')


def turn(ctx, part, n):
    for j, (t, v, i) in enumerate(itertools.product([-180, -90.5, -1, -0.001, 0, 1e-5, 0.2, 10, 45.5, 90, 180, 360] + near(0, 400), [0, 1e-6, 0.0005, 0.009, 0.05, 0.1, 0.4, 0.5, 1.0, 1.05, 2.5, 3, 10] + near(0, 10), [0, 1e-4, 0.02, 0.5, 1, 3, 5, 5.0, 7.5, 10, 25] + near(0, 20))):
        if j % n != part:
            continue
        ctx.case = lambda: f'print(effective_turn({t!r}, {v!r}, {i!r}))'
        g, w = sm.effective_turn(t, v, i), t / (1 + i * v)
        if not close(g, w):
            ctx.fail(f'effective_turn({t}, {v}, {i}) = {g!r}, expected {w!r}')
        ctx.transitions += 1
        ctx.outcome('turn')


def speed(ctx, part, n):
    for j, (p, r, e, d, mx) in enumerate(itertools.product([-100, -50.5, -1, 0, 1, 30, 50, 99.5, 100] + near(0, 200, 2), [0.006, 0.008, 0.0, 0.01, 1.0, 0.0048], [1.0, 0.6, 0.8, 0, 0.75], [0.4, 0.94, 0.5, 0.25, 0.0, 0.75, 0.99] + near(0, 0.99, 2), [1.05, 1.0, 0.75, 1.2, 0, 2.0, 0.5] + near(0, 3, 2))):
        if j % n != part:
            continue
        ctx.case = lambda: f'print(final_speed({p!r}, {r!r}, {e!r}, {d!r}), can_over_speed_max({p!r}, {r!r}, {e!r}, {d!r}, {mx!r}))'
        w = abs(p) * r * e / (1 - d)
        g, o = sm.final_speed(p, r, e, d), sm.can_over_speed_max(p, r, e, d, mx)
        if not close(g, w):
            ctx.fail(f'final_speed({p}, {r}, {e}, {d}) = {g!r}, expected {w!r}')
        if abs(w - mx) > 1e-9 * (1 + mx) or (w == mx == 0) or (d in (0.5, 0.75, 0.25, 0.0) and r == 1.0 and e in (1.0, 0.75, 0) and p == int(p) and mx in (1.0, 0.75, 2.0, 0.5)):
            if bool(o) is not (w > mx):
                ctx.fail(f'can_over_speed_max({p}, {r}, {e}, {d}, {mx}) = {o!r} although the converged speed is {w!r}')
            ctx.outcome('over speed' if w > mx else 'exactly at the limit' if w == mx else 'below')
        ctx.transitions += 2


def series(ctx, part, n):
    ratios = [0.5, 0.25, 0.94, 0.96, 0.99, 0.1, 1.5, 2.0, 0.75, 1.01, 3.0, 1 - 2.0 ** -7, 1 - 2.0 ** -11, 1 + 2.0 ** -11, 1 - 2.0 ** -15] + near(0.05, 3, 3)
    top = 40
    marks = sorted({int(c) + k for c in mine.near(2, 400, 4) for k in (-1, 0, 1)})
    for j, (r, a) in enumerate(itertools.product(ratios, [1.0, 2.7, 0.3, 10.0, 0.001, 2, 1e-8] + near(1e-6, 100, 3))):
        if j % n != part:
            continue
        for x in (0.125, 0.25, 0.5, 0.75, 0.9, 1.25):
            s = a * (1 - r ** x) / (1 - r)
            ctx.case = lambda: f'print(calc_length_geom_series({a!r}, {s!r}, {r!r}))'
            g = sm.calc_length_geom_series(a, s, r)
            if s > 1e-9 and abs(g - x) > 1e-6:
                ctx.fail(f'calc_length_geom_series({a}, {s}, {r}) = {g!r}, expected {x}')
            ctx.transitions += 1
        for k in list(range(1, top + 1)) + [m for m in marks if m > top]:
            s = float(F(a) * (1 - F(r) ** k) / (1 - F(r))) if k <= 60 else a * (1 - r ** k) / (1 - r)
            rem = r ** k      # what the sum still misses, relative: below 1e-6 the length is not determined
            ctx.case = lambda: f'print(calc_length_geom_series({a!r}, {s!r}, {r!r}), calc_first_term_geom_series({s!r}, {r!r}, {k!r}))'
            if rem > 1e-6 and rem < 1e12:
                g = sm.calc_length_geom_series(a, s, r)
                if abs(g - k) > 1e-6 * (1 + k):
                    ctx.fail(f'calc_length_geom_series({a}, {s}, {r}) = {g!r}, the series of {k} terms has that sum')
                ctx.transitions += 1
            f = sm.calc_first_term_geom_series(s, r, k)
            if not abs(f - a) <= 1e-9 * a + 1e-16:
                ctx.fail(f'calc_first_term_geom_series({s}, {r}, {k}) = {f!r}, expected {a!r}')
            # fractional lengths: the sum formula at x + 1/2 terms
            s2 = a * (1 - r ** (k + 0.5)) / (1 - r)
            if 1e-6 < rem < 1e12 and abs(sm.calc_length_geom_series(a, s2, r) - k - 0.5) > 1e-6 * (1 + k):
                ctx.fail(f'calc_length_geom_series({a}, {s2}, {r}) = {sm.calc_length_geom_series(a, s2, r)!r}, expected {k + 0.5}')
            ctx.transitions += 1
            ctx.outcome('series inverted')
        # sums close to the limit of the series: with these ratios the missing part is an exact power of the ratio
        for k in (range(8, 33) if r == 0.5 else range(8, 17) if r == 0.25 else ()):
            s = float(F(a) * (1 - F(r) ** k) / (1 - F(r)))
            if F(s) * (1 - F(r)) / F(a) != 1 - F(r) ** k:
                continue
            ctx.case = lambda: f'print(calc_length_geom_series({a!r}, {s!r}, {r!r}))'
            g = sm.calc_length_geom_series(a, s, r)
            if abs(g - k) > 1e-4:
                ctx.fail(f'calc_length_geom_series({a}, {s}, {r}) = {g!r}, the series of {k} terms has that sum')
            ctx.transitions += 1
            ctx.outcome('sum close to the limit')
        for args, w in [((0.0, 1.0, r), -1), ((-a, 1.0, r), -1), ((1e-11, 1.0, r), -1), ((a, -1.0, r), -1), ((a, -1e-12, r), -1), ((a, 1.0, 0.0), -1), ((a, 1.0, -r), -1), ((a, 0.0, r), 0), ((0.0, 0.0, r), -1), ((a, 0.0, 0.0), -1)] + \
                ([((a, a / (1 - r) * 1.0001, r), -1), ((a, a / (1 - r) * 5, r), -1)] if r < 1 else []):
            ctx.case = lambda: f'print(calc_length_geom_series{args!r})'
            g = sm.calc_length_geom_series(*args)
            if g != w:
                ctx.fail(f'calc_length_geom_series{args} = {g!r}, expected {w}')
            ctx.transitions += 1
            ctx.outcome('impossible series' if w else 'empty series')


def clamp(ctx, part, n):
    al = [-1e9, -180, -2.5, -1, -1e-9, -0.0, 0, 1e-9, 0.5, 1, 2, 3.75, 52.5, 1e6, 180] + near(0, 1e6, 6) + [-c for c in near(0, 1e6, 3)]
    for j, (lo, x, hi) in enumerate(itertools.product(al, al, al)):
        if j % n != part or lo > hi:
            continue
        ctx.case = lambda: f'print(bound({lo!r}, {x!r}, {hi!r}), min_max({lo!r}, {x!r}, {hi!r}))'
        w = lo if x < lo else hi if x > hi else x
        g, h = sm.bound(lo, x, hi), sm.min_max(lo, x, hi)
        if g != w or h != w:
            ctx.fail(f'bound/min_max({lo}, {x}, {hi}) = {g!r}, {h!r}; the closest value in range is {w!r}')
        ctx.transitions += 2
        ctx.outcome('clamped' if w != x else 'in range')


def frange(ctx, part, n):
    starts = [-5, -1.5, -0.25, 0, 0.0, 0.5, 1, 3.75, 10] + near(0, 50, 2)
    stops = [None, -4.0, -1.5, -1, 0, 0.25, 1.0, 2, 3.75, 9.5] + near(0, 50, 2)
    steps = [None, 1, 0.5, 0.25, 2, 0.75, -1, -0.5, -0.25, -3, 0.1, -0.1, 7] + near(0.05, 10, 2)
    forms = 0
    for j, (a, b, s) in enumerate(itertools.product(starts, stops, steps)):
        if j % n != part:
            continue
        ctx.case = lambda: f'print(list(f_range({a!r}, {b!r}, {s!r})))'
        lo, hi = (a, b) if b is not None else (0.0, a)
        st = 1.0 if s is None else s
        exact = F(st).denominator <= 1 << 20
        want = []
        k = F(lo)
        while (k < F(hi) if st > 0 else k > F(hi)):
            want.append(float(k))
            k += F(st)
            if len(want) > 5000:
                break
        gens = [lambda: sm.f_range(a, b, s)]
        if s is None:
            gens.append(lambda: sm.f_range(a, b) if b is not None else sm.f_range(a))
        if b is not None:
            gens.append(lambda: sm.f_range(a, stop=b, step=s))
        for mk in gens:
            got = list(itertools.islice(mk(), len(want) + 5))
            m = min(len(got), len(want))
            edge = not exact and abs(len(got) - len(want)) <= 1 and ((got or [0])[-1] - hi) * (1 if st > 0 else -1) < 1e-9
            if (len(got) != len(want) and not edge) or any(abs(g - w) > 1e-9 * (1 + abs(w)) for g, w in zip(got[:m], want[:m])):
                ctx.fail(f'f_range({a}, {b}, {s}) yields {got[:12]}{"..." if len(got) > 12 else ""} ({len(got)} values), expected {want[:12]} ({len(want)} values)')
            ctx.transitions += 1
        ctx.outcome(f'range of {"0" if not want else "some"} values')
    # long ranges with steps that are no round decimals: exact in binary
    for j, (a, m, q) in enumerate(itertools.product((0, 2.5, -40), (60, 130, 700), (1 / 8, 3 / 16, 5 / 64, 1 + 1 / 1024, 7.03125))):
        if j % n != part:
            continue
        for s in (q, -q):
            b = a + m * s
            want = [a + t * s for t in range(m)]
            ctx.case = lambda: f'x = list(f_range({a!r}, {b!r}, {s!r})); print(len(x), x[:50], x[-3:])'
            got = list(itertools.islice(sm.f_range(a, b, s), m + 5))
            if got != want:
                bad = next((t for t in range(min(len(got), m)) if got[t] != want[t]), m)
                ctx.fail(f'f_range({a}, {b!r}, {s!r}) yields {len(got)} values, expected {m}; value {bad} is {got[bad:bad + 1]}, expected {want[bad:bad + 1]}')
            ctx.transitions += 1
            ctx.outcome('long range')
    # very short and very long steps: exact in binary
    for j, (a, k, m) in enumerate(itertools.product((0, 1, -3.5), range(-44, 31, 2), (1, 5, 12))):
        if j % n != part:
            continue
        for sg in (1, -1):
            s = sg * 2.0 ** k
            b = a + m * s
            want = [a + t * s for t in range(m)]
            ctx.case = lambda: f'import itertools; print(list(itertools.islice(f_range({a!r}, {b!r}, {s!r}), 20)))'
            got = list(itertools.islice(sm.f_range(a, b, s), m + 5))
            if got != want:
                ctx.fail(f'f_range({a}, {b!r}, {s!r}) yields {got}, expected {want}')
            ctx.transitions += 1


def wind(ctx, part, n):
    al = [[0, 1, 2.7, 0.05, 30.0] + near(0, 50, 2), [1, 0.2, 60.0, 5] + near(0.01, 100, 2), [0, 10, 0.3, -2] + near(0, 100, 2), [0, 30, 90, -120, 180, 45.5, 270] + near(0, 360, 2), [10000, 1.0, 0.5], [0, 0.3, 1.0, 0.05], [(0, 0), (3, -4), (1e-3, 0)]]
    for j, (v, w, f, d, ww, wr, e) in enumerate(itertools.product(*al)):
        if j % n != part:
            continue
        ctx.case = lambda: f'e = Vector2D{e!r}; print(wind_effect({v!r}, {w!r}, {f!r}, {d!r}, {ww!r}, {wr!r}, e), e)'
        err = Vector2D(*e)
        g = sm.wind_effect(v, w, f, d, ww, wr, err)
        k = v / (w * ww)
        x, y = f * math.cos(math.radians(d)) * k, f * math.sin(math.radians(d)) * k
        t = 1e-9 * (abs(f) * k) + 1e-15
        if abs(g.x() - x) > t or abs(g.y() - y) > t:
            ctx.fail(f'wind_effect({v}, {w}, {f}, {d}, {ww}, {wr}) = {(g.x(), g.y())}, expected {(x, y)}')
        if abs(err.x() - x * wr) > t or abs(err.y() - y * wr) > t:
            ctx.fail(f'wind_effect({v}, {w}, {f}, {d}, {ww}, {wr}) puts {(err.x(), err.y())} into the error vector, expected {(x * wr, y * wr)}')
        ctx.transitions += 1
        ctx.outcome('wind')


PARTS = [kick, dash, turn, speed, series, clamp, frange, wind]


def shards(tier):
    out = [(i, k, 4) for i in range(len(PARTS)) for k in range(4)]
    return out if tier != 'smoke' else out[::4]


def run(shard, ctx):
    i, k, n = shard
    PARTS[i](ctx, k, n)
    ctx.states += ctx.transitions
    ctx.traces += ctx.transitions
    ctx.sample(ctx.case)
