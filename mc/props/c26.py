"""C26: quantisation."""
import math
from fractions import Fraction as F
from pyrusgeom import soccer_math as sm
from mc import mine

TITLE = 'Quantisation rounds to the nearest step and its inverse brackets it'
BOUNDS = ('integer rounding of every multiple of 1/8 in [-70, 70] (and around +-2^k, k <= 40), quantisation of every multiple of 1/32 of the step within +-40 steps for 12 steps and of multiples of 1/64 up to +-60, un-quantisation of the same readings, '
          'distance quantisation and its error range for every distance 0.02, 0.04, ... 180 (thorough: step 0.002) and 5 steps; new constants of the source extend the values and steps')
ASSUMPTIONS = ['a value half-way between two multiples (up to rounding) may go to either']
STEPS = [0.1, 0.5, 1.0, 0.01, 0.25, 2.0, 10.0, 0.125, 0.05, 3.0, 0.001, 7.5]


def near_int(ctx, f, src):
    ctx.case = lambda: f'print(r_int({src}))'
    g = sm.r_int(f)
    ff = F(f)
    if g != int(g) or abs(F(int(g)) - ff) > F(1, 2):
        ctx.fail(f'r_int({f!r}) = {g!r} is not a nearest integer')
    ctx.transitions += 1


def q_case(ctx, v, q):
    ctx.case = lambda: f'print(quantize({v!r}, {q!r}), unquantize_min({v!r}, {q!r}), unquantize_max({v!r}, {q!r}))'
    g = sm.quantize(v, q)
    r = F(v) / F(q)
    lo = math.floor(r)
    cands = [lo, lo + 1]
    tol = 1e-9 * (abs(v) + q)
    slack = F(1, 10 ** 9) * (1 + abs(r))
    near = [k for k in cands if abs(r - k) <= F(1, 2) + slack]
    if not any(abs(g - k * q) <= tol for k in near):
        ctx.fail(f'quantize({v!r}, {q!r}) = {g!r}, the nearest multiple is {[k * q for k in near]}')
    if abs(sm.quantize(g, q) - g) > tol:
        ctx.fail(f'quantize is not idempotent: quantize({v!r}, {q!r}) = {g!r}, again: {sm.quantize(g, q)!r}')
    a, b = sm.unquantize_min(v, q), sm.unquantize_max(v, q)
    if not any(abs(a - (k - 0.5) * q) <= tol and abs(b - (k + 0.5) * q) <= tol for k in near):
        ctx.fail(f'unquantize_min/max({v!r}, {q!r}) = {a!r}, {b!r}; half a step around the nearest multiple {[k * q for k in near]} expected')
    a, b = sm.unquantize_min(g, q), sm.unquantize_max(g, q)
    if not a - tol <= v <= b + tol:
        ctx.fail(f'{v!r} quantises to {g!r} with step {q!r} but is not between unquantize_min {a!r} and unquantize_max {b!r}')
    ctx.transitions += 6
    ctx.outcome('tie' if len(near) == 2 else 'unique nearest multiple')


def nearest(v, q):
    """multiples of q acceptable as quantize(v, q)"""
    r = v / q
    lo = math.floor(r)
    return [k for k in (lo, lo + 1) if abs(r - k) <= 0.5 + 1e-9 * (1 + abs(r))]


def dist_case(ctx, d, q, prev):
    ctx.case = lambda: f'print(quantize_dist({d!r}, {q!r}), unquantize_error({d!r}, {q!r}))'
    g = sm.quantize_dist(d, q)
    want = [m * 0.1 for k in nearest(math.log(d + 1e-10), q) for m in nearest(math.exp(k * q), 0.1)]
    if not any(abs(g - w) <= 1e-9 * (1 + w) for w in want):
        ctx.fail(f'quantize_dist({d!r}, {q!r}) = {g!r}, expected {want}')
    if prev is not None and g < prev - 1e-9:
        ctx.fail(f'quantize_dist is not monotone in the distance at {d!r} (step {q!r}): {prev!r} then {g!r}')
    if d > 0.06:
        e = sm.unquantize_error(d, q)
        ok, ws = False, []
        for k in nearest(d, 0.1):
            lo, hi = (k - 0.5) * 0.1, (k + 0.5) * 0.1
            if lo <= 0:
                ok = True
                continue
            for m in nearest(math.log(lo), q):
                for n in nearest(math.log(hi), q):
                    w = abs(math.exp((n + 0.5) * q) - math.exp((m - 0.5) * q))
                    ws.append(w)
                    ok = ok or abs(e - w) <= 1e-8 * (1 + w)
        if not ok:
            ctx.fail(f'unquantize_error({d!r}, {q!r}) = {e!r}, the inverse interval has width {ws}')
        ctx.transitions += 1
    ctx.transitions += 1
    return g


def extra_steps():
    return [c for c in mine.near(1e-4, 100, 6)]


def shards(tier):
    out = [('int', 0)] + [('q', q) for q in STEPS + extra_steps()] + [('d', q) for q in [0.1, 0.01, 0.05, 0.5, 1.0] + [c for c in mine.near(0.004, 1.0, 3)]]
    return out if tier != 'smoke' else out[::9]


def run(shard, ctx):
    kind, q = shard
    fine = ctx.tier == 'thorough'
    if kind == 'int':
        den = 8 if not fine else 64
        for k in range(-70 * den, 70 * den + 1):
            near_int(ctx, k / den, repr(k / den))
            ctx.states += 1
        for k in range(0, 41):
            for s in (1, -1):
                for o in (0.0, 0.25, 0.5, 0.75, 0.4990234375, 0.5009765625, 1.5):
                    near_int(ctx, s * (2.0 ** k + o), repr(s * (2.0 ** k + o)))
        for c in mine.near(1e-3, 1e9, 12):
            for o in (-1.0, -0.75, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0):
                for s in (1, -1):
                    near_int(ctx, s * (c + o), repr(s * (c + o)))
        for k in range(-50, 51):
            near_int(ctx, k, repr(k))
        for v in (0.49999999999999994, -0.49999999999999994, 1e-300, -1e-300, 2.0 ** 52 - 0.5):
            near_int(ctx, v, repr(v))
        ctx.outcome('integer rounding')
    elif kind == 'q':
        den = 32 if not fine else 256
        vals = [k * q / den for k in range(-40 * den, 40 * den + 1)]
        vals += [k / 64 for k in range(-60 * 64, 60 * 64 + 1, 1 if fine else 7)]
        for c in mine.near(1e-3, 1e5, 8):
            vals += [s * (c + o * q) for s in (1, -1) for o in (-1.0, -0.75, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0)] + [s * c * q for s in (1, -1)]
        vals += [-1, 0, 3, 12]
        for v in vals:
            q_case(ctx, v, q)
            ctx.states += 1
    else:
        prev = None
        n = 9000 if not fine else 90000
        for k in range(1, n + 1):
            prev = dist_case(ctx, k * 180.0 / n, q, prev)
            ctx.states += 1
        ctx.outcome('distance readings', n)
        for c in mine.near(0.05, 1e4, 8):
            prev = None
            for o in (-0.3, -0.1, -0.01, 0.0, 0.01, 0.1, 0.3):
                if c + o > 0:
                    prev = dist_case(ctx, c + o, q, prev)
    ctx.traces += ctx.states
    ctx.sample(ctx.case)
