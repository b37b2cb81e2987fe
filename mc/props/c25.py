"""C25: inertia predictions against step-by-step simulation."""
import math
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom import soccer_math as sm
from mc import mine

TITLE = 'Inertia predictions equal step-by-step simulation'
BOUNDS = ('every velocity of a 5x5 lattice (plus small, large and server-sized ones; speeds also negative), every decay of 18 values in (0, 1), simulated step by step in exact rational arithmetic for n = 0..60 (thorough 0..250), every prefix compared; '
          'new constants of the source extend the decays, speeds and step counts')
ASSUMPTIONS = ['decay strictly between 0 and 1; results compared at 1e-9 relative']
DECAYS = [0.94, 0.4, 0.5, 0.25, 0.75, 0.125, 0.9, 0.96875, 0.0625, 0.985, 0.999, 0.1, 0.33, 0.05, 0.99995, 0.99999, 0.001, 1e-5]
VELS = [(x, y) for x in (-2, -1, 0, 1, 2) for y in (-2, -1, 0, 1, 2)] + [(2.7, -0.3), (1.05, 0.0), (1e-3, -1e-4), (0.0, 3.0), (-300.0, 4096.0), (1e-7, 0.0), (5e-11, 2e-10)]
POS = [(0.0, 0.0), (-52.5, 34.0), (10, -7), (0.125, 1e3)]


def extend():
    d = list(DECAYS)
    for c in mine.near(1e-6, 0.999999, 6):
        d += [c, min(c * 1.01, 0.9999), c * 0.99]
    v = list(VELS)
    for c in mine.near(1e-6, 1e4, 6):
        v += [(c * 1.01, 0.0), (0.0, -c * 0.99), (c, c / 2)]
    return d, v


def shards(tier):
    d, _ = extend()
    return d if tier != 'smoke' else d[:2]


def ok(got, want):
    return abs(got - want) <= 1e-9 * abs(want) + 1e-15


def vec_ok(v, x, y):
    t = 1e-9 * (abs(x) + abs(y)) + 1e-15
    return v.is_valid() and abs(v.x() - x) <= t and abs(v.y() - y) <= t


def run(decay, ctx):
    _, vels = extend()
    steps = 60 if ctx.tier != 'thorough' else 250
    marks = {int(c) + k for c in mine.near(2, 2000, 6) for k in (-1, 0, 1, 2)}
    steps = max([steps] + [m for m in marks])
    fd = F(decay)
    # exact partial sums of 1 + d + d^2 + ...; only the float value of each sum is needed, kept in a 200-bit fixed point
    one = 1 << 220
    term, tot, sums = one, 0, [0.0]
    for _ in range(steps):
        tot += term
        term = term * fd.numerator // fd.denominator
        sums.append(float(F(tot, one)))
    limit = float(1 / (1 - fd))
    cond = 1.0 / (1.0 - decay)      # conditioning of the closed forms
    for k, (vx, vy) in enumerate(vels):
        speed = math.hypot(vx, vy)
        px, py = POS[k % len(POS)]
        vel, pos = Vector2D(vx, vy), Vector2D(px, py)
        for n in range(0, steps + 1):
            if n > 60 and n not in marks and (n % 7 and ctx.tier != 'thorough'):
                continue
            s = sums[n]
            ctx.case = lambda: f'v = Vector2D({vx!r}, {vy!r}); p = Vector2D({px!r}, {py!r})\nprint(inertia_n_step_travel(v, {n}, {decay!r}), inertia_n_step_point(p, v, {n}, {decay!r}), inertia_n_step_distance({speed!r}, {n}, {decay!r}))'
            t = sm.inertia_n_step_travel(vel, n, decay)
            if not vec_ok(t, vx * s, vy * s):
                ctx.fail(f'travel of {(vx, vy)} with decay {decay} after {n} steps is {(t.x(), t.y())}, the simulation says {(vx * s, vy * s)}')
            q = sm.inertia_n_step_point(pos, vel, n, decay)
            tol = 1e-9 * (abs(px) + abs(py) + (abs(vx) + abs(vy)) * s) + 1e-12
            if not q.is_valid() or abs(q.x() - px - vx * s) > tol or abs(q.y() - py - vy * s) > tol:
                ctx.fail(f'point reached from {(px, py)} with velocity {(vx, vy)}, decay {decay} after {n} steps is {(q.x(), q.y())}, the simulation says {(px + vx * s, py + vy * s)}')
            d = sm.inertia_n_step_distance(speed, n, decay)
            if not ok(d, speed * s) or not ok(sm.inertia_n_step_distance(-speed, n, decay), -speed * s) or not ok(sm.inertia_n_step_distance(vx, n, decay), vx * s):
                ctx.fail(f'distance with speed {speed}, decay {decay} after {n} steps is {d}, the simulation says {speed * s}; with {-speed}: {sm.inertia_n_step_distance(-speed, n, decay)}, with {vx}: {sm.inertia_n_step_distance(vx, n, decay)}')
            if (vel.x(), vel.y(), pos.x(), pos.y()) != (vx, vy, px, py):
                ctx.fail('an argument was modified')
            ctx.transitions += 3
            ctx.states += 1
        ctx.case = lambda: f'v = Vector2D({vx!r}, {vy!r}); p = Vector2D({px!r}, {py!r})\nprint(inertia_final_travel(v, {decay!r}), inertia_final_point(p, v, {decay!r}), inertia_final_distance({speed!r}, {decay!r}))'
        t, q, d = sm.inertia_final_travel(vel, decay), sm.inertia_final_point(pos, vel, decay), sm.inertia_final_distance(speed, decay)
        tol = 1e-9 * (abs(px) + abs(py) + (abs(vx) + abs(vy)) * limit) + 1e-12
        if not vec_ok(t, vx * limit, vy * limit) or not ok(d, speed * limit) or not ok(sm.inertia_final_distance(-speed, decay), -speed * limit) or abs(q.x() - px - vx * limit) > tol or abs(q.y() - py - vy * limit) > tol:
            ctx.fail(f'final travel/point/distance of {(vx, vy)} from {(px, py)} with decay {decay}: {(t.x(), t.y())}, {(q.x(), q.y())}, {d}; the limit is {vx * limit, vy * limit}')
        if (vel.x(), vel.y(), pos.x(), pos.y()) != (vx, vy, px, py):
            ctx.fail('an argument was modified')
        ctx.transitions += 3
        ctx.traces += 1
        ctx.outcome('moving' if speed else 'at rest')
    ctx.sample(ctx.case)
