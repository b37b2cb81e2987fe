"""C05: queries have no side effects and share no mutable state."""
from mc import probes
from mc.obs import obs, same
from mc.edits import edits

TITLE = 'Queries have no side effects and share no mutable state with their results'
BOUNDS = ('about 290 query and constructor expressions and 90 updates covering the public API, with about 10 argument variants each (thorough: all single-variable variants): receiver and arguments compared before/after every call; then every edit of the result, '
          'of every argument and of the receiver, with everything else (other results of the same call, receiver, arguments) re-read; every pair of same-typed arguments also passed as one and the same object')
ASSUMPTIONS = ['accessors with a trailing underscore are exempt; vertex objects inside polygon and hull point lists are not edited', 'the error vector of wind_effect is an output argument']
SHARED = 'pgh'      # types whose point objects may be shared


def shards(tier):
    n = 48
    return [(i, n) for i in range(n)] if tier != 'smoke' else [(i, n) for i in range(2)]


def state(p, env):
    return {n: obs(env[n]) for n in p.names}


def shares_points(p):
    return any(n[0] in SHARED for n in p.names) or 'Polygon2D' in p.group or 'Hull' in p.group


def kept(ctx, what, p, before, env, skip=()):
    for n in p.names:
        if n not in skip and not same(obs(env[n]), before[n]):
            ctx.fail(f'{p}\n{what} changed {n} from {before[n]} to {obs(env[n])}', script(p, what))
    ctx.transitions += 1


def script(p, what):
    pre = 'def computed(ps, how):\n    h = ConvexHull(ps); h.compute(how); return h\ndef ring(n):\n    return [Vector2D(round(500 * math.cos(6.2 * k / n)), round(400 * math.sin(6.2 * k / n))) for k in range(n)]\nimport pyrusgeom.soccer_math as sm, math\n'
    return pre + f'{p.source()}\nr = {p.expr}\nprint({", ".join(p.names) or "0"}, r)   # {what}'


def attempt(ctx, p):
    """(env, result) or None when the call raises"""
    try:
        env = p.make()
    except Exception as e:  # noqa
        ctx.fail(f'{p}: building the arguments raised {e!r}', p.source())
    before = state(p, env)
    try:
        return env, before, p.call(env)
    except RecursionError:
        raise
    except Exception:  # noqa - the arguments do not fit the call; they must still be untouched
        if p.kind == 'Q':
            kept(ctx, 'the failing call', p, before, env)
        return None


def check(ctx, p):
    ctx.case = lambda: script(p, 'query')
    first = attempt(ctx, p)
    ctx.states += 1
    if first is None:
        ctx.outcome('call rejects its arguments')
        return
    env, before, res = first
    target = p.expr if p.kind == 'M' else None
    kept(ctx, 'the call', p, before, env, skip=(target,) if target else ())
    deep = not shares_points(p)
    n_edits = len(edits(res, deep))
    val = obs(res)
    # 1. edit the result in every way
    for k in range(n_edits):
        env, before, res = attempt(ctx, p)
        if p.kind == 'Q':
            twin = p.call(env)                 # second result of the same call on the same objects
            other = attempt(ctx, p)[2]         # and of an equal call on other objects
        base = state(p, env)
        name, f = edits(res, deep)[k]
        f(res)
        kept(ctx, f'editing the result ({name})', p, base, env, skip=(target,) if target else ())
        if p.kind == 'Q':
            if not same(obs(twin), val) or not same(obs(other), val):
                ctx.fail(f'{p}\nediting one result ({name}) changed another result of the same call: {val} became {obs(twin)} / {obs(other)}', script(p, name))
            again = p.call(env)
            if not same(obs(again), val):
                ctx.fail(f'{p}\nreturns {obs(again)} instead of {val} after its first result was edited ({name})', script(p, name))
        ctx.traces += 1
    # 2. edit every argument (and the receiver) in every way: the result is unaffected
    if isinstance(val, tuple):
        for n in p.names:
            if n == target:
                continue
            for k in range(len(edits(env[n], False))):
                env, before, res = attempt(ctx, p)
                if p.kind == 'M' and n[0] == 'v' and target[0] in SHARED:
                    continue                   # a vertex object handed to a polygon or hull
                mid = obs(res)
                others = {m: obs(env[m]) for m in p.names if m != n}
                name, f = edits(env[n], False)[k]
                f(env[n])
                if not same(obs(res), mid):
                    ctx.fail(f'{p}\nediting {n} afterwards ({name}) changed the result from {mid} to {obs(res)}', script(p, f'{n}: {name}'))
                for m, b in others.items():
                    if not same(obs(env[m]), b):
                        ctx.fail(f'{p}\nediting {n} afterwards ({name}) changed {m} from {b} to {obs(env[m])}', script(p, f'{n}: {name}'))
                ctx.transitions += 1
                ctx.traces += 1
    ctx.outcome('query' if p.kind == 'Q' else 'update')


def aliased(ctx, p):
    """same-typed arguments passed as one object behave like equal separate objects"""
    by = {}
    for n in p.names:
        by.setdefault(n[0], []).append(n)
    pairs = [(a, b) for ns in by.values() if ns[0][0] not in 'nif' for i, a in enumerate(ns) for b in ns[i + 1:]]
    for a, b in pairs:
        ctx.case = lambda: script(p, f'{b} is {a}')
        if p.kind == 'M' and (a == p.expr or b == p.expr) and p.expr[0] not in 'va':
            continue
        def go(shared, k):
            env = p.make()
            env[b] = env[a] if shared else eval(p.setup[p.names.index(a)], dict(probes.ENV))
            res = p.call(env)
            o = obs(res)
            st = state(p, env)
            es = edits(res, not shares_points(p))
            if k < len(es):
                es[k][1](res)
            return o, obs(res), st, len(es)
        try:
            _, _, _, n = go(False, 99)
        except RecursionError:
            raise
        except Exception:  # noqa
            continue
        for k in range(max(1, n)):
            x, y = go(False, k), go(True, k)
            if not same(x[0], y[0]) or not same(x[1], y[1]):
                ctx.fail(f'{p}\nwith {b} the same object as {a}: result {y[0]} (after an edit {y[1]}); with an equal but separate object {x[0]} ({x[1]})', script(p, f'{b} is {a}'))
            if p.kind == 'Q' and not all(same(x[2][m], y[2][m]) for m in p.names):
                ctx.fail(f'{p}\nwith {b} the same object as {a} the call changed its arguments: {y[2]}', script(p, f'{b} is {a}'))
            ctx.transitions += 1
        ctx.traces += 1
        ctx.outcome('same object passed twice')


def run(shard, ctx):
    i, n = shard
    for k, g in enumerate(probes.table('QM', full=ctx.tier == 'thorough')):
        if k % n != i:
            continue
        for p in g:
            check(ctx, p)
        for p in g:
            aliased(ctx, p)
    ctx.sample(ctx.case)
