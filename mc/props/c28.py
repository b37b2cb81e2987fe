"""C28: results never depend on earlier calls."""
import contextlib
import io
import os
import pickle
from mc import probes
from mc.obs import obs, outcome, same
from mc.edits import edits, become

TITLE = 'Results never depend on which calls were made before'
BOUNDS = ('4500 calls in about 440 groups covering the public API (queries, updates and failing calls, with argument variants that differ by 2^-12 and 2^-22): all ordered pairs of calls within a group, all ordered pairs of group representatives '
          '(thorough: representatives with every call), and for every call the history call - edit the result in every way - same call again on fresh arguments; all ordered pairs of queries within a group where the argument objects of the first call are edited into the arguments of the second; for every query with numeric, angle or vector arguments, 320 (thorough 1500) calls with distinct arguments made in two orders, each twice; each result compared exactly with the same call in a freshly forked process')
ASSUMPTIONS = ['each shard is one long history in a process forked from the freshly imported library; a failing history is reduced to a short one before it is reported']
N = 24
T = None
BASE, EDITS = {}, {}


def prepare(tier):
    """baselines: every call alone in its own process forked from this (pristine) one"""
    global T
    T = probes.table('QMB', full=tier == 'thorough')
    flat = [p for g in T for p in g]
    W = 8
    pipes = []
    for w in range(W):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            with contextlib.redirect_stdout(io.StringIO()):
                res = [(i, isolated(lambda: alone(flat[i]))) for i in range(w, len(flat), W)]
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(res, f)
            os._exit(0)
        os.close(wr)
        pipes.append((pid, r))
    got = {}
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as f:
            got.update(dict(pickle.load(f)))
        os.waitpid(pid, 0)
    for i, p in enumerate(flat):
        BASE[id(p)], EDITS[id(p)] = got[i] or (None, 0)


def alone(p):
    """(outcome, number of ways to edit the result)"""
    box = []
    o = outcome(lambda: box.append(p.call(p.make())) or box[0])
    try:
        n = len(edits(box[0], deep=True)) if o[0] == 'value' else 0
    except Exception:  # noqa
        n = 0
    return o, n


def isolated(fn):
    """fn() evaluated in a forked child; the picklable result (None when the child died)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(fn())
        except BaseException as e:  # noqa
            data = pickle.dumps(('died', repr(e)))
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def shards(tier):
    prepare(tier)
    out = list(range(N)) + [('many', i) for i in range(N)]
    return out if tier != 'smoke' else out[:2] + out[-1:]


def expected(p, e):
    return BASE[id(e if isinstance(e, probes.Probe) else p)]


def reuse(p, q):
    """call p, then turn p's own argument objects into the arguments of q (those whose class has setters) and call q with them"""
    env = p.make()
    try:
        p.call(env)
    except RecursionError:
        raise
    except Exception:  # noqa
        pass
    new = q.make()
    for n in q.names:
        if n in env and not isinstance(new[n], (int, float)) and become(env[n], new[n]) and same(obs(env[n]), obs(new[n])):
            new[n] = env[n]
    return outcome(lambda: q.call(new))


def step(p, edit=None):
    """run one call; then edit its result (edit = index) or repeat it with edited arguments (edit = the call they then belong to); returns the outcome"""
    if isinstance(edit, probes.Probe):
        return reuse(p, edit)
    try:
        env = p.make()
        res = p.call(env)
        o = ('value', obs(res))
        if edit is not None:
            es = edits(res, deep=True)
            if edit < len(es):
                try:
                    es[edit][1](res)
                except Exception:  # noqa
                    pass
        return o
    except RecursionError:
        raise
    except Exception:  # noqa
        return ('raises',)


def sequence(shard, tier):
    """the history of a shard as (probe, edit index or None)"""
    reps = [g[0] for g in T]
    for k, g in enumerate(T):
        if k % N != shard:
            continue
        for p in g:                              # call, edit the result, call again
            if p.kind == 'B':
                continue
            for e in range(EDITS[id(p)]):
                yield p, e
                yield p, None
        for p in g:                              # every ordered pair of the group
            for q in g:
                yield p, None
                yield q, None
        for p in g:                              # the same with p's argument objects edited into those of q
            for q in g:
                if p.kind == q.kind == 'Q' and p is not q and any(n[0] not in 'nif' for n in p.names):
                    yield p, q
        for h in T:                              # the representative before (and after) every other call
            for q in (h if tier == 'thorough' else h[:1]):
                yield g[0], None
                yield q, None
            if k % 5 == 0:
                yield reps[(k * 7) % len(reps)], 0
                yield h[-1], None


def run_history(shard, tier, upto=None):
    """returns (calls made, index of the first wrong call or None, what it returned)"""
    n = 0
    for p, e in sequence(shard, tier):
        o = step(p, e)
        if not same(o, expected(p, e)):
            return n + 1, n, o
        n += 1
    return n, None, None


def fails(hist):
    """does the last call of this short history differ from its baseline, in a fresh process?"""
    def go():
        o = None
        for p, e in hist:
            o = step(p, e)
        return o
    o = isolated(go)
    return o is not None and o[0] != 'died' and not same(o, expected(*hist[-1])), o


def reduce(hist):
    """short failing history with the same last call"""
    last = hist[-1]
    for p, e in reversed(hist[:-1][-400:]):
        bad, o = fails([(p, e), last])
        if bad:
            return [(p, e), last], o
    cur = hist
    size = max(1, len(cur) // 2)
    while size >= 1 and len(cur) > 2:
        i, changed = 0, False
        while i < len(cur) - 1:
            cand = cur[:i] + cur[min(i + size, len(cur) - 1):]
            bad, _ = fails(cand)
            if bad:
                cur, changed = cand, True
            else:
                i += size
            if len(cur) <= 2:
                break
        size = size // 2 if not changed or size > 1 else 0
    return cur, fails(cur)[1]


def text(p, e):
    if e is None:
        return str(p)
    if isinstance(e, probes.Probe):
        return f'{p}  [then the same objects edited to: {e}]'
    return f'{p}  [then its result is edited]'


def script(hist):
    lines = ['def computed(ps, how):', '    h = ConvexHull(ps); h.compute(how); return h', 'import pyrusgeom.soccer_math as sm, math', 'from mc.probes import ring', 'from mc.edits import edits, become   # PYTHONPATH=/repo/src:/verif']
    for p, e in hist:
        lines += [p.source() if p.names or p.stmt else 'pass']
        if e is None:
            lines += [f'print({p.expr})']
        elif isinstance(e, probes.Probe):
            lines += [f'print({p.expr})'] + [f'become({n}, {v})' if n in p.names and n[0] not in 'nif' else f'{n} = {v}' for n, v in zip(e.names, e.srcs)] + [f'print({e.expr})']
        else:
            lines += [f'r = {p.expr}; es = edits(r, True); es[{e}][1](r) if {e} < len(es) else None']
    return '\n'.join(lines)


def distinct(name, j):
    """source of the j-th of many distinct arguments"""
    return {'n': lambda: repr((j * 37 % 1999) * 0.0625 - 20), 'v': lambda: f'Vector2D({(j * 53 % 1997) * 0.125 - 50!r}, {j * 0.0625 - 9!r})', 'a': lambda: f'AngleDeg({(j * 71 % 1993) * 0.1875 - 180!r})',
            'f': lambda: repr((j + 1) / 2000), 'i': lambda: repr(j % 40)}[name[0]]()


def many(ctx, p, count):
    """the same query with many distinct arguments, forwards and backwards, every call repeated"""
    if p.kind != 'Q' or not any(n[0] in 'nvaf' for n in p.names):
        return
    calls = []
    for j in range(count):
        srcs = [distinct(n, j + 7 * k) if n[0] in 'nvafi' else s for k, (n, s) in enumerate(zip(p.names, p.srcs))]
        calls.append(probes.Probe(p.group, p.names, srcs, 'Q'))

    def go(order):
        return {j: (step(calls[j]), step(calls[j])) for j in order}
    ctx.case = lambda: f'many calls {p.group}'
    fwd = isolated(lambda: go(range(count)))
    bwd = isolated(lambda: go(range(count - 1, -1, -1)))
    if not isinstance(fwd, dict) or not isinstance(bwd, dict):
        ctx.fail(f'the process repeating {p.group} died: {fwd if not isinstance(fwd, dict) else bwd}')
    for j in range(count):
        for x, how in ((fwd[j][1], 'repeated at once'), (bwd[j][0], 'asked in the opposite order'), (bwd[j][1], 'asked in the opposite order')):
            if not same(fwd[j][0], x):
                ctx.fail(f'{calls[j]}\nreturns {fwd[j][0]} after {j} other calls with distinct arguments and {x} when {how}',
                         'import pyrusgeom.soccer_math as sm, math\n' + '\n'.join(f'{c.source()}; print({c.expr})' for c in calls[max(0, j - 5):j + 1] + calls[j:j + 1]))
    ctx.transitions += 4 * count
    ctx.states += count
    ctx.traces += 2
    ctx.outcome('calls equal in both orders', count)


def run(shard, ctx):
    if isinstance(shard, tuple):
        for k, g in enumerate(T):
            if k % N == shard[1]:
                many(ctx, g[0], 1500 if ctx.tier == 'thorough' else 320)
        return
    ctx.case = f'shard {shard} of the call histories'
    ctx.transitions += 1
    r = isolated(lambda: run_history(shard, ctx.tier))
    if r is None or r[0] == 'died':
        ctx.fail(f'the process running history {shard} died: {r}')
    n, bad, o = r
    ctx.transitions += n
    ctx.traces += 1
    ctx.states += n
    if bad is not None:
        hist = []
        for i, x in enumerate(sequence(shard, ctx.tier)):
            hist.append(x)
            if i == bad:
                break
        short, o2 = reduce(hist)
        ctx.fail(f'after\n  ' + '\n  '.join(text(*x) for x in short[:-1][-6:]) + f'\nthe call\n  {text(*short[-1])}\nreturns {o2 or o}, on its own {expected(*short[-1])}', script(short[-8:]))
    ctx.outcome('calls equal to their fresh-process result', n)
    ctx.sample(lambda: '; '.join(str(p) for (p, e), _ in zip(sequence(shard, ctx.tier), range(3))))
