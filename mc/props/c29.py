"""C29: concurrent calls on unshared (or only queried) objects."""
import re
from mc import probes
from mc.obs import obs, same
from mc.props.c28 import isolated
from mc.sched import Two, count_lines

TITLE = 'Concurrent calls on unshared objects behave as if run alone'
BOUNDS = ('two threads on the real code, a schedule point at every executed library line. One preemption: every ordered pair of calls of the same part of the library (thorough: every ordered pair of the 440 groups) at 10 evenly spread points (all points for calls of up to 10 lines; '
          'thorough: up to 200), on separate objects and, for queries, on the same objects (6 points); every group against itself with other arguments at every point (up to 200), and at up to 12 (thorough 60) points in a freshly forked process per schedule. '
          'Two preemptions: every group against itself with other arguments at all pairs of up to 12 x 12 (thorough 40 x 40) points')
ASSUMPTIONS = ['schedule points are lines of the library, not single bytecodes', 'a call blocked on a lock held by the preempted call is let go; the outcome is judged all the same', 'thread results are compared exactly with the result of the call alone']
N = 32


def part(g):
    m = re.match(r'(?:computed|list2set|is_clockwise|angle_sort)', g)
    if m:
        return 'h'
    m = re.search(r'\b(sm|quadratic_f|[A-Z]\w+2D|AngleDeg|ConvexHull|[XY](?:Less|More)Equal|[vanlysckzqtmpgh][123])\b', g)
    w = m.group(1) if m else '?'
    return {'AngleDeg': 'a', 'Vector2D': 'v', 'Line2D': 'l', 'Ray2D': 'y', 'Segment2D': 's', 'Circle2D': 'c', 'quadratic_f': 'c', 'Sector2D': 'k', 'Size2D': 'z', 'Rect2D': 'q', 'Triangle2D': 't', 'Matrix2D': 'm', 'Polygon2D': 'p', 'ConvexHull': 'h', 'sm': 'sm'}.get(w, 'p' if w.endswith('Equal') else w[0])


def shards(tier):
    return list(range(N)) if tier != 'smoke' else [0, 9]


def thunk(p, env=None):
    env = p.make() if env is None else env
    box = []

    def f():
        box.append(p.call(env))
        return box[0]
    return f


def value(r):
    return ('raises', r[1]) if r[0] == 'raises' else ('ok', obs(r[1]))


def alone(p, env=None):
    try:
        return ('ok', obs(thunk(p, env)()))
    except Exception as e:  # noqa
        return ('raises', type(e).__name__)


def points(n, cap=40):
    return list(range(n)) if n <= cap else sorted({i * n // cap for i in range(cap)} | {n - 1})


class Explorer:
    def __init__(self):
        self.two = Two()
        self.sched = 0
        self.alone, self.lines = {}, {}

    def base(self, p):
        k = id(p)
        if k not in self.alone:
            self.alone[k] = alone(p)
            self.lines[k] = count_lines(thunk(p))
        return self.alone[k]

    def once(self, p, q, k1, k2, shared):
        ep = p.make()
        if shared:
            eq = ep
            for n, c in zip(q.names, q.setup):
                if n not in ep:
                    ep[n] = eval(c, ep)
        else:
            eq = q.make()
        self.sched += 1
        r = self.two.run(thunk(p, ep), thunk(q, eq), k1, k2)
        if r is None:
            self.two = Two()
            return 'hang', None
        return value(r[0]), value(r[1])

    def pair(self, p, q, bound, shared=False, cap=200):
        """explore all schedules of the pair; returns None or (k1, k2, got p, got q)"""
        wp, wq = self.base(p), self.base(q)
        np_, nq = self.lines[id(p)], self.lines[id(q)]
        if shared:
            # with shared variables q runs on p's variants
            wq = alone(q, self.merged(p, q))
        start_blocked = self.two.blocked
        for k1 in points(np_, cap):
            for k2 in ([None] if bound == 1 else points(nq, cap)):
                a, b = self.once(p, q, k1, k2, shared)
                if a == 'hang' or not same(a, wp) or not same(b, wq):
                    c, d = self.once(p, q, k1, k2, shared)      # the same schedule again
                    if c == 'hang' or not (same(c, wp) and same(d, wq)) or not same(alone(p), wp):
                        return k1, k2, a, b
                if self.two.blocked - start_blocked > 8:
                    return None
        return None

    def merged(self, p, q):
        env = p.make()
        for n, c in zip(q.names, q.setup):
            if n not in env:
                env[n] = eval(c, env)
        return env


def cold(p, q, k1):
    """one schedule in this (freshly forked) process: wrong results or None"""
    ex = Two()
    r = ex.run(thunk(p), thunk(q), k1, None)
    if r is None:
        return ('hang', None)
    return value(r[0]), value(r[1])


def lines_of(p):
    return alone(p), count_lines(thunk(p))


def message(p, q, k1, k2, got, want, shared):
    return (f'thread 1: {p}\nthread 2{" (same objects)" if shared else ""}: {q}\nschedule: thread 1 executes {k1} library lines, then thread 2 {"runs to its end" if k2 is None else f"executes {k2} lines"}, then thread 1 finishes{"" if k2 is None else ", then thread 2"}\n'
            f'results {got}, alone {want}')


def code(p, q, k1, k2, shared):
    return (f'# PYTHONPATH=/repo/src:/verif\nfrom mc import probes\nfrom mc.props import c29\np = probes.Probe({p.group!r}, {p.names!r}, {p.srcs!r}, {p.kind!r})\nq = probes.Probe({q.group!r}, {q.names!r}, {q.srcs!r}, {q.kind!r})\n'
            f'ex = c29.Explorer()\nprint("alone      ", ex.base(p), ex.base(q))\nprint("interleaved", *ex.once(p, q, {k1}, {k2}, {shared}))')


def hot(shard, tier):
    """all warm explorations of a shard, one process; returns (schedules, pairs, failure)"""
    T = probes.table('QM')
    ex = Explorer()
    pairs = 0
    deep = tier == 'thorough'
    parts = [part(g[0].group) for g in T]
    for i, g in enumerate(T):
        if i % N != shard:
            continue
        p = g[0]
        for j, h in enumerate(T):                              # one preemption, separate objects
            if parts[i] != parts[j] and tier != 'thorough':
                continue
            q = h[min(3, len(h) - 1)]
            bad = ex.pair(p, q, 1, False, 200 if i == j or deep else 10)
            pairs += 1
            if bad:
                return ex.sched, pairs, (message(p, q, bad[0], bad[1], bad[2:], (ex.base(p), ex.base(q)), False), code(p, q, bad[0], bad[1], False))
            if parts[i] == parts[j] and p.kind == 'Q' and h[0].kind == 'Q' and p.names:       # one preemption, shared objects
                bad = ex.pair(p, h[0], 1, True, 200 if i == j or deep else 6)
                pairs += 1
                if bad:
                    return ex.sched, pairs, (message(p, h[0], bad[0], bad[1], bad[2:], (ex.base(p), ex.base(h[0])), True), code(p, h[0], bad[0], bad[1], True))
        for q in g[1:3] + g[-1:]:                              # two preemptions, same call with other arguments
            bad = ex.pair(p, q, 2, False, 40 if deep else 12)
            pairs += 1
            if bad:
                return ex.sched, pairs, (message(p, q, bad[0], bad[1], bad[2:], (ex.base(p), ex.base(q)), False), code(p, q, bad[0], bad[1], False))
            if tier != 'thorough':
                break
    return ex.sched, pairs, None


def run(shard, ctx):
    ctx.case = f'warm schedules of shard {shard}'
    ctx.transitions += 1
    r = isolated(lambda: hot(shard, ctx.tier))
    if r is None or r[0] == 'died':
        ctx.fail(f'the process exploring shard {shard} died: {r}')
    n, pairs, bad = r
    ctx.states += pairs
    ctx.transitions += n
    ctx.traces += n
    ctx.outcome('schedules in a warm process', n)
    if bad:
        ctx.fail(*bad)
    # first-use races: every schedule in its own process
    T = probes.table('QM')
    for i, g in enumerate(T):
        if i % N != shard:
            continue
        p, q = g[0], g[min(3, len(g) - 1)]
        ctx.case = lambda: code(p, q, 0, None, False)
        bp, bq = isolated(lambda: lines_of(p)), isolated(lambda: lines_of(q))
        if bp is None or bq is None:
            ctx.fail(f'{p}: the process running the call died')
        (wp, np_), (wq, _) = bp, bq
        for k1 in points(np_, 12 if ctx.tier != 'thorough' else 60):
            got = isolated(lambda: cold(p, q, k1))
            ctx.transitions += 1
            ctx.traces += 1
            ctx.outcome('schedules in a fresh process')
            if got is None or got[0] == 'hang' or not same(got[0], wp) or not same(got[1], wq):
                again = isolated(lambda: cold(p, q, k1))
                if again is None or again[0] == 'hang' or not same(again[0], wp) or not same(again[1], wq):
                    ctx.fail(message(p, q, k1, None, got, (wp, wq), False), code(p, q, k1, None, False))
        ctx.states += 1
    ctx.sample(lambda: f'{T[shard][0]} || {T[shard][-1]}')
