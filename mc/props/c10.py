"""C10: shapes answer from their current data, whatever their history."""
import itertools
import math
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.triangle_2d import Triangle2D
from mc.lib import debruijn
from mc.obs import obs, close

TITLE = 'Shapes answer from their current data, whatever their history'
BOUNDS = ('per class (segment, circle, sector, triangle, ray, size): all sequences of constructor + 3 (thorough 4) operations, with every subset of the intermediate points queried '
          '(length 3) or all/none (length 4); one object per class and constructor that lives through every ordered pair of operations (in two orders); after each queried point every accessor and measure is compared with the reference data and with a freshly built object')
ASSUMPTIONS = ['results are compared at 1e-9 relative; query points are off the borders of every explored shape']

ENV = dict(Vector2D=Vector2D, AngleDeg=AngleDeg, Line2D=Line2D, Ray2D=Ray2D, Segment2D=Segment2D, Circle2D=Circle2D, Sector2D=Sector2D, Size2D=Size2D, Triangle2D=Triangle2D, math=math)


def polar(r, a):
    return (r * math.cos(math.radians(a)), r * math.sin(math.radians(a)))


def add(p, q):
    return (p[0] + q[0], p[1] + q[1])


def norm(a):
    return (a + 180.0) % 360.0 - 180.0


class Spec:
    """init: [(source, data)], ops: [(source, data -> data)], fresh(data) -> source, queries: [source], ref(data) -> {query: observable}"""
    def __init__(self, name, init, ops, fresh, queries, ref):
        self.name, self.fresh_src, self.ref = name, fresh, ref
        self.init = [(s, compile(s, '<init>', 'eval'), d) for s, d in init]
        self.ops = [(s, compile(s, '<op>', 'exec'), f) for s, f in ops]
        self.queries = [(q, compile(q, '<q>', 'eval')) for q in queries]
        self.cache = {}

    def expected(self, data):
        if data not in self.cache:
            o = eval(self.fresh_src(data), ENV)
            e = dict(ENV, o=o)
            vals = [obs(eval(c, e)) for _, c in self.queries]
            self.cache[data] = (vals, self.ref(data))
        return self.cache[data]


def v(x, y):
    return ('Vector2D', float(x), float(y), True)


PTS = [(0.3, 0.4), (2.6, 3.3), (-1.7, 2.2), (5.3, -4.6)]
VP = [f'Vector2D({x}, {y})' for x, y in PTS]


def seg_ref(d):
    (ax, ay), (bx, by) = d
    ln = math.hypot(bx - ax, by - ay)
    r = {'o.origin()': v(ax, ay), 'o.terminal()': v(bx, by), 'o.origin_()': v(ax, ay), 'o.terminal_()': v(bx, by), 'o.length()': ln, 'o.is_valid()': ln > 1e-6, 'o.copy()': ('Segment2D', v(ax, ay), v(bx, by)),
         'o.reversed_segment()': ('Segment2D', v(bx, by), v(ax, ay))}
    if ln > 1e-6:
        r['o.direction()'] = ('AngleDeg', math.degrees(math.atan2(by - ay, bx - ax)))
    return r


SEG = Spec('segment',
           [('Segment2D()', ((0.0, 0.0), (0.0, 0.0))), ('Segment2D(Vector2D(1, 2), Vector2D(4, 6))', ((1, 2), (4, 6))), ('Segment2D(-1, 3, -1, -2)', ((-1, 3), (-1, -2))),
            ('Segment2D(Vector2D(1, -1), 5, 90)', ((1, -1), add((1, -1), polar(5, 90)))), ('Segment2D(Vector2D(0.5, 1), 2.5, -135.0)', ((0.5, 1), add((0.5, 1), polar(2.5, -135))))],
           [('o.assign(Vector2D(3, 3), Vector2D(-2, 3))', lambda d: ((3, 3), (-2, 3))), ('o.assign(0.5, -4, 2, 5)', lambda d: ((0.5, -4), (2, 5))), ('o.assign(Vector2D(-3, 1), 4, 30)', lambda d: ((-3, 1), add((-3, 1), polar(4, 30)))),
            ('o.assign()', lambda d: ((0, 0), (0, 0))), ('assert o.swap() is o', lambda d: (d[1], d[0])), ('assert o.reverse() is o', lambda d: (d[1], d[0])), ('o = o.copy()', lambda d: d), ('o = o.reversed_segment()', lambda d: (d[1], d[0])),
            ('o.origin_().assign(6, -1)', lambda d: ((6, -1), d[1])), ('o.terminal_().add(1, 2)', lambda d: (d[0], add(d[1], (1, 2)))), ('o.assign(o.terminal_(), o.origin_())', lambda d: (d[1], d[0])),
            ('o.assign(o.origin_(), o.origin_())', lambda d: (d[0], d[0])), ('o.origin_().reverse(); o.terminal_().reverse()', lambda d: ((-d[0][0], -d[0][1]), (-d[1][0], -d[1][1])))],
           lambda d: f'Segment2D(Vector2D{d[0]!r}, Vector2D{d[1]!r})',
           ['o.origin()', 'o.terminal()', 'o.origin_()', 'o.terminal_()', 'o.length()', 'o.is_valid()', 'o.direction()', 'o.line()', 'o.copy()', 'o.reversed_segment()', 'o.perpendicular_bisector()', 'str(o)[:1]',
            'o.intersection(Segment2D(-9.1, -8.3, 9.7, 8.9), True)', 'o.intersection(Line2D(1.0, 1.1, -3.13))', 'o.exist_intersection(Segment2D(-9.1, -8.3, 9.7, 8.9))', 'o.exist_intersection(Line2D(1.0, 1.1, -3.13))',
            'o.exist_intersection_except_endpoint(Segment2D(-9.1, -8.3, 9.7, 8.9))', 'o.dist(Segment2D(-9.1, 8.3, -7, 7.9))'] +
           [f'o.{m}({p})' for p in VP for m in ('nearest_point', 'dist', 'farthest_dist', 'projection', 'contains', 'on_segment', 'on_segment_weakly')], seg_ref)


def circ_ref(d):
    (x, y), r = d
    out = {'o.center()': v(x, y), 'o.center_()': v(x, y), 'o.radius()': float(r), 'o.area()': math.pi * r * r}
    for p, q in zip(PTS, VP):
        out[f'o.contains({q})'] = math.hypot(p[0] - x, p[1] - y) < r
    return out


CIRC = Spec('circle',
            [('Circle2D()', ((0, 0), 0.0)), ('Circle2D(Vector2D(1, 2), 3)', ((1, 2), 3)), ('Circle2D(Vector2D(-4, 0.5), -2.0)', ((-4, 0.5), 0.0)), ('Circle2D(center=Vector2D(2, 2), radius=2.5)', ((2, 2), 2.5))],
            [('o.assign(Vector2D(-1, 1), 4)', lambda d: ((-1, 1), 4)), ('o.assign(Vector2D(5, -4), 0.75)', lambda d: ((5, -4), 0.75)), ('o.assign(Vector2D(0, 3), -1)', lambda d: ((0, 3), 0)), ('o.assign(o.center_(), o.radius() + 1)', lambda d: (d[0], d[1] + 1)),
             ('o.center_().reverse()', lambda d: ((-d[0][0], -d[0][1]), d[1])), ('o.center_().add(2, -1)', lambda d: (add(d[0], (2, -1)), d[1])), ('o.center_().assign(0.25, 0.5)', lambda d: ((0.25, 0.5), d[1])), ('o.assign(Vector2D(1, 2), 0)', lambda d: ((1, 2), 0)),
             ('o.assign(o.center(), 2.25)', lambda d: (d[0], 2.25)), ('o = Circle2D(o.center_(), o.radius())', lambda d: d)],
            lambda d: f'Circle2D(Vector2D{d[0]!r}, {d[1]!r})',
            ['o.center()', 'o.center_()', 'o.radius()', 'o.area()', 'o.intersection(Line2D(1.0, 2.0, -2.1))', 'o.intersection(Line2D(0, 1, -0.77))', 'o.intersection(Segment2D(-9, -8.3, 9, 8.9))', 'o.intersection(Ray2D(Vector2D(0.1, 0.2), 33))',
             'o.intersection(Circle2D(Vector2D(1.3, 1.1), 3.2))', 'o.intersection_with_line(Line2D(2.0, -1.0, 1.3))', 'o.intersection_with_segment(Segment2D(0.3, 0.1, 9, 8.9))'] + [f'o.contains({p})' for p in VP], circ_ref)


def sect_ref(d):
    (x, y), lo, hi, a, b = d
    lo, hi = max(0.0, lo), max(lo, hi)
    sweep = (b - a) % 360.0
    out = {'o.center()': v(x, y), 'o.center_()': v(x, y), 'o.radius_min()': float(lo), 'o.radius_max()': float(hi), 'o.angle_left_start()': ('AngleDeg', norm(a)), 'o.angle_right_end()': ('AngleDeg', norm(b)),
           'o.area()': math.pi * (hi * hi - lo * lo) * sweep / 360, 'o.get_circumference_min()': 2 * math.pi * lo * sweep / 360, 'o.get_circumference_max()': 2 * math.pi * hi * sweep / 360}
    for p, q in zip(PTS, VP):
        dd = math.hypot(p[0] - x, p[1] - y)
        t = (math.degrees(math.atan2(p[1] - y, p[0] - x)) - a) % 360.0
        out[f'o.contains({q})'] = lo <= dd <= hi and t <= sweep
    return out


SECT = Spec('sector',
            [('Sector2D(Vector2D(1, 1), 1, 4, -30, 60)', ((1, 1), 1, 4, -30, 60)), ('Sector2D(Vector2D(-2, 0.5), 0, 8.5, AngleDeg(100), AngleDeg(-80))', ((-2, 0.5), 0, 8.5, 100, -80)), ('Sector2D(Vector2D(0, 0), -1, 6, 10.0, 350)', ((0, 0), -1, 6, 10, 350))],
            [('o.assign(Vector2D(2, -3), 0.5, 7, 20, 170)', lambda d: ((2, -3), 0.5, 7, 20, 170)), ('o.assign(Vector2D(0, 1), 2, 3, AngleDeg(150), AngleDeg(-20))', lambda d: ((0, 1), 2, 3, 150, -20)), ('o.assign(Vector2D(0, 1), 5, 3, 0, -90)', lambda d: ((0, 1), 5, 5, 0, -90)),
             ('a = AngleDeg(40); o.assign(Vector2D(2, 2), 1, 3, a, a)', lambda d: ((2, 2), 1, 3, 40, 40)),
             ('o.assign(Vector2D(-1, -1), -2, 9, -170.5, 170.5)', lambda d: ((-1, -1), -2, 9, -170.5, 170.5)), ('o.center_().reverse()', lambda d: ((-d[0][0], -d[0][1]),) + d[1:]), ('o.center_().add(1, 1)', lambda d: (add(d[0], (1, 1)),) + d[1:]), ('o.angle_left_start_().set_degree(-100)', lambda d: d[:3] + (-100, d[4])),
             ('o.assign(o.center_(), o.radius_min(), o.radius_max(), o.angle_right_end_(), o.angle_left_start_())', lambda d: (d[0], max(0, d[1]), max(d[1], d[2]), d[4], d[3])), ('o.angle_right_end_().set_degree(75)', lambda d: d[:4] + (75,))],
            lambda d: f'Sector2D(Vector2D{d[0]!r}, {d[1]!r}, {d[2]!r}, {d[3]!r}, {d[4]!r})',
            ['o.center()', 'o.center_()', 'o.radius_min()', 'o.radius_max()', 'o.angle_left_start()', 'o.angle_right_end()', 'o.angle_left_start_()', 'o.angle_right_end_()', 'o.area()', 'o.get_circumference_min()', 'o.get_circumference_max()'] +
            [f'o.contains({p})' for p in VP], sect_ref)


def tri_ref(d):
    (ax, ay), (bx, by), (cx, cy) = d
    ds = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
    out = {'o.a()': v(ax, ay), 'o.b()': v(bx, by), 'o.c()': v(cx, cy), 'o.a_()': v(ax, ay), 'o.b_()': v(bx, by), 'o.c_()': v(cx, cy), 'o.area()': abs(ds) / 2, 'o.signed_area()': ds / 2, 'o.double_signed_area()': float(ds), 'o.ccw()': ds > 0,
           'o.is_valid()': len({d[0], d[1], d[2]}) == 3, 'o.centroid()': v((ax + bx + cx) / 3, (ay + by + cy) / 3)}
    return out


TRI = Spec('triangle',
           [('Triangle2D(Vector2D(0, 0), Vector2D(4, 0), Vector2D(1, 5))', ((0, 0), (4, 0), (1, 5))), ('Triangle2D(Segment2D(-2, 1, 3, 6), Vector2D(2, -3))', ((-2, 1), (3, 6), (2, -3)))],
           [('assert o.assign(Vector2D(1, 1), Vector2D(2, 7), Vector2D(-3, 3)) is o', lambda d: ((1, 1), (2, 7), (-3, 3))), ('assert o.assign(Segment2D(-5, -5, 5, -4), Vector2D(0.5, 6)) is o', lambda d: ((-5, -5), (5, -4), (0.5, 6))),
            ('o.assign(o.b_(), o.c_(), o.a_())', lambda d: (d[1], d[2], d[0])), ('o.assign(o.b_(), o.a_(), o.c_())', lambda d: (d[1], d[0], d[2])), ('o.a_().reverse()', lambda d: ((-d[0][0], -d[0][1]), d[1], d[2])), ('o.a_().add(-1, 0.5)', lambda d: (add(d[0], (-1, 0.5)), d[1], d[2])),
            ('o.c_().assign(2.5, 8)', lambda d: (d[0], d[1], (2.5, 8))), ('o.b_().assign(9, 1.25)', lambda d: (d[0], (9, 1.25), d[2])), ('o.assign(Segment2D(o.c_(), o.a_()), o.b_())', lambda d: (d[2], d[0], d[1])),
            ('o.assign(o.a_(), o.a_(), o.b_())', lambda d: (d[0], d[0], d[1]))],
           lambda d: f'Triangle2D(Vector2D{d[0]!r}, Vector2D{d[1]!r}, Vector2D{d[2]!r})',
           ['o.a()', 'o.b()', 'o.c()', 'o.a_()', 'o.b_()', 'o.c_()', 'o.area()', 'o.signed_area()', 'o.double_signed_area()', 'o.ccw()', 'o.is_valid()', 'o.centroid()', 'o.incenter() if o.area() > 0.01 else 0', 'o.circumcenter() if o.area() > 0.01 else 0',
            'o.orthocenter() if o.area() > 0.01 else 0', 'o.intersection(Line2D(1.0, 2.0, -2.1))[0] if o.area() > 0.01 else 0', 'o.intersection(Segment2D(-9.1, -8.3, 9.3, 8.9)) if o.area() > 0.01 else 0'] +
           [f'o.contains({p}) if o.area() > 0.01 else 0' for p in VP], tri_ref)


def ray_ref(d):
    (x, y), a = d
    return {'o.origin()': v(x, y), 'o.origin_()': v(x, y), 'o.dir()': ('AngleDeg', norm(a)), 'o.dir_()': ('AngleDeg', norm(a)), 'o.copy()': ('Ray2D', v(x, y), ('AngleDeg', norm(a)))}


RAY = Spec('ray',
           [('Ray2D(Vector2D(1, 2), Vector2D(4, 5))', ((1, 2), 45.0)), ('Ray2D(Vector2D(-1, 0.5), 120)', ((-1, 0.5), 120)), ('Ray2D(Vector2D(2, 2), AngleDeg(-75))', ((2, 2), -75))],
           [('o.origin_().assign(3, -2)', lambda d: ((3, -2), d[1])), ('o.origin_().add(-1, 1)', lambda d: (add(d[0], (-1, 1)), d[1])), ('o.dir_().set_degree(200)', lambda d: (d[0], 200)), ('o.dir_().reverse()', lambda d: (d[0], d[1] + 180)),
            ('o.dir_().set_degree(-o.dir().degree())', lambda d: (d[0], -d[1])), ('o.origin_().reverse()', lambda d: ((-d[0][0], -d[0][1]), d[1])),
            ('o = o.copy()', lambda d: d), ('o = Ray2D(o.origin_(), o.dir_())', lambda d: d), ('o = Ray2D(o.origin_(), o.origin_() + Vector2D(0, 3))', lambda d: (d[0], 90))],
           lambda d: f'Ray2D(Vector2D{d[0]!r}, {d[1]!r})',
           ['o.origin()', 'o.origin_()', 'o.dir()', 'o.dir_()', 'o.copy()', 'o.line()', 'o.intersection(Line2D(1.0, 2.0, -2.1))', 'o.intersection(Line2D(2.0, -1.0, 7.3))', 'o.intersection(Ray2D(Vector2D(-7.2, -3.3), 31.0))', 'o.intersection(Ray2D(Vector2D(7.2, 5.3), -141.0))'] +
           [f'o.in_right_dir({p}{t})' for p in VP for t in ('', ', 61', ', 122.5')], ray_ref)


def size_ref(d):
    ln, wd = abs(d[0]), abs(d[1])
    return {'o.length()': float(ln), 'o.width()': float(wd), 'o.diagonal()': math.hypot(ln, wd), 'o.is_valid()': ln > 0 and wd > 0, 'o == Size2D(3, 4)': abs(ln - 3) + abs(wd - 4) < 1e-6, 'o == Size2D(2.5, 0)': abs(ln - 2.5) + abs(wd) < 1e-6}


SIZE = Spec('size',
            [('Size2D()', (0, 0)), ('Size2D(3, 4)', (3, 4)), ('Size2D(-2.5, 0)', (-2.5, 0)), ('Size2D(length=7, width=-1)', (7, -1)), ('Size2D(1e-4, 5)', (1e-4, 5)), ('Size2D(2.0 ** -30, 2.0 ** -24)', (2.0 ** -30, 2.0 ** -24))],
            [('o.assign(3, 4)', lambda d: (3, 4)), ('o.assign(-105, 68.0)', lambda d: (-105, 68.0)), ('o.set_length(-3)', lambda d: (-3, d[1])), ('o.set_width(4)', lambda d: (d[0], 4)), ('o.set_length(0)', lambda d: (0, d[1])), ('o.set_width(-0.125)', lambda d: (d[0], -0.125)), ('o.set_width(2.0 ** -24)', lambda d: (d[0], 2.0 ** -24)), ('o.set_length(-2.0 ** -26)', lambda d: (-2.0 ** -26, d[1])),
             ('o.set_length(2.5)', lambda d: (2.5, d[1])), ('o.set_width(0)', lambda d: (d[0], 0)), ('o.assign(o.width(), o.length())', lambda d: (d[1], d[0]))],
            lambda d: f'Size2D({d[0]!r}, {d[1]!r})', ['o.length()', 'o.width()', 'o.diagonal()', 'o.is_valid()', 'o == Size2D(3, 4)', 'o == Size2D(2.5, 0)', 'str(o)[:1]'], size_ref)

SPECS = [SEG, CIRC, SECT, TRI, RAY, SIZE]


def inspect(ctx, spec, env, data, hist):
    vals, ref = spec.expected(data)
    for (q, c), want in zip(spec.queries, vals):
        got = obs(eval(c, env))
        if not close(got, want):
            ctx.fail(f'{spec.name} after {hist()}: {q} is {got!r}, a fresh {spec.fresh_src(data)} says {want!r}')
        if q in ref and not close(got, ref[q]):
            ctx.fail(f'{spec.name} after {hist()}: {q} is {got!r}, expected {ref[q]!r}')
    ctx.transitions += len(spec.queries)


def history(ctx, spec, ini, ops, mask):
    src, code, data = ini
    done = []
    hist = lambda: '; '.join(['o = ' + src] + [s + ('  # queried' if (mask >> k) & 1 else '') for k, s in enumerate(done)])
    ctx.case = lambda: '\n'.join(['def queries(): return [' + ', '.join(q for q, _ in spec.queries) + ']', 'o = ' + src] + [s + ('\nqueries()' if (mask >> k) & 1 else '') for k, s in enumerate(done)] + ['print(queries())'])
    env = dict(ENV)
    env['o'] = eval(code, env)
    inspect(ctx, spec, env, data, hist)
    for k, (s, c, f) in enumerate(ops):
        done.append(s)
        exec(c, env)
        data = f(data)
        if (mask >> k) & 1 or k == len(ops) - 1:
            inspect(ctx, spec, env, data, hist)
            ctx.seen.add((spec.name, data))
    ctx.traces += 1
    ctx.outcome(f'{spec.name} history of length {len(ops)}')


def long(ctx, spec):
    """one object that lives through every ordered pair of operations, queried after each"""
    for ini in spec.init:
        seq = [spec.ops[k] for k in debruijn(len(spec.ops))]
        for s in (seq, seq[::-1]):
            history(ctx, spec, ini, s, (1 << len(s)) - 1)
            history(ctx, spec, ini, s, 0)
    ctx.sample(ctx.case)


def shards(tier):
    out = [(i, j) for i, s in enumerate(SPECS) for j in list(range(len(s.ops))) + ['long']]
    return out if tier != 'smoke' else out[::9]


def run(shard, ctx):
    i, j = shard
    spec = SPECS[i]
    if j == 'long':
        long(ctx, spec)
        return
    first = spec.ops[j]
    for ini in spec.init:
        history(ctx, spec, ini, [first], 0)
        for n in ((1, 2) if ctx.tier != 'thorough' else (1, 2, 3)):
            for rest in itertools.product(spec.ops, repeat=n):
                for mask in (range(1 << n) if n < 3 else (0, 7)):
                    history(ctx, spec, ini, (first,) + rest, mask)
    ctx.sample(ctx.case)
