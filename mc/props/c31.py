"""C31: text forms."""
import re
from mc import mine, probes
from mc.obs import obs

TITLE = 'Text forms show the current numbers of the object'
BOUNDS = ('angles, vectors, lines, rays, segments, circles, sectors, sizes, rectangles, triangles, matrices, polygons and hulls: every value of the alphabet (4 to 8 per class, plus 40 whose numbers run through zero, negative, small, large, short and long decimals) '
          'after every history of 0, 1 and 2 (thorough 3 over a third of them) updates of the update table, with the text read or not read between the updates; str, repr, formatting and, where defined, to_str with 4 prefixes')
ASSUMPTIONS = ['only the numbers of the text and their order are judged, not its punctuation', 'the "= 0" and a zero constant term of a line may be left out']
NUM = re.compile(r'[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?|[-+]?(?:inf|nan)')
TYPES = 'avlysckzqtmph'
NAMES = dict(a='AngleDeg', v='Vector2D', l='Line2D', y='Ray2D', s='Segment2D', c='Circle2D', k='Sector2D', z='Size2D', q='Rect2D', t='Triangle2D', m='Matrix2D', p='Polygon2D', h='ConvexHull')
X = ['0', '-0.5', '1e-05', '123456.789', '0.1', '-7', '1e+16', '3.3333333333333335', '99.9996', '-0.0004', '2.0005', '4e-07', '-1e-09']


def extra(ty):
    """values whose numbers run through X, position by position"""
    n = dict(a=1, v=2, l=3, y=3, s=4, c=3, k=6, z=2, q=4, t=6, m=6, p=8, h=0)[ty]
    f = dict(a='AngleDeg({0})', v='Vector2D({0}, {1})', l='Line2D({0}, {1}, {2})', y='Ray2D(Vector2D({0}, {1}), {2})', s='Segment2D({0}, {1}, {2}, {3})', c='Circle2D(Vector2D({0}, {1}), {2})',
             k='Sector2D(Vector2D({0}, {1}), {2}, {3}, {4}, {5})', z='Size2D({0}, {1})', q='Rect2D({0}, {1}, {2}, {3})', t='Triangle2D(Vector2D({0}, {1}), Vector2D({2}, {3}), Vector2D({4}, {5}))',
             m='Matrix2D({0}, {1}, {2}, {3}, {4}, {5})', p='Polygon2D([Vector2D({0}, {1}), Vector2D({2}, {3}), Vector2D({4}, {5}), Vector2D({6}, {7})])', h='')[ty]
    xs = X + [repr(c) for c in mine.near(1e-4, 1e6, cap=4)]
    out = []
    for i in range(n):
        for j, x in enumerate(xs):
            row = [repr(1.5 + 2 * k) for k in range(n)]
            row[i] = x
            out.append(f.format(*row))
    for j in range(len(xs)):
        if n > 1:
            out.append(f.format(*[xs[(j + 3 * k) % len(xs)] for k in range(n)]))
    return [o for o in dict.fromkeys(out) if 'e+16' not in o or ty not in 'ayk']


def numbers(o, ty):
    """the numbers the text has to show, in order"""
    if ty == 'a':
        return [o.degree()]
    if ty == 'v':
        return [o.x(), o.y()]
    if ty == 'l':
        return [o.a(), o.b(), o.c()]
    if ty == 'y':
        return numbers(o.origin(), 'v') + [o.dir().degree()]
    if ty == 's':
        return numbers(o.origin(), 'v') + numbers(o.terminal(), 'v')
    if ty == 'c':
        return numbers(o.center(), 'v') + [o.radius()]
    if ty == 'k':
        return numbers(o.center(), 'v') + [o.angle_left_start().degree(), o.angle_right_end().degree(), o.radius_min(), o.radius_max()]
    if ty == 'z':
        return [o.length(), o.width()]
    if ty == 'q':
        return numbers(o.top_left(), 'v') + [o.size().length(), o.size().width()]
    if ty == 't':
        return numbers(o.a(), 'v') + numbers(o.b(), 'v') + numbers(o.c(), 'v')
    if ty == 'm':
        return [o.m11(), o.m12(), o.m21(), o.m22(), o.dxtf(), o.dytf()]
    if ty == 'p':
        return [x for v in o.vertices() for x in (v.x(), v.y())]
    return [x for v in o.vertices() for x in (v.x(), v.y())] + [x for e in o.edges() for x in numbers(e, 's')]


def to_str_numbers(o, ty):
    if ty == 'q':
        return [o.left(), o.top(), o.right(), o.bottom()]
    return numbers(o, ty)


def read(text, ty):
    if ty == 'l':
        text = re.sub(r'=\s*0(\.0)?\s*\)?\s*$', '', text)
    return [float(x) for x in NUM.findall(text.replace('2D', ''))]


def judge(ctx, o, ty):
    want = [float(x) for x in numbers(o, ty)]
    ok = [want]
    if ty == 'l' and want[2] == 0:
        ok.append(want[:2])
    for how, text in (('str', str(o)), ('repr', repr(o)), ('format', f'{o}')):
        if not isinstance(text, str) or read(text, ty) not in ok:
            ctx.fail(f'{how} of the {NAMES[ty]} is {text!r}, its numbers are {want}')
    ctx.transitions += 3
    if ty in 'csqt':
        want = [float(x) for x in to_str_numbers(o, ty)]
        for prefix in ('', 'x', '(line 1 2', 'abc '):
            text = o.to_str(prefix)
            if not isinstance(text, str) or not text.startswith(prefix):
                ctx.fail(f'to_str({prefix!r}) of the {NAMES[ty]} is {text!r}')
            got = read(text[len(prefix):], ty)
            if len(got) != len(want) or any(abs(g - w) > 0.0005 + 1e-9 * (1 + abs(w)) for g, w in zip(got, want)):
                ctx.fail(f'to_str({prefix!r}) of the {NAMES[ty]} is {text!r}, its numbers are {want}')
            ctx.transitions += 1


def updates(ty):
    """[source of an update of x1]; its arguments are spelled out"""
    out = []
    for kind, g in probes.groups('M'):
        stmt, _, expr = g.rpartition('; ')
        if expr != ty + '1':
            continue
        names = sorted({m.group(0) for m in probes.NAME.finditer(stmt)} - {ty + '1'})
        for c in (0, 3):
            src = stmt
            for n in names:
                vs = probes.VALUES[n[0]]
                src = re.sub(rf'\b{n}\b', vs[(c + int(n[1]) - 1) % len(vs)].replace('\\', r'\\'), src)
            out.append(src)
    # through the accessors that hand out references
    refs = dict(y=['y1.origin_().set_x(8.25)', 'y1.dir_().set_degree(-75.5)'], s=['s1.origin_().set_y(8.25)', 's1.terminal_().set_x(-8.5)'], c=['c1.center_().set_x(8.25)'], k=['k1.center_().set_y(8.25)', 'k1.angle_left_start_().set_degree(12.5)', 'k1.angle_right_end_().set_degree(-12.5)'],
                q=['q1.top_left_().set_x(-8.25)', 'q1.size_().set_width(8.5)'], t=['t1.a_().set_x(8.25)', 't1.b_().set_y(8.25)', 't1.c_().set_x(-8.25)'])
    return list(dict.fromkeys(out + refs.get(ty, [])))


def shards(tier):
    return [(ty, i) for ty in TYPES for i in range(2)]


def run(shard, ctx):
    ty, part = shard
    name = ty + '1'
    ups = updates(ty)
    comp = {u: compile(u, '<update>', 'exec') for u in ups}
    starts = list(dict.fromkeys(probes.VALUES[ty] + extra(ty)))
    hist = [()] + [(u,) for u in ups]

    def go(start, hs, reads):
        env = dict(probes.ENV)
        ctx.case = lambda: f'def computed(ps, how):\n    h = ConvexHull(ps); h.compute(how); return h\nfrom mc.probes import ring   # PYTHONPATH=/repo/src:/verif\n{name} = {start}\n' + '\n'.join((f'str({name})\n' if r else '') + h for h, r in zip(hs, reads)) + f'\nprint({name})' + (f", {name}.to_str('x')" if ty in 'csqt' else '')
        env[name] = eval(start, env)
        for h, r in zip(hs, reads):
            if r:
                judge(ctx, env[name], ty)
            try:
                exec(comp[h], env)
            except Exception as e:  # noqa - a rejected update is not the subject here
                ctx.outcome('update raised ' + type(e).__name__)
                return
        judge(ctx, env[name], ty)
        ctx.seen.add(ty + repr(obs(env[name])))
        ctx.traces += 1
        ctx.outcome(NAMES[ty])
        ctx.sample(ctx.case, cap=1)

    for s in starts[part::2]:
        for h in hist:
            for r in ((False,), (True,)) if h else ((),):
                go(s, h, r)
    for s in probes.VALUES[ty][part::2]:
        for a in ups:
            for b in ups:
                for r in ((True, True), (False, True), (True, False)):
                    go(s, (a, b), r)
                if ctx.tier == 'thorough':
                    for c in ups[::3]:
                        go(s, (a, b, c), (True, True, True))
