"""C32: unusable arguments are rejected."""
import itertools
from mc.obs import obs
from mc.probes import ENV

TITLE = 'Arguments of unsupported kinds are rejected with an exception, never answered'
BOUNDS = ('every argument tuple of length 0 to 4 (5 for vectors and lines) over 16 kinds of arguments (nothing, text, list, tuple, number, angle and one object of every class) for the constructors of angles, vectors, lines, rays, segments, circles, triangles, rectangles and sizes, '
          'and every tuple of length 0 to 2 for 43 methods that dispatch on or need a kind of argument; keyword constructions of vectors and lines with every subset of the known and 3 unknown names')
ASSUMPTIONS = ['the supported signatures are those of the documentation; an angle is accepted where a number of degrees or a length is expected, except where the documented signature excludes it', 'numbers are ints and floats',
               'tuples that the documentation neither allows nor excludes (listed as "either") are not judged', 'truth values and optional flags are not judged']
RECV = dict(k='Sector2D(Vector2D(1, 2), 1, 3, 0, 90)')
KINDS = {
    '-': 'None', 'S': '"x"', 'L': '[1.0, 2.0]', 'T': '(1.0, 2.0)', 'n': '1.5', 'a': 'AngleDeg(30.0)', 'v': 'Vector2D(1.0, 2.0)', 'l': 'Line2D(1.0, 2.0, -3.0)', 'y': 'Ray2D(Vector2D(1, 1), 30.0)', 's': 'Segment2D(0, 0, 1, 2)',
    'c': 'Circle2D(Vector2D(1, 2), 3)', 't': 'Triangle2D(Vector2D(0, 0), Vector2D(1, 0), Vector2D(0, 1))', 'q': 'Rect2D(0, 0, 2, 3)', 'z': 'Size2D(1, 2)', 'm': 'Matrix2D()', 'p': 'Polygon2D([Vector2D(0, 0), Vector2D(1, 0), Vector2D(0, 1)])',
}
# constructor: (supported, not judged, longest tuple)
NEW = {
    'AngleDeg': ({'', 'n', 'a'}, set(), 3),
    'Vector2D': ({'', 'v', 'nn'}, set(), 4),
    'Line2D': ({'l', 'vn', 'va', 'vv', 'nnn'}, set(), 4),
    'Ray2D': ({'vn', 'va', 'vv'}, set(), 3),
    'Segment2D': ({'', 'vv', 'vnn', 'vna', 'nnnn'}, set(), 4),
    'Circle2D': ({'', 'v', 'vn'}, set(), 3),
    'Triangle2D': ({'sv', 'vvv'}, {'yv'}, 4),
    'Rect2D': ({'q', 'vv', 'vz', 'vnn', 'nnnn'}, {'vna', 'van', 'vaa', 'nnna', 'nnan', 'nnaa'}, 4),
}
# receiver, method: (supported, not judged)
CALL = {
    ('v', 'add'): ({'v', 'nn'}, set()), ('v', 'sub'): ({'v', 'nn'}, set()), ('v', 'dist'): ({'v'}, set()), ('v', 'dist2'): ({'v'}, set()), ('v', 'inner_product'): ({'v'}, set()), ('v', 'outer_product'): ({'v'}, set()), ('v', 'rotate'): ({'n', 'a'}, set()), ('v', 'set_dir'): ({'n', 'a'}, set()),
    ('v', 'rotated_vector'): ({'n', 'a'}, set()), ('v', '__add__'): ({'v'}, set()), ('v', '__sub__'): ({'v'}, set()), ('v', 'set_length'): ({'n'}, {'a'}), ('v', 'set_vector'): ({'v'}, set()),
    ('l', 'dist'): ({'v'}, set()), ('l', 'dist2'): ({'v'}, set()), ('l', 'intersection'): ({'l'}, set()), ('l', 'is_parallel'): ({'l'}, set()), ('l', 'perpendicular'): ({'v'}, set()), ('l', 'projection'): ({'v'}, set()), ('l', 'get_x'): ({'n'}, {'a'}), ('l', 'get_y'): ({'n'}, {'a'}),
    ('y', 'intersection'): ({'l', 'y'}, set()), ('y', 'in_right_dir'): ({'v', 'vn'}, {'va'}),
    ('s', 'dist'): ({'v', 's'}, set()), ('s', 'nearest_point'): ({'v'}, set()), ('s', 'projection'): ({'v'}, set()), ('s', 'contains'): ({'v'}, set()), ('s', 'on_segment'): ({'v'}, set()), ('s', 'on_segment_weakly'): ({'v'}, set()), ('s', 'farthest_dist'): ({'v'}, set()), ('s', 'exist_intersection_except_endpoint'): ({'s'}, {'y'}),
    ('c', 'intersection'): ({'l', 'y', 's', 'c'}, set()), ('c', 'contains'): ({'v'}, set()),
    ('t', 'contains'): ({'v'}, set()), ('k', 'contains'): ({'v'}, set()), ('q', 'move_top_left'): ({'v'}, set()), ('q', 'move_bottom_right'): ({'v'}, set()),
    ('q', 'intersection'): ({'l', 'y', 's'}, set()), ('q', 'contains'): ({'v'}, set()), ('q', 'intersected'): ({'q'}, set()), ('q', 'united'): ({'q'}, set()), ('q', 'set_size'): ({'z', 'nn'}, {'na', 'an', 'aa'}), ('q', 'move_center'): ({'v'}, set()),
    ('a', 'is_left_of'): ({'n', 'a'}, set()), ('a', 'is_right_of'): ({'n', 'a'}, set()), ('a', 'is_within'): ({'nn', 'na', 'an', 'aa'}, set()), ('a', '__add__'): ({'n', 'a'}, set()), ('a', '__sub__'): ({'n', 'a'}, set()), ('a', 'set_degree'): ({'n'}, {'a'}),
    ('m', 'transform'): ({'v', 'nn'}, set()),
    ('p', 'contains'): ({'v'}, {'v' + k for k in KINDS}), ('p', 'get_rectangle_clipped_polygon'): ({'q'}, set()),
}
KW = {
    'Vector2D': (dict(x='1.5', y='2.5', r='2.0', a='30.0', z='1.0', point='Vector2D(1, 2)', b='3.0'), [{'x', 'y'}, {'r', 'a'}], set()),
    'Line2D': (dict(a='1.5', b='2.5', c='-1.0', p1='Vector2D(1, 2)', p2='Vector2D(4, -3)', p='Vector2D(1, 2)', l='Line2D(1.0, 2.0, -3.0)', z='1.0'), [{'a', 'b', 'c'}, {'p1', 'p2'}, {'p', 'a'}, {'l'}], 'superset'),
}


def shards(tier):
    return [('new', c, k) for c in NEW for k in KINDS] + [('call', i) for i in range(len(CALL))] + [('kw', c) for c in KW]


def build(k):
    return eval((KINDS | RECV)[k], dict(ENV))


def attempt(f):
    try:
        return True, f()
    except RecursionError:
        raise
    except Exception as e:  # noqa - a rejection
        return False, e


def judge(ctx, what, ok, either, key, done, res):
    if key in either:
        ctx.outcome('not judged')
    elif key in ok:
        if not done:
            ctx.fail(f'{what} is documented but raised {res!r}')
        ctx.outcome('accepted')
    else:
        if done and res is not NotImplemented:
            ctx.fail(f'{what} is outside every documented signature but returned {res!r}')
        ctx.outcome('rejected')
    ctx.transitions += 1
    ctx.traces += 1
    ctx.states += 1


def run(shard, ctx):
    if shard[0] == 'new':
        _, cls, first = shard
        ok, either, longest = NEW[cls]
        if ctx.tier == 'thorough' and cls in ('Vector2D', 'Line2D', 'Segment2D', 'Rect2D'):
            longest = 5
        make = ENV[cls]
        tuples = [()] if first == '-' else []
        tuples = itertools.chain(tuples, *[((first,) + t for t in itertools.product(KINDS, repeat=n - 1)) for n in range(1, longest + 1)])
        pool = {k: build(k) for k in KINDS}
        for t in tuples:
            src = f'{cls}({", ".join(KINDS[k] for k in t)})'
            ctx.case = f'print({src})'
            done, res = attempt(lambda: make(*[pool[k] for k in t]))
            judge(ctx, src, ok, either, ''.join(t), done, res)
        ctx.sample(src)
    elif shard[0] == 'call':
        (rk, name), (ok, either) = list(CALL.items())[shard[1]]
        for n in range(3):
            for t in itertools.product(KINDS, repeat=n):
                src = f'{(KINDS | RECV)[rk]}.{name}({", ".join(KINDS[k] for k in t)})'
                ctx.case = f'print({src})'
                recv, args = build(rk), [build(k) for k in t]
                done, res = attempt(lambda: getattr(recv, name)(*args))
                judge(ctx, src, ok, either, ''.join(t), done, res)
                if ''.join(t) not in ok and [obs(a) for a in args] != [obs(build(k)) for k in t]:
                    ctx.fail(f'{src} was rejected but changed its arguments to {args!r}')
        ctx.sample(src)
    else:
        cls = shard[1]
        names, ok, loose = KW[cls]
        for n in range(0, len(names) + 1):
            for sub in itertools.combinations(names, n):
                for pos in ((), ('1.5',), ('Vector2D(1, 2)',)):
                    if not sub:
                        continue
                    src = f'{cls}({", ".join(pos + tuple(f"{k}={names[k]}" for k in sub))})'
                    ctx.case = f'print({src})'
                    done, res = attempt(lambda: eval(src, dict(ENV)))
                    if loose and set(sub) not in ok and any(o <= set(sub) for o in ok):
                        continue               # a documented set of names plus others
                    if pos:
                        if set(sub) in ok:
                            continue
                        judge(ctx, src, set(), set(), 'x', done, res)
                    else:
                        judge(ctx, src, {'x'} if set(sub) in ok else set(), set(), 'x', done, res)
        ctx.sample(src)
