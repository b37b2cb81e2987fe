"""C08: segment predicates."""
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.line_2d import Line2D
from pyrusgeom.segment_2d import Segment2D
from mc import geo
from mc import hair as fine
from mc.lib import places, TINY, grid, V, vs, at, pt

TITLE = 'Segment intersection and incidence predicates are exact'
BOUNDS = ('all ordered pairs of segments (degenerate ones included) with ends on a 4x4 lattice (thorough 5x5), all segment/line pairs of the 4x4 lattice, every segment with all '
          'points of the half lattice around it and with points 2^-3..2^-22 outside its box; 5 (thorough 9) exactly representable placements; the exact predicates also at two placements of scale 2^-20 and on 3x3 lattices stretched by 2^3..2^14 along one axis; 6 segments in 4 sizes (1 to 512 times) with segments in 7 directions and lines from points on, and 2^-3 to 2^-17 beside, them and their ends')
ASSUMPTIONS = ['coordinates are dyadic, so the orientation tests of the library are exact on them', 'intersection points of degenerate segments are not decided (their carrier is not a line)']


def S(pl, a, b):
    return Segment2D(V(pl, a), V(pl, b))


def sv(pl, a, b):
    return f'Segment2D({vs(pl, a)}, {vs(pl, b)})'


def pair(ctx, pl, a, b, s, c, d, t):
    what = lambda: f's = {sv(pl, a, b)}; t = {sv(pl, c, d)}'
    ctx.case = lambda: what() + '\nprint(s.exist_intersection(t), s.exist_intersection_except_endpoint(t), s.intersects_except_endpoint(t), s.intersection(t), s.intersection(t, True), s.intersection(t, False))'
    share, cross = geo.segs_meet(a, b, c, d), geo.segs_cross(a, b, c, d)
    got = s.exist_intersection(t)
    if bool(got) != share:
        ctx.fail(f'{what()}: exist_intersection is {got}, expected {share}')
    for f in (s.exist_intersection_except_endpoint, s.intersects_except_endpoint):
        if bool(f(t)) != cross:
            ctx.fail(f'{what()}: {f.__name__} is {f(t)}, expected {cross}')
    ctx.transitions += 3
    if a != b and c != d and not pl.tiny:
        x = geo.line_meet(a, b, c, d)
        w_end = x if x is not None and share else None
        w_int = x if x is not None and cross else None
        for name, r, w in (('intersection(t)', s.intersection(t), w_int), ('intersection(t, False)', s.intersection(t, False), w_int), ('intersection(t, True)', s.intersection(t, True), w_end)):
            if w is None:
                if r.is_valid():
                    ctx.fail(f'{what()}: {name} is {pt(r)}, expected none')
            elif not at(r, pl, w):
                ctx.fail(f'{what()}: {name} is {pt(r)}, expected ({pl.fx(w[0])!r},{pl.fy(w[1])!r})')
        ctx.transitions += 3
    ctx.traces += 1
    ctx.outcome('degenerate' if a == b or c == d else 'proper crossing' if cross else 'touch or overlap' if share else 'apart')


def with_line(ctx, pl, a, b, s, p, q, l):
    what = lambda: f's = {sv(pl, a, b)}; l = Line2D({vs(pl, p)}, {vs(pl, q)})'
    ctx.case = lambda: what() + '\nprint(s.exist_intersection(l), s.intersection(l))'
    share = geo.sgn(geo.cross(p, q, a)) * geo.sgn(geo.cross(p, q, b)) <= 0
    if bool(s.exist_intersection(l)) != share:
        ctx.fail(f'{what()}: exist_intersection is {s.exist_intersection(l)}, expected {share}')
    ctx.transitions += 1
    if a != b and not pl.tiny:
        x = geo.line_meet(a, b, p, q)
        r = s.intersection(l)
        if x is None or not share:
            if r.is_valid():
                ctx.fail(f'{what()}: intersection is {pt(r)}, expected none')
        elif not at(r, pl, x):
            ctx.fail(f'{what()}: intersection is {pt(r)}, expected ({pl.fx(x[0])!r},{pl.fy(x[1])!r})')
        ctx.transitions += 1
        ctx.outcome('line: ' + ('parallel' if x is None else 'meets' if share else 'misses'))
    ctx.traces += 1


def with_points(ctx, pl, a, b, s, n):
    for hx in range(-1, 2 * n):
        for hy in range(-1, 2 * n):
            p2 = (hx, hy)
            W = Vector2D(pl.ox + pl.s * hx / 2, pl.oy + pl.s * hy / 2)
            a2, b2 = (2 * a[0], 2 * a[1]), (2 * b[0], 2 * b[1])
            on = geo.on_seg(p2, a2, b2)
            what = lambda: f's = {sv(pl, a, b)}; w = Vector2D({W.x()!r}, {W.y()!r})'
            ctx.case = lambda: what() + '\nprint(s.on_segment(w), s.on_segment_weakly(w), s.contains(w), s.check_intersects_on_line(w))'
            if bool(s.on_segment(W)) != on:
                ctx.fail(f'{what()}: on_segment is {s.on_segment(W)}, expected {on}')
            if not pl.tiny and bool(s.on_segment_weakly(W)) != on:
                ctx.fail(f'{what()}: on_segment_weakly is {s.on_segment_weakly(W)}, expected {on}')
            box = min(a2[0], b2[0]) <= hx <= max(a2[0], b2[0]) and min(a2[1], b2[1]) <= hy <= max(a2[1], b2[1])
            if not pl.tiny and bool(s.contains(W)) != box:
                ctx.fail(f'{what()}: contains (box test) is {s.contains(W)}, expected {box}')
            ctx.transitions += 3
            if a != b and geo.cross(a2, b2, p2) == 0:
                if bool(s.check_intersects_on_line(W)) != on:
                    ctx.fail(f'{what()}: check_intersects_on_line is {s.check_intersects_on_line(W)}, expected {on}')
                ctx.transitions += 1
            ctx.outcome('point on segment' if on else 'point in box' if box else 'point outside')
    ctx.states += 1


def hair(ctx, pl, a, b, tier):
    """points a hair outside the box of the segment, with the documented tolerance (1e-9 on a product of two distances) left out"""
    s = S(pl, a, b)
    x0, x1, y0, y1 = (f(pl.xy(a)[k], pl.xy(b)[k]) for k in (0, 1) for f in (min, max))
    for k in (range(3, 23) if tier == 'thorough' else (4, 9, 13, 16, 19, 22)):
        h = 2.0 ** -k
        xs = [(x, x in (x0 - h, x1 + h)) for x in (x0 - h, x0, (x0 + x1) / 2, x1, x1 + h)]
        ys = [(y, y in (y0 - h, y1 + h)) for y in (y0 - h, y0, (y0 + y1) / 2, y1, y1 + h)]
        for x, ox in xs:
            for y, oy in ys:
                out = ox and h * (x1 - x0 + h) >= 1e-8 or oy and h * (y1 - y0 + h) >= 1e-8
                if (ox or oy) and not out:
                    continue
                ctx.case = lambda: f's = {sv(pl, a, b)}; w = Vector2D({x!r}, {y!r}); print(s.contains(w), s.on_segment(w))'
                W = Vector2D(x, y)
                if bool(s.contains(W)) == bool(out):
                    ctx.fail(f'{sv(pl, a, b)}: contains (box test) of ({x!r},{y!r}) is {s.contains(W)}')
                if out and s.on_segment(W):
                    ctx.fail(f'{sv(pl, a, b)}: on_segment of ({x!r},{y!r}) outside the box is {s.on_segment(W)}')
                ctx.transitions += 2
                ctx.outcome('a hair outside the box' if out else 'on the box')
    ctx.traces += 1


def thin(ctx, k, m, i, n):
    """the 3x3 (thorough 4x4) lattice stretched by 2^k along one axis: very flat and very steep segments, exactly touching, overlapping and crossing"""
    g = [(x * 2 ** k, y) if m else (x, y * 2 ** k) for x in range(3) for y in range(3)]
    if ctx.tier == 'thorough':
        g += [(3 * 2 ** k, 1) if m else (1, 3 * 2 ** k), (3 * 2 ** k, 3) if m else (3, 3 * 2 ** k)]
    f = lambda p: (float(p[0]), float(p[1]))
    segs = [(a, b, Segment2D(Vector2D(*f(a)), Vector2D(*f(b)))) for a in g for b in g]
    for a, b, s in segs[i::n]:
        for c, d, t in segs:
            what = lambda: f's = Segment2D(Vector2D{f(a)!r}, Vector2D{f(b)!r}); t = Segment2D(Vector2D{f(c)!r}, Vector2D{f(d)!r})'
            ctx.case = lambda: what() + '\nprint(s.exist_intersection(t), s.exist_intersection_except_endpoint(t))'
            share, cross = geo.segs_meet(a, b, c, d), geo.segs_cross(a, b, c, d)
            if bool(s.exist_intersection(t)) != share or bool(s.exist_intersection_except_endpoint(t)) != cross:
                ctx.fail(f'{what()}: exist_intersection {s.exist_intersection(t)}, except endpoints {s.exist_intersection_except_endpoint(t)}; expected {share}, {cross}')
            ctx.transitions += 2
            ctx.outcome('stretched: ' + ('crossing' if cross else 'touching' if share else 'apart'))
        ctx.traces += 1
        for x in range(-1, 10):
            for y in range(-1, 10):
                p = (F(x * 2 ** k, 4), F(y, 4)) if m else (F(x, 4), F(y * 2 ** k, 4))
                on = geo.on_seg(p, a, b)
                ctx.case = lambda: f's = Segment2D(Vector2D{f(a)!r}, Vector2D{f(b)!r}); print(s.on_segment(Vector2D{f(p)!r}), s.check_intersects_on_line(Vector2D{f(p)!r}))'
                P = Vector2D(*f(p))
                if bool(s.on_segment(P)) != on:
                    ctx.fail(f'Segment2D(Vector2D{f(a)!r}, Vector2D{f(b)!r}).on_segment of {f(p)} is {s.on_segment(P)}, expected {on}')
                if a != b and geo.cross(a, b, p) == 0 and bool(s.check_intersects_on_line(P)) != on:
                    ctx.fail(f'Segment2D(Vector2D{f(a)!r}, Vector2D{f(b)!r}).check_intersects_on_line of {f(p)} is {s.check_intersects_on_line(P)}, expected {on}')
                ctx.transitions += 1
        ctx.states += 1
    ctx.sample(lambda: ctx.case())


VECS = [(4, 0), (0, -4), (4, 4), (4, -2), (-1, 2), (1, 0)]


def near_pair(ctx, s, ss, A, B, p, q, tol):
    f = lambda p: (float(p[0]), float(p[1]))
    t = Segment2D(Vector2D(*f(p)), Vector2D(*f(q)))
    ts = f'Segment2D(Vector2D{f(p)!r}, Vector2D{f(q)!r})'
    ctx.case = lambda: f's = {ss}; t = {ts}\nprint(s.exist_intersection(t), t.exist_intersection(s), s.exist_intersection_except_endpoint(t), s.intersection(t), s.intersection(t, True))'
    share, cross = geo.segs_meet(A, B, p, q), geo.segs_cross(A, B, p, q)
    for x, y in ((s, t), (t, s)):
        if bool(x.exist_intersection(y)) != share or bool(x.exist_intersection_except_endpoint(y)) != cross or bool(x.intersects_except_endpoint(y)) != cross:
            ctx.fail(f's = {ss}; t = {ts}: exist_intersection {x.exist_intersection(y)}, except endpoints {x.exist_intersection_except_endpoint(y)}; expected {share}, {cross}')
    x = geo.line_meet(A, B, p, q)
    for name, r, w in (('intersection(t)', s.intersection(t), x if cross else None), ('intersection(t, True)', s.intersection(t, True), x if share else None)):
        if r.is_valid() != (w is not None) or w is not None and max(abs(r.x() - w[0]), abs(r.y() - w[1])) > tol:
            ctx.fail(f's = {ss}; t = {ts}: {name} is {pt(r)}, expected {w and f(w)}')
    l = Line2D(Vector2D(*f(p)), Vector2D(*f(q)))
    m = geo.sgn(geo.cross(p, q, A)) * geo.sgn(geo.cross(p, q, B)) <= 0
    ctx.case = lambda: f's = {ss}; l = Line2D(Vector2D{f(p)!r}, Vector2D{f(q)!r})\nprint(s.exist_intersection(l), s.intersection(l))'
    r = s.intersection(l)
    if bool(s.exist_intersection(l)) != m:
        ctx.fail(f's = {ss}; l = Line2D(Vector2D{f(p)!r}, Vector2D{f(q)!r}): exist_intersection is {s.exist_intersection(l)}, expected {m}')
    if r.is_valid() != bool(m and x):
        ctx.fail(f's = {ss}; l = Line2D(Vector2D{f(p)!r}, Vector2D{f(q)!r}): intersection is {pt(r)}, expected {x and m and f(x)}')
    ctx.transitions += 10
    ctx.outcome('ends on the other or crosses it by a hair' if share else 'misses by a hair')


def near_pairs(ctx, scale, i, n):
    """segments that end on, or a hair beside, another one of very different size; lines through such points; collinear gaps"""
    hs = fine.steps(scale, ctx.tier)
    f = lambda p: (float(p[0]), float(p[1]))
    for vec in VECS[i::n]:
        for off in fine.OFFS[scale]:
            a, b = fine.scaled([(0, 0), vec], scale, off)
            for A, B in ((a, b), (b, a)):
                s = Segment2D(Vector2D(*f(A)), Vector2D(*f(B)))
                ss = f'Segment2D(Vector2D{f(A)!r}, Vector2D{f(B)!r})'
                L = max(abs(A[0] - B[0]), abs(A[1] - B[1]))
                for c in set(fine.beside(A, B, hs)):
                    W = Vector2D(*f(c))
                    on = geo.on_seg(c, A, B)
                    ctx.case = lambda: f's = {ss}; w = Vector2D{f(c)!r}\nprint(s.on_segment(w))'
                    if bool(s.on_segment(W)) != on:
                        ctx.fail(f'{ss}: on_segment of {f(c)} is {s.on_segment(W)}, expected {on}')
                    d = geo.seg_pt_d2(A, B, c)[0]
                    if (d == 0 or d > 9e-12) and bool(s.on_segment_weakly(W)) != (d == 0):
                        ctx.fail(f'{ss}: on_segment_weakly of {f(c)} is {s.on_segment_weakly(W)}, expected {d == 0}')
                    ctx.transitions += 2
                    along = ((B[0] - A[0]) / L, (B[1] - A[1]) / L)
                    for e in ((1, 0), (0, 1), (-1, 1), (-2, -1), (1, -1), (0, -1), along):
                        for back, fwd in ((0, scale), (F(1, 16), F(1, 16)), (scale, scale)):
                            near_pair(ctx, s, ss, A, B, (c[0] - back * e[0], c[1] - back * e[1]), (c[0] + fwd * e[0], c[1] + fwd * e[1]), 1e-9 * (1 + scale + abs(off[0])))
                ctx.states += 1
                ctx.traces += 1
    ctx.sample(lambda: ctx.case())


def shards(tier):
    np = len(places(tier)) + len(TINY)
    n = 8 if tier != 'thorough' else 25
    out = [('thin', k, m, 1) for k in ((3, 6, 9, 11, 14) if tier != 'thorough' else range(2, 21)) for m in (0, 1)] + [('near', s, i, len(VECS)) for s in fine.SCALES for i in range(len(VECS))] + [(kind, k, i, n) for kind in ('pt', 'line', 'seg') for k in range(np) for i in range(n)]
    if tier == 'smoke':
        out = [o for o in out if o[1] < 4 and o[2] < 2]
    return out


def run(shard, ctx):
    kind, k, i, n = shard
    if kind == 'thin':
        return thin(ctx, k, i, 0, 1)
    if kind == 'near':
        return near_pairs(ctx, k, i, n)
    pl = (TINY + places(ctx.tier))[k]
    m = 5 if ctx.tier == 'thorough' and kind != 'line' else 4
    g = grid(m)
    segs = [(a, b) for a in g for b in g]
    if kind == 'pt':
        for a, b in segs[i::n]:
            with_points(ctx, pl, a, b, S(pl, a, b), m)
            if not pl.tiny:
                hair(ctx, pl, a, b, ctx.tier)
        ctx.sample(f'{sv(pl, a, b)} with {(2 * m + 1) ** 2} points')
        return
    if kind == 'seg':
        other = [(c, d, S(pl, c, d)) for c, d in segs]
    else:
        other = [(p, q, Line2D(V(pl, p), V(pl, q))) for p, q in segs if p != q]
    for a, b in segs[i::n]:
        s = S(pl, a, b)
        for c, d, t in other:
            (pair if kind == 'seg' else with_line)(ctx, pl, a, b, s, c, d, t)
    ctx.sample(f'{sv(pl, a, b)} with {len(other)} {kind}s')
