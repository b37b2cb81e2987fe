"""C09: segment distances."""
import itertools
import math
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.segment_2d import Segment2D
from mc import geo
from mc.lib import places, TINY, grid, V, vs, at, pt, stretches, stretched
from mc.props.c08 import S, sv

TITLE = 'Segment distances, nearest point and projection are the true minima'
BOUNDS = ('every segment (degenerate ones included) with ends on a 4x4 lattice (thorough 5x5) with all half-lattice points within 1.5 units around the lattice, all ordered segment pairs; feet 2^-3..2^-18 inside and outside the ends and segments of length 2^-3..2^-18; '
          '5 (thorough 9) placements, distances and nearest points also at two of scale 2^-20; the same on 3x3 lattices stretched by 2^3..2^11 (thorough 2^2..2^12) along one axis')
ASSUMPTIONS = []


def points(ctx, pl, a, b, m):
    s = S(pl, a, b)
    v = geo.sub(b, a)
    n = geo.dot(v, v)
    tol = 1e-8 * pl.s if pl.tiny else 1e-9 * (1 + pl.mag)
    for hx in range(-3, 2 * m + 2):
        for hy in range(-3, 2 * m + 2):
            w = (F(hx, 2), F(hy, 2))
            W = Vector2D(pl.fx(w[0]), pl.fy(w[1]))
            what = lambda: f's = {sv(pl, a, b)}; w = Vector2D({W.x()!r}, {W.y()!r})'
            ctx.case = lambda: what() + '\nprint(s.nearest_point(w), s.dist(w), s.farthest_dist(w), s.projection(w))'
            d, q = geo.seg_pt_d2(a, b, w)
            r = s.nearest_point(W)
            if not at(r, pl, q, 1e-15 if pl.tiny else 1e-9):
                ctx.fail(f'{what()}: nearest_point is {pt(r)}, expected ({pl.fx(q[0])!r},{pl.fy(q[1])!r})')
            e = math.sqrt(d) * pl.s
            if not abs(s.dist(W) - e) <= tol:
                ctx.fail(f'{what()}: dist is {s.dist(W)!r}, expected {e!r}')
            f = math.sqrt(max(geo.d2(a, w), geo.d2(b, w))) * pl.s
            if not abs(s.farthest_dist(W) - f) <= tol:
                ctx.fail(f'{what()}: farthest_dist is {s.farthest_dist(W)!r}, expected {f!r}')
            ctx.transitions += 3
            if not n:
                r = s.projection(W)
                if not at(r, pl, a):
                    ctx.fail(f'{what()}: projection is {pt(r)}, expected the only point of the segment')
                ctx.transitions += 1
            if n and not pl.tiny:
                t = F(geo.dot(geo.sub(w, a), v)) / n
                r = s.projection(W)
                if 0 <= t <= 1:
                    q = (a[0] + t * v[0], a[1] + t * v[1])
                    if not at(r, pl, q):
                        ctx.fail(f'{what()}: projection is {pt(r)}, expected ({pl.fx(q[0])!r},{pl.fy(q[1])!r})')
                elif r.is_valid():
                    ctx.fail(f'{what()}: projection is {pt(r)}, expected none')
                ctx.transitions += 1
                ctx.outcome('foot on the segment' if 0 <= t <= 1 else 'foot outside')
            else:
                ctx.outcome('degenerate segment')
    ctx.states += 1


def hair(ctx, pl, a, b, tier):
    """feet a hair inside and outside the ends, and short segments, above the documented 1e-6"""
    A, B = V(pl, a), V(pl, b)
    s = Segment2D(A, B)
    L = math.sqrt(geo.d2(a, b)) * pl.s
    ux, uy = (B.x() - A.x()) / L, (B.y() - A.y()) / L
    tol = 1e-9 * (1 + pl.mag)
    for k in (range(3, 19) if tier == 'thorough' else (4, 9, 12, 15, 18)):
        h = 2.0 ** -k
        for end, sg in ((A, -1), (B, 1)):
            for off in (0.0, 1.5, -0.25):
                for inside in (False, True):
                    g = -sg * h if inside else sg * h
                    if inside and h > L:
                        continue
                    fx, fy = end.x() + g * ux, end.y() + g * uy
                    W = Vector2D(fx - off * uy, fy + off * ux)
                    what = lambda: f's = {sv(pl, a, b)}; w = Vector2D({W.x()!r}, {W.y()!r})'
                    ctx.case = lambda: what() + '; print(s.nearest_point(w), s.dist(w), s.projection(w))'
                    r, n = s.projection(W), s.nearest_point(W)
                    nx, ny, d = (fx, fy, abs(off)) if inside else (end.x(), end.y(), math.hypot(off, h))
                    if inside and (not r.is_valid() or abs(r.x() - fx) > tol or abs(r.y() - fy) > tol) or not inside and r.is_valid():
                        ctx.fail(f'{what()}: projection is {pt(r)}, the foot is ({fx!r},{fy!r}), {"on" if inside else "off"} the segment')
                    if not n.is_valid() or abs(n.x() - nx) > tol or abs(n.y() - ny) > tol or abs(s.dist(W) - d) > tol:
                        ctx.fail(f'{what()}: nearest_point is {pt(n)} at {s.dist(W)!r}, expected ({nx!r},{ny!r}) at {d!r}')
                    if not off and bool(s.on_segment_weakly(W)) != inside:
                        ctx.fail(f'{what()}: on_segment_weakly is {s.on_segment_weakly(W)}')
                    ctx.transitions += 3
                    ctx.outcome('foot a hair ' + ('inside' if inside else 'outside'))
        T = Vector2D(A.x() + h * ux, A.y() + h * uy)
        s2 = Segment2D(A, T)
        for m, off in ((0.5, 0.0), (0.25, 2.0), (0.75, -0.5), (-3.0, 1.0), (4.0, 0.0)):
            fx, fy = A.x() + m * h * ux, A.y() + m * h * uy
            W = Vector2D(fx - off * uy, fy + off * ux)
            what = lambda: f's = Segment2D({vs(pl, a)}, Vector2D({T.x()!r}, {T.y()!r})); w = Vector2D({W.x()!r}, {W.y()!r})'
            ctx.case = lambda: what() + '; print(s.nearest_point(w), s.dist(w), s.projection(w))'
            r, n = s2.projection(W), s2.nearest_point(W)
            c = min(max(m, 0.0), 1.0)
            t = tol + 1e-13 * (1 + pl.mag) / h * abs(off)          # the direction of a short segment far from the origin is rounded
            if h * 2 > 1e-5 and (0 <= m <= 1 and (not r.is_valid() or abs(r.x() - fx) > t or abs(r.y() - fy) > t) or not 0 <= m <= 1 and r.is_valid() and off == 0):
                ctx.fail(f'{what()}: projection is {pt(r)}, the foot is ({fx!r},{fy!r})')
            if not n.is_valid() or math.hypot(n.x() - A.x() - c * h * ux, n.y() - A.y() - c * h * uy) > t:
                ctx.fail(f'{what()}: nearest_point is {pt(n)}')
            ctx.transitions += 2
            ctx.outcome('short segment')
    ctx.traces += 1


def seg_pairs(ctx, pl, segs, i, n):
    pts = grid(5)
    table = {(a, b): {p: float(geo.seg_pt_d2(a, b, p)[0]) for p in pts} for a, b in segs}
    objs = {(a, b): S(pl, a, b) for a, b in segs}
    tol = 1e-8 * pl.s if pl.tiny else 1e-9 * (1 + pl.mag)
    for a, b in segs[i::n]:
        s = S(pl, a, b)
        for c, d in segs:
            t = objs[c, d]
            ctx.case = lambda: f's = {sv(pl, a, b)}; t = {sv(pl, c, d)}\nprint(s.dist(t), t.dist(s))'
            if geo.segs_meet(a, b, c, d):
                e = 0.0
                ctx.outcome('segments meet')
            else:
                e = math.sqrt(min(table[a, b][c], table[a, b][d], table[c, d][a], table[c, d][b])) * pl.s
                ctx.outcome('segments apart')
            if not abs(s.dist(t) - e) <= tol:
                ctx.fail(f's = {sv(pl, a, b)}; t = {sv(pl, c, d)}: dist is {s.dist(t)!r}, expected {e!r}')
            ctx.transitions += 1
            ctx.traces += 1


def thin(ctx, k, m):
    """segments and points of a lattice stretched along one axis"""
    f = lambda p: (float(p[0]), float(p[1]))
    tol = 1e-11 * 2 ** k + 1e-9
    segs = list(itertools.product(stretched(grid(3), k, m), repeat=2))
    pts = [(F(x, 2), F(y, 2)) for x, y in stretched([(x, y) for x in range(-2, 7) for y in range(-2, 7)], k, m)]
    objs = [Segment2D(Vector2D(*f(a)), Vector2D(*f(b))) for a, b in segs]
    for (a, b), s in zip(segs, objs):
        src = lambda: f's = Segment2D(Vector2D{f(a)!r}, Vector2D{f(b)!r})'
        v = geo.sub(b, a)
        n = geo.dot(v, v)
        for w in pts:
            ctx.case = lambda: f'{src()}; w = Vector2D{f(w)!r}\nprint(s.nearest_point(w), s.dist(w), s.farthest_dist(w), s.projection(w))'
            W = Vector2D(*f(w))
            d, q = geo.seg_pt_d2(a, b, w)
            r, g, h, u = s.nearest_point(W), s.dist(W), s.farthest_dist(W), s.projection(W)
            e, far = math.sqrt(d), math.sqrt(max(geo.d2(a, w), geo.d2(b, w)))
            if not r.is_valid() or max(abs(r.x() - float(q[0])), abs(r.y() - float(q[1]))) > tol or abs(g - e) > tol or abs(h - far) > tol:
                ctx.fail(f'{src()}, w = {f(w)}: nearest point {pt(r)}, distance {g!r}, farthest {h!r}; expected {f(q)}, {e!r}, {far!r}')
            if n:
                t = F(geo.dot(geo.sub(w, a), v)) / n
                foot = (a[0] + t * v[0], a[1] + t * v[1])
                if u.is_valid() != (0 <= t <= 1) or u.is_valid() and max(abs(u.x() - float(foot[0])), abs(u.y() - float(foot[1]))) > tol:
                    ctx.fail(f'{src()}, w = {f(w)}: projection {pt(u)}, the foot {f(foot)} is {"on" if 0 <= t <= 1 else "off"} the segment')
            ctx.transitions += 4
        for (c, d), o in zip(segs, objs):
            ctx.case = lambda: f'{src()}; t = Segment2D(Vector2D{f(c)!r}, Vector2D{f(d)!r})\nprint(s.dist(t))'
            e = 0.0 if geo.segs_meet(a, b, c, d) else math.sqrt(min(geo.seg_pt_d2(a, b, c)[0], geo.seg_pt_d2(a, b, d)[0], geo.seg_pt_d2(c, d, a)[0], geo.seg_pt_d2(c, d, b)[0]))
            if abs(s.dist(o) - e) > tol:
                ctx.fail(f'{src()}, t = Segment2D(Vector2D{f(c)!r}, Vector2D{f(d)!r}): dist is {s.dist(o)!r}, expected {e!r}')
            ctx.transitions += 1
            ctx.traces += 1
        ctx.states += 1
    ctx.outcome('stretched lattice', len(segs) * (len(pts) + len(segs)))


def shards(tier):
    np = len(places(tier)) + len(TINY)
    n = 8 if tier != 'thorough' else 25
    out = [('thin', k, m, 1) for k, m in stretches(tier)] + [(kind, k, i, n) for kind in ('pt', 'seg') for k in range(np) for i in range(n)]
    if tier == 'smoke':
        out = [o for o in out if o[1] < 4 and o[2] < 2]
    return out


def run(shard, ctx):
    kind, k, i, n = shard
    if kind == 'thin':
        return thin(ctx, k, i)
    pl = (TINY + places(ctx.tier))[k]
    m = 5 if ctx.tier == 'thorough' else 4
    g = grid(m)
    segs = [(a, b) for a in g for b in g]
    if kind == 'pt':
        for a, b in segs[i::n]:
            points(ctx, pl, a, b, m)
            if a != b and not pl.tiny:
                hair(ctx, pl, a, b, ctx.tier)
        ctx.sample(f'{sv(pl, a, b)} with {(2 * m + 5) ** 2} points')
    else:
        seg_pairs(ctx, pl, segs, i, n)
        ctx.sample(f'{sv(pl, *segs[i])} with {len(segs)} segments')
