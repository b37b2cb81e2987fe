"""C06: lines as point sets."""
import math
from fractions import Fraction as F
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.math_values import ERROR_VALUE
from mc import geo, mine
from mc.lib import places, grid, V, vs, at, pt, deg, angle_gap

TITLE = 'Line operations agree with the point set of the line'
BOUNDS = ('all ordered pairs of lines through two points of a 4x4 lattice (thorough 5x5 without repeats) in 5 (9) placements; every line with all 81 half-lattice points; '
          'lines from 72 directions x 9 points x all constructions; line pairs 0.001 to 0.25 degrees apart and pairs through points 2^-8 apart far from the origin; coordinate lookup and perpendicular bisectors for directions with components down to 2^-18 and coefficients scaled 2^-18..2^12')
ASSUMPTIONS = ['lines with a determinant below 1e-5 (the library calls lines below 1e-6 parallel) are not explored unless exactly parallel']


def zero_set(ctx, l, pl, p, q, name):
    """the coefficients of l vanish exactly on the line pq"""
    a, b, c = l.a(), l.b(), l.c()
    n = math.hypot(a, b)
    if not n > 1e-9:
        ctx.fail(f'{name}: degenerate coefficients {a!r} {b!r} {c!r}')
    for w in (p, q):
        x, y = pl.fx(w[0]), pl.fy(w[1])
        if abs(a * x + b * y + c) / n > 1e-9 * (1 + pl.mag):
            ctx.fail(f'{name}: ({x!r},{y!r}) is not on {l!r}')


def lines_of(n):
    out, seen = [], set()
    g = grid(n)
    for p in g:
        for q in g:
            if p != q:
                out.append((p, q))
    return out


def one_line(ctx, pl, p, q):
    P, Q = V(pl, p), V(pl, q)
    src = f'l = Line2D({vs(pl, p)}, {vs(pl, q)})'
    ctx.case = lambda: src + '\nprint(l)'
    base = Line2D(P, Q)
    d = geo.sub(q, p)
    ang = deg(*d)
    forms = [('points', base), ('p1/p2', Line2D(p1=P, p2=Q)), ('coefficients', Line2D(base.a(), base.b(), base.c())), ('a/b/c', Line2D(a=base.a(), b=base.b(), c=base.c())),
             ('copy constructor', Line2D(base)), ('l=', Line2D(l=base)), ('copy()', base.copy()), ('point+number', Line2D(P, ang)), ('point+angle', Line2D(Q, AngleDeg(ang))),
             ('p/a number', Line2D(p=P, a=ang)), ('p/a angle', Line2D(p=Q, a=AngleDeg(ang + 180)))]
    for name, l in forms:
        zero_set(ctx, l, pl, p, q, f'{name} {src}')
        if not (l == base and base == l) or (l != base):
            ctx.fail(f'{src}: the line built from {name} does not compare equal to it: {l!r} / {base!r}')
        if not l.is_parallel(base):
            ctx.fail(f'{src}: the line built from {name} is not parallel to it')
    dd = geo.dot(d, d)
    ln = math.sqrt(dd)
    ctx.transitions += 3 * len(forms)
    for hx in range(-1, 8):
        for hy in range(-1, 8):
            w = (F(hx, 2), F(hy, 2))
            W = Vector2D(pl.fx(w[0]), pl.fy(w[1]))
            ctx.case = lambda: f'{src}; w = Vector2D({W.x()!r}, {W.y()!r})\nprint(l.dist(w), l.dist2(w), l.projection(w), l.perpendicular(w), l.get_x(w.y()), l.get_y(w.x()))'
            cr = geo.cross(p, q, w)
            e = abs(float(cr)) / ln * pl.s
            t = 1e-9 * (1 + pl.mag)
            for name, l in (forms[0], forms[7]):
                if abs(l.dist(W) - e) > t:
                    ctx.fail(f'{src} ({name}): distance of ({W.x()!r},{W.y()!r}) is {l.dist(W)!r}, expected {e!r}')
                if abs(l.dist2(W) - e * e) > t * (1 + e):
                    ctx.fail(f'{src} ({name}): squared distance of ({W.x()!r},{W.y()!r}) is {l.dist2(W)!r}, expected {e * e!r}')
            tt = F(geo.dot(geo.sub(w, p), d)) / dd
            foot = (p[0] + tt * d[0], p[1] + tt * d[1])
            pr = base.projection(W)
            if not at(pr, pl, foot):
                ctx.fail(f'{src}: projection of ({W.x()!r},{W.y()!r}) is {pt(pr)}, expected ({pl.fx(foot[0])!r},{pl.fy(foot[1])!r})')
            pe = base.perpendicular(W)
            if abs(pe.a() * W.x() + pe.b() * W.y() + pe.c()) > t * math.hypot(pe.a(), pe.b()) or \
               abs(pe.a() * base.a() + pe.b() * base.b()) > 1e-9 * math.hypot(pe.a(), pe.b()) * math.hypot(base.a(), base.b()) or math.hypot(pe.a(), pe.b()) == 0:
                ctx.fail(f'{src}: perpendicular through ({W.x()!r},{W.y()!r}) is {pe!r}')
            if d[0]:
                y = p[1] + F(d[1], d[0]) * (w[0] - p[0])
                if abs(base.get_y(W.x()) - pl.fy(y)) > t:
                    ctx.fail(f'{src}: get_y({W.x()!r}) = {base.get_y(W.x())!r}, expected {pl.fy(y)!r}')
            elif base.get_y(W.x()) != ERROR_VALUE:
                ctx.fail(f'{src}: get_y({W.x()!r}) = {base.get_y(W.x())!r} on a vertical line, expected the error value')
            if d[1]:
                x = p[0] + F(d[0], d[1]) * (w[1] - p[1])
                if abs(base.get_x(W.y()) - pl.fx(x)) > t:
                    ctx.fail(f'{src}: get_x({W.y()!r}) = {base.get_x(W.y())!r}, expected {pl.fx(x)!r}')
            elif base.get_x(W.y()) != ERROR_VALUE:
                ctx.fail(f'{src}: get_x({W.y()!r}) = {base.get_x(W.y())!r} on a horizontal line, expected the error value')
            ctx.transitions += 8
            ctx.outcome('on line' if cr == 0 else 'off line')
    ctx.case = lambda: f'print(Line2D.perpendicular_bisector({vs(pl, p)}, {vs(pl, q)}))'
    pb = Line2D.perpendicular_bisector(P, Q)
    mid = (F(p[0] + q[0], 2), F(p[1] + q[1], 2))
    zero_set(ctx, pb, pl, mid, (mid[0] - d[1], mid[1] + d[0]), 'perpendicular bisector')
    ctx.states += 1
    ctx.transitions += 1


def two_lines(ctx, pl, p, q, r, s):
    src = lambda: f'l = Line2D({vs(pl, p)}, {vs(pl, q)}); m = Line2D({vs(pl, r)}, {vs(pl, s)})'
    ctx.case = lambda: src() + '\nprint(l.is_parallel(m), l.intersection(m), Line2D.line_intersection(m, l), l == m)'
    l, m = Line2D(V(pl, p), V(pl, q)), Line2D(V(pl, r), V(pl, s))
    want = geo.line_meet(p, q, r, s)
    par = l.is_parallel(m)
    if par != (want is None):
        ctx.fail(f'{src()}: is_parallel is {par}')
    x, y = l.intersection(m), Line2D.line_intersection(l, m)
    for w in (x, y):
        if want is None:
            if w.is_valid():
                ctx.fail(f'{src()}: parallel lines intersect at {pt(w)}')
        elif not at(w, pl, want):
            ctx.fail(f'{src()}: intersection {pt(w)}, expected ({pl.fx(want[0])!r},{pl.fy(want[1])!r})')
    eq = want is None and geo.cross(p, q, r) == 0
    if (l == m) != eq or (l != m) == eq:
        ctx.fail(f'{src()}: l == m is {l == m}, expected {eq}')
    ctx.transitions += 4
    ctx.traces += 1
    ctx.outcome('same line' if eq else 'parallel' if want is None else 'crossing')


def angled(ctx, pl, p, ds):
    P = V(pl, p)
    for d in ds:
        for form in (d, AngleDeg(d)):
            l = Line2D(P, form)
            ctx.case = lambda: f'l = Line2D({vs(pl, p)}, {d!r}); print(l)'
            c, s = math.cos(math.radians(d)), math.sin(math.radians(d))
            n = math.hypot(l.a(), l.b())
            t = 1e-9 * (1 + pl.mag)
            for k in (0, 3, -5):
                if abs(l.a() * (P.x() + k * c) + l.b() * (P.y() + k * s) + l.c()) > t * n:
                    ctx.fail(f'Line2D({vs(pl, p)}, {d!r}) = {l!r} does not run along the direction')
            W = Vector2D(P.x() + 2 * c - 3 * s, P.y() + 2 * s + 3 * c)
            if abs(l.dist(W) - 3) > t or abs(l.dist2(W) - 9) > 4 * t:
                ctx.fail(f'Line2D({vs(pl, p)}, {d!r}): distance of a point 3 away is {l.dist(W)!r}')
            pr = l.projection(W)
            if not pr.is_valid() or math.hypot(pr.x() - P.x() - 2 * c, pr.y() - P.y() - 2 * s) > t:
                ctx.fail(f'Line2D({vs(pl, p)}, {d!r}): projection of {W!r} is {pt(pr)}')
            ctx.transitions += 4
        for e in ds[::3]:
            m = Line2D(P, e)
            ctx.case = lambda: f'l = Line2D({vs(pl, p)}, {d!r}); m = Line2D({vs(pl, p)}, {e!r}); b = Line2D.angle_bisector({vs(pl, p)}, AngleDeg({d!r}), AngleDeg({e!r})); print(l.is_parallel(m), l == m, l.intersection(m), b)'
            sn = abs(math.sin(math.radians(d - e)))
            if sn > 1e-3 or sn < 1e-9:
                if l.is_parallel(m) != (sn < 1e-9) or (l == m) != (sn < 1e-9):
                    ctx.fail(f'directions {d!r} and {e!r} through one point: parallel {l.is_parallel(m)}, equal {l == m}')
                if sn > 1e-3 and not at(l.intersection(m), pl, p, 1e-8):
                    ctx.fail(f'directions {d!r} and {e!r} through {vs(pl, p)} meet at {pt(l.intersection(m))}')
            b = Line2D.angle_bisector(P, AngleDeg(d), AngleDeg(e))
            turn = (d - e) % 360 or 360.0
            mid = e + turn / 2
            n = math.hypot(b.a(), b.b())
            if abs(b.a() * P.x() + b.b() * P.y() + b.c()) > 1e-9 * (1 + pl.mag) * n or abs(b.a() * math.cos(math.radians(mid)) + b.b() * math.sin(math.radians(mid))) > 1e-9 * n:
                ctx.fail(f'angle bisector of {d!r} and {e!r} through {vs(pl, p)} is {b!r}, expected direction {mid!r}')
            ctx.transitions += 4
            ctx.outcome('angle pair')
    ctx.states += 1


def coeffs(ctx):
    """lines given by coefficients: equality and parallelism are about the point set"""
    cs = [(a, b, c) for a in (-2, 0, 1, 3) for b in (-1, 0, 2) for c in (-2, 0, 1, 0.5) if a or b]
    cs += [(2 * a, 2 * b, 2 * c) for a, b, c in cs] + [(-a * 0.5, -b * 0.5, -c * 0.5) for a, b, c in cs]
    for x in cs:
        for y in cs:
            ctx.case = lambda: f'l = Line2D{x!r}; m = Line2D{y!r}; print(l == m, l.is_parallel(m), l.intersection(m))'
            l, m = Line2D(*map(float, x)), Line2D(*y)
            par = F(x[0]) * F(y[1]) == F(x[1]) * F(y[0])
            eq = par and F(x[0]) * F(y[2]) == F(x[2]) * F(y[0]) and F(x[1]) * F(y[2]) == F(x[2]) * F(y[1])
            if l.is_parallel(m) != par or (l == m) != eq:
                ctx.fail(f'Line2D{x} and Line2D{y}: parallel {l.is_parallel(m)}, equal {l == m}, expected {par}, {eq}')
            w = l.intersection(m)
            if w.is_valid() == par:
                ctx.fail(f'Line2D{x} and Line2D{y}: intersection {pt(w)}')
            if not par:
                for z in (x, y):
                    if abs(z[0] * w.x() + z[1] * w.y() + z[2]) > 1e-9:
                        ctx.fail(f'Line2D{x} and Line2D{y}: {pt(w)} is not on {z}')
            ctx.transitions += 3
            ctx.traces += 1
            ctx.outcome('coefficients: ' + ('equal' if eq else 'parallel' if par else 'crossing'))


def apart(ctx):
    """parallel lines a few millionths apart are different lines, wherever they are; multiples of one equation are one line"""
    for a, b in ((1, 0), (0, -1), (1, 2), (-3, 1), (2, -2), (8, 5)):
        for c in (0, 1, -30.5, 52.5, 100, -600, 4096):
            for d in (3e-6, -4e-6, 2.0 ** -14, 0.001, -0.25):
                l, m = Line2D(a, b, c), Line2D(a, b, c + d)
                p = Line2D(Vector2D(-a * c / (a * a + b * b), -b * c / (a * a + b * b)), math.degrees(math.atan2(a, -b)))
                ctx.case = lambda: f'l = Line2D({a}, {b}, {c!r}); m = Line2D({a}, {b}, {c + d!r}); print(l == m, l.is_parallel(m), l.intersection(m), l.dist(Vector2D(0, 0)), m.dist(Vector2D(0, 0)))'
                if l == m or m == l or not l != m or not l.is_parallel(m) or l.intersection(m).is_valid():
                    ctx.fail(f'Line2D({a}, {b}, {c!r}) and Line2D({a}, {b}, {c + d!r}): == {l == m}, parallel {l.is_parallel(m)}, intersection {pt(l.intersection(m))}')
                for k in (2, -1, 0.5):
                    n = Line2D(a * k, b * k, c * k)
                    ctx.case = lambda: f'print(Line2D({a}, {b}, {c!r}) == Line2D({a * k!r}, {b * k!r}, {c * k!r}))'
                    if not l == n or not n == l or l != n:
                        ctx.fail(f'Line2D({a}, {b}, {c!r}) and {k} times its equation are different')
                ctx.case = lambda: f'l = Line2D({a}, {b}, {c!r}); print(l.is_parallel(Line2D(Vector2D({-a * c / (a * a + b * b)!r}, {-b * c / (a * a + b * b)!r}), {math.degrees(math.atan2(a, -b))!r})))'
                if not l.is_parallel(p) and abs(c) < 1000:
                    ctx.fail(f'Line2D({a}, {b}, {c!r}) is not parallel to the line through its foot point in its direction')
                ctx.transitions += 12
                ctx.traces += 1
    ctx.outcome('parallel lines slightly apart', ctx.traces)


def close_lines(ctx):
    """nearly parallel lines and lines with small coefficients still meet where their equations say"""
    pts = [(0.0, 0.0), (0.0, 200.0), (-150.5, 30.0), (52.5, -34.0)]
    def meets(l, m, src, det_min):
        ctx.case = lambda: f'{src()}; print(l.is_parallel(m), l.intersection(m), Line2D.line_intersection(m, l))'
        a, b, c, d, e, f = (F(v) for v in (l.a(), l.b(), l.c(), m.a(), m.b(), m.c()))
        det = a * e - b * d
        if abs(det) < det_min:
            return
        x, y = (b * f - e * c) / det, (d * c - a * f) / det
        t = (1e-13 * (abs(float(c)) + abs(float(f))) + 1e-14 * float(abs(x) + abs(y))) / abs(float(det)) + 1e-9
        if l.is_parallel(m) or m.is_parallel(l):
            ctx.fail(f'{src()}: crossing lines are parallel')
        for w in (l.intersection(m), Line2D.line_intersection(m, l)):
            if not w.is_valid() or abs(w.x() - float(x)) > t or abs(w.y() - float(y)) > t:
                ctx.fail(f'{src()}: intersection {pt(w)}, expected ({float(x)!r},{float(y)!r})')
        ctx.transitions += 4
        ctx.traces += 1
        ctx.outcome('nearly parallel or small coefficients')
    for d in [7.5 * k for k in range(48)]:
        for e in (0.001, -0.005, 0.02, 0.05, -0.25):
            for p in pts:
                for q in pts:
                    meets(Line2D(Vector2D(*p), d), Line2D(Vector2D(*q), AngleDeg(d + e)), lambda: f'l = Line2D(Vector2D{p!r}, {d!r}); m = Line2D(Vector2D{q!r}, {d + e!r})', F(1, 10 ** 5))
    s = 2.0 ** -8
    g = grid(3)
    for ox, oy in ((0.0, 0.0), (60.0, -30.0), (300.0, 300.0)):
        ps = [Vector2D(ox + s * x, oy + s * y) for x, y in g]
        ls = [(p, q) for p in ps for q in ps if p is not q]
        for p, q in ls:
            for r, w in ls[::3]:
                meets(Line2D(p, q), Line2D(r, w), lambda: f'l = Line2D({vec(p)}, {vec(q)}); m = Line2D({vec(r)}, {vec(w)})', F(1, 10 ** 5))


def tilted(ctx):
    """lines and bisectors whose direction has one small component, or two, all above the documented 1e-6"""
    for x, y in ((0.0, 0.0), (3.0, -1.0), (-52.5, 34.0)):
        for k in range(2, 19):
            e = 2.0 ** -k
            for dx, dy in ((3.0, e), (-3.0, e), (e, 3.0), (e, -3.0), (e, e), (-e, 2 * e), (e, 0.0), (0.0, -e)):
                P, Q = Vector2D(x, y), Vector2D(x + dx, y + dy)
                l = Line2D(P, Q)
                src = lambda: f'l = Line2D({vec(P)}, {vec(Q)})'
                t = 1e-13 * (1 + abs(x) + abs(y)) * 3 / e + 1e-9
                for w in (-4.0, 0.0, 1.0, 3.5):
                    X, Y = x + w * dx, y + w * dy
                    ctx.case = lambda: src() + f'; print(l.get_x({Y!r}), l.get_y({X!r}))'
                    if dy and abs(l.get_x(Y) - X) > t:
                        ctx.fail(f'{src()}: get_x({Y!r}) = {l.get_x(Y)!r}, expected {X!r}')
                    if dx and abs(l.get_y(X) - Y) > t:
                        ctx.fail(f'{src()}: get_y({X!r}) = {l.get_y(X)!r}, expected {Y!r}')
                    ctx.transitions += 2
                ctx.case = lambda: f'print(Line2D.perpendicular_bisector({vec(P)}, {vec(Q)}))'
                b = Line2D.perpendicular_bisector(P, Q)
                n, m = math.hypot(b.a(), b.b()), math.hypot(dx, dy)
                if not n > 0 or abs(b.a() * dy - b.b() * dx) > 1e-9 * n * m or abs(b.a() * (x + dx / 2) + b.b() * (y + dy / 2) + b.c()) > t * n:
                    ctx.fail(f'perpendicular_bisector({vec(P)}, {vec(Q)}) is {b!r}')
                ctx.transitions += 1
                ctx.traces += 1
                ctx.outcome('small direction component')
    for a, b, c in ((1, 0, -3), (0, 1, 2), (1, 2, -3), (-3, 1, 0.5)):
        for k in (-18, -14, -10, -6, 0, 6, 12):
            f = 2.0 ** k
            l = Line2D(a * f, b * f, c * f)
            for w in (-4.0, 0.0, 2.5):
                ctx.case = lambda: f'l = Line2D({a * f!r}, {b * f!r}, {c * f!r}); print(l.get_x({w!r}), l.get_y({w!r}), l.dist(Vector2D({w!r}, 1.0)))'
                if a and abs(l.get_x(w) + (b * w + c) / a) > 1e-9 or b and abs(l.get_y(w) + (a * w + c) / b) > 1e-9 or abs(l.dist(Vector2D(w, 1.0)) - abs(a * w + b + c) / math.hypot(a, b)) > 1e-9:
                    ctx.fail(f'Line2D({a * f!r}, {b * f!r}, {c * f!r}): get_x({w}) = {l.get_x(w)!r}, get_y({w}) = {l.get_y(w)!r}, distance of ({w}, 1) {l.dist(Vector2D(w, 1.0))!r}')
                ctx.transitions += 3
            ctx.traces += 1
            ctx.outcome('scaled coefficients')


def vec(p):
    return f'Vector2D({p.x()!r}, {p.y()!r})'


def dirs():
    ds = [5.0 * k for k in range(-36, 37)] + [360, 405.0, -725.0, 0.5, 89.5]
    for c in mine.near(1e-3, 720, 6):
        ds += [c, -c, c + 1, c - 1]
    return ds


def shards(tier):
    n = 8 if tier != 'thorough' else 16
    np = len(places(tier))
    out = [('coef', 0, 0, 1), ('close', 0, 0, 1), ('apart', 0, 0, 1), ('tilt', 0, 0, 1)]
    for k in range(np):
        out += [('one', k, i, 2) for i in range(2)] + [('two', k, i, n) for i in range(n)] + [('ang', k, i, 3) for i in range(3)]
    if tier == 'smoke':
        out = [o for o in out if o[1] < 2 and o[2] < 2]
    return out


def run(shard, ctx):
    kind, k, i, n = shard
    if kind == 'coef':
        return coeffs(ctx)
    if kind == 'tilt':
        return tilted(ctx)
    if kind == 'apart':
        return apart(ctx)
    if kind == 'close':
        return close_lines(ctx)
    pl = places(ctx.tier)[k]
    if kind == 'ang':
        for p in grid(3)[i::n]:
            angled(ctx, pl, p, dirs())
        ctx.sample(f'lines through {pl.xy(p)} in {len(dirs())} directions')
        return
    ls = lines_of(4)
    if kind == 'one':
        for p, q in ls[i::n]:
            one_line(ctx, pl, p, q)
        ctx.sample(f'line {pl.xy(p)}-{pl.xy(q)} with 81 half-lattice points')
    else:
        other = ls if ctx.tier != 'thorough' else [(p, q) for p, q in lines_of(5)]
        for p, q in ls[i::n]:
            for r, s in other:
                two_lines(ctx, pl, p, q, r, s)
        ctx.sample(f'lines {pl.xy(p)}-{pl.xy(q)} and {pl.xy(r)}-{pl.xy(s)}')
