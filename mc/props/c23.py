"""C23: convex hull."""
import itertools
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.convex_hull import ConvexHull, MethodType
from mc import geo, poly
from mc.lib import Place, places, grid, V, vs, stretches, stretched

TITLE = 'Convex hull is the smallest convex polygon of the input points'
BOUNDS = ('all point lists of length 3..5 on a 3x3 lattice (every order, duplicates included), all subsets of a 4x4 lattice in 3 fixed orders (quick: one order each), structured sets of up to 101 (thorough 200) points '
          '(full grids, rings, convex arcs, clusters with repeated points) in 6 orders; all 3- and 4- (thorough also 5-) point subsets of a 3x3 lattice with one point, or a copy of one, moved by 2^-4, 2^-8, 2^-11 or 2^-14, and on lattices 32 to 512 times larger by 2^-4 to 2^-14 (also full 3x3 and 4x4 lattices); both methods, called directly and through compute(); first placement and one further placement each, 6 (thorough 10) in total, one of scale 2^-9; the same on 3x3 lattices stretched by 2^3..2^11 (thorough 2^2..2^12) along one axis')
ASSUMPTIONS = ['point lists that lie on one line have no claimed hull', 'the direct method is documented as broken and is not explored']
RUN = {'wrapping': [('compute()', lambda h: h.compute()), ('compute(MethodType.WRAPPING_METHOD)', lambda h: h.compute(MethodType.WRAPPING_METHOD)), ('compute_wrapping_method()', lambda h: h.compute_wrapping_method())],
       'graham': [('compute(MethodType.GRAHAN_SCAN)', lambda h: h.compute(MethodType.GRAHAN_SCAN)), ('compute_graham_scan()', lambda h: h.compute_graham_scan())]}


def key(v):
    return (float(v.x()), float(v.y()))


def verdict(h, pts, want, ccw):
    """None, or what is wrong with the results of hull h; pts: input coordinates, want: exact hull (counter-clockwise coordinates)"""
    vs_ = [key(v) for v in h.vertices()]
    n = len(vs_)
    want = [tuple(map(float, w)) for w in want]
    if set(vs_) - set(pts):
        return f'vertices {sorted(set(vs_) - set(pts))} are not input points'
    if sorted(vs_) != sorted(want):
        return f'vertices {vs_} instead of the extreme points {want}'
    k = want.index(vs_[0])
    fwd = [want[(k + i) % n] for i in range(n)]
    bwd = [want[(k - i) % n] for i in range(n)]
    if vs_ != fwd and (ccw or vs_ != bwd):
        return f'vertices {vs_} do not run {"counter-clockwise " if ccw else ""}around the hull {want}'
    ed = sorted(tuple(sorted((key(e.origin()), key(e.terminal())))) for e in h.edges())
    if ed != sorted(tuple(sorted((vs_[i - 1], vs_[i]))) for i in range(n)):
        return f'edges {[(key(e.origin()), key(e.terminal())) for e in h.edges()]} do not join the consecutive vertices {vs_}'
    pv = [key(v) for v in h.to_polygon().vertices()]
    if pv != vs_:
        return f'to_polygon has vertices {pv}, the hull {vs_}'
    return None


def check(ctx, pl, seq, hull, j):
    for method, ways in RUN.items():
        name, go = ways[j % len(ways)]
        ctx.case = lambda: f'h = ConvexHull([{", ".join(vs(pl, p) for p in seq)}]); h.{name}\nprint(h.vertices(), h.edges(), h.to_polygon())'
        h = ConvexHull([V(pl, p) for p in seq])
        go(h)
        pts = [tuple(map(float, pl.xy(p))) for p in seq]
        bad = verdict(h, pts, [pl.xy(p) for p in hull], method == 'wrapping')
        if bad:
            ctx.fail(f'hull of {pts} by the {method} method: {bad}')
        ctx.transitions += 1
    ctx.states += 1
    ctx.outcome(f'{len(seq)} points, {len(hull)} extreme' if len(seq) < 6 else f'{len(hull)} extreme points of a larger set')


def orders(ps):
    n = len(ps)
    yield ps
    yield ps[::-1]
    for m in (3, 5, 7):
        if n % m:
            yield [ps[(i * m) % n] for i in range(n)]
    yield ps[n // 2:] + ps[:n // 2]


def big(tier):
    lim = 6 if tier != 'thorough' else 9
    out = []
    for n in range(2, lim):
        out += [grid(n), grid(n) + grid(n), [(x, y) for x, y in grid(2 * n) if (x + y) % 2], [(x, x * y) for x, y in grid(n)]]
    for s in poly.structured(tier):
        out.append(list(s))
    for m in range(3, 16 if tier != 'thorough' else 30):
        c = poly.convex(m)
        out += [c + c[:m // 2], c + [(0, 3), (0, 4), (0, 4)]]
    for m in (24, 33, 50, 65, 101) if tier != 'thorough' else list(range(30, 70)) + [100, 101, 128, 150, 200]:
        c = poly.convex(m)
        out += [c, c + [(0, 4), (1, 4)]]
    return [s for s in out if geo.hull(s) and len(geo.hull(s)) > 2]


def nearly(ctx, i, n):
    """lattice points, one of them (or a second copy of one) moved by 2^-k along an axis or a diagonal: nearly level, nearly upright and nearly collinear points"""
    cells = grid(3)
    bases = [list(s) for s in itertools.combinations(cells, 3)] + [list(s) for s in itertools.combinations(cells, 4)]
    if ctx.tier == 'thorough':
        bases += [list(s) for s in itertools.combinations(cells, 5)]
    bases += [grid(3), grid(4), grid(3)[1:] + [(1, 1)]]
    for j, base in enumerate(bases):
        if j % n != i:
            continue
        for k, up in ((4, 0), (8, 0), (11, 0), (14, 0), (4, 9), (7, 6), (11, 5), (14, 6)):
            pl, m = Place(2.0 ** -k, 0.0, 0.0), 1 << k + up
            for b in range(len(base)):
                for e, (dx, dy) in enumerate(((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1))):
                    if ctx.tier != 'thorough' and (j + k + b + e) % 3:
                        continue
                    big_ = [(x * m, y * m) for x, y in base]
                    moved = (big_[b][0] + dx, big_[b][1] + dy)
                    for seq in (big_[:b] + [moved] + big_[b + 1:], big_ + [moved], [moved] + big_):
                        hull = geo.hull(seq)
                        if len(hull) > 2 and clear(seq, (1 << k) // 2 if not up else max(1, 4 ** k // 100000 + 1)):     # in units 4^-k: every turn is zero or clearly above the documented 1e-6
                            check(ctx, pl, seq, hull, j + e)
        ctx.traces += 1
    ctx.outcome('nearly degenerate sets')


def clear(seq, lim):
    for a, b, c in itertools.combinations(seq, 3):
        t = abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
        if 0 < t < lim:
            return False
    return True


def thin(ctx, k, m):
    """point sets of a lattice stretched along one axis"""
    pl = Place(1.0, 0.0, 0.0)
    for j, seq in enumerate(poly.sequences(3, 4, grid(3))):
        hull = geo.hull(seq)
        if len(hull) > 2:
            check(ctx, pl, stretched(seq, k, m), stretched(hull, k, m), j)
    cells = grid(3)
    for b in range(1 << 9):
        seq = [c for z, c in enumerate(cells) if b >> z & 1]
        hull = geo.hull(seq) if len(seq) > 4 else []
        if len(hull) > 2:
            for o in (seq, seq[::-1], seq[1::2] + seq[::2]):
                check(ctx, pl, stretched(o, k, m), stretched(hull, k, m), b)
    ctx.traces += 1


def shards(tier):
    out = [('thin', k, m) for k, m in stretches(tier)] + [('seq', i, 32) for i in range(32)] + [('sub', i, 32) for i in range(32)] + [('big', i, 16) for i in range(16)] + [('near', i, 16) for i in range(16)]
    return out if tier != 'smoke' else out[::20]


def run(shard, ctx):
    kind, i, n = shard
    if kind == 'thin':
        return thin(ctx, i, n)
    pls = places(ctx.tier) + [Place(2.0 ** -9, 0.0, 0.0)]        # turns down to 3.8e-6, above the documented 1e-6
    if kind == 'near':
        nearly(ctx, i, n)
    elif kind == 'seq':
        for j, seq in enumerate(poly.sequences(3, 5, grid(3))):
            if j % n == i:
                hull = geo.hull(seq)
                if len(hull) < 3:
                    continue
                for pl in ([pls[0], pls[1 + (j // n) % (len(pls) - 1)]] if ctx.tier != 'thorough' and len(seq) > 3 else pls):
                    check(ctx, pl, seq, hull, j)
                ctx.traces += 1
    elif kind == 'sub':
        cells = grid(4)
        for m in range(i, 1 << 16, n):
            seq = [cells[b] for b in range(16) if (m >> b) & 1]
            if len(seq) < 3:
                continue
            hull = geo.hull(seq)
            if len(hull) < 3:
                continue
            os_ = [seq, seq[::-1], seq[1::2] + seq[::2]]
            for k in ((m // n % 3,) if ctx.tier != 'thorough' else (0, 1, 2)):
                check(ctx, pls[(m // n + k) % len(pls)], os_[k], hull, m // n + k)
            ctx.traces += 1
    else:
        for j, seq in enumerate(big(ctx.tier)):
            if j % n == i:
                hull = geo.hull(seq)
                for k, o in enumerate(orders(list(seq))):
                    check(ctx, pls[(j // n + k) % len(pls)], o, hull, j + k)
                ctx.traces += 1
    ctx.sample(ctx.case)
