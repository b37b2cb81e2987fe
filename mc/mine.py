"""Numeric constants that occur in the library's current source.

They only extend the alphabets (placements, angles, sizes, step counts): a threshold in the code is
always straddled by explored values.  They never influence a verdict.
"""
import functools
import math
import os
from mc.core import REPO_SRC

# constants of the pinned tree; their neighbourhoods are part of the fixed alphabets of the checks
BASE = {0.0, 0.1, 0.25, 0.5, 1.0, 2.0, 3.0, 4.0, 10.0, 90.0, 180.0, 360.0, 1e-6, 1e-8, 1e-9, 1e-10, 1e20, math.pi}


def _walk(code, out):
    for c in code.co_consts:
        if isinstance(c, bool) or c is None:
            continue
        if isinstance(c, (int, float)):
            out.add(abs(float(c)))
        elif isinstance(c, (tuple, frozenset)):
            for d in c:
                if isinstance(d, (int, float)) and not isinstance(d, bool):
                    out.add(abs(float(d)))
        elif hasattr(c, 'co_consts'):
            _walk(c, out)


@functools.lru_cache(None)
def constants():
    """All new (non-baseline) magnitudes in the current source, ascending."""
    out = set()
    d = os.path.join(REPO_SRC, 'pyrusgeom')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            try:
                _walk(compile(open(os.path.join(d, f)).read(), f, 'exec'), out)
            except Exception:  # noqa
                pass
    extra = os.environ.get('MC_EXTRA', '')
    out |= {abs(float(x)) for x in extra.split(',') if x}
    return tuple(sorted(c for c in out if c not in BASE and c == c and c < 1e15))


def near(lo, hi, cap=16):
    """New constants with magnitude in [lo, hi], at most cap of them (spread over the range)."""
    cs = [c for c in constants() if lo <= c <= hi]
    if len(cs) > cap:
        cs = [cs[i * len(cs) // cap] for i in range(cap)]
    return cs


def dyadic(x, bits=7):
    """x rounded to `bits` significant bits (exactly representable, short mantissa)."""
    if x == 0:
        return 0.0
    m, e = math.frexp(x)
    return math.ldexp(round(m * (1 << bits)), e - bits)


def placements(base, lo=0.25, hi=64.0, omax=512.0, cap=8):
    """Extra (scale, ox, oy) placements of a small lattice (coordinates 0..3) so that coordinates, lengths and
    areas straddle each new constant."""
    out = list(base)
    for c in near(1.0 / 64, 1e5, cap):
        cand = []
        for s in (dyadic(c / 2, 5), dyadic(math.sqrt(c) / 2, 5), dyadic(c / 4, 5)):
            if lo <= s <= hi:
                cand.append((s, 0.0, 0.0))
        if c <= omax:
            o = dyadic(c, 7)
            cand += [(1.0, o - 1, -o - 1)]
        for p in cand:
            if p not in out:
                out.append(p)
    return out
