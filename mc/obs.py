"""Observable value of any object of the library, read through its public accessors only."""
import enum
import math
import types
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.convex_hull import ConvexHull


def obs(x):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, Vector2D):
        return ('Vector2D', float(x.x()), float(x.y()), bool(x.is_valid()))
    if isinstance(x, AngleDeg):
        return ('AngleDeg', float(x.degree()))
    if isinstance(x, Line2D):
        return ('Line2D', float(x.a()), float(x.b()), float(x.c()))
    if isinstance(x, Segment2D):
        return ('Segment2D', obs(x.origin()), obs(x.terminal()))
    if isinstance(x, Ray2D):
        return ('Ray2D', obs(x.origin()), obs(x.dir()))
    if isinstance(x, Circle2D):
        return ('Circle2D', obs(x.center()), float(x.radius()))
    if isinstance(x, Sector2D):
        return ('Sector2D', obs(x.center()), float(x.radius_min()), float(x.radius_max()), obs(x.angle_left_start()), obs(x.angle_right_end()))
    if isinstance(x, Size2D):
        return ('Size2D', float(x.length()), float(x.width()))
    if isinstance(x, Rect2D):
        return ('Rect2D', float(x.left()), float(x.top()), float(x.right()), float(x.bottom()))
    if isinstance(x, Triangle2D):
        return ('Triangle2D', obs(x.a()), obs(x.b()), obs(x.c()))
    if isinstance(x, Matrix2D):
        return ('Matrix2D',) + tuple(float(v) for v in (x.m11(), x.m12(), x.m21(), x.m22(), x.dxtf(), x.dytf()))
    if isinstance(x, Polygon2D):
        return ('Polygon2D',) + tuple(obs(v) for v in x.vertices())
    if isinstance(x, ConvexHull):
        return ('ConvexHull', tuple(obs(v) for v in x.input_points()), tuple(obs(v) for v in x.vertices()), tuple(obs(v) for v in x.edges()))
    if isinstance(x, types.GeneratorType):
        out = []
        for v in x:
            out.append(obs(v))
            if len(out) > 2000:
                break
        return ('generator',) + tuple(out)
    if isinstance(x, (list, tuple)):
        return ('list',) + tuple(obs(v) for v in x)
    if isinstance(x, enum.Enum):
        return str(x)
    return ('object', type(x).__name__)


def outcome(fn):
    """('value', observable) or ('raises',) of a call"""
    try:
        return ('value', obs(fn()))
    except RecursionError:
        raise
    except Exception:  # noqa
        return ('raises',)


def same(a, b):
    """exact comparison; the sign of zero and int/float do not matter, nan equals nan"""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return type(a) == type(b) and a == b


def close(a, b, tol=1e-9):
    """equal up to rounding; angles around the circle, lines as point sets"""
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= tol * (1 + abs(a) + abs(b)) or a == b or (a != a and b != b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if a and a[0] == 'AngleDeg' and b[0] == 'AngleDeg':
            t = (a[1] - b[1]) % 360.0
            return min(t, 360.0 - t) <= 1e-7
        if a and a[0] == 'Line2D' and b[0] == 'Line2D':
            na, nb = math.hypot(a[1], a[2]), math.hypot(b[1], b[2])
            if na == 0 or nb == 0:
                return na == nb
            sg = 1 if a[1] * b[1] + a[2] * b[2] >= 0 else -1
            return all(abs(p / na - sg * q / nb) <= tol * (1 + abs(p / na)) for p, q in zip(a[1:], b[1:]))
        return all(close(p, q, tol) for p, q in zip(a, b))
    return type(a) == type(b) and a == b
