"""Ways to edit a library object through its public interface."""
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.convex_hull import ConvexHull

V = lambda: Vector2D(77.25, -66.5)


def _vec_attr(name):
    def f(o):
        getattr(o, name)().assign(41.5, -17.75)
    return f


def _iadd(x):
    x += V()


def edits(x, deep=True):
    """[(description, function editing its argument)]; deep: also edit the elements of lists"""
    if isinstance(x, Vector2D):
        return [('assign', lambda o: o.assign(77.25, -66.5)), ('invalidate', lambda o: o.invalidate()), ('+=', _iadd), ('rotate', lambda o: (o.add(1.0, 2.0), o.rotate(40))), ('scale', lambda o: o.scale(3.5)), ('validate', lambda o: (o.validate(), o.set_x(5.5)))]
    if isinstance(x, AngleDeg):
        return [('set_degree', lambda o: o.set_degree(-77.25)), ('reverse', lambda o: o.reverse()), ('set_angle', lambda o: o.set_angle(AngleDeg(11.5)))]
    if isinstance(x, Segment2D):
        return [('origin', _vec_attr('origin_')), ('terminal', _vec_attr('terminal_')), ('swap', lambda o: o.swap()), ('assign', lambda o: o.assign(V(), Vector2D(1, 2)))]
    if isinstance(x, Ray2D):
        return [('origin', _vec_attr('origin_')), ('direction', lambda o: o.dir_().set_degree(-111.5))]
    if isinstance(x, Circle2D):
        return [('center', _vec_attr('center_')), ('assign', lambda o: o.assign(V(), 9.75))]
    if isinstance(x, Sector2D):
        return [('center', _vec_attr('center_')), ('start', lambda o: o.angle_left_start_().set_degree(3.25)), ('end', lambda o: o.angle_right_end_().set_degree(-3.25)), ('assign', lambda o: o.assign(V(), 1, 2, 3, 4))]
    if isinstance(x, Size2D):
        return [('set_length', lambda o: o.set_length(12.5)), ('set_width', lambda o: o.set_width(13.5)), ('assign', lambda o: o.assign(8.5, 9.5))]
    if isinstance(x, Rect2D):
        return [('top_left', _vec_attr('top_left_')), ('size', lambda o: o.size_().assign(21.5, 22.5)), ('move', lambda o: o.move_center(V())), ('left', lambda o: o.set_left(-99.5)), ('assign', lambda o: o.assign(5.5, 6.5, 7.5, 8.5))]
    if isinstance(x, Triangle2D):
        return [('a', _vec_attr('a_')), ('b', _vec_attr('b_')), ('c', _vec_attr('c_')), ('assign', lambda o: o.assign(V(), Vector2D(1, 2), Vector2D(3, 4)))]
    if isinstance(x, Matrix2D):
        return [('reset', lambda o: (o.translate(1, 1), o.reset())), ('translate', lambda o: o.translate(5.5, 6.5)), ('rotate', lambda o: o.rotate(AngleDeg(25))), ('scale', lambda o: o.scale(2, 3)), ('assign', lambda o: o.assign(9, 8, 7, 6, 5, 4))]
    if isinstance(x, Polygon2D):
        return [('add_vertex', lambda o: o.add_vertex(V())), ('clear', lambda o: o.clear()), ('assign', lambda o: o.assign([V()])), ('list', lambda o: o.vertices_().append(V())), ('list clear', lambda o: o.vertices_().clear())]
    if isinstance(x, ConvexHull):
        return [('add_point', lambda o: o.add_point(V())), ('clear', lambda o: o.clear()), ('results', lambda o: (o.vertices_().append(V()), o.edges_().clear())), ('recompute', lambda o: (o.add_point(V()), o.compute()))]
    if isinstance(x, list):
        out = [('append', lambda o: o.append(V())), ('clear', lambda o: o.clear()), ('reverse', lambda o: o.reverse()), ('pop', lambda o: o.pop() if o else None)]
        if deep:
            for i, e in enumerate(x[:8]):
                out += [(f'[{i}] {d}', (lambda o, i=i, f=f: f(o[i]))) for d, f in edits(e)]
        return out
    if isinstance(x, tuple) and deep:
        return [(f'[{i}] {d}', (lambda o, i=i, f=f: f(o[i]))) for i, e in enumerate(x[:8]) for d, f in edits(e)]
    return []


def become(x, y):
    """turn x into a copy of y through x's public setters, keeping the object; False when that is not possible"""
    if type(x) is not type(y):
        return False
    if isinstance(x, Vector2D):
        x.assign(y.x(), y.y())
        (x.validate if y.is_valid() else x.invalidate)()
    elif isinstance(x, AngleDeg):
        x.set_degree(y.degree())
    elif isinstance(x, Segment2D):
        become(x.origin_(), y.origin()), become(x.terminal_(), y.terminal())
    elif isinstance(x, Ray2D):
        become(x.origin_(), y.origin()), become(x.dir_(), y.dir())
    elif isinstance(x, Circle2D):
        x.assign(y.center(), y.radius())
    elif isinstance(x, Sector2D):
        x.assign(y.center(), y.radius_min(), y.radius_max(), y.angle_left_start(), y.angle_right_end())
    elif isinstance(x, Size2D):
        x.assign(y.length(), y.width())
    elif isinstance(x, Rect2D):
        x.assign(y.top_left(), y.size())
    elif isinstance(x, Triangle2D):
        become(x.a_(), y.a()), become(x.b_(), y.b()), become(x.c_(), y.c())
    elif isinstance(x, Matrix2D):
        x.assign(y.m11(), y.m12(), y.m21(), y.m22(), y.dxtf(), y.dytf())
    elif isinstance(x, (Polygon2D, list)):
        a, b = (x, y) if isinstance(x, list) else (x.vertices_(), y.vertices())
        for u, v in zip(a, b):          # the same vertex objects, edited; then the length adjusted
            become(u, v)
        del a[len(b):]
        a += b[len(a):]
    else:
        return False
    return True
