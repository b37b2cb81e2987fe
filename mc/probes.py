"""Table of calls that covers the public API; shared by C05 (side effects), C28 (call histories) and C29 (schedules).

A variable name encodes its type (v1 vector, a1 angle, n1 number, i1 small int, l1 line, y1 ray, s1 segment, c1 circle, k1 sector, z1 size,
q1 rectangle, t1 triangle, m1 matrix, p1 polygon, h1 computed hull, g1 list of points).  VALUES gives the variants of each type; the second variant always differs from the first by
very little, the third by 2^-22 in one component, the others are unrelated.
"""
import itertools
import re
import math
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.circle_2d import Circle2D, quadratic_f
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.polygon_2d import Polygon2D, XLessEqual, XMoreEqual, YLessEqual, YMoreEqual
from pyrusgeom.convex_hull import ConvexHull, MethodType, angle_sort_predicate, is_clockwise, list2set
from pyrusgeom import soccer_math as sm

ENV = {k: v for k, v in globals().items() if k[0].isupper() or k in ('sm', 'math', 'quadratic_f', 'angle_sort_predicate', 'is_clockwise', 'list2set')}


def computed(src, how):
    h = ConvexHull(src)
    h.compute(how)
    return h


def ring(n):
    return [Vector2D(round(500 * math.cos(6.2 * k / n)), round(400 * math.sin(6.2 * k / n))) for k in range(n)]


ENV['computed'], ENV['ring'] = computed, ring
E1, E2 = 2.0 ** -12, 2.0 ** -22
VALUES = {
    'v': ['Vector2D(3.0, -1.25)', f'Vector2D({3.0 + E1!r}, -1.25)', f'Vector2D(3.0, {-1.25 + E2!r})', 'Vector2D(-0.75, 2.0)', 'Vector2D(1, 1)', 'Vector2D(0, 0)', 'Vector2D.invalid()', 'Vector2D(-52.5, 34.0)'],
    'a': ['AngleDeg(30.0)', f'AngleDeg({30.0 + E1!r})', f'AngleDeg({30.0 + E2!r})', 'AngleDeg(-135.5)', 'AngleDeg(180)', 'AngleDeg(0)'],
    'n': ['2.5', repr(2.5 + E1), repr(2.5 + E2), '0.75', '3', '40.0', '-1.5'],
    'i': ['3', '4', '2', '10', '0'],
    'f': ['0.5', repr(0.5 + E1), repr(0.5 + E2), '0.94', '0.25'],
    'l': ['Line2D(1.0, 2.0, -3.0)', f'Line2D(1.0, 2.0, {-3.0 - E1!r})', f'Line2D({1.0 + E2!r}, 2.0, -3.0)', 'Line2D(Vector2D(0, 1), AngleDeg(40))', 'Line2D(Vector2D(2, -4), Vector2D(2, 5))', 'Line2D(0.0, 1.0, -0.5)'],
    'y': ['Ray2D(Vector2D(-4.0, 0.5), AngleDeg(5.0))', f'Ray2D(Vector2D(-4.0, {0.5 + E1!r}), AngleDeg(5.0))', f'Ray2D(Vector2D(-4.0, 0.5), AngleDeg({5.0 + E2!r}))', 'Ray2D(Vector2D(1, -5), Vector2D(0, 3))', 'Ray2D(Vector2D(9, 9), -10.0)'],
    's': ['Segment2D(Vector2D(-4.0, -3.0), Vector2D(5.0, 3.5))', f'Segment2D(Vector2D(-4.0, -3.0), Vector2D(5.0, {3.5 + E1!r}))', f'Segment2D(Vector2D({-4.0 + E2!r}, -3.0), Vector2D(5.0, 3.5))', 'Segment2D(0, 4, 1, -4)', 'Segment2D(Vector2D(2, 2), 3, 60)', 'Segment2D(1, 1, 1, 1)'],
    'c': ['Circle2D(Vector2D(0.5, 0.25), 2.5)', f'Circle2D(Vector2D(0.5, 0.25), {2.5 + E1!r})', f'Circle2D(Vector2D({0.5 + E2!r}, 0.25), 2.5)', 'Circle2D(Vector2D(-2, 1), 3)', 'Circle2D(Vector2D(20, 20), 1)'],
    'k': ['Sector2D(Vector2D(0.5, 0.25), 1.0, 4.0, AngleDeg(-40), AngleDeg(80))', f'Sector2D(Vector2D(0.5, 0.25), 1.0, {4.0 + E1!r}, AngleDeg(-40), AngleDeg(80))', f'Sector2D(Vector2D(0.5, 0.25), 1.0, 4.0, AngleDeg({-40 + E2!r}), AngleDeg(80))', 'Sector2D(Vector2D(-1, 1), 0, 9, 100, -100)'],
    'z': ['Size2D(4.0, 3.0)', f'Size2D({4.0 + E1!r}, 3.0)', f'Size2D(4.0, {3.0 + E2!r})', 'Size2D(-105, 68)', 'Size2D(0, 2)'],
    'q': ['Rect2D(-2.0, -1.5, 4.0, 3.0)', f'Rect2D(-2.0, -1.5, {4.0 + E1!r}, 3.0)', f'Rect2D({-2.0 + E2!r}, -1.5, 4.0, 3.0)', 'Rect2D(Vector2D(0, 0), Size2D(5, 2))', 'Rect2D(Vector2D(1, 4), Vector2D(-3, -3))', 'Rect2D(9, 9, 1, 1)'],
    't': ['Triangle2D(Vector2D(-3.0, -2.0), Vector2D(4.0, -1.5), Vector2D(0.5, 5.0))', f'Triangle2D(Vector2D(-3.0, -2.0), Vector2D(4.0, {-1.5 + E1!r}), Vector2D(0.5, 5.0))', f'Triangle2D(Vector2D(-3.0, {-2.0 + E2!r}), Vector2D(4.0, -1.5), Vector2D(0.5, 5.0))', 'Triangle2D(Segment2D(0, 0, 0, 3), Vector2D(3, 1))'],
    'm': ['Matrix2D(1.0, 2.0, -1.0, 3.0, 5.0, -4.0)', f'Matrix2D(1.0, 2.0, -1.0, 3.0, {5.0 + E1!r}, -4.0)', f'Matrix2D(1.0, {2.0 + E2!r}, -1.0, 3.0, 5.0, -4.0)', 'Matrix2D()', 'Matrix2D.make_rotation(AngleDeg(30))', 'Matrix2D(1.0, 2.0, 2.0, 4.0, 1.0, 1.0)'],
    'p': ['Polygon2D([Vector2D(-2, -2), Vector2D(3, -1), Vector2D(4, 3), Vector2D(-1, 4)])', f'Polygon2D([Vector2D(-2, -2), Vector2D(3, -1), Vector2D({4 + E1!r}, 3), Vector2D(-1, 4)])', f'Polygon2D([Vector2D(-2, -2), Vector2D(3, {-1 + E2!r}), Vector2D(4, 3), Vector2D(-1, 4)])',
          'Polygon2D(Vector2D(0, 0), Vector2D(0, 6), Vector2D(6, 6))', 'Polygon2D()', 'Polygon2D([])', 'Polygon2D(ring(12))'],
    'g': ['[Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(3.0, 5.0), Vector2D(1.0, 1.5), Vector2D(-1.0, 3.0)]', f'[Vector2D(0.0, 0.0), Vector2D({4.0 + E1!r}, 1.0), Vector2D(3.0, 5.0), Vector2D(1.0, 1.5), Vector2D(-1.0, 3.0)]',
          f'[Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(3.0, {5.0 + E2!r}), Vector2D(1.0, 1.5), Vector2D(-1.0, 3.0)]', '[Vector2D(1, 1), Vector2D(2, 5)]', '[]', 'ring(12)', 'ring(70)'],
    'h': ['computed([Vector2D(0, 0), Vector2D(4, 1), Vector2D(3, 5), Vector2D(1, 1.5), Vector2D(-1, 3)], MethodType.WRAPPING_METHOD)', f'computed([Vector2D(0, 0), Vector2D({4 + E1!r}, 1), Vector2D(3, 5), Vector2D(1, 1.5), Vector2D(-1, 3)], MethodType.GRAHAN_SCAN)',
          'ConvexHull([Vector2D(1, 1)])', 'computed(ring(12), MethodType.WRAPPING_METHOD)'],
}
# queries: never change anything
Q = '''
AngleDeg() | AngleDeg(n1) | a1.degree() | a1.abs() | a1.radian() | a1.copy() | a1.get_normalized() | a1.reverse_angle() | a1.is_within(a2, a3) | a1.is_left_of(a2) | a1.is_right_of(a2) | a1.is_left_equal_of(a2) | a1.is_right_equal_of(a2) | a1.is_left_of(n1)
a1 + a2 | a1 - a2 | a1 * n1 | a1 // n1 | a1 + n1 | a1 - n1 | float(a1) | -a1 | a1 == a2 | a1 == n1 | a1 != a2 | str(a1) | repr(a1) | a1.cos() | a1.sin() | a1.tan() | AngleDeg(a1.degree()) | AngleDeg.bisect(a1, a2) | AngleDeg.normalize_angle(n1) | AngleDeg.rad2deg(n1) | AngleDeg.deg2rad(n1) | AngleDeg.cos_deg(n1) | AngleDeg.sin_deg(n1)
AngleDeg.tan_deg(n1) | AngleDeg.acos_deg(f1) | AngleDeg.asin_deg(f1) | AngleDeg.atan_deg(n1) | AngleDeg.atan2_deg(n1, n2) | AngleDeg.acos_deg(n1)
Vector2D() | Vector2D(n1, n2) | Vector2D(v1) | Vector2D(r=n1, a=n2) | Vector2D(x=n1, y=n2) | v1.x() | v1.y() | v1.get_x() | v1.get_y() | v1.copy() | v1.get_copy() | v1.is_valid() | v1.r2() | v1.r() | v1.length() | v1.length2() | v1.th() | v1.dir() | v1.abs() | v1.abs_x() | v1.abs_y() | v1.dist2(v2) | v1.dist(v2) | v1.reverse_vector()
v1.set_length_vector(n1) | v1.normalize_vector() | v1.inner_product(v2) | v1.outer_product(v2) | v1.equals(v2) | v1.equals_weakly(v2) | v1.rotated_vector(n1) | v1.rotated_vector(a1) | hash(v1) == hash(v2) | v1 == v2 | v1 != v2 | v1 + v2 | v1 - v2 | v1 / n1 | v1 * n1 | str(v1) | Vector2D.invalid() | Vector2D.from_polar(n1, n2)
Vector2D.from_polar(n1, a1) | Vector2D.polar2vector(n1, n2) | Vector2D.polar2vector(n1, a1) | Vector2D.inner_product_static(v1, v2) | Vector2D.outer_product_static(v1, v2)
Line2D(v1, v2) | Line2D(v1, a1) | Line2D(n1, n2, n3) | Line2D(l1) | l1.a() | l1.b() | l1.c() | l1.get_x(n1) | l1.get_y(n1) | l1.copy() | l1.dist(v1) | l1.dist2(v1) | l1.is_parallel(l2) | l1.intersection(l2) | l1.perpendicular(v1) | l1.projection(v1) | Line2D.line_intersection(l1, l2)
Line2D.angle_bisector(v1, a1, a2) | Line2D.perpendicular_bisector(v1, v2) | l1 == l2 | l1 != l2 | str(l1)
Ray2D(v1, a1) | Ray2D(v1, v2) | Ray2D(v1, n1) | y1.origin() | y1.dir() | y1.copy() | y1.line() | y1.in_right_dir(v1) | y1.in_right_dir(v1, n1) | y1.intersection(l1) | y1.intersection(y2) | str(y1) | y1.line().dist(v1)
Segment2D(v1, v2) | Segment2D(n1, n2, n3, 1.5) | Segment2D(v1, n1, n2) | s1.is_valid() | s1.origin() | s1.terminal() | s1.line() | s1.length() | s1.direction() | s1.copy() | s1.reversed_segment() | s1.perpendicular_bisector() | s1.contains(v1) | s1 == s2 | s1.equals_weakly(s2) | s1.projection(v1) | s1.intersection(s2) | s1.intersection(s2, True) | s1.intersection(l1)
s1.exist_intersection(s2) | s1.exist_intersection(l1) | s1.exist_intersection_except_endpoint(s2) | s1.intersects_except_endpoint(s2) | s1.nearest_point(v1) | s1.dist(v1) | s1.dist(s2) | s1.farthest_dist(v1) | s1.on_segment(v1) | s1.on_segment_weakly(v1) | str(s1) | s1.to_str('x')
Circle2D() | Circle2D(v1, n1) | c1.area() | c1.contains(v1) | c1.center() | c1.radius() | c1.intersection(l1) | c1.intersection(y1) | c1.intersection(s1) | c1.intersection(c2) | c1.intersection_with_line(l1) | c1.intersection_with_ray(y1) | c1.intersection_with_segment(s1) | c1.intersection_with_circle(c2) | Circle2D.circum_circle(v1, v2, v3)
Circle2D.circum_circle_contains(v1, t1.a(), t1.b(), t1.c()) | str(c1) | c1.to_str('x') | quadratic_f(n1, n2, n3) | quadratic_f(1, n1, f1)
Sector2D(v1, n1, n2, a1, a2) | k1.center() | k1.radius_min() | k1.radius_max() | k1.angle_left_start() | k1.angle_right_end() | k1.area() | k1.contains(v1) | k1.get_circumference_min() | k1.get_circumference_max() | k1 == k2 | str(k1)
Size2D() | Size2D(n1, n2) | z1.length() | z1.width() | z1.diagonal() | z1.is_valid() | z1 == z2 | str(z1)
Rect2D(v1, z1) | Rect2D(v1, v2) | Rect2D(n1, n2, n3, 2.25) | Rect2D(v1, n1, n2) | Rect2D(q1) | q1.is_valid() | q1.area() | q1.contains(v1) | q1.contains_almost(v1, n1) | q1.left() | q1.right() | q1.top() | q1.bottom() | q1.min_x() | q1.max_x() | q1.min_y() | q1.max_y() | q1.size() | q1.center() | q1.top_left() | q1.top_right() | q1.bottom_left() | q1.bottom_right()
q1.left_edge() | q1.right_edge() | q1.top_edge() | q1.bottom_edge() | q1.intersection(l1) | q1.intersection(y1) | q1.intersection(s1) | q1.intersected(q2) | q1.united(q2) | Rect2D.from_center(v1, n1, n2) | Rect2D.from_center(n1, n2, n3, 1.5) | str(q1) | q1.to_str('x')
Triangle2D(v1, v2, v3) | Triangle2D(s1, v1) | t1.is_valid() | t1.a() | t1.b() | t1.c() | t1.area() | t1.signed_area() | t1.double_signed_area() | t1.ccw() | t1.contains(v1) | t1.centroid() | t1.incenter() | t1.circumcenter() | t1.orthocenter() | t1.intersection(l1) | t1.intersection(y1) | t1.intersection(s1) | str(t1) | t1.to_str('x')
Triangle2D.double_signed_area_st(v1, v2, v3) | Triangle2D.signed_area_st(v1, v2, v3) | Triangle2D.tri_ccw(v1, v2, v3) | Triangle2D.tri_centroid(v1, v2, v3) | Triangle2D.tri_incenter(v1, v2, v3) | Triangle2D.tri_circumcenter(v1, v2, v3) | Triangle2D.tri_orthocenter(v1, v2, v3) | Triangle2D.tri_contains(t1.a(), t1.b(), t1.c(), v1)
Matrix2D() | Matrix2D(n1, n2, n3, 1.0, n2, 2.0) | m1.m11() | m1.m12() | m1.m21() | m1.m22() | m1.dxtf() | m1.dytf() | m1.det() | m1.invertible() | m1.inverted() | m1.transform(v1) | m1.transform(n1, n2) | Matrix2D.make_translation(n1, n2) | Matrix2D.make_scaling(n1, n2) | Matrix2D.make_rotation(a1) | m1 * m2 | m1 * v1 | m1 == m2 | str(m1)
Polygon2D() | Polygon2D(g1) | Polygon2D(v1, v2, v3) | p1.vertices() | p1.get_bounding_box() | p1.contains(v1) | p1.contains(v1, False) | p1.bounding_box_center() | p1.dist(v1) | p1.dist(v1, False) | p1.area() | p1.double_signed_area() | p1.is_counter_clockwise() | p1.is_clockwise() | p1.get_rectangle_clipped_polygon(q1) | Polygon2D.get_line_clipped_polygon(XLessEqual(n1), g1, l1)
Polygon2D.get_line_clipped_polygon(YMoreEqual(1.0), g1, Line2D(0.0, 1.0, -1.0)) | XLessEqual(n1)(v1) | XMoreEqual(n1)(v1) | YLessEqual(n1)(v1) | YMoreEqual(n1)(v1) | XLessEqual(n1).thr() | str(p1)
ConvexHull(g1) | h1.input_points() | h1.vertices() | h1.edges() | h1.to_polygon() | h1.get_min_point_index() | str(h1) | computed(g1, MethodType.WRAPPING_METHOD) | computed(g1, MethodType.GRAHAN_SCAN) | is_clockwise(v1, v2, v3) | list2set(g1) | angle_sort_predicate(v1, v2) | angle_sort_predicate(v1, v2, v3)
sm.kick_rate(n1, n2, n3, 0.085, 0.3, 0.6) | sm.dir_rate(n1, n2, n3) | sm.effective_turn(n1, n2, n3) | sm.final_speed(n1, n2, n3, f1) | sm.can_over_speed_max(n1, n2, n3, f1, 1.0) | sm.inertia_n_step_travel(v1, i1, f1) | sm.inertia_n_step_point(v1, v2, i1, f1) | sm.inertia_n_step_distance(n1, i1, f1) | sm.inertia_final_travel(v1, f1)
sm.inertia_final_point(v1, v2, f1) | sm.inertia_final_distance(n1, f1) | sm.r_int(n1) | sm.calc_length_geom_series(n1, f1, n2) | sm.calc_first_term_geom_series(n1, f1, 4) | sm.bound(n1, n2, n3) | sm.min_max(n1, n2, n3) | list(sm.f_range(n1)) | list(sm.f_range(f1, n1, 0.25)) | list(sm.f_range(n1, f1, -0.5)) | sm.quantize(n1, f1) | sm.quantize_dist(40 + n1, f1) | sm.unquantize_min(n1, f1)
s1.nearest_point(Vector2D(90, 80)) | s1.nearest_point(Vector2D(-90, -80)) | s1.nearest_point(Vector2D(90, -80)) | s1.nearest_point(Vector2D(-90, 80)) | s1.nearest_point(s1.terminal()) | s1.projection(Vector2D(90, 80)) | s1.projection(s1.origin()) | s1.intersection(s1) | s1.intersection(s1.reversed_segment()) | s1.intersection(s1.line()) | s1.dist(s1.origin()) | s1.intersection(Segment2D(s1.origin(), v1)) | s1.intersection(Segment2D(v1, s1.terminal()))
v1 + Vector2D(0, 0) | v1 - Vector2D(0, 0) | v1 * 1 | v1 * 1.0 | v1 / 1 | v1 / 1.0 | v1.rotated_vector(0) | v1.rotated_vector(360) | v1.rotated_vector(AngleDeg(0)) | v1.set_length_vector(v1.r()) | v1.set_length_vector(1) | Vector2D(3, 0).abs() | Vector2D(0, 1).normalize_vector() | Vector2D(0, 0).normalize_vector() | Vector2D(0, 0).reverse_vector() | Vector2D(0, 0).set_length_vector(n1) | Vector2D.polar2vector(0, a1)
a1 + 0 | a1 - 0 | a1 * 1 | a1 // 1 | a1 + AngleDeg(0) | AngleDeg.bisect(a1, a1) | AngleDeg.bisect(a1, a1.reverse_angle()) | a1.is_within(a1, a1) | AngleDeg(a1) | -AngleDeg(0) | AngleDeg(180).reverse_angle()
l1.intersection(l1) | l1.projection(l1.projection(v1)) | l1.perpendicular(l1.projection(v1)) | Line2D.angle_bisector(v1, a1, a1) | Line2D.perpendicular_bisector(v1, v1) | y1.intersection(y1) | y1.intersection(y1.line()) | y1.intersection(Line2D(y1.origin(), AngleDeg(71))) | y1.in_right_dir(y1.origin()) | Ray2D(v1, v1)
c1.intersection(Line2D(c1.center(), a1)) | c1.intersection(Ray2D(c1.center(), a1)) | c1.intersection(Ray2D(Vector2D(-90, c1.center().y()), 0)) | c1.intersection(Segment2D(Vector2D(-90, c1.center().y()), Vector2D(90, c1.center().y()))) | c1.intersection(Segment2D(c1.center(), Vector2D(90, 1))) | c1.intersection(c1) | c1.intersection(Circle2D(c1.center() + Vector2D(2 * c1.radius(), 0), c1.radius())) | c1.contains(c1.center()) | Circle2D.circum_circle(v1, v1, v2) | Circle2D(v1, 0)
q1.intersected(q1) | q1.united(q1) | q1.intersected(Rect2D(-100, -100, 200, 200)) | q1.united(Rect2D(-100, -100, 200, 200)) | q1.intersected(Rect2D(90, 90, 1, 1)) | q1.united(Rect2D(q1.center(), Size2D(0.125, 0.125))) | q1.intersection(Line2D(q1.top_left(), q1.bottom_right())) | q1.intersection(Line2D(q1.center(), a1)) | q1.intersection(Line2D(q1.top_left(), q1.top_right())) | q1.intersection(Ray2D(q1.center(), a1)) | q1.intersection(Segment2D(q1.center(), Vector2D(90, 80))) | q1.intersection(q1.top_edge()) | q1.intersection(Line2D(Vector2D(90, 80), AngleDeg(0)))
t1.intersection(Line2D(t1.a(), t1.b())) | t1.intersection(Line2D(t1.centroid(), a1)) | t1.intersection(Line2D(t1.a(), t1.centroid())) | t1.intersection(Ray2D(t1.centroid(), a1)) | t1.intersection(Segment2D(t1.centroid(), Vector2D(90, 80))) | t1.intersection(Segment2D(t1.a(), t1.b())) | t1.contains(t1.a()) | Triangle2D(v1, v1, v2).centroid() | Triangle2D(v1, v1, v1).centroid() | Triangle2D.tri_centroid(v1, v1, v1)
m1 * Matrix2D() | Matrix2D() * m1 | Matrix2D() * v1 | Matrix2D().inverted() | Matrix2D(0, 0, 0, 0, n1, n2).inverted() | Matrix2D.make_rotation(AngleDeg(0)) | Matrix2D.make_scaling(1, 1) | Matrix2D.make_translation(0, 0) | Matrix2D().transform(v1) | m1 * m1 | m1.transform(0, 0)
p1.get_rectangle_clipped_polygon(Rect2D(-100, -100, 200, 200)) | p1.get_rectangle_clipped_polygon(Rect2D(90, 90, 1, 1)) | p1.get_rectangle_clipped_polygon(p1.get_bounding_box()) | Polygon2D().get_rectangle_clipped_polygon(q1) | Polygon2D().get_bounding_box() | p1.contains(p1.vertices()[0]) | p1.dist(p1.bounding_box_center()) | Polygon2D.get_line_clipped_polygon(XLessEqual(90), g1, Line2D(1.0, 0.0, -90.0)) | Polygon2D.get_line_clipped_polygon(XMoreEqual(90), g1, Line2D(1.0, 0.0, -90.0)) | ConvexHull([]).vertices() | ConvexHull([]).to_polygon()
sm.inertia_n_step_travel(v1, 0, f1) | sm.inertia_n_step_travel(v1, 1, f1) | sm.inertia_n_step_travel(v1, 3, 1) | sm.inertia_n_step_point(v1, v2, 0, f1) | sm.inertia_n_step_point(v1, Vector2D(0, 0), 3, f1) | sm.inertia_final_travel(v1, 0) | sm.inertia_final_point(v1, Vector2D(0, 0), f1) | sm.inertia_final_point(v1, v2, 0) | list(sm.f_range(0)) | list(sm.f_range(1, 1, 1)) | list(sm.f_range(i1)) | sm.bound(n1, n2, n2)
sm.unquantize_max(n1, f1) | sm.unquantize_error(40 + n1, f1) | sm.wind_effect(n1, 0.5, n2, n3, 10.0, 0.25, Vector2D(1, 1)) | sm.wind_effect(n1, 0.5, n2, n3, 10.0, 0.25, None)
'''
# statements that change an object on purpose; "; " separates the statement from the result
MUT = '''
v1.assign(n1, n2); v1 | v1.set_x(n1); v1 | v1.set_y(n1); v1 | v1.set_x_y(n1, n2); v1 | v1.set_vector(v2); v1 | v1.set_polar(n1, a1); v1 | v1.set_polar(n1, n2); v1 | v1.invalidate(); v1 | v1.validate(); v1 | v1.add(v2); v1 | v1.add(n1, n2); v1 | v1.sub(v2); v1 | v1.sub(n1, n2); v1 | v1.add_x(n1); v1 | v1.add_y(n1); v1 | v1.sub_x(n1); v1
v1.sub_y(n1); v1 | v1.scale(n1); v1 | v1.reverse(); v1 | v1.set_length(n1); v1 | v1.normalize(); v1 | v1.rotate(n1); v1 | v1.rotate(a1); v1 | v1.set_dir(n1); v1 | v1.set_dir(a1); v1 | v1 += v2; v1 | v1 -= v2; v1 | v1 *= n1; v1 | v1 /= n1; v1
a1.set_degree(n1); a1 | a1.set_angle(a2); a1 | a1.reverse(); a1 | a1 += a2; a1 | a1 -= n1; a1 | a1 *= n1; a1 | a1 /= n1; a1
s1.assign(v1, v2); s1 | s1.assign(n1, n2, n3, 1.25); s1 | s1.assign(v1, n1, n2); s1 | s1.swap(); s1 | s1.reverse(); s1 | c1.assign(v1, n1); c1 | k1.assign(v1, n1, n2, a1, a2); k1 | z1.assign(n1, n2); z1 | z1.set_length(n1); z1 | z1.set_width(n1); z1 | t1.assign(v1, v2, v3); t1 | t1.assign(s1, v1); t1
q1.assign(v1, z1); q1 | q1.assign(v1, v2); q1 | q1.assign(n1, n2, n3, 1.5); q1 | q1.move_center(v1); q1 | q1.move_top_left(v1); q1 | q1.move_bottom_right(v1); q1 | q1.move_left(n1); q1 | q1.move_right(n1); q1 | q1.move_top(n1); q1 | q1.move_bottom(n1); q1 | q1.move_min_x(n1); q1 | q1.move_max_x(n1); q1 | q1.move_min_y(n1); q1 | q1.move_max_y(n1); q1
q1.set_top_left(n1, n2); q1 | q1.set_bottom_right(n1, n2); q1 | q1.set_left(n1); q1 | q1.set_right(n1); q1 | q1.set_top(n1); q1 | q1.set_bottom(n1); q1 | q1.set_length(n1); q1 | q1.set_width(n1); q1 | q1.set_size(n1, n2); q1 | q1.set_size(z1); q1 | q1.set_min_x(n1); q1 | q1.set_max_x(n1); q1 | q1.set_min_y(n1); q1 | q1.set_max_y(n1); q1
m1.reset(); m1 | m1.assign(n1, n2, n3, 1.0, n2, 2.0); m1 | m1.translate(n1, n2); m1 | m1.scale(n1, n2); m1 | m1.rotate(a1); m1 | m1 *= m2; m1 | m1.transform_vec(v1); v1
h1.clear(); h1.add_points(g1); h1 | p1.clear(); p1.assign(g1); p1 | h1.clear(); h1.add_point(v1); h1 | p1.clear(); p1 | p1.assign(g1); p1 | p1.add_vertex(v1); p1 | h1.clear(); h1 | h1.clear_results(); h1 | h1.add_point(v1); h1 | h1.add_points(g1); h1 | h1.compute(MethodType.DIRECT_METHOD); h1 | h1.compute(); h1 | h1.compute(MethodType.GRAHAN_SCAN); h1
'''
# calls with unusable arguments
BAD = '''
Vector2D('a', 1).r() | Segment2D(1) | Line2D(v1) | Rect2D('x') | Polygon2D([1, 2]).area() | ConvexHull([None, None, None]).compute() | AngleDeg('q') | v1 + 1 | m1 * 'x' | c1.intersection(3) | sm.quantize(n1, 0) | s1.intersection(None) | t1.intersection('l') | p1.contains(None) | p1.get_rectangle_clipped_polygon(None) | v1 / 0
'''
NAME = re.compile(r'\b([vanilyscfkzqtmpgh])([123])\b')


class Probe:
    __slots__ = ('label', 'group', 'names', 'srcs', 'stmt', 'expr', 'kind', 'setup', 'cstmt', 'cexpr')

    def __init__(self, group, names, srcs, kind):
        self.group, self.names, self.srcs, self.kind = group, names, srcs, kind
        stmt, _, expr = group.rpartition('; ')
        self.stmt, self.expr = stmt, expr
        self.setup = [compile(s, '<value>', 'eval') for s in srcs]
        self.cstmt = compile(stmt, '<stmt>', 'exec') if stmt else None
        self.cexpr = compile(expr, '<call>', 'eval')

    def make(self):
        env = dict(ENV)
        for n, c in zip(self.names, self.setup):
            env[n] = eval(c, env)
        return env

    def call(self, env):
        if self.cstmt:
            exec(self.cstmt, env)
        return eval(self.cexpr, env)

    def source(self):
        return '; '.join([f'{n} = {s}' for n, s in zip(self.names, self.srcs)] + ([self.stmt] if self.stmt else []))

    def __str__(self):
        return '; '.join([f'{n} = {s}' for n, s in zip(self.names, self.srcs)] + [self.group])


def variants(names, full):
    """choices of a variant per variable: the base, every single variable changed to every variant, all variables changed together"""
    base = [0] * len(names)
    # two variables of the same type start different, except for the (base + near) choices below
    for i, n in enumerate(names):
        base[i] = {'1': 0, '2': 3, '3': 4}[n[1]] % len(VALUES[n[0]])
    out = [tuple(base)]
    for i, n in enumerate(names):
        for k in range(len(VALUES[n[0]])):
            if not full and k > 3 and n[1] != '1':
                continue
            c = list(base)
            c[i] = k
            out.append(tuple(c))
    out.append(tuple(0 for _ in names))
    out.append(tuple(min(1, len(VALUES[n[0]]) - 1) for n in names))
    seen, res = set(), []
    for c in out:
        if c not in seen:
            seen.add(c)
            res.append(c)
    return res


def groups(kinds='QMB'):
    res = []
    for kind, text in (('Q', Q), ('M', MUT), ('B', BAD)):
        if kind in kinds:
            for g in re.split(r'\||\n', text):
                g = g.strip()
                if g:
                    res.append((kind, g))
    return res


def table(kinds='QMB', full=False):
    """[[probes of a group], ...]"""
    out = []
    for kind, g in groups(kinds):
        names = sorted({m.group(0) for m in NAME.finditer(g)})
        out.append([Probe(g, names, [VALUES[n[0]][k] for n, k in zip(names, c)], kind) for c in variants(names, full)])
    return out
