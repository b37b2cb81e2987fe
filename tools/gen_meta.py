#!/usr/bin/env python3
"""Single source of the property texts.  Writes properties.jsonl and MANIFEST.json.

Run by hand after editing (python3 tools/gen_meta.py); the outputs are committed.
"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/pyrusgeom/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over,
                  text=' '.join(text.split()), why=' '.join(why.split()), files=[S + f for f in files],
                  mech=mech, observe=observe, technique=technique, note=' '.join(note.split())))


BFS = 'explicit-state search over the real objects (operation histories) against a reference model'
ENUM = 'bounded exhaustive enumeration of configurations on the real code against an exact integer/rational model'
SCHED = 'stateless model checking: preemption-bounded exploration of thread interleavings of the real code'

prop('C01', 'Angles stay normalised to [-180,180] and congruent to the exact result',
     '''Every angle value, after any sequence of constructions, assignments, sums, differences, products, quotients, negations, reversals and copies, reads back as a number of degrees in [-180, 180] that is congruent
     modulo 360 to the exact result of the last operation on the operands' read-back degrees. The absolute, radian,
     float, text and unit-interval readings ((degree+180)/360) agree with that number. The plain-number normaliser obeys the same rule.''',
     ['inputs', 'histories'], '''every start value and every sequence of angle operations''',
     '''The tests sample about a dozen single values (10, -90, +-360); wrap-around after chained arithmetic, values beyond
     one turn and in-place division are never exercised.''', ['angle_deg.py'],
     [dict(name='normal() after every write', where=S + 'angle_deg.py:AngleDeg.normal')],
     ['degree(), degree_(), abs(), radian(), get_normalized(), float(), str()'], BFS,
     '''Complete fixpoint of the reachable quarter-degree state space under the operation alphabet; dyadic operands make
     every expected value exact. Values off the lattice are covered by a separate finite list of boundary values.''')

prop('C02', 'Left/right/within/equal/bisect follow the circular order of directions',
     '''Comparisons of angles depend only on the directions (numbers are taken modulo 360, +180 and -180 are the same
     direction): A is left of B exactly when the turn from A to B by increasing degrees is strictly between 0 and 180,
     right-of is its mirror image, and the "or equal" forms add exactly coincidence. An angle is within [L, R] exactly when it is met
     while turning from L to R by increasing degrees (ends included), and two angles are equal exactly when they differ by less than
     1e-6 degree around the circle. The bisector of (left, right) is the direction in the middle of the turn from right to left by increasing degrees (a full turn when they coincide).''',
     ['inputs'], 'every pair / triple of angles, given as angle objects or as plain numbers',
     '''The tests use four positive angles within 25 degrees of each other; no pair straddles +-180 and no arc exceeds 180 degrees.''',
     ['angle_deg.py'], [dict(name='comparison and bisect methods', where=S + 'angle_deg.py')],
     ['is_left_of, is_right_of, is_left_equal_of, is_right_equal_of, is_within, ==, bisect'], ENUM,
     'All pairs and triples over a direction alphabet that contains both representations of 180, opposite and near-opposite directions.')

prop('C03', 'Degree trigonometry, polar conversion and rotation are consistent',
     '''For every angle in degrees (in or out of the normal range) sine, cosine and tangent equal the mathematical values;
     the inverse functions return degrees of the principal branch, clamp arguments outside [-1, 1], and return 0 for the direction of a zero vector. A vector built from (r, direction)
     has components r*cos, r*sin whichever way it is built; redirecting a vector keeps its length; rotating by d adds d
     to the direction, keeps the length, and rotations compose additively.''',
     ['inputs'], 'every angle, radius and vector',
     '''The tests check 30 and 45 degrees and one rotation by 90; quadrants, sign combinations and compositions are not covered.''',
     ['angle_deg.py', 'vector_2d.py', 'math_values.py'],
     [dict(name='degree/radian constants and clamps', where=S + 'math_values.py, ' + S + 'angle_deg.py'),
      dict(name='polar and rotation methods', where=S + 'vector_2d.py')],
     ['cos/sin/tan, *_deg statics, th/dir, set_polar, from_polar, polar2vector, Vector2D(r=,a=), set_dir, rotate, rotated_vector'], ENUM,
     'Reference is the standard math library at 1e-11 relative tolerance over a quarter-degree lattice, all lattice vectors and all ordered pairs of rotations.')

prop('C04', 'Vector arithmetic, in place or not, follows component arithmetic',
     '''After any sequence of vector operations the components are exactly those of component-wise arithmetic; operations that return a
     new vector leave the operands unchanged, in-place operators change only their receiver (also when both operands are the same
     object) and every alias of it. Length, squared length, distance, inner and outer product, scaling to a length (a negative one reverses; a vector shorter than 1e-6 is left alone), normalisation and reversal
     agree with the components. Strict equality, weak equality (1e-6 per component) and hashing agree with the components, and copies carry the validity flag.''',
     ['inputs', 'histories'], 'every pair of vectors and every sequence of vector operations',
     '''The tests run each operator once on small positive vectors; aliasing, chained in-place updates, validity and hash/equality consistency are not covered.''',
     ['vector_2d.py'], [dict(name='operators and in-place methods', where=S + 'vector_2d.py')],
     ['all accessors after every step'], BFS,
     'All operation sequences to a fixed depth over two vectors (which may be the same object), compared step by step with a tuple model; all lattice pairs for the binary queries.')

prop('C05', 'Queries have no side effects and share no mutable state with their results',
     '''A call that asks a question (accessors, measures, predicates, intersections, products, conversions, static helpers) changes
     neither its receiver nor any argument. A later change to the object it returned never changes the receiver, the arguments or any
     other object; only the accessors documented to return a reference (trailing underscore) are exempt. Constructing or assigning a shape copies
     the points, sizes and point lists it is given: later growth, clearing or editing of the caller's objects does not affect the shape, apart from individual vertex objects inside polygon and hull point lists.''',
     ['inputs', 'histories'], 'every public query and constructor of every class, on a table of argument variants per call',
     '''Tests look at return values once and never look at the operands again after a call, nor edit a result and re-read the source.''',
     ['vector_2d.py', 'angle_deg.py', 'line_2d.py', 'ray_2d.py', 'segment_2d.py', 'circle_2d.py', 'sector_2d.py',
      'rect_2d.py', 'size_2d.py', 'triangle_2d.py', 'matrix_2d.py', 'polygon_2d.py', 'convex_hull.py', 'soccer_math.py'],
     [dict(name='defensive copies in constructors and accessors', where=S + '*.py')],
     ['observable state of receiver, arguments and bystanders before/after each call and after editing the result'],
     'exhaustive two-step histories (call, then edit the result or an input) over the public API on the real objects',
     'Every call of the API table times every argument variant times every edit; observable state only, private attributes are not read.')

prop('C06', 'Line operations agree with the point set of the line',
     '''A line built from two points, a point and a direction, three coefficients or another line (positionally or by keyword) is
     exactly the expected point set: coordinate lookup, distance and squared distance agree with it (looking up a coordinate that the line does not
     determine, because it runs along that axis, gives the error value 1e20). Two lines report
     parallel exactly when their directions coincide up to sign; otherwise their intersection lies on both, and parallel lines give an
     invalid point. Perpendiculars pass through their point at a right angle, projections are the nearest point of the line, the perpendicular
     bisector is equidistant from both points, and two lines compare equal exactly when they are the same point set.''',
     ['inputs'], 'every pair of lines and every point',
     '''The tests use axis-parallel lines through the origin and one diagonal.''', ['line_2d.py'],
     [dict(name='coefficient constructors and closed forms', where=S + 'line_2d.py')],
     ['a/b/c, get_x/get_y, dist, dist2, is_parallel, intersection, line_intersection, perpendicular, projection, perpendicular_bisector, angle_bisector, =='], ENUM,
     'All pairs of lines through lattice points and lattice directions, in several placements, against exact integer geometry.')

prop('C07', 'Rays meet lines and rays exactly where geometry says',
     '''A ray built from an origin and a target point or a direction has that origin and direction, and two rays are equal exactly when these agree. Its intersection with a line or another ray is the
     common point when the carrying lines cross at a point on the ray (on both rays), the ray's own origin included, and is reported invalid otherwise.
     A point is in the ray's direction within a threshold exactly when the angle between it and the ray is below the threshold; the origin always is.''',
     ['inputs'], 'every ray/line and ray/ray configuration',
     '''One crossing configuration is tested; no configuration behind the origin, at the origin, or with parallel carriers.''', ['ray_2d.py', 'line_2d.py'],
     [dict(name='in_right_dir filter', where=S + 'ray_2d.py')], ['intersection, in_right_dir, origin, dir, line'], ENUM,
     'All ray/ray and ray/line pairs over lattice origins and directions in several placements against exact rational geometry.')

prop('C08', 'Segment intersection and incidence predicates are exact',
     '''For any two segments (degenerate and collinear ones included), or a segment and a line, "intersects" is true exactly when they share a point, and "intersects except at endpoints"
     exactly when they cross at a point interior to both. The intersection point, when the carriers are not parallel, is returned exactly when it lies on both
     segments (on the segment, for a line operand), is excluded at endpoints unless endpoints are allowed, and is otherwise invalid; a point is on a segment (strictly or weakly) exactly when it lies between the ends.
     All of these are symmetric in the two segments and under reversing either one.''',
     ['inputs'], 'every pair of segments, segment and line, segment and point',
     '''The tests use one vertical and one horizontal segment; collinear overlap, touching ends, T-junctions and degenerate segments are not covered.''',
     ['segment_2d.py', 'triangle_2d.py'], [dict(name='signed-area sign tests', where=S + 'segment_2d.py')],
     ['exist_intersection, exist_intersection_except_endpoint, intersects_except_endpoint, intersection, on_segment, on_segment_weakly, contains, check_intersects_on_line'], ENUM,
     'All segment pairs with endpoints on a lattice, in several exactly representable placements, against integer orientation tests.')

prop('C09', 'Segment distances, nearest point and projection are the true minima',
     '''The nearest point of a segment to a point lies on the segment and no point of the segment is closer; the distance to a point equals the distance to it, the distance
     between two segments is the minimum over both (0 exactly when they meet) and is symmetric, and the farthest distance is the maximum over the segment.
     The projection is the foot of the perpendicular when that foot is on the segment and invalid otherwise; onto a segment of zero length it is that segment's only point.''',
     ['inputs'], 'every segment and point, every pair of segments', '''Only axis-parallel segments are tested, at three points.''',
     ['segment_2d.py'], [dict(name='clamped inner product', where=S + 'segment_2d.py')],
     ['nearest_point, dist, farthest_dist, projection'], ENUM,
     'All lattice segments and points / segment pairs in several placements against rational minima.')

prop('C10', 'Shapes answer from their current data, whatever their history',
     '''After any sequence of constructions, assignments, setters, swaps, reversals and queries, a segment, circle, sector, triangle, ray or size reports exactly
     what a freshly built object with the same final data reports (points, radii, angles, length, direction, area, validity, containment, distances). Reversing a segment swaps its ends, twice is the identity;
     a negative circle radius is treated as zero and negative size ranges by their absolute value.''',
     ['histories'], 'every operation sequence up to the explored depth on each class',
     '''Tests construct an object, call one mutator at most, and read one accessor; no test interleaves queries with updates.''',
     ['segment_2d.py', 'circle_2d.py', 'sector_2d.py', 'triangle_2d.py', 'ray_2d.py', 'size_2d.py'],
     [dict(name='no derived data is cached', where=S + '*.py')], ['all accessors and measures after every step'], BFS,
     'All operation sequences to a fixed depth with queries interleaved, compared with a reference tuple and with a fresh object.')

prop('C11', 'Circle containment and circle intersections are complete and correct',
     '''A circle contains exactly the points closer to its centre than its radius and its area is pi r^2. Its intersection with a line, ray,
     segment or circle returns every common point exactly once and nothing else: two points for a secant, one for a tangent, none when apart (or inside one
     another), restricted to the ray or segment when one is given.''',
     ['inputs'], 'every circle with every line, ray, segment and circle (tangency decided within the documented 1e-6 tolerance)',
     '''The tests use one circle at the origin and horizontal operands; oblique and vertical carriers, offset centres and inner tangency are not covered.''',
     ['circle_2d.py', 'line_2d.py', 'ray_2d.py', 'segment_2d.py'], [dict(name='quadratic solver and direction/extent filters', where=S + 'circle_2d.py')],
     ['contains, area, intersection, intersection_with_*, quadratic_f'], ENUM,
     'All lattice circles with all lattice lines/rays/segments/circles; the number of solutions is decided by exact integer discriminants.')

prop('C12', 'Triangle area, orientation, containment and validity are exact',
     '''A triangle's area is half the cross product of its edges; its signed area is positive exactly when the vertices run counter-clockwise, changes sign
     when two vertices are swapped and is invariant under rotation of the vertex order; the static forms agree with the methods. A non-degenerate triangle contains exactly the points of its closed region, whatever the vertex order, and a triangle is valid
     exactly when its three vertices are valid and pairwise different.''',
     ['inputs'], 'every vertex triple and point', '''The triangle class has no test file at all.''', ['triangle_2d.py'],
     [dict(name='outer products', where=S + 'triangle_2d.py')],
     ['area, signed_area, double_signed_area, ccw, contains, tri_contains, is_valid, statics'], ENUM,
     'All vertex triples on a lattice with all lattice and half-lattice points, in several placements, against integer arithmetic.')

prop('C13', 'Triangle centres and circumcircle satisfy their defining equations',
     '''For every non-degenerate triangle the centroid is the mean of the vertices, the incenter is inside and equidistant from the three sides, the circumcenter is equidistant from the three vertices
     and the orthocenter is on all three altitudes, whatever the vertex order. The circumscribed circle passes through the three vertices, and the in-circle test is true
     exactly for the points strictly inside it. For three distinct collinear points the circumcenter is invalid and the in-circle test false.''',
     ['inputs'], 'every vertex triple and point', '''One right triangle is tested for the circumcircle; the centres have no test.''', ['triangle_2d.py', 'circle_2d.py', 'line_2d.py', 'angle_deg.py'],
     [dict(name='bisector intersections and closed forms', where=S + 'triangle_2d.py, ' + S + 'circle_2d.py')],
     ['centroid, incenter, circumcenter, orthocenter, tri_* statics, circum_circle, circum_circle_contains'], ENUM,
     'All vertex triples on a lattice (and all test points for the in-circle determinant) against exact rational centres.')

prop('C14', 'Triangle intersections return each boundary crossing exactly once',
     '''Intersecting a non-degenerate triangle with a line, ray or segment returns the number of distinct points (0, 1 or 2) followed by those points: they are exactly the points where the operand
     meets the triangle's boundary, including when it passes through a vertex; for an operand along an edge the ends of the shared edge are returned when they belong to the operand.''',
     ['inputs'], 'every triangle with every line, ray and segment', 'The method has no test and a TODO in its docstring.', ['triangle_2d.py', 'segment_2d.py', 'ray_2d.py'],
     [dict(name='edge-by-edge intersection', where=S + 'triangle_2d.py')], ['intersection'], ENUM,
     'All lattice triangles with all lattice lines/rays/segments against exact rational clipping.')

prop('C15', 'Sector geometry matches its radii and its swept angle',
     '''A sector keeps inner radius max(0, min) and outer radius max(min, max) and reports them, its centre and its angles back. It contains exactly the points whose distance from the centre lies between
     the radii and whose direction is met while turning from the start to the end angle by increasing degrees (ends included), for any combination of angles including sweeps over 180 degrees and across the +-180 seam.
     Its area and its inner and outer arc lengths are those of that swept angle, and two sectors compare equal exactly when centre, radii and angles agree.''',
     ['inputs', 'histories'], 'every sector and point, before and after reassignment', 'The sector class has no test file.', ['sector_2d.py', 'angle_deg.py'],
     [dict(name='radius clamps and is_within', where=S + 'sector_2d.py')],
     ['radius_min, radius_max, angle accessors, area, contains, get_circumference_min/max, =='], ENUM,
     'All combinations of a radius, angle, centre and point alphabet, for construction and for assignment.')

prop('C16', 'Rectangle edits keep the rectangle normalised and move only what they say',
     '''Built from a corner and sizes, two opposite corners in any order, a centre and sizes, or another rectangle, and after any sequence of edits, a rectangle has left <= right and top <= bottom and its corners, sides, size,
     centre, edges and area agree with each other. Moving the rectangle (by a side, a corner or the centre) keeps its size and puts the named feature at the given place; setting a side or corner keeps the opposite side or corner
     as a side or corner and makes the given value the other one; setting a size keeps the top-left corner.''',
     ['histories', 'inputs'], 'every construction followed by every sequence of edits up to the explored depth',
     'The rectangle class has no test file; the polygon tests touch only one constructor.', ['rect_2d.py', 'size_2d.py'],
     [dict(name='min/max normalisation in setters', where=S + 'rect_2d.py')], ['left/right/top/bottom and min/max aliases, corners, edges, size, center, area, is_valid'], BFS,
     'Complete fixpoint of the reachable rectangles on a coordinate lattice under all edits, compared with a four-number reference model at every transition.')

prop('C17', 'Rectangle containment, intersection and union are set operations',
     '''A rectangle contains exactly the points between its sides (borders included; with a tolerance, within the tolerance of them). The intersection of two rectangles contains exactly the points
     common to both when they overlap with positive area and is an empty (zero-size) rectangle otherwise; the union of two non-empty rectangles is the smallest rectangle
     containing both. Neither operand is changed, both operations are commutative, and the intersection is contained in each operand.''',
     ['inputs'], 'every pair of rectangles and every point', 'The rectangle class has no test file.', ['rect_2d.py'],
     [dict(name='min/max of sides', where=S + 'rect_2d.py')], ['contains, contains_almost, intersected, united'], ENUM,
     'All pairs of lattice rectangles with all lattice and half-lattice points in several placements.')

prop('C18', 'Rectangle intersections with lines, rays and segments are complete',
     '''Intersecting a rectangle of positive area with a line, ray or segment returns exactly the distinct points where the operand crosses the rectangle's boundary: two when it passes through, one when it
     only touches a corner or ends (or starts) inside, none when it misses; a line through a corner that continues into the rectangle yields both ends, and an operand along a side yields the ends of that side that belong to it.''',
     ['inputs'], 'every rectangle with every line, ray and segment', 'The rectangle class has no test file.', ['rect_2d.py', 'line_2d.py', 'ray_2d.py', 'segment_2d.py'],
     [dict(name='edge-by-edge intersection', where=S + 'rect_2d.py')], ['intersection'], ENUM,
     'All lattice rectangles with all lattice lines/rays/segments against exact rational clipping.')

prop('C19', 'Matrices behave as affine maps: products compose, inverses undo',
     '''Applying a product of matrices to a point equals applying the right factor, then the left; multiplication is associative, has the identity as unit, and changes no operand unless in place.
     Translating, scaling and rotating a matrix in place equals multiplying by the corresponding elementary matrix from the left; after any such sequence the matrix maps points as the composed maps do, and resetting yields the identity.
     The inverse of an invertible matrix undoes it in both orders, the determinant is multiplicative, singular matrices invert to the identity matrix, and equality compares all six entries.''',
     ['inputs', 'histories'], 'every pair and triple of matrices, every sequence of in-place operations',
     'The tests multiply identity by identity only and never re-read an operand.', ['matrix_2d.py'],
     [dict(name='closed-form products', where=S + 'matrix_2d.py')], ['entries, det, invertible, transform, transform_vec, *, *=, inverted, =='], BFS,
     'All operation sequences to a fixed depth against a 3x3 reference matrix, all pairs/triples over an entry alphabet.')

prop('C20', 'Polygon area, orientation and bounding box follow its current vertices',
     '''After any sequence of construction, assignment, vertex addition and clearing, a polygon's vertex list is the expected one, its doubled signed area is the shoelace sum of those vertices (0 below three), positive for counter-clockwise and
     negative for clockwise order, its area is half the absolute value, and its bounding box is the smallest rectangle containing all vertices. The values are invariant under
     cyclic shifts of the vertex order, and reversal flips only the sign.''',
     ['inputs', 'histories'], 'every vertex list and every operation sequence', 'Five fixed polygons are tested; no test queries, edits, and queries again.', ['polygon_2d.py', 'rect_2d.py'],
     [dict(name='shoelace and min/max scans', where=S + 'polygon_2d.py')], ['vertices, area, double_signed_area, is_clockwise, is_counter_clockwise, get_bounding_box, bounding_box_center'], BFS,
     'All vertex sequences up to length 5 on a lattice, all operation sequences to a fixed depth, and structured polygons with many vertices.')

prop('C21', 'Polygon containment obeys even-odd and border rules; distance agrees',
     '''A polygon contains a point off its border exactly when a half line from the point crosses the border an odd number of times (even-odd rule), whatever the vertex order, start vertex or alignment of vertices with the point; a point
     on the border (any edge or vertex) is contained exactly when border points are allowed. The distance from a point is 0 for contained points when the polygon counts as a filled
     region and otherwise the smallest distance to any of its edges, the closing edge included.''',
     ['inputs'], 'every polygon (self-intersecting ones included) and point', 'One pentagon is tested at four points, none on an edge interior and none level with a vertex.',
     ['polygon_2d.py', 'segment_2d.py'], [dict(name='half-line crossing parity', where=S + 'polygon_2d.py')], ['contains (both modes), dist (both modes)'], ENUM,
     'All vertex sequences up to length 5 on a lattice with all lattice and half-lattice points, structured many-vertex polygons, against exact crossing parity and border tests.')

prop('C22', 'Clipping a polygon by a rectangle keeps exactly the common region',
     '''Clipping a polygon by a rectangle yields a polygon whose vertices all lie in the rectangle, whose signed area equals that of the common region (for convex polygons exactly the intersection),
     and which is the polygon itself (up to rotation of its vertex list) when it lies inside, and has no area (no vertices, if convex) when they are apart; the polygon being clipped is not changed. Clipping a point list by one half plane keeps the inside vertices in
     order and inserts the crossing points.''',
     ['inputs'], 'every polygon and rectangle', 'One rectangle that shares three sides with the polygon is tested, and that test pins the wrong result for the bottom side (see the known finding).',
     ['polygon_2d.py', 'line_2d.py'], [dict(name='Sutherland-Hodgman passes', where=S + 'polygon_2d.py')], ['get_rectangle_clipped_polygon, get_line_clipped_polygon'], ENUM,
     'All lattice triangles/quadrilaterals with all lattice rectangles against an exact rational clipper; the pinned bottom-side defect is a listed finding matched by its exact wrong result.')

prop('C23', 'Convex hull is the smallest convex polygon of the input points',
     '''For every list of at least three points that are not all on one line, in any order and with duplicates, both the wrapping method (the default) and the Graham scan produce vertices that are input points, run once around the hull in order
     (counter-clockwise for the default method), include every extreme point exactly once, and contain every input point. The edges join consecutive vertices all the way round, closing edge included, and the polygon made from the hull has
     those vertices.''', ['inputs'], 'every point list', 'Two octagons and one random cloud in general position are tested, vertices only.', ['convex_hull.py', 'triangle_2d.py', 'polygon_2d.py'],
     [dict(name='candidate selection / angle sort', where=S + 'convex_hull.py')], ['compute, compute_wrapping_method, compute_graham_scan, vertices, edges, to_polygon'], ENUM,
     'All point sequences up to length 5 on 3x3, all subsets of a 4x4 lattice in several orders, structured larger sets; against an independent exact hull. The direct method is documented as broken and excluded.')

prop('C24', 'A hull object can be grown, recomputed and cleared without corrupting input',
     '''After any sequence of adding points, computing with the wrapping or Graham method, clearing results and clearing everything, the stored input points are exactly the points added since construction or the last full clear (as a multiset), the results are
     those of the last computation since results were cleared and equal what a fresh hull computes from the input held at that time, and the caller's own point list is never changed.
     Fewer than three points give no vertices and no edges.''', ['histories'], 'every operation sequence up to the explored depth', 'Each test computes once on a fresh object and ignores what happened to the input list.',
     ['convex_hull.py'], [dict(name='separate input and result lists', where=S + 'convex_hull.py')], ['input_points, vertices, edges, caller list'], BFS,
     'All operation sequences to a fixed depth over a small point alphabet against a reference (input multiset, result of last compute).')

prop('C25', 'Inertia predictions equal step-by-step simulation',
     '''For every velocity, decay in (0, 1) and number of steps n >= 0, the predicted n-step travel, point and distance equal the sum of the velocities of a simulation that moves by the current velocity and then multiplies it by the decay; the
     final travel, point and distance are the limit of those sums. Inputs are not modified.''',
     ['inputs'], 'every velocity, decay and step count', 'soccer_math has no test file.', ['soccer_math.py'], [dict(name='geometric series closed forms', where=S + 'soccer_math.py')],
     ['inertia_n_step_travel/point/distance, inertia_final_travel/point/distance'], 'exhaustive exploration of simulated step histories against the closed forms of the real code',
     'Every (velocity, decay) pair of an alphabet simulated step by step in rational arithmetic up to the step bound; every prefix compared.')

prop('C26', 'Quantisation rounds to the nearest step and its inverse brackets it',
     '''Integer rounding returns a nearest integer; quantising a value returns a nearest multiple of the step, never moves it by more than half a step and is idempotent. The un-quantised minimum
     and maximum of a reading are half a step below and above the nearest multiple, so any value that quantises to the reading lies between them. Distance quantisation is the composition log - quantise - exp - quantise(0.1), monotone in the distance, and
     the reported error range is the width of the interval obtained by inverting it.''',
     ['inputs'], 'every value and step', 'soccer_math has no test file.', ['soccer_math.py'], [dict(name='r_int and quantize', where=S + 'soccer_math.py')],
     ['r_int, quantize, quantize_dist, unquantize_min, unquantize_max, unquantize_error'], ENUM,
     'All values of a fine lattice times all steps, exact rational nearest-multiple oracle; ties accept either neighbour.')

prop('C27', 'Soccer formulas, series, ranges and clamps match their definitions',
     '''Kick rate, dash-direction rate, effective turn, converged speed, the wind effect with its error output, and the over-speed test follow the simulator's formulas (over-speed exactly when the converged speed exceeds the limit).
     The geometric-series helpers invert the series sum and reject impossible inputs with -1; clamping returns the closest value in range; the float range yields start, start+step, ... strictly before stop, in either
     direction, with the documented defaults.''',
     ['inputs'], 'every argument tuple in the simulator domain', 'soccer_math has no test file.', ['soccer_math.py'], [dict(name='closed forms', where=S + 'soccer_math.py')],
     ['kick_rate, dir_rate, effective_turn, final_speed, can_over_speed_max, calc_length_geom_series, calc_first_term_geom_series, bound, min_max, f_range, wind_effect'], ENUM,
     'Full cartesian products of small argument alphabets including boundary values.')

prop('C28', 'Results never depend on which calls were made before',
     '''Every public call returns the same result for the same argument values no matter which other calls (successful or failing, on equal, nearby or unrelated arguments, with their results edited afterwards) were made earlier in the process.
     In particular results are not remembered under keys coarser than the exact arguments and are not shared between callers.''',
     ['histories'], 'every ordered pair and selected longer sequences of calls from a table covering the public API', 'Each test runs a handful of calls in a fixed order and compares with constants.',
     ['*.py'], [dict(name='no module-level or default-argument state', where=S + '*.py')], ['result of every call after every other call'],
     'exhaustive exploration of call histories (all ordered pairs, all repeat/edit/repeat triples) against fresh-process baselines',
     'Oracle is the same call in a forked pristine process, compared exactly; benign caching stays silent.')

prop('C29', 'Concurrent calls on unshared objects behave as if run alone',
     '''When several threads call the library at the same time on objects they do not share, or only ask questions of shared objects, every call returns exactly what it returns when run alone, for every interleaving.''',
     ['schedules'], 'every interleaving of two calls with at most the explored number of preemptions', 'No test uses threads.', ['*.py'],
     [dict(name='no module-level scratch state', where=S + '*.py')], ['results of both calls under every explored schedule'], SCHED,
     'Line-granular schedule points injected with sys.settrace; all schedules of each two-thread harness up to the preemption bound; the same schedule is replayed twice before a failure is reported.')


prop('C30', 'Equality compares current values, in every class that defines it',
     '''Two vectors or matrices are equal exactly when all their numbers are equal, two segments exactly when both ends are (in the same order), two angles when they differ by less than 1e-6 degree around the circle, two rays when
     the origins are equal and the directions agree (1e-6 degree), two sizes or sectors when every number agrees within 1e-6 (angles around the circle); the weak equality of vectors and segments allows 1e-6 per coordinate. The answer does not
     depend on how the objects were built, on operand order or on int versus float notation, != is always the opposite, and equal vectors have equal hashes and find each other in sets and dictionaries.''',
     ['inputs', 'histories'], 'every pair of values of a class, however they were built', 'The tests compare objects with themselves or with grossly different ones; a single ignored or exchanged number goes unnoticed.',
     ['vector_2d.py', 'angle_deg.py', 'segment_2d.py', 'ray_2d.py', 'size_2d.py', 'sector_2d.py', 'matrix_2d.py'], [dict(name='__eq__, __hash__, equals, equals_weakly', where=S + '*.py')],
     ['==, !=, hash, in, equals, equals_weakly'], ENUM, 'All ordered pairs of families in which every single number, every pair of numbers and every exchange of numbers is varied below and above the tolerance.')

prop('C31', 'Text forms show the current numbers of the object',
     '''After any history, str, repr and formatting of an angle, vector, line, ray, segment, circle, sector, size, rectangle, triangle, matrix, polygon or hull show exactly the numbers its accessors report, in order (vector x, y; line a, b, c, a zero c may be left out;
     ray origin, direction; segment ends; circle centre, radius; sector centre, angles, radii; size length, width; rectangle top left, length, width; triangle vertices; matrix entries; polygon vertices; hull vertices, edges). to_str of circles,
     segments, triangles and rectangles returns the given text followed by the shape's numbers (for rectangles left, top, right, bottom) rounded to three decimals.''',
     ['inputs', 'histories'], 'every object and every sequence of updates with the text read in between', 'No test looks at a text form.',
     ['vector_2d.py', 'angle_deg.py', 'line_2d.py', 'ray_2d.py', 'segment_2d.py', 'circle_2d.py', 'sector_2d.py', 'size_2d.py', 'rect_2d.py', 'triangle_2d.py', 'matrix_2d.py', 'polygon_2d.py', 'convex_hull.py'], [dict(name='__repr__, to_str', where=S + '*.py')],
     ['str(), repr(), format(), to_str()'], BFS, 'All histories of up to two (thorough three) updates of the whole update table from every start value, text compared with the accessors after each step.')

prop('C32', 'Arguments of unsupported kinds are rejected with an exception, never answered',
     '''A constructor (angle, vector, line, ray, segment, circle, triangle, rectangle) called with a number or combination of argument kinds outside its documented signatures, or a method that needs a particular kind of operand
     (arithmetic, distances, projections, containment, line, ray, circle and rectangle intersection, matrix transform) called with another kind or number of operands, raises an exception instead of returning an answer; every documented combination is accepted.''',
     ['inputs'], 'every tuple of argument kinds up to the explored length', 'The tests only pass supported arguments.',
     ['angle_deg.py', 'vector_2d.py', 'line_2d.py', 'ray_2d.py', 'segment_2d.py', 'circle_2d.py', 'triangle_2d.py', 'rect_2d.py', 'matrix_2d.py', 'polygon_2d.py'], [dict(name='argument dispatch', where=S + '*.py')],
     ['exception or result of each call'], ENUM, 'All argument tuples over 16 kinds; tuples the documentation leaves open are not judged.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            files = p['files'] if p['files'] != [S + '*.py'] else [S]
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=files, mechanism=p['mech'], observe_at=p['observe'], hook_needed=None))) + '\n')
    built = [p for p in P if os.path.exists(os.path.join(ROOT, 'mc', 'props', p['id'].lower() + '.py'))]
    m = dict(version=1, setup_cmd='bash setup.sh',
             checks=[dict(property=p['id'], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
                          evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level='model_checking', level_note=p['note'])
                     for p in built],
             not_applicable=[dict(property=p['id'], reason='check not built yet') for p in P if p not in built],
             notes='No hooks in /repo. Every check imports the code from /repo/src of the working tree; nothing is cached between runs.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
