"""Geometric objects with a plain model of their definition."""

import itertools
import math

from sim.core import Violation

TOLERANCE = 1e-9


def close(a, b, tolerance=TOLERANCE):
    """Compare two digests."""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tolerance * max(1, abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y, tolerance) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


class Library:
    """The classes of the geometry engine."""

    def __init__(self):
        from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
        from Patro.GeometryEngine.Conic import AngularDomain, Circle2D, Ellipse2D
        from Patro.GeometryEngine.Line import Line2D
        from Patro.GeometryEngine.Path import Path2D
        from Patro.GeometryEngine.Polygon import Polygon2D
        from Patro.GeometryEngine.Polyline import Polyline2D
        from Patro.GeometryEngine.Rectangle import Rectangle2D
        from Patro.GeometryEngine.Segment import Segment2D
        from Patro.GeometryEngine.Spline import BSpline2D
        from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D
        from Patro.GeometryEngine.Triangle import Triangle2D
        from Patro.GeometryEngine.Vector import NormalisedVector2D, Vector2D
        from IntervalArithmetic import Interval, Interval2D
        self.__dict__.update(locals())
        self.kinds = {
            'vector': Vector2D, 'segment': Segment2D, 'triangle': Triangle2D, 'rectangle': Rectangle2D,
            'polygon': Polygon2D, 'polyline': Polyline2D, 'quadratic': QuadraticBezier2D, 'cubic': CubicBezier2D,
            'spline': BSpline2D, 'circle': Circle2D, 'ellipse': Ellipse2D, 'line': Line2D,
        }
        self.kind_of_class = {cls: kind for kind, cls in self.kinds.items()}

    # ---------------------------------------------------------------- digest of any answer

    def digest(self, value, depth=0):
        if depth > 6:
            return '...'
        if value is None or isinstance(value, (str, bool)):
            return value
        if isinstance(value, (int, float)):
            return float(value)
        if hasattr(value, 'dtype') and getattr(value, 'shape', None) == ():
            return bool(value) if value.dtype == bool else float(value)
        if isinstance(value, complex):
            return ('complex', value.real, value.imag)
        if isinstance(value, (self.Vector2D, self.NormalisedVector2D)):
            return ('vector', float(value.x), float(value.y))
        if isinstance(value, self.Interval2D):
            return ('box',) + tuple(float(x) for x in value.bounding_box)
        if isinstance(value, self.AngularDomain):
            return ('domain', value.start, value.stop)
        if isinstance(value, self.Path2D):
            return ('path', self.digest(value.p0), bool(value.is_closed),
                    tuple(self.answer(lambda: part.geometry) for part in value))
        kind = self.kind_of_class.get(type(value))
        if kind is not None:
            return (kind, self.digest(self.definition(kind, value), depth + 1))
        if hasattr(value, '__iter__'):
            return tuple(self.digest(x, depth + 1) for x in itertools.islice(value, 1000))
        return type(value).__name__

    def answer(self, function):
        """The digest of the result, or the class of the exception."""
        try:
            return self.digest(function())
        except (AttributeError, TypeError, ValueError, ZeroDivisionError, NameError, IndexError, KeyError,
                NotImplementedError, OverflowError, StopIteration, RuntimeError) as error:
            return ('raises', type(error).__name__)

    # ---------------------------------------------------------------- definitions

    def points(self, value):
        return tuple((float(p.x), float(p.y)) for p in value.points)

    def definition(self, kind, obj):
        if kind == 'vector':
            return (float(obj.x), float(obj.y))
        if kind == 'line':
            return ((float(obj.p.x), float(obj.p.y)), (float(obj.v.x), float(obj.v.y)))
        if kind in ('circle', 'ellipse'):
            center = (float(obj.center.x), float(obj.center.y))
            domain = None if obj.domain is None else (float(obj.domain.start), float(obj.domain.stop))
            if kind == 'circle':
                return (center, float(obj.radius), domain)
            return (center, float(obj.radius_x), float(obj.radius_y), float(obj.angle), domain)
        if kind == 'spline':
            return (self.points(obj), float(obj.degree), tuple(float(x) for x in obj.knots), bool(obj.uniform))
        return self.points(obj)

    def build(self, kind, data, given=None):
        """*given* gets the vectors which were given to the constructor."""
        V = self.Vector2D
        if given is not None:
            def V(*args):
                given.append(self.Vector2D(*args))
                return given[-1]
        cls = self.kinds[kind]
        if kind == 'vector':
            return V(*data)
        if kind == 'line':
            return cls(V(*data[0]), V(*data[1]))
        if kind in ('circle', 'ellipse'):
            domain = None if data[-1] is None else self.AngularDomain(*data[-1])
            return cls(V(*data[0]), *data[1:-1], domain=domain)
        if kind == 'spline':
            points, degree, knots, uniform = data
            return cls([V(*p) for p in points], int(degree), knots=None if uniform else knots)
        return cls(*[V(*p) for p in data])

    # ---------------------------------------------------------------- transformations

    def transformation(self, spec):
        """The real transformation of a list of one step."""
        name, *args = spec
        V = self.Vector2D
        T, A = self.Transformation2D, self.AffineTransformation2D
        return {
            'identity': lambda: T.Identity(),
            'parity': lambda: T.Parity(),
            'x-reflection': lambda: T.XReflection(),
            'y-reflection': lambda: T.YReflection(),
            'rotation': lambda: T.Rotation(*args),
            'scale': lambda: T.Scale(*args),
            'stretch': lambda: T.Scale(*args),
            'affine-identity': lambda: A.Identity(),
            'affine-rotation': lambda: A.Rotation(*args),
            'affine-scale': lambda: A.Scale(args[0], args[0]),
            'affine-stretch': lambda: A.Scale(*args),
            'translation': lambda: A.Translation(V(*args)),
            'rotation-at': lambda: A.RotationAt(V(*args[:2]), args[2]),
            'screen': lambda: A.Screen(*args),
        }[name]()


def matrix(spec):
    """The model of a transformation: (a, b, c, d, e, f), x' = a*x + b*y + e, y' = c*x + d*y + f"""
    name, *args = spec
    if name.endswith('identity'):
        return (1, 0, 0, 1, 0, 0)
    if name == 'parity':
        return (-1, 0, 0, -1, 0, 0)
    if name == 'x-reflection':
        return (-1, 0, 0, 1, 0, 0)
    if name == 'y-reflection':
        return (1, 0, 0, -1, 0, 0)
    if name.endswith('rotation'):
        a = math.radians(args[0])
        return (math.cos(a), -math.sin(a), math.sin(a), math.cos(a), 0, 0)
    if name.endswith('scale'):
        return (args[0], 0, 0, args[0], 0, 0)
    if name.endswith('stretch'):
        return (args[0], 0, 0, args[1], 0, 0)
    if name == 'translation':
        return (1, 0, 0, 1) + tuple(args)
    if name == 'rotation-at':
        x, y, angle = args
        return product(product((1, 0, 0, 1, x, y), matrix(('rotation', angle))), (1, 0, 0, 1, -x, -y))
    if name == 'screen':
        return (1, 0, 0, -1, 0, args[0])
    raise ValueError(name)


def product(m, n):
    """m after n"""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a * A + b * C, a * B + b * D, c * A + d * C, c * B + d * D, a * E + b * F + e, c * E + d * F + f)


def apply(m, point):
    a, b, c, d, e, f = m
    x, y = point
    return (a * x + b * y + e, c * x + d * y + f)


def similarity(m):
    """The scale factor of a transformation which keeps the shapes, else None."""
    a, b, c, d = m[:4]
    u, v = math.hypot(a, c), math.hypot(b, d)
    if abs(u - v) <= 1e-9 * max(1, u) and abs(a * b + c * d) <= 1e-9 * max(1, u * u):
        return u
    return None


ANGLES = [90, 45, 30, -90, 180, 37, -120, 300]
FACTORS = [2, .5, 3, -2, 1.5]


def draw_spec(ch, affine=True, stretch=True):
    names = ['identity', 'parity', 'x-reflection', 'y-reflection', 'rotation', 'rotation', 'scale']
    if stretch:
        names += ['stretch']
    if affine:
        names = ['translation', 'translation', 'affine-rotation', 'affine-scale', 'rotation-at', 'screen',
                 'affine-identity'] + names
        if stretch:
            names += ['affine-stretch']
    name = ch.pick(names)
    if name.endswith('rotation'):
        return (name, ch.pick(ANGLES))
    if name == 'rotation-at':
        return (name, coordinate(ch), coordinate(ch), ch.pick(ANGLES))
    if name.endswith('scale'):
        return (name, ch.pick(FACTORS))
    if name.endswith('stretch'):
        return (name,) + ch.pick([(2, .5), (3, 4), (2, -1.5), (2, 1), (-1, 3), (1, 4), (.5, -1)])
    if name == 'translation':
        return (name, coordinate(ch), coordinate(ch))
    if name == 'screen':
        return (name, coordinate(ch))
    return (name,)


def coordinate(ch):
    return ch.int(-60, 60) / 4


def draw_point(ch):
    return (coordinate(ch), coordinate(ch))


def collinear(a, b, c):
    return abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) < .05


def draw_points(ch, n):
    """Distinct points, no three successive ones on a line."""
    points = []
    while len(points) < n:
        p = draw_point(ch)
        tries = 0
        while p in points or (len(points) >= 2 and collinear(points[-2], points[-1], p)):
            p = (p[0] + .25 + tries, p[1] + .75 * (tries % 3))
            tries += 1
        points.append(p)
    return points


def draw_polygon(ch, n):
    style = ch.pick(['round', 'round', 'star', 'any'])
    if style == 'any':
        return draw_points(ch, n)
    cx, cy = draw_point(ch)
    turn = ch.int(0, 35)
    sign = ch.pick([1, -1])
    points = []
    for i in range(n):
        radius = ch.int(8, 40) / 4 if style == 'star' else 10
        angle = math.radians(sign * 360 * i / n + turn)
        points.append((round(cx + radius * math.cos(angle), 3), round(cy + radius * math.sin(angle), 3)))
    return points


def draw_definition(ch, kind):
    if kind == 'vector':
        x, y = draw_point(ch)
        return (x or 1.25, y or -.75)
    if kind == 'line':
        a, b = draw_points(ch, 2)
        v = (b[0] - a[0], b[1] - a[1])
        return (a, v)
    if kind in ('circle', 'ellipse'):
        domain = None
        if ch.chance(60):
            start = ch.int(0, 35) * 10
            domain = (float(start), float(start + ch.int(1, 30) * 10))
        center = draw_point(ch)
        if kind == 'circle':
            return (center, ch.int(1, 40) / 4, domain)
        return (center, ch.int(1, 40) / 4, ch.int(1, 40) / 4, float(ch.pick([0, 0, 30, 90, -45])), domain)
    if kind == 'spline':
        degree = ch.pick([3, 2, 3])
        points = draw_points(ch, degree + ch.int(1, 4))
        knots = [0] * degree + list(range(len(points) - degree + 1)) + [len(points) - degree] * degree
        return (tuple(points), float(degree), tuple(float(x) for x in knots), True)
    if kind == 'polygon':
        return tuple(draw_polygon(ch, ch.int(3, 7)))
    n = {'segment': 2, 'rectangle': 2, 'triangle': 3, 'quadratic': 3, 'cubic': 4}.get(kind) or ch.int(2, 6)
    return tuple(draw_points(ch, n))


POINTS = ('segment', 'triangle', 'rectangle', 'polygon', 'polyline', 'quadratic', 'cubic', 'spline')

# name of the query: arguments
#   p: a point, t: a parameter in ]0, 1[, T: any number in [-.5, 1.5], a: an angle, s: a segment, l: a line, o: same kind
COMMON = {'bounding_box': '', 'dimension': '', 'is_closed': '', 'is_infinite': ''}
POINT_QUERIES = dict(COMMON, number_of_points='', points='', point_array='', start_point='', end_point='',
                     reversed_points='', __len__='', is_point_equal='o', is_point_close='o')
QUERIES = {
    'vector': {'magnitude': '', 'magnitude_square': '', 'orientation': '', 'rotate': 'a', 'normal': '', 'anti_normal': '',
               'permute': '', 'parity': '', 'tan': '', 'inverse_tan': '', 'dot': 'p', 'cross': 'p', 'is_parallel': 'p',
               'is_orthogonal': 'p', 'cos_with': 'p', 'sin_with': 'p', 'projection_on': 'p', 'deviation_with': 'p',
               'angle_with': 'p', 'bounding_box': '', 'to_normalised': '', 'scale': 'tt', 'divide': 'tt', '__neg__': '',
               '__pos__': '', '__abs__': '', '__add__': 'p', '__sub__': 'p', '__mul__': 't', '__rmul__': 't',
               '__truediv__': 't', '__eq__': 'p', 'clone': '', '__iter__': '', '__len__': '', 'to_int_list': '',
               'almost_equal': 'p', 'rint': ''},
    'segment': dict(POINT_QUERIES, vector='', direction='', length='', center='', cross_product='', cross='s', to_line='',
                    point_at_t='T', intersect_with='s', intersection='s', share_vertex_with='s', side_of='p',
                    left_of='p', right_of='p', is_collinear='p', distance_to_point='p', contain_point='p',
                    interpolate='T'),
    'triangle': dict(POINT_QUERIES, edges='', bisector_vector0='', bisector_vector1='', bisector_vector2='',
                     bisector_line0='', bisector_line1='', bisector_line2='', perimeter='', area='', is_equilateral='',
                     is_scalene='', is_isosceles='', is_obtuse='', is_acute='', is_oblique='', is_point_inside='p',
                     to_path='', to_polygon='', iter_from_second_point=''),
    'rectangle': dict(POINT_QUERIES, p01='', p10='', edges='', diagonal='', perimeter='', area='', is_point_inside='p',
                      to_path='', to_polygon=''),
    'polygon': dict(POINT_QUERIES, is_triangle='', to_triangle='', edges='', number_of_edges='', is_simple='',
                    is_convex='', is_concave='', convex_hull='', distance_to_point='p', perimeter='',
                    point_barycenter='', area='', is_clockwise='', is_counterclockwise='', barycenter='',
                    major_axis_angle='', major_axis='', minor_axis='', axis_ratio='', is_point_inside='p',
                    _crossing_number_test='p', simplify='t', closed_points='', closed_pairwise_points='',
                    closed_point_array='', to_path=''),
    'polyline': dict(POINT_QUERIES, edges='', length='', distance_to_point='p', to_path=''),
    'quadratic': dict(POINT_QUERIES, interpolated_length='', length='', point_at_t='T', split_at_t='t', split_at_two_t='tt',
                      tangent0='', tangent_at='t', closest_point='p', distance_to_point='p', to_cubic='',
                      length_at_t='t', cached_length_at_t='t'),
    'cubic': dict(POINT_QUERIES, interpolated_length='', length='', point_at_t='T', split_at_t='t', split_at_two_t='tt',
                  tangent1='', tangent_at='t', closest_point='p', distance_to_point='p', to_spline='', area='',
                  mid_point_quadratic_approximation='', q_length='', fat_line='', is_flat_enough='t',
                  adaptive_length_approximation='', iter_from_second_point='',
                  length_at_t='t', cached_length_at_t='t'),
    'spline': dict(POINT_QUERIES, degree='', order='', uniform='', knots='', start_knot='', end_knot='', knot_iter='',
                   number_of_spans='', span='t', knot_multiplicity='t', point_at_t='t', to_bezier_form='', to_bezier='',
                   insert_knot='t'),
    'circle': dict(COMMON, center='', radius='', diameter='', eccentricity='', perimeter='', area='', point_at_angle='a',
                   point_in_circle_frame='p', angle_for_point='p', point_at_distance='t', tangent_at_angle='a',
                   signed_distance_to_point='p', distance_to_point='p', is_point_inside='p', intersect_segment='s',
                   start_point='', stop_point='', domain='', points=''),
    'ellipse': dict(COMMON, center='', radius_x='', radius_y='', angle='', major_vector='', minor_vector='',
                    eccentricity='', matrix='', point_in_ellipse_frame='p', point_from_ellipse_frame='p',
                    point_at_angle='a', distance_to_point='p', is_point_inside='p', intersect_segment='s',
                    to_bezier='', start_point='', stop_point='', domain='', points=''),
    'line': dict(COMMON, vn='', interpolate='T', point_at_distance='tp', get_y_from_x='t', get_x_from_y='t',
                 is_parallel='l', is_orthogonal='l', parallel_line_at='p', shifted_parallel_line='t',
                 orthogonal_line_at='p', orthogonal_line_at_abscissa='t', intersection_abscissae='l', intersection='l',
                 projected_abscissa='p', projected_point='p', distance_to_line='p', distance_and_abscissa_to_line='p',
                 clone=''),
}


class Query:
    """A question with plain arguments, asked to any object of the kind."""

    def __init__(self, ch, kind, name, data):
        self.kind, self.name = kind, name
        self.args = []
        for code in QUERIES[kind][name]:
            if code == 'p':
                points = data if kind in POINTS and kind != 'spline' else ()
                self.args.append(('vector', ch.pick(points) if points and ch.chance(20) else draw_point(ch)))
            elif code in 'tT':
                value = ch.int(1, 15) / 16
                if code == 'T' and ch.chance(30):
                    value = ch.pick([0, 1, -.5, 1.5])
                self.args.append(('number', value))
            elif code == 'L':
                self.args.append(('number', ch.pick([0, .5, 2, 5, 1000])))
            elif code == 'a':
                self.args.append(('number', ch.pick(ANGLES + [0, 360])))
            elif code == 's':
                self.args.append(('segment', tuple(draw_points(ch, 2))))
            elif code == 'l':
                self.args.append(('line', draw_definition(ch, 'line')))
            elif code == 'o':
                self.args.append((kind, data if ch.chance(50) else draw_definition(ch, kind)))

    def __str__(self):
        return '{}({})'.format(self.name, ', '.join(str(x[1]) for x in self.args))

    def operands(self, lib):
        return [data if kind == 'number' else lib.build(kind, data) for kind, data in self.args]

    def ask(self, lib, obj, operands=None):
        if operands is None:
            operands = self.operands(lib)
        if self.name == 'cached_length_at_t':
            return lib.answer(lambda: obj.length_at_t(*operands, cache=True))

        def call():
            value = getattr(obj, self.name)
            return value(*operands) if callable(value) and not isinstance(value, lib.Vector2D) else value
        return lib.answer(call)

    def check_operands(self, ctx, lib, operands, where):
        for (kind, data), operand in zip(self.args, operands):
            if kind != 'number':
                now = lib.definition(kind, operand)
                ctx.check(close(now, lib.digest(data)), 'operand-changed',
                          lambda: '{} {}: {} became {}'.format(where, self, data, now))


class Shape:

    def __init__(self, kind, real, data, name):
        self.kind, self.real, self.data, self.name = kind, real, data, name
        self.hints = False   # a polygon which was told that it is convex

    def describe(self):
        return '{} {} {}'.format(self.name, self.kind, self.data)

    def check(self, ctx, lib, where):
        now = lib.definition(self.kind, self.real)
        if not close(now, self.data):
            raise Violation('definition', '{}: {} is {}, expected {}'.format(where, self.name, now, self.data))


def transformed(kind, data, m):
    if kind == 'vector':
        return apply(m, data)
    if kind == 'spline':
        return (tuple(apply(m, p) for p in data[0]),) + tuple(data[1:])
    return tuple(apply(m, p) for p in data)
