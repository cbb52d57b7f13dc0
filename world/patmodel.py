"""Reference model of a pattern: plain Python data, its own expressions and its own geometry.

The model never looks at the code under test: a pattern is generated as a list of operations, each
one can be applied to a real sketch, and `evaluate` gives the coordinates which are expected.
"""

import math

# names which are prefixes of each other: references in expressions must not be confused
POINT_NAMES = ('A', 'B', 'A1', 'C', 'A2', 'A12', 'B1', 'AB', 'D', 'A11', 'P', 'P1', 'P12', 'a', 'E', 'F', 'G', 'H',
               'B12', 'C1', 'D1', 'E1', 'F1', 'G1', 'H1', 'X', 'Y', 'Z')
EXOTIC_NAMES = ('É', 'Ωm', 'A&B', 'x<y', 'p"q', 'A b', "A'")

COLOURS = ('black', 'blue', 'red', 'green', 'orange', 'deepskyblue', 'lime', 'goldenrod', '#123456', '#c0ffee')
STYLES = ('NoPen', 'SolidLine', 'DashLine', 'DotLine', 'DashDotLine', 'DashDotDotLine')
STYLE_XML = {'none': 'NoPen', 'hair': 'SolidLine', 'dashLine': 'DashLine', 'dotLine': 'DotLine',
             'dashDotLine': 'DashDotLine', 'dashDotDotLine': 'DashDotDotLine'}

MEASUREMENT_NAMES = ('height', 'waist_circ', 'hip_circ', 'leg_crotch_to_floor', 'neck_circ', 'arm_upper_circ', 'height_knee')
CUSTOM_NAMES = ('@leg', '@leg_long', '@M', '@M1', '@ease')

REL = 1e-7


class Degenerate(Exception):
    """The model refuses a geometry where the result is ill-conditioned."""


def close(a, b, scale=1.0):
    return abs(a - b) <= REL * max(scale, abs(a), abs(b)) + 1e-9


# -------------------------------------------------------------------- expressions
#
# ('num', text) ('meas', name) ('line', A, B) ('angle', A, B) ('current',) ('bin', op, l, r) ('neg', x)

def text(ast):
    kind = ast[0]
    if kind == 'num':
        return ast[1]
    if kind == 'meas':
        return ast[1]
    if kind == 'line':
        return 'Line_{}_{}'.format(ast[1], ast[2])
    if kind == 'angle':
        return 'AngleLine_{}_{}'.format(ast[1], ast[2])
    if kind == 'current':
        return 'CurrentLength'
    if kind == 'neg':
        return '-' + text_operand(ast[1])
    _, op, left, right = ast
    return '{}{}{}'.format(text_operand(left), op, text_operand(right))


def text_operand(ast):
    t = text(ast)
    if ast[0] in ('bin', 'neg') or t.startswith('-'):
        return '(' + t + ')'
    return t


class Env:

    def __init__(self, measurements, points, current=None):
        self.measurements = measurements   # name -> float
        self.points = points               # name -> (x, y)
        self.current = current             # length of the current segment


def value(ast, env):
    kind = ast[0]
    if kind == 'num':
        return float(ast[1])
    if kind == 'meas':
        return env.measurements[ast[1]]
    if kind in ('line', 'angle'):
        (x0, y0), (x1, y1) = env.points[ast[1]], env.points[ast[2]]
        if kind == 'line':
            return math.hypot(x1 - x0, y1 - y0)
        if math.hypot(x1 - x0, y1 - y0) < 0.1:
            raise Degenerate('angle of a null vector')
        return math.degrees(math.atan2(y1 - y0, x1 - x0))
    if kind == 'current':
        if env.current is None:
            raise Degenerate('no current segment')
        return env.current
    if kind == 'neg':
        return -value(ast[1], env)
    _, op, left, right = ast
    a, b = value(left, env), value(right, env)
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if abs(b) < 0.05:
        raise Degenerate('division')
    return a / b


def expression_points(ast):
    """Names of the points which occur in the expression."""
    if ast[0] in ('line', 'angle'):
        return {ast[1], ast[2]}
    if ast[0] == 'neg':
        return expression_points(ast[1])
    if ast[0] == 'bin':
        return expression_points(ast[2]) | expression_points(ast[3])
    return set()


def expression_measurements(ast):
    if ast[0] == 'meas':
        return {ast[1]}
    if ast[0] == 'neg':
        return expression_measurements(ast[1])
    if ast[0] == 'bin':
        return expression_measurements(ast[2]) | expression_measurements(ast[3])
    return set()


def gen_number(ch, low, high):
    v = ch.decimal(low, high, ch.pick([0, 1, 2]))
    t = repr(v)
    if t.endswith('.0') and ch.chance(50):
        t = t[:-2]
    return ('num', t)


def gen_expression(ch, low, high, scope, measurements, current=False, depth=2):
    """An expression; its value is not bounded, see Scope.generate."""
    kinds = [(4, 'num')]
    names = [op.name for op in scope.points if op.ascii]
    if measurements:
        kinds.append((3, 'meas'))
    if len(names) >= 2:
        kinds.append((3, 'line'))
    if len(names) >= 2 and high > 90:
        kinds.append((3, 'angle'))
    if current:
        kinds.append((3, 'current'))
    if depth:
        kinds.append((5, 'bin'))
        kinds.append((1, 'neg'))
    kind = ch.weighted(kinds)
    if kind == 'num':
        return gen_number(ch, low, high)
    if kind == 'meas':
        return ('meas', ch.pick(sorted(measurements)))
    if kind in ('line', 'angle'):
        a = ch.pick(names)
        b = ch.pick([n for n in names if n != a])
        return (kind, a, b)
    if kind == 'current':
        return ('current',)
    if kind == 'neg':
        return ('neg', gen_expression(ch, low, high, scope, measurements, current, depth - 1))
    op = ch.pick('+-*/')
    left = gen_expression(ch, low, high, scope, measurements, current, depth - 1)
    if op in '*/':
        right = gen_number(ch, 1, 4)
    else:
        right = gen_expression(ch, low, high, scope, measurements, current, depth - 1)
    return ('bin', op, left, right)


# -------------------------------------------------------------------- operations

#: kind -> (point references, expressions, has a name, has line style and colour)
KINDS = {
    'SinglePoint': ((), ('x', 'y'), True, False),
    'EndLinePoint': (('base_point',), ('angle', 'length'), True, True),
    'AlongLinePoint': (('first_point', 'second_point'), ('length',), True, True),
    'NormalPoint': (('first_point', 'second_point'), ('angle', 'length'), True, True),
    'LineIntersectPoint': (('point1_line1', 'point2_line1', 'point1_line2', 'point2_line2'), (), True, False),
    'PointOfIntersection': (('first_point', 'second_point'), (), True, False),
    'PointOfContact': (('first_point', 'second_point', 'center'), ('radius',), True, False),
    'Line': (('first_point', 'second_point'), (), False, True),
    'SimpleInteractiveSpline': (('first_point', 'second_point'), ('angle1', 'length1', 'angle2', 'length2'), False, True),
}


class Operation:

    def __init__(self, kind):
        self.kind = kind
        self.name = None
        self.refs = {}           # role -> Operation
        self.expressions = {}    # role -> ast
        self.label_offset = (0.0, 0.0)
        self.style = None        # name of a StrokeStyle or None
        self.style_given = None  # how it is given: enum, XML name
        self.colour = None       # a colour name, '#rrggbb' or None
        self.id = None           # given, or read from the code under test
        self.real_id = None
        self.vector = None       # (x, y) for points
        self.controls = None     # for splines

    @property
    def ascii(self):
        return self.name is not None and self.name in POINT_NAMES

    @property
    def has_line(self):
        return KINDS[self.kind][3]

    def text(self, role):
        return text(self.expressions[role])

    def describe(self):
        parts = [self.kind]
        if self.name is not None:
            parts.append(self.name)
        for role, op in self.refs.items():
            parts.append('{}={}'.format(role, op.name))
        for role in self.expressions:
            parts.append('{}={}'.format(role, self.text(role)))
        if self.id is not None:
            parts.append('id={}'.format(self.id))
        if self.has_line:
            parts.append('{}/{}'.format(self.style, self.colour))
        return ' '.join(parts)

    # ------------------------------------------------------------ reference geometry

    def evaluate(self, scope_points, measurements):
        """Set vector and controls; scope_points: name -> (x, y) of the points known so far."""

        def p(role):
            return self.refs[role].vector

        def number(role, current=None):
            v = value(self.expressions[role], Env(measurements, scope_points, current))
            if abs(v) > 1e4:
                raise Degenerate('large value')
            return v

        kind = self.kind
        if kind == 'SinglePoint':
            self.vector = number('x'), number('y')
        elif kind == 'EndLinePoint':
            x, y = p('base_point')
            angle, length = number('angle'), number('length')
            self.vector = add_polar((x, y), angle, length)
        elif kind in ('AlongLinePoint', 'NormalPoint'):
            (x0, y0), (x1, y1) = p('first_point'), p('second_point')
            dx, dy = x1 - x0, y1 - y0
            d = math.hypot(dx, dy)
            if d < 0.1:
                raise Degenerate('null direction')
            length = number('length', d)
            if kind == 'AlongLinePoint':
                ux, uy = dx / d, dy / d
            else:
                # the normal is the direction turned by +90°, then turned by the angle
                a = math.radians(number('angle', d))
                nx, ny = -dy / d, dx / d
                ux, uy = nx * math.cos(a) - ny * math.sin(a), nx * math.sin(a) + ny * math.cos(a)
            self.vector = x0 + ux * length, y0 + uy * length
        elif kind == 'LineIntersectPoint':
            self.vector = intersection(p('point1_line1'), p('point2_line1'), p('point1_line2'), p('point2_line2'))
        elif kind == 'PointOfIntersection':
            self.vector = p('first_point')[0], p('second_point')[1]
        elif kind == 'PointOfContact':
            # claimed only where the answer is unique: one of the intersections of the circle and the line
            # lies in the segment and the other one out of it
            (x0, y0), (x1, y1) = p('first_point'), p('second_point')
            d = math.hypot(x1 - x0, y1 - y0)
            if d < 0.5:
                raise Degenerate('null direction')
            r = number('radius')
            if r < 0.1:
                raise Degenerate('radius')
            ux, uy = (x1 - x0) / d, (y1 - y0) / d
            cx, cy = p('center')
            middle = (cx - x0) * ux + (cy - y0) * uy
            square = r * r - ((cx - x0) * uy - (cy - y0) * ux) ** 2
            if square < 0.1:
                raise Degenerate('not claimed')
            inside = [t for t in (middle - math.sqrt(square), middle + math.sqrt(square)) if -0.05 < t < d + 0.05]
            if len(inside) != 1 or not 0.05 < inside[0] < d - 0.05:
                raise Degenerate('not claimed')
            self.vector = x0 + ux * inside[0], y0 + uy * inside[0]
        elif kind == 'Line':
            if math.dist(p('first_point'), p('second_point')) < 0.1:
                raise Degenerate('null line')
        elif kind == 'SimpleInteractiveSpline':
            if math.dist(p('first_point'), p('second_point')) < 0.1:
                raise Degenerate('null spline')
            self.controls = (add_polar(p('first_point'), number('angle1'), number('length1')),
                             add_polar(p('second_point'), number('angle2'), number('length2')))
            for control in self.controls:
                if max(abs(control[0]), abs(control[1])) > 500:
                    raise Degenerate('out of bounds')
        if self.vector is not None and max(abs(self.vector[0]), abs(self.vector[1])) > 500:
            self.vector = None
            raise Degenerate('out of bounds')


def add_polar(p, angle, length):
    a = math.radians(angle)
    return p[0] + length * math.cos(a), p[1] + length * math.sin(a)


def intersection(a, b, c, d):
    ux, uy = b[0] - a[0], b[1] - a[1]
    vx, vy = d[0] - c[0], d[1] - c[1]
    nu, nv = math.hypot(ux, uy), math.hypot(vx, vy)
    if nu < 0.1 or nv < 0.1:
        raise Degenerate('null line')
    cross = ux * vy - uy * vx
    if abs(cross) / (nu * nv) < 0.1:
        raise Degenerate('parallel')
    s = ((c[0] - a[0]) * vy - (c[1] - a[1]) * vx) / cross
    return a[0] + s * ux, a[1] + s * uy


# -------------------------------------------------------------------- scopes and patterns

class Scope:

    def __init__(self, name):
        self.name = name
        self.operations = []

    @property
    def points(self):
        return [op for op in self.operations if op.name is not None]

    def coordinates(self):
        return {op.name: op.vector for op in self.points}

    def free_names(self):
        used = {op.name for op in self.points}
        return [name for name in POINT_NAMES if name not in used]

    def generate(self, ch, measurements, used_ids=(), explicit_ids=False, exotic=False, kinds=None):
        """Draw one more operation; None when no name is left."""
        points = [op for op in self.points]
        names = self.free_names()
        pairs = len(points) >= 2
        table = []
        for kind, weight in (('EndLinePoint', 5), ('SinglePoint', 2), ('AlongLinePoint', 4), ('NormalPoint', 4),
                             ('LineIntersectPoint', 3), ('PointOfIntersection', 2), ('Line', 3),
                             ('SimpleInteractiveSpline', 3), ('PointOfContact', 2)):
            if kinds is not None and kind not in kinds:
                continue
            if kind == 'SinglePoint' or (points and kind == 'EndLinePoint') or pairs:
                table.append((weight, kind))
        if not points:
            table = [(1, 'SinglePoint')]
        for attempt in range(4):
            kind = ch.weighted(table) if attempt < 3 else ('EndLinePoint' if points else 'SinglePoint')
            op = Operation(kind)
            refs, expressions, has_name, has_line = KINDS[kind]
            if has_name:
                if not names:
                    return None
                if exotic and ch.chance(15):
                    op.name = ch.pick(EXOTIC_NAMES)
                    if op.name in {x.name for x in points}:
                        op.name = ch.pick(names[:6])
                else:
                    op.name = ch.pick(names[:6])
            chosen = []
            for i, role in enumerate(refs):
                candidates = points
                if i % 2 == 1 and role != 'center':
                    candidates = [x for x in points if x is not chosen[-1]]
                if role == 'center' and ch.chance(50):
                    candidates = [chosen[0]]
                chosen.append(ch.pick(candidates))
                op.refs[role] = chosen[-1]
            for role in expressions:
                angle = role.startswith('angle')
                current = kind in ('AlongLinePoint', 'NormalPoint')
                if attempt == 3:
                    ast = gen_number(ch, 0, 350) if angle else gen_number(ch, 1, 30)
                elif kind == 'SinglePoint' and len(points) >= 2 and ch.chance(30):
                    a = ch.pick(points)
                    b = ch.pick([x for x in points if x is not a])
                    ast = ('line', a.name, b.name) if a.ascii and b.ascii else gen_number(ch, 1, 30)
                elif kind == 'SinglePoint' and not points:
                    ast = gen_number(ch, 0, 5)
                elif angle:
                    ast = gen_expression(ch, -180, 360, self, measurements, current, ch.pick([0, 1, 2]))
                else:
                    ast = gen_expression(ch, 1, 30, self, measurements, current, ch.pick([0, 1, 2, 3]))
                op.expressions[role] = ast
            if has_name:
                op.label_offset = (ch.decimal(-2, 2), ch.decimal(-2, 2)) if ch.chance(70) else (0.0, 0.0)
            if has_line:
                if ch.chance(75):
                    op.style = ch.pick(STYLES)
                    op.style_given = op.style
                    if exotic and ch.chance(30):
                        # as written in the file, cannot be drawn before a reload
                        op.style_given = [k for k, v in STYLE_XML.items() if v == op.style][0]
                if ch.chance(75):
                    op.colour = ch.pick(COLOURS)
            if explicit_ids:
                op.id = ch.int(1, 60)
                while op.id in used_ids:
                    op.id += 1
            try:
                op.evaluate(self.coordinates(), measurements)
            except Degenerate:
                continue
            return op
        return None


class PatternModel:

    def __init__(self, unit='cm', measurements=None):
        self.unit = unit
        self.measurements = measurements or {}
        self.scopes = []

    def add_scope(self, name):
        scope = Scope(name)
        self.scopes.append(scope)
        return scope

    def used_ids(self):
        return {i for scope in self.scopes for op in scope.operations for i in (op.id, op.real_id) if i is not None}


SCOPE_NAMES = ('pant', 'bodice', 'sleeve & cuff', 'éte', 'a<b', 'pant 2')


def generate_pattern(ch, measurements=None, scopes=(1, 2), operations=(2, 8), explicit_ids=None, exotic=False,
                     unit=None, kinds=None):
    model = PatternModel(unit or ch.pick(['cm', 'mm', 'inch']), measurements)
    if explicit_ids is None:
        explicit_ids = ch.chance(30)
    for i in range(ch.int(*scopes)):
        scope = model.add_scope(SCOPE_NAMES[i] if ch.chance(70) or not exotic else ch.pick(SCOPE_NAMES) + str(i))
        for _ in range(ch.int(*operations)):
            op = scope.generate(ch, model.measurements, model.used_ids(), explicit_ids, exotic, kinds)
            if op is not None:
                scope.operations.append(op)
    return model


# -------------------------------------------------------------------- the code under test

class Real:
    """Access to the code under test through its public interface."""

    def __init__(self):
        from Patro.GeometryEngine.Vector import Vector2D
        from Patro.GraphicStyle import Colors, StrokeStyle
        from Patro.Pattern import SketchOperation
        from Patro.Pattern.Pattern import Pattern
        self.Vector2D = Vector2D
        self.Colors = Colors
        self.StrokeStyle = StrokeStyle
        self.Pattern = Pattern
        self.SketchOperation = SketchOperation

    def colour(self, name, as_object=True):
        if name is None:
            return None
        if name.startswith('#'):
            return self.Colors.ensure_color(name) if as_object else name
        return self.Colors[name] if as_object else name

    def rgb(self, colour):
        if colour is None:
            return None
        colour = self.Colors.ensure_color(colour)
        return (colour.red, colour.green, colour.blue)

    def apply(self, op, sketch, reference='name', colour_as_object=True):
        """Append the operation to a real sketch, return the real operation.

        reference: 'name', 'id' or 'object'
        """
        refs, expressions, has_name, has_line = KINDS[op.kind]
        args = []
        kwargs = {}
        if has_name:
            args.append(op.name)
            kwargs['label_offset'] = self.Vector2D(*op.label_offset)
        for role in refs:
            target = op.refs[role]
            if reference == 'name':
                kwargs[role] = target.name
            elif reference == 'id':
                kwargs[role] = target.real_id
            else:
                kwargs[role] = sketch.get_operation(target.real_id)
        for role, ast in op.expressions.items():
            kwargs[role] = text(ast)
        if has_line:
            style = op.style_given
            kwargs['line_style'] = getattr(self.StrokeStyle, style) if style in STYLES else style
            kwargs['line_color'] = self.colour(op.colour, colour_as_object)
        if op.id is not None:
            kwargs['id'] = op.id
        return getattr(sketch, op.kind)(*args, **kwargs)

    def build(self, ch, model, measurements, record_ids=True, evaluate=True):
        pattern = self.Pattern(measurements, model.unit)
        for scope in model.scopes:
            sketch = pattern.add_scope(scope.name).sketch
            for op in scope.operations:
                mode = ch.pick(['name', 'id', 'object'])
                real = self.apply(op, sketch, mode, ch.chance(50))
                if record_ids:
                    op.real_id = real.id
            if evaluate:
                sketch.eval()
        return pattern

    # ------------------------------------------------------------ dump

    def style_name(self, style):
        if style is None or isinstance(style, str):
            return STYLE_XML.get(style, style)
        return style.name

    def dump_operation(self, real):
        kind = type(real).__name__
        refs, expressions, has_name, has_line = KINDS[kind]
        data = {'kind': kind, 'id': real.id}
        data['refs'] = {role: getattr(real, role).id for role in refs}
        data['expressions'] = {role: str(getattr(real, role)) for role in expressions}
        data['dependencies'] = sorted({op.id for op in real.dependencies})
        if has_name:
            data['name'] = real.name
            data['label_offset'] = (float(real.label_offset.x), float(real.label_offset.y))
            vector = real.vector
            data['vector'] = None if vector is None else (float(vector.x), float(vector.y))
        if has_line:
            data['colour'] = self.rgb(real.line_color)
            data['style'] = self.style_name(real.line_style)
        if kind == 'SimpleInteractiveSpline':
            data['controls'] = None
            if real.control_point1 is not None:
                data['controls'] = tuple((float(v.x), float(v.y)) for v in (real.control_point1, real.control_point2))
        return data

    def dump_sketch(self, sketch):
        return [self.dump_operation(op) for op in sketch.operations]

    def dump_pattern(self, pattern):
        return {'unit': pattern.unit,
                'scopes': [(scope.name, self.dump_sketch(scope.sketch)) for scope in pattern.scopes]}

    def expected_operation(self, op, evaluated=True, reloaded=False, scope=None):
        refs, expressions, has_name, has_line = KINDS[op.kind]
        data = {'kind': op.kind, 'id': op.real_id}
        data['refs'] = {role: op.refs[role].real_id for role in refs}
        data['expressions'] = {role: op.text(role) for role in expressions}
        dependencies = {target.real_id for target in op.refs.values()}
        if evaluated:
            # what the expressions use is known when they are compiled
            names = set().union(*(expression_points(ast) for ast in op.expressions.values()), ())
            dependencies |= {x.real_id for x in scope.points if x.name in names}
        data['dependencies'] = sorted(dependencies)
        if has_name:
            data['name'] = op.name
            data['label_offset'] = op.label_offset
            data['vector'] = op.vector if evaluated else None
        if has_line:
            data['colour'] = self.rgb(op.colour)
            data['style'] = op.style
            if reloaded and op.kind == 'SimpleInteractiveSpline':
                # the file format has no line style for splines
                data['style'] = 'SolidLine'
        if op.kind == 'SimpleInteractiveSpline':
            data['controls'] = op.controls if evaluated else None
        return data

    def expected_pattern(self, model, **kwargs):
        return {'unit': model.unit,
                'scopes': [(scope.name, [self.expected_operation(op, scope=scope, **kwargs) for op in scope.operations])
                           for scope in model.scopes]}


def same_points(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a[0], (tuple, list)):
        return len(a) == len(b) and all(same_points(x, y) for x, y in zip(a, b))
    scale = max(1.0, *(abs(v) for v in (*a, *b)))
    return all(close(x, y, scale) for x, y in zip(a, b))


def compare_operation(ctx, got, expected, where, kind='pattern'):
    for key in sorted(set(got) | set(expected)):
        g, e = got.get(key, '<missing>'), expected.get(key, '<missing>')
        if key in ('vector', 'controls'):
            same = same_points(g, e)
        elif key == 'label_offset':
            same = all(abs(x - y) < 1e-9 for x, y in zip(g, e))
        else:
            same = g == e
        ctx.check(same, '{}-{}'.format(kind, key), lambda: '{} {} {}: {} is {!r} instead of {!r}'.format(
            where, expected.get('kind'), expected.get('name', ''), key, g, e))


def compare_pattern(ctx, got, expected, where, kind='pattern'):
    ctx.equal(got['unit'], expected['unit'], kind + '-unit', where)
    ctx.equal([name for name, _ in got['scopes']], [name for name, _ in expected['scopes']], kind + '-scopes', where)
    for (name, g), (_, e) in zip(got['scopes'], expected['scopes']):
        ctx.equal([(x['kind'], x.get('name')) for x in g], [(x['kind'], x.get('name')) for x in e],
                  kind + '-operations', '{} {}'.format(where, name))
        for x, y in zip(g, e):
            compare_operation(ctx, x, y, '{} {}'.format(where, name), kind)


# -------------------------------------------------------------------- measurements

def generate_measurements(ch, maximum=4, customs=True):
    """name -> value, consistent with vit_source."""
    names = list(MEASUREMENT_NAMES[:5])
    values = {}
    for name in names[:ch.int(0, maximum)]:
        values[name] = ch.decimal(5, 30)
    if customs:
        for name in CUSTOM_NAMES[:ch.int(0, 3)]:
            values[name] = ch.decimal(2, 20)
    return values


def vit_source(values, unit='cm', customer='Doe', gender='male', birth_date='1970-01-01', email='', pm_system='998',
               order=None):
    from xml.sax.saxutils import escape, quoteattr
    items = list(values.items()) if order is None else [(name, values[name]) for name in order]
    lines = []
    for name, v in items:
        lines.append('    <m value={} name={}/>'.format(quoteattr(str(v)), quoteattr(name)))
    return (
        "<?xml version='1.0' encoding='UTF-8'?>\n<vit>\n"
        '  <!--Measurements-->\n  <version>0.4.0</version>\n  <read-only>false</read-only>\n  <notes/>\n'
        '  <unit>{}</unit>\n  <pm_system>{}</pm_system>\n'
        '  <personal><customer>{}</customer><birth-date>{}</birth-date><gender>{}</gender><email>{}</email></personal>\n'
        '  <body-measurements>\n{}\n  </body-measurements>\n</vit>\n').format(
            unit, pm_system, escape(customer), birth_date, gender, escape(email), '\n'.join(lines))
