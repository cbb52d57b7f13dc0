"""DXF drawings with a plain model of what their entities are."""

import math

from sim.core import Violation
from world.shapes import coordinate

TOLERANCE = 1e-6


def near(a, b, scale=1):
    return all(abs(float(x) - float(y)) <= TOLERANCE * max(1, scale, abs(y)) for x, y in zip(a, b)) and len(a) == len(b)


def point(p):
    return (float(p.x), float(p.y))


def basis(knots, i, d, t):
    if d == 0:
        return 1. if knots[i] <= t < knots[i + 1] else 0.
    a, b = knots[i + d] - knots[i], knots[i + d + 1] - knots[i + 1]
    return (((t - knots[i]) / a * basis(knots, i, d - 1, t) if a else 0)
            + ((knots[i + d + 1] - t) / b * basis(knots, i + 1, d - 1, t) if b else 0))


class Segment:

    def __init__(self, p, q):
        self.p, self.q = p, q

    def judge(self, item, scale):
        if type(item).__name__ != 'Segment2D':
            return 'class'
        got = point(item.p0) + point(item.p1)
        if not near(got, self.p + self.q, scale):
            return 'points {}'.format(got)

    def judge_scene(self, item, scale):
        if type(item).__name__ != 'SegmentItem':
            return 'class'
        return self.judge(item.get_geometry(), scale)

    def moved(self, x, y):
        return Segment((self.p[0] + x, self.p[1] + y), (self.q[0] + x, self.q[1] + y))


class Arc:
    """An elliptical arc, counterclockwise from the angle start to stop, or a whole one: center + u cos t + v sin t."""

    def __init__(self, center, u, v, start=None, stop=None, circle=True):
        self.center, self.u, self.v = center, u, v
        self.start, self.stop, self.circle = start, stop, circle

    @property
    def span(self):
        return (self.stop - self.start) % 360

    def at(self, t):
        c, s = math.cos(math.radians(t)), math.sin(math.radians(t))
        return tuple(o + c * a + s * b for o, a, b in zip(self.center, self.u, self.v))

    def judge(self, item, scale, where=''):
        if type(item).__name__ != ('Circle2D' if self.circle else 'Ellipse2D'):
            return 'class'
        if not near(point(item.center), self.center, scale):
            return 'center {}'.format(point(item.center))
        radii = (item.radius,) if self.circle else (item.radius_x, item.radius_y)
        if not all(r >= 0 for r in radii):
            return 'radius {}'.format(radii)
        if self.circle and not near(radii, (math.hypot(*self.u),), scale):
            return 'radius {}'.format(radii)
        domain = item.domain
        if self.start is None:
            if domain is not None and not domain.is_closed:
                return 'domain {}'.format(domain)
            first = domain.start if domain is not None and not self.circle else 0
            for t in (0, 77, 180, 271):
                if not near(point(item.point_at_angle(first + t)), self.at(t), scale):
                    return 'point at {}'.format(t)
            if self.circle and not near((item.perimeter,), (2 * math.pi * item.radius,)):
                return 'perimeter {}'.format(item.perimeter)
            return
        if domain is None:
            return 'no domain'
        span = (domain.stop - domain.start) % 360
        if not (span > 1e-9 and abs(span - self.span) <= 1e-5):
            return 'domain {}, not of {}'.format(domain, self.span)
        for part in (0, .21, .5, .83, 1):
            got = point(item.point_at_angle(domain.start + part * span))
            if not near(got, self.at(self.start + part * self.span), scale):
                return 'point at {}: {}'.format(part, got)
        if not near(point(item.start_point), self.at(self.start), scale):
            return 'start point'
        if not near(point(item.stop_point), self.at(self.stop), scale):
            return 'stop point'
        if self.circle:
            length = math.radians(self.span)
            if not near((domain.length,), (length,)):
                return 'length of the domain {}, not {}'.format(domain.length, length)
            if not near((item.perimeter,), (length * item.radius,), scale):
                return 'perimeter {}'.format(item.perimeter)
            for part in (.03, .4, .97):
                inside, outside = domain.start + part * span, domain.stop + part * (360 - span)
                if not domain.is_inside(inside % 360) or domain.is_inside(outside % 360):
                    return 'inside of the domain {}'.format(domain)

    def judge_scene(self, item, scale):
        if type(item).__name__ != ('CircleItem' if self.circle else 'EllipseItem'):
            return 'class'
        start, stop = item.start_angle, item.stop_angle
        geometry = item.get_geometry()
        if not near(point(geometry.center), self.center, scale):
            return 'center'
        if self.start is None:
            if stop - start != 360:
                return 'angles {} {}'.format(start, stop)
            got = [point(geometry.point_at_angle(start + t)) for t in (0, 100)]
            wanted = [self.at(t if not self.circle else start + t) for t in (0, 100)]
        else:
            span = (stop - start) % 360
            if abs(span - self.span) > 1e-5:
                return 'angles {} {}'.format(start, stop)
            got = [point(geometry.point_at_angle(start + part * span)) for part in (0, .5, 1)]
            wanted = [self.at(self.start + part * self.span) for part in (0, .5, 1)]
        if not all(near(p, q, scale) for p, q in zip(got, wanted)):
            return 'points {}, not {}'.format(got, wanted)

    def moved(self, x, y):
        return Arc((self.center[0] + x, self.center[1] + y), self.u, self.v, self.start, self.stop, self.circle)


class Spline:

    def __init__(self, points, degree):
        self.points, self.degree = points, degree

    def at(self, t):
        n, m = self.degree, len(self.points)
        if t >= m - n:
            return self.points[-1]
        knots = [0] * n + list(range(m - n + 1)) + [m - n] * n
        weights = [basis(knots, i, n, t) for i in range(m)]
        return tuple(sum(w * p[c] for w, p in zip(weights, self.points)) for c in (0, 1))

    def times(self):
        last = len(self.points) - self.degree
        return [0, last] + [last * k / 7 for k in range(1, 7)]

    def judge(self, item, scale):
        if type(item).__name__ != 'BSpline2D':
            return 'class'
        got = [point(p) for p in item.points]
        if item.degree != self.degree or len(got) != len(self.points):
            return 'degree {}, points {}'.format(item.degree, got)
        if not all(near(p, q, scale) for p, q in zip(got, self.points)):
            return 'points {}'.format(got)
        if item.is_closed:
            return 'closed'
        for t in self.times():
            if not near(point(item.point_at_t(t)), self.at(t), scale):
                return 'point at {}'.format(t)

    def judge_scene_items(self, items, scale):
        name = {2: 'QuadraticBezierItem', 3: 'CubicBezierItem'}[self.degree]
        if len(items) != len(self.points) - self.degree or any(type(x).__name__ != name for x in items):
            return 'items {}'.format([type(x).__name__ for x in items])
        for i, item in enumerate(items):
            curve = item.get_geometry()
            for t in (0, .3, .6, 1):
                if not near(point(curve.point_at_t(t)), self.at(i + t), scale):
                    return 'point at {}'.format(i + t)

    def moved(self, x, y):
        return Spline([(p[0] + x, p[1] + y) for p in self.points], self.degree)


class Entity:
    """What a drawing has (tags) and what an import gives: an item or, for a polyline, a list of items."""

    def __init__(self, kind, tags, model):
        self.kind, self.tags, self.model = kind, tags, model

    @property
    def scale(self):
        numbers = [abs(v) for c, v in self.tags if 10 <= c < 60]
        return max([1] + numbers)

    def models(self):
        return self.model if isinstance(self.model, list) else [self.model]

    def judge(self, item):
        if isinstance(self.model, list):
            if not isinstance(item, (list, tuple)) or len(item) != len(self.model):
                return 'elements {}'.format(item)
            for i, (model, part) in enumerate(zip(self.model, item)):
                error = model.judge(part, self.scale)
                if error:
                    return 'element {}: {}'.format(i, error)
            return
        if isinstance(item, (list, tuple)):
            return 'elements'
        return self.model.judge(item, self.scale)


# -------------------------------------------------------------------- drawing of entities

def bulge_arc(p, q, bulge):
    """The arc from p to q, left of it the center for a counterclockwise (positive) one of less than a half turn."""
    dx, dy = q[0] - p[0], q[1] - p[1]
    chord = math.hypot(dx, dy)
    turn = 4 * math.atan(bulge)                      # signed angle of the arc
    away = chord / 2 / math.tan(turn / 2)            # signed distance from the chord to the center, on its left
    center = ((p[0] + q[0]) / 2 - dy / chord * away, (p[1] + q[1]) / 2 + dx / chord * away)
    radius = abs(chord / 2 / math.sin(turn / 2))
    angle = lambda a: math.degrees(math.atan2(a[1] - center[1], a[0] - center[0])) % 360
    start, stop = (angle(p), angle(q)) if bulge > 0 else (angle(q), angle(p))
    return Arc(center, (radius, 0), (0, radius), start, stop)


def draw_xy(ch):
    return (float(coordinate(ch)), float(coordinate(ch)))


def distinct(ch, p, minimum=.1):
    q = draw_xy(ch)
    if math.hypot(q[0] - p[0], q[1] - p[1]) < minimum:
        q = (p[0] + 1.25, p[1] + .5)
    return q


def xyz(ch, code, p):
    tags = [(code, p[0]), (code + 10, p[1])]
    if ch.chance(60):
        tags.append((code + 20, float(ch.pick([0, 0, 5, -2.5]))))
    return tags


ANGLES = (0, 0, 90, 180, 270, 30, 45, 120.5, 200, 300.25, 359, 1)


def draw_entity(ch, modern):
    """An entity; modern: the ones which the old format has not are allowed."""
    kind = ch.weighted([(4, 'LINE'), (2, 'CIRCLE'), (4, 'ARC')]
                       + ([(4, 'ELLIPSE'), (5, 'LWPOLYLINE'), (4, 'SPLINE')] if modern else []))
    p = draw_xy(ch)
    if kind == 'LINE':
        q = distinct(ch, p)
        return Entity(kind, [(100, 'AcDbLine')] + xyz(ch, 10, p) + xyz(ch, 11, q), Segment(p, q))
    if kind in ('CIRCLE', 'ARC'):
        radius = float(ch.pick([1, 2.5, .25, 40, 7.125]))
        tags = [(100, 'AcDbCircle')] + xyz(ch, 10, p) + [(40, radius)]
        start = stop = None
        if kind == 'ARC':
            start = float(ch.pick(ANGLES))
            stop = float(ch.pick([a for a in ANGLES if a != start]))
            tags += [(100, 'AcDbArc'), (50, start), (51, stop)]
        return Entity(kind, tags, Arc(p, (radius, 0.), (0., radius), start, stop))
    if kind == 'ELLIPSE':
        u = ch.pick([(4., 0.), (0., 3.), (0., -2.5), (-5., 0.), (3., 4.), (-1.5, 2.), (2., -7.)])
        ratio = float(ch.pick([.5, 1, .25, .9, .01]))
        v = (-u[1] * ratio, u[0] * ratio)
        start = stop = None
        first, last = 0., 2 * math.pi
        if ch.chance(65):
            start = float(ch.pick(ANGLES))
            stop = float(ch.pick([a for a in ANGLES if a != start] + ([360.] if start else [])))
            first, last = math.radians(start), math.radians(stop)
        tags = [(100, 'AcDbEllipse')] + xyz(ch, 10, p) + xyz(ch, 11, u) + [(40, ratio), (41, first), (42, last)]
        return Entity(kind, tags, Arc(p, u, v, start, stop, circle=False))
    if kind == 'LWPOLYLINE':
        closed = ch.chance(50)
        points, bulges = [p], []
        for _ in range(ch.int(1, 5)):
            points.append(distinct(ch, points[-1]))
        if closed and math.hypot(points[0][0] - points[-1][0], points[0][1] - points[-1][1]) < .1:
            closed = False
        bulges = [float(ch.pick([0, 0, 0, 1, -1, .5, -.5, .2, -.2, 3, -3])) for _ in points]
        tags = [(100, 'AcDbPolyline'), (90, len(points)), (70, int(closed))]
        for (x, y), bulge in zip(points, bulges):
            tags += [(10, x), (20, y)]
            if ch.chance(20):
                tags += [(40, .5), (41, .25)]
            if bulge or ch.chance(20):
                tags.append((42, bulge))
        model = []
        for i, bulge in enumerate(bulges):
            if i == len(points) - 1 and not closed:
                break
            a, b = points[i], points[(i + 1) % len(points)]
            model.append(bulge_arc(a, b, bulge) if bulge else Segment(a, b))
        return Entity(kind, tags, model)
    degree = ch.pick([2, 3, 3])
    points = [p]
    for _ in range(degree + ch.draw(4)):
        points.append(distinct(ch, points[-1]))
    last = len(points) - degree
    knots = [0.] * degree + [float(k) for k in range(last + 1)] + [float(last)] * degree
    if ch.chance(40):
        knots = [k / last for k in knots]
    tags = [(100, 'AcDbSpline'), (70, 8), (71, degree), (72, len(knots)), (73, len(points)), (74, 0)]
    tags += [(40, k) for k in knots]
    for q in points:
        tags += xyz(ch, 10, q)
    return Entity('SPLINE', tags, Spline(points, degree))


def draw_other(ch):
    """What an import skips."""
    p, q = draw_xy(ch), draw_xy(ch)
    kind = ch.pick(['TEXT', 'POINT', 'SOLID'])
    if kind == 'TEXT':
        return (kind, [(10, p[0]), (20, p[1]), (40, 2.5), (1, ch.pick(['A', 'LINE', 'x 1', 'EOF']))])
    if kind == 'POINT':
        return (kind, [(10, p[0]), (20, p[1])])
    return (kind, [(10, p[0]), (20, p[1]), (11, q[0]), (21, q[1]), (12, 0.), (22, 0.), (13, 1.), (23, 3.)])


class Document:

    def __init__(self, ch, name):
        self.ch, self.name = ch, name
        self.modern = ch.chance(80)
        self.version = ch.pick(['AC1015', 'AC1018', 'AC1027', 'AC1032']) if self.modern else 'AC1009'
        self.entities = [draw_entity(ch, self.modern) for _ in range(ch.weighted([(1, 0), (4, 1), (5, 3), (4, 5), (2, 9)]))]
        self.end = ch.pick(['\n', '\n', '\r\n'])
        self.start_of_entities = 0
        self.text = self.write()

    def number(self, value):
        ch = self.ch
        text = repr(float(value))
        if ch.chance(25):
            if value == int(value):
                text = str(int(value))
            else:
                text = '{:.17E}'.format(value)
        elif ch.chance(10):
            text = '  ' + text
        return text

    def tag(self, code, value):
        if isinstance(value, float):
            value = self.number(value)
        code = str(code).rjust(3) if self.padding else str(code)
        return code + self.end + str(value) + self.end

    def write(self):
        ch = self.ch
        self.padding = ch.chance(50)
        tags = [(0, 'SECTION'), (2, 'HEADER'), (9, '$ACADVER'), (1, self.version), (0, 'ENDSEC')]
        handle = [64]

        def entity(kind, attributes, paper=False):
            result = [(0, kind)]
            handle[0] += 1
            if self.modern:
                result += [(5, '{:X}'.format(handle[0])), (100, 'AcDbEntity')]
            if paper:
                result.append((67, 1))
            result.append((8, ch.pick(['0', '0', 'cut', 'LINE'])))
            if ch.chance(20):
                result.append((62, ch.int(1, 7)))
            for code, value in attributes:
                if code != 100 or self.modern:
                    result.append((code, value))
            return result

        if ch.chance(30):
            # a block has entities too, they are not in the drawing
            tags += [(0, 'SECTION'), (2, 'BLOCKS'), (0, 'BLOCK'), (8, '0'), (2, 'PART'), (70, 0), (10, 0.), (20, 0.), (30, 0.),
                     (3, 'PART')]
            inner = draw_entity(ch, self.modern)
            tags += entity(inner.kind, inner.tags)
            tags += [(0, 'ENDBLK'), (8, '0'), (0, 'ENDSEC')]
        tags += [(0, 'SECTION'), (2, 'ENTITIES')]
        first = len(tags)
        self.ranges = []
        for e in self.entities:
            if ch.chance(20):
                tags += entity(*draw_other(ch))
            if ch.chance(12):
                other = draw_entity(ch, self.modern)
                tags += entity(other.kind, other.tags, paper=True)
            if ch.chance(10):
                tags.append((999, ch.pick(['comment', 'LINE', 'EOF'])))
            start = len(tags)
            tags += entity(e.kind, e.tags)
            self.ranges.append((start, len(tags)))
        last = len(tags)
        tags += [(0, 'ENDSEC'), (0, 'EOF')]
        lines = [self.tag(*t) for t in tags]
        self.numbers = [i for i in range(first, last) if 10 <= tags[i][0] < 60 and isinstance(tags[i][1], float)]
        self.lines = lines
        return ''.join(lines)

    def exchange(self, i, j):
        """Exchange two entities, the text has the same size."""
        (a, b), (c, d) = self.ranges[i], self.ranges[j]
        lines = self.lines
        self.lines = lines[:a] + lines[c:d] + lines[b:c] + lines[a:b] + lines[d:]
        entities = self.entities = list(self.entities)
        entities[i], entities[j] = entities[j], entities[i]
        self.numbers = self.ranges = None
        self.text = ''.join(self.lines)

    def damaged(self, ch):
        """The document with a value which is no number."""
        i = ch.pick(self.numbers)
        code = self.lines[i].split(self.end)[0]
        lines = list(self.lines)
        lines[i] = code + self.end + ch.pick(['abc', '', '1e', '--1', '1,5']) + self.end
        return ''.join(lines).encode('utf-8')

    def source(self):
        return self.text.encode('utf-8')


def judge(entities, items, where):
    if len(items) != len(entities):
        raise Violation('items', '{}: got {}, expected {}'.format(where, [type(x).__name__ for x in items],
                                                                  [e.kind for e in entities]))
    for i, (entity, item) in enumerate(zip(entities, items)):
        error = entity.judge(item)
        if error:
            raise Violation('geometry', '{}: {} {} {}: {}'.format(where, i, entity.kind, item, error))
