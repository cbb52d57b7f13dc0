"""Plain model of a path: lines with rounded corners and Bézier curves."""

import math

from world.shapes import apply, coordinate, similarity

COMPASS = {
    'horizontal_to': 0, 'vertical_to': 90, 'north_to': 90, 'south_to': -90, 'east_to': 0, 'west_to': 180,
    'north_east_to': 45, 'north_west_to': 135, 'south_east_to': -45, 'south_west_to': -135,
}


def add(p, q):
    return (p[0] + q[0], p[1] + q[1])


def sub(p, q):
    return (p[0] - q[0], p[1] - q[1])


def unit(v):
    n = math.hypot(*v)
    return (v[0] / n, v[1] / n)


class Part:
    """kind: line, quadratic, cubic; mode: absolute, relative, x, y, angle"""

    def __init__(self, kind, mode, values, radius=None):
        self.kind, self.mode, self.values, self.radius = kind, mode, tuple(values), radius

    def copy(self):
        return Part(self.kind, self.mode, self.values, self.radius)

    def points(self, start):
        """The points after the start point."""
        if self.mode == 'absolute':
            return self.values
        if self.mode == 'relative':
            return tuple(add(start, p) for p in self.values)
        if self.mode == 'x':
            return ((self.values[0], start[1]),)
        if self.mode == 'y':
            return ((start[0], self.values[0]),)
        angle, length = self.values
        return ((start[0] + length * math.cos(math.radians(angle)), start[1] + length * math.sin(math.radians(angle))),)


class Model:

    def __init__(self, p0):
        self.p0, self.parts, self.closed, self.closing = p0, [], False, False

    def copy(self):
        model = Model(self.p0)
        model.parts = [p.copy() for p in self.parts]
        model.closed, model.closing = self.closed, self.closing
        return model

    @property
    def rounded(self):
        return any(p.radius for p in self.parts)

    def chains(self):
        """For each part its start point and the other points."""
        start = self.p0
        out = []
        for part in self.parts:
            points = part.points(start)
            out.append((start,) + tuple(points))
            start = points[-1]
        return out

    @property
    def stop(self):
        chains = self.chains()
        return chains[-1][-1] if chains else self.p0

    def previous(self, index):
        """The index of the part before the corner at the start of this part."""
        if index:
            return index - 1
        return len(self.parts) - 1 if self.closing else None

    def corner(self, index, chains=None):
        """Rounded corner at the start of the part: centre, first and last point, middle of the arc."""
        radius = self.parts[index].radius
        if not radius:
            return None
        chains = chains or self.chains()
        a, b = chains[self.previous(index)], chains[index]
        u, v = unit(sub(a[1], a[0])), unit(sub(b[1], b[0]))
        c = b[0]
        interior = math.acos(max(-1, min(1, -(u[0] * v[0] + u[1] * v[1]))))
        half = interior / 2
        t = radius / math.tan(half)
        w = unit(sub(v, u))
        k = radius / math.sin(half)
        center = (c[0] + w[0] * k, c[1] + w[1] * k)
        return (center, (c[0] - u[0] * t, c[1] - u[1] * t), (c[0] + v[0] * t, c[1] + v[1] * t),
                (center[0] - w[0] * radius, center[1] - w[1] * radius))

    def drawn(self, index, chains=None):
        """The points of the part, a line stops at its rounded corners."""
        chains = chains or self.chains()
        points = chains[index]
        if self.parts[index].kind != 'line':
            return points
        start, stop = points
        corner = self.corner(index, chains)
        if corner:
            start = corner[2]
        after = index + 1
        if after == len(self.parts):
            after = 0 if self.closing else None
        if after is not None and self.parts[after].kind == 'line' and self.parts[after].radius:
            stop = self.corner(after, chains)[1]
        return (start, stop)

    def transform(self, m):
        k = similarity(m)
        chains = self.chains()
        self.p0 = apply(m, self.p0)
        for part, points in zip(self.parts, chains):
            part.mode = 'absolute'
            part.values = tuple(apply(m, p) for p in points[1:])
            if part.radius:
                part.radius *= k


def turn(u, v):
    """The angle between two directions, None for a null one."""
    if math.hypot(*u) < 1e-6 or math.hypot(*v) < 1e-6:
        return None
    return abs(math.degrees(math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1])))


def sound(model):
    """Rounded corners are real corners, between lines."""
    chains = model.chains()
    for i, part in enumerate(model.parts):
        if part.kind == 'line' and math.dist(*chains[i]) < 1e-3:
            return False
        if part.radius:
            j = model.previous(i)
            if j is None or model.parts[j].kind != 'line' or part.kind != 'line':
                return False
            a, b = chains[j], chains[i]
            angle = turn(sub(a[1], a[0]), sub(b[1], b[0]))
            if angle is None or not 12 <= angle <= 168:
                return False
    return True


def draw_part(ch):
    """A step: the method, its arguments and the part."""
    method = ch.weighted([(4, 'line_to'), (2, 'horizontal_to'), (2, 'vertical_to'), (1, 'absolute_horizontal_to'),
                          (1, 'absolute_vertical_to'), (3, 'compass'), (2, 'quadratic_to'), (2, 'cubic_to')])
    point = lambda: (coordinate(ch), coordinate(ch))
    radius = ch.pick([None, None, .25, 1, 2.5]) if method not in ('quadratic_to', 'cubic_to') else None
    absolute = ch.chance(40)
    mode = 'absolute' if absolute else 'relative'
    if method == 'line_to':
        p = point()
        return method, (p,), dict(absolute=absolute), Part('line', mode, (p,), radius)
    if method in ('horizontal_to', 'vertical_to') and absolute:
        x = coordinate(ch)
        return method, (x,), dict(absolute=True), Part('line', 'x' if method[0] == 'h' else 'y', (x,), radius)
    if method.startswith('absolute'):
        x = coordinate(ch)
        return method, (x,), {}, Part('line', 'x' if 'horizontal' in method else 'y', (x,), radius)
    if method in ('quadratic_to', 'cubic_to'):
        points = tuple(point() for _ in range(2 if method[0] == 'q' else 3))
        return method, points, dict(absolute=absolute), Part('quadratic' if method[0] == 'q' else 'cubic', mode, points)
    if method == 'compass':
        method = ch.pick(list(COMPASS))
    length = coordinate(ch)
    return method, (length,), {}, Part('line', 'angle', (COMPASS[method], length), radius)
