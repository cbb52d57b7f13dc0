"""Reference geometry in plain floats: points are (x, y) pairs."""

from math import cos, hypot, radians, sin


def distance(p, q):
    return hypot(p[0] - q[0], p[1] - q[1])


def segment_distance(a, b, p):
    dx, dy = b[0] - a[0], b[1] - a[1]
    d2 = dx * dx + dy * dy
    t = 0 if d2 == 0 else max(0, min(1, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / d2))
    return distance((a[0] + t * dx, a[1] + t * dy), p)


def polyline_distance(points, p, closed=False):
    pairs = list(zip(points, points[1:]))
    if closed:
        pairs.append((points[-1], points[0]))
    return min(segment_distance(a, b, p) for a, b in pairs)


def bezier_point(points, t):
    points = list(points)
    while len(points) > 1:
        points = [((1 - t) * a[0] + t * b[0], (1 - t) * a[1] + t * b[1]) for a, b in zip(points, points[1:])]
    return points[0]


def minimum(f, a, b, n=96):
    """The minimum of a smooth function on [a, b]: samples, then a golden section search around the best ones."""
    ts = [a + (b - a) * i / n for i in range(n + 1)]
    values = [f(t) for t in ts]
    best = min(values)
    step = (b - a) / n
    for i, v in enumerate(values):
        if v <= values[max(0, i - 1)] and v <= values[min(n, i + 1)] and v - best < 4 * abs(step) * 50:
            low, high = max(a, ts[i] - step), min(b, ts[i] + step)
            g = .6180339887498949
            c, d = high - g * (high - low), low + g * (high - low)
            fc, fd = f(c), f(d)
            for _ in range(60):
                if fc < fd:
                    high, d, fd = d, c, fc
                    c = high - g * (high - low)
                    fc = f(c)
                else:
                    low, c, fc = c, d, fd
                    d = low + g * (high - low)
                    fd = f(d)
            best = min(best, fc, fd)
    return best


def bezier_distance(points, p):
    return minimum(lambda t: distance(bezier_point(points, t), p), 0, 1)


def arc_point(center, radius, angle):
    a = radians(angle)
    return (center[0] + radius * cos(a), center[1] + radius * sin(a))


def arc_stop(start, stop):
    return stop if stop >= start else stop + 360


def arc_distance(center, radius, start, stop, p):
    from math import atan2, degrees
    ends = min(distance(arc_point(center, radius, a), p) for a in (start, stop))
    angle = degrees(atan2(p[1] - center[1], p[0] - center[0]))
    stop = arc_stop(start, stop)
    if any(start <= angle + 360 * k <= stop for k in (-1, 0, 1, 2)):
        return min(ends, abs(distance(center, p) - radius))
    return ends


def ellipse_point(center, rx, ry, angle, t):
    a, t = radians(angle), radians(t)
    x, y = rx * cos(t), ry * sin(t)
    return (center[0] + cos(a) * x - sin(a) * y, center[1] + sin(a) * x + cos(a) * y)


def ellipse_distance(center, rx, ry, angle, p):
    return minimum(lambda t: distance(ellipse_point(center, rx, ry, angle, t), p), 0, 360)


def box(points):
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    return (min(xs), min(ys), max(xs), max(ys))


def boxes_overlap(a, b, margin=0):
    return (a[0] <= b[2] + margin and b[0] <= a[2] + margin and a[1] <= b[3] + margin and b[1] <= a[3] + margin)


def inside(box_, p, margin=0):
    return box_[0] + margin <= p[0] <= box_[2] - margin and box_[1] + margin <= p[1] <= box_[3] - margin


class Shape:
    """A drawn item: kind, points (control points or center) and parameters."""

    def __init__(self, kind, points, **parameters):
        self.kind = kind
        self.points = [tuple(map(float, p)) for p in points]
        self.parameters = parameters

    pickable = ('segment', 'polyline', 'polygon', 'circle', 'ellipse', 'cubic', 'quadratic', 'path-item')

    def pieces(self):
        # of a path
        i = 0
        for degree in self.parameters['pieces']:
            yield self.points[i:i + degree + 1]
            i += degree

    def distance(self, p):
        x = self.parameters
        if self.kind == 'path-item':
            return min(segment_distance(*piece, p) if len(piece) == 2 else bezier_distance(piece, p)
                       for piece in self.pieces())
        if self.kind == 'segment':
            return segment_distance(*self.points, p)
        if self.kind in ('polyline', 'polygon'):
            return polyline_distance(self.points, p, self.kind == 'polygon')
        if self.kind == 'circle':
            return arc_distance(self.points[0], x['radius'], x['start'], x['stop'], p)
        if self.kind == 'ellipse':
            return ellipse_distance(self.points[0], x['rx'], x['ry'], x['angle'], p)
        if self.kind in ('cubic', 'quadratic'):
            return bezier_distance(self.points, p)
        return None

    def samples(self):
        """Points of the item."""
        x = self.parameters
        if self.kind == 'circle':
            stop = arc_stop(x['start'], x['stop'])
            return [arc_point(self.points[0], x['radius'], x['start'] + (stop - x['start']) * i / 32) for i in range(33)]
        if self.kind == 'ellipse':
            return [ellipse_point(self.points[0], x['rx'], x['ry'], x['angle'], 360 * i / 32) for i in range(32)]
        if self.kind in ('cubic', 'quadratic'):
            return [bezier_point(self.points, i / 32) for i in range(33)]
        if self.kind == 'path-item':
            return [bezier_point(piece, i / 16) for piece in self.pieces() for i in range(17)]
        if self.kind in ('segment', 'polyline', 'polygon'):
            points = self.points + (self.points[:1] if self.kind == 'polygon' else [])
            return [bezier_point(pair, i / 8) for pair in zip(points, points[1:]) for i in range(9)]
        if self.kind in ('rectangle', 'image'):
            return self.points
        return self.points

    def outer_box(self):
        """A box which certainly contains the item, the index cannot report the item beyond."""
        x = self.parameters
        if self.kind == 'circle':
            (cx, cy), r = self.points[0], x['radius']
            return (cx - r, cy - r, cx + r, cy + r)
        if self.kind == 'ellipse':
            (cx, cy), r = self.points[0], max(x['rx'], x['ry'])
            return (cx - r, cy - r, cx + r, cy + r)
        return box(self.points)
