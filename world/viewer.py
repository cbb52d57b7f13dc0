"""The viewer of a scene on an offscreen Qt, what it must show, and a reader of what it painted."""

import math
import re
import sys
import xml.etree.ElementTree as ET

from . import geom
from .scene import World

COLORS = ['#102030', '#ff8000', '#00aa55', '#800080']
DASHES = {'SolidLine': None, 'DashLine': (4, 2), 'DotLine': (1, 2), 'DashDotLine': (4, 2, 1, 2),
          'DashDotDotLine': (4, 2, 1, 2, 1, 2), 'NoPen': None}
CAPS = {'FlatCap': 'butt', 'SquareCap': 'square', 'RoundCap': 'round'}
JOINS = {'BevelJoin': 'bevel', 'MiterJoin': 'miter', 'RoundJoin': 'round'}
CLOSED = ('polygon', 'ellipse', 'circle', 'path-item')

_application = None


class Style:

    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)
        self.real = None


class ViewerWorld(World):
    """A scene whose items have styles."""

    kinds = [(6, 'segment'), (3, 'circle'), (2, 'polyline'), (2, 'polygon'), (3, 'text'), (2, 'ellipse'), (3, 'cubic'),
             (2, 'quadratic'), (2, 'geometry'), (1, 'path'), (1, 'bezier-path'), (2, 'path-item')]
    ellipse_angles = [0]
    geometries = ['segment', 'circle', 'polyline', 'polygon', 'triangle', 'quadratic', 'cubic']

    def __init__(self, ctx, plain_cls):
        from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene

        def scene_cls(*args):
            # the Qt scene has no transformation
            return GraphicScene(*args) if args else plain_cls()
        super().__init__(ctx, scene_cls)
        self.styles = []
        self.plain = isinstance(self.scene, plain_cls)
        self.box = None
        self.set_box()

    def set_box(self):
        from IntervalArithmetic import Interval2D
        ch = self.ch
        x, y = ch.decimal(-10, 10, 1), ch.decimal(-10, 10, 1)
        w, h = ch.pick([20, 20, 5.5, 100, 0]), ch.pick([20, 20, 7.5, 2, 300])
        self.box = (x, y, x + w, y + h)
        self.scene.bounding_box = Interval2D((x, x + w), (y, y + h))

    def choose_style(self, kind):
        from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicBezierStyle, GraphicPathStyle
        from Patro.GraphicStyle import CapStyle, JoinStyle, StrokeStyle
        ch = self.ch
        bezier = kind in ('cubic', 'quadratic')
        closed = kind in CLOSED
        candidates = [s for s in self.styles if s.bezier == bezier and (closed or s.fill is None)]
        if candidates and ch.chance(50):
            style = ch.pick(candidates)
        else:
            style = Style(
                stroke=ch.pick(COLORS + [None]), alpha=ch.pick([1, 1, .5]), width=ch.pick([1, 2, 3.5]),
                dash=ch.pick(['SolidLine', 'SolidLine', 'DashLine', 'DotLine', 'DashDotLine', 'DashDotDotLine', 'NoPen']),
                cap=ch.pick(sorted(CAPS)), join=ch.pick(sorted(JOINS)), fill=None, fill_alpha=1, bezier=bezier,
                control=None)
            if closed and ch.chance(50):
                style.fill, style.fill_alpha = ch.pick(COLORS), ch.pick([1, .25])
            kwargs = dict(stroke_color=style.stroke, stroke_alpha=style.alpha, line_width=style.width,
                          stroke_style=getattr(StrokeStyle, style.dash), fill_color=style.fill,
                          fill_alpha=style.fill_alpha, cap_style=getattr(CapStyle, style.cap),
                          join_style=getattr(JoinStyle, style.join))
            cls = GraphicPathStyle
            if bezier:
                cls = GraphicBezierStyle
                if ch.chance(40):
                    style.control = ch.pick(COLORS)
                    kwargs.update(show_control=True, control_color=style.control)
            style.real = cls(**kwargs)
            self.styles.append(style)
        self.style, self.style_model = style.real, style

    def restyle(self):
        if not self.styles:
            return
        ch = self.ch
        style = ch.pick(self.styles)
        what = ch.pick(['stroke', 'width', 'alpha'])
        if what == 'stroke':
            style.stroke = ch.pick(COLORS + [None])
            style.real.stroke_color = style.stroke
        elif what == 'width':
            style.width = ch.pick([1, 4, 2.5])
            style.real.line_width = style.width
        else:
            style.alpha = ch.pick([1, .5])
            style.real.stroke_alpha = style.alpha
        self.ctx.event('restyle', what)


class View:
    """The model of what the viewer shows: centre and scale."""

    def __init__(self):
        self.w = self.h = 0
        self.center = None
        self.scale = None
        self.pending = False
        self.world = None

    def copy(self):
        other = View()
        other.__dict__.update(self.__dict__)
        return other

    def fit(self):
        self.pending = not (self.w and self.h)
        if self.pending:
            return
        x0, y0, x1, y1 = self.world.box
        self.center = ((x0 + x1) / 2, (y0 + y1) / 2)
        self.scale = min(self.w / (1.02 * (x1 - x0)) if x1 > x0 else math.inf,
                         self.h / (1.02 * (y1 - y0)) if y1 > y0 else math.inf)

    def resize(self, w, h):
        self.w, self.h = w, h
        if self.pending:
            self.fit()

    @property
    def shown(self):
        return bool(self.world and self.w and self.h and not self.pending)

    def to_view(self, p):
        return ((p[0] - self.center[0]) * self.scale + self.w / 2, (self.center[1] - p[1]) * self.scale + self.h / 2)

    def to_scene(self, q):
        return ((q[0] - self.w / 2) / self.scale + self.center[0], self.center[1] - (q[1] - self.h / 2) / self.scale)


class Viewer:
    """The real one, driven as QML does."""

    def __init__(self, ctx):
        global _application
        from PyQt5.QtGui import QGuiApplication
        from Patro.GraphicEngine.Painter import QtPainter
        self.ctx = ctx
        if QGuiApplication.instance() is None:
            _application = QGuiApplication([])
        self.errors = []
        sys.excepthook = lambda cls, error, tb: self.errors.append(error)
        self.real = QtPainter.QtQuickPaintedSceneItem()
        self.scene_changed = 0
        self.real.sceneChanged.connect(self._on_scene_changed)

    def _on_scene_changed(self):
        self.scene_changed += 1

    def point(self, p):
        from PyQt5.QtCore import QPointF
        return QPointF(*p)

    def raised(self):
        """The first error which was raised in a callback of Qt."""
        errors, self.errors = self.errors, []
        return errors[0] if errors else None

    def svg(self, w, h):
        from PyQt5.QtCore import QBuffer, QRect, QSize
        from PyQt5.QtGui import QPainter
        from PyQt5.QtSvg import QSvgGenerator
        buffer = QBuffer()
        buffer.open(QBuffer.WriteOnly)
        generator = QSvgGenerator()
        generator.setOutputDevice(buffer)
        generator.setSize(QSize(int(w) or 1, int(h) or 1))
        generator.setViewBox(QRect(0, 0, int(w) or 1, int(h) or 1))
        painter = QPainter(generator)
        try:
            self.real.paint(painter)
        finally:
            painter.end()
        return bytes(buffer.data()).decode()


# -------------------------------------------------------------------- what was painted

SVG = '{http://www.w3.org/2000/svg}'
NUMBER = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


class Mark:
    """Something which is painted: curves (control points), and how."""

    def __init__(self, tag, state):
        self.tag = tag
        self.state = state
        self.curves = []       # sequences of 2 or 4 control points
        self.oval = None       # cx, cy, rx, ry
        self.text = None
        self.position = None

    def __repr__(self):
        return '<{} {} {} {} {}>'.format(self.tag, self.curves or self.oval, self.text or '', self.position or '',
                                         sorted(self.state.items()))


def _float(state, key, default=1):
    return float(state.get(key, default))


def read_svg(text):
    """The visible marks, in order."""
    marks = []
    for group in ET.fromstring(text).iter(SVG + 'g'):
        for element in group:
            if element.tag == SVG + 'g':
                continue
            state = dict(group.attrib)
            state.update(element.attrib)
            if group.get('transform', 'matrix(1,0,0,1,0,0)') != 'matrix(1,0,0,1,0,0)':
                raise ValueError('transform {}'.format(group.get('transform')))
            tag = element.tag.replace(SVG, '')
            mark = Mark(tag, state)
            if tag in ('polyline', 'polygon'):
                numbers = list(map(float, NUMBER.findall(element.get('points'))))
                points = list(zip(numbers[::2], numbers[1::2]))
                if tag == 'polygon':
                    points.append(points[0])
                mark.curves = [list(pair) for pair in zip(points, points[1:])]
            elif tag == 'path':
                current = None
                for command, values in re.findall(r'([MLCZ])([^MLCZ]*)', element.get('d')):
                    numbers = list(map(float, NUMBER.findall(values)))
                    points = list(zip(numbers[::2], numbers[1::2]))
                    if command == 'L':
                        for p in points:
                            mark.curves.append([current, p])
                            current = p
                    elif command == 'C':
                        for i in range(0, len(points), 3):
                            mark.curves.append([current] + points[i:i + 3])
                            current = points[i + 2]
                    elif command == 'M':
                        current = points[-1]
                    elif mark.curves and current != mark.curves[0][0]:
                        mark.curves.append([current, mark.curves[0][0]])
            elif tag == 'circle':
                mark.oval = tuple(float(element.get(k)) for k in ('cx', 'cy', 'r', 'r'))
            elif tag == 'ellipse':
                mark.oval = tuple(float(element.get(k)) for k in ('cx', 'cy', 'rx', 'ry'))
            elif tag == 'rect':
                x, y, w, h = (float(element.get(k)) for k in ('x', 'y', 'width', 'height'))
                points = [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]
                mark.curves = [list(pair) for pair in zip(points, points[1:])]
            elif tag == 'text':
                mark.text = ''.join(element.itertext()).strip()
                mark.position = (float(element.get('x')), float(element.get('y')))
            else:
                mark.tag = 'unknown ' + tag
            if state.get('stroke', 'none') == 'none' and state.get('fill', 'none') == 'none':
                continue
            marks.append(mark)
    return marks


# -------------------------------------------------------------------- what must be painted

class Painting:

    def __init__(self, ctx, view):
        self.ctx = ctx
        self.view = view

    def near(self, p, q, extra=0):
        size = max(map(abs, (*p, *q)))
        return geom.distance(p, q) <= 2e-3 + 2e-5 * size + extra

    def expected(self):
        """(item, part) in order"""
        world = self.view.world
        marks = []
        for z in sorted({i.z for i in world.items}):
            for item in world.items:
                if item.z != z or not item.visible:
                    continue
                style = item.style
                if item.kind == 'text':
                    marks.append((item, 'text'))
                    continue
                stroke = style.dash != 'NoPen' and (item.selected or style.stroke is not None)
                fill = style.fill is not None and not self.is_arc(item)
                if stroke or fill:
                    marks.append((item, 'item'))
                if style.control and item.kind in ('cubic', 'quadratic'):
                    marks.extend([(item, 'control')] + [(item, i) for i in range(len(self.cubic(item)))])
        return marks

    @staticmethod
    def is_arc(item):
        return item.kind == 'circle' and abs(item.parameters['stop'] - item.parameters['start']) < 360

    def shape(self, item):
        # items which moved are painted at their current position
        return self.view.world.current_shape(item)

    def cubic(self, item):
        points = [self.view.to_view(p) for p in self.shape(item).points]
        return elevate(points) if len(points) == 3 else points

    def curves(self, item):
        shape = self.shape(item)
        points = [self.view.to_view(p) for p in shape.points]
        if item.kind == 'path-item':
            pieces = [[self.view.to_view(p) for p in piece] for piece in shape.pieces()]
        elif item.kind in ('cubic', 'quadratic'):
            pieces = [points]
        else:
            if item.kind == 'polygon':
                points.append(points[0])
            pieces = [list(pair) for pair in zip(points, points[1:])]
        return [elevate(piece) if len(piece) == 3 else piece for piece in pieces]

    def check_style(self, mark, item, stroke, width=None, dash=None, fill=None, fill_alpha=1, alpha=1, cap=None,
                    join=None):
        check, state = self.ctx.check, mark.state

        def where():
            return '{}: {}'.format(item, mark)
        if stroke is None:
            check(state.get('stroke', 'none') == 'none', 'stroke', where)
        else:
            check(state.get('stroke') == stroke, 'stroke', where)
            check(abs(_float(state, 'stroke-opacity') - alpha) < 1e-3, 'stroke-alpha', where)
            check(abs(_float(state, 'stroke-width') - width) < 1e-3, 'line-width', where)
            got = tuple(map(float, NUMBER.findall(state.get('stroke-dasharray', ''))))
            expected = tuple(x * width for x in dash or ())
            check(len(got) == len(expected) and all(abs(a - b) < 1e-2 for a, b in zip(got, expected)), 'dashes', where)
            if cap:
                check(state.get('stroke-linecap') == cap, 'line-cap', where)
            if join:
                check(state.get('stroke-linejoin') == join, 'line-join', where)
        if fill is None:
            check(state.get('fill', 'none') == 'none', 'fill', where)
        else:
            check(state.get('fill') == fill, 'fill', where)
            check(abs(_float(state, 'fill-opacity') - fill_alpha) < 1e-3, 'fill-alpha', where)

    def check_item(self, mark, item, part):
        check, view = self.ctx.check, self.view

        def where():
            return '{} {}: {} (view {}x{} at {} scale {})'.format(item, part, mark, view.w, view.h, view.center, view.scale)
        style = item.style
        if part == 'text':
            check(mark.text == item.drawn_text, 'text', where)
            expected = view.to_view(self.shape(item).points[0])
            check(self.near(mark.position, expected, .1), 'position', where)
            color = '#ff0000' if item.selected else '#000000'
            check(mark.state.get('fill') == color, 'text-color', where)
            return
        if part == 'control':
            check(mark.curves and self.same_curves(mark.curves, list(zip(self.cubic(item), self.cubic(item)[1:]))),
                  'control', where)
            self.check_style(mark, item, style.control, 1)
            return
        if isinstance(part, int):
            (x, y), oval = self.cubic(item)[part], mark.oval
            check(oval and self.near(oval[:2], (x, y)) and oval[2] == oval[3], 'control', where)
            self.check_style(mark, item, style.control, 1, fill=style.control)
            return
        if item.kind in ('circle', 'ellipse') and not self.is_arc(item):
            center = view.to_view(self.shape(item).points[0])
            x = item.parameters
            rx, ry = (x['radius'], x['radius']) if item.kind == 'circle' else (x['rx'], x['ry'])
            check(mark.oval and self.near(mark.oval[:2], center)
                  and self.near(mark.oval[2:], (rx * view.scale, ry * view.scale)), 'position', where)
        elif item.kind == 'circle':
            self.check_arc(mark, item, where)
        else:
            check(self.same_curves(mark.curves, self.curves(item)), 'position', where)
        stroke = None
        if style.dash != 'NoPen':
            stroke = '#ff0000' if item.selected else style.stroke
        fill = None if self.is_arc(item) else style.fill
        if self.is_arc(item):
            mark.state['fill'] = 'none'
        self.check_style(mark, item, stroke, style.width * (4 if item.selected else 1), DASHES[style.dash], fill,
                         style.fill_alpha, 1 if item.selected else style.alpha, CAPS[style.cap], JOINS[style.join])

    def same_curves(self, got, expected):
        expected = [c for c in expected if c[0] != c[-1] or len(c) > 2]
        return len(got) == len(expected) and all(
            len(a) == len(b) and all(self.near(p, q) for p, q in zip(a, b)) for a, b in zip(got, expected))

    def check_arc(self, mark, item, where):
        check, view = self.ctx.check, self.view
        check(mark.curves, 'position', where)
        x = item.parameters
        center, radius = view.to_view(self.shape(item).points[0]), x['radius'] * view.scale
        stop = geom.arc_stop(x['start'], x['stop'])
        ends = []
        for a in (x['start'], stop):
            dx, dy = geom.arc_point((0, 0), radius, a)
            ends.append((center[0] + dx, center[1] - dy))
        tolerance = 1e-3 * radius
        check(self.near(mark.curves[0][0], ends[0], tolerance) and self.near(mark.curves[-1][-1], ends[1], tolerance),
              'arc-ends', where)
        length = 0
        for curve in mark.curves:
            points = [geom.bezier_point(curve, i / 16) for i in range(17)]
            for p in points:
                check(abs(geom.distance(p, center) - radius) <= 2e-3 + 2e-5 * (abs(p[0]) + abs(p[1])) + tolerance,
                      'arc', where)
            length += sum(geom.distance(p, q) for p, q in zip(points, points[1:]))
        check(abs(length - math.radians(stop - x['start']) * radius) <= .01 * radius + .05, 'arc-length', where)

    # ---------------------------------------------------------------- the grid

    def check_grid(self, marks):
        """Take the grid from the marks."""
        ctx, view = self.ctx, self.view
        x0, y1 = view.to_scene((0, 0))
        x1, y0 = view.to_scene((view.w, view.h))
        step = max(10 ** int(math.log10(min(x1 - x0, y1 - y0))), 10)
        for width, step in ((.75, step), (.25, step // 10)):
            got = {'x': [], 'y': []}
            while marks and marks[0].tag == 'polyline' and abs(_float(marks[0].state, 'stroke-width') - width) < 1e-6:
                mark = marks.pop(0)
                (p, q), = mark.curves
                axis = 'x' if abs(p[0] - q[0]) < abs(p[1] - q[1]) else 'y'
                ends = sorted((p[1], q[1]) if axis == 'x' else (p[0], q[0]))
                size = view.h if axis == 'x' else view.w
                ctx.check(abs(ends[0]) < .01 and abs(ends[1] - size) < .01, 'grid', mark)
                got[axis].append(p[0] if axis == 'x' else p[1])
            for axis, low, high, size in (('x', x0, x1, view.w), ('y', y0, y1, view.h)):
                values = got[axis]
                indexes = range(math.ceil(low / step - 1e-6), math.floor(high / step + 1e-6) + 1)
                lines = [view.to_view((i * step, i * step))[0 if axis == 'x' else 1] for i in indexes]
                for x in lines:
                    inside = .01 < x < size - .01
                    found = [v for v in values if abs(v - x) < .01]
                    ctx.check(len(found) == 1 or not inside, 'grid',
                              lambda: '{} step {}: {} expected in {}'.format(axis, step, x, values))
                ctx.check(all(any(abs(v - x) < .01 for x in lines) for v in values), 'grid',
                          lambda: '{} step {}: {} instead of {}'.format(axis, step, values, lines))

    # ---------------------------------------------------------------- all

    def check(self, text, grid):
        """*grid*: True, False, or None if it is not judged."""
        ctx = self.ctx
        marks = read_svg(text)
        if grid:
            self.check_grid(marks)
        elif grid is None:   # a transformed scene
            # not judged, no item has these widths
            while marks and _float(marks[0].state, 'stroke-width') in (.75, .25):
                marks.pop(0)
        expected = self.expected()
        for mark, (item, part) in zip(marks, expected):
            self.check_item(mark, item, part)
        ctx.check(len(marks) == len(expected), 'painted-items',
                  lambda: '{} marks instead of {}: {} / {}'.format(len(marks), len(expected), marks, expected))
        ctx.probe('painted-marks', len(marks))


def elevate(points):
    (x0, y0), (x1, y1), (x2, y2) = points
    return [points[0], (x0 + 2 / 3 * (x1 - x0), y0 + 2 / 3 * (y1 - y0)),
            (x2 + 2 / 3 * (x1 - x2), y2 + 2 / 3 * (y1 - y2)), points[2]]
