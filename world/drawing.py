"""A drawing edited and exported by a user: the model of a scene, next to the real one."""

from sim import core
from world import exports, patmodel

TEXTS = ('A', 'A1', 'B<C', 'x & y', 'L = 20', '(a)', 'a\\b', 'P [1]')
STYLES = ('SolidLine', 'DashLine', 'DotLine', 'DashDotLine', 'DashDotDotLine')
WIDTHS = (1.0, 2, .5, 3)
UNSUPPORTED = ('rectangle', 'polygon', 'polyline', 'ellipse', 'image', 'quadratic')
SUFFIX = {'svg': '.svg', 'tex': '.tex', 'tiled': '.tex', 'pdf': '.pdf', 'dxf': '.dxf'}


class Item:

    def __init__(self, kind, refs, style=None, text=None):
        self.kind = kind
        self.refs = refs
        self.style = style      # (stroke style, colour, width)
        self.text = text
        self.z = 0
        self.visible = True
        self.real = None

    def __repr__(self):
        return '{} {} {} {}'.format(self.kind, self.refs, self.style, self.text or '')


class Drawing:

    def __init__(self, ctx, name):
        self.ctx = ctx
        self.ch = ctx.ch
        self.name = name
        self.coordinates = {}
        self.items = []
        self.box = None
        self.scene = None
        self.sketch = self.real = None
        from Patro.GeometryEngine.Vector import Vector2D
        from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicPathStyle
        from Patro.GraphicStyle import Colors, StrokeStyle
        self.V, self.Font, self.PathStyle = Vector2D, Font, GraphicPathStyle
        self.Colors, self.StrokeStyle = Colors, StrokeStyle

    # ------------------------------------------------------------ sources

    def empty(self):
        from IntervalArithmetic import Interval2D
        from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
        ch = self.ch
        self.scene = GraphicScene()
        x, y = ch.pick([0, 0, -30.5, 12.25, 200]), ch.pick([0, 0, -12.5, 40, -100])
        w, h = ch.decimal(2, 120), ch.decimal(2, 120)
        self.box = (x, y, round(x + w, 4), round(y + h, 4))
        self.scene.bounding_box = Interval2D((self.box[0], self.box[2]), (self.box[1], self.box[3]))
        for name in ('A', 'B', 'C')[:ch.int(0, 3)]:
            self.define(name)
        for _ in range(ch.int(1, 5)):
            self.add()

    def from_sketch(self):
        ch = self.ch
        self.real = real = patmodel.Real()
        model = patmodel.generate_pattern(ch, {}, (1, 1), (2, 8), unit='cm')
        pattern = real.build(ch, model, None)
        scope = model.scopes[0]
        self.sketch = pattern.scope(0).sketch
        self.scene = self.sketch.detail_scene()
        points = []
        for op in scope.operations:
            style = (op.style or 'SolidLine', op.colour or 'black')
            if op.name is not None:
                self.coordinates[op.name] = op.vector
                points.append(op.vector)
                label = (op.vector[0] + op.label_offset[0], op.vector[1] - op.label_offset[1])
                self.items.append(Item('circle', [op.name]))
                self.items.append(Item('segment', [op.vector, label], ('SolidLine', 'black', 2)))
                self.items.append(Item('text', [label], None, op.name))
                start = {'AlongLinePoint': 'first_point', 'EndLinePoint': 'base_point', 'NormalPoint': 'first_point'}
                if op.kind in start:
                    self.items.append(Item('segment', [op.refs[start[op.kind]].name, op.name], (*style, 1.5)))
            elif op.kind == 'Line':
                self.items.append(Item('segment', [op.refs['first_point'].name, op.refs['second_point'].name],
                                       (*style, 3)))
            else:
                points += op.controls
                self.items.append(Item('cubic', [op.refs['first_point'].name, *op.controls,
                                                 op.refs['second_point'].name], (*style, 3)))
        reals = list(self.scene)
        self.ctx.check(len(reals) == len(self.items), 'number-of-items', lambda: 'detail scene: {} items instead of {}'.format(
            len(reals), len(self.items)))
        self.sketch_items = len(reals)
        for item, r in zip(self.items, reals):
            item.real = r
        xs, ys = [p[0] for p in points], [p[1] for p in points]
        self.box = (min(xs), min(ys), max(xs), max(ys))
        self.check_box()

    def check_box(self):
        box = self.scene.bounding_box
        got = tuple(float(v) for v in (box.x.inf, box.y.inf, box.x.sup, box.y.sup))
        scale = max(1, *map(abs, self.box))
        self.ctx.check(all(abs(a - b) < 1e-6 * scale for a, b in zip(got, self.box)), 'bounding-box',
                       lambda: '{} instead of {}'.format(got, self.box))

    # ------------------------------------------------------------ edits

    def point(self):
        x0, y0, x1, y1 = self.box
        return (round(self.ch.decimal(0, 1, 4) * (x1 - x0) + x0, 4), round(self.ch.decimal(0, 1, 4) * (y1 - y0) + y0, 4))

    def define(self, name):
        self.coordinates[name] = self.point()
        self.scene.add_coordinate(name, self.V(*self.coordinates[name]))

    def add(self, kind=None):
        ch = self.ch
        kind = kind or ch.pick(['segment', 'text', 'circle', 'cubic'])
        n = {'segment': 2, 'cubic': 4, 'rectangle': 2, 'image': 2, 'polygon': 3, 'polyline': 3, 'quadratic': 3}.get(kind, 1)
        refs = []
        for _ in range(n):
            if self.coordinates and ch.chance(40):
                refs.append(ch.pick(sorted(self.coordinates)))
            else:
                refs.append(self.point())
        style = (ch.pick(STYLES), ch.pick(patmodel.COLOURS), ch.pick(WIDTHS))
        text = ch.pick(TEXTS) if kind == 'text' else None
        if style[1].startswith('#'):
            colour = self.Colors.ensure_color(style[1])
        else:
            colour = self.Colors[style[1]]
        path_style = self.PathStyle(stroke_style=getattr(self.StrokeStyle, style[0]), stroke_color=colour,
                                    line_width=style[2])
        p = [ref if isinstance(ref, str) else self.V(*ref) for ref in refs]
        scene = self.scene
        item = Item(kind, refs, style, text)
        if kind == 'segment':
            item.real = scene.segment(*p, path_style, user_data=None)
        elif kind == 'cubic':
            item.real = scene.cubic_bezier(*p, path_style, user_data=None)
        elif kind == 'circle':
            item.real = scene.circle(p[0], ch.pick(['1pt', .2]), path_style, user_data=None)
        elif kind == 'text':
            item.real = scene.text(p[0], text, self.Font('', 16), user_data=None)
        elif kind == 'rectangle':
            item.real = scene.rectangle(*p, path_style, user_data=None)
        elif kind == 'image':
            item.real = scene.image(*p, None, user_data=None)
        elif kind == 'quadratic':
            item.real = scene.quadratic_bezier(*p, path_style, user_data=None)
        elif kind == 'ellipse':
            item.real = scene.ellipse(p[0], 2, 1, 0, path_style, user_data=None)
        else:
            item.real = getattr(scene, kind)(p, path_style, user_data=None)
        self.items.append(item)
        self.ctx.event(self.name, 'add', item)
        self.ctx.sig('add', kind, len(self.items))
        return item

    def edit(self, action):
        ch = self.ch
        if action == 'move':
            if self.coordinates:
                name = ch.pick(sorted(self.coordinates))
                self.define(name)
                self.ctx.event(self.name, 'move', name, self.coordinates[name])
        elif not self.items:
            return
        elif action == 'remove':
            item = ch.pick(self.items)
            self.scene.remove_item(item.real)
            self.items.remove(item)
            self.ctx.event(self.name, 'remove', item)
        elif action == 'hide':
            item = ch.pick(self.items)
            item.visible = not item.visible
            item.real.visible = item.visible
            self.ctx.event(self.name, 'visible', item.visible, item)
        else:
            item = ch.pick(self.items)
            item.z = ch.pick([1, -1, 2, 0, .5, 10, 9])
            item.real.z_value = item.z
            self.ctx.event(self.name, 'z', item.z, item)

    # ------------------------------------------------------------ what an export must show

    def shown(self):
        return [item for z in sorted({i.z for i in self.items}) for item in self.items if item.z == z and item.visible]

    @property
    def exportable(self):
        return not any(item.kind in UNSUPPORTED for item in self.shown())

    def content(self):
        return [(i.kind, [self.coordinates[ref] if isinstance(ref, str) else ref for ref in i.refs], i.style, i.text)
                for i in self.shown()]


class Paper:

    def __init__(self, ch, names=('a3', 'a4', 'a0', 'a5', 'B1'), margins=(10, 5)):
        self.name = ch.pick(names)
        self.orientation = ch.pick(['portrait', 'landscape'])
        self.margin = ch.pick(margins)

    def real(self):
        from Patro.GraphicEngine.Painter.Paper import PaperSize
        return PaperSize(self.name, self.orientation, self.margin)

    @property
    def size(self):
        """Width and height in mm, nominal."""
        height = {'a': 1189, 'b': 1414, 'c': 1297}[self.name[0].lower()] / 2 ** (int(self.name[1:]) / 2)
        width = height / 2 ** .5
        return (height, width) if self.orientation == 'landscape' else (width, height)

    def __repr__(self):
        return '{}/{}/{}'.format(self.name, self.orientation, self.margin)


def export(fmt, path, scene, paper, writes=1):
    if fmt == 'svg':
        from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
        SvgPainter(path, scene, paper)
    elif fmt in ('tex', 'tiled'):
        from Patro.GraphicEngine.Painter.TexPainter import TexPainter
        painter = TexPainter(path, scene, paper)
        if fmt == 'tex':
            painter.add_detail_figure()
        else:
            painter.add_tiled_detail_figure()
        for _ in range(writes):
            core.part(painter, '_document', 'Document').write()
    elif fmt == 'pdf':
        from Patro.GraphicEngine.Painter.PdfPainter import PdfPainter
        PdfPainter(path, scene, paper)
    else:
        from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
        DxfPainter(path, scene, paper)


def plot(ctx, scene, box, content, paper, where, kept):
    """A figure of Matplotlib is made of the scene, and shows it. *kept*: [(axes, what it shows)] of earlier figures."""
    from matplotlib import pyplot
    from Patro.GraphicEngine.Painter.MplPainter import MplPainter
    before = len(pyplot.get_fignums())
    painter = MplPainter(scene, paper)
    ctx.equal(len(pyplot.get_fignums()), before + 1, 'figures', where)
    axes = pyplot.gcf().get_axes()
    ctx.equal(len(axes), 1, 'axes', where)
    kept.append((axes[0], lambda: check_plot(ctx, axes[0], box, content, where)))
    del painter
    for _, check in kept:
        check()


def check_plot(ctx, axes, box, content, where):
    elements = exports.plot_elements(axes)
    # a text is above everything in a figure
    content = [c for c in content if c[0] != 'text'] + [c for c in content if c[0] == 'text']
    exports.compare(ctx, 'plot', elements, content, where)
    lines = {}
    for element, (kind, _, style, _) in zip(elements, content):
        if kind in ('segment', 'cubic') and style[0] != 'NoPen':
            ctx.check(element['line'] not in ('', ' ', 'None', 'none', None), 'invisible-line', lambda: '{}: {}'.format(where, element))
            known = exports.PLOT_LINE.get(style[0])
            ctx.check(known is None or element['line'] in known, 'line', lambda: '{}: {} for {}'.format(
                where, element['line'], style[0]))
            lines.setdefault(str(element['line']), set()).add(style[0])
    ctx.check(all(len(styles) == 1 for styles in lines.values()), 'line', lambda: '{}: {}'.format(where, lines))
    (x0, x1), (y0, y1) = axes.get_xlim(), axes.get_ylim()
    ctx.check(x0 <= box[0] + 1e-6 and y0 <= box[1] + 1e-6 and x1 >= box[2] - 1e-6 and y1 >= box[3] - 1e-6, 'limits',
              lambda: '{}: {} for {}'.format(where, (x0, y0, x1, y1), box))
    ctx.equal(axes.get_aspect(), 1.0, 'aspect', where)


def check_export(ctx, fmt, data, box, content, paper, where):
    """Does the file show the content?"""
    if fmt == 'tex':
        preamble, figures = exports.tex_figures(data)
        ctx.check(len(figures) == 1, 'figures', lambda: '{}: {} figures'.format(where, len(figures)))
        exports.compare(ctx, 'tex', figures[0].elements, content, where)
        ctx.check('paper={}paper'.format(paper.name.lower()) in preamble, 'paper', where)
        return
    elements, properties = {'svg': exports.svg_elements, 'pdf': exports.pdf_elements,
                            'dxf': exports.dxf_elements}[fmt](data, box)
    exports.compare(ctx, fmt, elements, content, where)
    width, height = paper.size
    if fmt == 'svg':
        view = [float(v) for v in properties['viewBox'].replace(',', ' ').split()]
        got = (float(properties['width'].removesuffix('mm')), float(properties['height'].removesuffix('mm')), *view)
        ctx.check(all(abs(a - b) < 1 for a, b in zip(got, (width, height, 0, 0, width, height))), 'paper',
                  lambda: '{}: {} instead of {}'.format(where, got, (width, height)))
    elif fmt == 'pdf':
        page = properties['page']
        got = (page[2] - page[0], page[3] - page[1])
        expected = (width * 72 / 25.4, height * 72 / 25.4)
        ctx.check(all(abs(a - b) < 3 for a, b in zip(got, expected)), 'paper',
                  lambda: '{}: {} instead of {}'.format(where, got, expected))
