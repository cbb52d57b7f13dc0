"""SVG documents: a tree of groups and items, its text and what a reader must find in it."""

import math

from world.paths import Model, Part
from world.shapes import apply, coordinate, product, similarity

IDENTITY = (1, 0, 0, 1, 0, 0)

# the initial state of a document
DEFAULTS = {
    'fill': None, 'stroke': None, 'fill_opacity': 1.0, 'stroke_opacity': 1.0, 'stroke_width': 1.0,
    'stroke_linecap': 'butt', 'stroke_linejoin': 'miter', 'stroke_miterlimit': 4.0, 'stroke_dasharray': None,
    'font_size': None, 'font_family': None, 'visibility': None, 'fill_rule': 'nonzero', 'opacity': 1.0,
    'text_anchor': None, 'stroke_dashoffset': None,
}

# property: values; the ones which exist as attributes of an item, of a group, and only in a style
COLORS = ['none', 'red', '#102030', '#abc', 'black', 'rgb(1,2,3)']
ITEM = {
    'fill': COLORS, 'stroke': COLORS, 'stroke-width': ['1', '.5', '2.25', '2mm', '3.5px', '12%'],
    'stroke-linecap': ['butt', 'round', 'square'], 'stroke-linejoin': ['miter', 'round', 'bevel'],
    'stroke-miterlimit': ['1', '10', '2.5'], 'stroke-dasharray': ['5', '5 2', '1,2', '4, 1, 2.5, 1'],
}
GROUP = dict(ITEM, **{'font-size': ['12', '9pt'], 'font-family': ['serif', 'Sans Serif']})
STYLE = dict(GROUP, **{
    'fill-opacity': ['0', '.5', '1'], 'stroke-opacity': ['.25', '1'], 'visibility': ['hidden', 'visible'],
    'fill-rule': ['evenodd', 'nonzero'], 'text-anchor': ['middle', 'end'], 'stroke-dashoffset': ['0', '2'],
    'stroke-dasharray': ['none', '5', '5 2', '1,2'],
    '-inkscape-font-specification': ["'Sans:Bold'"], 'mask': ['url(http://here/x#a)'],
})

TAGS = ['path', 'path', 'path', 'rect', 'rect', 'line', 'circle', 'ellipse', 'polyline', 'polygon']


def value(name, text):
    """What a property is, whatever the type which holds it."""
    if text is None or text == 'none':
        return None
    if name == 'stroke_dasharray':
        if isinstance(text, str):
            text = text.replace(',', ' ').split()
        elif isinstance(text, (int, float)):
            text = [text]
        return tuple(float(x) for x in text)
    if isinstance(text, (int, float)):
        return float(text)
    if name == 'stroke_width':
        text = str(text)
        for unit in ('mm', 'px', '%'):
            if text.endswith(unit):
                return (round(float(text[:-len(unit)]), 9), unit)
    text = str(text)
    try:
        return float(text)
    except ValueError:
        return text


# ---------------------------------------------------------------- numbers and separators

def number(ch, x):
    """A number as text."""
    x = float(x)
    forms = [repr(x), '{:.2f}'.format(x)]
    if x == int(x):
        forms += [str(int(x)), str(int(x))]
    if 0 < abs(x) < 1:
        forms.append(repr(x).replace('0.', '.', 1))
    if x >= 0:
        forms.append('+' + repr(x))
    forms.append('{:.4e}'.format(x))
    return ch.pick(forms)


def join(ch, numbers, tight=False):
    """Numbers with separators."""
    out = ''
    for text in numbers:
        if out:
            separators = [' ', ' ', ',', ', ', ' , ', '  ', '\n', '\t']
            if tight and text[0] in '-+':
                separators += [''] * 4
            out += ch.pick(separators)
        out += text
    return out


# ---------------------------------------------------------------- transformations

def transform_matrix(spec):
    name, values = spec
    if name == 'matrix':
        a, b, c, d, e, f = values
        return (a, c, b, d, e, f)
    if name == 'translate':
        return (1, 0, 0, 1, values[0], values[1] if len(values) > 1 else 0)
    if name == 'scale':
        return (values[0], 0, 0, values[-1], 0, 0)
    a = math.radians(values[0])
    rotation = (math.cos(a), -math.sin(a), math.sin(a), math.cos(a), 0, 0)
    if len(values) == 1:
        return rotation
    x, y = values[1:]
    return product(product((1, 0, 0, 1, x, y), rotation), (1, 0, 0, 1, -x, -y))


def list_matrix(specs):
    m = IDENTITY
    for spec in specs:
        m = product(m, transform_matrix(spec))
    return m


def draw_transform(ch):
    specs = []
    for _ in range(ch.weighted([(4, 1), (3, 2), (1, 3)])):
        name = ch.pick(['matrix', 'translate', 'translate', 'scale', 'rotate'])
        if name == 'matrix':
            values = ch.pick([[1, 0, 0, 1, 0, 0], [0, 1, -1, 0, 3, 5], [2, 0, 0, 2, -1, 4.5], [1, 0, .5, 1, 0, 0],
                              [1, 0, 0, -1, 0, 100], [2, .25, -1, .5, 7, 8]])
        elif name == 'translate':
            values = [coordinate(ch) for _ in range(ch.int(1, 2))]
        elif name == 'scale':
            values = [ch.pick([2, .5, -1, 1.5]) for _ in range(ch.int(1, 2))]
        else:
            values = [ch.pick([90, 45, -30, 180, 270])]
            if ch.chance(40):
                values += [coordinate(ch), coordinate(ch)]
        specs.append((name, values))
    return specs


def transform_text(ch, specs):
    out = []
    for name, values in specs:
        out.append('{}{}({}{}{})'.format(name, ch.pick(['', '', ' ']), ch.pick(['', '', ' ']),
                                         join(ch, [number(ch, v) for v in values]), ch.pick(['', '', ' '])))
    return ch.pick([' ', ' ', ', ', '', '\n']).join(out)


# ---------------------------------------------------------------- paths

def draw_path(ch):
    """The model of a path and its data."""
    p0 = (coordinate(ch), coordinate(ch))
    model = Model(p0)
    commands = [(ch.pick('Mm'), p0)]
    for _ in range(ch.int(1, 6)):
        letter = ch.pick(['l', 'l', 'L', 'L', 'h', 'H', 'v', 'V', 'c', 'C', 'q', 'Q'])
        mode = 'absolute' if letter.isupper() else 'relative'
        if letter in 'hHvV':
            x = coordinate(ch)
            if mode == 'absolute':
                part = Part('line', 'x' if letter == 'H' else 'y', (x,))
            else:
                part = Part('line', 'relative', ((x, 0) if letter == 'h' else (0, x),))
            numbers = (x,)
        else:
            points = tuple((coordinate(ch), coordinate(ch)) for _ in range({'l': 1, 'q': 2, 'c': 3}[letter.lower()]))
            part = Part({'l': 'line', 'q': 'quadratic', 'c': 'cubic'}[letter.lower()], mode, points)
            numbers = tuple(x for p in points for x in p)
        model.parts.append(part)
        commands.append((letter, numbers))
    if ch.chance(40):
        model.closed = True
        model.parts.append(Part('line', 'absolute', (p0,)))
        commands.append((ch.pick('zZ'), ()))
    tight = ch.chance(40)
    text, last = '', None
    for letter, numbers in commands:
        # a repeated command needs no letter, after a move it is a line
        implicit = last is not None and numbers and (
            last == letter or (last == 'm' and letter == 'l') or (last == 'M' and letter == 'L'))
        numbers = [number(ch, x) for x in numbers]
        if implicit and ch.chance(50):
            text += ('' if tight and numbers[0][0] in '-+' else ch.pick([' ', ',', '\n'])) + join(ch, numbers, tight)
        else:
            gap = (lambda: '') if tight else (lambda: ch.pick([' ', '', '\n', '  ']))
            text += (gap() if text else '') + letter + (gap() + join(ch, numbers, tight) if numbers else '')
        last = letter
    return model, text


# ---------------------------------------------------------------- nodes

class Node:

    def __init__(self, tag, name):
        self.tag, self.name = tag, name
        self.attributes = {}     # attributes of the XML file
        self.transform = []
        self.properties = {}     # python name: text, the style over the attributes
        self.children = []
        self.path = None
        self.values = {}         # python name: number or text


def draw_node(ch, tag, name):
    node = Node(tag, name)
    node.attributes['id'] = name
    table = GROUP if tag == 'g' else ITEM
    for key in sorted(table):
        if ch.chance(14):
            text = ch.pick(table[key])
            if key == 'stroke-dasharray' and text == 'none':
                continue
            node.attributes[key] = text
            node.properties[key.replace('-', '_')] = text
    style = [key for key in sorted(STYLE) if ch.chance(10)]
    if style:
        pairs = []
        for key in ch.shuffle(style):
            text = ch.pick(STYLE[key])
            node.properties[key.replace('-', '_')] = text
            pairs.append('{}{}:{}{}'.format(ch.pick(['', ' ', '\n']), key, ch.pick(['', ' ']), text))
        node.attributes['style'] = ch.pick([';', '; ', ' ;']).join(pairs) + ch.pick(['', ';', '; '])
    if ch.chance(40):
        node.transform = draw_transform(ch)
        node.attributes['transform'] = transform_text(ch, node.transform)
    draw = lambda: coordinate(ch)
    if tag == 'path':
        node.path, node.attributes['d'] = draw_path(ch)
    elif tag == 'rect':
        names = [n for n in ('x', 'y') if ch.chance(85)]
        node.values = {n: draw() for n in names}
        node.values.update(width=ch.int(4, 80) / 4, height=ch.int(4, 80) / 4)
        for n in ch.pick([(), (), ('rx', 'ry'), ('rx',), ('ry',)]):
            node.values[n] = .25
    elif tag == 'line':
        node.values = {n: draw() for n in ('x1', 'y1', 'x2', 'y2')}
    elif tag == 'circle':
        node.values = {'cx': draw(), 'cy': draw(), 'r': ch.int(1, 40) / 4}
    elif tag == 'ellipse':
        node.values = {'cx': draw(), 'cy': draw(), 'rx': ch.int(1, 40) / 4, 'ry': ch.int(1, 40) / 4}
    elif tag in ('polyline', 'polygon'):
        points = ' '.join('{},{}'.format(draw(), draw()) for _ in range(ch.int(2, 5)))
        node.attributes['points'] = points
        node.values['points'] = points
    for n, v in node.values.items():
        if n not in node.attributes:
            node.attributes[n] = number(ch, v)
    return node


class Document:

    def __init__(self, ch, name):
        self.name = name
        self.count = 0
        self.box = (ch.pick([0, 0, -10, 5.5]), ch.pick([0, 0, 20]), ch.int(10, 400), ch.int(10, 400) / 2)
        self.size = (ch.pick(['100mm', '210', '50%']), ch.pick(['80mm', '297', '10in']))
        self.box_text = None
        # a fragment has the attributes of a group
        self.root = draw_node(ch, 'g', name + '-root') if ch.chance(35) else Node('svg', None)
        self.fill(ch, self.root, 0, ch.int(2, 9))
        self.text = self.write(ch)
        self.encoding = ch.pick(['utf-8', 'utf-8', 'iso-8859-1'])

    def fill(self, ch, parent, depth, n):
        for _ in range(n):
            self.count += 1
            name = '{}{}{}'.format(self.name, ch.pick(['-', '_', 'é']), self.count)
            if depth < 4 and ch.chance(30):
                node = draw_node(ch, 'g', name)
                self.fill(ch, node, depth + 1, ch.int(0, 4))
            elif ch.chance(15):
                node = Node('noise', name)
                node.values['text'] = ch.pick([
                    '<!-- a comment <g transform="scale(9)"> -->', '<?note something?>', '<title>A title</title>',
                    '<text x="1" y="2">A text</text>', '<defs><path id="hidden" d="M 0 0 h 1"/><g><rect/></g></defs>',
                    '<metadata><other xmlns="http://other/">x</other></metadata>', '\n  some text\n',
                    '<other:thing xmlns:other="http://other/" transform="nothing"/>', '<style>.a { fill: red }</style>'])
            else:
                node = draw_node(ch, ch.pick(TAGS), name)
            parent.children.append(node)

    def write(self, ch):
        prefix = ch.pick(['', '', '', 'svg:'])
        x, y, w, h = (repr(float(v)) for v in self.box)
        separator = ch.pick([' ', ',', ', ', '  '])
        out = []
        declared = ' xmlns="http://www.w3.org/2000/svg"' if not prefix else ' xmlns:svg="http://www.w3.org/2000/svg"'
        if ch.chance(15) and not prefix:
            declared = ''
        inherited = ''.join(' {}="{}"'.format(k, v) for k, v in self.root.attributes.items())
        out.append('<{}svg{} version="1.1" viewBox="{}" width="{}" height="{}"{}>'.format(
            prefix, declared, self.box_text or separator.join((x, y, w, h)), *self.size, inherited))

        def node_text(node, indent):
            if node.tag == 'noise':
                text = node.values['text']
                if prefix and not text.lstrip().startswith(('<!', '<?', '<other', '<metadata')) and '<' in text:
                    text = '<!-- noise -->'
                out.append(indent + text)
                return
            attributes = ch.shuffle(list(node.attributes.items()))
            quote = ch.pick('"\'') if "'" not in ''.join(node.attributes.values()) else '"'
            gap = ch.pick([' ', ' ', '\n  '])
            head = '{}<{}{}{}'.format(indent, prefix, node.tag, ''.join(
                '{}{}={}{}{}'.format(gap, k, quote, v, quote) for k, v in attributes))
            if node.tag == 'g':
                out.append(head + '>')
                for child in node.children:
                    node_text(child, indent + '  ')
                out.append('{}</{}g>'.format(indent, prefix))
            else:
                out.append(head + ch.pick(['/>', ' />', '></{}{}>'.format(prefix, node.tag)]))

        for child in self.root.children:
            node_text(child, '  ')
        out.append('</{}svg>'.format(prefix))
        return '\n'.join(out) + '\n'

    def source(self, declaration=True):
        """The bytes of the file."""
        head = '<?xml version="1.0" encoding="{}" standalone="no"?>\n'.format(self.encoding)
        return (head + self.text).encode(self.encoding)

    def expected(self):
        """The groups and the items with their states, in the order of the document."""
        out = []

        def walk(node, matrix, state):
            for child in node.children:
                if child.tag == 'noise':
                    continue
                m = product(matrix, list_matrix(child.transform))
                s = dict(state, **child.properties)
                if child.tag == 'g':
                    out.append(Expected(child, None, None))
                    walk(child, m, s)
                else:
                    out.append(Expected(child, m, s))

        walk(self.root, list_matrix(self.root.transform), dict(self.root.properties))
        return out


class Expected:

    def __init__(self, node, matrix, state):
        self.node, self.matrix = node, matrix
        self.tag, self.name = node.tag, node.name
        if state is not None:
            self.state = {k: value(k, state[k]) if k in state else v for k, v in DEFAULTS.items()}

    def geometry(self):
        """The model of the path of the item, in the coordinates of the document, None if there is none."""
        node = self.node
        if node.tag == 'path':
            model = node.path.copy()
        elif node.tag == 'rect':
            v = node.values
            model = Model((v.get('x', 0.), v.get('y', 0.)))
            radius = v.get('ry', v.get('rx'))
            w, h = v['width'], v['height']
            model.parts = [Part('line', 'relative', ((w, 0),), radius), Part('line', 'relative', ((0, h),), radius),
                           Part('line', 'relative', ((-w, 0),), radius), Part('line', 'absolute', (model.p0,), radius)]
            model.closed, model.closing = True, radius is not None
        else:
            return None
        if model.rounded and similarity(self.matrix) is None:
            return None
        if self.matrix != IDENTITY:
            model.transform(self.matrix) if similarity(self.matrix) is not None else stretch(model, self.matrix)
        return model


def stretch(model, m):
    chains = model.chains()
    model.p0 = apply(m, model.p0)
    for part, points in zip(model.parts, chains):
        part.mode, part.values = 'absolute', tuple(apply(m, p) for p in points[1:])
