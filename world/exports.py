"""What a reader sees in the exported files, as lists of elements in painting order.

element: dict(kind='segment'|'cubic'|'circle'|'text', points=[(x, y)] in cm, text=..., style=..., colour=(r, g, b), width=...)
"""

import base64
import re
import zlib

from .docs import Corrupt, pdf_streams

# a named colour is what Patro's own table says it is
RGB = {'black': (0, 0, 0), 'red': (255, 0, 0), 'blue': (0, 0, 255), 'green': (0, 255, 0), 'orange': (255, 127, 14),
       'deepskyblue': (0, 191, 255), 'lime': (170, 255, 50), 'goldenrod': (250, 194, 5)}

SVG_DASH = {'SolidLine': (), 'DashLine': (6, 3), 'DotLine': (1, 2), 'DashDotLine': (6, 3), 'DashDotDotLine': (6, 3)}
TEX_DASH = {'SolidLine': (), 'DashLine': (5, 5), 'DotLine': (2, 2), 'DashDotLine': (5, 4, 2, 4),
            'DashDotDotLine': (5, 4, 2, 4, 2, 4)}
DXF_LINE = {'SolidLine': 'CONTINUOUS', 'DashLine': 'DASHED', 'DotLine': 'DOT', 'DashDotLine': 'DASHDOT',
            'DashDotDotLine': 'DIVIDE'}
CM = 72 / 2.54


def rgb(colour):
    if isinstance(colour, tuple):
        return colour
    if colour.startswith('#'):
        return tuple(int(colour[i:i + 2], 16) for i in (1, 3, 5))
    if colour not in RGB:
        raise Corrupt('colour {}'.format(colour))
    return RGB[colour]


# -------------------------------------------------------------------- SVG

def svg_elements(data, box):
    from lxml import etree
    try:
        root = etree.fromstring(data)
    except etree.XMLSyntaxError as error:
        raise Corrupt('SVG: {}'.format(error))
    x0, y1 = box[0], box[3]

    def point(x, y):
        return (float(x) / 10 + x0, y1 - float(y) / 10)

    def style(element):
        dash = element.get('stroke-dasharray')
        return {'dash': tuple(float(v) for v in dash.replace(',', ' ').split()) if dash and dash != 'none' else (),
                'colour': rgb(element.get('stroke')), 'width': float(element.get('stroke-width', 1))}

    def walk(parent):
        for element in parent:
            if not isinstance(element.tag, str):
                continue
            tag = element.tag.split('}')[-1]
            get = element.get
            if tag == 'line':
                yield dict(kind='segment', points=[point(get('x1'), get('y1')), point(get('x2'), get('y2'))],
                           **style(element))
            elif tag == 'path':
                numbers = re.findall(r'[MC]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', get('d'))
                if numbers[0] != 'M' or numbers[3] != 'C' or len(numbers) != 10:
                    raise Corrupt('SVG path {}'.format(get('d')))
                v = numbers[1:3] + numbers[4:]
                if get('fill') != 'none':
                    raise Corrupt('SVG: filled curve')
                yield dict(kind='cubic', points=[point(*v[i:i + 2]) for i in range(0, 8, 2)], **style(element))
            elif tag == 'circle':
                yield dict(kind='circle', points=[point(get('cx'), get('cy'))])
            elif tag == 'text':
                yield dict(kind='text', points=[point(get('x'), get('y'))], text=element.text or '')
            elif tag == 'g' and not element.get('transform'):
                yield from walk(element)
            elif tag not in ('style', 'defs', 'title', 'desc', 'metadata'):
                raise Corrupt('SVG: unexpected element {}'.format(tag))
    return list(walk(root)), {'width': root.get('width'), 'height': root.get('height'), 'viewBox': root.get('viewBox')}


# -------------------------------------------------------------------- LaTeX

NUMBER = r'[-+]?\d+(?:\.\d+)?'
POSITION = r'\(([^()]*)\)'


class Figure:

    def __init__(self, options):
        self.options = options
        self.elements = []
        self.coordinates = {}
        self.clip = None
        self.label = None


def tex_figures(data):
    try:
        source = data.decode('utf8')
    except UnicodeDecodeError as error:
        raise Corrupt('TeX: {}'.format(error))
    if not source.rstrip().endswith(r'\end{document}'):
        raise Corrupt('TeX: not a complete document')
    preamble, content = source.split(r'\begin{document}', 1)
    figures = []
    for match in re.finditer(r'\\begin\{tikzpicture\}(?:\[(.*?)\])?\n(.*?)\\end\{tikzpicture\}', content, re.DOTALL):
        figures.append(tex_figure(match.group(1), match.group(2)))
    if content.count(r'\begin{tikzpicture}') != len(figures):
        raise Corrupt('TeX: figures')
    return preamble, figures


def tex_style(text):
    style = {'dash': (), 'colour': None, 'width': None}
    for part in re.split(r',\s*(?![^{]*\})', text):
        part = part.strip()
        if part.startswith('line width='):
            style['width'] = float(part[11:].replace('pt', ''))
        elif part.startswith('dash pattern='):
            style['dash'] = tuple(float(v) for v in re.findall(r'o(?:n|ff) (\d+(?:\.\d+)?)mm', part))
        elif part == 'solid' or not part:
            pass
        elif part.startswith('draw='):
            style['colour'] = tuple(int(v) for v in re.findall(r'(?:red|green|blue),(\d+)', part))
        else:
            style['colour'] = rgb(part)
    return style


def tex_figure(options, body):
    figure = Figure(options)

    def point(text):
        if text in figure.coordinates:
            return figure.coordinates[text]
        match = re.fullmatch(r'({0}),({0})'.format(NUMBER), text)
        if not match:
            raise Corrupt('TeX: coordinate {} is not defined'.format(text))
        return (float(match.group(1)), float(match.group(2)))

    for line in body.split('\n'):
        line = line.strip()
        if not line or line.startswith('%'):
            continue
        match = re.fullmatch(r'\\coordinate {0} at {0};'.format(POSITION), line)
        if match:
            name = match.group(1)
            if name in figure.coordinates:
                raise Corrupt('TeX: coordinate {} is defined twice'.format(name))
            figure.coordinates[name] = point(match.group(2))
            continue
        match = re.fullmatch(r'\\draw\[clip\] (.*) -- cycle;', line)
        if match:
            figure.clip = [point(p) for p in re.findall(POSITION, match.group(1))]
            continue
        match = re.fullmatch(r'\\draw\[(.*?)\] {0} node\[anchor=(.*?)\] \{{(.*)\}};'.format(POSITION), line)
        if match:
            if figure.clip is None and match.group(3) == 'south west':
                if figure.label is not None:
                    raise Corrupt('TeX: two labels')
                figure.label = match.group(4)
            else:
                figure.elements.append(dict(kind='text', points=[point(match.group(2))], text=match.group(4)))
            continue
        match = re.fullmatch(r'\\fill \[.*?\] {0} circle \(.*?\);'.format(POSITION), line)
        if match:
            figure.elements.append(dict(kind='circle', points=[point(match.group(1))]))
            continue
        match = re.fullmatch(r'\\draw\[(.*)\] {0} -- {0};'.format(POSITION), line)
        if match:
            figure.elements.append(dict(kind='segment', points=[point(match.group(2)), point(match.group(3))],
                                        **tex_style(match.group(1))))
            continue
        match = re.fullmatch(r'\\draw\[(.*)\] {0} \.\. controls {0} and {0} \.\. {0};'.format(POSITION), line)
        if match:
            figure.elements.append(dict(kind='cubic', points=[point(match.group(i)) for i in range(2, 6)],
                                        **tex_style(match.group(1))))
            continue
        if re.match(r'\\(color|fontsize)', line):
            continue
        raise Corrupt('TeX: {}'.format(line))
    return figure


# -------------------------------------------------------------------- PDF

TOKEN = re.compile(r'\((?:\\.|[^\\()])*\)|/[^\s/()<>\[\]]+|[-+]?(?:\d+\.?\d*|\.\d+)|[A-Za-z*\'"]+|[\[\]]')


def pdf_string(token):
    def unescape(match):
        x = match.group(1)
        if x[0] in '01234567':
            return chr(int(x, 8))
        return {'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f'}.get(x, x)
    return re.sub(r'\\([0-7]{1,3}|.)', unescape, token[1:-1], flags=re.DOTALL)


def pdf_elements(data, box):
    streams = [s for s in pdf_streams(data) if ' cm' in s]
    if len(streams) != 1:
        raise Corrupt('PDF: {} pages'.format(len(streams)))
    match = re.search(rb'/MediaBox\s*\[\s*([\d.]+)\s+([\d.]+)\s+([\d.]+)\s+([\d.]+)\s*\]', data)
    page = tuple(float(v) for v in match.groups()) if match else None
    origin = [0.0, 0.0]
    saved = []
    stack = []
    path = []
    elements = []
    text_position = None

    def point(x, y):
        # the lower left corner of the bounding box is at 1 cm of the corner of the page
        return ((x + origin[0] - CM) / CM / .7 + box[0], (y + origin[1] - CM) / CM / .7 + box[1])

    for token in TOKEN.findall(streams[0]):
        if token[0] in '+-.0123456789':
            stack.append(float(token))
            continue
        if token[0] in '(/[]':
            stack.append(token)
            continue
        if token == 'cm':
            a, b, c, d, x, y = stack
            if (a, b, c, d) != (1, 0, 0, 1):
                raise Corrupt('PDF: matrix {}'.format(stack))
            origin[0] += x
            origin[1] += y
        elif token == 'q':
            saved.append(list(origin))
        elif token == 'Q':
            origin = saved.pop()
        elif token in ('m', 'l', 'c'):
            path.append((token, list(stack)))
        elif token in ('S', 'B', 'B*', 'f', 'f*', 'b', 'b*', 's'):
            kinds = ''.join(k for k, _ in path)
            numbers = [v for _, s in path for v in s]
            points = [point(numbers[i], numbers[i + 1]) for i in range(0, len(numbers), 2)]
            if kinds == 'ml':
                elements.append(dict(kind='segment', points=points))
            elif kinds == 'mc':
                elements.append(dict(kind='cubic', points=points))
            elif kinds == 'mcccc':
                x = sum(p[0] for p in points[0:12:3]) / 4
                y = sum(p[1] for p in points[0:12:3]) / 4
                elements.append(dict(kind='circle', points=[(x, y)]))
            else:
                raise Corrupt('PDF: path {}'.format(kinds))
            path = []
        elif token == 'n':
            path = []
        elif token == 'Tm':
            text_position = point(*stack[-2:])
        elif token == 'Tj':
            elements.append(dict(kind='text', points=[text_position], text=pdf_string(stack[-1])))
        stack = []
    return elements, {'page': page}


# -------------------------------------------------------------------- DXF

def dxf_elements(data, box):
    import ezdxf
    import io
    try:
        text = data.decode('utf8')
        if not text.rstrip().endswith('EOF'):
            raise Corrupt('DXF: not a complete document')
        drawing = ezdxf.read(io.StringIO(text))
    except (UnicodeDecodeError, ezdxf.DXFError) as error:
        raise Corrupt('DXF: {}'.format(error))
    line_types = {x.dxf.name.upper() for x in drawing.linetypes}
    elements = []

    def point(p):
        if abs(p[2]) > 1e-9:
            raise Corrupt('DXF: out of the plane')
        return (p[0] / 10, p[1] / 10)

    def style(entity):
        line_type = entity.dxf.get('linetype', 'BYLAYER').upper()
        if line_type not in line_types:
            raise Corrupt('DXF: line type {} is not defined'.format(line_type))
        true_color = entity.dxf.get('true_color', None)
        if true_color is not None:
            colour = (true_color >> 16, true_color >> 8 & 255, true_color & 255)
        else:
            colour = {0: (0, 0, 0), 7: (0, 0, 0)}.get(entity.dxf.get('color', None))
        return {'line': line_type, 'colour': colour}

    for entity in drawing.modelspace():
        kind = entity.dxftype()
        if kind == 'LINE':
            elements.append(dict(kind='segment', points=[point(entity.dxf.start), point(entity.dxf.end)], **style(entity)))
        elif kind == 'SPLINE':
            points = [tuple(float(x) for x in p) for p in entity.control_points]
            if entity.dxf.degree != 3 or entity.closed:
                raise Corrupt('DXF: spline')
            # of a Bezier curve
            knots = [float(k) for k in entity.knots]
            if len(knots) != 8 or len(set(knots[:4])) != 1 or len(set(knots[4:])) != 1:
                raise Corrupt('DXF: knots {}'.format(knots))
            elements.append(dict(kind='cubic', points=[point(p) for p in points], **style(entity)))
        elif kind == 'TEXT':
            _, p1, p2 = entity.get_placement()
            elements.append(dict(kind='text', points=[point(p1)], text=entity.dxf.text))
        else:
            raise Corrupt('DXF: unexpected {}'.format(kind))
    return elements, {}


# -------------------------------------------------------------------- Matplotlib

PLOT_LINE = {'SolidLine': ('solid', '-'), 'DashLine': ('dashed', '--'), 'DotLine': ('dotted', ':'),
             'DashDotLine': ('dashdot', '-.')}


def plot_elements(axes):
    """What is drawn on the axes of a figure: paths and points, then texts which are always above."""
    from matplotlib import colors, patches
    from matplotlib.path import Path
    artists = [artist for artist in axes.get_children()
               if isinstance(artist, (patches.PathPatch, patches.Circle)) and artist.get_visible()]
    elements = []
    for artist in sorted(artists, key=lambda artist: artist.get_zorder()):
        if isinstance(artist, patches.Circle):
            elements.append(dict(kind='circle', points=[tuple(float(x) for x in artist.center)]))
            continue
        path = artist.get_path()
        points = [tuple(float(x) for x in p) for p in path.vertices]
        kind = {(Path.MOVETO, Path.LINETO): 'segment',
                (Path.MOVETO, Path.CURVE4, Path.CURVE4, Path.CURVE4): 'cubic'}.get(tuple(int(c) for c in path.codes))
        red, green, blue, alpha = artist.get_edgecolor()
        elements.append(dict(kind=kind, points=points, line=artist.get_linestyle(), width=float(artist.get_linewidth()),
                             colour=tuple(round(255 * x) for x in (red, green, blue)), alpha=float(alpha)))
    for text in axes.texts:
        elements.append(dict(kind='text', points=[tuple(float(x) for x in text.get_position())], text=text.get_text()))
    return elements


# -------------------------------------------------------------------- comparison

PRECISION = {'svg': 1e-6, 'tex': .00501, 'pdf': 1e-3, 'dxf': 1e-6, 'plot': 1e-6}


def expected_style(fmt, style, colour, width):
    if fmt == 'svg':
        return {'dash': SVG_DASH[style], 'colour': rgb(colour), 'width': float(width)}
    if fmt == 'tex':
        return {'dash': TEX_DASH[style], 'colour': rgb(colour), 'width': float(width)}
    if fmt == 'dxf':
        return {'line': DXF_LINE[style], 'colour': rgb(colour)}
    if fmt == 'plot':
        return {'colour': rgb(colour), 'width': float(width), 'alpha': 1.0}
    return {}


def expected(fmt, drawing):
    """drawing: [(kind, points, (style, colour, width) or None, text)] in painting order."""
    elements = []
    for kind, points, style, text in drawing:
        if kind == 'circle' and fmt == 'dxf':
            continue    # a point is not drawn, by design
        element = {'kind': kind, 'points': points}
        if kind == 'text':
            element['text'] = text
        elif kind != 'circle' and style[0] != 'NoPen':
            element.update(expected_style(fmt, *style))
        elements.append(element)
    return elements


def compare(ctx, fmt, got, drawing, where):
    elements = expected(fmt, drawing)
    ctx.check(len(got) == len(elements), 'number-of-items', lambda: '{}: {} items instead of {}:\n{}\n{}'.format(
        where, len(got), len(elements), got, elements))
    precision = PRECISION[fmt]
    for g, e in zip(got, elements):
        ctx.check(g['kind'] == e['kind'], 'order', lambda: '{}: {} instead of {}'.format(where, g, e))
        ctx.check(len(g['points']) == len(e['points']) and all(
            abs(a - b) <= precision for p, q in zip(g['points'], e['points']) for a, b in zip(p, q)),
            'position', lambda: '{}: {} instead of {}'.format(where, g, e))
        for key in e:
            if key not in ('kind', 'points'):
                ctx.check(g.get(key) == e[key], key, lambda: '{}: {} instead of {}'.format(where, g, e))
