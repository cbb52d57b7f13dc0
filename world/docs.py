"""Documents written by the code under test, and independent readers for them.

A reader gives the content in a canonical form (no time stamps, no generated identifiers), or raises
Corrupt when the file is not a complete document.
"""

import base64
import json
import re
import zlib

from sim import core


class Corrupt(Exception):
    pass


# -------------------------------------------------------------------- readers

def read_xml(data):
    from lxml import etree
    try:
        root = etree.fromstring(data)
    except etree.XMLSyntaxError as error:
        raise Corrupt('XML: {}'.format(error))

    def canonical(element):
        if not isinstance(element.tag, str):
            return ('#comment',)
        return (element.tag.split('}')[-1], tuple(sorted(element.attrib.items())), (element.text or '').strip(),
                tuple(canonical(child) for child in element))
    return canonical(root)


def read_yaml(data):
    import yaml
    try:
        content = yaml.safe_load(data.decode('utf8'))
    except (yaml.YAMLError, UnicodeDecodeError) as error:
        raise Corrupt('YAML: {}'.format(error))
    if not isinstance(content, dict):
        raise Corrupt('YAML: not a mapping')
    return json.dumps(content, sort_keys=False, default=str)


def read_tex(data):
    try:
        text = data.decode('utf8')
    except UnicodeDecodeError as error:
        raise Corrupt('TeX: {}'.format(error))
    if not text.rstrip().endswith(r'\end{document}') or r'\begin{document}' not in text:
        raise Corrupt('TeX: not a complete document')
    if text.count(r'\begin{tikzpicture}') != text.count(r'\end{tikzpicture}'):
        raise Corrupt('TeX: unbalanced figures')
    return tuple(line.strip() for line in text.splitlines() if line.strip() and not line.strip().startswith('%'))


def pdf_streams(data):
    if not data.startswith(b'%PDF-') or not data.rstrip().endswith(b'%%EOF'):
        raise Corrupt('PDF: not a complete document')
    match = re.search(rb'startxref\s+(\d+)\s+%%EOF\s*$', data)
    if match is None or not data[int(match.group(1)):].lstrip().startswith(b'xref'):
        raise Corrupt('PDF: no cross reference table')
    streams = []
    for match in re.finditer(rb'<<(?:[^<>]|<<[^<>]*>>)*>>\s*stream\r?\n(.*?)\r?\n?endstream', data, re.DOTALL):
        header = match.group(0).split(b'stream')[0]
        body = match.group(1)
        try:
            if b'ASCII85Decode' in header:
                body = base64.a85decode(body.strip().removesuffix(b'~>'))
            if b'FlateDecode' in header:
                body = zlib.decompress(body)
        except (ValueError, zlib.error) as error:
            raise Corrupt('PDF: {}'.format(error))
        streams.append(body.decode('latin1'))
    if not streams:
        raise Corrupt('PDF: no page')
    return streams


def read_pdf(data):
    return tuple(pdf_streams(data))


def read_dxf(data):
    import ezdxf
    import io
    try:
        text = data.decode('utf8')
    except UnicodeDecodeError as error:
        raise Corrupt('DXF: {}'.format(error))
    if not text.rstrip().endswith('EOF'):
        raise Corrupt('DXF: not a complete document')
    try:
        drawing = ezdxf.read(io.StringIO(text))
    except Exception as error:
        raise Corrupt('DXF: {}: {}'.format(type(error).__name__, error))
    return tuple(dxf_entities(drawing))


def dxf_entities(drawing):
    for entity in drawing.modelspace():
        kind = entity.dxftype()
        style = (entity.dxf.get('linetype', None), entity.dxf.get('color', None), entity.dxf.get('true_color', None))
        if kind == 'LINE':
            yield (kind, tuple(entity.dxf.start), tuple(entity.dxf.end), style)
        elif kind == 'SPLINE':
            yield (kind, tuple(tuple(float(x) for x in p) for p in entity.control_points), entity.dxf.degree, style)
        elif kind == 'TEXT':
            placement = entity.get_placement()
            yield (kind, entity.dxf.text, tuple(placement[1]) if placement[1] is not None else None, style)
        else:
            yield (kind, style)


READERS = {'val': read_xml, 'vit': read_xml, 'svg': read_xml, 'yaml': read_yaml, 'tex': read_tex, 'tiled': read_tex,
           'pdf': read_pdf, 'dxf': read_dxf, 'texdoc': read_tex, 'svgtree': read_xml}
SUFFIX = {'val': '.val', 'svg': '.svg', 'yaml': '.yaml', 'tex': '.tex', 'tiled': '.tex', 'pdf': '.pdf', 'dxf': '.dxf',
          'texdoc': '.tex', 'svgtree': '.svg'}


def read(kind, path):
    with open(path, 'rb') as fh:
        data = fh.read()
    return READERS[kind](data)


# -------------------------------------------------------------------- scenes for the exports

def generate_scene(ch, marker, items=(1, 6)):
    """A drawing as plain data: [(kind, ...)] in cm."""
    drawing = []
    for i in range(ch.int(*items)):
        kind = ch.pick(['segment', 'text', 'circle', 'cubic'])
        p = [(ch.decimal(0, 15), ch.decimal(0, 15)) for _ in range({'segment': 2, 'cubic': 4}.get(kind, 1))]
        if kind == 'segment' and p[0] == p[1]:
            p[1] = (p[0][0] + 1, p[0][1])
        style = (ch.pick(STYLES), ch.pick(COLOURS))
        drawing.append((kind, p, style, 't{}'.format(i)))
    drawing.append(('text', [(1.0, 1.0)], ('SolidLine', 'black'), marker))
    return drawing


STYLES = ('SolidLine', 'DashLine', 'DotLine', 'DashDotLine', 'DashDotDotLine')
COLOURS = ('black', 'red', 'blue', 'green', 'orange')


def build_scene(drawing):
    from IntervalArithmetic import Interval2D
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicPathStyle
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
    from Patro.GraphicStyle import Colors, StrokeStyle
    scene = GraphicScene()
    for kind, points, (style, colour), text in drawing:
        v = [Vector2D(*p) for p in points]
        path_style = GraphicPathStyle(stroke_style=getattr(StrokeStyle, style), stroke_color=Colors[colour])
        if kind == 'segment':
            scene.segment(*v, path_style, user_data=None)
        elif kind == 'cubic':
            scene.cubic_bezier(*v, path_style, user_data=None)
        elif kind == 'circle':
            scene.circle(v[0], '1pt', path_style, user_data=None)
        else:
            scene.text(v[0], text, Font('', 16), user_data=None)
    scene.bounding_box = Interval2D((0, 15), (0, 15))
    return scene


# -------------------------------------------------------------------- documents

class Document:
    """Something which can be saved, as plain data until `build` is called."""

    def __init__(self, kind, model, marker):
        self.kind = kind
        self.model = model
        self.marker = marker

    @property
    def suffix(self):
        return SUFFIX[self.kind]

    def __repr__(self):
        return '{}#{}'.format(self.kind, self.marker)


def generate(ch, kind, marker):
    if kind == 'val':
        from . import patmodel
        model = patmodel.generate_pattern(ch, {}, (1, 2), (1, 6), unit='cm')
        model.scopes[0].name = marker
    elif kind == 'yaml':
        model = [(marker, '1')]
        for i in range(ch.int(0, 20)):
            model.append(('m{}'.format(i), ch.pick(['{}', '{}*2', 'm0 + {}' if i else '{}']).format(ch.decimal(1, 99))))
    elif kind == 'texdoc':
        model = [marker] + ['line {}'.format(ch.draw(1000)) for _ in range(ch.int(0, 20))]
    elif kind == 'svgtree':
        model = [('text', marker, 1.0, 2.0)]
        for i in range(ch.int(0, 10)):
            model.append((ch.pick(['text', 'line']), 'i{}'.format(i), ch.decimal(0, 99), ch.decimal(0, 99)))
        model.append(('matrix', None if ch.chance(50) else [ch.decimal(1, 3), 0, ch.decimal(0, 9), 0, ch.decimal(1, 3), 5]))
    else:
        model = generate_scene(ch, marker, (1, ch.pick([3, 8, 30])))
    return Document(kind, model, marker)


def build(document, ch):
    """The object of the code under test to be saved."""
    if document.kind == 'val':
        from . import patmodel
        return patmodel.Real().build(ch, document.model, None)
    if document.kind == 'yaml':
        from Patro.Measurement.Measurement import MeasurementSet
        measurements = MeasurementSet()
        for name, value in document.model:
            measurements.add(name, value)
        return measurements
    if document.kind == 'texdoc':
        return TexDocuments(document.model)
    if document.kind == 'svgtree':
        return SvgTree(document.model)
    return build_scene(document.model)


class TexDocuments:
    """The same LaTeX document for several paths: a document is bound to its path, and can be written again."""

    def __init__(self, lines):
        self.lines = lines
        self.documents = {}

    def write(self, path):
        from Patro.GraphicEngine.TeX.Document import Document as TexDocument
        if path not in self.documents:
            document = TexDocument(path, 'article', '12pt')
            document.preambule.append(r'\usepackage{tikz}' + '\n')
            document.content.append([line + '\n' for line in self.lines])
            self.documents[path] = document
        self.documents[path].write()

    def snapshot(self):
        return sorted({str(document) for document in self.documents.values()})


class SvgTree:
    """SVG elements, written by the writer of Patro."""

    def __init__(self, model):
        from Patro.FileFormat.Svg import SvgFormat
        from Patro.GeometryEngine.Transformation import AffineTransformation2D
        self.tree = []
        self.transformation = None
        for kind, *data in model:
            if kind == 'text':
                self.tree.append(SvgFormat.Text(text=data[0], x=data[1], y=data[2], fill='black'))
            elif kind == 'line':
                self.tree.append(SvgFormat.Line(id=data[0], x1=0, y1=1, x2=data[1], y2=data[2], stroke='red'))
            elif data[0] is not None:
                a = data[0]
                self.transformation = AffineTransformation2D([*a, 0, 0, 1])

    def write(self, path):
        from Patro.FileFormat.Svg.SvgFile import SvgFileWriter
        from Patro.GraphicEngine.Painter.Paper import PaperSize
        SvgFileWriter(path, PaperSize('a4', 'portrait', 10), self.tree, self.transformation)

    def snapshot(self):
        return [element.to_xml_string() for element in self.tree], repr(self.transformation)


def save(document, obj, path):
    """The call of a user who saves the object."""
    kind = document.kind
    if kind == 'val':
        from Patro.FileFormat.Valentina.Pattern import ValFileWriter
        ValFileWriter(path, None, obj)
        return
    if kind == 'yaml':
        obj.save_as_yaml(path)
        return
    if kind in ('texdoc', 'svgtree'):
        obj.write(path)
        return
    from Patro.GraphicEngine.Painter.Paper import PaperSize
    if kind == 'svg':
        from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
        SvgPainter(path, obj, PaperSize('a3', 'portrait', 10))
    elif kind in ('tex', 'tiled'):
        from Patro.GraphicEngine.Painter.TexPainter import TexPainter
        painter = TexPainter(path, obj, PaperSize('a4', 'portrait', 10))
        if kind == 'tex':
            painter.add_detail_figure()
        else:
            painter.add_tiled_detail_figure()
        core.part(painter, '_document', 'Document').write()
    elif kind == 'pdf':
        from Patro.GraphicEngine.Painter.PdfPainter import PdfPainter
        PdfPainter(path, obj, PaperSize('a3', 'portrait', 10))
    elif kind == 'dxf':
        from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
        DxfPainter(path, obj, PaperSize('a3', 'portrait', 10))
    else:
        raise ValueError(kind)


def load(document, path):
    """The reader of the code under test, when there is one; returns an object or raises."""
    if document.kind == 'val':
        from Patro.FileFormat.Valentina.Pattern import ValFileReader
        return ValFileReader(path)
    if document.kind == 'yaml':
        from Patro.Measurement.Measurement import MeasurementSet
        measurements = MeasurementSet()
        measurements.load_yaml(path)
        return measurements
    if document.kind == 'svg':
        from Patro.FileFormat.Svg.SvgFile import SvgFileInternal
        return SvgFileInternal(path)
    return None


def snapshot(document, obj):
    """The state of the object in memory, as plain data."""
    if document.kind == 'val':
        from . import patmodel
        real = patmodel.Real()
        dump = real.dump_pattern(obj)
        dag = [sorted((op.id, tuple(sorted(d.id for d in op.dependencies))) for op in scope.sketch.operations)
               for scope in obj.scopes]
        return dump, dag
    if document.kind == 'yaml':
        return sorted((m.name, str(m.expression), float(m.value), m.full_name, m.description) for m in obj)
    if document.kind in ('texdoc', 'svgtree'):
        return obj.snapshot()
    return scene_snapshot(obj)


def scene_snapshot(scene):
    items = []
    for item in scene:
        style = getattr(item, 'path_style', None)
        items.append((type(item).__name__, position_data(item.positions), z_data(item.z_value), bool(item.visible),
                      bool(item.selected), style_data(style), getattr(item, 'text', None), repr(item.user_data)))
    coordinates = [(c.name, position_data([c.position])) for c in scene.coordinates]
    box = scene.bounding_box
    return items, coordinates, box_data(box)


def z_data(z):
    return float(z)


def position_data(positions):
    if isinstance(positions, str) or hasattr(positions, 'x'):
        positions = [positions]     # an item having a single position
    return tuple(p if isinstance(p, str) else (float(p.x), float(p.y)) for p in positions)


def style_data(style):
    if style is None:
        return None
    return (str(style.stroke_style), str(style.stroke_color), str(style.line_width))


def box_data(box):
    if box is None:
        return None
    return tuple(float(v) for v in (box.x.inf, box.x.sup, box.y.inf, box.y.sup))
