"""C21: reading an SVG document gives its items with their states, or fails; readings are independent."""

import copy
import math
import os
import re

from sim import core, sched, seams, simfs
from sim.core import Violation
from sim.faults import ASYNC, interruptible
from world import shapes, svgdoc
from world.paths import Model, Part
from world.shapes import close, coordinate, matrix, similarity

ID = 'C21'
GROUPS = ['core', 'scene', 'painter']
LEVEL = 'exploration'
QUICK = {'runs': 5000, 'seconds': 90}
THOROUGH = {'runs': 400000, 'seconds': 700}
RULE = ('a run draws documents (nested groups with transformations, attributes and styles, items, comments, elements to '
        'skip, any spelling of numbers, lists, transformations and path data) and a history: readings from a file or from '
        'data, with disk errors, truncated and malformed files, interrupts, callbacks which raise or read another document, reading '
        'threads, callers who change what they got, documents which Patro writes; each reading must give the items, states '
        'and geometry of an independent model, and keep them; non-trivial: a fault, a change or threads; distinct: another '
        'history of documents')
REAL = ['Patro.FileFormat.Svg', 'Patro.Common.Xml', 'Patro.GeometryEngine.Path', 'Patro.GeometryEngine.Transformation',
        'lxml']
STUB = ['disk (real scratch directory behind an interposed system call layer)', 'asynchronous exceptions',
        'thread scheduler']
ASSUMPTIONS = ['paths have one subpath, without elliptical arcs and smooth curves, no skew, no inherit',
               'items within other elements than groups are skipped']

ERRORS = ('EIO', 'EACCES', 'EMFILE', 'short')

MALFORMED = [('d', text) for text in (
    'M 0 0 z 5', 'M 0 0 h 3 Z 5 6', 'M 0', 'L 0 0', '1 2 3 4', 'M 0 0 L 1', 'M 0 0 X 2', 'M 0 0 # 4', 'M 0 0 C 1 2 3 4',
    'M 0 0 h', 'M 0 0 h 1 v', 'M 0 0 L 1 2 3', 'M 0 0 q 1 2 3 L 4 5', 'M 0 0 l 1 l 2', 'M 0 0 h 1;2', 'M 0 0 h 1..2.. v')]
MALFORMED += [('transform', text) for text in (
    'rotate(', 'turn(3)', 'translate(a)', 'scale()', 'translate(1 2) x', 'matrix(1 2 3)', '(1)', 'rotate 3', 'rotate)')]
MALFORMED += [('x1', 'far'), ('stroke-width', 'wide'), ('stroke-miterlimit', 'sharp'), ('stroke-dasharray', 'a b'),
              ('viewBox', '1 2 3'), ('viewBox', 'all')]


class CallerError(Exception):
    pass


_reader = None


def reader_class():
    global _reader
    if _reader is None:
        from Patro.FileFormat.Svg.SvgFile import SvgFileInternal

        class Reader(SvgFileInternal):

            def __init__(self, path, data=None, on_item=None, verbose=False):
                self.found = []
                self.on_item = on_item
                self.verbose = verbose
                super().__init__(path, data)

            def on_group(self, group):
                if self.verbose:
                    super().on_group(group)
                self.found.append((group, None))

            def on_graphic_item(self, item):
                if self.verbose:
                    super().on_graphic_item(item)
                self.found.append((item, core.part(self, '_dispatcher', 'SvgDispatcher').state.clone().merge(item)))
                if self.on_item is not None:
                    self.on_item(self)
        _reader = Reader
    return _reader


class File:

    def __init__(self, name, path, source, expected, box, size):
        self.name, self.path, self.source = name, path, source
        self.expected, self.box, self.size = expected, box, size
        self.lines = None


class World:

    def __init__(self, ctx, root):
        self.ctx, self.ch, self.root = ctx, ctx.ch, root
        self.lib = shapes.Library()
        self.files = []
        self.alive = []        # (file, reader) of the readings which are kept
        self.count = 0

    def edit_file(self):
        """The author of a document renames its items, the file has the same size."""
        ch = self.ch
        i = ch.draw(len(self.files))
        old = self.files[i]
        prefix = re.match('[a-z]+[0-9]+', old.name, re.I).group()
        new = prefix.swapcase()
        source = re.sub(b'(?<=["\'])' + prefix.encode() + b'(?=[^0-9])', new.encode(), old.source)
        expected = []
        for e in old.expected:
            e = copy.copy(e)
            if e.name is not None:
                e.name = e.name.replace(prefix, new)
            expected.append(e)
        self.files[i] = file = File(new, old.path, source, expected, old.box, old.size)
        with simfs.paused(), open(file.path, 'wb') as fh:
            fh.write(source)
        self.ctx.event('edited', old.name, new, self.ctx_hash(source))
        self.ctx.sig('edited', self.ctx_hash(source))
        self.ctx.probe('edited')

    def new_file(self):
        self.count += 1
        name = 'd{}'.format(self.count)
        document = svgdoc.Document(self.ch, name)
        path = os.path.join(self.root, name + '.svg')
        again = self.files and self.ch.chance(50)
        if again:
            # the document is saved again by its author
            old = self.ch.pick(self.files)
            path = old.path
            self.files.remove(old)
            self.ctx.probe('written again')
        file = File(name, path, document.source(), document.expected(), document.box, document.size)
        with simfs.paused(), open(path, 'wb') as fh:
            fh.write(file.source)
        if len(self.files) >= 4:
            self.files.pop(0)
        self.files.append(file)
        self.ctx.event('document', name, bool(again), self.ctx_hash(file.source))
        self.ctx.sig('document', bool(again), self.ctx_hash(file.source))

    @staticmethod
    def ctx_hash(source):
        import hashlib
        return hashlib.sha256(source).hexdigest()[:12]

    def write_document(self):
        """A document which Patro writes."""
        from Patro.FileFormat.Svg import SvgFormat
        from Patro.FileFormat.Svg.SvgFile import SvgFileWriter
        from Patro.GraphicEngine.Painter.Paper import PaperSize
        ch = self.ch
        self.count += 1
        name = 'w{}'.format(self.count)
        path = os.path.join(self.root, name + '.svg')
        paper = PaperSize(ch.pick(['A4', 'A3', 'A0']), ch.pick(['portrait', 'landscape']), 10)
        outer = None
        if ch.chance(50):
            outer = shapes.draw_spec(ch)
            while 'affine' not in outer[0] and outer[0] not in ('translation', 'rotation-at', 'screen'):
                outer = shapes.draw_spec(ch)
        outer_matrix = matrix(outer) if outer else svgdoc.IDENTITY
        expected, tree = [], []
        if outer:
            expected.append(svgdoc.Expected(svgdoc.Node('g', None), None, None))
        for i in range(ch.int(1, 4)):
            tag = ch.pick(['line', 'rect', 'circle', 'ellipse', 'polygon', 'path'])
            node = svgdoc.draw_node(ch, 'line', '{}-{}'.format(name, i))   # only for the properties
            node = svgdoc.Node(tag, node.name)
            kwargs = {'id': node.name}
            for key in sorted(svgdoc.ITEM):
                if ch.chance(25) and key not in ('stroke-dasharray', 'stroke-miterlimit'):
                    node.properties[key.replace('-', '_')] = kwargs[key.replace('-', '_')] = ch.pick(svgdoc.ITEM[key])
            if ch.chance(30):
                kwargs['stroke_dasharray'] = [4.0, 1.5]
                node.properties['stroke_dasharray'] = '4 1.5'
            inner = svgdoc.IDENTITY
            if ch.chance(40):
                spec = None
                while spec is None or ('affine' not in spec[0] and spec[0] not in ('translation', 'rotation-at')):
                    spec = shapes.draw_spec(ch)
                kwargs['transform'] = self.lib.transformation(spec)
                inner = matrix(spec)
            if tag == 'path':
                points = [(coordinate(ch), coordinate(ch)) for _ in range(5)]
                node.path = Model(points[0])
                node.path.parts = [Part('cubic', 'absolute', tuple(points[1:4])), Part('line', 'absolute', (points[4],))]
                flat = lambda *p: [x for q in p for x in q]
                kwargs['path_data'] = [('M', flat(points[0])), ('C', flat(*points[1:4])), ('L', flat(points[4]))]
            elif tag == 'polygon':
                kwargs['points'] = node.values['points'] = '0,0 1,2 3,4'
            else:
                names = {'line': ('x1', 'y1', 'x2', 'y2'), 'rect': ('x', 'y'), 'circle': ('cx', 'cy'),
                         'ellipse': ('cx', 'cy')}[tag]
                node.values = {n: coordinate(ch) for n in names}
                node.values.update({'rect': {'width': 4.5, 'height': 7.25}, 'circle': {'r': 2.5},
                                    'ellipse': {'rx': 3.5, 'ry': 1.25}}.get(tag, {}))
                kwargs.update(node.values)
            cls = {'path': SvgFormat.Path, 'polygon': SvgFormat.Polygon, 'line': SvgFormat.Line, 'rect': SvgFormat.Rect,
                   'circle': SvgFormat.Circle, 'ellipse': SvgFormat.Ellipse}[tag]
            tree.append(cls(**kwargs))
            expected.append(svgdoc.Expected(node, shapes.product(outer_matrix, inner), node.properties))
        with simfs.paused():
            SvgFileWriter(path, paper, tree, self.lib.transformation(outer) if outer else None)
            with open(path, 'rb') as fh:
                source = fh.read()
        size = ('{:.3f}mm'.format(paper.width), '{:.3f}mm'.format(paper.height))
        file = File(name, path, source, expected, (0, 0, float(paper.width), float(paper.height)), size)
        self.files.append(file)
        self.ctx.event('written document', name, self.ctx_hash(source))
        self.ctx.sig('written', self.ctx_hash(source))
        self.ctx.probe('written')

    # ---------------------------------------------------------------- oracle

    def judge(self, file, reader, where):
        ctx = self.ctx
        found = reader.found
        names = [getattr(item, 'id', None) for item, _ in found]
        wanted = [e.name for e in file.expected]
        if names != wanted:
            raise Violation('items', '{}: {} got {}, expected {}'.format(where, file.name, names, wanted))
        box = reader.view_box
        x, y, w, h = file.box
        got = (float(box.x.inf), float(box.y.inf), float(box.x.sup), float(box.y.sup))
        if not all(close(a, b, 1e-3) for a, b in zip(got, (x, y, x + w, y + h))):
            raise Violation('view-box', '{}: {} got {}, expected {}'.format(where, file.name, got, file.box))
        ctx.equal((str(reader.width), str(reader.height)), tuple(file.size), 'size', where)
        for (item, state), expected in zip(found, file.expected):
            ctx.equal(type(item).__name__.lower(), {'g': 'group'}.get(expected.tag, expected.tag), 'class', where)
            if expected.matrix is not None:
                self.judge_item(file, item, state, expected, where)
        ctx.step()

    def judge_item(self, file, item, state, expected, where):
        label = lambda: '{}: {} of {}'.format(where, expected.name, file.path if file.path else file.name)
        for name, wanted in expected.state.items():
            got = svgdoc.value(name, getattr(state, name))
            if got != wanted:
                raise Violation('state', '{}: {} is {!r}, expected {!r}'.format(label(), name, got, wanted))
        m = [float(x) for x in state.transform.array.flat]
        a, b, c, d, e, f = expected.matrix
        exact = (a, b, e, c, d, f, 0, 0, 1)
        if not all(abs(p - q) <= 1e-7 * max(1, abs(q)) for p, q in zip(m, exact)):
            raise Violation('transform', '{}: got {}, expected {}'.format(label(), m, exact))
        for name, wanted in expected.node.values.items():
            got = getattr(item, name)
            ok = got == wanted if isinstance(wanted, str) else got is not None and close(float(got), wanted, 1e-4)
            if not ok:
                raise Violation('value', '{}: {} is {!r}, expected {!r}'.format(label(), name, got, wanted))
        model = expected.geometry()
        if model is None:
            return
        path = item.path_data if expected.tag == 'path' else item.geometry
        path = path.transform(state.transform, clone=True)
        chains = model.chains()
        if len(path) != len(chains) or bool(path.is_closed) != model.closed:
            raise Violation('path', '{}: {} parts, expected {}'.format(label(), len(path), len(chains)))
        for i, (part, chain) in enumerate(zip(path, chains)):
            wanted = model.drawn(i, chains)
            got = [(float(p.x), float(p.y)) for p in part.points]
            scale = max([1] + [abs(x) for p in wanted for x in p])
            if len(got) != len(wanted) or not all(
                    abs(x - y) <= 2e-4 * scale for p, q in zip(got, wanted) for x, y in zip(p, q)):
                raise Violation('geometry', '{}: part {} got {}, expected {}'.format(label(), i, got, wanted))

    def judge_alive(self, where):
        for file, reader in self.alive:
            self.judge(file, reader, 'kept reading, ' + where)

    # ---------------------------------------------------------------- actions

    def open(self, file, how, **kwargs):
        cls = reader_class()
        if how == 'data':
            return cls(None, data=file.source, **kwargs)
        if how == 'text':
            return cls(None, data='\n' + file.source.decode('utf-8') + '\n', **kwargs)
        return cls(file.path, **kwargs)

    def draw_how(self, file):
        hows = ['file', 'file', 'data']
        if b'utf-8' in file.source[:60]:
            hows.append('text')
        return self.ch.pick(hows)

    def keep(self, file, reader):
        self.alive.append((file, reader))
        if len(self.alive) > 3:
            self.alive.pop(self.ch.draw(len(self.alive)))

    def read(self):
        file = self.ch.pick(self.files)
        how = self.draw_how(file)
        verbose = self.ch.chance(20)
        self.ctx.event('read', file.name, how)
        self.ctx.sig('read', file.name, how)
        reader = self.open(file, how, verbose=verbose)
        self.judge(file, reader, 'read')
        self.keep(file, reader)
        if verbose and how == 'file':
            from Patro.FileFormat.Svg.SvgFile import SvgFile
            SvgFile(file.path)

    def failing_read(self):
        ctx, ch, fs = self.ctx, self.ch, self.fs
        file = ch.pick(self.files)
        failure = ch.pick(['errors', 'interrupt', 'truncated', 'missing', 'caller', 'caller'])
        before = fs.hard_faults
        must_fail = False
        fault = CallerError('stop')
        found = []
        result = []
        work = lambda: result.append(self.open(file, 'file', on_item=lambda reader: found.append(reader)))
        position = 0
        if failure == 'errors':
            fs.plan(ch.subset(ERRORS, 70) or ['EIO'], gap_max=ch.pick([2, 4]), faults=ch.int(1, 2))
        elif failure == 'interrupt':
            if file.lines is None:
                file.lines = interruptible(ctx, work, 0)
                result.clear()
                found.clear()
            position = ch.int(1, file.lines + 5)
        elif failure == 'truncated':
            position = ch.draw(len(file.source))
            must_fail = bool(file.source[position:].strip())
            with simfs.paused(), open(file.path, 'wb') as fh:
                fh.write(file.source[:position])
            ctx.fault('truncated-file')
        elif failure == 'missing':
            with simfs.paused():
                os.rename(file.path, file.path + '.away')
            must_fail = True
            ctx.fault('missing-file')
        else:
            items = sum(1 for e in file.expected if e.matrix is not None)
            position = ch.int(1, max(1, items))
            must_fail = items > 0

            def on_item(reader):
                found.append(reader)
                if len(found) == position:
                    ctx.fault('caller-raises')
                    raise fault

            work = lambda: result.append(self.open(file, 'file', on_item=on_item))
        error = None
        try:
            if failure == 'interrupt':
                interruptible(ctx, work, position)
            else:
                work()
        except Violation:
            raise
        except ASYNC as e:
            error = e
            result.clear()
        except Exception as e:
            error = e
            known = must_fail or fs.hard_faults > before
            ctx.check(known, 'unexpected-exception', lambda: '{}: {!r}'.format(failure, e))
            if failure == 'caller':
                ctx.check(e is fault, 'error-replaced', repr(e))
        finally:
            fs.stop_faults()
            with simfs.paused():
                if failure == 'truncated':
                    with open(file.path, 'wb') as fh:
                        fh.write(file.source)
                elif failure == 'missing':
                    os.rename(file.path + '.away', file.path)
        where = '{} read of {} at {}'.format(failure, file.name, position)
        ctx.event('failing read', file.name, failure, position, type(error).__name__ if error else 'ok')
        ctx.sig('failing', file.name, failure, position)
        ctx.nontrivial = True
        if error is None:
            ctx.check(not must_fail, 'damaged-file-accepted', where)
            self.judge(file, result[0], where)
        elif failure in ('truncated', 'missing'):
            ctx.check(not found, 'items-of-a-damaged-file', where)
        if ch.chance(60):
            again = self.open(file, 'file')
            self.judge(file, again, 'after ' + where)
            self.keep(file, again)

    def malformed_read(self):
        """An attribute which is no SVG: the reading fails, in a bounded time."""
        ctx, ch = self.ctx, self.ch
        attribute, text = ch.pick(MALFORMED)
        document = svgdoc.Document(ch, 'malformed')
        nodes = []

        def collect(node):
            for child in node.children:
                if child.tag in ('path', 'g', 'line', 'rect'):
                    nodes.append(child)
                collect(child)

        collect(document.root)
        nodes = [n for n in nodes if (attribute != 'd' or n.tag == 'path') and (attribute != 'x1' or n.tag == 'line')]
        if attribute == 'viewBox':
            document.box_text = text
        elif not nodes:
            return
        else:
            ch.pick(nodes).attributes[attribute] = text
        document.text = document.write(ch)
        source = document.source()
        ctx.event('malformed', attribute, text, self.ctx_hash(source))
        ctx.sig('malformed', attribute, text, self.ctx_hash(source))
        ctx.fault('malformed-file')
        try:
            interruptible(ctx, lambda: reader_class()(None, data=source), 300000, switches=False)
        except ASYNC:
            raise Violation('no-end', '{}="{}"'.format(attribute, text))
        except Exception:
            return
        raise Violation('malformed-accepted', '{}="{}"'.format(attribute, text))

    def nested_read(self):
        """A callback which reads another document."""
        ctx, ch = self.ctx, self.ch
        file, other = ch.pick(self.files), ch.pick(self.files)
        at = ch.int(1, 4)
        inner = []
        count = [0]

        def on_item(reader):
            count[0] += 1
            if count[0] == at:
                inner.append(self.open(other, 'data'))

        ctx.event('nested read', file.name, other.name, at)
        ctx.sig('nested', file.name, other.name, at)
        reader = self.open(file, 'file', on_item=on_item)
        self.judge(file, reader, 'outer')
        for r in inner:
            ctx.nontrivial = True
            ctx.probe('nested')
            self.judge(other, r, 'inner')
            self.keep(other, r)

    def change(self):
        """A caller changes what a reading gave."""
        ctx, ch = self.ctx, self.ch
        if not self.alive:
            return
        i = ch.draw(len(self.alive))
        file, reader = self.alive[i]
        entries = [k for k, (item, state) in enumerate(reader.found) if state is not None]
        if not entries:
            return
        k = ch.pick(entries)
        item, state = reader.found[k]
        what = ch.pick(['transform', 'transform', 'multiply', 'path', 'state', 'item'])
        if what == 'transform':
            # in place, as the user of a transformation does
            state.transform *= self.lib.transformation(('affine-stretch', 2, -1.5))
        elif what == 'multiply':
            state.transform.array[...] = 7
        elif what == 'path':
            path = getattr(item, 'path_data', None)
            if path is None:
                return
            path.transform(self.lib.transformation(('affine-scale', 3)), clone=False)
        elif what == 'state':
            state.stroke, state.stroke_width, state.fill_rule = 'changed', 99, 'changed'
        else:
            item.id, item.stroke, item.stroke_width, item.style = 'changed', 'changed', 99, 'stroke:changed'
        ctx.event('change', file.name, k, what)
        ctx.sig('change', file.name, k, what)
        ctx.nontrivial = True
        ctx.fault('caller-changes')
        # the other items are as they were
        expected = [e for j, e in enumerate(file.expected) if j != k]
        rest = File(file.name, None, None, expected, file.box, file.size)
        other = Rest(reader, k)
        self.alive.pop(i)
        if getattr(reader, 'path', None) is None or True:
            self.alive.append((rest, other))

    def threads(self):
        ctx, ch = self.ctx, self.ch
        jobs = [(file, self.draw_how(file)) for file in (ch.pick(self.files) for _ in range(ch.int(2, 3)))]
        results = {}

        def work(i, file, how):
            results[i] = self.open(file, how)

        scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20, 60), max_preemptions=60)
        threads = [scheduler.spawn(work, i, file, how) for i, (file, how) in enumerate(jobs)]
        ctx.event('threads', [(f.name, how) for f, how in jobs])
        ctx.sig('threads', [(f.name, how) for f, how in jobs])
        scheduler.run()
        for thread in threads:
            if thread.exception is not None:
                raise Violation('thread-raises', thread.traceback)
        for i, (file, how) in enumerate(jobs):
            self.judge(file, results[i], 'threads')
        self.keep(jobs[0][0], results[0])
        ctx.nontrivial = True


class Rest:
    """A reading without one item."""

    def __init__(self, reader, k):
        self.found = [x for j, x in enumerate(reader.found) if j != k]
        self.view_box, self.width, self.height = reader.view_box, reader.width, reader.height


def run(ctx):
    ch = ctx.ch
    root = ctx.scratch()
    world = World(ctx, root)
    fs = world.fs = simfs.SimFS(ctx, root)
    with simfs.active(fs):
        for _ in range(ch.int(1, 2)):
            world.new_file()
        for _ in range(ch.int(2, 9)):
            action = ch.weighted([(5, 'read'), (4, 'failing_read'), (2, 'new_file'), (2, 'edit_file'), (2, 'write_document'),
                                  (2, 'nested_read'), (1, 'malformed_read'), (4, 'change'), (1, 'threads')])
            getattr(world, action)()
            with simfs.paused():
                world.judge_alive(action)
        ctx.check(not fs.refused, 'written-elsewhere', fs.refused)
    ctx.sample = {'documents': [(f.name, len(f.expected)) for f in world.files]}
