"""C15: an export changes nothing but its file, and gives the same each time."""

import os
import re

from sim import sched, seams, simfs
from sim.core import Violation
from sim.faults import ASYNC, interruptible
from world import docs, drawing, exports

ID = 'C15'
GROUPS = ['core', 'measurement', 'pattern', 'scene', 'painter']
LEVEL = 'exploration'
QUICK = {'runs': 2000, 'seconds': 80}
THOROUGH = {'runs': 400000, 'seconds': 800}
RULE = ('a run draws one to three drawings (free ones, or detail scenes of evaluated sketches) which are not edited, and a '
        'history of exports of all formats to shared paths: succeeding, with disk errors, interrupted at any line, of '
        'items which a painter does not know, several in threads, with picks, item iterators and painters which are alive '
        'meanwhile; after each step the scenes and the sketches are as at first, and each success is equal to the first '
        'export of the same drawing; non-trivial: a failed, interrupted or concurrent export before a success; distinct: '
        'another history')
REAL = ['Patro.GraphicEngine', 'Patro.Pattern', 'Patro.FileFormat.Svg', 'Patro.Common.AtomicSave', 'reportlab', 'ezdxf',
        'lxml', 'rtree']
STUB = ['disk (real scratch directory behind an interposed system call layer)', 'thread scheduler',
        'asynchronous exceptions', 'clock', 'entropy']
ASSUMPTIONS = ['dates and identifiers of PDF and DXF files are free', 'identity and caches of items are not judged, only '
               'what the API of the scene shows']

ERRORS = ('EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'short', 'torn')
FORMATS = [(3, 'svg'), (3, 'tex'), (2, 'tiled'), (3, 'pdf'), (1, 'dxf')]


def position(p):
    return p if isinstance(p, str) else tuple(float(x) for x in p)


def snapshot(scene):
    """What a user sees in a scene."""
    items = []
    for item in scene:
        d = {'class': type(item).__name__, 'id': id(item), 'visible': item.visible, 'selected': item.selected,
             'z': item.z_value, 'user_data': id(item.user_data)}
        positions = item.positions
        if isinstance(positions, str) or hasattr(positions, 'x'):
            positions = [positions]
        d['positions'] = [position(p) for p in positions]
        style = getattr(item, 'path_style', None)
        if style is not None:
            colour = style.stroke_color
            d['style'] = (str(style.stroke_style), style.line_width, colour.name, colour.red, colour.green, colour.blue)
        if hasattr(item, 'text'):
            d['text'] = item.text
        if hasattr(item, 'radius'):
            d['radius'] = item.radius
        items.append(d)
    box = scene.bounding_box
    origin = scene.cast_position(scene_vector(1, 2))
    return {'items': items, 'order': [id(item) for item in scene.z_value_iter()],
            'coordinates': {c.name: position(c.position) for c in scene.coordinates},
            'box': tuple(float(v) for v in (box.x.inf, box.x.sup, box.y.inf, box.y.sup)),
            'transformation': position(origin)}


def scene_vector(x, y):
    from Patro.GeometryEngine.Vector import Vector2D
    return Vector2D(x, y)


def content(fmt, data, box):
    """The content of a file without dates and identifiers."""
    if fmt in ('svg', 'tex', 'tiled'):
        return data
    if fmt == 'pdf':
        elements, properties = exports.pdf_elements(data, box)
        return [elements, properties, [s for s in docs.pdf_streams(data)], len(re.findall(rb'/Type\s*/Page\b', data))]
    return exports.dxf_elements(data, box)


def run(ctx):
    ch = ctx.ch
    root = ctx.scratch()
    fs = simfs.SimFS(ctx, root)
    drawings = []
    for i in range(ch.int(1, 3)):
        d = drawing.Drawing(ctx, 'd{}'.format(i))
        if ch.chance(40):
            d.from_sketch()
        else:
            d.empty()
        for _ in range(ch.int(0, 3)):
            d.edit(ch.pick(['hide', 'z']))
        if ch.chance(15):
            d.add(ch.pick(drawing.UNSUPPORTED))
        for item in d.items:
            if ch.chance(15):
                item.real.selected = True
        d.scene.update_rtree()
        drawings.append(d)
    papers = [drawing.Paper(ch) for _ in range(ch.int(1, 2))]
    first = {}      # (drawing, format, paper) -> content
    lines = {}
    perturbed = False

    with simfs.paused():
        before = [snapshot(d.scene) for d in drawings]
        sketches = [d.real.dump_sketch(d.sketch) if d.sketch else None for d in drawings]
        picks = [sorted(map(id, d.scene.item_in_bounding_box(d.box) or ())) for d in drawings]

    def unchanged(where):
        with simfs.paused():
            for d, b, s, p in zip(drawings, before, sketches, picks):
                after = snapshot(d.scene)
                for key in b:
                    ctx.check(after[key] == b[key], 'scene-changed',
                              lambda: '{}: {} of {}: {} instead of {}'.format(where, key, d.name, after[key], b[key]))
                if s is not None:
                    ctx.check(d.real.dump_sketch(d.sketch) == s, 'sketch-changed', lambda: '{}: {}'.format(where, d.name))
                ctx.check(sorted(map(id, d.scene.item_in_bounding_box(d.box) or ())) == p, 'index-changed',
                          lambda: '{}: {}'.format(where, d.name))

    def check(fmt, path, d, paper, where):
        nonlocal perturbed
        with simfs.paused():
            try:
                with open(path, 'rb') as fh:
                    data = fh.read()
            except FileNotFoundError:
                raise Violation('no-file', where)
            try:
                got = content(fmt, data, d.box)
            except docs.Corrupt as corrupt:
                raise Violation('corrupt-file', '{}: {}'.format(where, corrupt))
            key = (d.name, fmt, repr(paper))
            if key in first:
                ctx.probe('repeated-' + fmt)
                ctx.check(got == first[key], 'other-content', lambda: '{}:\n{}\ninstead of\n{}'.format(
                    where, got, first[key]))
            else:
                if fmt != 'tiled':
                    try:
                        drawing.check_export(ctx, fmt, data, d.box, d.content(), paper, where)
                    except docs.Corrupt as corrupt:
                        raise Violation('corrupt-file', '{}: {}'.format(where, corrupt))
                first[key] = got
        if perturbed:
            ctx.nontrivial = True

    def target(fmt):
        return os.path.join(root, ch.pick(['a', 'b']) + drawing.SUFFIX[fmt])

    def draw_job():
        return ch.weighted(FORMATS), ch.pick(drawings), ch.pick(papers)

    def outcome(error, fmt, path, d, paper, hard, where, old):
        nonlocal perturbed
        if error is None:
            ctx.check(d.exportable, 'item-dropped', where)
            check(fmt, path, d, paper, where)
            return
        if isinstance(error, NotImplementedError):
            ctx.check(not d.exportable, 'item-refused', where)
            ctx.fault('unsupported-item')
        elif isinstance(error, OSError):
            ctx.check(fs.hard_faults > hard, 'unexpected-oserror', repr(error))
        elif not isinstance(error, ASYNC):
            raise error
        perturbed = True

    iterators = []
    readers = 0
    with simfs.active(fs):
        for _ in range(ch.int(3, 14)):
            action = ch.weighted([(10, 'export'), (4, 'errors'), (4, 'interrupt'), (3, 'threads'), (2, 'iterator'),
                                  (1, 'detail'), (2, 'same-painter')])
            if action == 'iterator':
                # a loop over the items, in which exports are done
                d = ch.pick(drawings)
                kind = ch.pick(['items', 'z', 'coordinates'])
                source = {'items': lambda: d.scene, 'z': d.scene.z_value_iter, 'coordinates': lambda: d.scene.coordinates}
                iterator = iter(source[kind]())
                taken = []
                for _ in range(ch.int(0, 2)):
                    taken += [id(x) for _, x in zip(range(1), iterator)]
                expected = [id(x) for x in source[kind]()]
                iterators.append((kind, d, iterator, taken, expected))
                ctx.sig(action, kind, d.name)
                continue
            if action == 'detail':
                d = ch.pick(drawings)
                if d.sketch is not None:
                    # the detail scene of the same sketch is the same
                    scene = d.sketch.detail_scene()
                    again = snapshot(scene)
                    ctx.equal(len(again['items']), d.sketch_items, 'detail-scene', d.name)
                    ctx.equal(again['box'], before[drawings.index(d)]['box'], 'detail-scene', d.name)
                    ctx.equal(again['coordinates'], before[drawings.index(d)]['coordinates'], 'detail-scene', d.name)
                    unchanged('detail scene')
                continue
            if action == 'threads':
                jobs = []
                for n in range(ch.int(2, 3)):
                    fmt, d, paper = draw_job()
                    jobs.append((fmt, os.path.join(root, 't{}{}'.format(n, drawing.SUFFIX[fmt])), d, paper))
                hard = fs.hard_faults
                if ch.chance(30):
                    fs.plan(ch.subset(ERRORS, 60) or ['EIO'], gap_max=ch.pick([6, 12, 24]), faults=1, sticky=True)
                scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20, 60))
                threads = [scheduler.spawn(drawing.export, fmt, path, d.scene, paper.real())
                           for fmt, path, d, paper in jobs]
                scheduler.run()
                fs.stop_faults()
                perturbed = True
                for thread, (fmt, path, d, paper) in zip(threads, jobs):
                    where = '{} of {} in a thread'.format(fmt, d.name)
                    ctx.event('thread', where, type(thread.exception).__name__)
                    outcome(thread.exception, fmt, path, d, paper, hard, where, None)
                ctx.sig(action, *[(fmt, d.name, repr(paper)) for fmt, path, d, paper in jobs])
                unchanged('threads')
                continue
            fmt, d, paper = draw_job()
            path = target(fmt)
            ctx.sig(action, fmt, d.name, path[-5:], repr(paper))
            hard = fs.hard_faults
            error = None
            if action == 'errors':
                fs.plan(ch.subset(ERRORS, 60) or ['EIO'], gap_max=ch.pick([3, 6, 12]), faults=1, sticky=True)
            try:
                if action == 'interrupt':
                    lines[fmt] = interruptible(ctx, lambda: drawing.export(fmt, path, d.scene, paper.real()),
                                               ch.int(1, lines.get(fmt, 400)))
                elif action == 'same-painter' and fmt in ('tex', 'tiled'):
                    # a document is written twice
                    drawing.export(fmt, path, d.scene, paper.real(), writes=2)
                else:
                    drawing.export(fmt, path, d.scene, paper.real())
            except Exception as e:
                error = e
            except ASYNC as e:
                error = e
            finally:
                fs.stop_faults()
            where = '{} of {} ({}, {})'.format(fmt, d.name, action, type(error).__name__ if error else 'ok')
            ctx.event('export', where, paper)
            outcome(error, fmt, path, d, paper, hard, where, None)
            unchanged(where)
        for kind, d, iterator, taken, expected in iterators:
            try:
                got = taken + [id(x) for x in iterator]
            except RuntimeError as error:
                raise Violation('iterator-broken', '{} of {}: {}'.format(kind, d.name, error))
            ctx.equal(got, expected, 'iterator-changed', kind)
        # at last, whatever happened, each export is as at first
        for key in sorted(first):
            if ch.chance(50):
                name, fmt, paper_name = key
                d = [x for x in drawings if x.name == name][0]
                paper = [x for x in papers if repr(x) == paper_name][0]
                path = target(fmt)
                drawing.export(fmt, path, d.scene, paper.real())
                check(fmt, path, d, paper, 'last ' + fmt)
        unchanged('last')
