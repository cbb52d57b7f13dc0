"""C14: an export shows the drawing as it is at that time, whatever happened before."""

import os

from sim import sched, seams, simfs
from sim.core import Violation
from sim.faults import ASYNC, interruptible
from world import docs, drawing

ID = 'C14'
GROUPS = ['core', 'measurement', 'pattern', 'scene', 'painter', 'plot']
PRELOAD = ['matplotlib.pyplot']      # has locks of its own
LEVEL = 'exploration'
QUICK = {'runs': 2500, 'seconds': 80}
THOROUGH = {'runs': 400000, 'seconds': 800}
RULE = ('a run draws one or two drawings (free ones, or detail scenes of evaluated sketches) and a history: add items at '
        'points or named coordinates, move coordinates, hide, raise and remove items, export to SVG, LaTeX, PDF or DXF over '
        'new or old files or to a figure of Matplotlib, with disk errors, interrupts at any line, items which a painter '
        'does not know, or two exports '
        'in threads; each file is read by an independent parser and compared with the model of the drawing; non-trivial: '
        'an edit between two exports or a fault; distinct: another history')
REAL = ['Patro.GraphicEngine', 'Patro.Pattern', 'Patro.FileFormat.Svg', 'Patro.Common.AtomicSave', 'reportlab', 'ezdxf',
        'lxml', 'matplotlib (up to the figure, it is not rendered)']
STUB = ['disk (real scratch directory behind an interposed system call layer)', 'thread scheduler',
        'asynchronous exceptions', 'clock', 'entropy']
ASSUMPTIONS = ['painters draw points, segments, cubic curves and texts, other items are refused; DXF has no points',
               'PDF has no line styles; scale of PDF is 0.7, with the lower left corner of the bounding box at 1 cm',
               'the style of a line without pen is not judged']

ERRORS = ('EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'short', 'torn')


def file_state(path):
    try:
        with open(path, 'rb') as fh:
            return fh.read()
    except FileNotFoundError:
        return None


def run(ctx):
    ch = ctx.ch
    root = ctx.scratch()
    drawings = []
    for i in range(ch.int(1, 2)):
        d = drawing.Drawing(ctx, 'd{}'.format(i))
        if ch.chance(40):
            d.from_sketch()
        else:
            d.empty()
        drawings.append(d)
    lines = {}
    figures = []
    exported = 0
    edited = False
    fs = simfs.SimFS(ctx, root)

    def check(fmt, path, d, paper, where):
        with simfs.paused():
            data = file_state(path)
            ctx.check(data is not None, 'no-file', where)
            try:
                drawing.check_export(ctx, fmt, data, d.box, d.content(), paper, where)
            except docs.Corrupt as corrupt:
                raise Violation('corrupt-file', '{}: {}'.format(where, corrupt))
        ctx.probe('export-' + fmt)

    def target(fmt):
        return os.path.join(root, ch.pick(['a', 'b', 'dra']) + drawing.SUFFIX[fmt])

    with simfs.active(fs):
        for _ in range(ch.int(3, 14)):
            d = ch.pick(drawings)
            action = ch.weighted([(10, 'export'), (5, 'add'), (3, 'move'), (3, 'hide'), (3, 'z'), (3, 'remove'),
                                  (4, 'errors'), (4, 'interrupt'), (2, 'unsupported'), (2, 'threads'), (2, 'plot')])
            ctx.sig(action, d.name)
            if action == 'add':
                d.add()
                edited = True
            elif action in ('move', 'hide', 'z', 'remove'):
                d.edit(action)
                edited = True
            elif action == 'unsupported':
                d.add(ch.pick(drawing.UNSUPPORTED))
            elif action == 'plot':
                paper = drawing.Paper(ch)
                where = 'figure of {}'.format(d.name)
                try:
                    drawing.plot(ctx, d.scene, d.box, d.content(), paper.real(), where, figures)
                except NotImplementedError as e:
                    ctx.check(not d.exportable, 'item-refused', repr(e))
                    ctx.fault('unsupported-item')
                else:
                    ctx.check(d.exportable, 'item-dropped', where)
                    ctx.probe('plot')
            elif action == 'threads':
                jobs = []
                for n in range(2):
                    other = ch.pick(drawings)
                    fmt = ch.weighted([(3, 'svg'), (3, 'tex'), (3, 'pdf'), (1, 'dxf')])
                    if other.exportable:
                        path = os.path.join(root, 't{}{}'.format(n, drawing.SUFFIX[fmt]))
                        jobs.append((fmt, path, other, drawing.Paper(ch)))
                scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20, 60))
                threads = [scheduler.spawn(drawing.export, fmt, path, other.scene, paper.real())
                           for fmt, path, other, paper in jobs]
                if threads:
                    scheduler.run()
                    ctx.nontrivial = True
                for thread, (fmt, path, other, paper) in zip(threads, jobs):
                    ctx.check(thread.exception is None, 'export-failed', lambda: thread.traceback)
                    check(fmt, path, other, paper, '{} in a thread'.format(fmt))
            else:
                fmt = ch.weighted([(3, 'svg'), (3, 'tex'), (3, 'pdf'), (1, 'dxf')])
                path = target(fmt)
                paper = drawing.Paper(ch)
                with simfs.paused():
                    before = file_state(path)
                ctx.sig(fmt, path[-6:], repr(paper))
                hard = fs.hard_faults
                error = None
                if action == 'errors':
                    fs.plan(ch.subset(ERRORS, 60) or ['EIO'], gap_max=ch.pick([3, 6, 12]), faults=1, sticky=True)
                try:
                    if action == 'interrupt':
                        lines[fmt] = interruptible(ctx, lambda: drawing.export(fmt, path, d.scene, paper.real()),
                                                   ch.int(1, lines.get(fmt, 400)))
                    else:
                        drawing.export(fmt, path, d.scene, paper.real())
                except ASYNC as e:
                    error = e
                except OSError as e:
                    ctx.check(fs.hard_faults > hard, 'unexpected-oserror', repr(e))
                    error = e
                except NotImplementedError as e:
                    ctx.check(not d.exportable, 'item-refused', repr(e))
                    ctx.fault('unsupported-item')
                    error = e
                finally:
                    fs.stop_faults()
                where = '{} of {} ({}, {})'.format(fmt, d.name, action, type(error).__name__ if error else 'ok')
                ctx.event('export', where, paper)
                if error is None:
                    ctx.check(d.exportable, 'item-dropped', where)
                    check(fmt, path, d, paper, where)
                    exported += 1
                    if edited and exported > 1:
                        ctx.nontrivial = True
                    edited = False
                else:
                    with simfs.paused():
                        after = file_state(path)
                    if after != before:
                        # the new file was already in place
                        ctx.check(not isinstance(error, NotImplementedError), 'partial-file', where)
                        check(fmt, path, d, paper, where)
        # at last, whatever happened, the drawings can be exported
        for d in drawings:
            for item in d.items:
                if item.kind in drawing.UNSUPPORTED and item.visible:
                    item.visible = item.real.visible = False
            fmt = ch.weighted([(3, 'svg'), (3, 'tex'), (3, 'pdf'), (1, 'dxf')])
            paper = drawing.Paper(ch)
            path = target(fmt)
            drawing.export(fmt, path, d.scene, paper.real())
            check(fmt, path, d, paper, 'last ' + fmt)
    ctx.sample = {'drawings': [len(d.items) for d in drawings], 'exports': exported, 'events': ctx.events[:20]}
