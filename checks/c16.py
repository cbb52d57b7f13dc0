"""C16: the tiled printout of a drawing is complete."""

import os

from sim import sched, seams, simfs
from sim.core import Violation
from sim.faults import ASYNC, interruptible
from world import docs, drawing, exports

ID = 'C16'
GROUPS = ['core', 'measurement', 'pattern', 'scene', 'painter']
LEVEL = 'exploration'
QUICK = {'runs': 2500, 'seconds': 80}
THOROUGH = {'runs': 400000, 'seconds': 800}
RULE = ('a run draws one or two drawings (free ones, or detail scenes of evaluated sketches) of a few centimetres to several '
        'metres and a history: edit them, change their bounding box, print them tiled on paper A, B or C of any size, '
        'orientation and margin, over new or old files, with disk errors, interrupts at any line, or in threads; the '
        'figures are read by an independent parser: they are a grid which covers the drawing and its margin without gap '
        'or overlap, fit in the page, have the label of their place, and show each item; non-trivial: a fault or an edit '
        'between two printouts; distinct: another history')
REAL = ['Patro.GraphicEngine', 'Patro.Pattern', 'Patro.Common.AtomicSave', 'IntervalArithmetic']
STUB = ['disk (real scratch directory behind an interposed system call layer)', 'thread scheduler',
        'asynchronous exceptions', 'clock', 'LaTeX is not run']
ASSUMPTIONS = ['the margin around a drawing is 1 cm, coordinates are printed with two decimals',
               'the paper is not smaller than its margins']

ERRORS = ('EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'short', 'torn')
NAMES = ('a4', 'a3', 'a0', 'a5', 'A4', 'b4', 'B2', 'c4', 'C5', 'a7', 'a2', 'A10', 'b10', 'A9', 'c0')
MARGINS = (10, 5, 0, 12.5, 20)
DIGIT = .0101


def check_printout(ctx, data, d, paper, where):
    preamble, figures = exports.tex_figures(data)
    ctx.check(len(figures) > 0, 'no-figure', where)
    # page
    ctx.check('paper={}paper,'.format(paper.name.lower()) in preamble, 'paper', where)
    lines = [line.strip() for line in preamble.split('\n')]
    other = {'portrait': 'landscape', 'landscape': 'portrait'}[paper.orientation]
    ctx.check(any(line.startswith(paper.orientation + ',') for line in lines), 'orientation', where)
    ctx.check(not any(line.startswith(other + ',') for line in lines), 'orientation', where)
    ctx.check(any(line.startswith('margin=') and float(line[7:].split('mm')[0]) == paper.margin for line in lines),
              'page-margin', where)
    width, height = ((size - 2 * paper.margin) / 10 for size in paper.size)
    # figures
    cells = {}
    for figure in figures:
        ctx.equal(sorted(figure.options.replace(' ', '').split(',')), ['x=10mm', 'y=10mm'], 'scale', where)
        clip = figure.clip
        ctx.check(clip is not None and len(clip) == 4, 'clip', where)
        xs, ys = sorted({p[0] for p in clip}), sorted({p[1] for p in clip})
        ctx.check(len(xs) == 2 and len(ys) == 2 and len(set(clip)) == 4
                  and all(p[0] == q[0] or p[1] == q[1] for p, q in zip(clip, clip[1:])), 'clip', lambda: '{}: {}'.format(
                      where, clip))
        ctx.check(xs[1] - xs[0] <= width + DIGIT and ys[1] - ys[0] <= height + DIGIT, 'tile-larger-than-page',
                  lambda: '{}: {} on {} x {}'.format(where, clip, width, height))
        try:
            row, column = (int(x) for x in figure.label.split(','))
        except (AttributeError, ValueError):
            raise Violation('label', '{}: {}'.format(where, figure.label))
        ctx.check((row, column) not in cells, 'label', lambda: '{}: {} twice'.format(where, figure.label))
        cells[row, column] = (*xs, *ys)
        exports.compare(ctx, 'tex', figure.elements, d.content(), '{}, tile {}'.format(where, figure.label))
    # grid
    rows, columns = max(r for r, _ in cells), max(c for _, c in cells)
    ctx.check(sorted(cells) == [(r, c) for r in range(1, rows + 1) for c in range(1, columns + 1)], 'grid',
              lambda: '{}: {}'.format(where, sorted(cells)))
    for (row, column), (x0, x1, y0, y1) in cells.items():
        for neighbour, a, b, same in (((row, column + 1), x1, 0, (y0, y1)), ((row + 1, column), y1, 2, (x0, x1))):
            if neighbour in cells:
                n = cells[neighbour]
                gap = n[b] - a
                ctx.check(abs(gap) <= DIGIT, 'gap' if gap > 0 else 'overlap',
                          lambda: '{}: {} and {}: {}'.format(where, (row, column), neighbour, gap))
                ctx.check(all(abs(p - q) <= DIGIT for p, q in zip(same, n[2:] if b == 0 else n[:2])), 'not-aligned',
                          lambda: '{}: {} and {}'.format(where, (row, column), neighbour))
    covered = (cells[1, 1][0], cells[1, 1][2], cells[rows, columns][1], cells[rows, columns][3])
    need = (d.box[0] - 1, d.box[1] - 1, d.box[2] + 1, d.box[3] + 1)
    ctx.check(covered[0] <= need[0] + DIGIT and covered[1] <= need[1] + DIGIT and covered[2] >= need[2] - DIGIT
              and covered[3] >= need[3] - DIGIT, 'not-covered', lambda: '{}: {} of {}'.format(where, covered, need))
    for (row, column), (x0, x1, y0, y1) in cells.items():
        ctx.check(x0 < need[2] + DIGIT and y0 < need[3] + DIGIT, 'empty-tile', lambda: '{}: {}'.format(where, (row, column)))
    ctx.probe('tiles', len(cells))
    ctx.probe('printout')
    if rows > 1 and columns > 1:
        ctx.probe('printout-2d')
    return rows, columns


def run(ctx):
    from IntervalArithmetic import Interval2D
    ch = ctx.ch
    root = ctx.scratch()
    fs = simfs.SimFS(ctx, root)
    drawings = []
    for i in range(ch.int(1, 2)):
        d = drawing.Drawing(ctx, 'd{}'.format(i))
        if ch.chance(40):
            d.from_sketch()
        else:
            d.empty()
        drawings.append(d)
    lines = 500
    edited = printed = 0

    def real_box(d):
        box = d.scene.bounding_box
        return tuple(float(v) for v in (box.x.inf, box.y.inf, box.x.sup, box.y.sup))

    def check(path, d, paper, where):
        with simfs.paused():
            try:
                with open(path, 'rb') as fh:
                    data = fh.read()
            except FileNotFoundError:
                raise Violation('no-file', where)
            try:
                return check_printout(ctx, data, d, paper, where)
            except docs.Corrupt as corrupt:
                raise Violation('corrupt-file', '{}: {}'.format(where, corrupt))

    def draw_paper(d):
        while True:
            paper = drawing.Paper(ch, NAMES, MARGINS)
            width, height = ((size - 2 * paper.margin - 4) / 10 for size in paper.size)
            tiles = ((d.box[2] - d.box[0] + 2) // max(width, .1) + 1) * ((d.box[3] - d.box[1] + 2) // max(height, .1) + 1)
            if min(width, height) > 2 and tiles <= 60:
                return paper

    with simfs.active(fs):
        for _ in range(ch.int(2, 10)):
            d = ch.pick(drawings)
            action = ch.weighted([(10, 'print'), (3, 'add'), (2, 'move'), (2, 'hide'), (2, 'z'), (2, 'remove'), (2, 'box'),
                                  (3, 'errors'), (3, 'interrupt'), (2, 'threads')])
            ctx.sig(action, d.name)
            if action == 'add':
                d.add()
                edited += 1
            elif action in ('move', 'hide', 'z', 'remove'):
                d.edit(action)
                edited += 1
            elif action == 'box':
                box = d.box
                grow = [ch.pick([0, 0, .37, 5, 31, -.5]) for _ in range(4)]
                box = tuple(round(b + g * s, 4) for b, g, s in zip(box, grow, (-1, -1, 1, 1)))
                if box[2] - box[0] > .5 and box[3] - box[1] > .5:
                    d.box = box
                    d.scene.bounding_box = Interval2D((box[0], box[2]), (box[1], box[3]))
                    ctx.event(d.name, 'box', box)
                    edited += 1
            elif action == 'threads':
                jobs = []
                for n in range(2):
                    other = ch.pick(drawings)
                    jobs.append((os.path.join(root, 't{}.tex'.format(n)), other, draw_paper(other), real_box(other)))
                scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20, 60))
                threads = [scheduler.spawn(drawing.export, 'tiled', path, other.scene, paper.real())
                           for path, other, paper, _ in jobs]
                scheduler.run()
                ctx.nontrivial = True
                for thread, (path, other, paper, box) in zip(threads, jobs):
                    ctx.check(thread.exception is None, 'print-failed', lambda: thread.traceback)
                    check(path, other, paper, '{} on {} in a thread'.format(other.name, paper))
                    ctx.equal(real_box(other), box, 'bounding-box-changed', other.name)
            else:
                path = os.path.join(root, ch.pick(['a', 'tex', 'cut']) + '.tex')
                paper = draw_paper(d)
                with simfs.paused():
                    old = open(path, 'rb').read() if os.path.exists(path) else None
                box = real_box(d)
                hard = fs.hard_faults
                error = None
                if action == 'errors':
                    fs.plan(ch.subset(ERRORS, 60) or ['EIO'], gap_max=ch.pick([3, 6, 12]), faults=1, sticky=True)
                try:
                    if action == 'interrupt':
                        lines = interruptible(ctx, lambda: drawing.export('tiled', path, d.scene, paper.real()),
                                              ch.int(1, lines))
                    else:
                        drawing.export('tiled', path, d.scene, paper.real())
                except ASYNC as e:
                    error = e
                except OSError as e:
                    ctx.check(fs.hard_faults > hard, 'unexpected-oserror', repr(e))
                    error = e
                finally:
                    fs.stop_faults()
                where = '{} on {} ({}, {})'.format(d.name, paper, action, type(error).__name__ if error else 'ok')
                ctx.event('print', where)
                ctx.sig(path[-6:], repr(paper))
                ctx.equal(real_box(d), box, 'bounding-box-changed', where)
                with simfs.paused():
                    new = open(path, 'rb').read() if os.path.exists(path) else None
                if error is None or new != old:
                    grid = check(path, d, paper, where)
                    ctx.event('grid', grid)
                    if error is None:
                        printed += 1
                        if edited and printed > 1:
                            ctx.nontrivial = True
        for d in drawings:
            paper = draw_paper(d)
            path = os.path.join(root, 'last.tex')
            drawing.export('tiled', path, d.scene, paper.real())
            ctx.event('last', check(path, d, paper, 'last on {}'.format(paper)))
