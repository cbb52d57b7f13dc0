"""C22: importing a DXF drawing gives its entities with their geometry, or fails; imports are independent."""

import os
import pathlib

from sim import sched, seams, simfs
from sim.core import Violation
from sim.faults import ASYNC, interruptible
from world import dxfdoc, shapes
from world.dxfdoc import Arc, Entity, Segment, Spline

ID = 'C22'
GROUPS = ['core', 'scene', 'painter', 'Patro.FileFormat.Dxf.Importer']
LEVEL = 'exploration'
QUICK = {'runs': 4000, 'seconds': 90}
THOROUGH = {'runs': 300000, 'seconds': 700}
RULE = ('a run draws drawings (lines, circles, arcs, ellipses, polylines with bulges, open uniform splines, entities to skip, '
        'blocks, paper space, any spelling) and a history: imports, with disk errors, truncated, damaged and missing files, '
        'interrupts, files written again, importing threads, callers who change items, items put in a scene, scenes exported '
        'and imported again; each import must give the entities of an independent model, and keep them; non-trivial: a fault, '
        'a change or threads; distinct: another history of drawings')
REAL = ['Patro.FileFormat.Dxf', 'Patro.GeometryEngine.Conic', 'Patro.GeometryEngine.Spline', 'GraphicScene', 'DxfPainter',
        'ezdxf']
STUB = ['disk (real scratch directory behind an interposed system call layer)', 'asynchronous exceptions',
        'thread scheduler']
ASSUMPTIONS = ['splines are open, uniform, not rational, of degree 2 or 3', 'no extrusion', 'no chord shorter than 0.1',
               'no bulge is NaN or infinite']

ERRORS = ('EIO', 'EACCES', 'EMFILE', 'short')


class File:

    def __init__(self, name, path, source, entities):
        self.name, self.path, self.source, self.entities = name, path, source, entities


class Kept:

    def __init__(self, file, entities, items, importer=None):
        self.name, self.entities, self.items, self.importer = file.name, entities, items, importer


class World:

    def __init__(self, ctx, root):
        self.ctx, self.ch, self.root = ctx, ctx.ch, root
        self.lib = shapes.Library()
        self.files, self.alive, self.scenes = [], [], []
        self.count = 0

    def write(self, file):
        with simfs.paused(), open(file.path, 'wb') as fh:
            fh.write(file.source)

    def new_file(self):
        self.count += 1
        ch = self.ch
        name = 'd{}'.format(self.count)
        document = dxfdoc.Document(ch, name)
        path = os.path.join(self.root, name + '.dxf')
        again = self.files and ch.chance(50)
        if again:
            # the drawing is saved again by its author
            old = ch.pick(self.files)
            path = old.path
            self.files.remove(old)
            self.ctx.probe('written again')
        file = File(name, path, document.source(), document.entities)
        file.document = document
        self.write(file)
        if len(self.files) >= 4:
            self.files.pop(0)
        self.files.append(file)
        kinds = [(e.kind, e.tags) for e in document.entities]
        self.ctx.event('drawing', name, document.version, bool(again), kinds)
        self.ctx.sig('drawing', bool(again), kinds)

    def edit_file(self):
        """The author of a drawing changes the order of two entities, the file has the same size."""
        ch = self.ch
        file = ch.pick(self.files)
        document = getattr(file, 'document', None)
        if document is None or document.ranges is None or len(document.ranges) < 2:
            return
        i = ch.draw(len(document.ranges) - 1)
        j = ch.int(i + 1, len(document.ranges) - 1)
        document.exchange(i, j)
        file.source, file.entities = document.source(), document.entities
        self.write(file)
        self.ctx.event('edited', file.name, i, j)
        self.ctx.sig('edited', file.name, i, j)
        self.ctx.probe('edited')

    def open(self, file, whole=True):
        from Patro.FileFormat.Dxf.Importer import DxfImporter
        path = file.path
        if whole and len(file.name) % 2:
            path = pathlib.Path(path)
        return DxfImporter(path)

    def judge(self, file, importer, where):
        ctx = self.ctx
        items = list(importer)
        dxfdoc.judge(file.entities, items, where)
        ctx.equal(len(importer), len(items), 'length', where)
        ctx.check(all(importer[i] is x for i, x in enumerate(items)), 'index', where)
        ctx.check(all(x is y for x, y in zip(importer[1:], items[1:])), 'slice', where)
        ctx.step()

    def judge_alive(self, where):
        for kept in self.alive:
            dxfdoc.judge(kept.entities, kept.items, 'kept import of {}, {}'.format(kept.name, where))
        for scene in self.scenes:
            self.judge_scene(scene, where)

    def keep(self, file, importer):
        self.alive.append(Kept(file, list(file.entities), list(importer), importer))
        if len(self.alive) > 3:
            self.alive.pop(self.ch.draw(len(self.alive)))

    # ---------------------------------------------------------------- actions

    def read(self):
        file = self.ch.pick(self.files)
        self.ctx.event('import', file.name)
        self.ctx.sig('import', file.name)
        importer = self.open(file)
        self.judge(file, importer, 'import')
        self.keep(file, importer)

    def failing_read(self):
        ctx, ch, fs = self.ctx, self.ch, self.fs
        file = ch.pick(self.files)
        failures = ['errors', 'errors', 'interrupt', 'interrupt', 'truncated', 'truncated', 'missing']
        document = getattr(file, 'document', None)
        if document is not None and document.numbers:
            failures.append('damaged')
        failure = ch.pick(failures)
        before = fs.hard_faults
        must_fail = False
        result = []
        work = lambda: result.append(self.open(file, whole=False))
        position = 0
        if failure == 'errors':
            fs.plan(ch.subset(ERRORS, 70) or ['EIO'], gap_max=ch.pick([2, 4]), faults=ch.int(1, 2))
        elif failure == 'interrupt':
            position = ch.int(1, ch.pick([40, 150, 500]))
        elif failure in ('truncated', 'damaged'):
            if failure == 'truncated':
                position = ch.draw(len(file.source))
                data = file.source[:position]
                must_fail = bool(file.source[position:].strip())
            else:
                data = document.damaged(ch)
                must_fail = True
            with simfs.paused(), open(file.path, 'wb') as fh:
                fh.write(data)
            ctx.fault(failure + '-file')
        else:
            with simfs.paused():
                os.unlink(file.path)
            must_fail = True
            ctx.fault('missing-file')
        error = None
        try:
            if failure == 'interrupt':
                interruptible(ctx, work, position)
            else:
                work()
        except Violation:
            raise
        except ASYNC as e:
            error = e
            result.clear()
        except Exception as e:
            error = e
            ctx.check(must_fail or fs.hard_faults > before, 'unexpected-exception', lambda: '{}: {!r}'.format(failure, e))
        finally:
            fs.stop_faults()
            if failure in ('truncated', 'damaged', 'missing'):
                self.write(file)
        where = '{} import of {} at {}'.format(failure, file.name, position)
        ctx.event('failing import', file.name, failure, position, type(error).__name__ if error else 'ok')
        ctx.sig('failing', file.name, failure, position)
        ctx.nontrivial = True
        if error is None:
            ctx.check(not must_fail, 'damaged-file-accepted', where)
            self.judge(file, result[0], where)
        if ch.chance(60):
            again = self.open(file)
            self.judge(file, again, 'after ' + where)
            self.keep(file, again)

    def change(self):
        """A caller moves an item in place, or changes the list it got."""
        ctx, ch = self.ctx, self.ch
        kept = [k for k in self.alive if k.items]
        if not kept:
            return
        kept = ch.pick(kept)
        i = ch.draw(len(kept.items))
        entity, item = kept.entities[i], kept.items[i]
        what = ch.pick(['move', 'move', 'domain', 'forget', 'slice'])
        if what == 'slice' and kept.importer is not None:
            items = kept.importer[:]
            if isinstance(items, list):
                items.clear()
            ctx.equal(len(kept.importer), len(kept.items), 'changed-by-a-slice')
        elif what == 'move':
            x, y = ch.pick([(2.5, -1), (100, 3)])
            translation = self.lib.AffineTransformation2D.Translation(self.lib.Vector2D(x, y))
            for part in item if isinstance(item, list) else [item]:
                part.apply_transformation(translation)
            models = [m.moved(x, y) for m in entity.models()]
            kept.entities[i] = Entity(entity.kind, entity.tags, models if isinstance(entity.model, list) else models[0])
        elif what == 'domain':
            domain = getattr(item, 'domain', None)
            if domain is not None:
                domain.start, domain.stop = 12, 34
            del kept.entities[i], kept.items[i]
            kept.importer = None
        else:
            del kept.entities[i], kept.items[i]
            kept.importer = None
        ctx.event('change', kept.name, i, what)
        ctx.sig('change', kept.name, i, what)
        ctx.nontrivial = True
        ctx.fault('caller-changes')

    def scene(self):
        """The items of an import in a scene."""
        from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
        from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
        ctx, ch = self.ctx, self.ch
        if not self.alive:
            return
        kept = ch.pick(self.alive)
        scene = GraphicScene()
        style = GraphicPathStyle()
        pairs = []
        for entity, item in zip(kept.entities, kept.items):
            parts = item if isinstance(item, list) else [item]
            for model, part in zip(entity.models(), parts):
                got = scene.add_geometry(part, style)
                got = list(got) if isinstance(got, (list, tuple)) else [got]
                pairs.append((entity, model, part, got))
        self.scenes = self.scenes[-1:] + [(scene, pairs)]
        ctx.event('scene', kept.name, len(pairs))
        ctx.sig('scene', kept.name)
        ctx.probe('scene')
        self.judge_scene(self.scenes[-1], 'new scene')

    def judge_scene(self, pair, where):
        scene, pairs = pair
        count = 0
        for entity, model, part, items in pairs:
            count += len(items)
            if isinstance(model, Spline):
                error = model.judge_scene_items(items, entity.scale)
            else:
                error = 'items' if len(items) != 1 else model.judge_scene(items[0], entity.scale)
            if error:
                raise Violation('scene', '{}: {} {}'.format(where, entity.kind, error))
            known = scene.item_for_user_data(part)
            if known is None or len(known) != len(items) or any(a is not b for a, b in zip(known, items)):
                raise Violation('user-data', '{}: {}'.format(where, entity.kind))
        self.ctx.equal(len(list(scene)), count, 'number-of-items', where)

    def export(self):
        """A scene of segments and cubics is exported, its drawing is imported."""
        from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
        from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
        from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
        from Patro.GraphicEngine.Painter.Paper import PaperSize
        from Patro.GraphicStyle import Colors, StrokeStyle
        ctx, ch = self.ctx, self.ch
        scene = GraphicScene()
        wanted = []
        for kept in self.alive[:2]:
            for entity, item in zip(kept.entities, kept.items):
                parts = item if isinstance(item, list) else [item]
                for model, part in zip(entity.models(), parts):
                    big = lambda p: (p[0] * 10, p[1] * 10)
                    style = GraphicPathStyle(stroke_style=ch.pick([StrokeStyle.SolidLine, StrokeStyle.DashLine]),
                                             stroke_color=Colors[ch.pick(['black', 'red'])], line_width=1)
                    if isinstance(model, Segment):
                        wanted.append(Entity('LINE', [(10, x) for x in big(model.p) + big(model.q)],
                                             Segment(big(model.p), big(model.q))))
                    elif isinstance(model, Spline) and model.degree == 3:
                        for curve in part.to_bezier():
                            points = [big(dxfdoc.point(p)) for p in curve.points]
                            wanted.append(Entity('SPLINE', [(10, x) for p in points for x in p], Spline(points, 3)))
                    else:
                        continue
                    scene.add_geometry(part, style)
        if not wanted:
            return
        self.count += 1
        name = 'e{}'.format(self.count)
        path = os.path.join(self.root, name + '.dxf')
        if self.files and ch.chance(30):
            old = ch.pick(self.files)
            path = old.path
            self.files.remove(old)
        with simfs.paused():
            DxfPainter(path, scene, PaperSize('A4', 'portrait', 10))
        file = File(name, path, None, wanted)
        ctx.event('export', name, [(e.kind, e.tags) for e in wanted])
        ctx.sig('export', [(e.kind, e.tags) for e in wanted])
        ctx.probe('export')
        with simfs.paused():
            importer = self.open(file)
            self.judge(file, importer, 'export')
        self.keep(file, importer)
        if not self.files:
            self.new_file()

    def threads(self):
        ctx, ch = self.ctx, self.ch
        jobs = [ch.pick(self.files) for _ in range(ch.int(2, 3))]
        results = {}

        def work(i, file):
            results[i] = self.open(file)

        scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20), max_preemptions=60)
        threads = [scheduler.spawn(work, i, file) for i, file in enumerate(jobs)]
        ctx.event('threads', [f.name for f in jobs])
        ctx.sig('threads', [f.name for f in jobs])
        scheduler.run()
        for thread in threads:
            if thread.exception is not None:
                raise Violation('thread-raises', thread.traceback)
        for i, file in enumerate(jobs):
            self.judge(file, results[i], 'threads')
            self.keep(file, results[i])
        ctx.nontrivial = True


def run(ctx):
    ch = ctx.ch
    root = ctx.scratch()
    world = World(ctx, root)
    fs = world.fs = simfs.SimFS(ctx, root)
    with simfs.active(fs):
        for _ in range(ch.int(1, 2)):
            world.new_file()
        for _ in range(ch.int(2, 9)):
            action = ch.weighted([(4, 'read'), (4, 'failing_read'), (2, 'new_file'), (2, 'edit_file'), (3, 'change'), (3, 'scene'),
                                  (2, 'export'), (2, 'threads')])
            getattr(world, action)()
            with simfs.paused():
                world.judge_alive(action)
        ctx.check(not fs.refused, 'written-elsewhere', fs.refused)
        with simfs.paused():
            for file in world.files:
                with open(file.path, 'rb') as fh:
                    ctx.check(fh.read() == file.source, 'file-changed', file.name)
    ctx.sample = {'drawings': [[e.kind for e in f.entities] for f in world.files]}
