"""C20: a path occupies the place which its steps describe."""

import math

from sim import sched, seams
from sim.core import Violation
from sim.faults import ASYNC, interruptible
from world import paths, shapes
from world.paths import Model, draw_part, sound
from world.shapes import close, coordinate, draw_point, draw_spec, matrix, similarity

ID = 'C20'
GROUPS = ['core', 'scene']
LEVEL = 'exploration'
QUICK = {'runs': 5000, 'seconds': 70}
THOROUGH = {'runs': 400000, 'seconds': 700}
RULE = ('a run draws a pool of paths and a history: steps of every kind (absolute, relative, horizontal, vertical, compass, '
        'curves, rounded corners, closing), rejected steps, moved points and start points, other lengths and radii, copies, '
        'transformations in place and of copies, rejected ones, interrupted queries and copies, threads, and the drawing of '
        'the path in a scene; parts, corners, boxes and items are compared with an independent model; non-trivial: a path '
        'changed after a query, or a fault happened; distinct: another history')
REAL = ['Patro.GeometryEngine.Path', 'Patro.GeometryEngine.Transformation', 'Patro.GraphicEngine.GraphicScene']
STUB = ['asynchronous exceptions', 'thread scheduler']
ASSUMPTIONS = ['rounded corners are between two lines which are not nearly parallel',
               'elliptical arcs and stringed curves are not judged', 'what an interrupted change leaves is not judged']

ERRORS = (ValueError, AttributeError, TypeError, IndexError, NameError)


class Entry:

    def __init__(self, name, real, model):
        self.name, self.real, self.model = name, real, model
        self.moved = False


class World:

    def __init__(self, ctx):
        self.ctx, self.ch = ctx, ctx.ch
        self.lib = shapes.Library()
        self.pool = []
        self.count = 0

    def vector(self, point):
        return self.lib.Vector2D(*point)

    def add(self, real, model):
        self.count += 1
        entry = Entry('p{}'.format(self.count), real, model)
        if len(self.pool) >= 5:
            self.pool.pop(self.ch.draw(len(self.pool)))
        self.pool.append(entry)
        return entry

    # ---------------------------------------------------------------- oracle

    def near(self, where, what, got, expected, entry):
        got = tuple((float(p.x), float(p.y)) for p in got)
        scale = max([1] + [abs(c) for p in expected for c in p])
        ok = len(got) == len(expected) and all(
            abs(a - b) <= 1e-6 * scale for p, q in zip(got, expected) for a, b in zip(p, q))
        if not ok:
            raise Violation(what, '{}: {} got {}, expected {}: {}'.format(
                where, entry.name, got, expected, self.describe(entry)))

    def describe(self, entry):
        m = entry.model
        return '{} {} closed={} closing={}'.format(
            m.p0, [(p.kind, p.mode, p.values, p.radius) for p in m.parts], m.closed, m.closing)

    def check(self, entry, where):
        ctx, real, model = self.ctx, entry.real, entry.model
        ctx.equal(len(real), len(model.parts), 'length', where)
        ctx.equal(bool(real.is_closed), model.closed, 'closed', where)
        self.near(where, 'start', [real.p0], [model.p0], entry)
        chains = model.chains()
        for i, (part, other) in enumerate(zip(real, model.parts)):
            points = chains[i]
            ctx.equal(part.index, i, 'index', where)
            ctx.check(part.path is real, 'part-of-another-path', entry.name)
            self.near(where, 'part', [part.start_point, part.stop_point], [points[0], points[-1]], entry)
            drawn = model.drawn(i, chains)
            self.near(where, 'points', part.points, drawn, entry)
            geometry = part.geometry
            expected = {'line': self.lib.Segment2D, 'quadratic': self.lib.QuadraticBezier2D,
                        'cubic': self.lib.CubicBezier2D}[other.kind]
            ctx.check(type(geometry) is expected, 'geometry-class', lambda: '{} {}'.format(entry.name, type(geometry)))
            self.near(where, 'geometry', geometry.points, drawn, entry)
            if other.kind == 'line':
                if other.radius:
                    if not close(float(part.radius), float(other.radius), 1e-7):
                        raise Violation('radius', '{}: {} part {} has {}, expected {}'.format(
                            where, entry.name, i, part.radius, other.radius))
                    self.check_corner(where, entry, part, model.corner(i, chains), other.radius)
                else:
                    ctx.check(part.radius is None, 'radius', lambda: '{}: {} part {} has {}'.format(
                        where, entry.name, i, part.radius))
        if not model.rounded:
            self.check_place(where, entry, chains)
        ctx.step()

    def check_corner(self, where, entry, part, corner, radius):
        center, first, last, middle = corner
        self.near(where, 'corner', [part.bulge_center, part.bulge_start_point, part.bulge_stop_point],
                  [center, first, last], entry)
        arc = part.bulge_geometry
        self.near(where, 'arc', [arc.center], [center], entry)
        start, stop = arc.domain.start, arc.domain.stop
        angle = start + ((stop - start) % 360) / 2
        self.near(where, 'arc-middle', [arc.point_at_angle(angle)], [middle], entry)
        ends = [arc.point_at_angle(start), arc.point_at_angle(stop)]
        if math.dist((ends[0].x, ends[0].y), first) > math.dist((ends[0].x, ends[0].y), last):
            ends.reverse()
        self.near(where, 'arc-ends', ends, [first, last], entry)
        self.ctx.probe('corner')

    def check_place(self, where, entry, chains):
        """Bounding box and distance, without rounded corners."""
        model = entry.model
        lines = all(p.kind == 'line' for p in model.parts)
        box = entry.real.bounding_box
        got = (float(box.x.inf), float(box.y.inf), float(box.x.sup), float(box.y.sup))
        points = [p for chain in chains for p in (chain if lines else (chain[0], chain[-1]))] or [model.p0]
        xs, ys = [p[0] for p in points], [p[1] for p in points]
        exact = (min(xs), min(ys), max(xs), max(ys))
        e = 1e-6 * max(1, *(abs(c) for c in exact))
        if lines:
            ok = all(abs(a - b) <= e for a, b in zip(got, exact))
        else:
            hull = [p for chain in chains for p in chain]
            xs, ys = [p[0] for p in hull], [p[1] for p in hull]
            outer = (min(xs), min(ys), max(xs), max(ys))
            ok = (outer[0] - e <= got[0] <= exact[0] + e and outer[1] - e <= got[1] <= exact[1] + e and
                  exact[2] - e <= got[2] <= outer[2] + e and exact[3] - e <= got[3] <= outer[3] + e)
        if not ok:
            raise Violation('bounding-box', '{}: {} got {}, expected {}: {}'.format(
                where, entry.name, got, exact, self.describe(entry)))
        if lines:
            point = draw_point(self.ch)
            got = float(entry.real.distance_to_point(self.vector(point)))
            expected = min([distance(point, *chain) for chain in chains] or [math.dist(point, model.p0)])
            if abs(got - expected) > 1e-6 * max(1, expected):
                raise Violation('distance', '{}: {} to {} got {}, expected {}: {}'.format(
                    where, entry.name, point, got, expected, self.describe(entry)))

    def check_all(self, where):
        for entry in self.pool:
            self.check(entry, where)

    # ---------------------------------------------------------------- actions

    def create(self):
        ch = self.ch
        if ch.chance(15):
            point, width, height = draw_point(ch), ch.int(4, 60) / 4, ch.int(4, 60) / 4
            radius = ch.pick([None, .25, 1])
            model = Model(point)
            for mode, value in ((0, width), (90, height), (0, -width)):
                model.parts.append(paths.Part('line', 'angle', (mode, value), radius if model.parts else None))
            model.parts.append(paths.Part('line', 'absolute', (point,), radius))
            model.parts[0].radius = radius
            model.closed, model.closing = True, radius is not None
            real = self.lib.Path2D.rounded_rectangle(self.vector(point), width, height, radius)
            entry = self.add(real, model)
        else:
            point = draw_point(ch)
            given = self.vector(point)
            entry = self.add(self.lib.Path2D(given), Model(point))
            given += self.vector((1, 1))
            for _ in range(ch.int(0, 3)):
                self.step(entry)
        self.ctx.event('create', entry.name, self.describe(entry))
        self.ctx.sig('create', self.describe(entry))

    def step(self, entry=None):
        ch, ctx = self.ch, self.ctx
        entry = entry or ch.pick(self.pool)
        method, args, kwargs, part = draw_part(ch)
        model = entry.model.copy()
        model.parts.append(part)
        given = [self.vector(a) if isinstance(a, tuple) else a for a in args]
        if part.radius:
            kwargs['radius'] = part.radius
            if len(model.parts) == 1 or model.parts[-2].kind != 'line':
                if model.closed:
                    return
                try:
                    getattr(entry.real, method)(*given, **kwargs)
                except ERRORS:
                    ctx.fault('rejected-step')
                    self.ctx.nontrivial = True
                    ctx.event('rejected step', entry.name, method, args)
                    ctx.sig('rejected', entry.name, method, args)
                    return
                raise Violation('accepted', '{} {} {} {}'.format(entry.name, method, args, kwargs))
        elif part.kind == 'line' and ch.chance(10):
            kwargs['radius'] = 0
        if not sound(model) and not model.closed:
            return
        ctx.event('step', entry.name, method, args, kwargs)
        ctx.sig('step', entry.name, method, args, sorted(kwargs.items()))
        result = getattr(entry.real, method)(*given, **kwargs)
        if entry.model.closed:
            # a closed path has no other step
            ctx.check(result is None, 'step-of-closed-path', entry.name)
            return
        for v in given:
            if isinstance(v, self.lib.Vector2D):
                v += self.vector((1, 1))
        ctx.check(result is entry.real[len(model.parts) - 1], 'step-result', entry.name)
        entry.model = model
        entry.moved = True

    def finish(self):
        ch, ctx = self.ch, self.ctx
        entry = ch.pick(self.pool)
        model = entry.model.copy()
        if model.closed or not model.parts:
            return
        radius = ch.pick([None, None, .5, 1.25])
        corner = ch.pick([None, None, .5, 1.25])
        kwargs = {}
        if radius:
            kwargs['radius'] = radius
        if corner:
            kwargs['close_radius'] = corner
        model.closed, model.closing = True, corner is not None
        model.parts.append(paths.Part('line', 'absolute', (model.p0,), radius))
        if corner:
            model.parts[0].radius = corner
        bad = (radius and model.parts[-2].kind != 'line') or (corner and model.parts[0].kind != 'line')
        ctx.event('close', entry.name, kwargs, bool(bad))
        ctx.sig('close', entry.name, sorted(kwargs.items()))
        if bad:
            try:
                entry.real.close(**kwargs)
            except ERRORS:
                ctx.fault('rejected-step')
                self.ctx.nontrivial = True
                return
            raise Violation('accepted', '{} close {}'.format(entry.name, kwargs))
        if not sound(model):
            return
        entry.real.close(**kwargs)
        entry.model = model
        entry.moved = True

    def move(self):
        """Another start point, point, length or radius."""
        ch, ctx = self.ch, self.ctx
        entry = ch.pick(self.pool)
        model = entry.model.copy()
        what = ch.pick(['start', 'value', 'value', 'radius'])
        if what == 'start':
            if model.closed:
                return
            model.p0 = draw_point(ch)
            if not sound(model):
                return
            entry.real.move_to(self.vector(model.p0))
            detail = model.p0
        else:
            if not model.parts:
                return
            i = ch.draw(len(model.parts))
            part, real = model.parts[i], entry.real[i]
            if what == 'radius':
                if part.kind != 'line' or not part.radius:
                    return
                # a closing corner stays a corner
                part.radius = ch.pick([.25, .75, 2]) if i == 0 or ch.chance(70) else None
                setter = lambda: setattr(real, 'radius', part.radius)
            else:
                if model.closed and i == len(model.parts) - 1:
                    return
                if part.mode in ('x', 'y'):
                    part.values = (coordinate(ch),)
                    setter = lambda: setattr(real, part.mode, part.values[0])
                elif part.mode == 'angle':
                    part.values = (part.values[0], coordinate(ch))
                    setter = lambda: setattr(real, 'length', part.values[1])
                else:
                    k = ch.draw(len(part.values))
                    point = draw_point(ch)
                    part.values = part.values[:k] + (point,) + part.values[k + 1:]
                    name = 'point' if part.kind == 'line' else 'point{}'.format(k + 1)

                    def setter():
                        given = self.vector(point)
                        setattr(real, name, given)
                        given += self.vector((1, 1))
            if not sound(model):
                return
            setter()
            detail = (i, part.mode, part.values, part.radius)
        entry.model = model
        entry.moved = True
        ctx.nontrivial = True
        ctx.event('move', entry.name, what, detail)
        ctx.sig('move', entry.name, what, detail)

    def copy(self):
        entry = self.ch.pick(self.pool)
        other = self.add(entry.real.clone(), entry.model.copy())
        self.ctx.check(other.real is not entry.real, 'copy', entry.name)
        self.ctx.event('copy', entry.name, other.name)
        self.ctx.sig('copy', entry.name)

    def transform(self):
        ch, ctx = self.ch, self.ctx
        entry = ch.pick(self.pool)
        spec = draw_spec(ch)
        m = matrix(spec)
        model = entry.model.copy()
        clone = ch.chance(40)
        ctx.event('transform', entry.name, spec, clone)
        ctx.sig('transform', entry.name, spec, clone)
        real = self.lib.transformation(spec)
        if model.rounded and similarity(m) is None:
            try:
                entry.real.transform(real, clone=clone)
            except ValueError:
                ctx.fault('rejected-transformation')
                ctx.nontrivial = True
                return
            raise Violation('transformation-accepted', '{} {}'.format(entry.name, spec))
        if not real.is_identity:
            model.transform(m)
        coordinates = [c for chain in model.chains() for p in chain for c in p]
        if coordinates and (max(map(abs, coordinates)) > 1e5 or not sound(model)):
            return
        result = entry.real.transform(real, clone=clone)
        ctx.nontrivial = True
        if clone:
            ctx.check(result is not entry.real, 'copy', entry.name)
            self.add(result, model)
        else:
            ctx.check(result is entry.real, 'transform-is-a-copy', entry.name)
            entry.model = model
            entry.moved = True

    def interrupt(self):
        ch, ctx = self.ch, self.ctx
        entry = ch.pick(self.pool)
        where = ch.int(1, ch.pick([10, 80]))
        what = ch.pick(['clone', 'geometry', 'box'])

        def work():
            if what == 'clone':
                entry.real.clone()
            elif what == 'box':
                entry.real.bounding_box
            else:
                for part in entry.real:
                    part.geometry

        try:
            interruptible(ctx, work, where)
        except ASYNC:
            ctx.nontrivial = True
        ctx.event('interrupt', entry.name, what, where)
        ctx.sig('interrupt', entry.name, what, where)

    def draw_in_scene(self):
        """The items which draw the path."""
        from Patro.GraphicEngine.GraphicScene.GraphicItem import CircleItem, CubicBezierItem, PathItem, SegmentItem
        from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
        from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
        entry = self.ch.pick(self.pool)
        model = entry.model
        scene = GraphicScene()
        style = GraphicPathStyle()
        as_segments = self.ch.chance(70)
        scene.add_path(entry.real, style, user_data='path', as_segments=as_segments)
        items = list(scene)
        chains = model.chains()
        self.ctx.event('draw', entry.name, as_segments)
        self.ctx.sig('draw', entry.name, as_segments)
        if not as_segments:
            self.ctx.equal(len(items), 1, 'items', 'draw')
            item = items[0]
            self.ctx.check(isinstance(item, PathItem) and item.is_closed == model.closed, 'path-item', entry.name)
            path = item.get_geometry()
            self.near('draw', 'item-start', [path.p0], [model.p0], entry)
            self.ctx.equal(len(path), len(chains), 'item-parts', 'draw')
            for part, chain in zip(path, chains):
                self.near('draw', 'item', part.points, chain, entry)
            return
        expected = []
        for i, part in enumerate(model.parts):
            corner = model.corner(i, chains)
            if corner:
                expected.append(('circle', corner, part.radius))
            expected.append((part.kind, model.drawn(i, chains), None))
        self.ctx.equal(len(items), len(expected), 'items', 'draw')
        for item, (kind, points, radius) in zip(items, expected):
            if kind == 'circle':
                self.ctx.check(isinstance(item, CircleItem), 'item-class', kind)
                center, first, last, middle = points
                self.near('draw', 'item', [item.position], [center], entry)
                start, stop = item.start_angle, item.stop_angle
                span = (stop - start) % 360
                arc = [math.radians(start + k * span) for k in (0, .5, 1)]
                arc = [self.vector((center[0] + radius * math.cos(a), center[1] + radius * math.sin(a))) for a in arc]
                if math.dist((arc[0].x, arc[0].y), first) > math.dist((arc[2].x, arc[2].y), first):
                    arc.reverse()
                self.near('draw', 'item-arc', arc, [first, middle, last], entry)
                if not close(float(item.radius), float(radius), 1e-7):
                    raise Violation('item-radius', '{} instead of {}'.format(item.radius, radius))
            else:
                if kind == 'line':
                    self.ctx.check(isinstance(item, SegmentItem), 'item-class', kind)
                elif kind == 'cubic':
                    self.ctx.check(isinstance(item, CubicBezierItem), 'item-class', kind)
                self.near('draw', 'item', item.positions, points, entry)

    def threads(self):
        ch, ctx = self.ch, self.ctx
        entry = ch.pick(self.pool)
        if not entry.model.parts:
            return
        specs = [draw_spec(ch, stretch=False) for _ in range(2)]
        results = []

        def reader():
            for part in entry.real:
                results.append((part.index, part.points, None))
                if isinstance(part.geometry, self.lib.Segment2D) and part.radius is not None:
                    results.append((part.index, None, part.bulge_center))

        def transformer(spec):
            results.append((entry.real.transform(self.lib.transformation(spec), clone=True), spec))

        scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20, 60), max_preemptions=60)
        threads = [scheduler.spawn(reader), scheduler.spawn(reader)]
        threads += [scheduler.spawn(transformer, spec) for spec in specs]
        ctx.event('threads', entry.name, specs)
        ctx.sig('threads', entry.name, specs)
        scheduler.run()
        for thread in threads:
            if thread.exception is not None:
                raise Violation('thread-raises', thread.traceback)
        chains = entry.model.chains()
        for result in results:
            if len(result) == 3:
                i, points, center = result
                if points is not None:
                    self.near('threads', 'points', points, entry.model.drawn(i, chains), entry)
                else:
                    self.near('threads', 'corner', [center], [entry.model.corner(i, chains)[0]], entry)
            else:
                real, spec = result
                model = entry.model.copy()
                if not self.lib.transformation(spec).is_identity:
                    model.transform(matrix(spec))
                self.check(Entry('concurrent copy', real, model), 'threads')
        ctx.nontrivial = True


def distance(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = dx * dx + dy * dy
    t = 0 if n == 0 else max(0, min(1, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / n))
    return math.dist(p, (a[0] + t * dx, a[1] + t * dy))


def run(ctx):
    ch = ctx.ch
    world = World(ctx)
    for _ in range(ch.int(1, 2)):
        world.create()
    for _ in range(ch.int(4, 28)):
        action = ch.weighted([(10, 'step'), (3, 'finish'), (5, 'move'), (3, 'copy'), (5, 'transform'), (1, 'create'),
                              (1, 'interrupt'), (2, 'draw_in_scene'), (1, 'threads')])
        getattr(world, action)()
        if ch.chance(60):
            world.check_all(action)
    world.check_all('end')
    ctx.sample = {'paths': [(e.name, world.describe(e)) for e in world.pool]}
