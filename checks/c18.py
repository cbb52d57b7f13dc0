"""C18: the answers of a geometric object depend on what it is, not on what happened to it."""

from sim import sched, seams
from sim.core import Violation
from sim.faults import ASYNC, interruptible
from world import shapes
from world.shapes import QUERIES, Query, Shape, apply, close, coordinate, draw_definition, draw_point, matrix, similarity

ID = 'C18'
GROUPS = ['core', 'scene']
LEVEL = 'exploration'
QUICK = {'runs': 5000, 'seconds': 75}
THOROUGH = {'runs': 600000, 'seconds': 800}
RULE = ('a run draws a pool of geometric objects and a history: queries, copies, transformations in place and of copies, '
        'new values of points, radii, angles and angular domains, rejected transformations, interrupted queries, boxes '
        'which are extended by their receiver, and queries of several threads at once; each answer is compared with the '
        'one of an object just built from the same definition, and the definitions with a plain model; non-trivial: an '
        'object was queried after it changed, or a fault happened; distinct: another history')
REAL = ['Patro.GeometryEngine (Vector, Line, Segment, Triangle, Rectangle, Polygon, Polyline, Bezier, Conic, Spline, '
        'Transformation, Primitive)']
STUB = ['asynchronous exceptions', 'thread scheduler']
ASSUMPTIONS = ['nobody changes in place the vectors which an object exposes, nor the ones which are given to a line',
               'a query which is not implemented fails in the same way on a new object',
               'what an interrupted change leaves is not judged']


class World:

    def __init__(self, ctx):
        self.ctx, self.ch = ctx, ctx.ch
        self.lib = shapes.Library()
        self.pool = []
        self.touched = set()
        self.count = 0

    def add(self, kind, real, data, hints=False):
        self.count += 1
        shape = Shape(kind, real, data, 'o{}'.format(self.count))
        shape.hints = hints
        if len(self.pool) >= 8:
            self.pool.pop(self.ch.draw(len(self.pool)))
        self.pool.append(shape)
        return shape

    def create(self):
        kind = self.ch.weighted([(3, 'polygon'), (2, 'polyline'), (1, 'segment'), (1, 'triangle'), (1, 'rectangle'),
                                 (2, 'quadratic'), (2, 'cubic'), (1, 'spline'), (2, 'circle'), (3, 'ellipse'),
                                 (1, 'line'), (1, 'vector')])
        data = draw_definition(self.ch, kind)
        given = []
        shape = self.add(kind, self.lib.build(kind, data, given), data)
        if kind not in ('line', 'vector'):
            # the vectors of the caller
            for v in given:
                v += self.lib.Vector2D(1, 1)
        self.ctx.event('create', shape.describe())
        self.ctx.sig('create', kind, data)
        shape.check(self.ctx, self.lib, 'create')

    def fresh(self, shape):
        return self.lib.build(shape.kind, self.lib.definition(shape.kind, shape.real))

    def draw_query(self, shape):
        names = list(QUERIES[shape.kind])
        if shape.hints:
            names = [x for x in names if x not in ('is_convex', 'is_concave', 'convex_hull')]
        return Query(self.ch, shape.kind, self.ch.pick(names), shape.data)

    def ask(self, shape, query, where):
        operands = query.operands(self.lib)
        got = query.ask(self.lib, shape.real, operands)
        query.check_operands(self.ctx, self.lib, operands, shape.describe())
        expected = query.ask(self.lib, self.fresh(shape))
        self.ctx.step()
        if not close(got, expected):
            raise Violation('answer', '{}: {} {}: got {}, a new object answers {}'.format(
                where, shape.describe(), query, got, expected))
        if shape.name in self.touched:
            self.ctx.nontrivial = True
        if got is not None and isinstance(got, tuple) and got[:1] == ('raises',):
            self.ctx.probe('raising-query')
        return got

    def check_all(self, where):
        for shape in self.pool:
            shape.check(self.ctx, self.lib, where)

    # ---------------------------------------------------------------- changes

    def query(self, shape):
        query = self.draw_query(shape)
        self.ctx.event('query', shape.name, query)
        self.ctx.sig('query', shape.name, str(query))
        self.ask(shape, query, 'query')

    def interrupted_query(self, shape):
        query = self.draw_query(shape)
        operands = query.operands(self.lib)
        where = self.ch.int(1, self.ch.pick([10, 60, 300]))
        self.ctx.event('interrupted query', shape.name, query, where)
        self.ctx.sig('interrupted', shape.name, str(query), where)
        try:
            interruptible(self.ctx, lambda: query.ask(self.lib, shape.real, operands), where)
        except ASYNC:
            self.ctx.probe('interrupted-query')
        shape.check(self.ctx, self.lib, 'interrupted query')
        for _ in range(3):
            self.ask(shape, self.draw_query(shape), 'after an interrupted query')

    def clone(self, shape):
        real = self.lib.answer(shape.real.clone)
        if real[:1] == ('raises',):
            raise Violation('clone-fails', '{}: {}'.format(shape.describe(), real))
        copy = self.add(shape.kind, shape.real.clone(), shape.data, shape.hints)
        self.ctx.check(copy.real is not shape.real, 'clone-is-the-object', shape.describe())
        self.ctx.event('clone', shape.name, copy.name)
        self.ctx.sig('clone', shape.name)

    def transform(self, shape):
        ch, ctx, lib = self.ch, self.ctx, self.lib
        kind = shape.kind
        if kind in ('line', 'vector'):
            return self.change_vector(shape) if kind == 'vector' else None
        spec = shapes.draw_spec(ch)
        m = matrix(spec)
        transformation = lib.transformation(spec)
        conic = kind in ('circle', 'ellipse')
        clone = ch.chance(35) and not conic
        ctx.event('transform', shape.name, spec, clone)
        ctx.sig('transform', shape.name, spec, clone)
        if conic:
            try:
                shape.real.apply_transformation(transformation)
            except ValueError:
                ctx.check(spec[0].endswith('stretch'), 'transformation-rejected', lambda: '{} {}'.format(spec, shape.describe()))
                ctx.fault('rejected-transformation')
                shape.check(ctx, lib, 'rejected transformation')
                self.touched.add(shape.name)
                return
            ctx.check(not spec[0].endswith('stretch'), 'transformation-accepted', lambda: '{} {}'.format(spec, shape.describe()))
            k = similarity(m)
            center = apply(m, shape.data[0])
            if kind == 'circle':
                shape.data = (center, shape.data[1] * k, shape.data[2])
            else:
                # the angle of the ellipse is not judged
                now = lib.definition(kind, shape.real)
                shape.data = (center, shape.data[1] * k, shape.data[2] * k, now[3], shape.data[4])
            self.touched.add(shape.name)
            shape.check(ctx, lib, 'transform')
            return
        data = shapes.transformed(kind, shape.data, m)
        hint = {'rotation': 'rotate', 'parity': 'mirror', 'x-reflection': 'x_mirror', 'y-reflection': 'y_mirror',
                'scale': 'scale', 'stretch': 'scale'}.get(spec[0])
        if hint and ch.chance(50):
            result = getattr(shape.real, hint)(*spec[1:], clone=clone)
        else:
            result = shape.real.transform(transformation, clone=clone)
        if clone:
            ctx.check(result is not shape.real, 'clone-is-the-object', shape.describe())
            self.touched.add(self.add(kind, result, data, shape.hints).name)
        else:
            ctx.check(result is shape.real, 'transform-is-a-copy', shape.describe())
            shape.data = data
            self.touched.add(shape.name)

    def derive(self, shape):
        """An object which is made from another one doesn't depend on it."""
        names = {'segment': ['to_line'], 'triangle': ['to_polygon', 'edges'], 'rectangle': ['edges', 'to_polygon'],
                 'polygon': ['convex_hull', 'simplify', 'to_triangle', 'edges'], 'polyline': ['edges'],
                 'quadratic': ['split_at_t', 'to_cubic'],
                 'cubic': ['split_at_t', 'mid_point_quadratic_approximation'], 'spline': ['insert_knot', 'to_bezier'],
                 'ellipse': ['to_bezier', 'intersect_segment'], 'circle': ['tangent_at_angle', 'bounding_box'],
                 'line': ['shifted_parallel_line'],
                 'vector': ['rotate', 'normal', 'clone', 'scale', '__neg__', '__add__']}[shape.kind]
        name = self.ch.pick(names)
        query = Query(self.ch, shape.kind, name, shape.data)
        operands = query.operands(self.lib)
        self.ctx.event('derive', shape.name, query)
        self.ctx.sig('derive', shape.name, str(query))
        try:
            value = getattr(shape.real, name)
            value = value(*operands) if callable(value) else value
        except (AttributeError, TypeError, ValueError, ZeroDivisionError, NameError, IndexError, NotImplementedError):
            return
        candidates = list(value) if isinstance(value, (list, tuple)) else [value]
        candidates = [x for x in candidates if type(x) in self.lib.kind_of_class and x is not shape.real]
        if candidates:
            real = self.ch.pick(candidates)
            kind = self.lib.kind_of_class[type(real)]
            if kind == 'line' or name == 'edges':
                # these can be views of the object
                return
            self.add(kind, real, self.lib.definition(kind, real), hints=name == 'convex_hull')

    def assign(self, shape):
        """Give a new value to a part of the definition."""
        ch, lib, ctx = self.ch, self.lib, self.ctx
        kind, data = shape.kind, shape.data
        if kind == 'vector':
            return self.change_vector(shape)
        if kind in ('segment', 'rectangle', 'quadratic', 'cubic', 'triangle'):
            i = ch.draw(len(data))
            point = draw_point(ch)
            new = data[:i] + (point,) + data[i + 1:]
            if len(set(new)) != len(new) or (kind == 'triangle' and shapes.collinear(*new)):
                return
            value = lib.Vector2D(*point)
            setattr(shape.real, 'p{}'.format(i), value)
            value += lib.Vector2D(1, 1)   # the vector of the caller
            what = 'p{}'.format(i)
            shape.data = new
        elif kind in ('circle', 'ellipse'):
            names = ['center', 'domain', 'domain-start', 'domain-stop', 'radius'] if kind == 'circle' else \
                ['center', 'domain', 'domain-start', 'domain-stop', 'radius_x', 'radius_y', 'angle']
            what = ch.pick(names)
            data = list(data)
            if what == 'center':
                data[0] = draw_point(ch)
                value = lib.Vector2D(*data[0])
                shape.real.center = value
                value += lib.Vector2D(1, 1)   # the vector of the caller
            elif what == 'domain':
                data[-1] = draw_definition(ch, kind)[-1]
                shape.real.domain = None if data[-1] is None else lib.AngularDomain(*data[-1])
            elif what.startswith('domain'):
                if data[-1] is None:
                    return
                start, stop = data[-1]
                if what == 'domain-start':
                    start -= 10
                    shape.real.domain.start = start
                else:
                    stop += 10
                    shape.real.domain.stop = stop
                data[-1] = (start, stop)
            else:
                value = ch.int(1, 40) / 4
                setattr(shape.real, what, value)
                data[{'radius': 1, 'radius_x': 1, 'radius_y': 2, 'angle': 3}[what]] = value
            shape.data = tuple(data)
        elif kind == 'polygon':
            # the center becomes the origin
            center = lib.answer(lambda: self.fresh(shape).barycenter)
            if center is None or center[0] != 'vector':
                return
            what = 'recenter'
            shape.real.recenter()
            shape.data = tuple((x - center[1], y - center[2]) for x, y in data)
        else:
            return
        ctx.event('assign', shape.name, what, shape.data)
        ctx.sig('assign', shape.name, what, shape.data)
        self.touched.add(shape.name)

    def change_vector(self, shape):
        ch, lib = self.ch, self.lib
        x, y = shape.data
        others = [s for s in self.pool if s.kind == 'vector']
        other = ch.pick(others)
        ox, oy = other.data
        what = ch.pick(['+=', '-=', '*=', '/=', 'x', 'y', 'item', 'normalise'])
        v = shape.real
        value = ch.pick([2, .5, -3])
        if what == '+=':
            v += other.real
            shape.data = (x + ox, y + oy)
        elif what == '-=':
            if other is shape or (x == ox and y == oy):
                return
            v -= other.real
            shape.data = (x - ox, y - oy)
        elif what == '*=':
            v *= value
            shape.data = (x * value, y * value)
        elif what == '/=':
            v /= value
            shape.data = (x / value, y / value)
        elif what == 'x':
            v.x = value
            shape.data = (value, y)
        elif what == 'y':
            v.y = value
            shape.data = (x, value)
        elif what == 'item':
            v[1] = value
            shape.data = (x, value)
        else:
            n = (x * x + y * y) ** .5
            if n < 1e-6:
                return
            v.normalise()
            shape.data = (x / n, y / n)
        if max(abs(c) for c in shape.data) > 1e6 or min(abs(c) for c in shape.data) < 1e-4:
            self.pool.remove(shape)
            return
        self.ctx.check(v is shape.real, 'in-place-is-a-copy', what)
        self.ctx.event('change', shape.name, what, other.name, value)
        self.ctx.sig('change', shape.name, what, other.name, value)
        self.touched.add(shape.name)

    def extend_box(self, shape):
        """The receiver of a bounding box extends it, as the scene does."""
        try:
            box = shape.real.bounding_box
        except (AttributeError, TypeError, ValueError, NotImplementedError):
            return
        if box is None:
            return
        other = self.lib.Vector2D(*draw_point(self.ch)).bounding_box
        box |= other
        self.ctx.event('extend box', shape.name)
        self.ctx.sig('box', shape.name)
        self.ask(shape, Query(self.ch, shape.kind, 'bounding_box', shape.data), 'a returned box was extended')

    # ---------------------------------------------------------------- threads

    def concurrent(self):
        ch, ctx, lib = self.ch, self.ctx, self.lib
        shared = [ch.pick(self.pool) for _ in range(2)]
        # most of the time objects which never answered
        if ch.chance(60):
            for s in shared:
                if not s.hints:
                    s.real = self.fresh(s)
        scripts = [[(s, self.draw_query(s)) for s in (ch.pick(shared) for _ in range(ch.int(1, 4)))]
                   for _ in range(ch.int(2, 3))]
        ctx.event('threads', [[(s.name, str(q)) for s, q in script] for script in scripts])
        ctx.sig('threads', [[(s.name, str(q)) for s, q in script] for script in scripts])
        answers = []

        def body(script):
            for s, q in script:
                answers.append((s, q, q.ask(lib, s.real)))

        scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20, 60), max_preemptions=60)
        threads = [scheduler.spawn(body, script) for script in scripts]
        scheduler.run()
        for thread in threads:
            if thread.exception is not None:
                raise Violation('query-raises', thread.traceback)
        for s, q, got in answers:
            expected = q.ask(lib, self.fresh(s))
            if not close(got, expected):
                raise Violation('concurrent-answer', '{} {}: got {}, expected {}'.format(s.describe(), q, got, expected))
        ctx.probe('concurrent-queries', len(answers))


def run(ctx):
    ch = ctx.ch
    world = World(ctx)
    for _ in range(ch.int(1, 3)):
        world.create()
    for _ in range(ch.int(4, 30)):
        action = ch.weighted([(12, 'query'), (6, 'transform'), (3, 'clone'), (4, 'assign'), (2, 'derive'), (2, 'create'),
                              (2, 'interrupt'), (2, 'box'), (1, 'threads')])
        if action == 'create' or not world.pool:
            world.create()
            continue
        if action == 'threads':
            world.concurrent()
        else:
            shape = ch.pick(world.pool)
            {'query': world.query, 'transform': world.transform, 'clone': world.clone, 'assign': world.assign,
             'derive': world.derive, 'interrupt': world.interrupted_query, 'box': world.extend_box}[action](shape)
        world.check_all(action)
    for shape in world.pool:
        for name in QUERIES[shape.kind]:
            if shape.hints and name in ('is_convex', 'is_concave', 'convex_hull'):
                continue
            if ch.chance(30):
                world.ask(shape, Query(ch, shape.kind, name, shape.data), 'end')
    world.check_all('end')
    ctx.sample = {'objects': [s.describe() for s in world.pool]}
