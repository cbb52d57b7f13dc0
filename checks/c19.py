"""C19: a transformation does what its steps do one after the other."""

import math

from sim import sched, seams
from sim.core import Violation
from sim.faults import ASYNC, interruptible
from world import shapes
from world.shapes import apply, close, coordinate, draw_point, draw_spec, matrix, product, similarity

ID = 'C19'
GROUPS = ['core', 'scene']
LEVEL = 'exploration'
QUICK = {'runs': 10000, 'seconds': 60}
THOROUGH = {'runs': 600000, 'seconds': 600}
RULE = ('a run draws a pool of transformations and a history of compositions with * and *=, copies, uses of a result as an '
        'operand of the next ones, rejected compositions and lengths, interrupted compositions and threads which compose '
        'and apply the same transformations; each transformation maps points, vectors, lengths and objects as its own '
        'list of steps does; non-trivial: a composed transformation was used, or a fault happened; distinct: another '
        'history')
REAL = ['Patro.GeometryEngine.Transformation', 'Patro.GeometryEngine.Vector', 'Patro.GeometryEngine.Primitive']
STUB = ['asynchronous exceptions', 'thread scheduler']
ASSUMPTIONS = ['nobody changes the matrix which a transformation exposes',
               'what an interrupted *= leaves is not judged']

POINTS = [(0, 0), (1, 0), (0, 1), (-7.25, 3.5), (12.5, -20.25)]
LINEAR = ('identity', 'parity', 'x-reflection', 'y-reflection', 'rotation', 'scale', 'stretch')


def follow(steps, point):
    """Apply the steps one after the other."""
    for m in steps:
        point = apply(m, point)
    return point


def total(steps):
    m = (1, 0, 0, 1, 0, 0)
    for step in steps:
        m = product(step, m)
    return m


class Item:

    def __init__(self, name, real, steps, affine):
        self.name, self.real, self.steps, self.affine = name, real, list(steps), affine

    @property
    def scale(self):
        return max(1, max(abs(x) for x in total(self.steps)))


class World:

    def __init__(self, ctx):
        self.ctx, self.ch = ctx, ctx.ch
        self.lib = shapes.Library()
        self.pool = []
        self.count = 0

    def add(self, real, steps, affine):
        self.count += 1
        item = Item('t{}'.format(self.count), real, steps, affine)
        self.ctx.check(all(x.real is not real for x in self.pool), 'result-is-an-operand', item.name)
        if len(self.pool) >= 8:
            self.pool.pop(self.ch.draw(len(self.pool)))
        self.pool.append(item)
        return item

    def create(self, affine=None):
        ch = self.ch
        if affine is None:
            affine = ch.chance(75)
        spec = draw_spec(ch, affine=affine)
        if affine and spec[0] in LINEAR:
            # the affine class has no own constructor for all of them
            spec = {'rotation': ('affine-rotation',) + spec[1:], 'scale': ('affine-scale',) + spec[1:],
                    'stretch': ('affine-stretch',) + spec[1:], 'identity': ('affine-identity',),
                    'parity': ('affine-stretch', -1, -1), 'x-reflection': ('affine-stretch', -1, 1),
                    'y-reflection': ('affine-stretch', 1, -1)}[spec[0]]
        m = matrix(spec)
        how = ch.pick(['named', 'named', 'matrix'])
        if how == 'named':
            real = self.lib.transformation(spec)
        else:
            a, b, c, d, e, f = m
            real = self.lib.A([a, b, e, c, d, f, 0, 0, 1]) if affine else self.lib.T([a, b, c, d])
        item = self.add(real, [m], affine)
        self.ctx.event('create', item.name, spec, how)
        self.ctx.sig('create', spec, how)
        return item

    # ---------------------------------------------------------------- oracles

    def vector(self, point):
        return self.lib.Vector2D(float(point[0]), float(point[1]))

    def check_points(self, item, where, real=None):
        real = item.real if real is None else real
        tolerance = 1e-9 * item.scale * 10
        for point in POINTS:
            expected = follow(item.steps, point)
            v = self.vector(point)
            got = real * v
            if abs(float(got.x) - expected[0]) > tolerance or abs(float(got.y) - expected[1]) > tolerance:
                raise Violation('point', '{}: {} maps {} to ({}, {}), its steps to {}: {}'.format(
                    where, item.name, point, got.x, got.y, expected, item.steps))
            self.ctx.check((v.x, v.y) == point and got is not v, 'operand', where)

    def check_type(self, item, where):
        """What the transformation declares is true."""
        name = item.real.type.name
        a, b, c, d, e, f = total(item.steps)
        tolerance = 1e-9 * item.scale
        same = lambda *pairs: all(abs(x - y) <= tolerance for x, y in pairs)
        still = same((e, 0), (f, 0))
        k = similarity((a, b, c, d))
        truth = {
            'Identity': lambda: still and same((a, 1), (b, 0), (c, 0), (d, 1)),
            'Parity': lambda: still and same((a, -1), (b, 0), (c, 0), (d, -1)),
            'XParity': lambda: still and same((a, -1), (b, 0), (c, 0), (d, 1)),
            'YParity': lambda: still and same((a, 1), (b, 0), (c, 0), (d, -1)),
            'Scale': lambda: still and same((a, d), (b, 0), (c, 0)),
            'Shear': lambda: still and same((b, 0), (c, 0)),
            'Rotation': lambda: still and k is not None and abs(k - 1) <= 1e-9 and a * d - b * c > 0,
            'Translation': lambda: same((a, 1), (b, 0), (c, 0), (d, 1)),
            'Generic': lambda: True,
        }[name]
        self.ctx.check(truth(), 'type', lambda: '{}: {} is declared {}: {}'.format(where, item.name, name, item.steps))
        self.ctx.check(item.real.is_identity == (name == 'Identity'), 'is-identity', where)

    def check_length(self, item, where):
        length = self.ch.pick([1, 2.5, 10])
        k = similarity(total(item.steps))
        try:
            got = item.real * length
        except ValueError:
            if k is not None:
                raise Violation('length-rejected', '{}: {} scales the lengths by {}: {}'.format(
                    where, item.name, k, item.steps))
            self.ctx.fault('rejected-length')
            return
        if k is None:
            raise Violation('length-accepted', '{}: {} has no scale factor, got {}: {}'.format(
                where, item.name, got, item.steps))
        if not close(float(got), length * k, 1e-7):
            raise Violation('length', '{}: {} scales {} to {}, expected {}: {}'.format(
                where, item.name, length, got, length * k, item.steps))

    def check_all(self, where):
        for item in self.pool:
            self.check_points(item, where)
            self.check_type(item, where)
        if self.pool:
            self.check_length(self.ch.pick(self.pool), where)
        self.ctx.step()

    # ---------------------------------------------------------------- actions

    def pair(self):
        a = self.ch.pick(self.pool)
        same = [x for x in self.pool if x.affine == a.affine]
        return a, self.ch.pick(same)

    def usable(self, *items):
        """The numbers stay in a range where they can be compared."""
        return sum(len(i.steps) for i in items) <= 24 and math.prod(i.scale for i in items) < 1e7

    def multiply(self):
        a, b = self.pair()
        if not self.usable(a, b):
            return
        item = self.add(a.real * b.real, b.steps + a.steps, a.affine)
        self.ctx.check(type(item.real) is type(a.real), 'class', item.name)
        self.ctx.nontrivial = True
        self.ctx.event('multiply', a.name, b.name, item.name)
        self.ctx.sig('multiply', a.name, b.name)

    def extend(self):
        a, b = self.pair()
        if not self.usable(a, b):
            return
        real = a.real
        real *= b.real
        self.ctx.check(real is a.real, 'in-place-is-a-copy', a.name)
        a.steps = a.steps + b.steps
        self.ctx.nontrivial = True
        self.ctx.event('extend', a.name, b.name)
        self.ctx.sig('extend', a.name, b.name)

    def copy(self):
        a = self.ch.pick(self.pool)
        how = self.ch.pick(['constructor', 'list', 'array'])
        value = {'constructor': lambda: a.real, 'list': lambda: a.real.to_list(), 'array': lambda: a.real.array}[how]()
        item = self.add(type(a.real)(value), a.steps, a.affine)
        self.ctx.event('copy', a.name, item.name, how)
        self.ctx.sig('copy', a.name, how)

    def inverse(self):
        """Compose with the steps which undo a transformation."""
        a = self.ch.pick(self.pool)
        m = total(a.steps)
        A, B, C, D, E, F = m
        det = A * D - B * C
        if abs(det) < 1e-3 or not self.usable(a, a):
            return
        n = (D / det, -B / det, -C / det, A / det)
        n += (-(n[0] * E + n[1] * F), -(n[2] * E + n[3] * F))
        a_, b_, c_, d_, e_, f_ = n
        real = self.lib.A([a_, b_, e_, c_, d_, f_, 0, 0, 1]) if a.affine else self.lib.T([a_, b_, c_, d_])
        undo = Item('u', real, [n], a.affine)
        result = undo.real * a.real
        for point in POINTS:
            got = result * self.vector(point)
            if abs(got.x - point[0]) > 1e-6 * a.scale or abs(got.y - point[1]) > 1e-6 * a.scale:
                raise Violation('inverse', '{} then its inverse maps {} to {}'.format(a.name, point, got))
        self.ctx.sig('inverse', a.name)

    def reject(self):
        """A composition which is refused changes nothing."""
        ch = self.ch
        a = ch.pick(self.pool)
        others = [x.real for x in self.pool if x.affine != a.affine and x.real.type.name != 'Identity']
        bad = ch.pick([None, 'x', [1, 2]] + others + others)
        how = ch.pick(['*', '*='])
        try:
            if how == '*':
                a.real * bad
            else:
                real = a.real
                real *= bad
        except (ValueError, TypeError, AttributeError):
            pass
        else:
            raise Violation('accepted', '{} {} {!r}'.format(a.name, how, bad))
        self.ctx.fault('rejected-composition')
        self.ctx.nontrivial = True
        self.ctx.event('reject', a.name, how, type(bad).__name__)
        self.ctx.sig('reject', a.name, how, type(bad).__name__)

    def interrupt(self):
        a, b = self.pair()
        if not self.usable(a, b):
            return
        where = self.ch.int(1, 12)
        try:
            interruptible(self.ctx, lambda: a.real * b.real, where)
        except ASYNC:
            self.ctx.nontrivial = True
        self.ctx.event('interrupt', a.name, b.name, where)
        self.ctx.sig('interrupt', a.name, b.name, where)

    def transform(self):
        """Objects go where their points go."""
        ch, lib = self.ch, self.lib
        item = ch.pick(self.pool)
        if item.scale > 1e4:
            return
        kind = ch.pick(['segment', 'polygon', 'cubic', 'circle', 'polyline'])
        data = shapes.draw_definition(ch, kind)
        obj = lib.build(kind, data)
        m = total(item.steps)
        self.ctx.event('transform', item.name, kind)
        self.ctx.sig('transform', item.name, kind, data)
        if kind == 'circle':
            k = similarity(m)
            try:
                obj.apply_transformation(item.real)
            except ValueError:
                self.ctx.check(k is None, 'circle-rejected', lambda: '{}: {}'.format(item.name, item.steps))
                return
            self.ctx.check(k is not None, 'circle-accepted', lambda: '{}: {}'.format(item.name, item.steps))
            got = (float(obj.center.x), float(obj.center.y), float(obj.radius))
            expected = apply(m, data[0]) + (data[1] * k,)
        else:
            clone = ch.chance(50)
            result = obj.transform(item.real, clone=clone)
            if clone:
                self.ctx.check(close(lib.definition(kind, obj), tuple(data)), 'original', item.name)
            got = lib.definition(kind, result)
            expected = tuple(apply(m, p) for p in data)
        if not close(got, expected, 1e-7):
            raise Violation('object', '{} transforms {} {} to {}, expected {}: {}'.format(
                item.name, kind, data, got, expected, item.steps))

    def homogeneous(self):
        from Patro.GeometryEngine.Vector import HomogeneousVector2D
        items = [x for x in self.pool if x.affine]
        if not items:
            return
        item = self.ch.pick(items)
        point = draw_point(self.ch)
        got = item.real * HomogeneousVector2D(self.vector(point))
        expected = follow(item.steps, point) + (1.0,)
        if not close(tuple(float(x) for x in got.v), tuple(float(x) for x in expected), 1e-7):
            raise Violation('homogeneous', '{} maps {} to {}, expected {}'.format(item.name, point, got, expected))
        self.ctx.sig('homogeneous', item.name, point)

    def threads(self):
        """Several threads compose and apply the same transformations."""
        ch, ctx = self.ch, self.ctx
        shared = [ch.pick(self.pool) for _ in range(3)]
        results = []

        def body(script, private):
            for what, a, b, point in script:
                if what == 'apply':
                    results.append((a.real * self.vector(point), a.steps, point))
                elif what == 'multiply':
                    results.append((a.real * b.real, b.steps + a.steps, None))
                else:
                    real, steps = private
                    real *= a.real
                    steps = steps + a.steps
                    private = (real, steps)
            if private is not None:
                results.append((private[0], private[1], None))

        scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20), max_preemptions=60)
        threads = []
        for _ in range(ch.int(2, 3)):
            script = []
            kind = ch.pick([x.affine for x in shared])
            mine = [x for x in shared if x.affine == kind]
            for _ in range(ch.int(1, 4)):
                a, b = ch.pick(mine), ch.pick(mine)
                if self.usable(a, b):
                    script.append((ch.pick(['apply', 'multiply', 'extend']), a, b, draw_point(ch)))
            start = (self.lib.A if kind else self.lib.T).Identity()
            ctx.event('thread', [(s[0], s[1].name, s[2].name) for s in script])
            ctx.sig('thread', [(s[0], s[1].name, s[2].name) for s in script])
            threads.append(scheduler.spawn(body, script, (start, [])))
        scheduler.run()
        for thread in threads:
            if thread.exception is not None:
                raise Violation('thread-raises', thread.traceback)
        for real, steps, point in results:
            item = Item('concurrent', real, steps, None)
            if point is None:
                if item.scale < 1e8:
                    self.check_points(item, 'threads')
                    self.check_type(item, 'threads')
            else:
                expected = follow(steps, point)
                if not close((float(real.x), float(real.y)), tuple(map(float, expected)), 1e-7):
                    raise Violation('concurrent-point', '{} instead of {}'.format(real, expected))
        ctx.probe('concurrent-results', len(results))
        ctx.nontrivial = True


def run(ctx):
    ch = ctx.ch
    world = World(ctx)
    world.lib.T, world.lib.A = world.lib.Transformation2D, world.lib.AffineTransformation2D
    affine = ch.pick([None, True, True, False])
    for _ in range(ch.int(1, 4)):
        world.create(affine)
    for _ in range(ch.int(3, 25)):
        action = ch.weighted([(8, 'multiply'), (8, 'extend'), (3, 'create'), (3, 'copy'), (2, 'inverse'), (2, 'reject'),
                              (2, 'interrupt'), (4, 'transform'), (1, 'homogeneous'), (1, 'threads')])
        if action == 'create':
            world.create(affine)
        else:
            getattr(world, action)()
        world.check_all(action)
    ctx.sample = {'transformations': [(x.name, x.real.type.name, len(x.steps)) for x in world.pool]}
