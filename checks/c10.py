"""C10: the value of a measurement does not depend on the order of definitions and queries."""

from sim import sched, seams
from sim.faults import ASYNC, interruptible
from world import measmodel

ID = 'C10'
GROUPS = ['core', 'measurement']
LEVEL = 'exploration'
QUICK = {'runs': 4000, 'seconds': 90}
THOROUGH = {'runs': 300000, 'seconds': 800}
RULE = ('a run draws measurements which depend on each other and defines them in two or three sets of the same process '
        '(plain and Valentina sets, with custom measurements), each one in its own order, queries interleaved with the '
        'definitions, an interrupt or a failed allocation at any line of a query, then several threads query the values '
        'in any interleaving, and cyclic definitions; each value is compared with the one of a reference evaluator; '
        'non-trivial: a dependency was defined after a query, a fault fired or threads interleaved; distinct: another '
        'set of measurements, order or interleaving')
REAL = ['Patro.Measurement.Measurement', 'Patro.Measurement.ValentinaMeasurement', 'sympy']
STUB = ['thread scheduler', 'asynchronous exceptions', 'hash seed of the process']
ASSUMPTIONS = ['names of measurements are not names of the sympy language (E, pi, beta ...)',
               'values are compared with a relative tolerance of 1e-9',
               'definitions are made by one thread, queries by any']


class World:

    def __init__(self, ctx, number, valentina):
        from Patro.Measurement.Measurement import MeasurementSet
        from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
        self.ctx = ctx
        self.number = number
        self.valentina = valentina
        self.set = ValentinaMeasurements() if valentina else MeasurementSet()
        self.model = measmodel.Model()
        self.pending = []

    def define(self, entry):
        measmodel.apply(self.set, entry)
        self.model.add(entry)

    def where(self):
        return 'set {}{}'.format(self.number, ' (Valentina)' if self.valentina else '')

    def measurement(self, entry):
        ch = self.ctx.ch
        how = ch.draw(3)
        if how == 0:
            return self.set[entry.symbol]
        if how == 1:
            return getattr(self.set, entry.symbol)
        if self.valentina and entry.name.startswith('@'):
            return self.set[entry.name]
        return next(m for m in self.set if m.name == entry.symbol)

    def query(self, entry):
        return measmodel.check_value(self.ctx, self.measurement(entry), self.model, entry.symbol, self.where())


def run(ctx):
    ch = ctx.ch
    pool = measmodel.NAMES
    custom = ch.chance(50)
    entries = measmodel.generate(ch, ch.int(2, 9), pool=pool + measmodel.CUSTOM if custom else pool, texts=False)
    if not custom and ch.chance(30):
        entries += measmodel.generate(ch, 2, pool=measmodel.SPACED, texts=False,
                                      available=[e.name for e in entries])
    for entry in entries:
        ctx.event('entry', entry.describe())
        ctx.sig(entry.describe())
    worlds = []
    for i in range(ch.int(1, 3)):
        world = World(ctx, i, True if custom else ch.chance(40))
        world.pending = ch.shuffle(entries) if ch.chance(80) else list(entries)
        worlds.append(world)

    # definitions and queries, interleaved
    while any(world.pending for world in worlds):
        world = ch.pick([world for world in worlds if world.pending])
        entry = world.pending.pop(0)
        world.define(entry)
        ctx.event('define', world.number, entry.name)
        for _ in range(ch.pick([0, 1, 0, 2])):
            world = ch.pick(worlds)
            known = list(world.model.entries.values())
            if not known:
                continue
            entry = ch.pick(known)
            if ch.chance(25):
                measurement = world.set[entry.symbol]
                try:
                    interruptible(ctx, lambda: measurement.value, ch.int(1, 40))
                except ASYNC:
                    ctx.probe('interrupted-query')
                except Exception:
                    pass    # unresolved
            elif ch.chance(15):
                # a second definition is refused
                other = measmodel.Entry(entry.name, ('num', str(ch.int(100, 999))))
                try:
                    measmodel.apply(world.set, other)
                except NameError:
                    ctx.fault('rejected-definition')
                else:
                    ctx.check(False, 'second-definition-accepted', entry.name)
            elif ch.chance(10):
                try:
                    world.set.dump()
                except Exception:
                    pass    # unresolved
            elif not world.query(entry):
                ctx.probe('unresolved-query')
                ctx.nontrivial = True

    # threads which query
    for world in worlds:
        if ch.chance(50):
            results = []
            scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20))

            def reader(order):
                for entry in order:
                    results.append((entry, world.set[entry.symbol].value))

            known = list(world.model.entries.values())
            threads = [scheduler.spawn(reader, ch.shuffle(known)) for _ in range(ch.int(2, 3))]
            scheduler.run()
            for thread in threads:
                ctx.check(thread.exception is None, 'concurrent-query-failed', lambda: thread.traceback)
            for entry, got in results:
                v, scale = world.model.value(entry.symbol)
                ctx.check(abs(got - v) <= 1e-9 * max(1, scale), 'wrong-value', lambda: '{} thread: {} is {} instead of '
                          '{}'.format(world.where(), entry.describe(), got, v))

    # cyclic definitions do not make a value, and do no harm to the others
    if ch.chance(40):
        world = ch.pick(worlds)
        n = ch.int(1, 3)
        cycle = ['cycle{}'.format(i) for i in range(n)]
        for i, name in enumerate(cycle):
            op = ch.pick('+-*')
            ast = ('bin', op, ('meas', cycle[(i + 1) % n]), ('num', str(ch.int(2, 9))))
            world.define(measmodel.Entry(name, ast))
            if ch.chance(50):
                world.query(world.model.entries[ch.pick(cycle[:i + 1])])
        for name in cycle:
            world.query(world.model.entries[name])
        ctx.probe('cycle')

    # every value, in any order, twice
    for world in worlds:
        for _ in range(2):
            for entry in ch.shuffle(list(world.model.entries.values())):
                world.query(entry)
        iterated = {m.name for m in world.set}
        ctx.equal(iterated, set(world.model.entries), 'measurement-names', world.where())
        names = [m.name for m in world.set.sorted_iter()]
        ctx.check(set(names) == iterated, 'sorted-iteration', lambda: repr(names))
    ctx.sample = {'measurements': [entry.describe() for entry in entries],
                  'orders': [[e.name for e in world.model.entries.values()] for world in worlds]}
