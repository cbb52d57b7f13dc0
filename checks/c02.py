"""C02: singletons under any thread schedule and with failing constructors."""

from sim import sched, seams
from sim.core import Violation

ID = 'C02'
GROUPS = ['Patro.Common.Singleton']
HEAVY = False
LEVEL = 'exploration'
QUICK = {'runs': 6000, 'seconds': 45}
THOROUGH = {'runs': 200000, 'seconds': 600}
RULE = ('a run draws singleton classes (plain, derived, nested construction, constructors which fail a drawn number of '
        'times), 2-4 threads with a script of instantiations, and a preemption schedule at bytecode granularity, the '
        'constructors being preemptible too; non-trivial: a context switch or a failing constructor happened; '
        'distinct: another sequence of switches or scripts')
REAL = ['Patro.Common.Singleton']
STUB = ['threading.Lock/RLock (simulated locks)', 'thread scheduler', 'the singleton classes are the ones of the workload']
ASSUMPTIONS = ['a thread can be preempted between any two bytecodes of the code under test',
               'only the metaclass is claimed to be thread safe, the decorators and the shared-state class are '
               'exercised by one thread at a time']


class ConstructorFault(Exception):
    pass


class ConstructorInterrupt(KeyboardInterrupt):
    pass


FAULTS = (ConstructorFault, ConstructorInterrupt)


def build_classes(ctx, metaclass):
    """A family of singleton classes, and the log of their constructions."""
    ch = ctx.ch
    log = []       # (event, class name)
    faults = {}    # class name -> number of failures to come

    def construct(self, cls, nested):
        log.append(('begin', cls.__name__))
        for _ in range(3):
            sched.yield_point('constructor')
        if faults.get(cls.__name__, 0) > 0:
            faults[cls.__name__] -= 1
            log.append(('fail', cls.__name__))
            ctx.fault('constructor-raises')
            raise ch.pick(FAULTS)(cls.__name__)
        if nested is not None:
            try:
                self.nested = nested()
            except FAULTS:
                log.append(('fail', cls.__name__))
                raise
        sched.yield_point('constructor')
        self.ready = True
        log.append(('end', cls.__name__))

    class Alpha(metaclass=metaclass):
        def __init__(self, *args, **kwargs):
            self.args = (args, kwargs)
            construct(self, type(self), None)

    class Beta(metaclass=metaclass):
        def __init__(self, *args, **kwargs):
            self.args = (args, kwargs)
            construct(self, type(self), nested_of['Beta'])

    class Gamma(Alpha):
        # an empty container is false
        def __len__(self):
            return 0

    class Delta(Gamma):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.delta = True

    nested_of = {'Beta': Alpha if ch.chance(50) else None}
    classes = [Alpha, Beta, Gamma, Delta]
    for cls in classes:
        if ch.chance(25):
            faults[cls.__name__] = ch.int(1, 2)
    return classes, log, faults, nested_of


def check_instances(ctx, classes, log, got, nested_of):
    """got: [(class, object)] of the successful instantiations"""
    by_class = {}
    for cls, obj in got:
        by_class.setdefault(cls, []).append(obj)
    for cls, objects in by_class.items():
        first = objects[0]
        ctx.check(all(obj is first for obj in objects), 'several-instances', cls.__name__)
        ctx.check(type(first) is cls, 'wrong-class', lambda: '{} for {}'.format(type(first).__name__, cls.__name__))
        ctx.check(getattr(first, 'ready', False), 'half-constructed', cls.__name__)
    for cls in classes:
        ends = sum(1 for event, name in log if event == 'end' and name == cls.__name__)
        ctx.check(ends <= 1, 'constructed-several-times', '{} {}'.format(cls.__name__, ends))
        if cls in by_class:
            ctx.check(ends == 1, 'never-constructed', cls.__name__)
        # one construction at a time
        running = 0
        for event, name in log:
            if name == cls.__name__:
                running += 1 if event == 'begin' else -1
                ctx.check(running <= 1, 'concurrent-constructions', cls.__name__)
    objects = [objs[0] for objs in by_class.values()]
    ctx.check(len({id(obj) for obj in objects}) == len(objects), 'instance-shared-by-classes',
              [type(o).__name__ for o in objects])


def run_threads(ctx):
    from Patro.Common.Singleton import SingletonMetaClass
    ch = ctx.ch
    classes, log, faults, nested_of = build_classes(ctx, SingletonMetaClass)
    scripts = []
    for _ in range(ch.int(2, 4)):
        scripts.append([ch.draw(len(classes)) for _ in range(ch.int(1, 4))])
    ctx.event('scripts', scripts, sorted(faults.items()), nested_of['Beta'] is not None)
    ctx.sig(scripts, sorted(faults.items()))
    got = []

    def body(tid, script):
        for index in script:
            cls = classes[index]
            try:
                obj = cls(tid)
            except FAULTS:
                continue
            # whoever gets it, it is complete
            ctx.check(obj.__dict__.get('ready', False), 'half-constructed', cls.__name__)
            got.append((cls, obj))

    scheduler = sched.Scheduler(ctx, 'opcode', seams.patro_prefixes(), gaps=(1, 1, 2, 3, 6, 15, 40))
    threads = [scheduler.spawn(body, i, script) for i, script in enumerate(scripts)]
    scheduler.run()
    for thread in threads:
        if thread.exception is not None:
            raise Violation('instantiation-raises', thread.traceback)
    ctx.event('log', log)
    ctx.sample = {'scripts': scripts, 'log': log}
    check_instances(ctx, classes, log, got, nested_of)
    # once the faults stop, each class can be instantiated
    for cls in classes:
        for _ in range(6):
            try:
                got.append((cls, cls('late')))
                break
            except FAULTS:
                pass
        else:
            raise Violation('never-recovers', cls.__name__)
    check_instances(ctx, classes, log, got, nested_of)
    # a class is not another one which has the same name
    if ch.chance(30):
        for cls in classes:
            twin = type(cls)(cls.__name__, (), {'__module__': cls.__module__, '__qualname__': cls.__qualname__})
            ctx.check(type(twin()) is twin and twin() is twin(), 'wrong-class', 'twin of ' + cls.__name__)
        for cls, obj in got:
            ctx.check(cls() is obj, 'several-instances', cls.__name__)


def run_decorators(ctx):
    """One thread, histories of instantiations with failing constructors."""
    from Patro.Common.Singleton import monostate, singleton, singleton_func
    ch = ctx.ch
    decorator = ch.pick([singleton, singleton_func])
    log = []
    faults = {}

    def make(name):
        class K:
            def __init__(self, *args):
                self.args = args
                if faults.get(name, 0) > 0:
                    faults[name] -= 1
                    ctx.fault('constructor-raises')
                    raise ch.pick(FAULTS)(name)
                log.append(name)

            def __len__(self):
                return len(self.args) - 1
        # classes of several modules can have the same name
        K.__name__ = K.__qualname__ = name if distinct else 'K'
        return decorator(K)

    names = ['X', 'Y', 'Z']
    distinct = ch.chance(60)
    factories = {name: make(name) for name in names}
    for name in names:
        if ch.chance(30):
            faults[name] = ch.int(1, 2)

    class M(monostate):
        pass

    class N(M):
        pass

    shared = {}
    got = {}
    history = []
    for _ in range(ch.int(2, 10)):
        kind = ch.pick(['call', 'call', 'mono-new', 'mono-set', 'mono-del'])
        if kind == 'call':
            name = ch.pick(names)
            try:
                obj = factories[name](len(history))
                history.append((kind, name))
                if name in got:
                    ctx.check(got[name] is obj, 'several-instances', name)
                got[name] = obj
            except FAULTS:
                history.append(('fault', name))
        else:
            cls = ch.pick([M, N])
            obj = cls()
            if kind == 'mono-set':
                key, value = ch.pick('abc'), ch.draw(10)
                setattr(obj, key, value)
                shared[key] = value
            elif kind == 'mono-del' and shared:
                key = ch.pick(sorted(shared))
                delattr(obj, key)
                del shared[key]
                ctx.check(not hasattr(M(), key) and not hasattr(N(), key), 'state-not-shared', 'removed ' + key)
            history.append((kind, cls.__name__))
            for other in (obj, M(), N()):
                state = {k: getattr(other, k, None) for k in shared}
                ctx.equal(state, shared, 'state-not-shared', cls.__name__)
        ctx.nontrivial = True
    ctx.event('history', history)
    ctx.sig(history)
    ctx.sample = {'history': history}
    for name in names:
        ctx.check(log.count(name) == (1 if name in got else 0), 'constructed-several-times', name)
    ctx.check(len({id(o) for o in got.values()}) == len(got), 'instance-shared-by-classes')


def run(ctx):
    if ctx.ch.chance(12):
        run_decorators(ctx)
    else:
        run_threads(ctx)
