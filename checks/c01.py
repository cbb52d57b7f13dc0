"""C01: identifiers and counters under any thread schedule."""

from sim import sched, seams
from sim.core import Violation

ID = 'C01'
GROUPS = ['core', 'measurement', 'pattern']
LEVEL = 'exploration'
QUICK = {'runs': 6000, 'seconds': 45}
THOROUGH = {'runs': 200000, 'seconds': 600}
RULE = ('a run draws 2-4 threads, a script per thread (increments, explicit set/raise, reads; or creations of '
        'identified objects or sketch operations with automatic or explicit identifiers), and a preemption schedule at bytecode '
        'granularity; non-trivial: at least one context switch happened between two threads; distinct: another '
        'sequence of (thread, thread, code location) switches or of operations')
REAL = ['Patro.Common.AtomicCounter', 'Patro.Common.Object', 'Patro.Pattern.Sketch', 'Patro.Pattern.SketchOperation']
STUB = ['threading.Lock/RLock (simulated locks)', 'thread scheduler']
ASSUMPTIONS = ['a thread can be preempted between any two bytecodes of the code under test, single C calls are atomic']


def linearizable(history, initial, apply):
    """Brute force search of a sequential order (Wing & Gong).

    history: list of (invoke, return, operation, result)."""
    n = len(history)
    seen = set()

    def search(done, state):
        if len(done) == n:
            return True
        key = (done, state)
        if key in seen:
            return False
        seen.add(key)
        pending = [i for i in range(n) if i not in done]
        first_return = min(history[i][1] for i in pending)
        for i in pending:
            invoke, _, operation, result = history[i]
            if invoke > first_return:
                continue
            new_state, expected = apply(state, operation)
            if expected == result and search(done | {i}, new_state):
                return True
        return False

    return search(frozenset(), initial)


def apply_counter(state, operation):
    name, value = operation
    if name == 'increment':
        return state + value, state + value
    if name == 'set':
        return (value, 'ok') if value > state else (state, 'ValueError')
    if name == 'raise_to':
        return max(state, value), 'ok'
    if name == 'read':
        return state, state
    raise AssertionError


class Clock:

    def __init__(self):
        self.value = 0

    def tick(self):
        self.value += 1
        return self.value


def run_counter(ctx):
    from Patro.Common.AtomicCounter import AtomicCounter
    ch = ctx.ch
    initial = ch.pick([0, -1, 5, 1000])
    counter = AtomicCounter(initial) if initial or ch.chance(50) else AtomicCounter()
    number_of_threads = ch.int(2, 4)
    mixed = ch.chance(60)
    scripts = []
    for _ in range(number_of_threads):
        script = []
        for _ in range(ch.int(1, 3 if mixed else 5)):
            kinds = ['increment', 'increment', 'increment-by']
            if mixed:
                kinds += ['set', 'raise_to', 'read']
            kind = ch.pick(kinds)
            if kind == 'increment-by':
                script.append(('increment', ch.pick([1, 2, 5])))
            elif kind == 'increment':
                script.append(('increment', None))
            elif kind == 'read':
                script.append(('read', None))
            else:
                script.append((kind, initial + ch.int(-1, 8)))
        scripts.append(script)
    ctx.event('counter', initial, scripts)
    clock = Clock()
    history = []

    def body(tid, script):
        for name, value in script:
            invoke = clock.tick()
            if name == 'increment':
                result = counter.increment() if value is None else counter.increment(value)
                operation = (name, 1 if value is None else value)
            elif name == 'read':
                result = int(counter)
                operation = (name, None)
            else:
                operation = (name, value)
                try:
                    method = getattr(counter, name, None)
                    if method is None:     # raise_to is an extension
                        continue
                    method(value)
                    result = 'ok'
                except ValueError:
                    result = 'ValueError'
            history.append((invoke, clock.tick(), operation, result))

    scheduler = sched.Scheduler(ctx, 'opcode', seams.patro_prefixes(), gaps=(1, 1, 2, 3, 6, 15, 40))
    threads = [scheduler.spawn(body, i, script) for i, script in enumerate(scripts)]
    scheduler.run()
    for thread in threads:
        if thread.exception is not None:
            raise Violation('counter-raises', thread.traceback)
    final = int(counter)
    end = clock.tick()
    history.append((end, clock.tick(), ('read', None), final))
    for entry in sorted(history):
        ctx.event(*entry)
    ctx.sig('counter', initial, scripts)
    ctx.sample = {'initial': initial, 'scripts': scripts, 'history': history}
    increments = [h for h in history if h[2][0] == 'increment']
    if not mixed:
        values = [h[3] for h in increments]
        ctx.check(len(set(values)) == len(values), 'ticket-given-twice', lambda: str(sorted(values)))
        total = sum(h[2][1] for h in increments)
        ctx.check(final == initial + total, 'increment-lost',
                  lambda: 'final {} expected {}'.format(final, initial + total))
    ctx.check(linearizable(history, initial, apply_counter), 'counter-not-linearizable', lambda: str(sorted(history)))


def run_ids(ctx):
    from Patro.Common.Object import ObjectGlobalIdMixin
    ch = ctx.ch

    class A(ObjectGlobalIdMixin):
        def __init__(self, id=None):
            super().__init__(id)

    class B(A):
        pass

    class C(ObjectGlobalIdMixin):
        pass

    classes = [A, B, C]
    number_of_threads = ch.int(2, 4)
    warm = [ch.pick(classes)() for _ in range(ch.int(0, 2))]
    base = max([x.id for x in warm], default=-1)
    scripts = []
    with_explicit = ch.chance(60)
    for _ in range(number_of_threads):
        script = []
        for _ in range(ch.int(1, 5)):
            explicit = None
            if with_explicit and ch.chance(40):
                explicit = max(0, base + ch.int(-1, 12))
            script.append((ch.draw(len(classes)), explicit))
        scripts.append(script)
    clock = Clock()
    history = []
    objects = []

    def body(tid, script):
        for cls, explicit in script:
            invoke = clock.tick()
            obj = classes[cls]() if explicit is None else classes[cls](id=explicit)
            objects.append(obj)
            history.append((invoke, clock.tick(), explicit, obj.id))

    scheduler = sched.Scheduler(ctx, 'opcode', seams.patro_prefixes(), gaps=(1, 1, 2, 3, 6, 15, 40))
    threads = [scheduler.spawn(body, i, script) for i, script in enumerate(scripts)]
    scheduler.run()
    for thread in threads:
        if thread.exception is not None:
            raise Violation('creation-raises', thread.traceback)
    # afterwards, sequentially
    for _ in range(2):
        invoke = clock.tick()
        obj = ch.pick(classes)()
        history.append((invoke, clock.tick(), None, obj.id))
    for entry in sorted(history, key=str):
        ctx.event(*entry)
    ctx.sig('ids', scripts)
    ctx.sample = {'scripts': scripts, 'history': history}
    automatic = [h for h in history if h[2] is None]
    ids = [h[3] for h in automatic] + [x.id for x in warm]
    ctx.check(len(set(ids)) == len(ids), 'identifier-given-twice', lambda: str(sorted(ids)))
    for invoke, end, explicit, got in history:
        ctx.check(isinstance(got, int), 'identifier-type', got)
        if explicit is not None:
            ctx.equal(got, explicit, 'explicit-identifier-changed', 'identifier')
    for h in automatic:
        for other in history:
            if other[1] < h[0]:
                ctx.check(h[3] > other[3], 'identifier-not-increasing',
                          lambda: '{} was created after {}'.format(h, other))
    if not with_explicit:
        ctx.check(sorted(ids) == list(range(min(ids), min(ids) + len(ids))), 'identifier-gap', lambda: str(sorted(ids)))
    # the identifier of an object never changes
    values = sorted(h[3] for h in history[:len(objects)])
    ctx.check(sorted(o.id for o in objects) == values and sorted(int(o) for o in objects) == values,
              'identifier-changed', lambda: str(values))


def run_sketches(ctx):
    """Sketch operations of several patterns, each one built by its own thread."""
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.Pattern.Pattern import Pattern
    ch = ctx.ch
    number_of_threads = ch.int(1, 3)
    scripts = []
    for _ in range(number_of_threads):
        script = []
        for i in range(ch.int(2, 6)):
            kind = ch.pick(['point', 'along', 'line']) if i > 1 else 'point'
            explicit = ch.int(0, 20) if ch.chance(35) else None
            script.append((kind, ch.int(0, 1), explicit))
        scripts.append(script)
    offset = Vector2D(1, 2)
    clock = Clock()
    history = []     # (invoke, return, thread, explicit, got or None when it was refused)
    objects = []

    def body(tid, script):
        pattern = Pattern(None, 'cm')
        sketches = [pattern.add_scope('s{}'.format(i)).sketch for i in range(2)]
        for i, sketch in enumerate(sketches):
            for name in ('P', 'Q'):
                invoke = clock.tick()
                op = sketch.SinglePoint(name, str(i), '2' if name == 'P' else '5', offset)
                objects.append((tid, i, op))
                history.append((invoke, clock.tick(), tid, None, op.id))
        for n, (kind, scope, explicit) in enumerate(script):
            sketch = sketches[scope]
            kwargs = {} if explicit is None else {'id': explicit}
            invoke = clock.tick()
            try:
                if kind == 'point':
                    op = sketch.SinglePoint('N{}'.format(n), '1', '2', offset, **kwargs)
                elif kind == 'along':
                    op = sketch.AlongLinePoint('N{}'.format(n), 'P', 'Q', '2', offset, 'hair', 'black', **kwargs)
                else:
                    op = sketch.Line('P', 'Q', 'hair', 'black', **kwargs)
            except NameError:
                history.append((invoke, clock.tick(), tid, explicit, None))
                continue
            objects.append((tid, scope, op))
            history.append((invoke, clock.tick(), tid, explicit, op.id))
        for i, sketch in enumerate(sketches):
            got = [op.id for op in sketch.operations]
            ctx.equal(got, [op.id for t, s, op in objects if t == tid and s == i], 'operations-of-a-sketch', tid)

    scheduler = sched.Scheduler(ctx, ch.pick(['line', 'opcode']), seams.patro_prefixes(), gaps=(1, 2, 3, 6, 15, 40, 100))
    threads = [scheduler.spawn(body, i, script) for i, script in enumerate(scripts)]
    scheduler.run()
    for thread in threads:
        if isinstance(thread.exception, Violation):
            raise thread.exception
        if thread.exception is not None:
            raise Violation('creation-raises', thread.traceback)
    for entry in sorted(history, key=str):
        ctx.event(*entry)
    ctx.sig('sketches', scripts)
    ctx.sample = {'scripts': scripts, 'history': history}
    automatic = [h for h in history if h[3] is None]
    ids = [h[4] for h in automatic]
    ctx.check(len(set(ids)) == len(ids), 'identifier-given-twice', lambda: str(sorted(ids)))
    for h in history:
        earlier = [other for other in history if other[1] < h[0] and other[4] is not None]
        if h[3] is None:
            for other in earlier:
                ctx.check(h[4] != other[4], 'identifier-given-twice', lambda: '{} was created after {}'.format(h, other))
        else:
            taken = [other for other in earlier if other[2] == h[2] and other[4] == h[3]]
            if h[4] is None:
                ctx.check(taken, 'identifier-refused', h)
                ctx.fault('duplicate-identifier')
            else:
                ctx.equal(h[4], h[3], 'explicit-identifier-changed', 'identifier')
                ctx.check(not taken, 'identifier-accepted-twice', h)
    # identifiers of the operations of a pattern are unique, and stay
    for tid in range(number_of_threads):
        got = sorted(op.id for t, _, op in objects if t == tid)
        ctx.equal(got, sorted(h[4] for h in history if h[2] == tid and h[4] is not None), 'identifier-changed', tid)
        ctx.check(len(set(got)) == len(got), 'identifier-given-twice', lambda: str(got))


def run(ctx):
    kind = ctx.ch.weighted([(3, 'ids'), (3, 'counter'), (2, 'sketches')])
    {'ids': run_ids, 'counter': run_counter, 'sketches': run_sketches}[kind](ctx)
