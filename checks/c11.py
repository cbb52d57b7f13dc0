"""C11: the evaluation of a sketch gives the geometry which its operations define, whatever its history."""

from sim import sched, seams
from sim.faults import ASYNC, interruptible
from world import patmodel

ID = 'C11'
GROUPS = ['core', 'measurement', 'pattern']
LEVEL = 'exploration'
QUICK = {'runs': 4000, 'seconds': 90}
THOROUGH = {'runs': 400000, 'seconds': 800}
RULE = ('a run draws a pattern of one or two sketches and a history: add an operation (any kind, expressions over '
        'measurements, lines, angles and the current length, references by name, id or object), an operation which is '
        'rejected (unknown reference, id already attributed), evaluate, evaluate the sketches in threads, evaluate with an interrupt or a failed allocation '
        'at any line then evaluate again, look up operations; after each evaluation all the operations are compared with '
        'a reference geometry, with the box around them and the geometric objects they give; non-trivial: a rejected operation or an interrupt was injected, or operations were added '
        'after an evaluation; distinct: another history')
REAL = ['Patro.Pattern.Sketch', 'Patro.Pattern.SketchOperation', 'Patro.Pattern.Calculator', 'Patro.GeometryEngine',
        'Patro.Common.Object', 'Patro.Measurement']
STUB = ['thread scheduler', 'asynchronous exceptions', 'hash seed of the process']
ASSUMPTIONS = ['geometry is compared with a relative tolerance of 1e-7, ill-conditioned constructions are not generated',
               'points of contact are generated only where the answer is unique',
               'an interrupt is injected within evaluations, not within the construction of operations']


def valentina_measurements(values):
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    measurements = ValentinaMeasurements()
    for name, v in values.items():
        measurements.add(name, str(v))
    return measurements


def run(ctx):
    ch = ctx.ch
    real = patmodel.Real()
    values = patmodel.generate_measurements(ch)
    measurements = valentina_measurements(values) if values else None
    model = patmodel.PatternModel(ch.pick(['cm', 'mm']), values)
    pattern = real.Pattern(measurements, model.unit)
    for name in ('pant', 'sleeve')[:ch.int(1, 2)]:
        model.add_scope(name)
        pattern.add_scope(name)
    explicit = ch.chance(30)
    evaluated = set()
    lines = 100

    def check(scope, sketch, where):
        got = [real.dump_operation(op) for op in sketch.operations]
        ctx.equal(len(got), len(scope.operations), 'number-of-operations', where)
        for g, op in zip(got, scope.operations):
            expected = real.expected_operation(op, evaluated=op in evaluated, scope=scope)
            patmodel.compare_operation(ctx, g, expected, where, 'sketch')

    def check_geometry(scope, sketch, where):
        # the geometric objects of the operations, and the box around all of them
        points = [op.vector for op in scope.operations if op.vector is not None]
        points += [p for op in scope.operations for p in op.controls or ()]
        if not points:
            return
        for op, real_op in zip(scope.operations, sketch.operations):
            if op.vector is None:
                geometry = real_op.geometry()
                ends = [op.refs['first_point'].vector, op.refs['second_point'].vector]
                expected = [ends[0], *(op.controls or ()), ends[1]]
                got = [(p.x, p.y) for p in geometry.points]
                ctx.check(len(got) == len(expected) and all(map(patmodel.same_points, got, expected)), 'geometry',
                          lambda: '{} {}: {} instead of {}'.format(where, op.describe(), got, expected))
        box = sketch.bounding_box
        xs, ys = [p[0] for p in points], [p[1] for p in points]
        expected = ((min(xs), min(ys)), (max(xs), max(ys)))
        got = ((float(box.x.inf), float(box.y.inf)), (float(box.x.sup), float(box.y.sup)))
        ctx.check(all(map(patmodel.same_points, got, expected)), 'bounding-box',
                  lambda: '{}: {} instead of {}'.format(where, got, expected))

    def static_check(where):
        for scope, real_scope in zip(model.scopes, pattern.scopes):
            check(scope, real_scope.sketch, where)

    def evaluate(scope, sketch):
        nonlocal lines
        ctx.event('eval', scope.name)
        sketch.eval()
        evaluated.update(scope.operations)
        static_check('after eval')
        check_geometry(scope, sketch, 'after eval')

    history = []
    for _ in range(ch.int(4, 18)):
        index = ch.draw(len(model.scopes))
        scope, sketch = model.scopes[index], pattern.scope(index).sketch
        action = ch.weighted([(10, 'add'), (4, 'eval'), (4, 'interrupt'), (2, 'bad-reference'), (2, 'bad-id'),
                              (2, 'lookup'), (2, 'threads'), (2, 'geometry'), (3, 'sweep')])
        history.append(action)
        if action == 'add':
            op = scope.generate(ch, values, model.used_ids(), explicit and ch.chance(60))
            if op is None:
                continue
            if any(x in evaluated for x in scope.operations):
                ctx.nontrivial = True
            mode = ch.pick(['name', 'id', 'object'])
            real_op = real.apply(op, sketch, mode, ch.chance(50))
            ctx.check(op.id is None or real_op.id == op.id, 'given-id-lost', op.describe())
            ctx.check(real_op.id not in {x.real_id for s in model.scopes for x in s.operations}, 'id-attributed-twice',
                      lambda: '{}: {}'.format(op.describe(), real_op.id))
            op.real_id = real_op.id
            scope.operations.append(op)
            ctx.event('add', scope.name, op.describe())
            ctx.sig(op.describe(), mode)
        elif action == 'eval':
            evaluate(scope, sketch)
            ctx.sig('eval')
        elif action == 'interrupt':
            where = ch.int(1, max(1, min(lines, 60 * max(1, len(scope.operations)))))
            try:
                lines = interruptible(ctx, sketch.eval, where)
                ctx.event('not interrupted')
            except ASYNC as error:
                ctx.event('interrupted', type(error).__name__, where)
                ctx.sig('interrupt', where)
                ctx.probe('interrupted-eval')
            evaluate(scope, sketch)
        elif action == 'sweep':
            # interrupted here, then a bit further, and so on, without a complete evaluation in between
            where = ch.int(1, 12 * max(1, len(scope.operations)))
            stride = ch.pick([1, 1, 2, 5])
            for _ in range(ch.int(5, 60)):
                try:
                    lines = interruptible(ctx, sketch.eval, where, switches=True)
                    break
                except ASYNC:
                    ctx.probe('interrupted-eval')
                where += stride
            ctx.sig('sweep', where, stride)
            evaluate(scope, sketch)
        elif action == 'geometry':
            # the geometry which is given away belongs to the caller
            for op, real_op in zip(scope.operations, sketch.operations):
                if op not in evaluated or not ch.chance(60):
                    continue
                ctx.sig('geometry', op.describe())
                geometry = real_op.geometry()
                if op.vector is not None:
                    ctx.check(patmodel.same_points((geometry.x, geometry.y), op.vector), 'geometry', op.describe())
                    geometry *= 3
                    geometry.x += 100
                    ctx.event('geometry moved', op.name)
            static_check('after the geometry was used')
            if ch.chance(50):
                evaluate(scope, sketch)
        elif action == 'threads':
            # each sketch is evaluated by its own thread
            scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20, 60))
            threads = [scheduler.spawn(s.sketch.eval) for s in pattern.scopes]
            scheduler.run()
            for thread in threads:
                ctx.check(thread.exception is None, 'eval-failed', lambda: thread.traceback)
            for s in model.scopes:
                evaluated.update(s.operations)
            static_check('after eval in threads')
            for s, real_scope in zip(model.scopes, pattern.scopes):
                check_geometry(s, real_scope.sketch, 'after eval in threads')
        elif action == 'bad-reference':
            other = scope.generate(ch, values, model.used_ids(), False)
            if other is None or not other.refs:
                continue
            role = ch.pick(sorted(other.refs))
            unknown = patmodel.Operation('SinglePoint')
            unknown.name = 'unknown'
            unknown.real_id = 987654
            other.refs[role] = unknown
            mode = ch.pick(['name', 'id'])
            try:
                real.apply(other, sketch, mode)
            except KeyError:
                ctx.fault('rejected-operation')
            else:
                ctx.check(False, 'unknown-reference-accepted', other.describe())
            static_check('after a rejected operation')
        elif action == 'bad-id':
            used = sorted(x.real_id for s in model.scopes for x in s.operations)
            if not used:
                continue
            other = scope.generate(ch, values, (), False)
            if other is None:
                continue
            other.id = ch.pick(used)
            try:
                real.apply(other, sketch, 'object')
            except NameError:
                ctx.fault('rejected-operation')
            else:
                ctx.check(False, 'id-attributed-twice', other.describe())
            static_check('after a rejected operation')
        else:
            for op, real_op in zip(scope.operations, sketch.operations):
                ctx.check(sketch.get_operation(op.real_id) is real_op, 'lookup-by-id', op.describe())
                ctx.check(sketch.has_operation_id(op.real_id), 'lookup-by-id', op.describe())
                if op.name:
                    ctx.check(sketch.get_operation(op.name) is real_op, 'lookup-by-name', op.describe())
                    ctx.check(sketch.has_operation_id(op.name), 'lookup-by-name', op.describe())
            known = {x.real_id for x in scope.operations}
            elsewhere = [x.real_id for s in model.scopes if s is not scope for x in s.operations]
            for other in (0, 987654, 'unknown', *elsewhere):
                if other not in known:
                    ctx.check(not sketch.has_operation_id(other), 'unknown-operation-found', other)
                    try:
                        found = sketch.get_operation(other)
                    except KeyError:
                        continue
                    ctx.check(False, 'unknown-operation-found', lambda: '{} {}'.format(other, found))
    for scope, real_scope in zip(model.scopes, pattern.scopes):
        evaluate(scope, real_scope.sketch)
        evaluate(scope, real_scope.sketch)
    bases = [(i, op) for i, scope in enumerate(model.scopes) for op in scope.operations if op.vector is not None]
    if bases and ctx.stats.get('probe:interrupted-eval', 0) == 0 and ch.chance(25):
        # the current length is the one of the segment of an operation: elsewhere there is none
        index, base = ch.pick(bases)
        sketch = pattern.scope(index).sketch
        before = [real.dump_operation(op) for op in sketch.operations]
        sketch.EndLinePoint('stray', base.real_id, ch.pick(['0', '30']), ch.pick(['CurrentLength', 'CurrentLength*2', '1 + CurrentLength']),
                            real.Vector2D(0, 0))
        try:
            sketch.eval()
        except Exception as error:
            ctx.event('no current length', type(error).__name__)
            ctx.fault('rejected-expression')
        else:
            ctx.check(False, 'current-length-of-another-operation', lambda: real.dump_operation(sketch.operations[-1]))
        ctx.equal([real.dump_operation(op) for op in sketch.operations[:-1]], before, 'failed-evaluation-changed-geometry')
        ctx.sig('stray')
        history.append('stray')
    ctx.sample = {'history': history, 'pattern': [[op.describe() for op in scope.operations] for scope in model.scopes]}
