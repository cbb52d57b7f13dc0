"""C04: a pattern survives any history of save / restart / load / edit sessions, with faults."""

import copy
import os

from sim import session, simfs
from sim.core import Violation
from world import patmodel

ID = 'C04'
GROUPS = ['core', 'measurement', 'pattern']
LEVEL = 'exploration'
QUICK = {'runs': 1600, 'seconds': 100}
THOROUGH = {'runs': 200000, 'seconds': 800}
RULE = ('a run draws a measurement file, then 2-5 sessions, each one in its own process: load the last pattern file (or '
        'build a new pattern), check it against the model, add operations and scopes, change line styles and colours, '
        'save once or twice, with disk errors, short reads and writes, process crashes and power loss; non-trivial: a '
        'pattern was saved by a session and checked by a later one, or a fault was injected; distinct: another sequence '
        'of operations or faults')
REAL = ['Patro.Pattern', 'Patro.FileFormat.Valentina', 'Patro.Common.Xml', 'Patro.Common.AtomicSave',
        'Patro.Measurement', 'Patro.GraphicStyle', 'lxml']
STUB = ['disk (real scratch directory behind an interposed system call layer)', 'process restart (fork)', 'clock',
        'entropy']
ASSUMPTIONS = ['the line style of a spline is not in the file format, it is not compared after a reload',
               'points of contact are generated only where the answer is unique',
               'geometry is compared with a relative tolerance of 1e-7']

FAULTS = ('EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'short', 'torn', 'EDQUOT')


def compare(ctx, real, pattern, model, where, reloaded):
    got = real.dump_pattern(pattern)
    patmodel.compare_pattern(ctx, got, real.expected_pattern(model, reloaded=reloaded), where, 'reloaded' if reloaded else 'live')


def retry(ctx, fs, what, function):
    """Call until it succeeds; the injected faults end."""
    for attempt in range(8):
        before = fs.hard_faults
        try:
            result = function()
        except OSError as error:
            ctx.check(fs.hard_faults > before, 'unexpected-oserror', '{}: {!r}'.format(what, error))
            ctx.event('failed', what, type(error).__name__)
            ctx.probe('retried-after-fault')
            if attempt >= 3:
                fs.stop_faults()
            continue
        # a fault which the operation survives is fine
        return result
    raise Violation('never-succeeds', what)


def edit(ctx, real, model, pattern):
    """Change the pattern and its model in the same way."""
    ch = ctx.ch
    for _ in range(ch.int(0, 4)):
        kind = ch.pick(['operation', 'operation', 'style', 'scope', 'remove'])
        if kind == 'scope':
            if len(model.scopes) >= 3:
                continue
            name = ch.pick(['sleeve', 'collar & co', 'pant']) + str(len(model.scopes))
            model.add_scope(name)
            pattern.add_scope(name)
            ctx.event('edit scope', name)
            continue
        if kind == 'remove':
            if len(model.scopes) < 2:
                continue
            index = ch.draw(len(model.scopes))
            name = model.scopes[index].name
            if [scope.name for scope in model.scopes].index(name) == index:
                ctx.event('remove scope', name)
                model.scopes.pop(index)
                pattern.remove_scope(name)
                ctx.equal(pattern.scope_names(), [scope.name for scope in model.scopes], 'scope-names')
                ctx.probe('scope-removed')
            continue
        index = ch.draw(len(model.scopes))
        scope, real_scope = model.scopes[index], pattern.scope(index)
        if ch.chance(30):
            same = pattern.scope(scope.name)
            ctx.check(same is not None and same.name == scope.name, 'scope-by-name', scope.name)
        if kind == 'operation':
            op = scope.generate(ch, model.measurements, model.used_ids(), ch.chance(20), exotic=True)
            if op is None:
                continue
            real_op = real.apply(op, real_scope.sketch, ch.pick(['name', 'id', 'object']), ch.chance(50))
            ctx.check(op.id is None or real_op.id == op.id, 'given-id-lost', op.describe())
            ctx.check(real_op.id not in model.used_ids() - {op.id}, 'id-attributed-twice',
                      lambda: '{} got the id of another operation: {}'.format(op.describe(), real_op.id))
            op.real_id = real_op.id
            scope.operations.append(op)
            ctx.event('edit', op.describe())
        else:
            lines = [op for op in scope.operations if op.has_line]
            if not lines:
                continue
            op = ch.pick(lines)
            real_op = real_scope.sketch.get_operation(op.real_id)
            if ch.chance(50):
                op.style = op.style_given = ch.pick(patmodel.STYLES)
                real_op.line_style = getattr(real.StrokeStyle, op.style)
            else:
                op.colour = ch.pick(patmodel.COLOURS)
                real_op.line_color = real.colour(op.colour)
            ctx.event('style', op.describe())
    for scope in pattern.scopes:
        scope.sketch.eval()


def lost_by_the_format(model):
    """What the format does not keep."""
    for scope in model.scopes:
        for op in scope.operations:
            if op.kind == 'SimpleInteractiveSpline':
                op.style = op.style_given = 'SolidLine'


def life(ctx, fs, progress, root, layout, path, vit, model, first, candidates):
    """One session. *candidates*: models, one of them must be in the file."""
    from Patro.FileFormat.Valentina.Measurement import VitFile
    from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter
    ch = ctx.ch
    real = patmodel.Real()
    # a relative measurement file is found beside the pattern in the next sessions
    os.chdir(root if first or ch.chance(30) else os.path.join(root, 'elsewhere'))
    if vit and layout == 'relative':
        vit = os.path.basename(vit)

    # other patterns may have been built in this process before: identifiers must not depend on them
    for _ in range(ch.draw(3)):
        other = real.Pattern(None, 'cm').add_scope('other').sketch
        other.SinglePoint('Q', 1, 2, real.Vector2D(0, 0))

    if first:
        vit_file = retry(ctx, fs, 'load measurements', lambda: VitFile(vit)) if vit else None
        pattern = real.build(ch, model, vit_file.measurements if vit_file else None)
        compare(ctx, real, pattern, model, 'built', False)
        progress.append(('model', copy.deepcopy(model)))
    else:
        reader = retry(ctx, fs, 'load', lambda: ValFileReader(path))
        pattern, vit_file = reader.pattern, reader.vit_file
        got = real.dump_pattern(pattern)
        failure = None
        for candidate in candidates:
            try:
                patmodel.compare_pattern(ctx, got, real.expected_pattern(candidate, reloaded=True), 'reloaded', 'reloaded')
            except Violation as violation:
                if failure is None:
                    failure = violation
            else:
                model = copy.deepcopy(candidate)
                break
        else:
            raise failure
        lost_by_the_format(model)
        if vit:
            ctx.check(vit_file is not None, 'measurements-lost', path)
            got = {m.name: m.value for m in vit_file.measurements}
            for name, v in model.measurements.items():
                key = 'C_' + name[1:] if name.startswith('@') else name
                ctx.check(key in got and patmodel.close(float(got[key]), v), 'measurement-value',
                          lambda: '{}: {} instead of {}'.format(name, got.get(key), v))
        ctx.probe('reload-checked')

    for _ in range(ch.int(1, 3)):
        edit(ctx, real, model, pattern)
        compare(ctx, real, pattern, model, 'edited', False)
        target = path
        snapshot = copy.deepcopy(model)
        progress.append(('saving', snapshot))
        for attempt in range(8):
            before = fs.hard_faults
            try:
                ValFileWriter(target, vit_file, pattern)
            except OSError as error:
                ctx.check(fs.hard_faults > before, 'unexpected-oserror', repr(error))
                ctx.probe('save-failed')
                if attempt >= 3:
                    fs.stop_faults()
                # the pattern in memory is the same
                compare(ctx, real, pattern, model, 'after a failed save', False)
                continue
            break
        else:
            raise Violation('never-succeeds', 'save')
        progress.append(('saved', snapshot))
        ctx.event('saved')
        if ch.chance(30):
            # opened again in the same process, beside the first pattern, and used from now on
            reader = retry(ctx, fs, 'load', lambda: ValFileReader(path))
            again = copy.deepcopy(snapshot)
            patmodel.compare_pattern(ctx, real.dump_pattern(reader.pattern), real.expected_pattern(again, reloaded=True),
                                     'reloaded', 'opened again')
            compare(ctx, real, pattern, model, 'beside', False)
            pattern, vit_file, model = reader.pattern, reader.vit_file, again
            lost_by_the_format(model)
            ctx.event('opened again')
            ctx.probe('opened-again')
    ctx.check(not fs.refused, 'written-elsewhere', fs.refused)
    return True


def run(ctx):
    ch = ctx.ch
    root = ctx.scratch()
    measurements = patmodel.generate_measurements(ch)
    unit = ch.pick(['cm', 'mm', 'inch'])
    vit = None
    if measurements and ch.chance(80):
        vit = os.path.join(root, 'measurements.vit')
        with open(vit, 'w') as fh:
            fh.write(patmodel.vit_source(measurements, unit))
    else:
        measurements = {}
    # where the pattern lies, with respect to its measurements and to the current directory
    layout = ch.pick(['same', 'same', 'apart', 'relative'])
    folder = os.path.join(root, 'patterns') if layout == 'apart' else root
    os.makedirs(folder, exist_ok=True)
    os.makedirs(os.path.join(root, 'elsewhere'))
    path = os.path.join(folder, 'pattern.val')
    ctx.event('layout', layout)
    model = patmodel.generate_pattern(ch, measurements, (1, 2), (2, 7), exotic=True, unit=unit)
    for scope in model.scopes:
        for op in scope.operations:
            ctx.event('op', scope.name, op.describe())
    ctx.sig([[op.describe() for op in scope.operations] for scope in model.scopes])
    faulty = ch.chance(60)
    candidates = None
    sessions = ch.int(2, 5)
    saved = 0
    for i in range(sessions):
        first = candidates is None

        def setup(fs):
            if faulty and ch.chance(70):
                kinds = ch.subset(FAULTS, 60)
                fs.plan(kinds, gap_max=ch.pick([4, 12, 30]), faults=ch.int(1, 3), crash=ch.chance(30))

        ctx.event('session', i)
        result = session.run_session(ctx, life, root, layout, path, vit, model, first, candidates, fs_root=root, fs_setup=setup)
        last_saved = None
        pending = None
        for kind, snapshot in result.progress:
            if kind == 'saving':
                pending = snapshot
            elif kind == 'saved':
                last_saved, pending = snapshot, None
                saved += 1
        if last_saved is not None:
            candidates = [last_saved]
        if pending is not None:
            candidates = (candidates or []) + [pending]
        if result.crashed:
            ctx.probe('crashed-session')
            ctx.nontrivial = True
            if result.disk is not None and ch.chance(60):
                simfs.materialise_power_loss(ctx, root, result.disk)
                ctx.probe('power-loss')
        if not os.path.exists(path):
            ctx.check(saved == 0, 'saved-file-lost', path)
            candidates = None
    if saved >= 2:
        ctx.nontrivial = True
    ctx.sample = {'sessions': sessions, 'saves': saved,
                  'pattern': [[op.describe() for op in scope.operations] for scope in model.scopes]}


