"""C08: a set of measurements survives any history of save / restart / load / edit sessions, with faults."""

import copy
import os

from sim import session, simfs
from sim.core import Violation
from world import measmodel

ID = 'C08'
GROUPS = ['core', 'measurement']
LEVEL = 'exploration'
QUICK = {'runs': 1500, 'seconds': 90}
THOROUGH = {'runs': 300000, 'seconds': 800}
RULE = ('a run draws 2-5 sessions over up to two YAML files, each session in its own process: load one or both files in a '
        'set, check names, values, expressions and texts against the model, query values, add measurements (numbers, '
        'expressions over other measurements, missing ones too), save, with disk errors, short reads and writes, process '
        'crashes and power loss; non-trivial: a set was saved by a session and checked by a later one, or a fault was '
        'injected; distinct: another set of measurements or sequence of faults')
REAL = ['Patro.Measurement (plain and Valentina sets)', 'Patro.Common.AtomicSave', 'sympy', 'yaml']
STUB = ['disk (real scratch directory behind an interposed system call layer)', 'process restart (fork)', 'entropy']
ASSUMPTIONS = ['names of measurements are not names of the sympy language (E, pi, beta ...)',
               'expressions are compared through their values, sympy can reorder them',
               'values are compared with a relative tolerance of 1e-9']

FAULTS = ('EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'short', 'torn', 'EDQUOT')


def compare(ctx, measurements, model, where):
    # a custom Valentina measurement has two keys
    got = sorted({m.name for m in measurements})
    ctx.equal(got, sorted(model.entries), 'measurement-names', where)
    names = list(dict.fromkeys(m.name for m in measurements.sorted_iter()))
    ctx.equal(sorted(names), sorted(model.entries), 'sorted-iteration', where)
    for name, entry in model.entries.items():
        m = measurements[name]
        ctx.equal(m.full_name, entry.full_name, 'full-name', '{} {}'.format(where, name))
        ctx.equal(m.description, entry.description, 'description', '{} {}'.format(where, name))
        free = {str(s) for s in getattr(m.expression, 'free_symbols', ())}
        ctx.check(free <= measmodel.names(entry.ast), 'expression-names', lambda: '{} {}: {} instead of {}'.format(
            where, name, free, measmodel.names(entry.ast)))
        measmodel.check_value(ctx, m, model, name, where)


def life(ctx, fs, progress, root, paths, disk):
    """*disk*: path -> candidate models."""
    from Patro.Measurement.Measurement import MeasurementSet
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    ch = ctx.ch
    os.chdir(root)
    valentina = ch.chance(35)
    measurements = ValentinaMeasurements() if valentina else MeasurementSet()
    model = measmodel.Model()
    known = sorted(path for path in paths if path in disk)
    loaded = known[:1]
    if known and ch.chance(50):
        loaded = [ch.pick(known)]
    for path in loaded:
        for attempt in range(8):
            before = fs.hard_faults
            try:
                measurements.load_yaml(path)
            except OSError as error:
                ctx.check(fs.hard_faults > before, 'unexpected-oserror', repr(error))
                ctx.check(not list(measurements), 'partial-load', path)
                if attempt >= 3:
                    fs.stop_faults()
                continue
            break
        failure = None
        for candidate in disk[path]:
            try:
                compare(ctx, measurements, candidate, 'reloaded')
            except Violation as violation:
                failure = failure or violation
            else:
                model = copy.deepcopy(candidate)
                break
        else:
            raise failure
        ctx.probe('reload-checked')
        progress.append(('loaded', path, copy.deepcopy(model)))
    others, backups = [], []
    for _ in range(ch.int(1, 3)):
        # edit
        pool = measmodel.NAMES + (measmodel.CUSTOM if valentina else measmodel.SPACED)
        pending = measmodel.generate(ch, ch.int(0, 6), pool, forbidden=list(model.entries), available=sorted(model.entries))
        if ch.chance(40):
            pending = ch.shuffle(pending)
        if pending and ch.chance(20):
            pending.pop(0)    # some measurements can miss one
        for entry in pending:
            if model.reaches(entry.ast, entry.symbol):
                continue    # a cycle, see C10
            measmodel.apply(measurements, entry)
            model.add(entry)
            ctx.event('add', entry.describe())
            ctx.sig(entry.describe())
            if ch.chance(40):
                name = ch.pick(sorted(model.entries))
                measmodel.check_value(ctx, measurements[name], model, name, 'live')
        if model.entries and ch.chance(30):
            # a duplicate is rejected and changes nothing
            name = ch.pick(sorted(model.entries))
            try:
                measurements.add(name, '1234')
            except NameError:
                pass
            else:
                raise Violation('duplicate-accepted', name)
        compare(ctx, measurements, model, 'live')
        path = ch.pick(paths)
        snapshot = copy.deepcopy(model)
        progress.append(('saving', path, snapshot))
        for attempt in range(8):
            before = fs.hard_faults
            try:
                measurements.save_as_yaml(path)
            except OSError as error:
                ctx.check(fs.hard_faults > before, 'unexpected-oserror', repr(error))
                ctx.probe('save-failed')
                if attempt >= 3:
                    fs.stop_faults()
                compare(ctx, measurements, model, 'after a failed save')
                continue
            break
        else:
            raise Violation('never-succeeds', 'save')
        progress.append(('saved', path, snapshot))
        ctx.event('saved', os.path.basename(path))
        with simfs.paused(), open(path, 'rb') as fh:
            backups.append((path, fh.read(), snapshot))
        older = [backup for backup in backups[:-1] if backup[0] == path]
        if older and ch.chance(50):
            # the user takes a backup back, in place
            path, data, snapshot = ch.pick(older)
            with simfs.paused(), open(path, 'wb') as fh:
                fh.write(data)
            fs.begin()
            progress.append(('saved', path, snapshot))
            ctx.event('backup taken back')
            ctx.probe('backup-taken-back')
        if ch.chance(40):
            # opened again in the same process, beside the first set, and used from now on
            again = type(measurements)()
            for attempt in range(8):
                before = fs.hard_faults
                try:
                    again.load_yaml(path)
                except OSError as error:
                    ctx.check(fs.hard_faults > before, 'unexpected-oserror', repr(error))
                    ctx.check(not list(again), 'partial-load', path)
                    if attempt >= 3:
                        fs.stop_faults()
                    continue
                break
            compare(ctx, again, snapshot, 'opened again')
            others.append((measurements, model))
            measurements, model = again, copy.deepcopy(snapshot)
            ctx.event('opened again')
            ctx.probe('opened-again')
    for other, its_model in others:
        compare(ctx, other, its_model, 'the former set')
    ctx.check(not fs.refused, 'written-elsewhere', fs.refused)


def run(ctx):
    ch = ctx.ch
    root = ctx.scratch()
    paths = [os.path.join(root, name) for name in ('measurements.yaml', 'client Durand.yaml')][:ch.int(1, 2)]
    disk = {}
    faulty = ch.chance(60)
    sessions = ch.int(2, 5)
    saves = 0
    for i in range(sessions):

        def setup(fs):
            if faulty and ch.chance(70):
                fs.plan(ch.subset(FAULTS, 60), gap_max=ch.pick([4, 12, 30]), faults=ch.int(1, 3), crash=ch.chance(30))

        ctx.event('session', i)
        result = session.run_session(ctx, life, root, paths, disk, fs_root=root, fs_setup=setup)
        for kind, path, model in result.progress:
            if kind == 'loaded':
                disk[path] = [model]
            elif kind == 'saving':
                disk[path] = disk.get(path, [None]) + [model]
            else:
                disk[path] = [model]
                saves += 1
        if result.crashed:
            ctx.probe('crashed-session')
            if result.disk is not None and ch.chance(60):
                simfs.materialise_power_loss(ctx, root, result.disk)
                ctx.probe('power-loss')
        for path in paths:
            if path not in disk:
                continue
            if os.path.exists(path):
                disk[path] = [model for model in disk[path] if model is not None]
            else:
                ctx.check(None in disk[path], 'saved-file-lost', path)
                del disk[path]
    if saves >= 2:
        ctx.nontrivial = True
    ctx.sample = {'sessions': sessions, 'saves': saves,
                  'files': {os.path.basename(p): [[e.describe() for e in m.entries.values()] for m in models]
                            for p, models in disk.items()}}
