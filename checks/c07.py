"""C07: a load gives the whole document or fails, whatever the disk does, and leaves no trace."""

import os

from sim import core, sched, simfs
from sim.core import Violation
from sim.faults import interruptible
from world import docs, patmodel

ID = 'C07'
GROUPS = ['core', 'measurement', 'pattern', 'scene', 'painter']
LEVEL = 'fault_enumeration'
QUICK = {'runs': 2800, 'seconds': 100}
THOROUGH = {'runs': 500000, 'seconds': 800}
RULE = ('a run draws one to three files (pattern with its measurement file, measurement file, YAML measurements, SVG) and '
        'a history of loads in one process, each one under a drawn failure: read errors and short reads at any system '
        'call, too many open files, missing file, XML file truncated at any byte as a crashed writer of another program '
        'leaves it, an interrupt or a failed allocation at any line; a load must give the content of the file or raise, '
        'what was loaded before must not change, and a load must work again once the failure is gone; non-trivial: a '
        'fault fired; distinct: another fault, position or document')
REAL = ['Patro.FileFormat.Valentina', 'Patro.FileFormat.Svg', 'Patro.Common.Xml', 'Patro.Measurement', 'Patro.Pattern',
        'lxml', 'yaml']
STUB = ['disk (real scratch directory behind an interposed system call layer)', 'asynchronous exceptions', 'clock',
        'entropy']
ASSUMPTIONS = ['a truncated YAML file can be a valid YAML file, YAML files are only damaged by read errors',
               'a truncation which only removes trailing white space gives the same document']

KINDS = ('val', 'vit', 'yaml', 'svg')
ERRORS = ('EIO', 'EACCES', 'EMFILE', 'short')


class File:

    def __init__(self, ctx, kind, i, root):
        ch = ctx.ch
        self.kind = kind
        self.path = os.path.join(root, 'file{}.{}'.format(i, kind))
        self.companion = None
        real = patmodel.Real()
        if kind in ('val', 'vit'):
            measurements = patmodel.generate_measurements(ch)
            vit = self.path if kind == 'vit' else os.path.join(root, 'file{}.vit'.format(i))
            with open(vit, 'w') as fh:
                fh.write(patmodel.vit_source(measurements, ch.pick(['cm', 'mm'])))
            if kind == 'val':
                from Patro.FileFormat.Valentina.Measurement import VitFile
                from Patro.FileFormat.Valentina.Pattern import ValFileWriter
                if ch.chance(60):
                    self.companion = vit
                else:
                    measurements = {}
                model = patmodel.generate_pattern(ch, measurements, (1, 2), (1, 6), unit='cm')
                vit_file = VitFile(vit) if self.companion else None
                pattern = real.build(ch, model, vit_file.measurements if vit_file else None)
                ValFileWriter(self.path, vit_file, pattern)
        else:
            document = docs.generate(ch, kind, 'file{}'.format(i))
            docs.save(document, docs.build(document, ch), self.path)
        with open(self.path, 'rb') as fh:
            self.content = fh.read()
        self.golden = self.snapshot(self.load())

    def load(self):
        if self.kind == 'val':
            from Patro.FileFormat.Valentina.Pattern import ValFileReader
            return ValFileReader(self.path)
        if self.kind == 'vit':
            from Patro.FileFormat.Valentina.Measurement import VitFile
            return VitFile(self.path)
        if self.kind == 'yaml':
            from Patro.Measurement.Measurement import MeasurementSet
            measurements = MeasurementSet()
            measurements.add('loaded_before', '12')
            try:
                measurements.load_yaml(self.path)
            except OSError:
                names = [m.name for m in measurements]
                if names != ['loaded_before']:
                    raise Violation('partial-load', 'a failed load added {}'.format(len(names) - 1))
                raise
            return measurements
        return svg_reader()(self.path)

    def snapshot(self, loaded):
        if self.kind == 'val':
            return (patmodel.Real().dump_pattern(loaded.pattern), measurement_data(loaded.measurements),
                    loaded.vit_file is not None and str(loaded.vit_file.path))
        if self.kind == 'vit':
            m = loaded.measurements
            return (measurement_data(m), m.unit, str(m.pattern_making_system), m.personal.customer,
                    str(m.personal.birth_date), str(m.personal.gender), m.personal.email)
        if self.kind == 'yaml':
            return measurement_data(loaded)
        return (loaded.items, docs.box_data(loaded.view_box), loaded.width, loaded.height)


def measurement_data(measurements):
    if measurements is None:
        return None
    return [(m.name, str(m.expression), str(m.value), m.full_name, m.description) for m in measurements]


_svg_reader = None


def svg_reader():
    global _svg_reader
    if _svg_reader is None:
        from Patro.FileFormat.Svg.SvgFile import SvgFileInternal

        class Reader(SvgFileInternal):

            def __init__(self, path):
                self.items = []
                super().__init__(path)

            def on_graphic_item(self, item):
                super().on_graphic_item(item)
                state = core.part(self, '_dispatcher', 'SvgDispatcher').state.clone().merge(item)
                self.items.append((type(item).__name__, sorted((k, str(v)) for k, v in item.to_dict().items()),
                                   sorted((k, str(v)) for k, v in state.to_dict().items())))
        _svg_reader = Reader
    return _svg_reader


def run(ctx):
    ch = ctx.ch
    root = ctx.scratch()
    files = [File(ctx, ch.weighted([(5, 'val'), (3, 'vit'), (2, 'yaml'), (3, 'svg')]), i, root)
             for i in range(ch.int(1, 3))]
    fs = simfs.SimFS(ctx, root)
    lines = {}
    alive = []
    history = []
    descriptors = simfs.open_descriptors()

    with simfs.active(fs):
        for number in range(ch.int(2, 7)):
            file = ch.pick(files)
            failures = ['none', 'errors', 'errors', 'interrupt', 'interrupt', 'missing']
            if file.kind != 'yaml':
                failures += ['truncated', 'truncated', 'truncated']
            failure = ch.pick(failures)
            before = fs.hard_faults
            damaged = None
            expect_failure = False
            if failure == 'errors':
                fs.plan(ch.subset(ERRORS, 70) or ['EIO'], gap_max=ch.pick([2, 4, 8]), faults=ch.int(1, 2))
            elif failure in ('missing', 'truncated'):
                damaged = file.path
                if file.companion and ch.chance(40):
                    damaged = file.companion
                with simfs.paused():
                    with open(damaged, 'rb') as fh:
                        original = fh.read()
                    if failure == 'missing':
                        os.rename(damaged, damaged + '.away')
                        expect_failure = True
                        ctx.fault('missing-file')
                    else:
                        cut = ch.draw(len(original))
                        if ch.chance(30):
                            cut = len(original) - 1 - ch.draw(min(60, len(original)))
                        with open(damaged, 'wb') as fh:
                            fh.write(original[:cut])
                            if original[cut:].strip() and ch.chance(25):
                                # what a file system leaves after a power loss
                                fh.write(b'\0' * (len(original) - cut))
                                ctx.sig('zeroed')
                        expect_failure = bool(original[cut:].strip())   # else only white space is damaged
                        ctx.fault('truncated-file')
                        ctx.sig('cut', cut)
            result = []
            error = None
            try:
                if failure == 'interrupt':
                    if file.kind not in lines:
                        lines[file.kind] = interruptible(ctx, file.load, 0)
                    interruptible(ctx, lambda: result.append(file.load()), ch.int(1, lines[file.kind] + 10))
                else:
                    result.append(file.load())
            except Violation:
                raise
            except (sched.SimInterrupt, sched.SimMemoryError) as e:
                error = e
                result.clear()
            except OSError as e:
                ctx.check(failure in ('missing', 'truncated') or fs.hard_faults > before, 'unexpected-oserror', repr(e))
                error = e
            except Exception as e:
                # what a damaged document raises is not specified
                ctx.check(expect_failure or fs.hard_faults > before, 'unexpected-exception', repr(e))
                error = e
            finally:
                fs.stop_faults()
                if damaged is not None:
                    with simfs.paused():
                        if failure == 'missing':
                            os.rename(damaged + '.away', damaged)
                        else:
                            with open(damaged, 'wb') as fh:
                                fh.write(original)
            name = type(error).__name__ if error is not None else 'ok'
            where = '{} load of {} with {}'.format(name, file.kind, failure)
            history.append((file.kind, failure, name))
            ctx.event('load', file.kind, failure, name)
            ctx.sig(file.kind, failure, name)
            with simfs.paused():
                if error is None:
                    loaded = result[0]
                    ctx.check(not expect_failure, 'damaged-file-accepted', where)
                    # reads which failed are reported or were not needed, the content is whole in any case
                    got = file.snapshot(loaded)
                    ctx.check(got == file.golden, 'partial-load',
                              lambda: '{}: {}'.format(where, difference(got, file.golden)))
                    alive.append((file, loaded))
                else:
                    error = error.with_traceback(None)
                    ctx.probe('load-failed')
                for other, loaded in alive:
                    now = other.snapshot(loaded)
                    ctx.check(now == other.golden, 'loaded-before-changed',
                              lambda: '{}: a {}: {}'.format(where, other.kind, difference(now, other.golden)))
                if failure == 'interrupt':
                    descriptors = simfs.open_descriptors()
                leaked = sorted(t for _, t in simfs.open_descriptors() - descriptors if t.startswith(root))
                ctx.check(not leaked, 'descriptor-leak', where)
                for other in files:
                    with open(other.path, 'rb') as fh:
                        ctx.check(fh.read() == other.content, 'file-modified', where)
            if error is not None and ch.chance(70):
                loaded = file.load()
                with simfs.paused():
                    got = file.snapshot(loaded)
                    ctx.check(got == file.golden, 'retry-differs',
                              lambda: 'after {}: {}'.format(where, difference(got, file.golden)))
                alive.append((file, loaded))
                ctx.probe('retry')
        ctx.check(not fs.refused, 'written-elsewhere', fs.refused)
    ctx.sample = {'files': [f.kind for f in files], 'history': history}


def difference(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '...{} / ...{}'.format(a[max(0, i - 60):i + 60], b[max(0, i - 60):i + 60])
