"""C09: Valentina measurement files are read faithfully, each one on its own."""

import copy
import os

from sim import sched, seams, simfs
from sim.core import Violation
from world import measmodel

ID = 'C09'
GROUPS = ['core', 'measurement', 'pattern']
LEVEL = 'exploration'
QUICK = {'runs': 3000, 'seconds': 90}
THOROUGH = {'runs': 300000, 'seconds': 800}
RULE = ('a run draws two to four measurement files (unit, pattern making system, personal data, standard and custom '
        'measurements defined by expressions, in any order) which are read by one to three threads of one process, in any '
        'interleaving, with files which are saved again (with the same size and date too), short reads and read errors, while the sets which are already loaded are queried and edited '
        '(unit, personal data, new measurements); everything is compared with the model of each file; non-trivial: '
        'threads interleaved or a fault fired; distinct: another set of files, interleaving or fault')
REAL = ['Patro.FileFormat.Valentina.Measurement', 'Patro.Measurement', 'Patro.Common.Xml', 'lxml', 'sympy']
STUB = ['thread scheduler', 'disk (real scratch directory behind an interposed system call layer)']
ASSUMPTIONS = ['names of measurements are not names of the sympy language (E, pi, beta ...)',
               'a measurement set is used by one thread at a time']

FAULTS = ('EIO', 'EACCES', 'EMFILE', 'short')
STANDARD = ('height', 'height_knee', 'waist_circ', 'hip_circ', 'hip_arc_f', 'neck_circ', 'bust_circ',
            'leg_crotch_to_floor', 'arm_upper_circ', 'hip_circ_with_abdomen')
CUSTOM = ('@leg', '@leg_long', '@M', '@M1', '@height', '@leg_crotch_to_floor_men', '@leg_l')
UNITS = ('cm', 'mm', 'inch')
TEXTS = ('', 'Doe', 'Jane & John', 'Été <b>', '"quoted"', "O'Neil", '日本', 'None', '0')


class File:

    def __init__(self, ctx, path):
        ch = ctx.ch
        self.path = path
        self.entries = measmodel.generate(ch, ch.int(0, 7), pool=STANDARD + CUSTOM)
        if ch.chance(50):
            self.entries = ch.shuffle(self.entries)
        for entry in self.entries:
            # line ends of attributes are normalised by XML
            entry.full_name = ' '.join(entry.full_name.split())
            entry.description = ' '.join(entry.description.split())
        self.model = measmodel.Model()
        for entry in self.entries:
            self.model.add(entry)
        self.unit = ch.pick(UNITS)
        self.pm_system = ch.pick(['998', '0', '54', '100'])
        self.customer = ch.pick(TEXTS)
        self.birth_date = ch.pick(['1970-01-01', '1999-12-31', '2000-02-29'])
        self.gender = ch.pick(['male', 'female', 'unknown'])
        self.email = ch.pick(['', 'a@b.org', 'é@ü.fr'])
        from xml.sax.saxutils import quoteattr
        self.lines = []
        for entry in self.entries:
            attributes = {'name': entry.name, 'value': measmodel.text(entry.ast)}
            if entry.full_name or ch.chance(30):
                attributes['full_name'] = entry.full_name
            if entry.description or ch.chance(30):
                attributes['description'] = entry.description
            items = ch.shuffle(list(attributes.items()))
            self.lines.append('    <m {}/>\n'.format(' '.join('{}={}'.format(k, quoteattr(v)) for k, v in items)))
        self.save()

    def saved_again(self, ctx):
        """The author of the file saves it again, often with the same size. What was loaded keeps this object."""
        ch = ctx.ch
        kind = ch.pick(['unit', 'customer', 'birth date', 'another', 'another'])
        ctx.event('saved again', os.path.basename(self.path), kind)
        ctx.sig('saved again', kind)
        ctx.probe('saved again')
        if kind == 'another':
            return File(ctx, self.path)
        other = copy.copy(self)
        if kind == 'unit':
            other.unit = {'cm': 'mm', 'mm': 'cm', 'inch': 'cm'}[self.unit]
        elif kind == 'customer':
            other.customer = self.customer[::-1]
        else:
            other.birth_date = '1985-06-07'
        other.save()
        return other

    def save(self):
        from xml.sax.saxutils import escape
        with open(self.path, 'w', encoding='utf8') as fh:
            fh.write(
                "<?xml version='1.0' encoding='UTF-8'?>\n<vit>\n  <!--Measurements-->\n  <version>0.4.0</version>\n"
                '  <read-only>false</read-only>\n  <notes/>\n  <unit>{}</unit>\n  <pm_system>{}</pm_system>\n  <personal>\n'
                '    <customer>{}</customer><birth-date>{}</birth-date><gender>{}</gender>{}\n  </personal>\n'
                '  <body-measurements>\n{}  </body-measurements>\n</vit>\n'.format(
                    self.unit, self.pm_system, escape(self.customer), self.birth_date, self.gender,
                    '<email>{}</email>'.format(escape(self.email)) if self.email else '<email/>', ''.join(self.lines)))


class Loaded:
    """A loaded file with its own expectations: the file as it was read, then the edits of the user."""

    def __init__(self, ctx, file, vit):
        self.ctx = ctx
        self.file = file
        self.vit = vit
        self.model = measmodel.Model()
        self.model.entries.update(file.model.entries)
        self.unit = file.unit
        self.pm_system = file.pm_system
        self.customer = file.customer
        self.email = file.email

    def check(self, where):
        ctx = self.ctx
        where = '{} {}'.format(where, os.path.basename(self.file.path))
        m = self.vit.measurements
        ctx.equal(m.unit, self.unit, 'unit', where)
        ctx.equal(str(m.pattern_making_system), self.pm_system, 'pattern-making-system', where)
        ctx.equal(m.personal.customer or '', self.customer, 'customer', where)
        ctx.equal(m.personal.email or '', self.email, 'email', where)
        ctx.equal(str(m.personal.birth_date), self.file.birth_date, 'birth-date', where)
        ctx.equal(m.personal.gender.name.lower(), self.file.gender, 'gender', where)
        ctx.equal(str(self.vit.path), self.file.path, 'path', where)
        # in order; a custom measurement is there under its two names
        ctx.equal(list(dict.fromkeys(x.name for x in m)), list(self.model.entries), 'measurement-names', where)
        for symbol, entry in self.model.entries.items():
            x = m[symbol]
            ctx.equal((x.full_name, x.description), (entry.full_name, entry.description), 'texts', where)
            ctx.equal(x.valentina_name, entry.name, 'valentina-name', where)
            ctx.equal(x.is_custom(), entry.name.startswith('@'), 'is-custom', where)
            if entry.name.startswith('@'):
                ctx.check(m[entry.name] is x, 'custom-alias', '{} {}'.format(where, entry.name))
            measmodel.check_value(ctx, x, self.model, symbol, where)

    def edit(self, ch):
        kind = ch.pick(['unit', 'system', 'personal', 'add', 'add'])
        m = self.vit.measurements
        if kind == 'unit':
            self.unit = m.unit = ch.pick(UNITS)
        elif kind == 'system':
            self.pm_system = m.pattern_making_system = ch.pick(['1', '2'])
        elif kind == 'personal':
            self.customer = m.personal.customer = 'edited'
            self.email = m.personal.email = 'x@y.z'
        else:
            for entry in measmodel.generate(ch, 1, pool=STANDARD + CUSTOM, forbidden=list(self.model.entries),
                                            available=[e.name for e in self.model.entries.values()]):
                if not self.model.reaches(entry.ast, entry.symbol):
                    measmodel.apply(m, entry)
                    self.model.add(entry)
        self.ctx.event('edit', os.path.basename(self.file.path), kind)


def run(ctx):
    from Patro.FileFormat.Valentina.Measurement import VitFile
    ch = ctx.ch
    root = ctx.scratch()
    files = [File(ctx, os.path.join(root, 'file{}.vit'.format(i))) for i in range(ch.int(2, 4))]
    for file in files:
        ctx.sig([entry.describe() for entry in file.entries])
    fs = simfs.SimFS(ctx, root)
    faulty = ch.chance(50)
    count = loads = 0
    kept = []     # by the readers of all the phases

    def user(order):
        alive = []
        for file in order:
            for attempt in range(20):
                before = fs.hard_faults
                try:
                    vit = VitFile(file.path)
                except OSError as error:
                    if fs.hard_faults == before:
                        raise Violation('unexpected-oserror', repr(error))
                    continue
                break
            else:
                raise Violation('never-succeeds', file.path)
            loaded = Loaded(ctx, file, vit)
            loaded.check('loaded')
            alive.append(loaded)
            if ch.chance(50):
                ch.pick(alive).edit(ch)
            for loaded in alive:
                loaded.check('later')
        kept.extend(alive)

    for phase in range(ch.weighted([(5, 1), (5, 2)])):
        if phase:
            with simfs.paused():
                files = [file.saved_again(ctx) if ch.chance(60) else file for file in files]
        scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 4, 20, 60, 200, 1000))
        threads = []
        for _ in range(ch.int(1, 3) if not phase else ch.int(1, 2)):
            order = [ch.pick(files) for _ in range(ch.int(1, 3) if not phase else ch.int(1, 2))]
            loads += len(order)
            threads.append(scheduler.spawn(user, order))
        count += len(threads)
        if faulty:
            fs.plan(ch.subset(FAULTS, 60), gap_max=ch.pick([3, 8, 20]), faults=ch.int(1, 4))
        with simfs.active(fs):
            scheduler.run()
        fs.stop_faults()
        for thread in threads:
            ctx.check(thread.exception is None, 'load-failed', lambda: thread.traceback)
        for loaded in kept:
            loaded.check('kept')
    ctx.sample = {'files': [[entry.describe() for entry in file.entries] for file in files], 'threads': count,
                  'loads': loads}
