"""C23: tables of reference data are whole and have one owner, so do colours and styles, whatever happens around."""

import copy
import datetime
import os

from sim import sched, seams, simfs
from sim.core import REPO, Violation
from sim.faults import ASYNC, interruptible

ID = 'C23'
GROUPS = ['core', 'measurement', 'textile', 'Patro.GraphicStyle', 'Patro.GraphicEngine.GraphicScene.GraphicStyle',
          'scene', 'painter', 'Patro.Measurement.PersonalData']
LEVEL = 'exploration'
QUICK = {'runs': 1500, 'seconds': 80}
THOROUGH = {'runs': 300000, 'seconds': 800}
RULE = ('a run draws 4-14 actions: load the standard measurements, the fibres (shipped ones or files of the user) in a new '
        'or a used table, with disk errors and short reads, interrupted at a line and done again, or several in threads; '
        'edit entries, add entries, look up missing ones; make colours from numbers, text, names, hue and other colours, '
        'styles and personal data, clone and edit them, draw and export with them; after each action everything alive is '
        'compared with a model; non-trivial: two tables of a kind, or a fault; distinct: another history')
REAL = ['Patro.Measurement.ValentinaStandardMeasurement', 'Patro.TextileTechnology.Fiber', 'Patro.GraphicStyle',
        'Patro.GraphicEngine.GraphicScene.GraphicStyle', 'Patro.Measurement.PersonalData', 'yaml']
STUB = ['disk (shipped data files and a scratch directory behind an interposed system call layer)', 'thread scheduler',
        'asynchronous exceptions', 'entropy']
ASSUMPTIONS = ['the data of the shipped tables is what the YAML files of the tree say',
               'the order of a table, and what a synthetic fibre tells besides its name, are not judged',
               'components of a colour given as floats are judged with a tolerance of one step of 255']

ERRORS = ('EIO', 'EACCES', 'EMFILE', 'short')
SHIPPED = {}


def shipped(name):
    """The data of a shipped table, read once by the harness."""
    if name not in SHIPPED:
        import yaml
        with simfs.paused(), open(os.path.join(REPO, 'Patro', *name), encoding='utf8') as fh:
            SHIPPED[name] = yaml.safe_load(fh)
    return SHIPPED[name]


# ---------------------------------------------------------------- tables

class Standard:

    kind = 'standard'
    FIELDS = ('code', 'name', 'full_name', 'description', 'default_value')

    def __init__(self):
        self.real = None
        self.model = None
        self.edited = 0

    def load(self):
        from Patro.Measurement.ValentinaStandardMeasurement import ValentinaStandardMeasurement
        self.real = ValentinaStandardMeasurement()

    def loaded(self):
        data = shipped(('Measurement', 'data', 'valentina-standard-measurements.yaml'))
        self.model = {}
        for topic in data.values():
            for code, fields in topic['measurements'].items():
                name, full_name, description, default = (list(fields) + [0])[:4]
                self.model[name] = [code, name, full_name, description, default]

    def verify(self, ctx, where):
        if self.model is None:
            return
        ctx.equal(len(self.real), len(self.model), 'table-size', where)
        # an entry can be renamed, its key is the name it had
        got = sorted([getattr(entry, field) for field in self.FIELDS] for entry in self.real)
        ctx.check(got == sorted(self.model.values()), 'table-content', lambda: '{}: {}'.format(
            where, [x for x in got if x not in self.model.values()][:3]))
        for name in self.model:
            ctx.check(name in self.real, 'table-lookup', name)
            got = [getattr(self.real[name], field) for field in self.FIELDS]
            ctx.equal(got, self.model[name], 'table-entry', where)

    def edit(self, ctx):
        from Patro.Measurement.StandardMeasurement import Measurement
        from Patro.Measurement.ValentinaStandardMeasurement import ValentinaMeasurement
        ch = ctx.ch
        self.edited += 1
        action = ch.pick(['field', 'add', 'duplicate', 'missing'])
        ctx.event('edit-standard', action)
        ctx.sig(action)
        if action == 'field':
            # mostly the entries which everybody edits
            name = sorted(self.model)[ch.int(0, 3 if ch.chance(70) else len(self.model) - 1)]
            i = ch.int(0, 4)
            value = ch.decimal(0, 100) if i == 4 else 'text{}'.format(ch.int(0, 9))
            setattr(self.real[name], self.FIELDS[i], value)
            self.model[name][i] = value
        elif action == 'add':
            name = 'extra{}'.format(ch.int(0, 5))
            fields = ['X1', name, 'full', 'description', ch.int(0, 9)]
            entry = ValentinaMeasurement(*fields)
            try:
                self.real.add(entry)
            except NameError:
                ctx.check(name in self.model, 'addition-refused', name)
            else:
                ctx.check(name not in self.model, 'duplicate-accepted', name)
                self.model[name] = fields
        elif action == 'duplicate':
            name = sorted(self.model)[ch.int(0, len(self.model) - 1)]
            try:
                self.real.add(Measurement(name, 'other', 'other'))
            except NameError:
                pass
            else:
                raise Violation('duplicate-accepted', name)
        else:
            missing(ctx, self.real)


class Fibres:

    kind = 'fibres'

    def __init__(self):
        from Patro.TextileTechnology.Fiber import FiberDatabase
        self.real = FiberDatabase()
        self.model = {}
        self.data = None
        self.path = None
        self.edited = 0

    def load(self):
        if self.path is None:
            self.real.load()
        else:
            self.real.load(self.path)

    def loaded(self):
        data = self.data or shipped(('TextileTechnology', 'data', 'fiber.yaml'))
        for group, source in (('Plant', True), ('Animal', True)):
            for name, item in data['Natural Fibres'][group + ' Fibres'].items():
                self.model.setdefault(name, ('Natural', group, item['source']))
        for name in data['Synthetic Fibres']:
            self.model.setdefault(name, ('Synthetic', None, None))

    def verify(self, ctx, where):
        ctx.equal(len(self.real), len(self.model), 'table-size', where)
        ctx.equal(sorted(fibre.name for fibre in self.real), sorted(self.model), 'table-names', where)
        for name, (kind, group, source) in self.model.items():
            fibre = self.real[name]
            ctx.equal(fibre.name, name, 'fibre-name', where)
            ctx.equal(fibre.fiber_type.name, kind, 'fibre-type', '{} {}'.format(where, name))
            if group is not None:
                ctx.check(group in str(fibre.source_type), 'fibre-group', '{} {}'.format(where, name))
                ctx.equal(fibre.source, source, 'fibre-source', '{} {}'.format(where, name))

    def edit(self, ctx):
        from Patro.TextileTechnology.Fiber import Fiber, FiberType
        ch = ctx.ch
        self.edited += 1
        if ch.chance(20):
            missing(ctx, self.real)
            return
        name = ch.pick(['Hemp', 'Jute', 'Cotton', 'Alpaca', 'Nylon'])
        ctx.event('edit-fibres', name)
        ctx.sig(name)
        self.real.add(Fiber(name, FiberType.Natural, FiberType.Plant, 'mine'))
        # the first definition wins
        self.model.setdefault(name, ('Natural', 'Plant', 'mine'))


def missing(ctx, table):
    try:
        table['no such entry']
    except KeyError:
        pass
    else:
        raise Violation('missing-entry-found', type(table).__name__)


def user_file(ctx, path):
    """A file of fibres of the user."""
    import yaml
    ch = ctx.ch
    names = ch.shuffle(['Cotton', 'Ramie', 'Écru', 'Soie', 'Nylon', 'Qiviut', '绵', 'Jute', 'Tencel'])
    cuts = sorted([ch.int(0, 9), ch.int(0, 9)])
    sources = ['cotton', 'ver à soie', 'musk ox', '木']
    data = {
        'Natural Fibres': {
            'Plant Fibres': {name: {'source': ch.pick(sources)} for name in names[:cuts[0]]},
            'Animal Fibres': {name: {'source': ch.pick(sources)} for name in names[cuts[0]:cuts[1]]},
        },
        'Synthetic Fibres': {name: ch.pick([None, {'comment': 'x'}]) for name in names[cuts[1]:]},
    }
    with simfs.paused(), open(path, 'w', encoding='utf8') as fh:
        yaml.safe_dump(data, fh, allow_unicode=True)
    return data


# ---------------------------------------------------------------- colours and styles

class ColourModel:

    def __init__(self, red, green, blue, name=None):
        self.rgb = [red, green, blue]     # ints for exact components, or floats
        self.name = name

    def verify(self, ctx, real, where):
        for channel, value in zip(('red', 'green', 'blue'), self.rgb):
            got = getattr(real, channel)
            if isinstance(value, int):
                ctx.equal(got, value, 'colour-component', '{} {}'.format(where, channel))
                ctx.check(abs(getattr(real, channel + '_float') - value / 255) < 1e-9, 'colour-float', where)
            else:
                ctx.check(abs(got - value * 255) <= 1 and 0 <= got <= 255, 'colour-component',
                          lambda: '{} {}: {} for {}'.format(where, channel, got, value))
                ctx.check(abs(getattr(real, channel + '_float') - value) < 1e-9, 'colour-float', where)
        ctx.equal(real.name, self.name, 'colour-name', where)
        text = '#{:02x}{:02x}{:02x}'.format(real.red, real.green, real.blue)
        ctx.equal(str(real), text, 'colour-text', where)


class Colour:

    kind = 'colour'

    def __init__(self, real, model):
        self.real = real
        self.model = model

    def verify(self, ctx, where):
        self.model.verify(ctx, self.real, where)

    def edit(self, ctx):
        ch = ctx.ch
        i = ch.int(0, 3)
        if i == 3:
            self.model.name = self.real.name = 'name{}'.format(ch.int(0, 9))
            return
        value = ch.int(0, 255) if ch.chance(70) else ch.int(0, 100) / 100
        setattr(self.real, ('red', 'green', 'blue')[i], value)
        self.model.rgb[i] = value
        if ch.chance(40):
            # a wrong component changes nothing
            try:
                setattr(self.real, ('red', 'green', 'blue')[i], ch.pick([256, -1, 1.5, -.1, '12', None]))
            except ValueError:
                pass
            else:
                raise Violation('wrong-component-accepted', str(self.real))


def new_colour(ctx, colours, things):
    from Patro.GraphicStyle import Color, Colors
    ch = ctx.ch
    others = [thing for thing in things if thing.kind == 'colour']
    how = ch.pick(['ints', 'floats', 'text', 'short', 'name', 'wrong'] + (['copy', 'clone', 'text-of', 'hls', 'hsv'] * 2 if others else []))
    ctx.event('colour', how)
    ctx.sig(how)
    name = ch.pick([None, None, 'mine'])
    kwargs = {} if name is None else {'name': name}
    if how == 'ints':
        rgb = [ch.int(0, 255) for _ in range(3)]
        return Colour(Color(*rgb, **kwargs), ColourModel(*rgb, name))
    if how == 'floats':
        rgb = [ch.int(0, 1000) / 1000 for _ in range(3)]
        return Colour(Color(*rgb, **kwargs), ColourModel(*rgb, name))
    if how == 'text':
        rgb = [ch.int(0, 255) for _ in range(3)]
        text = '#{:02x}{:02x}{:02x}'.format(*rgb)
        if ch.chance(40):
            text = text.upper()
        if name is None and ch.chance(50):
            return Colour(Colors.ensure_color(text), ColourModel(*rgb))
        return Colour(Color(text, **kwargs), ColourModel(*rgb, name))
    if how == 'short':
        rgb = [ch.int(0, 15) for _ in range(3)]
        return Colour(Color('#{:x}{:x}{:x}'.format(*rgb), **kwargs), ColourModel(*[17 * x for x in rgb], name))
    if how == 'name':
        # shared with the database, a clone can be edited
        name = ch.pick(colours)
        shared = ch.pick([lambda: Colors[name], lambda: Colors.ensure_color(name), lambda: getattr(Colors, name)])()
        rgb = [shared.red, shared.green, shared.blue]
        ctx.equal(str(shared), SHIPPED['colours'][name], 'shipped-colour', name)
        return Colour(ch.pick([shared.clone, lambda: Color(shared), lambda: copy.copy(shared)])(), ColourModel(*rgb, name))
    if how == 'wrong':
        call = ch.pick([lambda: Color('red'), lambda: Color('#12'), lambda: Color('#12345'), lambda: Color(300, 0, 0),
                        lambda: Color('#12345678'), lambda: Colors.ensure_color(12), lambda: Color(0, 1.5, 0),
                        lambda: Color('#gggggg'), lambda: Color('a112233'), lambda: Color('x123'), lambda: Color(hue=.5)])
        try:
            call()
        except ValueError:
            pass
        else:
            raise Violation('wrong-colour-accepted')
        ctx.check('no such colour' not in Colors and not hasattr(Colors, 'nosuchcolour'), 'missing-colour-found')
        missing(ctx, Colors)
        return None
    source = ch.pick(others)
    real, model = source.real, source.model
    exact = all(isinstance(x, int) for x in model.rgb)
    if how in ('copy', 'clone'):
        made = Color(real) if how == 'copy' else real.clone()
        ctx.check(made == real and made is not real, 'copy-differs', '{} {}'.format(made, real))
        return Colour(made, ColourModel(*model.rgb, model.name))
    if how == 'text-of':
        made = Color(str(real))
        ctx.check(made == real, 'text-round-trip', '{} {}'.format(made, real))
        return Colour(made, ColourModel(real.red, real.green, real.blue))
    if how == 'hls':
        hue, light, saturation = real.hls
        made = Color(hue=float(hue), light=float(light), saturation=float(saturation))
    else:
        hue, saturation, value = real.hsv
        made = Color(hue=float(hue), saturation=float(saturation), value=float(value))
    if exact:
        ctx.check(made == real, 'hue-round-trip', lambda: '{}: {} instead of {}'.format(how, made, real))
        return Colour(made, ColourModel(*model.rgb))
    return None


class Style:

    kind = 'style'
    DEFAULTS = {'stroke_style': 'SolidLine', 'line_width': 1.0, 'stroke_color': '#000000', 'stroke_alpha': 1.0,
                'fill_color': None, 'fill_alpha': 1.0, 'cap_style': 'SquareCap', 'join_style': 'BevelJoin'}
    BEZIER = {'show_control': False, 'control_color': None}

    def __init__(self, real, model):
        self.real = real
        self.model = model

    def verify(self, ctx, where):
        for key, value in self.model.items():
            got = getattr(self.real, key)
            if 'color' in key:
                got = None if got is None else str(got)
            elif key.endswith('_style'):
                got = got.name
            ctx.equal(got, value, 'style-' + key, where)

    def edit(self, ctx):
        key = ctx.ch.pick(sorted(self.model))
        value, self.model[key] = style_value(ctx, key)
        setattr(self.real, key, value)


def style_value(ctx, key):
    """The value of a property of style and what it is read as."""
    from Patro import GraphicStyle
    ch = ctx.ch
    if 'color' in key:
        name = ch.pick(['red', 'blue', 'orange', 'black'])
        value = ch.pick([name, GraphicStyle.Colors[name], str(GraphicStyle.Colors[name]), None])
        return value, None if value is None else SHIPPED['colours'][name]
    enums = {'stroke_style': 'StrokeStyle', 'cap_style': 'CapStyle', 'join_style': 'JoinStyle'}
    if key in enums:
        member = ch.pick(list(getattr(GraphicStyle, enums[key])))
        return member, member.name
    if key == 'show_control':
        value = ch.chance(50)
        return value, value
    value = ch.int(1, 20) / 4 if key == 'line_width' else ch.int(0, 4) / 4
    return value, value


def new_style(ctx, things):
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicBezierStyle, GraphicPathStyle
    ch = ctx.ch
    others = [thing for thing in things if thing.kind == 'style']
    if others and ch.chance(60):
        source = ch.pick(others)
        ctx.event('style', 'clone')
        made = source.real.clone()
        ctx.check(type(made) is type(source.real) and made is not source.real, 'style-clone')
        return Style(made, dict(source.model))
    bezier = ch.chance(40)
    model = dict(Style.DEFAULTS, **(Style.BEZIER if bezier else {}))
    kwargs = {}
    for key in ch.subset(sorted(model), 40):
        kwargs[key], model[key] = style_value(ctx, key)
    ctx.event('style', 'new', sorted(kwargs))
    ctx.sig(tuple(sorted(kwargs)))
    return Style((GraphicBezierStyle if bezier else GraphicPathStyle)(**kwargs), model)


class Person:

    kind = 'person'

    def __init__(self):
        from Patro.Measurement.PersonalData import Gender, PersonalData
        self.Gender = Gender
        self.real = PersonalData()
        self.model = {'first_name': '', 'last_name': '', 'birth_date': None, 'measurement_date': None, 'gender': 'UNKNOWN',
                      'email': '', 'comment': ''}

    def verify(self, ctx, where):
        for key, value in self.model.items():
            got = getattr(self.real, key)
            ctx.equal(got.name if key == 'gender' else got, value, 'person-' + key, where)

    def edit(self, ctx):
        ch = ctx.ch
        key = ch.pick(sorted(self.model))
        if key == 'gender':
            member = ch.pick(list(self.Gender))
            value, self.model[key] = ch.pick([member, member.name, member.name.lower()]), member.name
        elif key == 'birth_date':
            day = datetime.datetime(2000 + ch.int(0, 20), ch.int(1, 12), ch.int(1, 28)).date()
            value, self.model[key] = ch.pick([(day, day), (day.isoformat(), day), (None, None)])
        elif key == 'measurement_date':
            day = datetime.datetime(2000 + ch.int(0, 20), ch.int(1, 12), ch.int(1, 28), ch.int(0, 23), 5, 6, 123000)
            value, self.model[key] = ch.pick([(day, day), (day.strftime('%Y-%m-%dT%H:%M:%S.123Z'), day), (None, None)])
        else:
            value = self.model[key] = ch.pick(['Zoé', 'x', ''])
        setattr(self.real, key, value)
        # what is wrong changes nothing
        if ch.chance(20) and key in ('birth_date', 'measurement_date', 'gender'):
            try:
                setattr(self.real, key, 'no such value')
            except (ValueError, KeyError):
                pass
            else:
                raise Violation('wrong-value-accepted', key)


# ---------------------------------------------------------------- use

def draw(ctx, root):
    """Draw with shared colours and export."""
    from world import docs, drawing
    d = drawing.Drawing(ctx, 'd')
    d.empty()
    for _ in range(ctx.ch.int(0, 3)):
        d.add()
    fmt = ctx.ch.pick(['svg', 'tex', 'pdf'])
    docs.save(docs.Document(fmt, None, None), d.scene, os.path.join(root, 'd' + docs.SUFFIX[fmt]))


def run(ctx):
    ch = ctx.ch
    root = ctx.scratch()
    from Patro.GraphicStyle import Color, Colors
    from Patro.GraphicStyle.Color import color_data
    if 'colours' not in SHIPPED:
        table = {}
        for group in ('BASE', 'TABLEAU', 'XKCD', 'CSS4', 'QML', 'VALENTINA'):
            for name, value in getattr(color_data, group + '_COLORS').items():
                table.setdefault(name.replace(' ', '_'), value.lower())
        SHIPPED['colours'] = table
    shared = {name: id(Colors[name]) for name in Colors.iter_names()}
    ctx.equal(sorted(shared), sorted(SHIPPED['colours']), 'colour-names')
    popular = ['black', 'red', 'blue', 'green', 'orange', 'acid_green', 'cyan', 'white', 'aliceblue', 'cornflowerblue']
    fs = simfs.SimFS(ctx, root)
    fs.shipped = (os.path.realpath(os.path.join(REPO, 'Patro')) + os.sep,)
    things = []
    faults = 0

    def database():
        ctx.equal(len(Colors), len(shared), 'colours-changed', 'number of colours')
        for name, identity in shared.items():
            color = Colors[name]
            ctx.check(id(color) == identity and color.name == name and str(color) == SHIPPED['colours'][name],
                      'colours-changed', lambda: '{}: {!r} {}'.format(name, color.name, color))

    def verify(where):
        for i, thing in enumerate(things):
            thing.verify(ctx, '{}: {} {}'.format(where, thing.kind, i))
        database()

    def attempt(table, where):
        """Load, again when the disk or a signal says no."""
        nonlocal faults
        for n in range(8):
            before = fs.hard_faults
            opened = simfs.open_descriptors()
            if n >= 4:
                fs.stop_faults()
            try:
                if n == 0 and where:
                    try:
                        interruptible(ctx, table.load, where)
                    except ASYNC:
                        faults += 1
                        ctx.probe('interrupted-load')
                        if table.kind == 'standard':
                            table.real = None
                        ctx.equal(simfs.open_descriptors(), opened, 'file-left-open', table.kind)
                        continue
                else:
                    table.load()
            except OSError as error:
                ctx.check(fs.hard_faults > before, 'unexpected-oserror', repr(error))
                faults += 1
                error.__traceback__ = None
                ctx.equal(simfs.open_descriptors(), opened, 'file-left-open', table.kind)
                if not where:
                    table.verify(ctx, 'after a failed load')
                continue
            ctx.equal(simfs.open_descriptors(), opened, 'file-left-open', table.kind)
            break
        else:
            raise Violation('never-succeeds', 'load')
        table.loaded()

    def new_table():
        kind = ch.weighted([(2, 'standard'), (3, 'fibres'), (2, 'user')])
        table = Standard() if kind == 'standard' else Fibres()
        used = [t for t in things if t.kind == 'fibres']
        if kind != 'standard' and used and ch.chance(25):
            table = ch.pick(used)
        if kind == 'user':
            table.path = os.path.join(root, 'fibres{}.yaml'.format(ch.int(0, 2)))
            table.data = user_file(ctx, table.path)
        elif kind == 'fibres':
            table.path = table.data = None
        ctx.event('load', kind)
        ctx.sig('load', kind)
        return table

    with simfs.active(fs):
        for _ in range(ch.int(4, 14)):
            ctx.step()
            if ch.chance(50):
                fs.plan(ERRORS, gap_max=6, faults=ch.int(1, 3))
            else:
                fs.stop_faults()
            action = ch.weighted([(5, 'load'), (2, 'threads'), (4, 'edit'), (4, 'colour'), (3, 'style'), (1, 'person'),
                                  (1, 'draw'), (1, 'database')])
            if action == 'load':
                table = new_table()
                where = 0
                if ch.chance(25):
                    where = ch.pick([ch.int(1, 40), ch.int(1, 300), ch.int(1, 3000)])
                attempt(table, where)
                if table not in things:
                    things.append(table)
            elif action == 'threads':
                fs.stop_faults()
                scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 4, 20, 100, 1000),
                                            max_preemptions=12)
                tables = []
                for _ in range(ch.int(2, 3)):
                    table = new_table()
                    if table not in tables:
                        tables.append(table)
                # a file which is written again is read by the table which is made last
                paths = {}
                for table in tables:
                    if table.path if table.kind == 'fibres' else None:
                        paths[table.path] = table.data
                for table in tables:
                    if table.kind == 'fibres' and table.path is not None:
                        table.data = paths[table.path]
                threads = [scheduler.spawn(table.load) for table in tables]
                scheduler.run()
                for thread, table in zip(threads, tables):
                    if thread.exception is not None:
                        raise thread.exception
                    table.loaded()
                    if table not in things:
                        things.append(table)
                ctx.probe('loaded-in-threads')
            elif action == 'edit' and things:
                thing = ch.pick(things)
                ctx.event('edit', thing.kind)
                ctx.sig('edit', thing.kind)
                thing.edit(ctx)
            elif action == 'colour':
                fs.stop_faults()
                made = new_colour(ctx, popular, things)
                if made is not None:
                    things.append(made)
                    if ch.chance(40):
                        made.edit(ctx)
            elif action == 'style':
                things.append(new_style(ctx, things))
                if ch.chance(50):
                    ch.pick([t for t in things if t.kind == 'style']).edit(ctx)
            elif action == 'person':
                person = Person()
                things.append(person)
                for _ in range(ch.int(0, 4)):
                    person.edit(ctx)
            elif action == 'draw':
                fs.stop_faults()
                draw(ctx, root)
            elif action == 'database':
                # a database of the user is a copy of the one of the library
                mine = ch.pick([copy.copy, copy.deepcopy])(Colors) if ch.chance(50) else type(Colors)()
                ctx.check(len(mine) in (0, len(shared)), 'copy-of-colours', len(mine))
                if not len(mine):
                    mine.add('mine', Color(1, 2, 3, name='mine'))
                    ctx.check('mine' in mine and str(mine.mine) == '#010203' and list(mine.iter_names()) == ['mine'],
                              'colour-added')
                    ctx.check('mine' not in Colors, 'colours-shared')
                else:
                    ctx.equal(str(mine['red']), SHIPPED['colours']['red'], 'copy-of-colours')
            verify(action)
        ctx.check(not fs.refused, 'written-elsewhere', fs.refused)
    tables = [thing.kind for thing in things if thing.kind in ('standard', 'fibres')]
    ctx.sig(len(things))
    if faults or len(set(tables)) < len(tables):
        ctx.nontrivial = True
