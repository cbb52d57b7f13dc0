"""Reference model of a set of measurements: expressions over names, evaluated by plain Python."""

import math

# names which are prefixes or suffixes of each other, or words of the YAML language; none is known to sympy
NAMES = ('height', 'waist', 'hip', 'leg', 'leg_long', 'a', 'a1', 'a12', 'b', 'b1', 'M', 'M1', 'x', 'xx', 'neck_circ',
         'neck_circ_2', 'yes', 'no', 'on', 'off', 'Null_', 'k', 'kk', 'w', 'w2', 'u_v', 'v', 'arm', 'arm_', '_arm',
         'hauteur_é')
SPACED = ('full height', 'arm length 2', 'p q')
CUSTOM = ('@leg', '@leg_long', '@M', '@M1', '@ease', '@a', '@height')
TEXTS = ('', '', 'Height', 'Höhe: #1', 'a "quoted" text', "l'épaule", 'line 1\nline 2', ' leading', 'yes', '12', 'null',
         '- item', '{a: b}', '%d \\n', 'x' * 200, 'tab\there', '日本', '@custom', 'end ')


class Unresolved(Exception):
    pass


def symbol(name):
    return name.replace(' ', '_').replace('@', 'C_')


def text(ast, rename=lambda name: name.replace(' ', '_')):
    kind = ast[0]
    if kind == 'num':
        return ast[1]
    if kind == 'meas':
        return rename(ast[1])
    if kind == 'neg':
        return '-({})'.format(text(ast[1], rename))
    if kind == 'sqrt':
        return 'sqrt({})'.format(text(ast[1], rename))
    if kind == 'pow':
        return '({})**2'.format(text(ast[1], rename))
    return '({}) {} ({})'.format(text(ast[2], rename), ast[1], text(ast[3], rename))


def names(ast):
    if ast[0] == 'num':
        return set()
    if ast[0] == 'meas':
        return {symbol(ast[1])}
    if ast[0] == 'bin':
        return names(ast[2]) | names(ast[3])
    return names(ast[1])


def value(ast, env):
    """(value, scale of the numbers met), *env* gives the AST of a symbol."""
    kind = ast[0]
    if kind == 'num':
        v = float(ast[1])
        return v, abs(v)
    if kind == 'meas':
        target = env(symbol(ast[1]))
        return value(target, env)
    if kind == 'value':
        return ast[1]
    if kind == 'neg':
        v, s = value(ast[1], env)
        return -v, s
    if kind == 'sqrt':
        v, s = value(ast[1], env)
        return math.sqrt(v), max(s, math.sqrt(v))
    if kind == 'pow':
        v, s = value(ast[1], env)
        return v * v, max(s, v * v) * max(1, s)
    _, op, left, right = ast
    (a, s), (b, t) = value(left, env), value(right, env)
    v = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
    scale = max(s, t, abs(v))
    if op == '*':
        scale = max(scale, s * t)
    return v, scale


def gen_expression(ch, available, depth=2):
    kinds = [(5, 'num')]
    if available:
        kinds.append((8, 'meas'))
    if depth:
        kinds += [(8, 'bin'), (1, 'neg'), (1, 'pow'), (1, 'sqrt')]
    kind = ch.weighted(kinds)
    if kind == 'num':
        v = ch.decimal(0, 120, ch.pick([0, 1, 2, 3]))
        t = repr(v)
        if t.endswith('.0') and ch.chance(60):
            t = t[:-2]
        return ('num', t)
    if kind == 'meas':
        return ('meas', ch.pick(available))
    if kind == 'sqrt':
        return ('sqrt', ('num', str(ch.int(0, 50))))
    if kind in ('neg', 'pow'):
        return (kind, gen_expression(ch, available, depth - 1))
    op = ch.pick('+-*/')
    left = gen_expression(ch, available, depth - 1)
    right = ('num', str(ch.int(1, 9))) if op == '/' else gen_expression(ch, available, depth - 1)
    return ('bin', op, left, right)


class Entry:

    def __init__(self, name, ast, full_name='', description='', number=None):
        self.name = name
        self.ast = ast
        self.full_name = full_name
        self.description = description
        self.number = number    # given as a Python number

    @property
    def symbol(self):
        return symbol(self.name)

    def describe(self):
        return '{} = {}{}'.format(self.name, text(self.ast), ' #' if self.full_name or self.description else '')


class Model:

    def __init__(self):
        self.entries = {}    # symbol -> Entry

    def add(self, entry):
        self.entries[entry.symbol] = entry

    def reaches(self, ast, name, seen=()):
        """The expression depends on the measurement."""
        seen = set(seen)
        stack = list(names(ast))
        while stack:
            x = stack.pop()
            if x == name:
                return True
            if x not in seen and x in self.entries:
                seen.add(x)
                stack.extend(names(self.entries[x].ast))
        return False

    def value(self, name):
        """(value, scale), or raise Unresolved.

        What does not depend on a missing measurement can have a value, e.g. 0 * missing, or not.
        """
        results = []
        for guess in (('num', '17.31'), ('num', '4.57')):
            missing = []

            def evaluate(ast, stack):
                def env(symbol):
                    if symbol in stack or symbol not in self.entries:
                        missing.append(symbol)
                        return guess
                    return ('value', evaluate(self.entries[symbol].ast, stack + (symbol,)))
                return value(ast, env)

            results.append(evaluate(self.entries[name].ast, (name,)))
            if not missing:
                return results[0]
        error = Unresolved(name)
        (a, s), (b, t) = results
        error.constant = (a, s) if abs(a - b) <= 1e-9 * max(1, s, t) else None
        raise error


def generate(ch, count, pool=NAMES + SPACED, forbidden=(), available=(), texts=True):
    """Entries which depend on the previous ones, or on *available*."""
    taken = {symbol(name) for name in forbidden}
    entries = []
    available = list(available)
    # keep the values small: limited depth of dependencies
    level = {name: 1 for name in available}
    for _ in range(count):
        candidates = [name for name in pool if symbol(name) not in taken]
        if not candidates:
            break
        name = ch.pick(candidates)
        taken.add(symbol(name))
        usable = [n for n in available if level[n] < 4]
        ast = gen_expression(ch, usable)
        used = names(ast)
        level[name] = 1 + max([level[n] for n in available if symbol(n) in used], default=0)
        number = None
        if ast[0] == 'num' and ch.chance(30):
            number = float(ast[1]) if '.' in ast[1] else int(ast[1])
        full_name = description = ''
        if texts and ch.chance(60):
            full_name, description = ch.pick(TEXTS), ch.pick(TEXTS)
        entries.append(Entry(name, ast, full_name, description, number))
        available.append(name)
    return entries


def apply(measurements, entry):
    rename = lambda n: n.replace(' ', '_')
    v = entry.number if entry.number is not None else text(entry.ast, rename)
    if entry.full_name or entry.description:
        return measurements.add(entry.name, v, entry.full_name, entry.description)
    return measurements.add(entry.name, v)


def check_value(ctx, measurement, model, name, where):
    """The value of a measurement is the one of the model; unresolved measurements have no value."""
    try:
        v, scale = model.value(name)
    except Unresolved as error:
        try:
            got = measurement.value
        except Exception:
            return False
        if error.constant is not None:
            v, scale = error.constant
            ctx.check(abs(got - v) <= 1e-9 * max(1, scale), 'wrong-value', '{}: {}'.format(where, name))
            return True
        ctx.check(False, 'value-of-an-unresolved-measurement', '{}: {} is {!r}'.format(where, name, got))
    got = measurement.value
    ctx.check(isinstance(got, float) and abs(got - v) <= 1e-9 * max(1, scale), 'wrong-value',
              lambda: '{}: {} = {} is {!r} instead of {!r}'.format(where, name, text(model.entries[name].ast), got, v))
    ctx.check(float(measurement) == got, 'wrong-value', '{}: {}: float()'.format(where, name))
    return True
