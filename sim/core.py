"""Run context, violations and the recorded history of a simulated run."""

import collections
import hashlib
import os
import shutil
import sys
import tempfile
import traceback

REPO = os.path.realpath(os.environ.get('PATRO_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, message=''):
        super().__init__(kind, message)
        self.kind = kind
        self.message = str(message)

    def __str__(self):
        return '{}: {}'.format(self.kind, self.message)


class HarnessError(Exception):
    """The machinery is at fault, not the code under test."""


def format_error():
    """Text of the exception which is handled."""
    kind, error, trace = sys.exc_info()
    try:
        return traceback.format_exc()
    except Exception:
        # it looks at the attributes of the objects to suggest a name, they can raise
        return '{}{}: {!r}\n'.format(''.join(traceback.format_tb(trace)), kind.__name__, error.args)


class Ctx:

    def __init__(self, choices, tier='quick', scratch=None):
        self.ch = choices
        self.tier = tier
        self.events = []
        self.stats = collections.Counter()   # fault:..., probe:..., count:...
        self.signature = []                  # what makes this run different from another one
        self.nontrivial = False
        self.steps = 0                       # simulated steps: scheduler, I/O and workload steps
        self.now = 0.0                       # simulated time, s
        self.sample = None
        self._scratch_root = scratch
        self._scratch_count = 0

    def event(self, *parts):
        self.events.append(' '.join(str(part) for part in parts))

    def step(self, duration=0.001):
        self.steps += 1
        self.now += duration

    def sig(self, *parts):
        self.signature.append(parts)

    def fault(self, kind):
        self.stats['fault:' + kind] += 1
        self.nontrivial = True

    def probe(self, name, n=1):
        self.stats['probe:' + name] += n

    def check(self, condition, kind, message=''):
        if not condition:
            raise Violation(kind, message() if callable(message) else message)

    def equal(self, got, expected, kind, what=''):
        if got != expected:
            raise Violation(kind, '{}: got {!r}, expected {!r}'.format(what, got, expected))

    def scratch(self):
        """A new directory, removed with the run."""
        self._scratch_count += 1
        path = os.path.join(self._scratch_root, 'd{}'.format(self._scratch_count))
        os.makedirs(path)
        return path

    def digest(self):
        h = hashlib.sha256()
        for event in self.events:
            h.update(event.encode('utf8', 'backslashreplace'))
            h.update(b'\n')
        return h.hexdigest()[:16]

    def signature_hash(self):
        return hashlib.sha256(repr(self.signature).encode('utf8', 'backslashreplace')).hexdigest()[:16]


def scratch_base():
    for path in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(path) and os.access(path, os.W_OK | os.X_OK):
            return path
    return tempfile.gettempdir()


def remove_tree(path):
    path = os.path.realpath(path)
    if os.path.basename(path).startswith('patrosim-') or '/patrosim-' in path:
        shutil.rmtree(path, ignore_errors=True)
    else:
        raise HarnessError('refuse to remove ' + path)


_libc = None


def die_with_parent():
    """The kernel kills this process when its parent is gone."""
    global _libc
    try:
        if _libc is None:
            import ctypes
            _libc = ctypes.CDLL(None, use_errno=True)
        _libc.prctl(1, 9, 0, 0, 0)
    except (OSError, AttributeError):
        pass


def part(obj, name, cls):
    """The part of an object which is reached through a private name, or found by its class when the name is another."""
    found = vars(obj).get(name)
    if found is None:
        found = next((x for x in vars(obj).values() if type(x).__name__ == cls), None)
    return found if found is not None else getattr(obj, name)
