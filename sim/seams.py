"""Seams: everything nondeterministic which the code under test can reach.

install() is called once per worker process, before the code under test is imported:
  locks      -> sched.SimLock/SimRLock
  files      -> simfs
  entropy    -> os.urandom gives a reproducible stream (uuid4, secrets), `random` is seeded
  clock      -> time.time() and friends are the simulated time
  hash order -> objects of the code under test which are hashed by address get a recorded hash
Temporary files are created in the scratch directory of the run.
"""

import datetime
import gc
import hashlib
import importlib
import logging
import os
import pkgutil
import random
import sys
import tempfile
import time
import weakref

from . import sched, simfs
from .core import REPO

real_urandom = os.urandom
real_time = time.time
real_monotonic = time.monotonic
real_perf_counter = time.perf_counter
real_datetime = datetime.datetime
real_date = datetime.date

CTX = None       # the current run
_entropy_counter = 0

EPOCH = 1_500_000_000.0


def _urandom(n):
    global _entropy_counter
    if CTX is None:
        return real_urandom(n)
    data = b''
    while len(data) < n:
        _entropy_counter += 1
        data += hashlib.sha256('entropy{}'.format(_entropy_counter).encode()).digest()
    return data[:n]


def _time():
    return EPOCH + CTX.now if CTX is not None else real_time()


def _time_ns():
    return int(_time() * 1e9)


def _monotonic():
    return CTX.now if CTX is not None else real_monotonic()


class _SimClock(type):

    def __instancecheck__(cls, instance):
        return isinstance(instance, cls.__mro__[1])

    def __subclasscheck__(cls, subclass):
        return issubclass(subclass, cls.__mro__[1])


class SimDatetime(real_datetime, metaclass=_SimClock):
    # datetime.now() and the like don't use the time module

    @classmethod
    def now(cls, tz=None):
        return real_datetime.fromtimestamp(_time(), tz or datetime.timezone.utc).replace(tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


class SimDate(real_date, metaclass=_SimClock):

    @classmethod
    def today(cls):
        return SimDatetime.now().date()


def _clock_function(name):
    # these take the real time by default
    function = getattr(time, name)

    def wrapper(seconds=None):
        return function(_time() if seconds is None else seconds)
    wrapper.__name__ = name
    return wrapper


def _strftime(fmt, t=None, _real=time.strftime):
    return _real(fmt, time.localtime() if t is None else t)


def _asctime(t=None, _real=time.asctime):
    return _real(time.localtime() if t is None else t)


def _sleep(duration):
    if CTX is None:
        return
    CTX.now += max(0, duration)
    sched.yield_point('sleep')


THIRD_PARTY = (
    'numpy', 'lxml.etree', 'yaml', 'sympy', 'rtree', 'ezdxf', 'reportlab.pdfgen.canvas', 'reportlab.lib.units',
    'IntervalArithmetic', 'zlib', 'base64', 'uuid', 'shutil', 'tempfile', 'xml.dom.minidom', 'ast', 'contextlib',
    'concurrent.futures', 'threading', 'copy', 'decimal', 'fractions', 'statistics', 'codecs', 'gzip', 'inspect',
    'linecache', 'tokenize', 'textwrap',
)

PATRO_MODULES = {
    'core': ['Patro.Common.AtomicCounter', 'Patro.Common.Object', 'Patro.Common.Singleton',
             'Patro.Common.Graph.DirectedAcyclicGraph'],
    'measurement': ['Patro.Measurement.Measurement', 'Patro.Measurement.ValentinaMeasurement',
                    'Patro.FileFormat.Valentina.Measurement', 'Patro.Measurement.ValentinaStandardMeasurement'],
    'pattern': ['Patro.Pattern.Pattern', 'Patro.Pattern', 'Patro.FileFormat.Valentina.Pattern'],
    'scene': ['Patro.GraphicEngine.GraphicScene.Scene'],
    'painter': ['Patro.GraphicEngine.Painter.Paper', 'Patro.GraphicEngine.Painter.SvgPainter',
                'Patro.GraphicEngine.Painter.TexPainter', 'Patro.GraphicEngine.Painter.PdfPainter',
                'Patro.GraphicEngine.Painter.DxfPainter'],
    'plot': ['Patro.GraphicEngine.Painter.MplPainter'],
    'viewer': ['Patro.GraphicEngine.Painter.QtPainter'],
    'textile': ['Patro.TextileTechnology.Fiber'],
}

IMPORT_ERRORS = {}


def install(heavy=True, preload=()):
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/patrosim-pycache'   # never trust a .pyc of /repo
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
    for name in ('localtime', 'gmtime', 'ctime'):
        setattr(time, name, _clock_function(name))
    time.strftime = _strftime
    time.asctime = _asctime
    datetime.datetime = SimDatetime
    datetime.date = SimDate
    for name in (*(THIRD_PARTY if heavy else ()), *preload):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    if heavy:
        try:
            import ezdxf
            ezdxf.new('R2010', setup=['linetypes'])   # loads lazily imported modules
        except Exception:
            pass
        import sympy
        sympy.sympify('a*2.5 + b/3 - sqrt(2)').subs({'a': 1, 'b': 2}).evalf()
    logging.disable(logging.CRITICAL)
    os.urandom = _urandom
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _monotonic
    time.perf_counter = _monotonic
    time.sleep = _sleep
    sched.install_lock_seam()
    simfs.install()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    # an editable installation must not win over the tree under test
    sys.meta_path[:] = [finder for finder in sys.meta_path if 'editable' not in str(finder).lower()]


def import_patro(groups):
    """Import the modules of the code under test. A failure is reported when the module is used."""
    for group in groups:
        for name in PATRO_MODULES.get(group, [group]):
            try:
                importlib.import_module(name)
            except BaseException as error:
                if isinstance(error, ModuleNotFoundError) and error.name == name:
                    # moved: the check which needs it will tell
                    pass
                IMPORT_ERRORS[name] = '{}: {}'.format(type(error).__name__, error)
    patro = sys.modules.get('Patro')
    if patro is not None:
        path = os.path.realpath(list(patro.__path__)[0])
        if not path.startswith(REPO):
            raise RuntimeError('Patro is imported from {} instead of {}'.format(path, REPO))


def patro_prefixes():
    return (os.path.join(REPO, 'Patro') + os.sep,)


# -------------------------------------------------------------------- addresses

real_id = id


class SimAddresses:

    """What id() gives to the code under test: it is the same in each execution, and the address of an object which
    does not exist any more is given to the next one, as an allocator is free to do."""

    def __init__(self):
        self.last = 0x7f0000000000
        self.free = []
        self.table = {}     # real address -> (weak or strong reference, address)
        self.reused = 0

    def __call__(self, obj):
        key = real_id(obj)
        entry = self.table.get(key)
        if entry is None:
            try:
                def forget(_, self=self, key=key):
                    entry = self.table.pop(key, None)
                    if entry is not None:
                        self.free.append(entry[1])
                reference = weakref.ref(obj, forget)
            except TypeError:
                reference = obj    # kept alive, its address is never reused
            if self.free and reference is not obj:
                address = self.free.pop()
                self.reused += 1
            else:
                self.last += 16
                address = self.last
            self.table[key] = entry = (reference, address)
        return entry[1]


def install_addresses():
    addresses = SimAddresses()
    for name, module in list(sys.modules.items()):
        if name.startswith('Patro.') and vars(module).get('id', real_id) is real_id:
            module.id = addresses
    return addresses


# -------------------------------------------------------------------- hash by address

def install_identity_hash(ctx):
    """Objects of the code under test which are hashed by address get a hash drawn from a recorded seed,
    therefore the order of sets and the like is a recorded choice."""
    salt = ctx.ch.draw(1 << 16)
    counter = [0]
    table = {}

    def identity_hash(self):
        key = id(self)
        entry = table.get(key)
        if entry is None:
            counter[0] += 1
            if salt == 0:
                value = counter[0] * 16
            else:
                value = int.from_bytes(hashlib.sha256('{}/{}'.format(salt, counter[0]).encode()).digest()[:7], 'big')
            # the object is kept alive, its address cannot be reused
            table[key] = entry = (value, self)
        return entry[0]

    for name, module in list(sys.modules.items()):
        if name.startswith('Patro.'):
            for cls in list(vars(module).values()):
                if (isinstance(cls, type) and cls.__module__.startswith('Patro.')
                        and cls.__hash__ is object.__hash__ and cls.__eq__ is object.__eq__
                        and not issubclass(cls, type)):
                    try:
                        cls.__hash__ = identity_hash
                    except (AttributeError, TypeError):
                        pass
    return salt


def begin_run(ctx, scratch):
    os.environ['XDG_RUNTIME_DIR'] = scratch
    global CTX, _entropy_counter
    CTX = ctx
    _entropy_counter = 0
    random.seed(12345)
    tempfile.tempdir = scratch
    os.environ['TMPDIR'] = scratch
    os.environ['HOME'] = scratch
    gc.collect()
    ctx.addresses = install_addresses()
