"""Simulated disk: a real scratch directory behind an interposed system-call layer.

Every open/read/write/fsync/close/rename/unlink/... which the code under test issues on a file of the
scratch directory goes through SimFS.op(), where the recorded choices may inject an error, a short or
torn transfer, a full disk or a crash of the process.  What is durable is tracked per inode (content
at the last fsync) and per directory (entries at the last fsync of the directory), so that a power
loss can be materialised: un-synced file contents and directory operations are lost, kept or torn.

Writes which bypass this layer (C libraries) still hit the real scratch directory: they are never
considered as synced, and they can be failed by the kernel (RLIMIT_FSIZE, see `kernel_limit`).
"""

import builtins
import errno
import io
import os
import resource
import stat as stat_module
import sys

import _io

from . import sched
from .core import HarnessError

ACTIVE = None

real = {}


class Crash(BaseException):
    """Raised instead of a real process end when no session handles the crash."""


# kinds of faults legal for an operation
ERRORS = {
    'open-read': ['EIO', 'EACCES', 'EMFILE'],
    'open-write': ['ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'EIO'],
    'read': ['EIO', 'short'],
    'write': ['ENOSPC', 'EIO', 'EDQUOT', 'short', 'torn'],
    'fsync': ['EIO', 'ENOSPC'],
    'fsync-dir': ['EIO'],
    'close': ['EIO', 'ENOSPC'],
    'rename': ['EIO', 'EACCES', 'ENOSPC', 'EROFS'],
    'link': ['EIO', 'EACCES', 'ENOSPC'],
    'unlink': ['EIO', 'EACCES'],
    'truncate': ['EIO', 'ENOSPC'],
    'chmod': ['EPERM', 'EIO'],
    'mkdir': ['ENOSPC', 'EACCES'],
}

BENIGN = ('short',)

# operations which change the disk, where a crash is worth
CRASH_POINTS = ('open-write', 'write', 'fsync', 'fsync-dir', 'close', 'rename', 'link', 'unlink', 'truncate', 'chmod',
                'mkdir')


class SimFS:

    def __init__(self, ctx, root):
        self.ctx = ctx
        self.root = os.path.realpath(root)
        self._root_prefix = self.root + os.sep
        self.inodes = {}             # real inode -> simulated one
        self.enabled = ()            # fault kinds of the plan
        self.countdown = 0           # operations to go before the next fault, 0: never
        self.gap = 0
        self.faults_left = 0
        self.only = None             # restrict faults to these operations
        self.sticky = None           # errno name of a persistent failure
        self.allow_sticky = False
        self.on_crash = None
        self.fired = []              # [(operation, kind)]
        self.names = {}              # normalised file names for the event log
        self.trace = True
        self.op_count = 0
        self.fds = {}                # fd -> (path, writable)
        self.refused = []            # writes outside of the scratch directory
        self.shipped = ()            # directories of read-only data of the code under test, with faults
        self.hard_faults = 0
        self.in_crash = False
        # durability tracking
        self.held = {}               # ino -> real fd
        self.durable_content = {}    # ino -> bytes
        self.durable_listing = {}    # path -> ino
        self.pending = []            # listings observed since
        self.last_listing = None

    # ---------------------------------------------------------------- helpers

    def inside(self, path):
        """The real path when *path* is in the scratch directory."""
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.abspath(path)
        if path.startswith(self._root_prefix) or path == self.root:
            return path
        directory = os.path.realpath(os.path.dirname(path))
        path = os.path.join(directory, os.path.basename(path))
        if path.startswith(self._root_prefix) or path == self.root:
            return path
        return None

    def shipped_file(self, path):
        """The real path of a data file of the code under test."""
        if not self.shipped:
            return None
        try:
            path = os.path.realpath(os.fsdecode(os.fspath(path)))
        except TypeError:
            return None
        if path.startswith(self.shipped) and not path.endswith(('.py', '.pyc')):
            return path
        return None

    def label(self, path):
        """Name of a file in the event log, temporary names are normalised."""
        if self.shipped and path.startswith(self.shipped):
            return 'shipped:' + os.path.basename(path)
        name = os.path.relpath(path, self.root)
        if name in self.names:
            return self.names[name]
        base = os.path.basename(name)
        digits = sum(c in '0123456789abcdef' for c in base)
        if base.startswith('.') or digits >= 12 or 'tmp' in base:
            label = 'temp#{}{}'.format(1 + sum(1 for x in self.names.values() if x.startswith('temp#')),
                                       os.path.splitext(base)[1])
        else:
            label = name
        self.names[name] = label
        return label

    # ---------------------------------------------------------------- plan

    def plan(self, kinds, gap_max=12, faults=1, crash=False, only=None, sticky=False):
        """Arm the fault plan: at most *faults* faults, the distance between them is drawn."""
        kinds = list(kinds)
        if crash:
            kinds.append('crash')
        self.enabled = tuple(kinds)
        self.only = only
        self.faults_left = faults
        self.gap = gap_max
        self.allow_sticky = sticky
        self.countdown = self.ctx.ch.draw(gap_max + 1)

    def stop_faults(self):
        self.enabled = ()
        self.countdown = 0
        self.sticky = None
        self.faults_left = 0

    def _legal(self, operation):
        kinds = [kind for kind in ERRORS.get(operation, ()) if kind in self.enabled]
        if 'crash' in self.enabled and operation in CRASH_POINTS:
            kinds.append('crash')
        return kinds

    def op(self, operation, path, size=0):
        """Called before each operation. Return None or (kind, argument)."""
        sched.yield_point(operation)
        self.op_count += 1
        self.ctx.step(0.0005)
        self.observe()
        fault = self._fault(operation, path, size)
        if self.trace:
            self.ctx.event('io', operation, self.label(path), size or '', fault or '')
        return fault

    def _fault(self, operation, path, size):
        if self.in_crash:
            return None
        if self.sticky is not None and operation in ('open-write', 'write', 'truncate', 'mkdir', 'fsync'):
            self.ctx.fault('disk-full-persistent')
            self.hard_faults += 1
            return (self.sticky, 0)
        if not self.countdown:
            return None
        if self.only is not None and operation not in self.only:
            return None
        legal = self._legal(operation)
        if not legal:
            return None
        self.countdown -= 1
        if self.countdown:
            return None
        kind = self.ctx.ch.pick(legal)
        argument = 0
        if kind in ('short', 'torn'):
            argument = self.ctx.ch.draw(max(size, 1)) if size else 0
        elif kind == 'ENOSPC' and operation == 'write':
            argument = self.ctx.ch.draw(size + 1)
            if self.allow_sticky and self.ctx.ch.chance(50):
                self.sticky = 'ENOSPC'
        elif kind == 'crash':
            # before the operation, after it, or within it
            choices = ['before', 'after']
            if operation == 'write' and size > 1:
                choices += ['torn', 'torn']
            argument = self.ctx.ch.pick(choices)
            if argument == 'torn':
                argument = 1 + self.ctx.ch.draw(size - 1)
        self.faults_left -= 1
        if self.faults_left > 0:
            self.countdown = self.ctx.ch.draw(self.gap + 1)
        name = '{}@{}'.format(kind, operation)
        self.ctx.fault(name)
        self.ctx.sig('fault', name, self.op_count, argument)
        self.fired.append((operation, kind))
        if kind not in BENIGN:
            self.hard_faults += 1
        return (kind, argument)

    def error(self, kind, path):
        number = getattr(errno, kind)
        return OSError(number, os.strerror(number), path)

    def guard(self, operation, path, size=0):
        """For operations done or not: raise, crash, or return a callable to call after the operation."""
        fault = self.op(operation, path, size)
        if fault is None:
            return None
        kind, argument = fault
        if kind == 'crash':
            if argument == 'after':
                return lambda: self.crash(operation)
            self.crash(operation)
        raise self.error(kind, path)

    def crash(self, where):
        self.in_crash = True
        self.observe()
        self.ctx.event('crash', where)
        if self.on_crash is not None:
            self.on_crash(self)
        raise Crash(where)

    # ---------------------------------------------------------------- durability

    def listing(self):
        result = {}
        stack = [self.root]
        while stack:
            directory = stack.pop()
            try:
                entries = sorted(os.scandir(directory), key=lambda entry: entry.name)
            except OSError:
                continue
            for entry in entries:
                if entry.is_dir(follow_symlinks=False):
                    stack.append(entry.path)
                elif entry.is_file(follow_symlinks=False):
                    result[entry.path] = entry.inode()
        return result

    def inode(self, real_inode):
        """The number of an inode: the smallest free one, the numbers of deleted files are used again."""
        present = set(self.listing().values())
        self.inodes = {k: v for k, v in self.inodes.items() if k in present}
        if real_inode not in self.inodes:
            number = 11
            while number in self.inodes.values():
                number += 1
            self.inodes[real_inode] = number
        return self.inodes[real_inode]

    def begin(self):
        """The current state of the disk is durable."""
        for fd in self.held.values():
            real['os.close'](fd)
        self.held = {}
        self.durable_content = {}
        self.pending = []
        listing = self.listing()
        self.durable_listing = dict(listing)
        self.last_listing = listing
        for path, ino in listing.items():
            self._hold(path, ino)
            self.durable_content[ino] = self._content(ino)
        self.tracking = True

    tracking = False

    def _hold(self, path, ino):
        if ino not in self.held:
            try:
                self.held[ino] = real['os.open'](path, os.O_RDONLY | os.O_CLOEXEC)
            except OSError:
                pass

    def _content(self, ino):
        fd = self.held.get(ino)
        if fd is None:
            return b''
        size = real['os.fstat'](fd).st_size
        data = b''
        while len(data) < size:
            chunk = os.pread(fd, size - len(data), len(data))
            if not chunk:
                break
            data += chunk
        return data

    def observe(self):
        if not self.tracking:
            return
        listing = self.listing()
        if listing != self.last_listing:
            self.pending.append(listing)
            self.last_listing = listing
            for path, ino in listing.items():
                self._hold(path, ino)

    def synced(self, fd):
        if not self.tracking:
            return
        self.observe()
        status = real['os.fstat'](fd)
        if stat_module.S_ISDIR(status.st_mode):
            directory = None
            for path in {os.path.dirname(p) for p in list(self.last_listing) + list(self.durable_listing)} | {self.root}:
                try:
                    s = real['os.stat'](path)
                except OSError:
                    continue
                if (s.st_ino, s.st_dev) == (status.st_ino, status.st_dev):
                    directory = path
            if directory is None:
                return

            def persist(listing):
                merged = {p: i for p, i in listing.items() if os.path.dirname(p) != directory}
                merged.update({p: i for p, i in self.last_listing.items() if os.path.dirname(p) == directory})
                return merged

            self.durable_listing = persist(self.durable_listing)
            self.pending = [persist(listing) for listing in self.pending]
            # entries of other directories are still pending
            self.pending = [x for i, x in enumerate(self.pending)
                            if x != (self.durable_listing if i == 0 else self.pending[i - 1])]
        else:
            ino = status.st_ino
            if ino in self.held:
                self.durable_content[ino] = self._content(ino)

    def disk_state(self):
        """What is needed to materialise a power loss, as plain data."""
        self.observe()
        listings = [self.durable_listing] + self.pending
        inodes = {ino for listing in listings for ino in listing.values()}
        files = {}
        for ino in inodes:
            files[ino] = (self.durable_content.get(ino), self._content(ino))
        return {'listings': listings, 'files': files}


def materialise_power_loss(ctx, fs_root, state):
    """Replace the content of the directory by one of the states which can be found after a power loss."""
    ch = ctx.ch
    listings = state['listings']
    # 0: everything reached the disk
    index = len(listings) - 1 - ch.draw(len(listings))
    listing = listings[index]
    if index != len(listings) - 1:
        ctx.fault('lost-directory-operations')
    contents = {}
    for path, ino in sorted(listing.items()):
        if ino in contents:
            continue
        durable, current = state['files'][ino]
        if durable == current:
            contents[ino] = current
            continue
        kind = ch.pick(['kept', 'lost', 'torn', 'zeroed'])
        if kind == 'kept':
            contents[ino] = current
        elif kind == 'lost':
            contents[ino] = durable if durable is not None else b''
        elif kind == 'torn':
            contents[ino] = current[:ch.draw(len(current) + 1)]
        else:
            contents[ino] = b'\0' * len(current)
        if kind != 'kept':
            ctx.fault('unsynced-data-' + kind)
            ctx.event('power-loss', kind, len(current))
    for directory, _, names in os.walk(fs_root):
        for name in names:
            os.unlink(os.path.join(directory, name))
    for path, ino in sorted(listing.items()):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with io.FileIO(path, 'w') as fh:
            fh.write(contents[ino])
    ctx.event('power-loss listing', index, 'of', len(listings))


# -------------------------------------------------------------------- raw files

def available(fd, size):
    """How many bytes a read can give: a short read must cut them."""
    try:
        return max(0, min(size, real['os.fstat'](fd).st_size - os.lseek(fd, 0, os.SEEK_CUR)))
    except OSError:
        return size


class SimRaw(io.FileIO):

    def __init__(self, fs, path, mode, opener, closefd=True):
        self._fs = None
        super().__init__(path, mode, closefd=closefd, opener=opener)

    def attach(self, fs, path, writable):
        self._fs = fs
        self._path = path
        self._writable = writable
        fs.fds[self.fileno()] = (path, writable)

    def _live(self):
        fs = self._fs
        return fs if fs is not None and fs is ACTIVE else None

    def readinto(self, buffer):
        fs = self._live()
        if fs is None:
            return super().readinto(buffer)
        fault = fs.op('read', self._path, available(self.fileno(), len(buffer)))
        if fault is not None:
            kind, argument = fault
            if kind != 'short':
                raise fs.error(kind, self._path)
            view = memoryview(buffer).cast('B')[:max(1, min(argument, len(buffer)))]
            return super().readinto(view)
        return super().readinto(buffer)

    def read(self, size=-1):
        if self._live() is None:
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        buffer = bytearray(size)
        n = self.readinto(buffer)
        return bytes(buffer[:n])

    def readall(self):
        if self._live() is None:
            return super().readall()
        chunks = []
        while True:
            buffer = bytearray(4096)
            n = self.readinto(buffer)
            if not n:
                return b''.join(chunks)
            chunks.append(bytes(buffer[:n]))

    def write(self, data):
        fs = self._live()
        if fs is None:
            return super().write(data)
        view = memoryview(data).cast('B')
        fault = fs.op('write', self._path, len(view))
        if fault is None:
            return super().write(view)
        kind, argument = fault
        if kind == 'short':
            return super().write(view[:max(1, argument)])
        if kind == 'crash':
            if argument == 'after':
                super().write(view)
            elif argument != 'before':
                super().write(view[:argument])
            fs.crash('write')
        if argument:
            super().write(view[:argument])
        raise fs.error('EIO' if kind == 'torn' else kind, self._path)

    def truncate(self, size=None):
        fs = self._live()
        if fs is None:
            return super().truncate(size)
        after = fs.guard('truncate', self._path)
        result = super().truncate(size)
        if after:
            after()
        return result

    def close(self):
        fs = self._live() if not self.closed and self._fs is not None else None
        if fs is None:
            return super().close()
        fd = self.fileno()
        fault = fs.op('close', self._path) if self._writable else None
        fs.fds.pop(fd, None)
        if fault and fault[0] == 'crash' and fault[1] != 'after':
            fs.crash('close')
        super().close()
        if fault:
            if fault[0] == 'crash':
                fs.crash('close')
            raise fs.error(fault[0], self._path)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = ACTIVE
    path = None
    if fs is not None:
        if isinstance(file, int):
            entry = fs.fds.get(file)
            path = entry[0] if entry else None
        else:
            path = fs.inside(file)
    writable = any(c in mode for c in 'wax+')
    if path is None and fs is not None and not writable and not isinstance(file, int):
        path = fs.shipped_file(file)
    if path is None:
        if fs is not None and writable and not isinstance(file, int):
            name = os.path.realpath(os.fsdecode(os.fspath(file)))
            if name != os.devnull:
                fs.refused.append(name)
                raise PermissionError(errno.EACCES, 'the simulator refuses a write out of the scratch directory', name)
        return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    raw_mode = mode.replace('b', '').replace('t', '').replace('U', '')
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError('binary mode does not take text arguments')
    after = None
    if not isinstance(file, int):
        after = fs.guard('open-write' if writable else 'open-read', path)
    raw = SimRaw(fs, file, raw_mode, opener, closefd)
    raw.attach(fs, path, writable)
    if not isinstance(file, int):
        fs.observe()
    if after:
        after()
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = buffering == 1 and not binary
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in raw_mode:
        buffer = io.BufferedRandom(raw, size)
    elif writable:
        buffer = io.BufferedWriter(raw, size)
    else:
        buffer = io.BufferedReader(raw, size)
    if binary:
        return buffer
    text = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


# -------------------------------------------------------------------- os level

def _is_write_flags(flags):
    return bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = ACTIVE
    name = fs.inside(path) if fs is not None and dir_fd is None and not isinstance(path, int) else None
    if name is None:
        if fs is not None and dir_fd is None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            target = os.path.realpath(os.fsdecode(os.fspath(path)))
            if target != os.devnull:
                fs.refused.append(target)
                raise PermissionError(errno.EACCES, 'the simulator refuses a write out of the scratch directory', target)
        elif fs is not None and dir_fd is None and not isinstance(path, int):
            name = fs.shipped_file(path)
        if name is None:
            return real['os.open'](path, flags, mode, dir_fd=dir_fd)
    write = _is_write_flags(flags)
    # opening a file for fsync does not write anything
    after = fs.guard('open-write' if flags & (os.O_CREAT | os.O_TRUNC) else 'open-read', name)
    fd = real['os.open'](path, flags, mode)
    fs.fds[fd] = (name, write)
    fs.observe()
    if after:
        after()
    return fd


def sim_os_close(fd):
    fs = ACTIVE
    entry = fs.fds.pop(fd, None) if fs is not None else None
    return real['os.close'](fd)


def sim_os_read(fd, n):
    fs = ACTIVE
    entry = fs.fds.get(fd) if fs is not None else None
    if entry is None:
        return real['os.read'](fd, n)
    fault = fs.op('read', entry[0], available(fd, n))
    if fault is not None:
        if fault[0] != 'short':
            raise fs.error(fault[0], entry[0])
        n = max(1, min(n, fault[1]))
    return real['os.read'](fd, n)


def sim_os_write(fd, data):
    fs = ACTIVE
    entry = fs.fds.get(fd) if fs is not None else None
    if entry is None:
        return real['os.write'](fd, data)
    view = memoryview(data).cast('B')
    fault = fs.op('write', entry[0], len(view))
    if fault is None:
        return real['os.write'](fd, view)
    kind, argument = fault
    if kind == 'short':
        return real['os.write'](fd, view[:max(1, argument)])
    if kind == 'crash':
        if argument == 'after':
            real['os.write'](fd, view)
        elif argument != 'before':
            real['os.write'](fd, view[:argument])
        fs.crash('write')
    if argument:
        real['os.write'](fd, view[:argument])
    raise fs.error('EIO' if kind == 'torn' else kind, entry[0])


def _sim_sync(name):
    def sync(fd):
        fs = ACTIVE
        number = fd if isinstance(fd, int) else fd.fileno()
        if fs is None:
            return real[name](fd)
        entry = fs.fds.get(number)
        path = entry[0] if entry else None
        if path is None:
            try:
                path = fs.inside(os.readlink('/proc/self/fd/{}'.format(number)))
            except OSError:
                path = None
        if path is None:
            return real[name](fd)
        is_dir = stat_module.S_ISDIR(real['os.fstat'](number).st_mode)
        fault = fs.op('fsync-dir' if is_dir else 'fsync', path)
        if fault is not None:
            if fault[0] == 'crash':
                if fault[1] == 'after':
                    fs.synced(number)
                fs.crash('fsync')
            raise fs.error(fault[0], path)
        # no need to wait for the real disk
        fs.synced(number)
    return sync


def _two_paths(name, operation):
    def function(src, dst, **kwargs):
        fs = ACTIVE
        if fs is None:
            return real[name](src, dst, **kwargs)
        a, b = fs.inside(src), fs.inside(dst)
        if b is None or (a is None and operation == 'rename'):
            target = os.path.realpath(os.fsdecode(os.fspath(dst)))
            fs.refused.append(target)
            raise PermissionError(errno.EACCES, 'the simulator refuses a write out of the scratch directory', target)
        fs.label(a or src)
        after = fs.guard(operation, b)
        result = real[name](src, dst, **kwargs)
        fs.observe()
        if after:
            after()
        return result
    return function


def _one_path(name, operation):
    def function(path, *args, **kwargs):
        fs = ACTIVE
        if fs is None:
            return real[name](path, *args, **kwargs)
        if isinstance(path, int):
            entry = fs.fds.get(path)
            inside = entry[0] if entry else None
            if inside is None:
                return real[name](path, *args, **kwargs)
        else:
            inside = fs.inside(path)
        if inside is None or kwargs.get('dir_fd') is not None:
            target = str(path)
            fs.refused.append(target)
            raise PermissionError(errno.EACCES, 'the simulator refuses a change out of the scratch directory', target)
        after = fs.guard(operation, inside)
        result = real[name](path, *args, **kwargs)
        fs.observe()
        if after:
            after()
        return result
    return function


DATE = 1_500_000_000


def _sim_stat(name):
    """The dates of files are simulated: the clock of the disk is so coarse that it does not move during a run."""
    operation = name

    def function(path, *args, **kwargs):
        status = real[operation](path, *args, **kwargs)
        fs = ACTIVE
        if fs is None:
            return status
        if isinstance(path, int):
            if path not in fs.fds:
                return status
        else:
            # without realpath, which is here again
            name = os.path.abspath(os.fsdecode(path))
            if not name.startswith(fs._root_prefix):
                return status
        fields = {field: DATE for field in ('st_atime', 'st_mtime', 'st_ctime')}
        fields.update({field + '_ns': DATE * 10**9 for field in ('st_atime', 'st_mtime', 'st_ctime')})
        for field in ('st_blksize', 'st_blocks', 'st_rdev'):
            fields[field] = getattr(status, field)
        inode = fs.inode(status.st_ino) if stat_module.S_ISREG(status.st_mode) else status.st_ino
        return os.stat_result((status.st_mode, inode) + tuple(status)[2:7] + (DATE,) * 3, fields)
    return function


def sim_sendfile(*args, **kwargs):
    if ACTIVE is not None:
        raise OSError(errno.ENOTSOCK, 'use read and write')
    return real['os.sendfile'](*args, **kwargs)


def install():
    """Interpose the layer, once, before the code under test is imported."""
    if real:
        return
    real['open'] = builtins.open
    builtins.open = io.open = _io.open = sim_open
    table = {
        'os.open': sim_os_open,
        'os.close': sim_os_close,
        'os.read': sim_os_read,
        'os.write': sim_os_write,
        'os.fsync': _sim_sync('os.fsync'),
        'os.fdatasync': _sim_sync('os.fdatasync'),
        'os.rename': _two_paths('os.rename', 'rename'),
        'os.replace': _two_paths('os.replace', 'rename'),
        'os.link': _two_paths('os.link', 'link'),
        'os.symlink': _two_paths('os.symlink', 'link'),
        'os.unlink': _one_path('os.unlink', 'unlink'),
        'os.remove': _one_path('os.remove', 'unlink'),
        'os.truncate': _one_path('os.truncate', 'truncate'),
        'os.ftruncate': _one_path('os.ftruncate', 'truncate'),
        'os.chmod': _one_path('os.chmod', 'chmod'),
        'os.utime': _one_path('os.utime', 'chmod'),
        'os.mkdir': _one_path('os.mkdir', 'mkdir'),
        'os.rmdir': _one_path('os.rmdir', 'unlink'),
        'os.sendfile': sim_sendfile,
        'os.stat': _sim_stat('os.stat'),
        'os.lstat': _sim_stat('os.lstat'),
        'os.fstat': _sim_stat('os.fstat'),
    }
    for name, function in table.items():
        attribute = name[3:]
        real[name] = getattr(os, attribute)
        setattr(os, attribute, function)
    # shutil.rmtree and friends look at these sets
    for name in ('supports_dir_fd', 'supports_follow_symlinks', 'supports_fd', 'supports_effective_ids'):
        functions = getattr(os, name)
        for key, function in table.items():
            if real[key] in functions:
                functions.add(function)


class active:
    """Context manager: the layer is on for the calls made in its body."""

    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError('nested simulated file systems')
        ACTIVE = self.fs
        return self.fs

    def __exit__(self, *args):
        global ACTIVE
        ACTIVE = None


class paused:
    """Context manager: the harness itself looks at the disk."""

    def __enter__(self):
        global ACTIVE
        self.fs = ACTIVE
        ACTIVE = None

    def __exit__(self, *args):
        global ACTIVE
        ACTIVE = self.fs


class kernel_limit:
    """Context manager: the kernel fails the writes beyond *size* bytes (EFBIG), whoever issues them."""

    def __init__(self, ctx, size):
        self.ctx = ctx
        self.size = size

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.size, self.old[1]))
        return self

    def __exit__(self, *args):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def open_descriptors():
    """Open file descriptors of the process."""
    result = set()
    for name in os.listdir('/proc/self/fd'):
        try:
            result.add((int(name), os.readlink('/proc/self/fd/' + name)))
        except OSError:
            pass
    return result
