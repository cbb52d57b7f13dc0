"""C05: whatever happens during a save, the file holds a complete document: the previous one or the new one."""

import os
import resource

from sim import sched, seams, session, simfs
from sim.core import Violation
from world import docs

ID = 'C05'
GROUPS = ['core', 'measurement', 'pattern', 'scene', 'painter']
LEVEL = 'fault_enumeration'
QUICK = {'runs': 2400, 'seconds': 100}
THOROUGH = {'runs': 400000, 'seconds': 800}
RULE = ('a run draws a kind of document (pattern, measurements, SVG, TeX, tiled TeX, PDF, DXF), 1-3 versions of it and a '
        'history of saves on one path (plain, symbolic link or missing file) under disk errors, short and torn writes, '
        'full disk, file size limit set in the kernel, a process crash before, within or after any disk operation, and '
        'the loss of what was not synced, or two threads which save and one which reads; non-trivial: a fault fired or '
        'a context switch happened; distinct: another fault, position or schedule')
REAL = ['Patro.Common.AtomicSave', 'Patro.FileFormat.Valentina', 'Patro.Measurement', 'Patro.GraphicEngine.Painter',
        'Patro.GraphicEngine.TeX', 'Patro.FileFormat.Svg', 'lxml', 'yaml', 'reportlab', 'ezdxf']
STUB = ['disk (real scratch directory behind an interposed system call layer)', 'power loss (un-synced contents and '
        'directory entries are lost, torn or zeroed)', 'process crash (fork)', 'thread scheduler', 'clock', 'entropy']
ASSUMPTIONS = ['a rename is atomic on the disk', 'data which was not synced may be lost, torn or zeroed at a power loss, '
               'directory operations may be lost from any point on, in order',
               'a document is complete when an independent reader finds the same content as in a save without faults']

ERRORS = ('EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'EDQUOT', 'EPERM', 'short', 'torn')
KINDS = ('val', 'yaml', 'svg', 'tex', 'tiled', 'pdf', 'dxf', 'texdoc', 'svgtree')


def content(kind, path):
    """Canonical content, None without file; raises docs.Corrupt."""
    try:
        return docs.read(kind, path)
    except FileNotFoundError:
        return None


class World:

    def __init__(self, ctx, crash):
        ch = ctx.ch
        self.ctx = ctx
        self.kind = ch.weighted([(4, 'val'), (3, 'yaml'), (3, 'svg'), (3, 'tex'), (1, 'tiled'), (3, 'pdf'), (1, 'dxf'),
                                (2, 'texdoc'), (2, 'svgtree')])
        self.root = ctx.scratch()
        golden = ctx.scratch()
        suffix = docs.SUFFIX[self.kind]
        self.documents = [docs.generate(ch, self.kind, 'version{}'.format(i)) for i in range(ch.int(2, 3))]
        self.objects = [docs.build(document, ch) for document in self.documents]
        self.golden = []
        for i, (document, obj) in enumerate(zip(self.documents, self.objects)):
            path = os.path.join(golden, 'v{}{}'.format(i, suffix))
            docs.save(document, obj, path)
            c = docs.read(self.kind, path)
            ctx.check(document.marker in repr(c), 'content-lost', document)
            self.golden.append(c)
        ctx.check(len(set(self.golden)) == len(self.golden), 'content-lost', 'two documents have the same content')
        # layout of the disk
        self.real_path = os.path.join(self.root, 'data', 'document' + suffix)
        os.makedirs(os.path.dirname(self.real_path))
        self.path = self.real_path
        self.layout = ch.pick(['plain', 'plain', 'plain', 'symlink', 'missing', 'relative'])
        if self.layout != 'missing':
            docs.save(self.documents[0], self.objects[0], self.real_path)
            if ch.chance(30):
                os.chmod(self.real_path, 0o600)
        if self.layout == 'symlink':
            self.path = os.path.join(self.root, 'link' + suffix)
            os.symlink(self.real_path, self.path)
        if self.layout == 'relative':
            os.chdir(self.root)
            self.path = os.path.join('data', 'document' + suffix)
        self.bystander = os.path.join(self.root, 'data', 'bystander' + suffix)
        with open(self.bystander, 'wb') as fh:
            fh.write(b'do not touch')
        ctx.event('world', self.kind, self.layout, len(self.documents))
        ctx.sig(self.kind, self.layout)

    def allowed(self, indices, where):
        """Check that the file is complete, return its version (None: no file)."""
        ctx = self.ctx
        with simfs.paused():
            try:
                c = content(self.kind, self.real_path)
            except docs.Corrupt as error:
                size = os.path.getsize(self.real_path)
                raise Violation('corrupt-file', '{}: {} {} has {} bytes, {}'.format(
                    where, self.kind, self.layout, size, error))
            if c is None:
                version = None
            elif c in self.golden:
                version = self.golden.index(c)
            else:
                raise Violation('incomplete-file', '{}: {} {}: the content is neither the old nor the new one: {}'.format(
                    where, self.kind, self.layout, repr(c)[:500]))
            ctx.check(version in indices, 'wrong-version', lambda: '{}: {} {}: version {} instead of one of {}'.format(
                where, self.kind, self.layout, version, indices))
            with open(self.bystander, 'rb') as fh:
                ctx.check(fh.read() == b'do not touch', 'other-file-touched', where)
            if self.layout == 'symlink':
                ctx.check(os.path.islink(self.path), 'link-replaced', where)
        return version


def save_session(ctx, fs, progress, world, script, limit):
    ch = ctx.ch
    current = progress_state = None
    for index in script:
        progress.append(('saving', index))
        before = fs.hard_faults
        limited = False
        try:
            if limit is not None and ch.chance(60):
                limited = True
                ctx.fault('file-size-limit')
                with simfs.kernel_limit(ctx, ch.draw(limit)):
                    docs.save(world.documents[index], world.objects[index], world.path)
            else:
                docs.save(world.documents[index], world.objects[index], world.path)
        except OSError as error:
            ctx.check(fs.hard_faults > before or limited, 'unexpected-oserror', repr(error))
            ctx.event('failed', index, type(error).__name__)
            progress.append(('failed', index))
            ctx.probe('save-failed')
        else:
            progress.append(('saved', index))
            ctx.event('saved', index)
            # acknowledged: it must be the whole new document
            world.allowed([index], 'after an acknowledged save')
            continue
        world.allowed(candidates_of(world, progress), 'after a failed save')
    ctx.check(not fs.refused, 'written-elsewhere', fs.refused)


def candidates_of(world, progress):
    candidates = [world.initial]
    for kind, index in progress:
        if kind == 'saving':
            candidates = candidates + [index]
        elif kind == 'saved':
            candidates = [index]
    return candidates


def run_sessions(ctx):
    ch = ctx.ch
    world = World(ctx, True)
    world.initial = None if world.layout == 'missing' else 0
    mode = ch.pick(['errors', 'crash', 'crash', 'mixed', 'limit'])
    crashed = False
    history = []
    for number in range(ch.int(1, 3)):
        script = [ch.draw(len(world.documents)) for _ in range(ch.int(1, 3))]

        def setup(fs):
            if mode == 'limit':
                return
            kinds = () if mode == 'crash' else ch.subset(ERRORS, 60) or ['ENOSPC']
            fs.plan(kinds, gap_max=ch.pick([3, 6, 12, 40]), faults=ch.int(1, 2), crash=mode != 'errors',
                    sticky=mode != 'crash')

        limit = None
        if mode == 'limit':
            limit = ch.pick([10, 200, 1000, 5000])
        result = session.run_session(ctx, save_session, world, script, limit, fs_root=world.root, fs_setup=setup)
        candidates = candidates_of(world, result.progress)
        history.append((script, [kind for kind, _ in result.progress][-1:], result.crashed))
        if result.crashed:
            ctx.probe('crash-during-save')
            ctx.nontrivial = True
            version = world.allowed(candidates, 'after a crash')
            if ch.chance(70):
                simfs.materialise_power_loss(ctx, world.root, result.disk)
                if world.layout == 'symlink' and not os.path.islink(world.path):
                    os.symlink(world.real_path, world.path)
                ctx.probe('power-loss')
                version = world.allowed(candidates, 'after a power loss')
        elif ch.chance(40):
            # the power is lost after the end of the process
            simfs.materialise_power_loss(ctx, world.root, result.disk)
            if world.layout == 'symlink' and not os.path.islink(world.path):
                os.symlink(world.real_path, world.path)
            ctx.probe('power-loss-idle')
            version = world.allowed(candidates, 'after a power loss')
        else:
            version = world.allowed(candidates, 'at the end of a session')
        ctx.event('version', version)
        world.initial = version
    # once the faults stop, a save works
    index = ch.draw(len(world.documents))
    docs.save(world.documents[index], world.objects[index], world.path)
    world.allowed([index], 'after the faults')
    ctx.sample = {'kind': world.kind, 'layout': world.layout, 'mode': mode, 'history': history}


def run_threads(ctx):
    """Savers and readers of the same path in one process."""
    ch = ctx.ch
    world = World(ctx, False)
    world.initial = None if world.layout == 'missing' else 0
    fs = simfs.SimFS(ctx, world.root)
    everything = [world.initial] + list(range(len(world.documents)))
    finished = []
    seen = []

    def saver(index, times):
        for _ in range(times):
            before = fs.hard_faults
            try:
                docs.save(world.documents[index], world.objects[index], world.path)
                finished.append(index)
            except OSError as error:
                ctx.check(fs.hard_faults > before or faulty, 'unexpected-oserror', repr(error))

    def reader():
        for _ in range(3):
            try:
                with open(world.real_path, 'rb', buffering=0) as fh:
                    chunks = []
                    while True:
                        chunk = fh.read(200)
                        if not chunk:
                            break
                        chunks.append(chunk)
                data = b''.join(chunks)
            except FileNotFoundError:
                ctx.check(world.initial is None and not finished, 'file-disappears', world.kind)
                continue
            except OSError:
                if faulty:
                    continue
                raise
            try:
                c = docs.READERS[world.kind](data)
            except docs.Corrupt as error:
                raise Violation('corrupt-file', 'a reader got {} bytes during a save: {}'.format(len(data), error))
            ctx.check(c in world.golden, 'incomplete-file', 'a reader got a mix of documents')
            seen.append(world.golden.index(c))

    faulty = ch.chance(30)
    with simfs.active(fs):
        if faulty:
            fs.plan(ch.subset(ERRORS, 60) or ['ENOSPC'], gap_max=20, faults=2)
        granularity = 'io' if world.kind in ('dxf', 'pdf') else ch.pick(['io', 'line'])
        scheduler = sched.Scheduler(ctx, granularity, seams.patro_prefixes(), gaps=(1, 2, 5, 20, 100))
        indices = ch.shuffle(range(len(world.documents)))[:2]
        threads = [scheduler.spawn(saver, index, ch.int(1, 2)) for index in indices]
        threads += [scheduler.spawn(reader)]
        scheduler.run()
        for thread in threads:
            if thread.exception is not None:
                raise Violation('thread-fails:' + type(thread.exception).__name__, thread.traceback)
        version = world.allowed(everything, 'after concurrent saves')
        if finished and not faulty:
            ctx.check(version in indices, 'wrong-version', 'version {} after the saves of {}'.format(version, indices))
    ctx.event('seen', seen, version)
    if len(set(seen)) > 1:
        ctx.probe('reader-saw-several-versions')
    ctx.sample = {'kind': world.kind, 'layout': world.layout, 'savers': indices, 'reader saw': seen}


def run(ctx):
    if ctx.ch.chance(20):
        run_threads(ctx)
    else:
        run_sessions(ctx)
