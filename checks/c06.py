"""C06: a failed save is reported, leaves no trace, and can be repeated."""

import os

from sim import sched, simfs
from sim.core import Violation
from sim.faults import interruptible
from world import docs

ID = 'C06'
GROUPS = ['core', 'measurement', 'pattern', 'scene', 'painter']
LEVEL = 'fault_enumeration'
QUICK = {'runs': 3000, 'seconds': 100}
THOROUGH = {'runs': 400000, 'seconds': 800}
RULE = ('a run draws documents of all kinds living in one process and a history of saves, each one under a drawn failure: '
        'disk errors at any operation, full disk, file size limit set in the kernel, missing or read-only target, an '
        'interrupt (Ctrl-C) or a failed allocation at any line of the code; after each save the files, the objects in '
        'memory, the open descriptors and the other files are compared with the model; non-trivial: a fault fired; '
        'distinct: another fault, position or document')
REAL = ['Patro.Common.AtomicSave', 'Patro.FileFormat.Valentina', 'Patro.Measurement', 'Patro.GraphicEngine',
        'Patro.FileFormat.Svg', 'lxml', 'yaml', 'reportlab', 'ezdxf']
STUB = ['disk (real scratch directory behind an interposed system call layer)', 'asynchronous exceptions', 'clock',
        'entropy']
ASSUMPTIONS = ['a temporary file may stay when its removal fails too',
               'when the last step (sync of the directory) fails, the new document may already be in place']

ERRORS = ('EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'EDQUOT', 'EPERM', 'short', 'torn')
KINDS = ('val', 'yaml', 'svg', 'tex', 'tiled', 'pdf', 'dxf', 'texdoc', 'svgtree')


class Slot:
    """A document in memory and its file."""

    def __init__(self, ctx, kind, i, root):
        ch = ctx.ch
        self.kind = kind
        suffix = docs.SUFFIX[kind]
        self.path = os.path.join(root, 'file{}{}'.format(i, suffix))
        golden = os.path.join(ctx.scratch(), 'golden' + suffix)
        self.versions = []
        for n in range(2):
            document = docs.generate(ch, kind, 'slot{}version{}'.format(i, n))
            obj = docs.build(document, ch)
            docs.save(document, obj, golden)
            self.versions.append((document, obj, docs.read(kind, golden), docs.snapshot(document, obj)))
        self.on_disk = None     # index of the version, None: no file
        self.uncertain = False


def run(ctx):
    ch = ctx.ch
    root = ctx.scratch()
    kinds = [ch.weighted([(4, 'val'), (3, 'yaml'), (3, 'svg'), (3, 'tex'), (2, 'tiled'), (3, 'pdf'), (1, 'dxf'),
                          (3, 'texdoc'), (2, 'svgtree')])
             for _ in range(ch.int(1, 3))]
    slots = [Slot(ctx, kind, i, root) for i, kind in enumerate(kinds)]
    lines = {}
    for slot in slots:
        if ch.chance(70):
            document, obj, _, _ = slot.versions[0]
            if slot.kind == 'dxf':
                docs.save(document, obj, slot.path)
            else:
                # number of lines of a save, to place the interrupts
                lines[slot.kind] = interruptible(ctx, lambda: docs.save(document, obj, slot.path), 0)
            slot.on_disk = 0
    fs = simfs.SimFS(ctx, root)
    history = []
    descriptors = simfs.open_descriptors()

    with simfs.active(fs):
        for number in range(ch.int(1, 5)):
            slot = ch.pick(slots)
            index = ch.draw(2)
            document, obj, golden, snapshot = slot.versions[index]
            failure = ch.pick(['none', 'errors', 'errors', 'errors', 'limit', 'interrupt', 'directory', 'missing'])
            before = fs.hard_faults
            unlink_before = sum(1 for op, _ in fs.fired if op == 'unlink')
            path = slot.path
            limit = None
            may_fail = False
            if failure == 'errors':
                fs.plan(ch.subset(ERRORS, 60) or ['ENOSPC'], gap_max=ch.pick([3, 6, 12]), faults=ch.int(1, 2),
                        sticky=True)
            elif failure == 'missing':
                path = os.path.join(root, 'no such directory', 'x' + document.suffix)
                ctx.fault('missing-directory')
            elif failure == 'directory':
                path = os.path.join(root, 'directory' + document.suffix)
                with simfs.paused():
                    os.makedirs(path, exist_ok=True)
                ctx.fault('target-is-a-directory')

            def save():
                docs.save(document, obj, path)

            error = None
            try:
                if failure == 'limit':
                    may_fail = True
                    ctx.fault('file-size-limit')
                    with simfs.kernel_limit(ctx, ch.draw(ch.pick([10, 300, 2000, 20000]))):
                        save()
                elif failure == 'interrupt':
                    total = lines.get(slot.kind, 300)
                    where = ch.int(1, max(2, total + 5))
                    if ch.chance(60):
                        where = max(1, total - ch.draw(45))   # the end is where the file is written
                    interruptible(ctx, save, where)
                else:
                    save()
            except (sched.SimInterrupt, sched.SimMemoryError) as e:
                ctx.check(failure == 'interrupt', 'unexpected-exception', repr(e))
                error = e
            except OSError as e:
                error = e
                ctx.check(may_fail or fs.hard_faults > before or failure in ('missing', 'directory'),
                          'unexpected-oserror', repr(e))
            finally:
                fs.stop_faults()
            name = type(error).__name__ if error is not None else 'ok'
            history.append((slot.kind, index, failure, name))
            ctx.event('save', slot.kind, index, failure, name)
            ctx.sig(slot.kind, index, failure, name)
            if failure in ('missing', 'directory'):
                ctx.check(error is not None, 'failure-not-reported', '{} to a {} target'.format(slot.kind, failure))
            unlink_failed = sum(1 for op, _ in fs.fired if op == 'unlink') > unlink_before

            with simfs.paused():
                # what is on the disk
                where = '{} save of {} with {}'.format(name, slot.kind, failure)
                for other in slots:
                    try:
                        c = docs.read(other.kind, other.path)
                    except FileNotFoundError:
                        c = None
                    except docs.Corrupt as corrupt:
                        raise Violation('corrupt-file', '{}: {}'.format(where, corrupt))
                    expected = [None if other.on_disk is None else other.versions[other.on_disk][2]]
                    if other is slot and failure not in ('missing', 'directory'):
                        expected = [golden] if error is None else expected + [golden]
                    ctx.check(c in expected, 'failure-not-reported' if error is None and other is slot else
                              ('wrong-content' if other is slot else 'other-file-touched'), where)
                    other.on_disk = None if c is None else [v[2] for v in other.versions].index(c)
                # no trace
                names = {os.path.basename(s.path) for s in slots if s.on_disk is not None}
                strays = sorted(n for n in os.listdir(root) if n not in names and not n.startswith('directory'))
                if strays:
                    ctx.check(unlink_failed, 'stray-file', '{}: {}'.format(where, [os.path.splitext(s)[1] for s in strays]))
                    for n in strays:
                        os.unlink(os.path.join(root, n))
                # objects in memory
                for other in slots:
                    for d, o, _, s in other.versions:
                        now = docs.snapshot(d, o)
                        ctx.check(now == s, 'object-modified', lambda: '{}: {!r}: {} instead of {}'.format(
                            where, d, difference(now, s), ''))
                if failure == 'interrupt':
                    # nobody can close a descriptor when Ctrl-C comes before its name is bound
                    descriptors = simfs.open_descriptors()
                if error is not None:
                    error = error.with_traceback(None)
                leaked = simfs.open_descriptors() - descriptors
                leaked = sorted(target for _, target in leaked if target.startswith(root))
                ctx.check(not leaked, 'descriptor-leak', where)
            if error is not None:
                ctx.probe('save-failed')
                # once the failure is gone, the same call works
                if ch.chance(70):
                    docs.save(document, obj, slot.path)
                    with simfs.paused():
                        ctx.check(docs.read(slot.kind, slot.path) == golden, 'retry-fails',
                                  'retry after {}'.format(where))
                    slot.on_disk = index
                    ctx.probe('retry')
        ctx.check(not fs.refused, 'written-elsewhere', fs.refused)
    ctx.sample = {'kinds': kinds, 'history': history}


def difference(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '...{} / ...{}'.format(a[max(0, i - 60):i + 60], b[max(0, i - 60):i + 60])
