"""A session is the life of one process of the simulated world: it starts with what is on the disk and
ends normally or by a crash.  It is executed in a forked process, hence only the disk survives."""

import gc
import os
import pickle
import signal
import sys

from . import sched, simfs
from .core import HarnessError, Violation, die_with_parent, format_error

SESSION_TIMEOUT = 100


class SessionResult:

    def __init__(self):
        self.crashed = False
        self.value = None
        self.progress = []
        self.disk = None


def _read_all(fd):
    chunks = []
    while True:
        chunk = os.read(fd, 1 << 16)
        if not chunk:
            return b''.join(chunks)
        chunks.append(chunk)


def run_session(ctx, function, *args, fs_root=None, fs_setup=None):
    """Run function(ctx, fs, progress, *args) in a forked process.

    *progress* is a list: what is appended survives a crash (e.g. acknowledged operations).
    """
    base_events = len(ctx.events)
    base_record = len(ctx.ch.record)
    base_sig = len(ctx.signature)
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(reader)
            die_with_parent()
            signal.alarm(SESSION_TIMEOUT)
            ctx.stats.clear()
            progress = []
            fs = simfs.SimFS(ctx, fs_root) if fs_root is not None else None

            def report(status, value=None, crashed=False):
                disk = fs.disk_state() if fs is not None and fs.tracking else None
                payload = {
                    'status': status, 'value': value, 'crashed': crashed, 'progress': progress,
                    'events': ctx.events[base_events:], 'record': ctx.ch.record[base_record:],
                    'sig': ctx.signature[base_sig:], 'stats': dict(ctx.stats), 'steps': ctx.steps, 'now': ctx.now,
                    'nontrivial': ctx.nontrivial, 'disk': disk, 'sample': ctx.sample,
                    'rng': ctx.ch.rng.getstate() if ctx.ch.rng is not None else None,
                    'scratch_count': ctx._scratch_count,
                    'fired': fs.fired if fs is not None else [],
                }
                data = pickle.dumps(payload)
                write = simfs.real.get('os.write', os.write)
                view = memoryview(data)
                while view:
                    n = write(writer, view)
                    view = view[n:]

            def on_crash(fs):
                sys.settrace(None)
                sched.CURRENT = None
                simfs.ACTIVE = None
                report('ok', crashed=True)
                os._exit(0)

            try:
                if fs is not None:
                    fs.begin()
                    fs.on_crash = on_crash
                    if fs_setup is not None:
                        fs_setup(fs)
                    with simfs.active(fs):
                        value = function(ctx, fs, progress, *args)
                else:
                    value = function(ctx, None, progress, *args)
                report('ok', value)
            except Violation as violation:
                simfs.ACTIVE = None
                report('violation', (violation.kind, violation.message))
            except HarnessError as error:
                simfs.ACTIVE = None
                report('harness', str(error))
            except BaseException as error:
                simfs.ACTIVE = None
                report('exception', (type(error).__name__, format_error()))
            code = 0
        except BaseException:
            sys.stderr.write(format_error())
        finally:
            os._exit(code)
    os.close(writer)
    data = _read_all(reader)
    os.close(reader)
    _, status = os.waitpid(pid, 0)
    if not data:
        raise HarnessError('a session process ended with status {} without report'.format(status))
    payload = pickle.loads(data)
    ctx.events.extend(payload['events'])
    ctx.ch.record.extend(payload['record'])
    if payload['rng'] is not None:
        ctx.ch.rng.setstate(payload['rng'])
    ctx.signature.extend(payload['sig'])
    ctx.stats.update(payload['stats'])
    ctx.steps = payload['steps']
    ctx.now = payload['now']
    ctx.nontrivial = payload['nontrivial']
    ctx._scratch_count = payload['scratch_count']
    if payload['sample'] is not None:
        ctx.sample = payload['sample']
    if payload['status'] == 'violation':
        raise Violation(*payload['value'])
    if payload['status'] == 'harness':
        raise HarnessError(payload['value'])
    if payload['status'] == 'exception':
        raise Violation('unexpected-exception:' + payload['value'][0], payload['value'][1])
    result = SessionResult()
    result.crashed = payload['crashed']
    result.value = payload['value']
    result.progress = payload['progress']
    result.disk = payload['disk']
    result.fired = payload['fired']
    return result
