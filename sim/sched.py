"""Cooperative scheduler: real threads, parked and released one at a time.

Exactly one simulated thread runs at any time.  The running one gives the control back at a *yield
point*: before each line (or each bytecode) of the code under test, at each lock operation and at
each I/O operation of the simulated file system.  At a yield point the recorded choices decide who
runs next.  Locks created by the code under test are SimLock/SimRLock (see seams.py), thus a thread
never blocks for real, and a deadlock is detected when nobody can run.
"""

import _thread
import dis
import sys
import threading

from .core import HarnessError, Violation, format_error

_allocate_lock = _thread.allocate_lock
_get_ident = _thread.get_ident

# the scheduler of the run, if any
CURRENT = None


def current_scheduler():
    """The scheduler when the caller is one of its threads."""
    s = CURRENT
    if s is not None and s.active and _get_ident() in s.by_ident:
        return s
    return None


def yield_point(what):
    s = current_scheduler()
    if s is not None:
        injected = s.yield_point(what)
        if injected is not None:
            raise injected('injected')


class SimInterrupt(KeyboardInterrupt):
    """An injected asynchronous exception, e.g. Ctrl-C."""


class SimMemoryError(MemoryError):
    """An injected allocation failure."""


class Abort(BaseException):
    """Unwinds the simulated threads when the run is over."""


class SimThread:

    def __init__(self, scheduler, tid, function, args):
        self.scheduler = scheduler
        self.tid = tid
        self.function = function
        self.args = args
        self.baton = _allocate_lock()
        self.baton.acquire()
        self.done = False
        self.blocked_on = None
        self.result = None
        self.exception = None
        self.traceback = ''
        self.interrupt_in = 0      # yield points to go before an injected exception
        self.interrupt_switches = 0   # or calls and returns to go
        self.last_frame = None
        self.switches = 0
        self.interrupt_class = None
        self.steps = 0


_with_exits = {}


def with_exits(code):
    """Offsets of the instructions which call __exit__ at the end of the with statements."""
    offsets = _with_exits.get(code)
    if offsets is None:
        offsets = set()
        instructions = [i for i in dis.get_instructions(code) if i.opname not in ('CACHE', 'NOP', 'EXTENDED_ARG')]
        for n, instruction in enumerate(instructions):
            if instruction.opname in ('WITH_EXCEPT_START', 'PUSH_EXC_INFO'):
                following = [i.opname for i in instructions[n:n + 2]]
                if 'WITH_EXCEPT_START' in following:
                    offsets.add(instruction.offset)
            window = instructions[n:n + 4]
            if (len(window) == 4 and all(i.opname in ('LOAD_CONST', 'RETURN_CONST') and i.argval is None
                                         for i in window[:3]) and window[3].opname.startswith('CALL')
                    and window[3].arg == 2):
                offsets.update(i.offset for i in window)
        # the line starts with other instructions when a value is returned from the body
        for n, instruction in enumerate(instructions):
            if instruction.offset in offsets and n and instructions[n - 1].opname in ('SWAP', 'COPY'):
                offsets.add(instructions[n - 1].offset)
        _with_exits[code] = offsets
    return offsets


class Scheduler:

    MAX_STEPS = 3_000_000

    def __init__(self, ctx, granularity='line', prefixes=(), gaps=(1, 2, 4, 8, 20, 60, 200, 1000), preempt=True,
                 max_preemptions=400):
        self.ctx = ctx
        self.granularity = granularity
        self.prefixes = tuple(prefixes)
        self.threads = []
        self.by_ident = {}
        self.active = False
        self.current = None
        self.main_baton = _allocate_lock()
        self.main_baton.acquire()
        self.failure = None
        self.steps = 0
        self.switches = 0
        self.preemptions_left = max_preemptions if preempt else 0
        # swarm: each run has its own mean distance between preemptions
        self.gap_scale = ctx.ch.pick(gaps)
        self._next = 0
        self._arm()

    # ---------------------------------------------------------------- choices

    def _arm(self):
        # 0 means that there are no more preemptions
        if self.preemptions_left <= 0:
            self._next = 0
            return
        self.preemptions_left -= 1
        self._next = self.ctx.ch.draw(2 * self.gap_scale + 1)
        if self._next == 0 and self.gap_scale < 4 and self.ctx.ch.draw(8):
            # short gaps: make the end of preemptions rare
            self._next = 1

    def _runnable(self):
        return [t for t in self.threads if not t.done and t.blocked_on is None]

    # ---------------------------------------------------------------- API for the workload

    def spawn(self, function, *args):
        thread = SimThread(self, len(self.threads), function, args)
        self.threads.append(thread)
        return thread

    def run(self):
        """Run all the threads until they are done."""
        global CURRENT
        CURRENT = self
        self.active = True
        for thread in self.threads:
            _thread.start_new_thread(self._bootstrap, (thread,))
        first = self.ctx.ch.pick(self._runnable())
        self._resume(first)
        self.main_baton.acquire()
        self.active = False
        CURRENT = None
        self.ctx.steps += self.steps
        self.ctx.now += self.steps * 1e-6
        self.ctx.stats['count:context-switches'] += self.switches
        if self.switches:
            self.ctx.nontrivial = True
        if self.failure is not None:
            raise self.failure
        for thread in self.threads:
            if isinstance(thread.exception, Violation):
                raise thread.exception
            if isinstance(thread.exception, HarnessError):
                raise thread.exception

    # ---------------------------------------------------------------- internals

    def _bootstrap(self, thread):
        thread.baton.acquire()
        self.by_ident[_get_ident()] = thread
        sys.settrace(self._make_tracer(thread))
        try:
            thread.result = thread.function(*thread.args)
        except Abort:
            pass
        except BaseException as exception:   # reported to the workload
            sys.settrace(None)
            thread.exception = exception
            thread.traceback = format_error()
        finally:
            sys.settrace(None)
        thread.done = True
        if self.failure is not None:
            self.main_baton.release()
            return
        runnable = self._runnable()
        if runnable:
            self._resume(self.ctx.ch.pick(runnable))
        elif all(t.done for t in self.threads):
            self.main_baton.release()
        else:
            self._deadlock()
            self.main_baton.release()

    def _resume(self, thread):
        self.current = thread
        thread.baton.release()

    def _switch(self, to, where):
        me = self.current
        if to is me:
            return
        self.switches += 1
        if len(self.ctx.signature) < 4000:
            self.ctx.sig(me.tid, to.tid, where)
        self._resume(to)
        me.baton.acquire()
        # self.current is me again

    def _deadlock(self):
        blocked = ['thread {}'.format(t.tid) for t in self.threads if not t.done]
        if self.failure is None:
            self.failure = Violation('deadlock', 'no thread can run, blocked: ' + ', '.join(blocked))

    def yield_point(self, where):
        me = self.current
        self.steps += 1
        me.steps += 1
        if self.steps > self.MAX_STEPS:
            self._fail(Violation('no-progress', 'the threads did not finish within {} steps'.format(self.MAX_STEPS)))
        if self._next:
            self._next -= 1
            if self._next == 0:
                others = [t for t in self._runnable() if t is not me]
                target = self.ctx.ch.pick(others) if others else None
                self._arm()
                if target is not None:
                    self._switch(target, where)
        if me.interrupt_in:
            me.interrupt_in -= 1
            if me.interrupt_in == 0:
                return me.interrupt_class
        return None

    def lock_released(self):
        injected = self.yield_point('release')
        if injected is not None:
            self.current.interrupt_in = 1   # later, not within release()

    def _fail(self, violation):
        self.failure = violation
        self.main_baton.release()
        while True:   # parked for ever, the process ends with the run
            self.current.baton.acquire()

    def block_on(self, lock):
        """The current thread waits for *lock*."""
        me = self.current
        me.blocked_on = lock
        runnable = self._runnable()
        if not runnable:
            self._deadlock()
            self._fail(self.failure)
        self.ctx.stats['probe:lock-contention'] += 1
        self._switch(self.ctx.ch.pick(runnable), 'block')

    def wake(self, lock):
        for thread in self.threads:
            if thread.blocked_on is lock:
                thread.blocked_on = None

    # ---------------------------------------------------------------- tracing

    def _make_tracer(self, thread):
        prefixes = self.prefixes
        opcodes = self.granularity == 'opcode'
        event_name = 'opcode' if opcodes else 'line'
        if self.granularity == 'io':
            return None

        def local_trace(frame, event, arg):
            if event == event_name and self.active:
                code = frame.f_code
                if frame is not thread.last_frame:
                    # the first line after a call or a return: a loop does not hide what surrounds it
                    thread.last_frame = frame
                    thread.switches += 1
                    if thread.interrupt_switches:
                        thread.interrupt_switches -= 1
                        if not thread.interrupt_switches:
                            thread.interrupt_in = 1
                injected = self.yield_point((code.co_name, frame.f_lasti if opcodes else frame.f_lineno))
                if injected is not None and frame.f_lasti in with_exits(code):
                    # Python does not deliver an asynchronous exception between the body of a with
                    # statement and its __exit__
                    self.current.interrupt_in = 1
                elif injected is not None:
                    raise injected('injected')
            return local_trace

        def global_trace(frame, event, arg):
            code = frame.f_code
            if code.co_filename.startswith(prefixes) and code.co_name != '<module>':
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local_trace
            return None

        return global_trace


# -------------------------------------------------------------------- locks

class SimLock:

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        s = current_scheduler()
        if s is None:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                raise Violation('deadlock', 'a lock is still held by a thread which is gone, or acquired twice')
            self._locked = True
            return True
        yield_point('acquire')
        attempts = 0
        while self._locked:
            if not blocking:
                return False
            if timeout >= 0:
                attempts += 1
                if attempts > 3:
                    return False
                others = [t for t in s._runnable() if t is not s.current]
                if not others:
                    return False
                s._switch(s.ctx.ch.pick(others), 'timed-acquire')
                continue
            s.block_on(self)
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        s = current_scheduler()
        if s is not None:
            s.wake(self)
            s.lock_released()

    def locked(self):
        return self._locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        s = current_scheduler()
        if s is None:
            if self._owner is not None:
                if not blocking or timeout >= 0:
                    return False
                raise Violation('deadlock', 'a lock is still held by a thread which is gone')
        else:
            yield_point('acquire')
            attempts = 0
            while self._owner is not None:
                if not blocking:
                    return False
                if timeout >= 0:
                    attempts += 1
                    others = [t for t in s._runnable() if t is not s.current]
                    if attempts > 3 or not others:
                        return False
                    s._switch(s.ctx.ch.pick(others), 'timed-acquire')
                    continue
                s.block_on(self)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s = current_scheduler()
            if s is not None:
                s.wake(self)
                s.lock_released()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        state = (self._owner, self._count)
        self._owner, self._count = None, 0
        s = current_scheduler()
        if s is not None:
            s.wake(self)
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._owner, self._count = state

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


def install_lock_seam():
    """Locks created from now are the simulated ones."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
