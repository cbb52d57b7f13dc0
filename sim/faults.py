"""Calls under asynchronous faults: Ctrl-C and failed allocations at any line of the code under test."""

from . import sched, seams

ASYNC = (sched.SimInterrupt, sched.SimMemoryError)


def interruptible(ctx, function, where, prefixes=None, switches=None):
    """Call the function in a simulated thread which is interrupted at the given line (0: never).

    Return the number of lines, or raise what the function raised. The result of the function is lost.
    """
    scheduler = sched.Scheduler(ctx, 'line', prefixes or seams.patro_prefixes(), preempt=False)
    thread = scheduler.spawn(function)
    if switches or (where and switches is None and ctx.ch.chance(50)):
        # counted in calls and returns
        thread.interrupt_switches = where if switches else 1 + where // 4
    else:
        thread.interrupt_in = where
    thread.interrupt_class = ctx.ch.pick(ASYNC) if where else None
    scheduler.run()
    thread.last_frame = None
    error = thread.exception
    if error is not None:
        if isinstance(error, ASYNC):
            ctx.fault('interrupt' if isinstance(error, sched.SimInterrupt) else 'allocation')
        raise error
    return thread.steps
