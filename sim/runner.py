"""Execution of runs: one forked process per run, batches in worker processes, minimisation."""

import gc
import importlib
import json
import os
import pickle
import select
import signal
import sys
import tempfile

from . import core, coverage, sched, seams, simfs
from .choices import Choices, derive
from .core import Ctx, HarnessError, Violation

RUN_TIMEOUT = 120
PROGRESS_LIMIT = 6_000_000       # lines of the code under test in one run


class Outcome:

    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)


def load_check(check_id):
    return importlib.import_module('checks.' + check_id.lower())


def prepare(check):
    """Prepare this process to execute runs of the check."""
    seams.install(getattr(check, 'HEAVY', True), getattr(check, 'PRELOAD', ()))
    coverage.start()
    seams.import_patro(check.GROUPS)
    if hasattr(check, 'prepare'):
        check.prepare()
    gc.collect()
    gc.freeze()


def _count_lines(ctx):
    """Deterministic progress budget, to tell a run which never ends from a slow machine."""
    prefixes = seams.patro_prefixes()
    count = [0]

    def local_trace(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] > PROGRESS_LIMIT:
                raise Violation('no-progress', 'more than {} lines were executed'.format(PROGRESS_LIMIT))
        return local_trace

    def global_trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(prefixes):
            return local_trace
        return None

    sys.settrace(global_trace)


def _child(check, choices, tier, verbose, scratch, budget):
    ctx = Ctx(choices, tier, scratch)
    seams.begin_run(ctx, scratch)
    status, kind, message = 'ok', '', ''
    try:
        if budget:
            _count_lines(ctx)
        if getattr(check, 'IMPORT_REQUIRED', True) and seams.IMPORT_ERRORS:
            raise Violation('import', '; '.join('{}: {}'.format(k, v) for k, v in sorted(seams.IMPORT_ERRORS.items())))
        check.run(ctx)
    except Violation as violation:
        status, kind, message = 'violation', violation.kind, violation.message
    except HarnessError as error:
        status, kind, message = 'harness', type(error).__name__, core.format_error()
    except BaseException as error:
        text = core.format_error()
        import errno
        if isinstance(error, OSError) and error.errno in (errno.ENOSPC, errno.ENOMEM, errno.EAGAIN, errno.ENFILE) \
                and not any(key.startswith('fault:') for key in ctx.stats):
            status, kind, message = 'harness', type(error).__name__, text
        else:
            status, kind, message = 'violation', 'unexpected-exception:' + type(error).__name__, text
    finally:
        if ctx.addresses.reused:
            ctx.stats['probe:address-reused'] += ctx.addresses.reused
        sys.settrace(None)
        sched.CURRENT = None
        simfs.ACTIVE = None
    return {
        'status': status, 'kind': kind, 'message': message, 'record': choices.record, 'digest': ctx.digest(),
        'events': ctx.events if verbose or status != 'ok' else None,
        'stats': dict(ctx.stats), 'sig': ctx.signature_hash(), 'nontrivial': ctx.nontrivial, 'steps': ctx.steps,
        'now': ctx.now, 'sample': ctx.sample if ctx.sample is not None else {'history': [str(e)[:200] for e in ctx.events[:16]]},
    }


def execute(check, choices, tier='quick', verbose=False, budget=False, timeout=RUN_TIMEOUT):
    """One run in a forked process."""
    scratch = tempfile.mkdtemp(prefix='patrosim-', dir=core.scratch_base())
    reader, writer = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            core.die_with_parent()
            os.close(reader)
            if not os.environ.get('PATROSIM_DEBUG'):
                # the code under test prints
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
            result = _child(check, choices, tier, verbose, scratch, budget)
            view = memoryview(pickle.dumps(result))
            write = simfs.real.get('os.write', os.write)
            while view:
                view = view[write(writer, view):]
        except BaseException:
            sys.stderr.write(core.format_error())
        finally:
            os._exit(0)
    os.close(writer)
    chunks = []
    deadline = seams.real_monotonic() + timeout
    timed_out = False
    while True:
        remaining = deadline - seams.real_monotonic()
        ready, _, _ = select.select([reader], [], [], max(0, remaining))
        if not ready:
            timed_out = True
            break
        chunk = os.read(reader, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(reader)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.waitpid(pid, 0)
    core.remove_tree(scratch)
    data = b''.join(chunks)
    if timed_out or not data:
        if timed_out and not budget:
            # is it the code or the machine?
            again = Choices(prefix=choices.prefix) if choices.prefix is not None else Choices(seed=choices.seed)
            return execute(check, again, tier, verbose, budget=True, timeout=4 * timeout)
        return Outcome(status='harness', kind='timeout' if timed_out else 'no-report',
                       message='the run process gave no result', record=[], digest='', events=None, stats={}, sig='',
                       nontrivial=False, steps=0, now=0, sample=None)
    return Outcome(**pickle.loads(data))


def seeded(seed):
    choices = Choices(seed=seed)
    choices.seed = seed
    return choices


def replay(record):
    return Choices(prefix=list(record))


# -------------------------------------------------------------------- known findings

def load_findings():
    path = os.path.join(core.VERIF, 'known_findings.json')
    try:
        with open(path) as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def match_finding(findings, property_id, outcome):
    for finding in findings.get('findings', ()):
        if finding['property'] == property_id and finding['kind'] == outcome.kind \
                and finding['match'] in outcome.message:
            return finding
    return None


# -------------------------------------------------------------------- batch (in a worker)

def batch(check, spec, emit):
    """Execute the runs spec['first'], +stride, ... until the count or the deadline is reached."""
    findings = load_findings()
    end = seams.real_monotonic() + spec['seconds']
    totals = {'runs': 0, 'steps': 0, 'now': 0.0, 'stats': {}, 'known': {}, 'determinism': [0, 0]}
    sigs = set()
    samples = []
    index = spec['first']
    last_emit = seams.real_monotonic()
    canaries = set(spec.get('twice', ()))
    while index < spec['count'] and seams.real_monotonic() < end:
        seed = derive(spec['seed'], check.ID, index)
        outcome = execute(check, seeded(seed), spec['tier'])
        totals['runs'] += 1
        totals['steps'] += outcome.steps
        totals['now'] += outcome.now
        for key, value in outcome.stats.items():
            totals['stats'][key] = totals['stats'].get(key, 0) + value
        if outcome.nontrivial:
            sigs.add(outcome.sig)
        if outcome.sample is not None and len(samples) < 2 and outcome.nontrivial:
            samples.append({'run': index, 'seed': seed, 'case': outcome.sample})
        if outcome.status == 'violation':
            finding = match_finding(findings, check.ID, outcome)
            if finding is not None:
                totals['known'][finding['id']] = totals['known'].get(finding['id'], 0) + 1
            else:
                emit({'type': 'violation', 'run': index, 'seed': seed, 'kind': outcome.kind,
                      'message': outcome.message, 'record': outcome.record, 'digest': outcome.digest})
                break
        elif outcome.status == 'harness':
            emit({'type': 'harness', 'run': index, 'seed': seed, 'kind': outcome.kind, 'message': outcome.message})
            break
        elif index in canaries:
            # determinism: once more from the recorded choices
            again = execute(check, replay(outcome.record), spec['tier'])
            totals['determinism'][0] += 1
            if again.digest != outcome.digest or again.status != outcome.status:
                totals['determinism'][1] += 1
                emit({'type': 'nondeterminism', 'run': index, 'seed': seed})
            emit({'type': 'canary', 'run': index, 'digest': outcome.digest})
        index += spec['stride']
    for canary in spec.get('shared', ()):
        # the same runs in every worker, i.e. under other hash seeds
        if seams.real_monotonic() >= end + 60:
            break
        outcome = execute(check, seeded(derive(spec['seed'], check.ID, canary)), spec['tier'])
        if outcome.status == 'ok':
            emit({'type': 'canary', 'run': canary, 'digest': outcome.digest})
    totals['sigs'] = sorted(sigs)
    totals['samples'] = samples
    emit({'type': 'done', 'totals': totals})


# -------------------------------------------------------------------- minimisation

def shrink(check, record, kind, tier, seconds, attempts=1500):
    """Greedy minimisation of a choice list which keeps the same kind of violation."""
    end = seams.real_monotonic() + seconds
    tried = {}
    best = list(record)
    best_outcome = None
    count = 0

    def fails(candidate):
        nonlocal best, best_outcome, count
        key = tuple(candidate)
        if key in tried or seams.real_monotonic() > end or count >= attempts:
            return False
        count += 1
        outcome = execute(check, replay(candidate), tier, timeout=30)
        ok = outcome.status == 'violation' and outcome.kind == kind
        tried[key] = ok
        if ok:
            new = list(outcome.record)
            while new and new[-1] == 0:
                new.pop()
            if (len(new), sum(new), new) < (len(best), sum(best), best) or best_outcome is None:
                best = new
                best_outcome = outcome
                return True
        return False

    fails(best)
    improved = True
    while improved and seams.real_monotonic() < end and count < attempts:
        improved = False
        # drop the tail
        size = len(best)
        cut = size // 2
        while cut >= 1:
            if len(best) > cut and fails(best[:-cut]):
                improved = True
            else:
                cut //= 2
            if seams.real_monotonic() > end:
                break
        # drop or zero chunks
        for zero in (False, True):
            chunk = max(1, len(best) // 4)
            while chunk >= 1:
                i = 0
                while i < len(best):
                    if zero:
                        candidate = best[:i] + [0] * min(chunk, len(best) - i) + best[i + chunk:]
                        if candidate == best:
                            i += chunk
                            continue
                    else:
                        candidate = best[:i] + best[i + chunk:]
                    if fails(candidate):
                        improved = True
                        if zero:
                            i += chunk
                    else:
                        i += chunk
                    if seams.real_monotonic() > end:
                        break
                if seams.real_monotonic() > end:
                    break
                chunk //= 2
        # smaller values
        for i in range(len(best)):
            if i >= len(best) or best[i] == 0:
                continue
            for value in (0, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= value < best[i]:
                    if fails(best[:i] + [value] + best[i + 1:]):
                        improved = True
                        break
            if seams.real_monotonic() > end:
                break
    return best, best_outcome, count


# -------------------------------------------------------------------- worker entry

def worker_main(argv):
    spec = json.loads(argv[0])
    out = os.fdopen(os.dup(1), 'w', buffering=1)

    def emit(message):
        out.write(json.dumps(message) + '\n')
        out.flush()

    check = load_check(spec['check'])
    prepare(check)
    if spec['mode'] == 'batch':
        batch(check, spec, emit)
    elif spec['mode'] == 'shrink':
        outcome = None
        reproduced = False
        for _ in range(4):
            outcome = execute(check, replay(spec['record']), spec['tier'])
            if outcome.status == 'violation' and outcome.kind == spec['kind']:
                reproduced = True
                break
        if not reproduced:
            emit({'type': 'shrunk', 'reproduced': False})
            return
        best, _, count = shrink(check, spec['record'], spec['kind'], spec['tier'], spec['seconds'])
        final = None
        for record in (best, spec['record']):
            for _ in range(3):
                final = execute(check, replay(record), spec['tier'], verbose=True)
                if final.status == 'violation' and final.kind == spec['kind']:
                    break
            else:
                continue
            break
        emit({'type': 'shrunk', 'reproduced': True, 'record': final.record, 'kind': final.kind,
              'message': final.message, 'events': final.events, 'digest': final.digest, 'stats': final.stats,
              'executions': count})
    elif spec['mode'] == 'one':
        choices = replay(spec['record']) if spec.get('record') is not None else seeded(spec['run_seed'])
        outcome = execute(check, choices, spec['tier'], verbose=True)
        emit({'type': 'one', 'status': outcome.status, 'kind': outcome.kind, 'message': outcome.message,
              'events': outcome.events, 'digest': outcome.digest, 'record': outcome.record, 'stats': outcome.stats})


if __name__ == '__main__':
    worker_main(sys.argv[1:])
