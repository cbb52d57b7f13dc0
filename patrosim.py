#!/usr/bin/env python3
"""Deterministic simulation of Patro.

  patrosim.py check ID [--runs N] [--seconds S] [--workers N]   decide a property
  patrosim.py replay FILE                                        reproduce a reported violation
  patrosim.py one ID RUN                                         execute one run and print its history
  patrosim.py selftest [ID ...] [--runs N]                       determinism of the simulator
  patrosim.py setup                                              check the installation
"""

import argparse
import json
import os
import selectors
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sim.choices import derive   # noqa: E402

PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
REPO = os.path.realpath(os.environ.get('PATRO_REPO', '/repo'))

CHECKS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15',
          'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23']


def start_worker(spec, hash_seed):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED=str(hash_seed), PYTHONWARNINGS='ignore', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE, PATRO_REPO=REPO,
        QT_QPA_PLATFORM='offscreen', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
        MKL_NUM_THREADS='1', PYTHONUTF8='1', TZ='UTC', LC_ALL='C.UTF-8',
    )
    return subprocess.Popen([PYTHON, '-m', 'sim.runner', json.dumps(spec)], cwd=HERE, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)


def collect(processes, on_message, deadline):
    """Read the messages of the workers until they end; on_message returns True to stop them all."""
    selector = selectors.DefaultSelector()
    buffers = {}
    errors = {}
    for i, process in enumerate(processes):
        for stream, kind in ((process.stdout, 'out'), (process.stderr, 'err')):
            selector.register(stream, selectors.EVENT_READ, (i, kind))
            buffers[i, kind] = b''
    stop_at = None
    open_streams = 2 * len(processes)
    while open_streams:
        now = time.monotonic()
        if (stop_at is not None and now > stop_at) or now > deadline:
            break
        for key, _ in selector.select(timeout=0.5):
            data = os.read(key.fileobj.fileno(), 1 << 16)
            i, kind = key.data
            if not data:
                selector.unregister(key.fileobj)
                open_streams -= 1
                continue
            buffers[i, kind] += data
            if kind == 'out':
                *lines, rest = buffers[i, kind].split(b'\n')
                buffers[i, kind] = rest
                for line in lines:
                    if line.startswith(b'{'):
                        grace = on_message(i, json.loads(line))
                        if grace is not None and stop_at is None:
                            stop_at = time.monotonic() + grace
    for process in processes:
        try:
            os.killpg(process.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        process.wait()
        process.stdout.close()
        process.stderr.close()
    return [buffers[i, 'err'].decode(errors='replace') for i in range(len(processes))]


def one_shot(spec, hash_seed, timeout):
    messages = []
    process = start_worker(spec, hash_seed)
    errors = collect([process], lambda i, message: messages.append(message), time.monotonic() + timeout)
    if not messages:
        raise RuntimeError('the worker gave no answer:\n' + errors[0][-3000:])
    return messages[-1]


def write_replay(check_id, seed, run, hash_seed, tier, shrunk):
    directory = os.path.join(HERE, 'replays')
    os.makedirs(directory, exist_ok=True)
    name = '{}-{}.json'.format(check_id, shrunk['digest'])
    path = os.path.join(directory, name)
    with open(path, 'w') as fh:
        json.dump({
            'property': check_id, 'kind': shrunk['kind'], 'message': shrunk['message'], 'seed': seed, 'run': run,
            'hash_seed': hash_seed, 'tier': tier, 'choices': shrunk['record'], 'digest': shrunk['digest'],
            'history': shrunk['events'], 'faults': {k: v for k, v in shrunk['stats'].items() if k.startswith('fault:')},
        }, fh, indent=1)
    return path


def check_command(args):
    import importlib
    started = time.monotonic()
    check_id = args.id
    check = importlib.import_module('checks.' + check_id.lower())
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = args.tier or os.environ.get('VERIF_TIER', 'quick')
    budget = getattr(check, tier.upper())
    runs = args.runs or budget['runs']
    seconds = args.seconds or budget['seconds']
    workers = args.workers or min(8, os.cpu_count() or 1)
    print('{} seed={} tier={} runs={} workers={} tree={}'.format(check_id, seed, tier, runs, workers, REPO), flush=True)

    specs = []
    hash_seeds = []
    for i in range(workers):
        hash_seed = derive(seed, 'hashseed', i) % 4294967295
        hash_seeds.append(hash_seed)
        specs.append({
            'mode': 'batch', 'check': check_id, 'tier': tier, 'seed': seed, 'first': i, 'stride': workers,
            'count': runs, 'seconds': seconds, 'twice': [i, i + workers], 'shared': [0, 1],
        })
    processes = [start_worker(spec, hash_seed) for spec, hash_seed in zip(specs, hash_seeds)]
    violations, harness, totals, nondeterminism, canaries = [], [], [], [], {}

    def on_message(i, message):
        kind = message['type']
        if kind == 'violation':
            violations.append((i, message))
            return 3.0
        if kind == 'harness':
            harness.append((i, message))
        elif kind == 'nondeterminism':
            nondeterminism.append((i, message))
        elif kind == 'canary':
            canaries.setdefault(message['run'], set()).add(message['digest'])
        elif kind == 'done':
            totals.append(message['totals'])
        return None

    errors = collect(processes, on_message, time.monotonic() + seconds + 240)
    explore_wall = time.monotonic() - started

    exit_code = 0
    reported = None
    if violations:
        violations.sort(key=lambda pair: len(pair[1]['record']))
        for i, message in violations[:3]:
            try:
                shrunk = one_shot({'mode': 'shrink', 'check': check_id, 'tier': tier, 'record': message['record'],
                                   'kind': message['kind'], 'seconds': 40 if tier == 'quick' else 120},
                                  hash_seeds[i], 400)
            except RuntimeError as error:
                print(error)
                continue
            if not shrunk['reproduced']:
                print('run {} was not reproduced: {}: {}'.format(message['run'], message['kind'], message['message']))
                continue
            path = write_replay(check_id, seed, message['run'], hash_seeds[i], tier, shrunk)
            reported = path
            print('run {} seed {}: {}: {}'.format(message['run'], message['seed'], shrunk['kind'],
                                                 shrunk['message'][:3000]))
            print('minimised from {} to {} choices in {} executions'.format(
                len(message['record']), len(shrunk['record']), shrunk['executions']))
            print('VIOLATION property={} replay={}'.format(check_id, path), flush=True)
            exit_code = 1
            break
        else:
            exit_code = 3
    elif harness or len(totals) != workers:
        exit_code = 2
        for i, message in harness:
            print('harness error in run {}: {}\n{}'.format(message['run'], message['kind'], message['message']))
        for error in errors:
            if error.strip():
                print(error[-2000:])
    if nondeterminism:
        print('WARNING: {} runs were not reproduced from their choices'.format(len(nondeterminism)))
    other_hash = sum(1 for digests in canaries.values() if len(digests) > 1)
    if other_hash:
        print('WARNING: {} runs differ under another hash seed'.format(other_hash))

    findings = load_findings(check_id)
    for finding in findings:
        print('KNOWN-FINDING: property={} {}'.format(check_id, finding['description']))

    wall = time.monotonic() - started
    write_evidence(check, check_id, tier, seed, totals, violations, exit_code, wall, explore_wall, workers, hash_seeds,
                   canaries, nondeterminism)
    evaluations = sum(t['runs'] for t in totals)
    print('{}: {} runs in {:.1f} s, exit {}'.format(check_id, evaluations, wall, exit_code))
    return exit_code


def load_findings(check_id):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as fh:
            return [x for x in json.load(fh)['findings'] if x['property'] == check_id]
    except FileNotFoundError:
        return []


def write_evidence(check, check_id, tier, seed, totals, violations, exit_code, wall, explore_wall, workers,
                   hash_seeds, canaries, nondeterminism):
    runs = sum(t['runs'] for t in totals) + (len(violations) if violations else 0)
    sigs = set()
    stats = {}
    samples = []
    known = {}
    for t in totals:
        sigs.update(t['sigs'])
        samples += t['samples']
        for key, value in t['stats'].items():
            stats[key] = stats.get(key, 0) + value
        for key, value in t['known'].items():
            known[key] = known.get(key, 0) + value
    if not samples:
        samples = [{'run': m['run'], 'seed': m['seed'], 'case': m['kind']} for _, m in violations] or ['none']

    def group(prefix):
        return {key[len(prefix):]: value for key, value in sorted(stats.items()) if key.startswith(prefix)}

    evidence = {
        'property': check_id,
        'tier': tier,
        'seed': seed,
        'level': check.LEVEL,
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(sigs),
            'rule': check.RULE,
            'samples': samples[:3],
            'runs_per_hour': int(runs / max(explore_wall, 1e-3) * 3600),
            'workers': workers,
            'hash_seeds': hash_seeds,
            'simulated_seconds': round(sum(t['now'] for t in totals), 3),
            'simulated_steps': sum(t['steps'] for t in totals),
            'faults_fired': group('fault:'),
            'probes': group('probe:'),
            'counts': group('count:'),
            'determinism': {
                'runs_executed_twice': sum(t['determinism'][0] for t in totals),
                'differences': len(nondeterminism),
                'runs_executed_under_several_hash_seeds': sum(1 for r in canaries if r in (0, 1)),
                'differences_under_other_hash_seeds': sum(1 for d in canaries.values() if len(d) > 1),
            },
            'known_findings_met': known,
            'components': {'real': check.REAL, 'stub': check.STUB},
        },
        'assumptions': check.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': 1 if exit_code == 1 else 0,
    }
    directory = os.path.join(HERE, 'evidence')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, check_id + '.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(path + '.tmp', path)


def replay_command(args):
    with open(args.file) as fh:
        data = json.load(fh)
    answer = one_shot({'mode': 'one', 'check': data['property'], 'tier': data['tier'], 'record': data['choices']},
                      data['hash_seed'], 700)
    for event in answer['events'] or ():
        print(' ', event)
    same = answer['status'] == 'violation' and answer['kind'] == data['kind']
    print('status {} {} {}'.format(answer['status'], answer['kind'], answer['message'][:3000]))
    print('history digest {} recorded {}'.format(answer['digest'], data['digest']))
    if same:
        print('VIOLATION property={} replay={}'.format(data['property'], os.path.realpath(args.file)))
        return 1
    return 0 if answer['status'] == 'ok' else 2


def one_command(args):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    workers = min(8, os.cpu_count() or 1)
    hash_seed = derive(seed, 'hashseed', args.run % workers) % 4294967295
    answer = one_shot({'mode': 'one', 'check': args.id, 'tier': tier, 'run_seed': derive(seed, args.id, args.run)},
                      hash_seed, 700)
    for event in answer['events'] or ():
        print(' ', event)
    print('choices', len(answer['record']))
    print(answer['stats'])
    print('status {} {} {}'.format(answer['status'], answer['kind'], answer['message']))
    return 0


def selftest_command(args):
    """Each run twice in different processes, with other worker counts and hash seeds; compare the histories."""
    failures = 0
    for check_id in args.ids or CHECKS:
        digests = {}
        for workers, salt in ((1 if args.runs <= 40 else 4, 'a'), (3, 'b'), (8, 'c')):
            specs = [{'mode': 'batch', 'check': check_id, 'tier': 'quick', 'seed': args.seed, 'first': i,
                      'stride': workers, 'count': args.runs, 'seconds': 600, 'twice': list(range(args.runs))}
                     for i in range(workers)]
            processes = [start_worker(spec, derive(salt, i) % 4294967295) for i, spec in enumerate(specs)]

            def on_message(i, message):
                nonlocal failures
                if message['type'] == 'canary':
                    digests.setdefault(message['run'], []).append(message['digest'])
                elif message['type'] in ('nondeterminism', 'violation', 'harness'):
                    print(check_id, {k: message.get(k) for k in ('type', 'run', 'kind', 'message')})
                    failures += 1

            errors = collect(processes, on_message, time.monotonic() + 900)
            for error in errors:
                if error.strip():
                    print(error[-1500:])
        different = sorted(run for run, values in digests.items() if len(set(values)) > 1)
        failures += len(different)
        print('{}: {} runs, {} executions each, different histories: {}'.format(
            check_id, len(digests), 6, different or 'none'), flush=True)
    return 1 if failures else 0


def setup_command(args):
    version = subprocess.run([PYTHON, '-c', 'import numpy, sympy, lxml, yaml, rtree, ezdxf, reportlab, sys; '
                              'print(sys.version)'], capture_output=True, text=True)
    print(version.stdout, version.stderr)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    return version.returncode


def main():
    parser = argparse.ArgumentParser(description=__doc__, formatter_class=argparse.RawDescriptionHelpFormatter)
    sub = parser.add_subparsers(dest='command', required=True)
    p = sub.add_parser('check')
    p.add_argument('id')
    p.add_argument('--tier')
    p.add_argument('--runs', type=int)
    p.add_argument('--seconds', type=float)
    p.add_argument('--workers', type=int)
    p = sub.add_parser('replay')
    p.add_argument('file')
    p = sub.add_parser('one')
    p.add_argument('id')
    p.add_argument('run', type=int)
    p = sub.add_parser('selftest')
    p.add_argument('ids', nargs='*')
    p.add_argument('--runs', type=int, default=40)
    p.add_argument('--seed', type=int, default=7)
    sub.add_parser('setup')
    args = parser.parse_args()
    return {'check': check_command, 'replay': replay_command, 'one': one_command, 'selftest': selftest_command,
            'setup': setup_command}[args.command](args)


if __name__ == '__main__':
    sys.exit(main())
