"""C03: patterns which live in one process do not influence each other, whatever the schedule."""

import gc
import os

from sim import sched, seams, simfs
from sim.core import Violation
from world import docs, patmodel

ID = 'C03'
GROUPS = ['core', 'measurement', 'pattern', 'scene', 'painter']
LEVEL = 'exploration'
QUICK = {'runs': 900, 'seconds': 100}
THOROUGH = {'runs': 100000, 'seconds': 800}
RULE = ('a run draws 2-3 clients, each one with its own pattern, and its own or a shared set of measurements, and a '
        'script: load the measurements, build the pattern operation by operation, its scopes in turn, remove a scope, try '
        'a wrong reference, evaluate, save, load, export, evaluate again, drop; the scripts run either in '
        'threads preempted between the lines of the code and at each I/O, or in one thread step by step, or one after the '
        'other over the same files; non-trivial: a '
        'context switch happened; distinct: another sequence of switches or scripts')
REAL = ['Patro.Pattern', 'Patro.FileFormat.Valentina', 'Patro.Measurement', 'Patro.Common', 'Patro.GraphicEngine',
        'Patro.GraphicStyle']
STUB = ['thread scheduler', 'threading.Lock/RLock (simulated locks)', 'disk', 'clock', 'entropy']
ASSUMPTIONS = ['a thread can be preempted between any two lines of the code under test, not within third party code',
               'two threads never share a pattern']


class Client:

    def __init__(self, ctx, index, root, shared=None):
        ch = ctx.ch
        self.ctx = ctx
        self.index = index
        self.root = os.path.join(root, 'client{}'.format(index))
        os.makedirs(self.root, exist_ok=True)
        # several patterns can be made with the measurements of the same person
        self.shared = shared
        if shared is None:
            self.unit = ch.pick(['cm', 'mm', 'inch'])
            self.measurements = patmodel.generate_measurements(ch)
            self.vit = os.path.join(self.root, 'm{}.vit'.format(index))
            with open(self.vit, 'w') as fh:
                fh.write(patmodel.vit_source(self.measurements, self.unit, customer='customer{}'.format(index),
                                             gender=ch.pick(['male', 'female', 'unknown'])))
            self.customer = 'customer{}'.format(index)
            self.vit_file = None
        else:
            self.unit, self.measurements, self.customer = shared.unit, shared.measurements, shared.customer
            self.vit_file = shared.vit_file
        self.model = patmodel.generate_pattern(ch, self.measurements, (1, 2), (2, 6), explicit_ids=ch.chance(40),
                                               unit=self.unit)
        # the operations of the scopes can be added in turn; the last one after the first evaluation
        order = [(i, op) for i, scope in enumerate(self.model.scopes) for op in scope.operations]
        if len(self.model.scopes) > 1 and ch.chance(50):
            queues = [list(scope.operations) for scope in self.model.scopes]
            order = []
            while any(queues):
                i = ch.pick([i for i, queue in enumerate(queues) if queue])
                order.append((i, queues[i].pop(0)))
        self.late = ch.pick([0, 0, 1, 2])
        self.order = [(i, op, ch.pick(['name', 'id', 'object'])) for i, op in order]
        self.junk = ch.chance(30)        # a scope which is removed later
        self.wrong = ch.chance(40)       # a reference which does not exist
        self.drop = ch.chance(30)        # the pattern is dropped and loaded again
        self.export = ch.pick([None, 'svg', 'tex', 'pdf', 'tiled'])
        self.reload = ch.chance(60)
        self.path = os.path.join(self.root, 'p.val')
        self.export_path = os.path.join(self.root, 'p' + docs.SUFFIX.get(self.export, '')) if self.export else None
        self.pattern = None
        self.reader = None
        self.exported = None

    def describe(self):
        return ([[op.describe() for op in scope.operations] for scope in self.model.scopes], self.export, self.reload,
                self.shared is not None, self.late, self.junk, self.wrong, self.drop)

    def load_measurements(self):
        from Patro.FileFormat.Valentina.Measurement import VitFile
        if self.vit_file is None:
            self.vit_file = VitFile(self.vit)
        return self.vit_file

    def steps(self):
        """Generator: the script of the client."""
        from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter
        ctx = self.ctx
        real = patmodel.Real()
        vit_file = self.load_measurements()
        yield 'measurements'
        pattern = self.pattern = real.Pattern(vit_file.measurements, self.unit)
        sketches = []
        for scope in self.model.scopes:
            sketches.append(pattern.add_scope(scope.name).sketch)
            yield 'scope'
        if self.junk:
            junk = pattern.add_scope('junk').sketch
            junk.SinglePoint('A', 'height' if 'height' in self.measurements else 1, 2, real.Vector2D(0, 0), id=1001)
            junk.SinglePoint('Junk', 1, 2, real.Vector2D(0, 0), id=1002)
            yield 'junk'
        early = max(1, len(self.order) - self.late)
        for i, op, mode in self.order[:early]:
            op.real_id = real.apply(op, sketches[i], mode).id
            yield 'operation'
        if self.junk:
            junk.eval()
            ctx.equal(pattern.scope_names(), [scope.name for scope in self.model.scopes] + ['junk'], 'scope-names')
            ctx.check(pattern.scope('junk').sketch is junk, 'scope-by-name')
            pattern.remove_scope('junk')
            yield 'remove'
        for sketch in sketches:
            if sketch.operations:
                sketch.eval()
            yield 'eval'
        if self.wrong:
            # known in the sketches of the other clients, but not in this one
            name = 'Only{}'.format(1 - min(self.index, 1))
            for call in (lambda: sketches[0].Line(name, name), lambda: sketches[0].get_operation(name)):
                try:
                    call()
                except KeyError:
                    pass
                else:
                    ctx.check(False, 'foreign-reference', 'client {}: {} is known'.format(self.index, name))
            yield 'wrong'
        for i, op, mode in self.order[early:]:
            op.real_id = real.apply(op, sketches[i], mode).id
            yield 'operation'
        if self.late:
            for sketch in sketches:
                sketch.eval()
                yield 'eval'
        self.verify(real, pattern, 'built', False)
        ValFileWriter(self.path, vit_file, pattern)
        yield 'save'
        if self.reload:
            self.reader = ValFileReader(self.path)
            yield 'load'
            self.verify(real, self.reader.pattern, 'reloaded', True)
        if self.export:
            scene = pattern.scope(0).sketch.detail_scene()
            yield 'scene'
            docs.save(docs.Document(self.export, None, None), scene, self.export_path)
            yield 'export'
        for sketch in sketches:
            sketch.eval()
            yield 'eval'
        self.verify(real, pattern, 'built', False)
        if self.drop:
            self.reader = self.pattern = pattern = sketches = sketch = junk = None
            gc.collect()
            yield 'drop'
            self.reader = ValFileReader(self.path)
            yield 'load'
            self.verify(real, self.reader.pattern, 'reloaded', True)

    def verify(self, real, pattern, where, reloaded):
        patmodel.compare_pattern(self.ctx, real.dump_pattern(pattern),
                                 real.expected_pattern(self.model, reloaded=reloaded),
                                 'client {} {}'.format(self.index, where), where)

    def final(self):
        """Nothing changed since, evaluations give the same again, and everything is in the files."""
        from Patro.FileFormat.Valentina.Pattern import ValFileReader
        ctx = self.ctx
        real = patmodel.Real()
        if self.pattern is not None:
            self.verify(real, self.pattern, 'built', False)
        ids = [op.real_id for scope in self.model.scopes for op in scope.operations]
        ctx.check(len(set(ids)) == len(ids), 'same-id-twice', ids)
        reader = ValFileReader(self.path)
        self.verify(real, reader.pattern, 'reloaded', True)
        if self.reader is not None:
            self.verify(real, self.reader.pattern, 'reloaded', True)
        for pattern, where, reloaded in ((self.pattern, 'built', False), (self.reader and self.reader.pattern, 'reloaded', True)):
            if pattern is not None:
                for scope in pattern.scopes:
                    scope.sketch.eval()
                self.verify(real, pattern, where, reloaded)
        measurements = (self.pattern or reader.pattern).measurements
        ctx.equal(measurements.unit, self.unit, 'measurement-unit', 'client {}'.format(self.index))
        ctx.equal(measurements.personal.customer, self.customer, 'measurement-customer', 'client {}'.format(self.index))
        values = {m.valentina_name: float(m) for m in measurements}
        ctx.equal(values, self.measurements, 'measurement-values', 'client {}'.format(self.index))
        if self.export:
            got = docs.read(self.export, self.export_path)
            again = self.export_path + '.again' + docs.SUFFIX[self.export]
            docs.save(docs.Document(self.export, None, None), (self.pattern or reader.pattern).scope(0).sketch.detail_scene(),
                      again)
            if self.pattern is not None:
                ctx.equal(got, docs.read(self.export, again), 'export', 'client {}'.format(self.index))


def run_successive(ctx):
    """Patterns and measurements which are made and dropped one after the other, over the same files."""
    ch = ctx.ch
    root = ctx.scratch()
    fs = simfs.SimFS(ctx, root)
    fs.trace = False
    described = []
    ctx.nontrivial = True
    with simfs.active(fs):
        for _ in range(ch.int(3, 6)):
            client = Client(ctx, 0, root)
            described.append(client.describe())
            ctx.event('client', client.describe())
            ctx.sig(client.describe())
            for _ in client.steps():
                ctx.step()
            client.final()
            del client
            gc.collect()
        ctx.check(not fs.refused, 'written-elsewhere', fs.refused)
    ctx.sample = {'mode': 'successive', 'clients': described}


def run(ctx):
    ch = ctx.ch
    if ch.chance(12):
        run_successive(ctx)
        return
    root = ctx.scratch()
    threads_mode = ch.chance(70)
    same_person = ch.chance(40)
    clients = []
    for i in range(ch.int(2, 3)):
        clients.append(Client(ctx, i, root, clients[0] if same_person and clients else None))
        if same_person and i == 0:
            clients[0].load_measurements()
    for client in clients:
        ctx.event('client', client.index, client.describe())
        ctx.sig(client.describe())
    fs = simfs.SimFS(ctx, root)
    fs.trace = False
    with simfs.active(fs):
        if threads_mode:
            scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(2, 10, 50, 200, 1000))

            def body(client):
                for step in client.steps():
                    sched.yield_point(step)

            threads = [scheduler.spawn(body, client) for client in clients]
            scheduler.run()
            for client, thread in zip(clients, threads):
                if thread.exception is not None:
                    raise Violation('client-fails:' + type(thread.exception).__name__,
                                    'client {}: {}'.format(client.index, thread.traceback))
        else:
            ctx.nontrivial = True
            running = [(client, client.steps()) for client in clients]
            while running:
                client, steps = running[ch.draw(len(running))]
                count = ch.pick([1, 1, 2, 4])
                for _ in range(count):
                    try:
                        what = next(steps)
                    except StopIteration:
                        running = [(c, s) for c, s in running if c is not client]
                        break
                    ctx.event('step', client.index, what)
                    ctx.sig(client.index, what)
                    ctx.step()
        for client in clients:
            client.final()
        ctx.check(not fs.refused, 'written-elsewhere', fs.refused)
    ctx.sample = {'mode': 'threads' if threads_mode else 'steps', 'clients': [client.describe() for client in clients]}
