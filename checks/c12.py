"""C12: dependency graphs stay right under any history and any hash order."""

from sim import seams
from sim.core import Violation
from sim.faults import ASYNC, interruptible
from world import patmodel

ID = 'C12'
GROUPS = ['core', 'measurement', 'pattern']
LEVEL = 'exploration'
QUICK = {'runs': 6000, 'seconds': 90}
THOROUGH = {'runs': 600000, 'seconds': 800}
RULE = ('a run draws the hash order of the nodes (sets of nodes are iterated in the order of their addresses) and either '
        'the history of a graph (add and reject nodes, connect and disconnect edges, make and break cycles, query roots, '
        'leafs, traversals and sorts) or the history of the graph of a sketch (operations, evaluations, evaluations which '
        'are interrupted); the answers are compared with a plain model of the graph; non-trivial: the graph has an edge; '
        'distinct: another graph, history or hash order')
REAL = ['Patro.Common.Graph.DirectedAcyclicGraph', 'Patro.Pattern.SketchOperation', 'Patro.Pattern.Calculator']
STUB = ['address based hashes', 'asynchronous exceptions']
ASSUMPTIONS = ['chains are shorter than the recursion limit of Python',
               'an operation which is rejected can leave an isolated node: rejected operations are not part of this check']


def reachable(edges, start):
    seen = {start}
    stack = [start]
    while stack:
        for x in edges.get(stack.pop(), ()):
            if x not in seen:
                seen.add(x)
                stack.append(x)
    return seen


def has_cycle(nodes, edges):
    return any(n in reachable(edges, m) for n in nodes for m in edges.get(n, ()))


def raises(kind, f):
    try:
        f()
    except kind:
        return True
    return False


def check_graph(ctx, dag, nodes, edges, key, where):
    """*nodes*: keys, *edges*: key -> set of keys, *key*: node -> key."""
    got = [key(n) for n in dag]
    ctx.equal(sorted(got), sorted(nodes), 'nodes', where)
    by_key = {key(n): n for n in dag}
    ancestors = {n: {m for m in nodes if n in edges.get(m, ())} for n in nodes}
    for n in nodes:
        node = by_key[n]
        ctx.equal(sorted(key(x) for x in node.descendants), sorted(edges.get(n, ())), 'descendants',
                  '{} {}'.format(where, n))
        ctx.equal(sorted(key(x) for x in node.ancestor), sorted(ancestors[n]), 'ancestors', '{} {}'.format(where, n))
        ctx.equal(node.is_leaf, not edges.get(n), 'is-leaf', '{} {}'.format(where, n))
        ctx.equal(node.is_root, not ancestors[n], 'is-root', '{} {}'.format(where, n))
    ctx.equal(sorted(key(x) for x in dag.roots()), sorted(n for n in nodes if not ancestors[n]), 'roots', where)
    ctx.equal(sorted(key(x) for x in dag.leafs()), sorted(n for n in nodes if not edges.get(n)), 'leafs', where)
    # traversal: each reachable node once, by increasing distance
    for n in nodes[:1] + [nodes[ctx.ch.draw(len(nodes))]] if nodes else []:
        walk = [key(x) for x in by_key[n].breadth_first_search()]
        ctx.equal(sorted(walk), sorted(reachable(edges, n)), 'traversal', '{} from {}'.format(where, n))
        distance = {n: 0}
        frontier = [n]
        while frontier:
            following = []
            for x in frontier:
                for y in edges.get(x, ()):
                    if y not in distance:
                        distance[y] = distance[x] + 1
                        following.append(y)
            frontier = following
        ctx.check([distance[x] for x in walk] == sorted(distance[x] for x in walk), 'traversal-order',
                  lambda: '{} from {}: {}'.format(where, n, walk))
    # sort
    cyclic = has_cycle(nodes, edges)
    try:
        order = [key(x) for x in dag.topological_sort()]
    except NameError:
        ctx.check(cyclic, 'acyclic-graph-rejected', where)
        ctx.probe('cycle-rejected')
        return
    ctx.check(not cyclic, 'cycle-accepted', lambda: '{}: {}'.format(where, edges))
    ctx.equal(sorted(order), sorted(nodes), 'topological-sort', where)
    rank = {n: i for i, n in enumerate(order)}
    for n in nodes:
        for m in edges.get(n, ()):
            ctx.check(rank[n] < rank[m], 'topological-sort', lambda: '{}: {} before {} in {}'.format(where, m, n, order))


def graph_history(ctx):
    from Patro.Common.Graph.DirectedAcyclicGraph import DirectedAcyclicGraph
    ch = ctx.ch
    dag = DirectedAcyclicGraph()
    nodes, edges = [], {}
    real = {}
    payloads = {}
    dense = ch.pick([30, 60])
    for step in range(ch.int(3, 40)):
        action = ch.weighted([(6, 'node'), (12, 'edge'), (2, 'back-edge'), (3, 'remove'), (1, 'duplicate'), (3, 'check'),
                              (1, 'loop'), (1, 'bad-remove'), (2, 'traversals')])
        if action == 'node' or len(nodes) < 2:
            n = len(nodes)
            payload = payloads[n] = ch.pick(['payload{}'.format(n), 'payload{}'.format(n), 0, None, ''])
            real[n] = dag.add_node(n, data=payload) if payload is not None or ch.chance(50) else dag.add_node(n)
            ctx.equal(real[n].data, payload, 'data', 'node')
            ctx.check(dag[n] is real[n], 'lookup', 'node')
            nodes.append(n)
        elif action in ('edge', 'back-edge'):
            a, b = ch.draw(len(nodes)), ch.draw(len(nodes))
            if a == b:
                continue
            if (a > b) == (action == 'edge'):
                a, b = b, a
            edges.setdefault(a, set()).add(b)
            if ch.chance(50):
                dag.add_edge(real[a], real[b])
            else:
                real[b].connect_ancestor(real[a])
            ctx.event('edge', a, b)
            ctx.sig(a, b)
            ctx.nontrivial = True
        elif action == 'remove':
            pairs = sorted((a, b) for a, targets in edges.items() for b in targets)
            # prefer edges which break a cycle
            back = [(a, b) for a, b in pairs if a > b]
            if not pairs:
                continue
            a, b = ch.pick(back or pairs)
            edges[a].discard(b)
            real[b].disconnect_ancestor(real[a])
            ctx.event('remove', a, b)
            ctx.sig('remove', a, b)
        elif action == 'loop':
            a = ch.draw(len(nodes))
            edges.setdefault(a, set()).add(a)
            dag.add_edge(real[a], real[a])
            ctx.event('loop', a)
            check_graph(ctx, dag, nodes, edges, lambda node: node.node_id, 'graph with a loop')
            if ch.chance(80):
                edges[a].discard(a)
                real[a].disconnect_ancestor(real[a])
        elif action == 'bad-remove':
            a, b = ch.draw(len(nodes)), ch.draw(len(nodes))
            if b in edges.get(a, ()):
                continue
            ctx.check(raises(KeyError, lambda: real[b].disconnect_ancestor(real[a])), 'unknown-edge-removed', (a, b))
            ctx.fault('rejected-step')
        elif action == 'traversals':
            # several traversals and an abandoned one, in turns
            starts = [ch.draw(len(nodes)) for _ in range(ch.int(2, 3))]
            walks = [(n, real[n].breadth_first_search(), []) for n in starts]
            active = list(walks)
            while active:
                walk = ch.pick(active)
                node = next(walk[1], None)
                if node is None:
                    active.remove(walk)
                else:
                    walk[2].append(node.node_id)
            for n, _, walk in walks:
                ctx.equal(sorted(walk), sorted(reachable(edges, n)), 'traversal', 'from {}, in turns'.format(n))
            next(real[starts[0]].breadth_first_search())
        elif action == 'duplicate':
            try:
                dag.add_node(ch.pick(nodes), data='other')
            except NameError:
                pass
            else:
                raise Violation('duplicate-accepted', 'node')
        else:
            check_graph(ctx, dag, nodes, edges, lambda node: node.node_id, 'graph')
    check_graph(ctx, dag, nodes, edges, lambda node: node.node_id, 'graph')
    for n in nodes:
        ctx.check(dag[n] is real[n] and real[n].data == payloads[n], 'lookup', n)
    ctx.check(raises(KeyError, lambda: dag[len(nodes)]), 'lookup', 'unknown node')
    return {'nodes': len(nodes), 'edges': sorted((a, sorted(b)) for a, b in edges.items())}


def sketch_history(ctx):
    ch = ctx.ch
    real = patmodel.Real()
    values = patmodel.generate_measurements(ch)
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    measurements = ValentinaMeasurements()
    for name, v in values.items():
        measurements.add(name, str(v))
    pattern = real.Pattern(measurements, 'cm')
    model = patmodel.PatternModel('cm', values)
    scope = model.add_scope('pant')
    sketch = pattern.add_scope('pant').sketch
    other = pattern.add_scope('other').sketch
    evaluated = set()

    def edges():
        result = {}
        for op in scope.operations:
            sources = {target.real_id for target in op.refs.values()}
            if op in evaluated:
                names = set().union(*(patmodel.expression_points(ast) for ast in op.expressions.values()), ())
                sources |= {x.real_id for x in scope.points if x.name in names}
            for source in sources:
                result.setdefault(source, set()).add(op.real_id)
        return result

    def check(where):
        check_graph(ctx, sketch.calculator.dag, [op.real_id for op in scope.operations], edges(),
                    lambda node: node.data.id, where)
        ctx.equal(len(list(other.calculator.dag)), others, 'nodes', 'graph of another sketch')
        for op, real_op in zip(scope.operations, sketch.operations):
            expected = {a for a, targets in edges().items() if op.real_id in targets}
            ctx.equal(sorted(x.id for x in real_op.dependencies), sorted(expected), 'dependencies', op.describe())

    others = 0
    for _ in range(ch.int(3, 14)):
        action = ch.weighted([(8, 'add'), (3, 'eval'), (2, 'interrupt'), (1, 'other'), (1, 'check')])
        if action == 'add':
            op = scope.generate(ch, values, model.used_ids(), False)
            if op is None:
                continue
            op.real_id = real.apply(op, sketch, ch.pick(['name', 'id', 'object']), False).id
            scope.operations.append(op)
            ctx.event('add', op.describe())
            ctx.sig(op.describe())
            if op.refs:
                ctx.nontrivial = True
        elif action == 'other':
            others += 1
            other.SinglePoint('A', 1, 2, real.Vector2D(0, 0)) if others == 1 else \
                other.SinglePoint('A{}'.format(others), 1, 2, real.Vector2D(0, 0))
        else:
            if action == 'interrupt':
                try:
                    interruptible(ctx, sketch.eval, ch.int(1, 20 + 50 * len(scope.operations)))
                except ASYNC:
                    ctx.probe('interrupted-eval')
            if action != 'check':
                sketch.eval()
                evaluated.update(scope.operations)
            check(action)
    sketch.eval()
    evaluated.update(scope.operations)
    check('end')
    return [op.describe() for op in scope.operations]


def run(ctx):
    salt = seams.install_identity_hash(ctx)
    ctx.sig('hash order', salt)
    if ctx.ch.chance(50):
        ctx.sample = {'hash order': salt, 'sketch': sketch_history(ctx)}
    else:
        ctx.sample = {'hash order': salt, 'graph': graph_history(ctx)}
