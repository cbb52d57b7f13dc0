"""C13: picking in a scene finds the items which are there, whatever the history of the scene."""

from sim import sched, seams
from sim.faults import ASYNC, interruptible
from world.scene import NAMES, World

ID = 'C13'
GROUPS = ['core', 'scene']
LEVEL = 'exploration'
QUICK = {'runs': 3000, 'seconds': 80}
THOROUGH = {'runs': 400000, 'seconds': 800}
RULE = ('a run draws a scene (transformation or not) and a history: add items of all kinds at points or named '
        'coordinates, add geometry, move a coordinate and mark its items as dirty, remove items, select, hide, raise, '
        'update the index of the scene or of one item, an update which fails on a coordinate which is defined later; '
        'queries at any time, from several threads, or interrupted at any line and repeated, are compared with a brute '
        'force search by a reference geometry; non-trivial: a query after a removal, a move or a fault; distinct: '
        'another history')
REAL = ['Patro.GraphicEngine.GraphicScene', 'Patro.GeometryEngine', 'rtree (C library)']
STUB = ['thread scheduler', 'asynchronous exceptions']
ASSUMPTIONS = ['an item is searched where it was at the last update of the index, items which were moved, or added, since '
               'then may be missed', 'rectangles, texts and images have no distance and are only searched by box',
               'distances within 1e-4 of the radius are not judged', 'threads and interrupts only in queries']

def run(ctx):
    ch = ctx.ch
    world = World(ctx)
    scene = world.scene
    lines = 60
    for name in NAMES[:ch.int(0, 3)]:
        world.coordinates[name] = world.point()
        scene.add_coordinate(name, world.V(*world.coordinates[name]))
    pending = None       # name of a coordinate which is not yet defined

    for _ in range(ch.int(6, 32)):
        action = ch.weighted([(12, 'add'), (6, 'update'), (8, 'query'), (4, 'remove'), (3, 'move'), (2, 'update-item'),
                              (2, 'threads'), (2, 'interrupt'), (2, 'attributes'), (1, 'unselect'), (1, 'missing'),
                              (1, 'coordinate'), (1, 'lookup')])
        ctx.sig(action)
        if action == 'add':
            world.add()
        elif action == 'update':
            world.update()
        elif action == 'query':
            function, check = world.query()
            check(function(), 'query')
        elif action == 'remove':
            if not world.items:
                continue
            item = ch.pick(world.items)
            ctx.event('remove', item)
            scene.remove_item(item.real)
            world.items.remove(item)
            if item.shape is not None:
                world.removed.append(item.shape)
            item.real = None
            del item
            ctx.nontrivial = True
            ctx.probe('removed')
        elif action == 'move':
            if not world.coordinates:
                continue
            name = ch.pick(sorted(world.coordinates))
            world.coordinates[name] = world.point()
            scene.add_coordinate(name, world.V(*world.coordinates[name]))
            ctx.event('move', name, world.coordinates[name])
            for item in world.items:
                if name in item.refs:
                    if item.shape is not None:
                        world.removed.append(item.shape)
                    item.real.dirty = True
                    item.stale = True
                    ctx.nontrivial = True
                    ctx.probe('moved')
            if ch.chance(50):
                world.update()
        elif action == 'update-item':
            items = [i for i in world.items if world.resolvable(i)]
            if not items:
                continue
            item = ch.pick(items)
            if item.stale or ch.chance(50):
                item.real.dirty = True
            scene.update_rtree_item(item.real)
            world.indexed(item)
            ctx.event('update', item)
        elif action == 'threads':
            queries = [world.query() for _ in range(ch.int(2, 3))]
            if any(not world.resolvable(item) for item in world.items):
                continue
            scheduler = sched.Scheduler(ctx, 'line', seams.patro_prefixes(), gaps=(1, 2, 4, 8, 20, 60))
            threads = [scheduler.spawn(function) for function, _ in queries]
            scheduler.run()
            ctx.event('threads')
            for thread, (_, check) in zip(threads, queries):
                ctx.check(thread.exception is None, 'query-failed', lambda: thread.traceback)
                check(thread.result, 'query from a thread')
        elif action == 'interrupt':
            function, check = world.query()
            try:
                lines = interruptible(ctx, function, ch.int(1, max(1, lines)))
            except ASYNC as error:
                ctx.event('interrupted', type(error).__name__)
                ctx.probe('interrupted-query')
            check(function(), 'query after an interrupt')
        elif action == 'attributes':
            if not world.items:
                continue
            item = ch.pick(world.items)
            what = ch.pick(['z', 'visible', 'selected'])
            value = ch.pick([1, 2, -1, 0, 10.5]) if what == 'z' else ch.chance(50)
            setattr(item, what, value)
            setattr(item.real, {'z': 'z_value'}.get(what, what), value)
            ctx.event(what, value, item)
        elif action == 'unselect':
            scene.unselect_items()
            for item in world.items:
                item.selected = False
        elif action == 'missing':
            free = [n for n in NAMES if n not in world.coordinates]
            if not free or pending:
                continue
            pending = free[0]
            world.add(missing=pending)
            ctx.check(not world.update(), 'missing-coordinate-accepted', pending)
        elif action == 'coordinate':
            if pending:
                world.coordinates[pending] = world.point()
                scene.add_coordinate(pending, world.V(*world.coordinates[pending]))
                pending = None
                world.update()
                continue
            used = {ref for item in world.items for ref in item.refs}
            free = [n for n in sorted(world.coordinates) if n not in used]
            if free:
                scene.remove_coordinate(free[0])
                del world.coordinates[free[0]]
        else:
            try:
                scene.coordinate('unknown')
            except KeyError:
                pass
            else:
                ctx.check(False, 'unknown-coordinate-accepted')
        world.static_check()
        if action in ('update', 'remove', 'coordinate') and world.items:
            function, check = world.query()
            check(function(), 'query after ' + action)
    if pending:
        world.coordinates[pending] = world.point()
        scene.add_coordinate(pending, world.V(*world.coordinates[pending]))
    world.update()
    for _ in range(3):
        function, check = world.query()
        check(function(), 'last query')
    world.static_check()
