"""C17: the viewer shows the scene, and what is clicked is what is selected."""

from sim import seams
from sim.faults import ASYNC, interruptible
from world.scene import NAMES
from world.viewer import Painting, View, Viewer, ViewerWorld

ID = 'C17'
GROUPS = ['core', 'scene', 'viewer', 'PyQt5.QtSvg']
LEVEL = 'exploration'
QUICK = {'runs': 1500, 'seconds': 80}
THOROUGH = {'runs': 200000, 'seconds': 800}
RULE = ('a run draws one or two scenes with styled items and a history of the viewer: scene set before or after the window '
        'has a size, switched, edited while it is shown, resizes (also to nothing), zooms, pans, fits, clicks, paintings, '
        'items which cannot be painted, interrupts at any line; each painting is recorded by the SVG device of Qt and '
        'compared with a model of the viewport; non-trivial: a painting after a fault, or an edit, or a resize; '
        'distinct: another history')
REAL = ['Patro.GraphicEngine.Painter.QtPainter', 'Patro.GraphicEngine.GraphicScene', 'PyQt5 (offscreen platform)']
STUB = ['window and events of Qt (methods are called as QML does)', 'asynchronous exceptions']
ASSUMPTIONS = ['images, rotated ellipses and the fill of open curves are not judged',
               'an empty window is not painted', 'an invisible item may be selected',
               'the grid is only judged for scenes without transformation']
TOL = 1e-3


class Session:

    def __init__(self, ctx):
        from Patro.GraphicEngine.Painter.QtPainter import QtScene
        self.ctx = ctx
        self.ch = ctx.ch
        self.worlds = [ViewerWorld(ctx, QtScene) for _ in range(self.ch.int(1, 2))]
        for world in self.worlds:
            for name in NAMES[:self.ch.int(0, 3)]:
                world.coordinates[name] = world.point()
                world.scene.add_coordinate(name, world.V(*world.coordinates[name]))
        self.viewer = Viewer(ctx)
        self.view = View()
        self.grid = True
        self.lines = 100
        self.changes = 0
        self.unknown_selection = None       # world whose selection was interrupted

    # ------------------------------------------------------------ helpers

    def error(self):
        error = self.viewer.raised()
        if isinstance(error, ASYNC):
            self.ctx.check(False, 'late-interrupt', error)
        return error

    def no_error(self, what):
        error = self.error()
        self.ctx.check(error is None, 'error', lambda: '{}: {!r}'.format(what, error))

    def call(self, name, *args):
        """Call a slot, perhaps interrupt it. Return True when it was interrupted."""
        function = getattr(self.viewer.real, name)
        if self.ch.chance(12):
            try:
                self.lines = interruptible(self.ctx, lambda: function(*args), self.ch.int(1, max(1, self.lines)))
            except ASYNC:
                self.ctx.event('interrupted', name)
                self.viewer.raised()
                return True
            if any(isinstance(error, ASYNC) for error in self.viewer.errors):
                self.viewer.raised()
                return True
        else:
            function(*args)
        self.no_error(name)
        return False

    def random_pixel(self):
        view, ch = self.view, self.ch
        return (round(view.w * ch.int(-2, 22) / 20, 1), round(view.h * ch.int(-2, 22) / 20, 1))

    # ------------------------------------------------------------ events

    def set_scene(self):
        world = self.ch.pick(self.worlds)
        self.changes += self.view.world is not world
        changed = self.view.world is not world
        self.viewer.real.scene = world.scene
        self.no_error('set scene')
        self.view.world = world
        if changed:
            self.view.fit()
        self.ctx.check(self.viewer.real.scene is world.scene, 'scene')
        self.ctx.equal(self.viewer.scene_changed, self.changes, 'scene-changed')

    def resize(self):
        ch, real, view = self.ch, self.viewer.real, self.view
        w, h = ch.pick([300, 640, 200.5, 1000, 0]), ch.pick([400, 480, 100.25, 900, 0])
        self.ctx.sig(w, h)
        for name, size in (('Width', (w, view.h)), ('Height', (w, h))):
            getattr(real, 'set' + name)(size[name == 'Height'])
            if size != (view.w, view.h):
                view.resize(*size)
        self.no_error('resize')
        if not (w and h):
            self.ctx.fault('empty-window')

    def fit(self):
        if self.call('fit_scene'):
            self.call_until('fit_scene')
        self.view.fit()

    def call_until(self, name, *args):
        getattr(self.viewer.real, name)(*args)
        self.no_error(name)

    def navigate(self, kind):
        view, ch = self.view, self.ch
        if kind == 'zoom-center':
            zoom = ch.pick([.5, 1, 3.3, 20, 150])
            interrupted = self.call('zoom_at_center', zoom)
            view.scale = zoom
        elif kind == 'zoom':
            p, zoom = self.random_pixel(), ch.pick([.7, 2, 5.5, 40])
            center = view.to_scene(p)
            interrupted = self.call('zoom_at', self.viewer.point(p), zoom)
            view.center, view.scale = center, zoom
        else:
            dx, dy = ch.int(-60, 60) * 2.5, ch.int(-60, 60) * 2.5
            interrupted = self.call('pan', self.viewer.point((dx, dy)))
            view.center = (view.center[0] + dx / view.scale, view.center[1] + dy / view.scale)
        if interrupted:
            # where it is now is unspecified
            self.call_until('fit_scene')
            view.fit()
        self.check_view()

    def check_view(self):
        ctx, view = self.ctx, self.view
        if not view.shown:
            return
        zoom = float(self.viewer.real.zoom)
        ctx.check(abs(zoom - view.scale) <= 1e-9 * view.scale, 'zoom', lambda: '{} / {}'.format(zoom, view.scale))
        p = self.random_pixel()
        text = self.viewer.real.format_coordinate(self.viewer.point(p))
        self.no_error('coordinate')
        got = tuple(map(float, text.split(',')))
        expected = view.to_scene(p)
        ctx.check(all(abs(a - b) < 1.1e-3 + 1e-6 * abs(b) for a, b in zip(got, expected)), 'coordinate',
                  lambda: '{}: {} instead of {}'.format(p, got, expected))

    def paint(self):
        ctx, ch, view = self.ctx, self.ch, self.view
        if ch.chance(20):
            before = list(self.viewer.errors)
            try:
                self.lines = interruptible(ctx, lambda: self.viewer.svg(view.w, view.h), ch.int(1, max(1, self.lines)))
            except ASYNC:
                ctx.event('interrupted painting')
            assert not before
            self.viewer.errors[:] = [e for e in self.viewer.errors if not isinstance(e, ASYNC)]
            self.no_error('interrupted painting')
        text = self.viewer.svg(view.w, view.h)
        self.no_error('paint')
        Painting(ctx, view).check(text, self.grid if view.world.plain else None)
        if ch.chance(30):
            again = self.viewer.svg(view.w, view.h)
            self.no_error('paint')
            ctx.check(again == text, 'painted-twice', 'another painting')
        ctx.probe('painting')

    def unsupported(self):
        world = self.view.world
        p, q = world.point(), world.point()
        item = world.scene.rectangle(world.V(*p), world.V(*q), world.style, user_data=None)
        if self.ch.chance(30):
            item.z_value = -3
        self.viewer.svg(self.view.w, self.view.h)
        error = self.viewer.raised()
        if error is not None:
            self.ctx.check(isinstance(error, NotImplementedError), 'error', repr(error))
            self.ctx.fault('item-not-supported')
        world.scene.remove_item(item)

    def click(self):
        ctx, ch, view = self.ctx, self.ch, self.view
        world = view.world
        world_items = world.items
        if world_items and ch.chance(75):
            shape = world.current_shape(ch.pick(world_items))
            x, y = view.to_view(ch.pick(shape.samples()))
            p = (round(x + ch.int(-24, 24) / 2, 2), round(y + ch.int(-24, 24) / 2, 2))
        else:
            p = self.random_pixel()
        ctx.event('click', p)
        if self.call('item_at', self.viewer.point(p)):
            # the selection is unspecified until the next click
            self.call_until('item_at', self.viewer.point(p))
        for item in world_items:
            world.indexed(item)
        radius = 10 / view.scale
        position = view.to_scene(p)
        selected = [x for x in world.scene if x.selected]
        ctx.check(len(selected) <= 1, 'selected-items', selected)
        distances = [(item.shape.distance(position), item) for item in world_items]
        distances = [(d, item) for d, item in distances if d is not None]
        nearest = min([d for d, item in distances if item.visible], default=None)
        margin = TOL * (1 + radius * .01)
        if not selected:
            ctx.check(nearest is None or nearest > radius - margin, 'not-selected',
                      lambda: '{} at {} of {} (radius {})'.format(world_items, nearest, position, radius))
        else:
            item = world.by_real(selected[0])
            ctx.check(item is not None, 'removed-item-selected')
            d = item.shape.distance(position)
            ctx.check(d is not None and d <= radius + margin, 'too-far-selected',
                      lambda: '{} at {} of {} (radius {})'.format(item, d, position, radius))
            ctx.check(nearest is None or d <= nearest + margin, 'not-the-nearest',
                      lambda: '{} at {} instead of {} at {}'.format(item, d, distances, nearest))
            ctx.probe('selected')
        for item in world_items:
            item.selected = item.real.selected

    def edit(self):
        ctx, ch = self.ctx, self.ch
        world = ch.pick(self.worlds)
        action = ch.weighted([(8, 'add'), (2, 'remove'), (2, 'move'), (4, 'attributes'), (2, 'restyle'), (1, 'update'),
                              (1, 'box')])
        ctx.sig(action)
        scene = world.scene
        if action == 'add':
            for _ in range(ch.int(1, 4)):
                world.add()
        elif action == 'remove' and world.items:
            item = ch.pick(world.items)
            ctx.event('remove', item)
            scene.remove_item(item.real)
            world.items.remove(item)
            item.real = None
        elif action == 'move' and world.coordinates:
            name = ch.pick(sorted(world.coordinates))
            world.coordinates[name] = world.point()
            scene.add_coordinate(name, world.V(*world.coordinates[name]))
            ctx.event('move', name, world.coordinates[name])
            for item in world.items:
                if name in item.refs:
                    item.real.dirty = True
                    item.stale = True
                    ctx.probe('moved')
        elif action == 'attributes' and world.items:
            item = ch.pick(world.items)
            what = ch.pick(['z', 'visible', 'selected'])
            value = ch.pick([1, 2, -1, 0, 10.5]) if what == 'z' else ch.chance(50)
            setattr(item, what, value)
            setattr(item.real, {'z': 'z_value'}.get(what, what), value)
            ctx.event(what, value, item)
        elif action == 'restyle':
            world.restyle()
        elif action == 'update':
            world.update()
        elif action == 'box':
            world.set_box()
        ctx.nontrivial = True


def run(ctx):
    ch = ctx.ch
    session = Session(ctx)
    view = session.view
    for world in session.worlds:
        for _ in range(ch.int(0, 8)):
            world.add()
    if ch.chance(70):
        session.resize()
    if ch.chance(80):
        session.set_scene()
    for _ in range(ch.int(6, 30)):
        action = ch.weighted([(6, 'edit'), (2, 'scene'), (2, 'resize'), (2, 'fit'), (3, 'zoom'), (2, 'zoom-center'),
                              (3, 'pan'), (5, 'paint'), (5, 'click'), (1, 'unsupported'), (1, 'grid')])
        ctx.sig(action)
        ctx.event(action)
        ctx.step()
        if action == 'edit':
            session.edit()
        elif action == 'scene':
            session.set_scene()
        elif action == 'resize':
            session.resize()
        elif action == 'grid':
            if hasattr(session.viewer.real, '_show_grid'):
                session.grid = not session.grid
                session.viewer.real._show_grid = session.grid
        elif view.world is None:
            # nothing to show
            ctx.equal(session.viewer.real.format_coordinate(session.viewer.point((1, 2))), '', 'coordinate')
            session.viewer.real.item_at(session.viewer.point((1, 2)))
            session.no_error('click')
        elif action == 'fit':
            session.fit()
        elif not view.shown:
            ctx.probe('not-shown')
        elif action in ('zoom', 'zoom-center', 'pan'):
            session.navigate(action)
        elif action == 'paint':
            session.paint()
        elif action == 'click':
            session.click()
        else:
            session.unsupported()
        session.check_view()
    if view.world is None:
        session.set_scene()
    session.viewer.real.setWidth(500)
    if view.w != 500:
        view.resize(500, view.h)
    session.viewer.real.setHeight(450)
    if view.h != 450:
        view.resize(500, 450)
    session.no_error('resize')
    session.check_view()
    session.paint()
    session.click()
    session.paint()
