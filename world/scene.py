"""A scene, its model, and the checks of its index and of its queries."""

from . import geom

KINDS = [(6, 'segment'), (3, 'circle'), (2, 'polyline'), (2, 'polygon'), (2, 'rectangle'), (2, 'text'), (1, 'image'),
         (1, 'ellipse'), (2, 'cubic'), (1, 'quadratic'), (2, 'geometry'), (1, 'path'), (1, 'bezier-path'),
         (1, 'path-item')]
NAMES = ['A', 'B', 'C', 'D', 'E']
TOL = 1e-4


class Item:

    def __init__(self, number, kind, refs, parameters, key):
        self.number = number
        self.kind = kind
        self.refs = refs            # (x, y) or the name of a coordinate
        self.parameters = parameters
        self.key = key
        self.z = 0
        self.visible = True
        self.selected = False
        self.style = None
        self.real = None
        self.shape = None           # where the index has it
        self.stale = True           # changed since the last update

    def __repr__(self):
        return '#{} {} {} {}'.format(self.number, self.kind, self.refs, self.parameters)


class Data:
    """What a user attaches to items."""

    def __init__(self, name):
        self.name = name


class World:

    kinds = KINDS
    ellipse_angles = [0, 90, 30, 120]
    geometries = ['segment', 'circle', 'polyline', 'polygon', 'triangle', 'rectangle', 'quadratic', 'cubic']

    def __init__(self, ctx, scene_cls=None):
        from Patro.GeometryEngine.Transformation import AffineTransformation2D
        from Patro.GeometryEngine.Vector import Vector2D
        from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicPathStyle
        from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
        self.ctx = ctx
        self.ch = ctx.ch
        self.V = Vector2D
        self.font = Font('', 16)
        self.style = GraphicPathStyle()
        self.style_model = None
        kind = self.ch.weighted([(4, None), (1, 'translation'), (1, 'rotation'), (1, 'screen')])
        self.map = lambda p: p
        transformation = None
        if kind == 'translation':
            dx, dy = self.ch.decimal(-20, 20), self.ch.decimal(-20, 20)
            transformation = AffineTransformation2D.Translation(Vector2D(dx, dy))
            self.map = lambda p: (p[0] + dx, p[1] + dy)
        elif kind == 'rotation':
            angle = self.ch.pick([90, 30, 180, 315])
            transformation = AffineTransformation2D.Rotation(angle)
            self.map = lambda p: (
                p[0] * geom.cos(geom.radians(angle)) - p[1] * geom.sin(geom.radians(angle)),
                p[0] * geom.sin(geom.radians(angle)) + p[1] * geom.cos(geom.radians(angle)))
        elif kind == 'screen':
            transformation = AffineTransformation2D.Screen(15)
            self.map = lambda p: (p[0], 15 - p[1])
        ctx.sig(kind)
        scene_cls = scene_cls or GraphicScene
        self.scene = scene_cls(transformation) if transformation is not None else scene_cls()
        self.coordinates = {}
        self.items = []
        self.removed = []
        self.data = [Data('u{}'.format(i)) for i in range(4)]
        self.count = 0

    # ------------------------------------------------------------ model

    def point(self):
        ch = self.ch
        return (ch.decimal(0, 20, 1), ch.decimal(0, 20, 1))

    def ref(self):
        if self.coordinates and self.ch.chance(35):
            return self.ch.pick(sorted(self.coordinates))
        return self.point()

    def position(self, ref):
        return self.coordinates[ref] if isinstance(ref, str) else ref

    def current_shape(self, item):
        points = [self.map(self.position(ref)) for ref in item.refs]
        return geom.Shape(item.kind, points, **item.parameters)

    def resolvable(self, item):
        return all(not isinstance(ref, str) or ref in self.coordinates for ref in item.refs)

    def cast(self, ref):
        return ref if isinstance(ref, str) else self.V(*ref)

    # ------------------------------------------------------------ actions

    def new(self, kind, refs, parameters, key):
        self.count += 1
        item = Item(self.count, kind, refs, parameters, key)
        item.style = self.style_model
        item.drawn_text = self.text
        self.items.append(item)
        return item

    def choose_style(self, kind):
        pass

    def add(self, missing=None):
        ch, scene = self.ch, self.scene
        kind = ch.weighted(self.kinds)
        self.choose_style(kind)
        self.text = 'text{}'.format(self.count)
        pieces = None
        key = ch.pick([None] + self.data)
        n = {'segment': 2, 'rectangle': 2, 'image': 2, 'cubic': 4, 'quadratic': 3, 'geometry': 2, 'path': 3,
             'bezier-path': 4}.get(kind)
        if kind == 'path-item':
            pieces = [ch.pick([1, 1, 2, 3]) for _ in range(ch.int(1, 3))]
            n = 1 + sum(pieces)
        if n is None:
            n = ch.int(3, 5) if kind == 'polygon' else ch.int(2, 5) if kind == 'polyline' else 1
        plain = kind in ('geometry', 'path')
        if pieces:
            plain = ch.chance(50)
        refs = []
        for _ in range(n):
            ref = self.point() if plain else self.ref()
            while any(self.position(ref) == self.position(r) for r in refs):
                p = self.position(ref)
                ref = (round(p[0] + .7, 1), round(p[1] + .3, 1))
            refs.append(ref)
        if missing is not None:
            plain, pieces = False, None
            kind = 'segment'
            refs = [self.point(), missing]
        points = [self.cast(ref) for ref in refs]
        self.ctx.event('add', kind, refs, getattr(key, 'name', type(key).__name__))
        self.ctx.sig('add', kind, tuple(refs), getattr(key, 'name', type(key).__name__))
        if kind == 'geometry':
            return self.add_geometry(refs)
        if kind == 'path-item':
            return self.add_path_item(refs, points, pieces, plain, key)
        if kind == 'path':
            from Patro.GeometryEngine.Path import Path2D
            path = Path2D(points[0])
            for p in points[1:]:
                path.line_to(p, absolute=True)
            before = set(map(id, scene))
            scene.add_geometry(path, self.style)
            news = [x for x in scene if id(x) not in before]
            self.ctx.equal(len(news), 2, 'items-of-a-path', refs)
            self.data.append(path)
            for real, pair in zip(news, zip(refs, refs[1:])):
                self.new('segment', list(pair), {}, path).real = real
            return
        if kind == 'bezier-path':
            degree = ch.pick([1, 3])
            reals = scene.bezier_path(points, degree, self.style, user_data=key)
            if degree == 1:
                pieces = list(zip(refs, refs[1:]))
            else:
                pieces = [refs]
            self.ctx.equal(len(reals), len(pieces), 'items-of-a-path', refs)
            for real, piece in zip(reals, pieces):
                self.new('segment' if degree == 1 else 'cubic', list(piece), {}, key).real = real
            return
        parameters = {}
        if kind == 'segment':
            real = scene.segment(*points, self.style, user_data=key)
        elif kind == 'rectangle':
            real = scene.rectangle(*points, self.style, user_data=key)
        elif kind == 'image':
            real = scene.image(*points, None, user_data=key)
        elif kind == 'cubic':
            real = scene.cubic_bezier(*points, self.style, user_data=key)
        elif kind == 'quadratic':
            real = scene.quadratic_bezier(*points, self.style, user_data=key)
        elif kind in ('polyline', 'polygon'):
            real = getattr(scene, kind)(points, self.style, user_data=key)
        elif kind == 'text':
            real = scene.text(points[0], self.text, self.font, user_data=key)
        elif kind == 'circle':
            parameters = {'radius': ch.decimal(.5, 6, 1), 'start': 0, 'stop': 360}
            if ch.chance(30):
                parameters['start'], parameters['stop'] = ch.pick([(0, 90), (30, 200), (300, 40), (180, 360)])
                real = scene.circle(points[0], parameters['radius'], self.style, user_data=key,
                                    start_angle=parameters['start'], stop_angle=parameters['stop'])
            else:
                real = scene.circle(points[0], parameters['radius'], self.style, user_data=key)
        else:
            parameters = {'rx': ch.decimal(1, 6, 1), 'ry': ch.decimal(1, 6, 1), 'angle': ch.pick(self.ellipse_angles)}
            real = scene.ellipse(points[0], parameters['rx'], parameters['ry'], parameters['angle'], self.style,
                                 user_data=key)
        self.new(kind, refs, parameters, key).real = real
        return self.items[-1]

    def add_path_item(self, refs, points, pieces, plain, key):
        from Patro.GeometryEngine.Path import Path2D
        from Patro.GraphicEngine.GraphicScene import GraphicItem
        if plain:
            target = Path2D(points[0])
            kwargs = {'absolute': True}
        else:
            target = self.scene.add_item(GraphicItem.PathItem, points[0], self.style, user_data=key)
            kwargs = {}
        i = 1
        for degree in pieces:
            getattr(target, ('line_to', 'quadratic_to', 'cubic_to')[degree - 1])(*points[i:i + degree], **kwargs)
            i += degree
        if plain:
            real = self.scene.add_path(target, self.style, user_data=key, as_segments=False)
        else:
            real = target
        self.new('path-item', refs, {'pieces': pieces}, key).real = real
        return self.items[-1]

    def add_geometry(self, refs):
        from Patro.GeometryEngine import Bezier, Conic, Polygon, Polyline, Rectangle, Segment, Triangle
        kind = self.ch.pick(self.geometries)
        n = {'circle': 1, 'segment': 2, 'rectangle': 2, 'cubic': 4}.get(kind, 3)
        refs = list(refs)
        while len(refs) < n:
            x, y = refs[-1]
            refs.append((round(x + 1.1, 1), round(y + len(refs) * .9, 1)))
        refs = refs[:n]
        points = [self.V(*p) for p in refs]
        parameters = {}
        if kind == 'circle':
            parameters = {'radius': 2.5, 'start': 0, 'stop': 360}
            geometry = Conic.Circle2D(points[0], 2.5)
            # a circle takes its center from `points`
            if not hasattr(geometry, 'points'):
                return None
        else:
            cls = {'segment': Segment.Segment2D, 'polyline': Polyline.Polyline2D, 'polygon': Polygon.Polygon2D,
                   'triangle': Triangle.Triangle2D, 'rectangle': Rectangle.Rectangle2D,
                   'quadratic': Bezier.QuadraticBezier2D, 'cubic': Bezier.CubicBezier2D}[kind]
            geometry = cls(*points)
        self.data.append(geometry)
        real = self.scene.add_geometry(geometry, self.style)
        item = self.new({'triangle': 'polygon'}.get(kind, kind), refs, parameters, geometry)
        item.real = real
        return item

    def indexed(self, item):
        item.shape = self.current_shape(item)
        item.stale = False

    def update(self):
        """Update the index; fails when a coordinate is missing."""
        missing = [item for item in self.items if not self.resolvable(item)]
        try:
            self.scene.update_rtree()
        except KeyError:
            self.ctx.check(missing, 'update-failed', 'no coordinate is missing')
            self.ctx.fault('failed-update')
            self.ctx.event('update failed')
            return False
        self.ctx.check(not missing, 'missing-coordinate-accepted', missing)
        for item in self.items:
            if item.stale and item.real.dirty is False:
                self.indexed(item)
        self.ctx.event('update')
        return True

    # ------------------------------------------------------------ checks

    def static_check(self):
        ctx, scene = self.ctx, self.scene
        ctx.check([x for x in scene] == [i.real for i in self.items], 'items', 'iteration')
        ctx.equal(len(scene), len(self.items), 'items', 'number')
        expected = [i for z in sorted({i.z for i in self.items}) for i in self.items if i.z == z and i.visible]
        got = list(scene.z_value_iter())
        ctx.check(len(got) == len(expected) and all(a is b.real for a, b in zip(got, expected)), 'z-order',
                  lambda: '{} / {}'.format(got, expected))
        got = scene.selected_items
        expected = [i for i in self.items if i.selected]
        ctx.check(len(got) == len(expected) and all(a is b.real for a, b in zip(got, expected)), 'selected', expected)
        for data in self.data:
            got = scene.item_for_user_data(data) or []
            expected = [i for i in self.items if i.key is data]
            ctx.check(len(got) == len(expected) and all(any(a is b.real for b in expected) for a in got),
                      'item-for-user-data', lambda: '{}: got {}, expected {}'.format(data, got, expected))
        ctx.equal(sorted(c.name for c in scene.coordinates), sorted(self.coordinates), 'coordinates')
        for name, p in self.coordinates.items():
            v = scene.coordinate(name).position
            ctx.equal((float(v.x), float(v.y)), p, 'coordinates', name)

    def query(self):
        """A query as (function, check of its result)."""
        ch = self.ch
        kind = ch.pick(['at', 'at', 'box'])
        settled = [i for i in self.items if not i.stale]
        if settled and ch.chance(70):
            # near an item
            shape = ch.pick(settled).shape
            x, y = ch.pick(shape.samples())
            p = (round(x + ch.decimal(-.6, .6), 3), round(y + ch.decimal(-.6, .6), 3))
        elif self.removed and ch.chance(60):
            p = ch.pick(ch.pick(self.removed).samples())
        else:
            p = self.map(self.point())
        r = ch.pick([.1, .5, 1, 3, 10])
        if kind == 'at':
            def function():
                return self.scene.item_at(self.V(*p), r)
            return function, lambda result, where: self.check_at(p, r, result, where)
        w, h = ch.pick([.2, 1, 5, 20]), ch.pick([.2, 1, 5, 20])
        box = (p[0] - w, p[1] - h, p[0] + w, p[1] + h)

        def function():
            return self.scene.item_in_bounding_box(box)
        return function, lambda result, where: self.check_box(box, result, where)

    def by_real(self, real):
        for item in self.items:
            if item.real is real:
                return item
        return None

    def check_at(self, p, radius, result, where):
        ctx = self.ctx
        ctx.probe('item-at')
        found = {}
        last = 0
        for d, real in result:
            item = self.by_real(real)
            ctx.check(item is not None, 'removed-item-found', lambda: '{} {}: {}'.format(where, p, real))
            ctx.check(item.number not in found, 'item-found-twice', lambda: '{} {}: {}'.format(where, p, item))
            d = float(d)
            ctx.check(d >= last - 1e-9, 'not-sorted-by-distance', lambda: '{} {}: {}'.format(where, p, result))
            ctx.check(d <= radius, 'item-too-far', lambda: '{} {}: {} at {}'.format(where, p, item, d))
            last = d
            found[item.number] = d
        for item in self.items:
            if item.stale or not item.visible or item.kind not in geom.Shape.pickable:
                continue
            expected = item.shape.distance(p)
            if expected <= radius - TOL:
                ctx.check(item.number in found, 'item-not-found',
                          lambda: '{}: {} is at {} of {} (radius {})'.format(where, item, expected, p, radius))
                ctx.probe('item-picked')
            elif expected > radius + TOL:
                ctx.check(item.number not in found, 'item-too-far',
                          lambda: '{}: {} is at {} of {} (radius {})'.format(where, item, expected, p, radius))
            if item.number in found:
                ctx.check(abs(found[item.number] - expected) < TOL, 'wrong-distance',
                          lambda: '{}: {} is at {} of {}, got {}'.format(where, item, expected, p, found[item.number]))

    def check_box(self, box, result, where):
        ctx = self.ctx
        ctx.probe('item-in-box')
        found = set()
        for real in result or ():
            item = self.by_real(real)
            ctx.check(item is not None, 'removed-item-found', lambda: '{} {}: {}'.format(where, box, real))
            ctx.check(item.number not in found, 'item-found-twice', lambda: '{} {}: {}'.format(where, box, item))
            found.add(item.number)
        for item in self.items:
            if item.stale or not item.visible:
                continue
            if any(geom.inside(box, p, TOL) for p in item.shape.samples()):
                ctx.check(item.number in found, 'item-not-found', lambda: '{}: {} is in {}'.format(where, item, box))
            elif not geom.boxes_overlap(item.shape.outer_box(), box, TOL):
                ctx.check(item.number not in found, 'item-too-far',
                          lambda: '{}: {} is out of {}'.format(where, item, box))
