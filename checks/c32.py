"""C32: rooms are what they are asked to be."""
import itertools
import random

from lib import layout as L, rooms as R

RULE = """A case is one shipped room in one variant, orientation and place, rendered among other rooms of its class with
other options and judged on the features its options name (turned back to face east); or one room of a class with
options made for the test. Non-trivial always; distinct by class, variant, orientation and look."""

NAMES = {1: 'light', 2: 'map model', 3: 'player start', 8: 'sunlight', 9: 'weapon', 13: 'pusher', 14: 'flag'}
# entities besides lights
CONTENT = {
    'SpawnRoom': [{'player start': 1}], 'spawn_room': [{'player start': 1}],
    'castle_flag_room': [{'flag': 1}], 'station_flagroom': [{'flag': 1}],
    'station_endcap': [{'player start': 1}, {'weapon': 1}],
    'JumpCorridor3': [{'pusher': 2}], 'JumpCorridorVertical': [{'pusher': 2}],
    'JumpCorridorVerticalCenter': [{'pusher': 1}], 'station_tube_jumpx': [{'pusher': 1}],
}
DARK = ('TestRoom', 'TestRoom2')
RANDOM = ('PoleRoom', 'DigitalRoom', 'ImposingBlockRoom')


def box(x, y, z):
    return set(itertools.product(x, y, z))


def border(low, high, z):
    r = range(low, high + 1)
    return {(x, y, z) for x in r for y in r if x in (low, high) or y in (low, high)}


CELL = range(8)
LARGE = range(-8, 16)


class Look:
    """A rendered room, turned so that it faces east, its own cell at the origin."""

    def __init__(self, room, k, vox, ents):
        back = (4 - k) % 4
        at = R.ints(room.pos)
        self.vox = {R.turn_voxel(tuple(a - 8 * b for a, b in zip(v, at)), back) for v in vox}
        self.cells = {R.turn_cell(L.sub(R.ints(p), at), back) for p in room.get_positions()}
        self.doors = sorted((R.turn_cell(L.sub(R.ints(d['offset']), at), back), R.turn_cell(R.ints(d['orientation']), back))
                            for d in room.get_doorways())
        self.ents = {}
        self.lights, self.pushers = [], []
        for e in ents:
            p = R.turn_fine(tuple(c / 4 - 8 * b for c, b in zip((e.o.x, e.o.y, e.o.z), at)), back)
            if e.type.value == 1:
                self.lights.append(p)
            elif e.type.value == 13:
                yaw, pitch, force = e.attrs[:3]
                self.pushers.append((p, (yaw - 90 * k) % 360, pitch, force))
        for e in ents:
            n = NAMES.get(e.type.value, 'entity %d' % e.type.value)
            self.ents[n] = self.ents.get(n, 0) + 1

    def levels(self):
        return len({z for x, y, z in self.cells})

    def has(self, region):
        """True if all of the region is solid, False if all of it is empty, else how much of it is solid"""
        n = len(region & self.vox)
        return True if n == len(region) else False if not n else n / len(region)


def features(name, f, look):
    """[(feature, what the room shows, what it was asked for)]"""
    top = 8 * look.levels() - 1
    has = look.has
    if name == 'NLongCorridor':
        n = 1 + 2 * f[0] + f[1]
        yield 'cells', look.cells, {(i, 0, 0) for i in range(n)}
        yield 'doorways', look.doors, [((-1, 0, 0), (-1, 0, 0)), ((n, 0, 0), (1, 0, 0))]
        yield 'floor', has(box(range(8 * n), CELL, [0])), True
        yield 'low walls', has(box(range(8 * n), (0, 7), (1, 2))), True
    if name == 'Corridor2way':
        yield 'ceiling', has(box(CELL, CELL, [7])), f[0]
        yield 'low walls', has(box(CELL, (0, 7), (1, 2))), f[1]
        yield 'way through', has(box(CELL, range(1, 7), range(1, 7))), False
    if name == 'Corridor4way':
        yield 'ceiling', has(box(CELL, CELL, [7]) - box((0, 7), (0, 7), [7])), f[0]
        if not (f[1] and f[2]):
            yield 'lower half of the columns', has(box((0, 7), (0, 7), (1, 2))), f[1] or f[2]
            yield 'upper half of the columns', has(box((0, 7), (0, 7), (4, 5, 6))), f[1]
            yield 'sides', has(box(range(1, 7), CELL, range(1, 7)) | box(CELL, range(1, 7), range(1, 7))), False
    if name == 'JumpCorridorVerticalCenter':
        n = 4 if f[0] else 3
        yield 'cells', look.cells, {(0, 0, i) for i in range(n)}
        yield 'levels of the doorways', sorted(p[2] for p, o in look.doors), [0] * 4 + [n - 1] * 4
        for i in range(1, n - 1):
            yield 'walls of level %d' % i, has(box(CELL, CELL, range(8 * i + 1, 8 * i + 7)) -
                                              box(range(1, 7), range(1, 7), range(8 * i, 8 * i + 8))), True
    if name == 'SpawnRoom':
        yield 'doorways', [o for p, o in look.doors], [(-1, 0, 0), (1, 0, 0)] if f[0] else [(1, 0, 0)]
        yield 'back wall', has(box([0], range(1, 7), range(1, 7))), not f[0]
        yield 'side walls', has(box(CELL, (0, 7), range(1, 7))), True
    if name in ('PoleRoom', 'ImposingBlockRoom', 'ImposingRingRoom', 'DigitalRoom'):
        yield 'levels', look.levels(), 2 if f[1] else 1
    if name == 'PoleRoom':
        yield 'ceiling', has(box(LARGE, LARGE, [15])), f[1]
    if name in ('ImposingBlockRoom', 'ImposingRingRoom'):
        # the gaps of the rings reach into a low ceiling
        gaps = set() if name != 'ImposingRingRoom' else box((-4, -3, -2, 9, 10, 11), range(2, 6), [top]) | box(
            range(2, 6), (-4, -3, -2, 9, 10, 11), [top])
        yield 'ceiling', has(box(LARGE, LARGE, [top]) - gaps), f[0]
    if name == 'ImposingBlockRoom':
        for x, y in itertools.product((-5, 7), (-5, 7)):
            size = []
            for d in range(3):
                n = 0
                while tuple(a + (n if i == d else 0) for i, a in enumerate((x, y, 1))) in look.vox and n < (9 if d < 2 else top - 1):
                    n += 1
                size.append(n)
            size[2] += 1
            yield 'block', has(box(range(x, x + size[0]), range(y, y + size[1]), range(1, size[2]))), True
            if f[2]:
                yield 'block of 4 to 7 voxels', all(4 <= n <= 7 for n in size), True
            else:
                yield 'block', size, [6, 6, 6]
    if name == 'ImposingRingRoom':
        yield 'inner rings beside the outer ones', [bool(border(-2, 9, z) & look.vox) for z in range(1, top, 2)], [f[4] and not f[2]] * len(range(1, top, 2))
        yield 'inner rings between the outer ones', [bool(border(-2, 9, z) & look.vox) for z in range(2, top, 2)], [f[4] and f[2]] * len(range(2, top, 2))
        spots = {(2, 3), (4, 2), (3, 5), (5, 4)}
        yield 'centre pillar', has({(x, y, z) for x, y in spots for z in range(1, top)}), f[3]
        yield 'rest of the centre', has({(x, y, z) for x, y, z in box(range(2, 6), range(2, 6), range(1, top))
                                        if (x, y) not in spots}), False
        yield 'corner columns', has(box((-8, 15), (-8, 15), range(1, top))), True
    if name == 'AltarRoom':
        yield 'tree', look.ents.get('map model', 0), 1 if f[0] else 0
        rings = border(-2, 9, 11) | border(-4, 11, 10) | border(-6, 13, 9) | border(-8, 15, 8)
        yield 'rings', has(rings - box((-8, 15), (-8, 15), [8])), f[1]
        yield 'columns', has(box((-8, 15), (-8, 15), range(1, 8))), f[2]
    if name == 'CrossingWalkways':
        n = 3 if f[0] else 2
        yield 'levels', look.levels(), n
        yield 'levels of the doorways', sorted(p[2] for p, o in look.doors), [0, 0, 1, 1] + [2, 2] * f[0]
        yield 'upper walkway', has(box(CELL, LARGE, [16])), f[0]
        yield 'middle walkway', has(box(LARGE, CELL, [8])), True
        yield 'lower walkway', has(box(CELL, LARGE, [0])), True
        yield 'lights', look.ents.get('light'), n
    if name == 'MultiPlatform':
        yield 'floor', has(box(LARGE, LARGE, [0])), f[0]
    if name == 'DigitalRoom':
        n = float(has(box(LARGE, LARGE, [top])))
        yield 'dense ceiling', n > .5, f[2]
        n = float(has(box([-8, 15], LARGE, range(8, 15)) if f[1] else
                      box([-8, 15], list(range(-8, 0)) + list(range(8, 16)), range(2, 7))))
        yield 'dense walls', n > .5, f[2]


def pushes(name, f, look):
    """[(what, has, wants)] of the pushers; yaw 270 is east, 90 is west"""
    ps = sorted(look.pushers)
    if name == 'JumpCorridor3':
        (a, yaw, up, force), (b, back, up2, force2) = ps
        yield 'its pushers push towards each other', (yaw, back), (270, 90)
        yield 'its pushers stand on both sides of its gap', a[0] < 8 and b[0] >= 16, True
        yield 'its pushers push alike', (up2, force2), (up, force)
        yield 'its pushers push upwards', 0 < up < 90, True
    if name == 'JumpCorridorVertical':
        (a, yaw, up, _), (b, back, up2, _) = sorted(ps, key=lambda p: p[0][2])
        yield 'its lower pusher pushes steeply up', 45 < up <= 90, True
        yield 'its upper pusher pushes out to the west', (back, 0 < up2 <= 45), (90, True)
        yield 'its pushers stand on its lowest and highest level', a[2] < 8 and 16 <= b[2] < 24, True
    if name in ('JumpCorridorVerticalCenter', 'station_tube_jumpx'):
        yield 'its pusher pushes straight up', ps[0][2], 90


# voxels of the walls of a DigitalRoom, by panel
PANELS = [(x, y, z) for x in (-8, 15) for y in (-8, 0, 8) for z in (0, 8)]


def panels(look):
    """[(panel, filled voxels, voxels)]"""
    top = look.levels()
    for (x, y, z), turned in itertools.product(PANELS, (False, True)):
        if y == 0 and z == 0 or z >= 8 * top:
            continue
        p = box([x], range(y + 1, y + 7), range(z + 2, z + 7))
        if turned:
            p = {(b, a, c) for a, b, c in p}
        yield (x, y, z, turned), len(p & look.vox), len(p)


# options that add something and change nothing else
ADD = {'Corridor2way': (0, 1), 'Corridor4way': (0,), 'ImposingRingRoom': (0, 3, 4), 'AltarRoom': (0, 1, 2),
       'MultiPlatform': (0,)}


def run(ctx):
    from redeclipse import prefabs as P
    from redeclipse.prefabs.magica import MagicaRoom
    from redeclipse.voxel import VoxelWorld
    from redeclipse.upm import UnusedPositionManager
    ctx.need('features seen', 'features not asked for', 'rooms with options', 'rooms without options', 'random content',
             'rooms made for the test', 'added feature', 'several rooms of a kind in one map', 'same room again', 'rooms rendered into a map of others', 'room of the default variant',
             'pushers aimed', 'lights beside poles', 'walls weighed')

    common = R.fresh_map()

    def render(room):
        w = VoxelWorld(size=256)
        # every other one into a map that holds other rooms' entities
        m = rng.choice([common, R.fresh_map()])
        n = len(m.ents)
        room.render(w, m)
        ctx.count('rooms rendered into a map of others', n > 0)
        vox = {R.ints(p) for p in w.world}
        ctx.check(None not in vox, 'voxels between the grid points')
        return vox, m.ents[n:]

    def content(c, look, who):
        got = {n: k for n, k in look.ents.items() if n != 'light'}
        if c.__name__ not in DARK:
            ctx.check(look.ents.get('light', 0) >= 1, '%s has no light' % who)
        if c.__name__ == 'AltarRoom' or c.__name__ in DARK:
            return
        ctx.check(got in CONTENT.get(c.__name__, [{}]), '%s holds %r' % (who, got))
        if c.__name__ in CONTENT:
            ctx.count('content')
        if len(CONTENT.get(c.__name__, ())) > 1:
            ctx.count('random content')

    shipped = [c for c, m in R.classes()]
    walls = {}
    for label, rng in ctx.cases('rooms', 3, 40, secs=(60, 200), least=1):
        todo = []
        for c in shipped:
            vs = R.variants(c)
            for flags in vs:
                todo.append((c, flags, rng.randrange(4), R.anywhere(rng)))
            if vs != [None]:
                # one that is left to the class, and its variants in other places
                todo.append((c, None, rng.randrange(4), R.anywhere(rng)))
                todo.append((c, rng.choice(vs), rng.randrange(4), R.anywhere(rng)))
            if len(CONTENT.get(c.__name__, ())) > 1:
                todo += [(c, None, rng.randrange(4), R.anywhere(rng)) for _ in range(30)]
        rng.shuffle(todo)
        default = {c: tuple(getattr(c, '_randflags', ())) for c in shipped}
        made = []
        random.seed(rng.random())
        for c, flags, k, pos in todo:
            if flags is not None and rng.random() < .2:
                flags = list(flags)
            elif flags is not None and rng.random() < .3:
                flags = tuple(flags)
            made.append(R.make(c, pos, k, flags, True))
        # rooms made later and options drawn later do not change them
        for c, flags, k, pos in rng.sample(todo, 40):
            prev = rng.choice(made)
            c.randOpts(prev)
            if hasattr(prev, '_randflags'):
                type(prev).randOpts(prev)
            R.make(c, pos, k, flags)
        for c in shipped:
            ctx.equal(tuple(getattr(c, '_randflags', ())), default[c], 'making rooms changes the options of %s' % c.__name__)
        looks, forces = {}, {}
        order = list(range(len(made)))
        rng.shuffle(order)
        for i in order:
            c, flags, k, pos = todo[i]
            who = '%s%s orientation %d' % (c.__name__, '' if flags is None else list(flags), k)
            look = Look(made[i], k, *render(made[i]))
            given = flags
            if flags is None:
                flags = default[c] or None
                ctx.count('room of the default variant', bool(flags))
            content(c, look, who)
            for what, got, want in pushes(c.__name__, flags, look):
                ctx.check(got == want, '%s: %s: %r instead of %r' % (who, what, got, want), given=given, pos=pos)
                ctx.count('pushers aimed')
            if c.__name__ == 'JumpCorridorVerticalCenter':
                forces.setdefault(bool(flags[0]), set()).add(look.pushers[0][3])
            ctx.seen((c.__name__, flags, k, sorted(look.vox)))
            ctx.count('rooms without options' if flags is None else 'rooms with options')
            if rng.random() < .3:       # another one beside it, in the same map
                at = tuple(a + d for a, d in zip(pos, rng.choice([(3, 0, 0), (0, -5, 0), (-4, 4, 0), (0, 0, 0)])))
                m = R.fresh_map()
                for p in (pos, at, at):
                    n = len(m.ents)
                    twin = R.make(c, p, k, given, True)
                    twin.render(VoxelWorld(size=256), m)
                    content(c, Look(twin, k, (), m.ents[n:]), who + ' in one map with others of its kind')
                ctx.count('several rooms of a kind in one map')
            if flags is None:
                continue
            flags = tuple(bool(a) for a in flags)
            if c.__name__ == 'DigitalRoom':
                for p, n, of in panels(look):
                    a = walls.setdefault((flags[1:], p), [0, 0])
                    a[0] += n
                    a[1] += of
            for what, got, want in features(c.__name__, flags, look):
                ctx.check(got == want, '%s: %s: %r instead of %r' % (who, what, got, want), given=given, pos=pos)
                ctx.count('features seen' if want else 'features not asked for')
            if c.__name__ in RANDOM:
                continue
            # the same options, the same room
            key = (sorted(look.cells), look.doors, sorted(look.vox), sorted(look.ents.items()))
            if (c, flags) in looks:
                ctx.check(looks[c, flags][0] == key, '%s: two rooms with the same options differ' % who, pos=pos)
                ctx.count('same room again')
            looks[c, flags] = key, look
        for (c, flags), (key, look) in looks.items():
            for i in ADD.get(c.__name__, ()):
                if not flags[i] or (c, flags[:i] + (False,) + flags[i + 1:]) not in looks:
                    continue
                less = looks[c, flags[:i] + (False,) + flags[i + 1:]][1]
                ctx.check(less.vox <= look.vox and less.cells == look.cells and less.doors == look.doors,
                          '%s%s: leaving option %d out changes more than that' % (c.__name__, list(flags), i))
                ctx.count('added feature')
        ctx.check(len(forces[False]) == len(forces[True]) == 1 and max(forces[False]) < min(forces[True]),
                  'the pusher of a higher JumpCorridorVerticalCenter is not the stronger one: %s' % forces)
        ctx.sample({'rooms': len(made), 'first': [(c.__name__, f, k) for c, f, k, p in todo[:4]]})

    # rooms with random content, many times
    for label, rng in ctx.cases('random', 260, 1500, secs=(40, 120), least=150):
        random.seed(rng.random())
        c = rng.choice([P.PoleRoom, P.PoleRoom, P.DigitalRoom])
        flags = rng.choice(R.variants(c))
        k, pos = rng.randrange(4), R.anywhere(rng)
        look = Look(R.make(c, pos, k, flags, True), k, *render(R.make(c, pos, k, flags, True)))
        if c is P.PoleRoom:
            for p in look.lights:
                ctx.check(tuple(int(q // 1) for q in p) not in look.vox, 'a pole of the PoleRoom%s stands in its light at %s'
                          % (list(flags), p), pos=pos, orientation=k)
                ctx.count('lights beside poles')
        else:
            for p, n, of in panels(look):
                a = walls.setdefault((tuple(bool(f) for f in flags)[1:], p), [0, 0])
                a[0] += n
                a[1] += of
        ctx.seen((c.__name__, flags, k, sorted(look.vox)))
    for ((tall, dense), p), (n, of) in walls.items():
        if of >= 300:
            ctx.check((n > of * .5) == bool(dense), 'the wall %s of a DigitalRoom (tall: %s, dense: %s) has %d of its %d voxels'
                      % (p, tall, dense, n, of))
            ctx.count('walls weighed')

    bases = [P.Room, P._3X3Room, P._LargeRoom, MagicaRoom, P.TestRoom, P.Corridor2way, P.Corridor4way, P.PoleRoom,
             P.AltarRoom, P.Stair, P.SpawnRoom, P.JumpCorridor3]
    for label, rng in ctx.cases('own', 60, 600, secs=(10, 40), least=10):
        base = rng.choice(bases)
        n = max(len(getattr(base, '_randflags', ())), rng.randint(1, 6))
        defaults = tuple(rng.random() < .5 for _ in range(n))

        class Own(base):
            _randflags = defaults
            vox_file = None

            def _get_positions(self):
                from redeclipse.vector import CoarseVector as C
                return [C(0, 0, 0)]

            def _get_doorways(self):
                from redeclipse.vector import CoarseVector as C
                return [{'offset': C(1, 0, 0), 'orientation': C(1, 0, 0)}, {'offset': C(-1, 0, 0), 'orientation': C(-1, 0, 0)}]

        made = []
        for _ in range(rng.randint(2, 6)):
            f = None if rng.random() < .3 else [rng.random() < .5 for _ in range(n)]
            f = tuple(f) if f and rng.random() < .4 else f
            made.append((f, R.make(Own, (rng.randint(4, 20), 4, 4), rng.randrange(4), f, True)))
        for f, r in made:
            ctx.equal([bool(a) for a in r._randflags], list(defaults) if f is None else list(f), 'the options of a room of a %s'
                      % base.__name__, default=defaults)
            Own.randOpts(r)
        for f, r in made:
            ctx.equal([bool(a) for a in r._randflags], list(defaults) if f is None else list(f), 'the options of a room of a %s '
                      'after drawing those of others' % base.__name__, default=defaults)
        ctx.check(Own._randflags == defaults, 'making rooms changes the default options')
        # options given by the placement reach the room
        random.seed(rng.random())
        u = UnusedPositionManager(256, mirror=1)
        u.register_room(R.make(P.Corridor2way, (10, 10, 10), 0, [True, True]))
        # a model room that names no doorways
        class Bare(MagicaRoom):
            pass
        Bare.vox_file = rng.choice([c for c, m in R.classes() if m]).vox_file
        k, at = rng.randrange(4), R.anywhere(rng)
        ctx.equal(sorted((R.ints(d['offset']), R.ints(d['orientation'])) for d in R.make(Bare, at, k).get_doorways()),
                  sorted((L.add(at, o), o) for o in L.DIRS), 'the doorways of a model room that names none')
        drawn = []
        plain = Own.__dict__.get('randOpts')
        ctx.check(plain is None, 'a class made for the test has its own randOpts')

        def draw(prev):
            got = super(Own, Own).randOpts(prev)
            drawn.append([bool(a) for a in got['randflags']])
            return got
        Own.randOpts = staticmethod(draw)
        u.place_rooms(False, [Own], rooms=6)
        for r in u.rooms[1:]:
            ctx.check([bool(a) for a in r._randflags] in drawn, 'a placed room has options that were not drawn for it',
                      has=r._randflags, drawn=drawn)
            ctx.count('placed with drawn options')
        ctx.count('rooms made for the test', len(made))
        ctx.seen((base.__name__, defaults, [f for f, r in made]))
