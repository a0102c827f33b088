"""C13: rooms keep to their cells and turn as one piece."""
import random

from lib import rooms as R

RULE = """A case is one shipped room class in one variant, built at a random position in every orientation (several
instances alive at once) and compared with the same room unturned at another position: reserved cells, doorways,
entities and voxels must be the turned and moved ones, voxels must lie in reserved cells, and each doorway must lead
outwards. Non-trivial always; distinct by room, variant, position and orientation."""


# entity types that point somewhere, and the place of their yaw
YAW = {2: 1, 13: 0}
# teams of the flags in rooms facing east, north, west, south
TEAMS = [3, 1, 4, 2]
FLAGROOMS = ('castle_flag_room', 'station_flagroom')


def run(ctx):
    from redeclipse.prefabs import Room
    from redeclipse.prefabs.magica import MagicaRoom
    from redeclipse.vector import CoarseVector, FineVector
    from redeclipse.vector.orientations import EAST, NORTH, SOUTH, WEST
    from redeclipse.voxel import VoxelWorld
    ctx.need('rooms', 'rendered', 'doorways', 'entities', 'turned voxels compared', 'random rooms', 'model rooms',
             'rooms with variants', 'directed entities', 'flags', 'places at the edges of the map',
             'own rooms', 'moved rooms', 'asked for its doorways first')

    def attrs(e):
        a = [getattr(x, 'value', x) for x in e.attrs]
        if e.type.value == 1:       # the colour of a light depends on where it is
            a[1:4] = []
        elif e.type.value == 3:     # which way a player looks at first is left open
            a[1:2] = []
        elif e.type.value in YAW:
            a[YAW[e.type.value]] %= 360
            ctx.count('directed entities')
        elif e.type.value == 14:
            ctx.count('flags')
        return tuple(a) + (tuple(e.links), tuple(e.reserved))

    def turn_attrs(typ, a, k):
        a = list(a)
        if typ in YAW:
            a[YAW[typ]] = (a[YAW[typ]] + 90 * k) % 360
        elif typ == 14 and a[0] in TEAMS:
            a[0] = TEAMS[(TEAMS.index(a[0]) + k) % 4]
        return tuple(a)

    def look(c, pos, k, flags, seed, part=False):
        """everything observable of one rendering, or (much faster) all but the voxels"""
        who = '%s%s at %s orientation %d' % (c.__name__, '' if flags is None else list(flags), pos, k)
        random.seed(seed)
        room = R.make(c, pos, k, flags)
        base = R.ints(room.pos)
        shift = tuple(a - b for a, b in zip(base, pos))

        def cells():
            out = [R.ints(q) for q in room.get_positions()]
            ctx.check(None not in out, '%s reserves a fractional cell' % who)
            ctx.check(len(set(out)) == len(out), '%s reserves a cell twice' % who)
            return out

        def doors():
            out = []
            for d in room.get_doorways():
                p, o = R.ints(d['offset']), R.ints(d['orientation'])
                ctx.check(p is not None and o in ((1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0)),
                          '%s has a doorway %r' % (who, d))
                out.append((p, o))
            return out
        if (int(seed * 1e6) + k) % 2:   # whichever is asked for first
            ce, do = cells(), doors()
        else:
            do, ce = doors(), cells()
            ctx.count('asked for its doorways first')
        ctx.check(ce and do, '%s has no cells or no doorways' % who)
        w = VoxelWorld(size=256)
        m = R.fresh_map()
        random.seed(seed)
        model = getattr(getattr(room, 'vox', None), 'world', None)
        if part and isinstance(model, dict):
            for p in list(model)[20:]:
                del model[p]
        room.render(w, m)
        ctx.check(R.ints(room.pos) == base, '%s moved while it was rendered' % who)
        ctx.check(sorted(cells()) == sorted(ce) and sorted(doors()) == sorted(do),
                  '%s changed its cells or doorways by being rendered' % who)
        vox = {}
        for p, cube in w.world.items():
            i = R.ints(p)
            ctx.check(i is not None, '%s paints between the grid points: %r' % (who, p))
            vox[i] = tuple(cube.texture)
        out = {tuple(q // 8 for q in v) for v in vox} - set(ce)
        ctx.check(not out, '%s paints in cells it does not reserve: %s' % (who, sorted(out)[:5]))
        for p, o in do:
            ctx.check(p not in ce, '%s: the doorway at %s is in a reserved cell' % (who, p))
            inner = tuple(a - b for a, b in zip(p, o))
            ctx.check(inner in ce, '%s: behind the doorway at %s facing %s there is no reserved cell' % (who, p, o))
            ctx.count('doorways')
        ents = [(e.type.value, (e.o.x / 4, e.o.y / 4, e.o.z / 4), attrs(e)) for e in m.ents]
        ctx.count('rendered')
        ctx.count('entities', len(ents))
        return dict(shift=shift, base=base, cells=ce, doors=do, vox=vox, ents=ents, who=who)

    def relative(s):
        b = s['base']
        fb = tuple(8 * q for q in b)
        return dict(
            cells={tuple(p - q for p, q in zip(c, b)) for c in s['cells']},
            doors={(tuple(p - q for p, q in zip(d, b)), o) for d, o in s['doors']},
            vox={tuple(p - q for p, q in zip(v, fb)): t for v, t in s['vox'].items()},
            ents=[(n, tuple(p - q for p, q in zip(e, fb)), a) for n, e, a in s['ents']])

    def turned(r, k):
        return dict(
            cells={R.turn_cell(c, k) for c in r['cells']},
            doors={(R.turn_cell(d, k), R.turn_cell(o, k)) for d, o in r['doors']},
            vox={R.turn_voxel(v, k): t for v, t in r['vox'].items()},
            ents=[(n, R.turn_fine(e, k), turn_attrs(n, a, k)) for n, e, a in r['ents']])

    def near(a, b):
        """entity lists equal up to order and rounding"""
        def f(x):
            return sorted((n, tuple(round(q * 64) for q in e), a) for n, e, a in x)
        return f(a) == f(b)

    all_rooms = [(c, m) for c, m in R.classes() if c.__name__ != 'TestRoom2']
    for label, rng in ctx.cases('rooms', 1, 12, secs=(240, 280), least=1):
        order = list(all_rooms)
        rng.shuffle(order)
        for c, model in order:
            vs = R.variants(c)
            if len(vs) > 1:
                ctx.count('rooms with variants')
            if ctx.quick and len(vs) > 16:
                vs = rng.sample(vs, 16)
            for flags in vs:
                seed = rng.random()
                ref = look(c, (8, 9, 4), 0, flags, seed)
                other = look(c, (8, 9, 4), 0, flags, rng.random())
                chance = ref['vox'] != other['vox']
                if chance:
                    ctx.count('random rooms')
                rel = relative(ref)
                ks = [0, 1, 2, 3]
                if model and ctx.quick and len(rel['vox']) > 4000:
                    ks = [rng.choice([1, 3]), 2]
                rng.shuffle(ks)
                # bystanders of the same class must not matter
                alive = [R.make(c, tuple(rng.randint(1, 20) for _ in range(3)), rng.randrange(4), flags)
                         for _ in range(2)]
                for k in ks:
                    pos = tuple(rng.choice([rng.randint(0, 24), rng.randint(0, 31), rng.choice([0, 31, 30])]) for _ in range(3))
                    s = look(c, pos, k, flags, seed)
                    alive[0].get_positions()
                    got, want = relative(s), turned(rel, k)
                    ctx.check(s['shift'] == R.turn_cell(ref['shift'], k), '%s: its origin is off' % s['who'],
                              shift=s['shift'], unturned=ref['shift'])
                    for what in ('cells', 'doors'):
                        ctx.check(got[what] == want[what], '%s: the %s are not the turned ones' % (s['who'], what),
                                  missing=sorted(want[what] - got[what])[:6], extra=sorted(got[what] - want[what])[:6])
                    if not chance:
                        ctx.check(got['vox'].keys() == want['vox'].keys(), '%s: the voxels are not the turned ones' % s['who'],
                                  missing=sorted(want['vox'].keys() - got['vox'].keys())[:6],
                                  extra=sorted(got['vox'].keys() - want['vox'].keys())[:6])
                        if c.__name__ not in FLAGROOMS:
                            bad = [v for v, t in got['vox'].items() if t != want['vox'][v]]
                            ctx.check(not bad, '%s: the textures are not the turned ones' % s['who'], at=sorted(bad)[:6])
                        ctx.count('turned voxels compared', len(got['vox']))
                    ctx.check(near(got['ents'], want['ents']), '%s: the entities are not the turned ones' % s['who'],
                              got=sorted(got['ents']), want=sorted(want['ents']))
                    ctx.seen((c.__name__, flags, pos, k))
            # at the edges of the map
            flags = rng.choice(vs)
            rel = relative(look(c, (8, 9, 4), 0, flags, seed))
            corners = [(x, y, z) for x in (0, 31) for y in (0, 31) for z in (0, 31)]
            rng.shuffle(corners)
            corners += [tuple(rng.randint(0, 31) for _ in range(2)) + (rng.randint(16, 31),) for _ in range(4)]
            for i, pos in enumerate(corners):
                s = look(c, pos, i % 4, flags, seed, part=True)
                got, want = relative(s), turned(rel, i % 4)
                for what in ('cells', 'doors'):
                    ctx.check(got[what] == want[what], '%s: the %s are not the turned ones' % (s['who'], what),
                              missing=sorted(want[what] - got[what])[:6], extra=sorted(got[what] - want[what])[:6])
                ctx.check(near(got['ents'], want['ents']), '%s: the entities are not the turned ones' % s['who'],
                          got=sorted(got['ents']), want=sorted(want['ents']))
                ctx.count('places at the edges of the map')
            if model:
                ctx.count('model rooms')
            ctx.count('rooms')
        ctx.sample({'rooms': [c.__name__ for c, m in order[:6]], 'classes': len(order)})
    # rooms of one's own
    for label, rng in ctx.cases('own', 1500, 15000, secs=(12, 60)):
        mine = sorted({tuple(rng.randint(-3, 3) for _ in range(2)) + (rng.randint(-4, 6),) for _ in range(rng.choice([rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 9), 40, 130]))})
        ways = [(tuple(rng.randint(-4, 4) for _ in range(2)) + (rng.randint(-4, 7),), rng.randrange(4))
                for _ in range(rng.choice([rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5), 17, 40, 130]))]
        prints = [(tuple(rng.randint(-9, 16) for _ in range(3)), rng.randint(1, 9)) for _ in range(4)]
        dirs = [EAST, NORTH, WEST, SOUTH]

        class Own(rng.choice([Room, MagicaRoom])):
            name = 'own'

            def _get_positions(self):
                return [CoarseVector(*c) for c in mine]

            def _get_doorways(self):
                return [{'orientation': dirs[d], 'offset': CoarseVector(*p)} for p, d in ways]

            def render(self, world, xmap):
                for p, t in prints:
                    self.x('cube', world, FineVector(*p), tex=t)
        pos = tuple(rng.choice([rng.randint(0, 31), rng.randint(-3, 40)]) for _ in range(3))
        for k in rng.sample(range(4), rng.choice([1, 2, 4])):
            room = R.make(Own, pos, k)
            for _ in range(rng.choice([1, 2, 3])):
                def moved(c):
                    return tuple(a + b for a, b in zip(pos, R.turn_cell(c, k)))
                ctx.equal([R.ints(q) for q in room.get_positions()], [moved(c) for c in mine], 'cells of a room of one\'s own',
                          pos=pos, turned=k)
                ctx.equal([(R.ints(d['offset']), R.ints(d['orientation'])) for d in room.get_doorways()],
                          [(moved(p), R.turn_cell((1, 0, 0), (d + k) % 4)) for p, d in ways], 'doorways of a room of one\'s own',
                          pos=pos, turned=k)
                w = VoxelWorld(size=256)
                room.render(w, None)
                want = {tuple(8 * a + b for a, b in zip(pos, R.turn_voxel(p, k))): t for p, t in prints}
                ctx.equal({R.ints(p): c.texture[0] for p, c in w.world.items()}, want, 'voxels of a room of one\'s own',
                          pos=pos, turned=k)
                if rng.random() < .5:       # the room is moved, or turned
                    if rng.random() < .6:
                        pos = tuple(rng.choice([rng.randint(0, 31), p]) for p in pos)
                        room.pos = CoarseVector(*pos)
                    if rng.random() < .6:
                        k = rng.randrange(4)
                        room.orientation = dirs[k]
                    ctx.count('moved rooms')
            ctx.count('own rooms')
        ctx.seen((mine, ways, pos))

    # rooms of a class get the variants the generator would choose for them
    for label, rng in ctx.cases('chosen', 30, 600, secs=(15, 120)):
        random.seed(rng.random())
        c, _ = rng.choice([x for x in all_rooms if len(R.variants(x[0])) > 1])
        prev = R.make(rng.choice([c, all_rooms[0][0]]), (5, 5, 5), 0)
        for _ in range(3):
            opts = type(prev).randOpts(prev) if isinstance(prev, c) else c.randOpts(prev)
            flags = opts.get('randflags')
            ctx.check(flags is not None and len(flags) == len(c._randflags) and
                      all(isinstance(f, bool) for f in flags), 'randOpts of %s gives %r' % (c.__name__, opts))
            s = look(c, tuple(rng.randint(0, 31) for _ in range(3)), rng.randrange(4), flags, rng.random())
            prev = R.make(c, (5, 5, 5), rng.randrange(4), flags)
            ctx.seen((s['who'],))
