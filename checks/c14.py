"""C14: placed rooms never overlap, never leave the map and are all accounted for."""
import random

from lib import layout as L, rooms as R

RULE = """A case is a history of placeability queries, registrations (also refused ones) and automatic placement steps
over a random set of rooms (generated shapes, variants, shipped rooms) in mirror mode 1, 2 or 4; after every call the
rooms, the occupancy table and the list of open doorways are compared with each other and with an independent model.
Non-trivial when at least two rooms were registered; distinct by the final layout and history."""


def run(ctx):
    from redeclipse import prefabs
    from redeclipse.upm import UnusedPositionManager
    ctx.need('asked at the same place again', 'vast layouts', 'states checked', 'placeable', 'not placeable', 'refused registrations', 'placement steps',
             'mirror 1', 'mirror 2', 'mirror 4', 'given up', 'near the edge',
             'near the centre', 'bent rooms placeable', 'bent rooms not placeable', 'rooms without cells',
             'doorways above or below')

    def invariant(u, given_up, hist):
        occ = {}
        for r in u.rooms:
            for c in L.cells(r):
                ctx.check(c not in occ, 'two registered rooms share the cell %s' % (c,), history=hist[-6:])
                occ[c] = r
        got = {}
        for p, r in u.occupied.items():
            got[R.ints(p)] = r
        ctx.check(len(got) == len(u.occupied), 'a cell is in the occupancy table twice', history=hist[-6:])
        ctx.equal(sorted(got), sorted(occ), 'the occupancy table does not hold the cells of the rooms',
                  history=hist[-6:])
        for c in occ:
            ctx.check(got[c] is occ[c], 'the occupancy table names another room for %s' % (c,), history=hist[-6:])
        want = L.minus(L.open_doors(u, occ), given_up)
        have = L.listed_doors(u)
        ctx.check(have == want, 'the open doorways are not those of the rooms', history=hist[-6:],
                  extra=L.minus(have, want)[:5], missing=L.minus(want, have)[:5])
        ctx.count('states checked')
        return occ

    def snapshot(u):
        return ([id(r) for r in u.rooms], [L.placed(r) for r in u.rooms],
                [(R.ints(p), id(r)) for p, r in u.occupied.items()],
                [(R.ints(p), id(r), R.ints(o)) for p, r, o in u.unoccupied],
                [tuple(map(R.ints, ab)) for ab in u.links])

    for label, rng in ctx.cases('history', 1200, 15000, secs=(50, 280)):
        random.seed(rng.random())
        mirror = rng.choice([1, 2, 4])
        u = UnusedPositionManager(rng.choice([32, 256]), mirror=mirror)
        pool = L.room_set(rng) + [L.gen_class(rng, 'Extra')]
        if rng.random() < .5:
            pool.append(L.gen_class(rng, 'Turns', flags=True, small=True))
        last = None
        ctx.count('mirror %d' % mirror)
        hist = []
        given = []
        occ = invariant(u, given, hist)
        edge = rng.random() < .4
        for step in range(rng.randint(6, 22)):
            op = rng.choice(['ask', 'ask', 'register', 'register', 'place', 'place', 'force'])
            if op in ('ask', 'register', 'force'):
                cls = rng.choice(pool)
                if u.unoccupied and rng.random() < .5:
                    near = R.ints(rng.choice(u.unoccupied)[0])
                    pos = L.add(near, (rng.randint(-2, 2), rng.randint(-2, 2), rng.choice([0, 0, 1, -1])))
                elif edge or rng.random() < .2:
                    pos = tuple(rng.choice([0, 1, 2, 15, 16, 17, 29, 30, 31, 32, -1]) for _ in range(3))
                    ctx.count('near the edge')
                elif rng.random() < .25:    # around the centre, where mirrored copies meet
                    pos = (rng.randint(14, 18), rng.randint(14, 18), rng.randint(2, 29))
                    ctx.count('near the centre')
                else:
                    pos = tuple(rng.randint(0, 31) for _ in range(3))
                k = rng.randrange(4)
                if last and rng.random() < .35:     # another variant of the same room at the same place
                    cls, pos, k = last
                    ctx.count('asked at the same place again')
                last = (cls, pos, k) if len(R.variants(cls)) > 1 or rng.random() < .2 else None
                room = R.make(cls, pos, k, rng.choice(R.variants(cls)))
                me = L.placed(room)
                before = snapshot(u)
                want = L.placeable(room, occ, mirror)
                hist.append((op, me))
                got = u.preregister_room(room)
                ctx.check(bool(got) == want, 'asking whether %s can be placed gives %r' % (me, got),
                          mirror=mirror, history=hist[-8:])
                ctx.check(snapshot(u) == before, 'asking changed the layout', history=hist[-6:])
                ctx.check(L.placed(room) == me, 'asking moved the room')
                ctx.count('placeable' if want else 'not placeable')
                if op == 'ask':
                    continue
                if op == 'register' and want:
                    n = len(u.rooms)
                    u.register_room(room)
                    ctx.equal(len(u.rooms) - n, mirror, 'the number of rooms registered')
                    for r in u.rooms[n:]:
                        ctx.check(all(L.legal(c) for c in L.cells(r)), 'a registered room leaves the map')
                    ctx.check(L.placed(room) == me, 'registering moved the room')
                    # what the registration made of it: exactly the cells of all its turned copies
                    cs = sorted(L.turn(c, k) for c in L.cells(room) for k in L.turns(mirror))
                    ctx.equal(sorted(c for r in u.rooms[n:] for c in L.cells(r)), cs,
                              'the cells of the registered copies', room=me)
                elif op == 'force':
                    cs = [L.turn(c, k) for k in L.turns(mirror) for c in L.cells(room)]
                    clash = any(c in occ for c in cs)
                    if not clash and len(set(cs)) == len(cs):
                        continue
                    ctx.count('copies that overlap each other only', not clash)
                    try:
                        u.register_room(room)
                    except Exception:
                        ctx.count('refused registrations')
                    else:
                        ctx.fail('a room was registered over another one', history=hist[-6:])
                    ctx.check(snapshot(u) == before, 'a refused registration changed the layout', history=hist[-6:])
            else:
                if not u.rooms:
                    continue
                n = rng.choice([1, 1, 2, 5])
                hist.append(('place', n))
                count = len(u.rooms)
                u.place_rooms(False, pool, rooms=n)
                ctx.count('placement steps')
                ctx.count('rooms placed', len(u.rooms) - count)
                # doorways may have been given up; they must have been open ones
                full = L.open_doors(u)
                have = L.listed_doors(u)
                ctx.check(not L.minus(have, full), 'the list of open doorways holds one that is not open',
                          history=hist[-6:], extra=L.minus(have, full)[:5])
                given = L.minus(full, have)
                ctx.count('given up', len(given))
                for r in u.rooms[count:]:
                    ctx.check(all(L.legal(c) for c in L.cells(r)), 'a placed room leaves the map: %s' % (L.placed(r),))
            given = [g for g in given if g in L.open_doors(u)]
            occ = invariant(u, given, hist)
        ctx.seen((mirror, hist, [L.placed(r) for r in u.rooms]), len(u.rooms) > 1)
        ctx.sample({'mirror': mirror, 'rooms': len(u.rooms), 'history': hist[:4]})

    # rooms bent around the centre, so that only some pairs of their copies meet
    for label, rng in ctx.cases('centre', 300, 3000, secs=(10, 60)):
        mirror = rng.choice([2, 4, 4])
        z = rng.randint(1, 30)
        cs = L.unique((rng.randint(13, 19), rng.randint(13, 19), rng.choice([z, z, z + 1])) for _ in range(rng.randint(1, 3)))
        k = rng.choice([0, 1, 2, 2, 3])
        if k:
            cs = L.unique(cs + [L.turn(rng.choice(cs), k)])
        p = (rng.randint(14, 18), rng.randint(14, 18), z)
        from redeclipse.vector import CoarseVector
        face = next((c, d) for c in cs for d in L.DIRS if L.add(c, d) not in cs)

        class Bent(prefabs.Room):
            def _get_positions(self):
                return [CoarseVector(*L.sub(c, p)) for c in cs]

            def _get_doorways(self):
                return [{'offset': CoarseVector(*L.sub(L.add(*face), p)), 'orientation': CoarseVector(*face[1])}]
        room = R.make(Bent, p, 0)
        want = L.placeable(room, {}, mirror)
        u = UnusedPositionManager(rng.choice([256] * 5 + [32, 64, 128, 512]), mirror=mirror)
        got = u.preregister_room(room)
        turned = [L.turn(c, k) for k in L.turns(mirror) for c in cs]
        if len(set(turned)) < len(turned):
            # its copies overlap: none of them is registered
            if rng.random() < .5:
                u.register_room(R.make(prefabs.Room, (3, 3, 3), 0))
            before = snapshot(u)
            try:
                u.register_room(room)
            except Exception:
                ctx.count('copies that overlap each other only')
            else:
                ctx.fail('a room with the cells %s was registered over its own copies' % cs, mirror=mirror)
            ctx.check(snapshot(u) == before, 'a refused registration changed the layout', cells=cs, mirror=mirror)
        ctx.check(bool(got) == want, 'asking whether a room with the cells %s can be placed gives %r' % (cs, got),
                  mirror=mirror)
        ctx.count('bent rooms ' + ('placeable' if want else 'not placeable'))
        ctx.seen((mirror, cs, p))

    # doorways anywhere, above and below the room too, and rooms without cells
    for label, rng in ctx.cases('doorways', 400, 5000, secs=(10, 60)):
        from redeclipse.vector import CoarseVector
        mirror = rng.choice([1, 2, 4])
        u = UnusedPositionManager(256, mirror=mirror)
        hist, occ = [], {}
        for step in range(rng.randint(1, 5)):
            cs = [] if rng.random() < .25 else [(0, 0, 0)] + ([(0, 0, 1)] if rng.random() < .3 else [])
            ds = [(tuple(rng.choice([-2, -1, 0, 1, 2]) for _ in range(3)), rng.choice(L.DIRS))
                  for _ in range(rng.choice([0, 1, 1, 2]))]

            class Odd(prefabs.Room):
                def _get_positions(self, cs=tuple(cs)):
                    return [CoarseVector(*c) for c in cs]

                def _get_doorways(self, ds=tuple(ds)):
                    return [{'offset': CoarseVector(*p), 'orientation': CoarseVector(*o)} for p, o in ds]
            room = R.make(Odd, tuple(rng.choice([0, 1, 2, 15, 16, 17, 29, 30, 31, 31]) for _ in range(3)),
                          rng.randrange(4))
            want = L.placeable(room, occ, mirror)
            got = u.preregister_room(room)
            ctx.check(bool(got) == want, 'asking whether a room with the cells %s and doorways %s can be placed at %s '
                      'gives %r' % (L.cells(room), L.doors(room), R.ints(room.pos), got), mirror=mirror)
            if not want:
                continue
            n = len(u.rooms)
            u.register_room(room)
            ctx.equal(len(u.rooms) - n, mirror, 'the number of rooms registered', cells=cs, doors=ds)
            hist.append((cs, ds, L.placed(room)))
            occ = invariant(u, [], hist)
            ctx.count('rooms without cells', not cs)
            ctx.count('doorways above or below', any(p[2] for p, o in ds))
        ctx.seen((mirror, hist), len(u.rooms) > 1)

    # layouts of very many cells
    for label, rng in ctx.cases('vast', 12, 60, secs=(20, 60)):
        from redeclipse.vector import CoarseVector
        mirror = rng.choice([1, 1, 2, 4])
        u = UnusedPositionManager(rng.choice([256] * 5 + [32, 64, 128, 512]), mirror=mirror)
        occ, goal = {}, rng.choice([1500, 3000, 6000])
        for step in range(60):
            size = [rng.choice([1, 3, 6, 9, 12]) for _ in range(3)]
            doors = [{'offset': CoarseVector(*p), 'orientation': CoarseVector(*d)} for p, d in (
                ((-1, 0, 0), (-1, 0, 0)), ((size[0], 0, 0), (1, 0, 0)), ((0, size[1], 0), (0, 1, 0)))]

            class Vast(prefabs.Room):
                def _get_positions(self, size=tuple(size)):
                    return [CoarseVector(x, y, z) for x in range(size[0]) for y in range(size[1])
                            for z in range(size[2])]

                def _get_doorways(self, doors=doors):
                    return [dict(d) for d in doors]
            room = R.make(Vast, tuple(rng.randint(1, 28) for _ in range(3)), rng.randrange(4))
            want = L.placeable(room, occ, mirror)
            got = u.preregister_room(room)
            ctx.check(bool(got) == want, 'asking whether %s can be placed gives %r' % (L.placed(room), got),
                      mirror=mirror, cells=len(occ))
            if want:
                u.register_room(room)
                occ = invariant(u, [], [(len(occ), L.placed(room))])
            if len(occ) > goal:
                break
        if len(occ) > 1200:
            ctx.count('vast layouts')
        ctx.seen((mirror, sorted(occ)), len(u.rooms) > 1)

    # every cell and its neighbours off the map
    for label, rng in ctx.cases('edge', 1, 1):
        from redeclipse.prefabs import Room
        u = UnusedPositionManager(256)
        for x in range(-2, 35):
            for y in range(-2, 35):
                for z in (-2, -1, 0, 1, 15, 30, 31, 32, 33):
                    for p in ((x, y, z), (x, z, y), (z, x, y)):
                        ctx.check(bool(u.is_legal(R.cards()[0] * 0 + type(R.cards()[0])(*p))) == L.legal(p),
                                  'is %s on the map?' % (p,))
                    ctx.seen((x, y, z))
        for mirror in (1, 2, 4):
            for p in [(0, 5, 5), (31, 5, 5), (5, 0, 5), (5, 31, 5), (5, 5, 0), (5, 5, 31), (1, 5, 5), (30, 5, 5),
                      (5, 1, 5), (5, 30, 5), (16, 16, 5), (16, 15, 5), (15, 16, 5), (2, 2, 2), (1, 1, 1), (30, 30, 31)]:
                u = UnusedPositionManager(rng.choice([256] * 5 + [32, 64, 128, 512]), mirror=mirror)
                r = R.make(Room, p, 0)
                ctx.check(bool(u.preregister_room(r)) == L.placeable(r, {}, mirror),
                          'can a room be placed at %s in mirror mode %d?' % (p, mirror))
