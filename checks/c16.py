"""C16: mirrored layouts are rotationally symmetric."""
import collections
import random

from lib import layout as L, rooms as R

RULE = """A case is a layout grown by registering and automatically placing rooms in mirror mode 1, 2 or 4. After every
call the layout (rooms with kind, variant, position, orientation; links; occupied cells with their owners; open
doorways) is turned by 180 or 90 degrees about the cell (16, 16) and compared with itself. Non-trivial when the mode is
2 or 4 and a room was placed; distinct by final layout."""


def run(ctx):
    from redeclipse.upm import UnusedPositionManager
    ctx.need('mirror 1', 'mirror 2', 'mirror 4', 'symmetric states', 'registered once', 'links turned',
             'rooms off the origin', 'variants', 'given up')

    def bag(x):
        return collections.Counter(x)

    def turn_placed(p, k):
        return p[:2] + (L.turn(p[2], k), (p[3] + k) % 4)

    def judge(u, mirror, given_ok, trace):
        step = {2: 2, 4: 1}[mirror]
        rooms = bag(L.placed(r) for r in u.rooms)
        diff = bag(turn_placed(p, step) for p in rooms.elements())
        ctx.check(diff == rooms, 'the rooms are not symmetric', missing=list((diff - rooms).elements())[:4], trace=trace)
        links = bag(tuple(sorted((R.ints(a), R.ints(b)))) for a, b in u.links)
        turned = bag(tuple(sorted((L.turn(a, step), L.turn(b, step)))) for a, b in links.elements())
        ctx.check(turned == links, 'the links are not symmetric', missing=list((turned - links).elements())[:4],
                  trace=trace)
        ctx.count('links turned', len(u.links))
        occ = {R.ints(p): L.placed(r) for p, r in u.occupied.items()}
        tocc = {L.turn(p, step): turn_placed(r, step) for p, r in occ.items()}
        ctx.check(occ == tocc, 'the occupied cells are not symmetric', trace=trace,
                  extra=sorted(set(tocc) - set(occ))[:4])
        have = bag((R.ints(p), L.placed(r), R.ints(o)) for p, r, o in u.unoccupied)
        turned = bag((L.turn(p, step), turn_placed(r, step), L.turn_dir(o, step)) for p, r, o in have.elements())
        diff = list((turned - have).elements()) + list((have - turned).elements())
        if diff and given_ok:
            # doorways that placement gave up: they are open ones, but not listed
            full = bag((p, L.placed(next(r for r in u.rooms if id(r) == i)), o) for p, i, o in L.open_doors(u))
            given = full - have
            for k in (1, 2, 3):
                given |= bag((L.turn(p, step * k), turn_placed(r, step * k), L.turn_dir(o, step * k))
                             for p, r, o in (full - have).elements())
            ctx.count('given up', len(full - have))
            diff = [d for d in diff if d not in given]
        ctx.check(not diff, 'the open doorways are not symmetric', doors=diff[:4], trace=trace)
        ctx.count('symmetric states')

    for label, rng in ctx.cases('grow', 1800, 24000, secs=(45, 280)):
        random.seed(rng.random())
        mirror = rng.choice([1, 2, 2, 4, 4])
        ctx.count('mirror %d' % mirror)
        u = UnusedPositionManager(rng.choice([256] * 5 + [32, 64, 128, 512]), mirror=mirror)
        pool = L.room_set(rng)
        trace = [c.__name__ for c in pool]
        grown = False
        for step in range(rng.randint(2, 7)):
            if not u.rooms or rng.random() < .4:
                cls = rng.choice(pool)
                pos = tuple(rng.choice([rng.randint(1, 31), rng.randint(8, 24), 16, 17, 15]) for _ in range(3))
                room = R.make(cls, pos, rng.randrange(4), rng.choice(R.variants(cls)))
                if not L.placeable(room, L.taken(u), mirror):
                    continue
                me = L.placed(room)
                n = len(u.rooms)
                u.register_room(room)
                new = [L.placed(r) for r in u.rooms[n:]]
                want = [turn_placed(me, k) for k in L.turns(mirror)]
                ctx.check(bag(new) == bag(want), 'registering %s gives other rooms than its turned copies' % (me,),
                          got=new, want=want)
                ctx.check(me in new, 'the room itself is not registered')
                if mirror == 1:
                    ctx.count('registered once')
                if rng.random() < .3:       # the room is used again, elsewhere
                    room.pos = room.pos + type(room.pos)(*[rng.randint(-6, 6) for _ in range(3)])
                    ctx.equal(bag(L.placed(r) for r in u.rooms[n:]), bag(want), 'the registered rooms after moving the '
                              'one that was given', room=me)
                    if L.placeable(room, L.taken(u), mirror):
                        n, me = len(u.rooms), L.placed(room)
                        u.register_room(room)
                        ctx.equal(bag(L.placed(r) for r in u.rooms[n:]), bag(turn_placed(me, k) for k in L.turns(mirror)),
                                  'registering a room again, elsewhere', room=me)
                        ctx.count('rooms registered twice')
                if me[1]:
                    ctx.count('variants')
                if me[2][:2] != (16, 16):
                    ctx.count('rooms off the origin')
                trace.append(me)
            else:
                n = len(u.rooms)
                u.place_rooms(False, pool, rooms=rng.choice([1, 4, 9, 30]))
                grown = grown or len(u.rooms) > n
                trace.append(('placed', len(u.rooms) - n))
            if mirror != 1:
                judge(u, mirror, any(t[0] == 'placed' for t in trace if isinstance(t, tuple)), trace)
        ctx.seen((mirror, [L.placed(r) for r in u.rooms]), mirror > 1 and grown)
        ctx.sample({'mirror': mirror, 'rooms': len(u.rooms), 'trace': trace[:6]})

    for label, rng in ctx.cases('models', 2, 40, secs=(25, 200)):
        random.seed(rng.random())
        mirror = rng.choice([2, 4])
        u = UnusedPositionManager(rng.choice([256] * 5 + [32, 64, 128, 512]), mirror=mirror)
        models = [c for c, m in R.classes() if m]
        r = R.make(rng.choice(models), (rng.randint(6, 11), rng.randint(6, 11), 3), rng.randrange(4))
        if not L.placeable(r, {}, mirror):
            continue
        u.register_room(r)
        judge(u, mirror, False, [])
        u.place_rooms(False, rng.sample(models, 6), rooms=ctx.n(8, 24))
        judge(u, mirror, True, [])
        ctx.count('model layouts')
        ctx.seen((mirror, [L.placed(r) for r in u.rooms]), len(u.rooms) > mirror)
