"""C17: placement ends, and gives up a doorway only when nothing fits."""
import random

from lib import layout as L, rooms as R

RULE = """A case is a world state (starting rooms, blocking rooms, earlier placement) with a random room set in mirror
mode 1, 2 or 4, in which either the candidates offered for an open doorway are compared with the exhaustively
enumerated fitting placements, or N rooms are placed and, if fewer were placed or doorways were given up, every open
doorway is shown exhaustively to take no candidate. A case that does not end within minutes of processor time is a
violation. Non-trivial when a doorway was examined exhaustively; distinct by state."""


def run(ctx):
    from redeclipse.upm import UnusedPositionManager
    ctx.need('candidate streams compared', 'candidates', 'streams without candidates', 'placements that reached N',
             'placements that ended early', 'doorways shown closed', 'hopeless doorways',
             'rooms placed among hopeless doorways', 'doorways to given up cells', 'mirror 1', 'mirror 2', 'mirror 4')

    def blocked_state(rng, mirror):
        """a layout with open doorways in narrow surroundings"""
        u = UnusedPositionManager(rng.choice([256] * 5 + [32, 64, 128, 512]), mirror=mirror)
        seeds = L.start(rng, u, pool=L.room_set(rng) if rng.random() < .3 else None)
        if not seeds:
            return None
        for _ in range(rng.choice([0, 0, 5, 20])):
            base = R.ints(rng.choice(u.unoccupied)[0]) if u.unoccupied else (16, 16, 3)
            pos = L.add(base, (rng.randint(-3, 3), rng.randint(-3, 3), rng.choice([0, 0, 0, 1, -1])))
            cls = L.gen_class(rng, 'Block', small=True)
            r = R.make(cls, pos, rng.randrange(4))
            if L.placeable(r, L.taken(u), mirror):
                u.register_room(r)
        return u

    def fixed(pool):
        return L.unique([c for c in pool if not hasattr(c, '_randflags')])

    for label, rng in ctx.cases('stream', 700, 12000, secs=(25, 150)):
        random.seed(rng.random())
        mirror = rng.choice([1, 2, 4])
        u = blocked_state(rng, mirror)
        if u is None or not u.unoccupied:
            continue
        ctx.count('mirror %d' % mirror)
        pool = L.unique(L.room_set(rng))
        occ = L.taken(u)
        state = ([L.placed(r) for r in u.rooms], L.listed_doors(u), sorted(map(R.ints, u.occupied)))
        for door, prev, ori in rng.sample(u.unoccupied, min(3, len(u.unoccupied))):
            d, o = R.ints(door), R.ints(ori)
            got = []
            for r in u.room_localization(list(pool), door, prev, ori):
                got.append((type(r), r))
                ctx.check(L.placeable(r, occ, mirror), 'a candidate that is not placeable is offered: %s' %
                          (L.placed(r),), door=d, orientation=o)
                ctx.check(L.joined(prev, r) and any(
                    p == L.sub(d, o) and q == L.turn_dir(o, 2) for p, q in L.doors(r)),
                    'a candidate that does not attach to the doorway is offered: %s' % (L.placed(r),),
                    door=d, orientation=o)
            ctx.check({c for c, r in got} <= set(pool), 'a room of another kind is offered')
            order = [c for i, (c, r) in enumerate(got) if i == 0 or got[i - 1][0] is not c]
            ctx.check(len(order) == len(set(order)), 'a room kind is offered at several times')
            for c in fixed(pool):
                want = L.fitting(c, d, o, occ, mirror)
                have = {(L.k_of(r), R.ints(r.pos)) for cc, r in got if cc is c}
                ctx.check(have == want, 'the placements of %s offered for the doorway are not those that fit' %
                          c.__name__, door=d, orientation=o, mirror=mirror, missing=sorted(want - have)[:5],
                          extra=sorted(have - want)[:5], cells=L.cells(R.make(c, (0, 0, 0), 0)),
                          doors=L.doors(R.make(c, (0, 0, 0), 0)))
                ctx.count('candidates', len(want))
            ctx.count('candidate streams compared')
            if not got:
                ctx.count('streams without candidates')
            ctx.seen((state[0], d, o, mirror, label))
        ctx.check(state == ([L.placed(r) for r in u.rooms], L.listed_doors(u), sorted(map(R.ints, u.occupied))),
                  'looking for candidates changed the layout')

    for label, rng in ctx.cases('fill', 350, 6000, secs=(40, 250)):
        random.seed(rng.random())
        mirror = rng.choice([1, 2, 4])
        style = rng.choice(['few', 'few', 'tight', 'many'])
        u = blocked_state(rng, mirror)
        if u is None:
            continue
        ctx.count('mirror %d' % mirror)
        if style == 'tight':
            pool = [L.gen_class(rng, 'One%d' % i, single_door=rng.random() < .7) for i in range(rng.randint(1, 2))]
        else:
            pool = L.room_set(rng, n=rng.randint(1, 4))
        n = rng.choice([1, 2, 3, 7, 20, 50]) if style != 'many' else ctx.n(120, 300)
        before = len(u.rooms)
        u.place_rooms(False, list(pool), rooms=n)
        added = len(u.rooms) - before
        ctx.check(added % mirror == 0, 'rooms were not added in mirrored groups')
        occ = L.taken(u)
        full = L.open_doors(u, occ)
        given = L.minus(full, L.listed_doors(u))
        if added >= n:
            ctx.check(added < n + mirror, 'asked for %d rooms, %d were placed (mirror %d)' % (n, added, mirror))
            ctx.count('placements that reached N')
            todo = given
        else:
            ctx.count('placements that ended early')
            todo = full
        rng.shuffle(todo)
        for d, rid, o in todo[:60]:
            for c in fixed(pool):
                fit = L.fitting(c, d, o, occ, mirror)
                ctx.check(not fit, '%d of %d rooms placed; the doorway at %s facing %s %s, though %s fits there' % (
                    added, n, d, o, 'was given up' if added >= n else 'is still open', c.__name__),
                    placements=sorted(fit)[:3], mirror=mirror)
            ctx.count('doorways shown closed')
        # further rooms open onto the cells where nothing fitted
        if given and style != 'many':
            for d, rid, o in rng.sample(given, min(6, len(given))):
                c = L.gen_class(rng, 'Further', small=True)
                k = rng.randrange(4)
                p, q = rng.choice(L.doors(R.make(c, (0, 0, 0), k)))
                r = R.make(c, L.sub(d, p), k)
                if L.placeable(r, L.taken(u), mirror):
                    u.register_room(r)
                    ctx.count('doorways to given up cells')
            before = len(u.rooms)
            n = rng.choice([1, 5, 40])
            u.place_rooms(False, list(pool), rooms=n)
            added = len(u.rooms) - before
            occ = L.taken(u)
            todo = L.open_doors(u, occ)
            if added >= n:
                todo = L.minus(todo, L.listed_doors(u))
            rng.shuffle(todo)
            for d, rid, o in todo[:40]:
                for c in fixed(pool):
                    fit = L.fitting(c, d, o, occ, mirror)
                    ctx.check(not fit, 'placing again, %d of %d rooms: the doorway at %s facing %s was given up or is '
                              'open, though %s fits there' % (added, n, d, o, c.__name__), placements=sorted(fit)[:3],
                              mirror=mirror)
        ctx.seen((mirror, n, [L.placed(r) for r in u.rooms]), bool(todo))
        ctx.sample({'mirror': mirror, 'asked': n, 'placed': added, 'given up': len(given),
                    'pool': [c.__name__ for c in pool]})
    # very many doorways at which nothing fits
    for label, rng in ctx.cases('hopeless', 12, 120, secs=(15, 90)):
        from redeclipse import prefabs
        from redeclipse.vector import CoarseVector as C
        random.seed(rng.random())
        mirror = rng.choice([1, 2, 4])
        u = UnusedPositionManager(rng.choice([256] * 5 + [32, 64, 128, 512]), mirror=mirror)
        length = rng.choice([12, 20, 28] if mirror < 4 else [12])
        deep = rng.choice([2, 3])
        step = rng.choice([1, 1, 2])

        def line(n, at, doors=()):
            class Line(prefabs.Room):
                room_type = 'hallway'

                def _get_positions(self):
                    return [C(at[0] * i, at[1] * i, at[2] * i) for i in range(n)]

                def _get_doorways(self):
                    return [{'offset': C(*p), 'orientation': C(*o)} for p, o in doors]
            return Line
        comb = line(length, (1, 0, 0), [((i, s, 0), (0, s, 0)) for i in range(0, length, step) for s in (-1, 1)])
        bar = line(1, (1, 0, 0))
        holes = rng.choice([0, 1, 3, 8])
        for z in range(2, 30, rng.choice([1, 2, 4])):
            row = R.make(comb, (2, 6, z), 0)
            if not L.placeable(row, L.taken(u), mirror):
                continue
            u.register_room(row)
            occ = L.taken(u)
            gaps = set(rng.sample(range(length), min(holes, length)))
            for i in range(length):
                for y in (6 - deep, 6 + deep):
                    r = R.make(bar, (2 + i, y, z), 0)
                    if (i, y > 6) not in {(g, bool(g & 1)) for g in gaps} and L.placeable(r, occ, mirror):
                        u.register_room(r)
                        occ = L.taken(u)
        # only a room that goes straight away from its doorway, and does not fit before the bars
        pool = [line(deep, (1, 0, 0), [((-1, 0, 0), (-1, 0, 0))])]
        n0, before = len(L.listed_doors(u)), len(u.rooms)
        n = rng.choice([5, 40, 500])
        u.place_rooms(False, list(pool), rooms=n)
        added = len(u.rooms) - before
        occ = L.taken(u)
        full = L.open_doors(u, occ)
        if added >= n:
            ctx.check(added < n + mirror, 'asked for %d rooms, %d were placed (mirror %d)' % (n, added, mirror))
            full = L.minus(full, L.listed_doors(u))
        for d, rid, o in full:
            for c in pool:
                fit = L.fitting(c, d, o, occ, mirror)
                ctx.check(not fit, '%d of %d rooms placed; %d of %d doorways were left, of which that at %s takes a '
                          'room' % (added, n, len(full), n0, d), placements=sorted(fit)[:3], mirror=mirror)
        ctx.count('hopeless doorways', len(full))
        ctx.count('rooms placed among hopeless doorways', added)
        ctx.seen((mirror, length, deep, n, sorted(occ)), bool(full))
    # nothing to do
    for label, rng in ctx.cases('none', 30, 100):
        u = UnusedPositionManager(256, mirror=rng.choice([1, 2, 4]))
        pool = L.room_set(rng)
        u.place_rooms(False, pool, rooms=rng.choice([0, 1, 10]))
        ctx.check(not u.rooms and not u.links, 'rooms were placed without a starting room')
        L.start(rng, u)
        s = len(u.rooms)
        u.place_rooms(False, pool, rooms=0)
        ctx.check(len(u.rooms) == s, 'rooms were placed though none were asked for')
