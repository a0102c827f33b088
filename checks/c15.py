"""C15: placed rooms are joined door to door and every link is real."""
import random

from lib import layout as L, rooms as R

RULE = """A case is an automatic placement (one call, or several calls of one to a few rooms) after registering one to
three starting rooms, over a random room set in mirror mode 1, 2 or 4. Every added room must have exactly one link to
an earlier room and a pair of doorways facing each other across their boundary. Non-trivial when a room was added;
distinct by the final layout."""


def run(ctx):
    from redeclipse.upm import UnusedPositionManager
    ctx.need('rooms added', 'links checked', 'mirror 1', 'mirror 2', 'mirror 4', 'several starting rooms',
             'rooms with variants added', 'several calls', 'rooms registered between', 'large rooms of the package')

    def judge(u, first, seeds, trace, late=()):
        """first: number of rooms registered by hand to begin with; late: places of those registered later"""
        at = {}
        for i, r in enumerate(u.rooms):
            at.setdefault(R.ints(r.pos), []).append(i)
        links = [(R.ints(a), R.ints(b)) for a, b in u.links]
        ctx.equal(len(links), len(u.rooms) - first - len(late), 'the number of links is not the number of added rooms', rooms=trace)
        parent = list(range(len(u.rooms)))

        def root(i):
            while parent[i] != i:
                i = parent[i]
            return i
        seen = {}
        for a, b in links:
            ctx.check(a in at and b in at, 'a link names a position without a room: %s - %s' % (a, b), rooms=trace)
            pairs = [(i, j) for i in at[a] for j in at[b] if i < j]
            ctx.check(pairs, 'a link does not lead from the earlier room to the later one: %s - %s' % (a, b), rooms=trace)
            pairs = [(i, j) for i, j in pairs if j >= first and j not in late and j not in seen and L.joined(u.rooms[i], u.rooms[j])]
            ctx.check(pairs, 'a link is recorded between %s and %s, which are not joined by doorways (or not placed '
                      'one after the other)' % (a, b), rooms=trace)
            i, j = pairs[0]
            seen[j] = i
            parent[root(j)] = root(i)
            ctx.count('links checked')
        for j in range(first, len(u.rooms)):
            ctx.check(j in seen or j in late, 'the added room %s has no link to a room before it' % (L.placed(u.rooms[j]),),
                      rooms=trace)
        comps = len({root(i) for i in range(len(u.rooms))})
        ctx.equal(comps, first + len(late), 'the number of connected layouts')
        ctx.count('rooms added', len(u.rooms) - first)
        for r in u.rooms[first:]:
            if hasattr(r, '_randflags'):
                ctx.count('rooms with variants added')
            if type(r).__module__.startswith('redeclipse') and len(L.cells(r)) > 3:
                ctx.count('large rooms of the package')

    for label, rng in ctx.cases('place', 1800, 24000, secs=(45, 280)):
        random.seed(rng.random())
        mirror = rng.choice([1, 2, 4])
        u = UnusedPositionManager(rng.choice([256] * 5 + [32, 64, 128, 512]), mirror=mirror)
        seeds = L.start(rng, u, pool=L.room_set(rng) if rng.random() < .4 else None)
        if not seeds:
            continue
        if len(seeds) > 1:
            ctx.count('several starting rooms')
        first = len(u.rooms)
        ctx.equal(first, mirror * len(seeds), 'the number of registered starting rooms')
        pool = L.room_set(rng)
        names = [c.__name__ for c in pool]
        n = rng.choice([1, 3, 10, 25, 60])
        late = []
        if rng.random() < .5:
            u.place_rooms(rng.random() < .5, pool, rooms=n)
        else:
            ctx.count('several calls')
            for _ in range(min(n, 12)):
                count = len(u.rooms)
                u.place_rooms(False, pool, rooms=1)
                ctx.check(len(u.links) == len(u.rooms) - first - len(late), 'rooms and links get out of step', pool=names)
                if len(u.rooms) == count:
                    break
                if rng.random() < .2:       # another one by hand
                    r = R.make(rng.choice(pool), tuple(rng.randint(0, 31) for _ in range(3)), rng.randrange(4))
                    if L.placeable(r, L.taken(u), mirror):
                        late += range(len(u.rooms), len(u.rooms) + mirror)
                        u.register_room(r)
                        ctx.count('rooms registered between')
        ctx.count('mirror %d' % mirror)
        judge(u, first, seeds, names, late)
        ctx.seen((mirror, [L.placed(r) for r in u.rooms]), len(u.rooms) > first)
        ctx.sample({'mirror': mirror, 'pool': names, 'start': [L.placed(s) for s in seeds],
                    'rooms': len(u.rooms), 'links': len(u.links)})

    # the rooms the generator uses
    for label, rng in ctx.cases('models', 2, 40, secs=(25, 200)):
        random.seed(rng.random())
        mirror = rng.choice([1, 2, 4])
        u = UnusedPositionManager(rng.choice([256] * 5 + [32, 64, 128, 512]), mirror=mirror)
        models = [c for c, m in R.classes() if m]
        r = R.make(rng.choice(models), (rng.randint(6, 11), rng.randint(6, 11), 3), rng.randrange(4))
        if not L.placeable(r, {}, mirror):
            continue
        u.register_room(r)
        pool = rng.sample(models, 6)
        u.place_rooms(False, pool, rooms=ctx.n(8, 24))
        judge(u, mirror, [r], [c.__name__ for c in pool])
        ctx.count('model layouts')
        ctx.seen((mirror, [L.placed(r) for r in u.rooms]), len(u.rooms) > mirror)
