"""C31: rooms can be entered, crossed and started in."""
import itertools
import random

from lib import layout as L, rooms as R

RULE = """A case is one shipped room class in one variant and orientation: a body of 2x2x4 voxels is moved through the
free space of the room's reserved cells (every position it can take is computed), starting from the openings of the
room's doorways; or one layout of shipped rooms, all rendered, where the body must get from every room to every room
linked with it. Non-trivial always; distinct by room, variant and orientation, or by layout."""

WIDE, HIGH = 2, 4
STEPS = ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))
INSIDE = {2: 'map model', 3: 'player start', 9: 'weapon', 13: 'pusher', 14: 'flag'}
# rooms with poles at random places, which may close a doorway, and for debugging
APART = ('PoleRoom', 'TestRoom2')
# two ways, one above the other, that do not meet
TWO_WAYS = ('castle_gate_simple',)


def bodies(free):
    """positions (lowest corner) the body can take"""
    at = free
    for axis, n in ((0, WIDE), (1, WIDE), (2, HIGH)):
        out = set()
        for p in at:
            q = list(p)
            for _ in range(1, n):
                q[axis] += 1
                if tuple(q) not in at:
                    break
            else:
                out.add(p)
        at = out
    return at


def parts(at):
    """{position: number of the connected part it belongs to}"""
    comp = {}
    n = 0
    for s in at:
        if s in comp:
            continue
        n += 1
        comp[s] = n
        todo = [s]
        while todo:
            x, y, z = todo.pop()
            for dx, dy, dz in STEPS:
                q = (x + dx, y + dy, z + dz)
                if q in at and q not in comp:
                    comp[q] = n
                    todo.append(q)
    return comp


def room_space(cells, vox):
    out = set()
    for x, y, z in cells:
        out.update(itertools.product(range(8 * x, 8 * x + 8), range(8 * y, 8 * y + 8), range(8 * z, 8 * z + 8)))
    return out - vox


def openings(comp, cell, way):
    """body positions inside the cell that touch the boundary of the doorway"""
    ax = 0 if way[0] else 1
    low = [8 * (a - b) for a, b in zip(cell, way)]
    spans = [range(low[0], low[0] + 9 - WIDE), range(low[1], low[1] + 9 - WIDE), range(low[2], low[2] + 9 - HIGH)]
    spans[ax] = [low[ax] + (8 - WIDE if way[ax] > 0 else 0)]
    return {comp[p] for p in itertools.product(*spans) if p in comp}


def run(ctx):
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.voxel import VoxelWorld
    ctx.need('doorways', 'rooms with two levels', 'rooms with variants', 'random rooms', 'layouts crossed',
             'links crossed', 'player start', 'map model', 'pusher', 'flag')

    def voxels(world):
        out = {R.ints(p) for p in world.world}
        ctx.check(None not in out, 'voxels between the grid points')
        return out

    def one(c, flags, k, rng, looks):
        who = '%s%s orientation %d' % (c.__name__, '' if flags is None else list(flags), k)
        random.seed(rng.random())
        pos = R.anywhere(rng) if not looks else one.pos
        one.pos = pos
        room = R.make(c, pos, k, flags)
        w = VoxelWorld(size=256)
        m = R.fresh_map()
        room.render(w, m)
        vox = voxels(w)
        cells = {R.ints(q) for q in room.get_positions()}
        doors = [(R.ints(d['offset']), R.ints(d['orientation'])) for d in room.get_doorways()]
        seen = {hash(frozenset(vox)), hash(tuple(sorted(cells))), hash(tuple(doors))}
        for e in m.ents:
            what = INSIDE.get(e.type.value)
            if not what:
                continue
            v = tuple(int(q // 4) for q in (e.o.x, e.o.y, e.o.z))
            ctx.check(v not in vox, '%s: the %s at %s is inside a voxel' % (who, what, v), pos=pos)
            ctx.check(tuple(q // 8 for q in v) in cells, '%s: the %s at %s is not in a cell of the room'
                      % (who, what, v), pos=pos)
            ctx.count(what)
        ctx.seen((c.__name__, flags, k, sorted(seen)))
        ents = tuple((e.type.value, e.o.x, e.o.y, e.o.z) for e in m.ents)
        before = {x for x, y in looks}
        looks.add((frozenset(seen), ents))
        if frozenset(seen) in before:
            return
        comp = parts(bodies(room_space(cells, vox)))
        opens = []
        for p, o in doors:
            got = openings(comp, p, o)
            ctx.check(got, '%s: nobody can pass the doorway at %s facing %s' % (who, p, o), pos=pos)
            opens.append(got)
            ctx.count('doorways')
        if len({p[2] for p, o in doors}) > 1:
            ctx.count('rooms with two levels')
        if c.__name__ in TWO_WAYS:
            for i, got in enumerate(opens):
                back = tuple(-a for a in doors[i][1])
                ctx.check(any(got & other for other, (p, o) in zip(opens, doors) if o == back),
                          '%s: no way through from the doorway at %s' % (who, doors[i][0]), pos=pos)
        else:
            ctx.check(set.intersection(*opens), '%s: no way through the room between its doorways' % who,
                      pos=pos, parts=[(p, sorted(s)) for (p, o), s in zip(doors, opens)])

    rooms = [c for c, m in R.classes() if c.__name__ not in APART]
    for label, rng in ctx.cases('rooms', 1, 8, secs=(150, 180), least=1):
        order = list(rooms)
        rng.shuffle(order)
        for c in order:
            vs = R.variants(c)
            if len(vs) > 1:
                ctx.count('rooms with variants')
            for flags in vs:
                for k in rng.sample(range(4), 2 if len(vs) < 16 and c.__module__ == 'redeclipse.prefabs' else 1):
                    looks = set()
                    for turn in range(ctx.n(24, 60)):
                        one(c, flags, k, rng, looks)
                        # is there anything random about it?
                        if len(looks) == 1 and turn >= 4:
                            break
                        if turn == 4:
                            ctx.count('random rooms')
        ctx.sample({'rooms': [c.__name__ for c in order[:6]], 'classes': len(order)})

    walk = [c for c in rooms if c.__name__ not in TWO_WAYS]
    models = [c for c, m in R.classes() if m and c in walk]
    for label, rng in ctx.cases('layouts', 14, 260, secs=(60, 200), least=2):
        random.seed(rng.random())
        mirror = rng.choice([1, 1, 2, 4])
        u = UnusedPositionManager(256, mirror=mirror)
        c = rng.choice(walk)
        flags = rng.choice(R.variants(c))
        r = R.make(c, (rng.randint(5, 12), rng.randint(5, 12), rng.randint(3, 20)), rng.randrange(4), flags)
        if not L.placeable(r, {}, mirror):
            continue
        u.register_room(r)
        pool = rng.sample(rng.choice([walk, models]), 5)
        # rooms with doorways on different levels make layouts grow on top of one another
        pool += rng.sample([q for q in walk if any(q.__name__.startswith(s) or q.__name__.endswith(s) for s in
                                                   ('stair', 'Stair', 'stair2'))], 2)
        u.place_rooms(False, pool, rooms=ctx.n(14, 30))
        w = VoxelWorld(size=256)
        m = R.fresh_map()
        at, cells = {}, set()
        for q in u.rooms:
            q.render(w, m)
            at.setdefault(R.ints(q.pos), []).append(q)
            cells.update(R.ints(p) for p in q.get_positions())
        comp = parts(bodies(room_space(cells, voxels(w))))

        def places(q):
            """the parts of the free space that one can get to from this room's doorways"""
            return set.intersection(*[openings(comp, R.ints(d['offset']), R.ints(d['orientation']))
                                      for d in q.get_doorways()])
        for a, b in u.links:
            ok = False
            for i, j in itertools.product(at.get(R.ints(a), []), at.get(R.ints(b), [])):
                ok = ok or (i is not j and places(i) & places(j))
            ctx.check(ok, 'nobody can get from the room at %s to the one at %s linked with it' % (R.ints(a), R.ints(b)),
                      rooms=[L.placed(q) for q in u.rooms], mirror=mirror)
            ctx.count('links crossed')
        ctx.count('layouts crossed', len(u.links) > 0)
        ctx.count('rooms on top of one another', len({(x, y) for x, y, z in cells}) < len(cells))
        ctx.seen((mirror, [L.placed(q) for q in u.rooms]), len(u.links) > 0)
        ctx.sample({'mirror': mirror, 'pool': [q.__name__ for q in pool], 'rooms': len(u.rooms)})
