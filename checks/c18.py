"""C18: endcaps close doorways without disturbing the layout."""
import random

from lib import layout as L, rooms as R

RULE = """A case is a layout (generated, placed, with doorways that lead into the same cell or into narrow gaps) that is
capped with a random set of endcaps or in debug mode, in mirror mode 1, 2 or 4. Every added room is checked against the
doorways that were open, and every doorway left open is shown exhaustively to take no endcap. Non-trivial when a
doorway was open; distinct by layout and endcaps."""


def run(ctx):
    from redeclipse.prefabs import TestRoom
    from redeclipse.upm import UnusedPositionManager
    ctx.need('capped', 'debug caps', 'doorways left open', 'shared doorway cells', 'endcaps that do not fit',
             'mirror 1', 'mirror 2', 'mirror 4', 'shipped endcaps', 'several endcaps', 'many endcaps',
             'endcaps of one name', 'capped again')
    shipped = [c for c, m in R.classes() if m and 'end' in c.__name__ and len(L.doors(R.make(c, (0, 0, 0), 0))) == 1]

    def state(rng, mirror, tight):
        u = UnusedPositionManager(rng.choice([256] * 5 + [32, 64, 128, 512]), mirror=mirror)
        if not L.start(rng, u, pool=L.room_set(rng, flags=False)):
            return None
        if rng.random() < .8:
            u.place_rooms(False, L.room_set(rng), rooms=rng.choice([1, 5, 15, 40]))
        for _ in range(rng.choice([0, 10, 30]) if tight else 0):
            if not u.unoccupied:
                break
            base = R.ints(rng.choice(u.unoccupied)[0])
            pos = L.add(base, (rng.randint(-2, 2), rng.randint(-2, 2), rng.choice([0, 0, 1])))
            r = R.make(L.gen_class(rng, 'Block', small=True), pos, rng.randrange(4))
            if L.placeable(r, L.taken(u), mirror):
                u.register_room(r)
        return u

    def judge(u, debug, caps, rng, mirror):
        before = [(id(r), L.placed(r)) for r in u.rooms]
        links = [(R.ints(a), R.ints(b)) for a, b in u.links]
        occ0 = L.taken(u)
        open0 = L.listed_doors(u)
        cells0 = [d for d, _, _ in open0]
        if len(set(cells0)) < len(cells0):
            ctx.count('shared doorway cells')
        old = {id(r): r for r in u.rooms}
        if debug:
            u.endcap(debug=True)
        else:
            u.endcap(debug=False, possible_endcaps=list(caps))
        now = [(id(r), L.placed(r)) for r in u.rooms]
        ctx.check(now[:len(before)] == before, 'capping changed the rooms that were there')
        ctx.check([(R.ints(a), R.ints(b)) for a, b in u.links] == links, 'capping changed the links')
        occ = dict(occ0)
        todo = list(open0)
        for r in u.rooms[len(before):]:
            cs = L.cells(r)
            for c in cs:
                ctx.check(L.legal(c), 'a cap leaves the map at %s' % (c,))
                ctx.check(c not in occ, 'a cap occupies the cell %s, which is not free' % (c,))
                occ[c] = r
            if debug:
                ctx.check(isinstance(r, TestRoom), 'a debug cap is a %s' % type(r).__name__)
                ctx.check(len(cs) == 1 and cs[0] in cells0, 'a debug marker is not at an open doorway')
                ctx.count('debug caps')
            else:
                ctx.check(type(r) in caps, 'a cap is a %s' % type(r).__name__)
                mine = [t for t in todo if any(
                    L.sub(t[0], t[2]) == p and L.turn_dir(t[2], 2) == o and L.sub(p, o) == t[0] and t[0] in cs
                    for p, o in L.doors(r))]
                ctx.check(mine, 'the cap %s is not joined to an open doorway' % (L.placed(r),))
                todo.remove(mine[0])
                ctx.count('capped')
        got = {R.ints(p): r for p, r in u.occupied.items()}
        ctx.check(sorted(got) == sorted(occ) and all(got[c] is occ[c] for c in occ),
                  'after capping the occupancy table is wrong')
        left = [t for t in open0 if t[0] not in occ]
        if debug:
            ctx.check(not left, 'in debug mode doorways stay open: %s' % left[:4])
        singles = [c for c in L.unique(caps) if len(L.doors(R.make(c, (0, 0, 0), 0))) == 1]
        for d, rid, o in ([] if debug else left):
            for c in singles:
                for k, pos in L.attachments(c, d, o):
                    cap = R.make(c, pos, k)
                    ctx.check(not all(L.legal(q) and q not in occ for q in L.cells(cap)),
                              'the doorway at %s facing %s stays open, though %s fits' % (d, o, L.placed(cap)))
                    ctx.count('endcaps that do not fit')
            ctx.count('doorways left open')
        want = [t for t in L.open_doors(u) if t[1] in old]
        have = [t for t in L.listed_doors(u) if t[1] in old]
        ctx.check(not L.minus(have, want), 'after capping, the list of open doorways holds closed ones')
        ctx.check(have == sorted(t for t in open0 if t[0] not in occ),
                  'capping lost open doorways from the list')
        return len(open0)

    for label, rng in ctx.cases('cap', 700, 12000, secs=(45, 280)):
        random.seed(rng.random())
        mirror = rng.choice([1, 1, 2, 4])
        debug = rng.random() < .3
        u = state(rng, mirror, rng.random() < .6)
        if u is None:
            continue
        ctx.count('mirror %d' % mirror)
        caps = []
        # reading a model takes its time
        few = len(u.unoccupied) <= 6 * (1 if ctx.quick else 5)
        if not debug:
            alike = rng.random() < .3
            for i in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < .2 and (few or label.endswith('-0')):
                    caps.append(rng.choice(shipped))
                    ctx.count('shipped endcaps')
                else:
                    caps.append(L.gen_class(rng, 'Cap' if alike else 'Cap%d' % i, single_door=True, small=rng.random() < .5))
            if rng.random() < .3:       # many endcaps, of which few fit
                caps = caps[:1]
                for i in range(rng.choice([3, 5, 8, 14, 20])):
                    caps.append(L.gen_class(rng, 'Cap' if alike else 'Wide%d' % i, single_door=True, least=rng.choice([4, 8])))
                rng.shuffle(caps)
                ctx.count('many endcaps')
            if len(caps) > 1:
                ctx.count('endcaps of one name', alike)
                ctx.count('several endcaps')
        n = judge(u, debug, caps, rng, mirror)
        if rng.random() < .4:       # again, with others
            late = [L.gen_class(rng, 'Late', single_door=True, small=True) for _ in range(rng.choice([1, 2]))]
            judge(u, rng.random() < .4, rng.choice([caps or late, late, caps + late]), rng, mirror)
            ctx.count('capped again')
        ctx.seen((mirror, debug, [L.placed(r) for r in u.rooms]), n > 0)
        ctx.sample({'mirror': mirror, 'debug': debug, 'open doorways': n, 'endcaps': [c.__name__ for c in caps]})
