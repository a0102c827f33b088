"""C11: construction primitives paint exactly their shape, in every orientation."""
from lib import stat

RULE = """A case is one primitive with random offset, size, direction, texture and mode, painted by a room at a random
position in each of the four orientations into a world that already holds other voxels; the touched voxels are
compared with the shape computed by exact integer rotation about the cell centre. Probabilistic painting is tested per
voxel, per pair of voxels and in total. Non-trivial when the shape has voxels; distinct by arguments."""


def turn(p, k):
    """a voxel of the room's cell, turned about the centre of the 8x8 cell"""
    x, y, z = p
    for _ in range(k):
        x, y = 7 - y, x
    return x, y, z


def run(ctx):
    from redeclipse.objects import cube
    from redeclipse.prefabs.construction_kit import ConstructionKitMixin
    from redeclipse.vector import CoarseVector, FineVector
    from redeclipse.vector import orientations as O
    from redeclipse.voxel import VoxelWorld
    KINDS = ['cube', 'column', 'dotted_column', 'floor', 'ceiling', 'wall', 'low_wall', 'ring', 'rectangular_prism']
    ctx.need('painted', 'subtracted', 'probabilistic', 'overwritten', 'points', 'limited walls', 'moved rooms', *KINDS)
    CARD = [O.EAST, O.NORTH, O.WEST, O.SOUTH]
    DIRS = {(1, 0, 0): O.EAST, (0, 1, 0): O.NORTH, (-1, 0, 0): O.WEST, (0, -1, 0): O.SOUTH, (0, 0, 1): O.ABOVE,
            (0, 0, -1): O.BELOW}

    class R(ConstructionKitMixin):
        def __init__(self, pos, orientation):
            self.pos = pos
            self.orientation = orientation

    def box(o, d):
        return {(o[0] + x, o[1] + y, o[2] + z)
                for x in (range(d[0]) if d[0] > 0 else range(d[0] + 1, 1))
                for y in (range(d[1]) if d[1] > 0 else range(d[1] + 1, 1))
                for z in (range(d[2]) if d[2] > 0 else range(d[2] + 1, 1))}

    def shape(rng, kind):
        """(positional arguments, keyword arguments, local voxels, description)"""
        o = tuple(rng.choice([0, rng.randint(-3, 10), rng.randint(-30, 40)]) for _ in range(3))
        off = FineVector(*o)
        kw = {}
        if kind == 'cube':
            return [off], kw, {o}, (o,)
        if kind in ('column', 'dotted_column'):
            d = rng.choice(list(DIRS))
            n = rng.choice([0, 1, 2, 7, 8, rng.randint(1, 20), rng.choice([16, 33, 64, 65, 130])])
            on, off_ = 2, 2
            if kind == 'dotted_column' and rng.random() < .6:
                on, off_ = rng.choice([rng.randint(0, 4), 9, 20]), rng.choice([rng.randint(0, 4), 9, 20])
                if on + off_ == 0:
                    on = 1
                kw = {'on': on, 'off': off_}
            pts = {tuple(o[i] + d[i] * j for i in range(3)) for j in range(n)
                   if kind == 'column' or j % (on + off_) < on}
            return [off, DIRS[d], n], kw, pts, (o, d, n, on, off_)
        if kind in ('floor', 'ceiling'):
            s = 8
            if rng.random() < .5:
                s = rng.choice([rng.randint(0, 12), rng.choice([16, 17, 24])])
                kw = {'size': s}
            z = o[2] + (7 if kind == 'ceiling' else 0)
            return [off], kw, box((o[0], o[1], z), (s, s, 1)), (o, s)
        if kind in ('wall', 'low_wall'):
            k = rng.randrange(4)
            h = 3 if kind == 'low_wall' else 8
            if kind == 'wall' and rng.random() < .4:
                h = rng.choice([rng.randint(0, 12), rng.choice([16, 33])])
                kw = {'limit_j': h}
            b = {0: ((7, 0), (1, 8)), 1: ((0, 7), (8, 1)), 2: ((0, 0), (1, 8)), 3: ((0, 0), (8, 1))}[k]
            return [off, CARD[k]], kw, box((o[0] + b[0][0], o[1] + b[0][1], o[2]), b[1] + (h,)), (o, k, h)
        if kind == 'ring':
            s = rng.choice([rng.randint(1, 14), rng.choice([16, 17, 25])])
            pts = {p for p in box(o, (s, s, 1)) if p[0] in (o[0], o[0] + s - 1) or p[1] in (o[1], o[1] + s - 1)}
            return [off, s], kw, pts, (o, s)
        d = tuple(rng.choice([1, 2, 8, rng.randint(1, 9), rng.randint(1, 9), rng.choice([0, 12, 17])]) for _ in range(3))
        if rng.random() < .2:
            d = tuple(-c if rng.random() < .5 else c for c in d)
        return [off, FineVector(*d)], kw, box(o, d), (o, d)

    def key(p):
        ctx.check(all(c == int(c) for c in p), 'a voxel is painted between the grid points: %r' % (p,))
        return tuple(int(c) for c in p)

    for label, rng in ctx.cases('paint', 3000, 60000, secs=(35, 240)):
        kind = KINDS[int(label.split('-')[1]) % len(KINDS)]
        args, kw, local, desc = shape(rng, kind)
        cell = tuple(rng.choice([0, rng.randint(-2, 40), rng.randint(-100, 1000)]) for _ in range(3))
        fine = rng.random() < .5
        pos = FineVector(*[8 * c for c in cell]) if fine else CoarseVector(*cell)
        snap = [repr(a) for a in args]
        room = None
        for k in rng.choice([range(4), rng.sample(range(4), 4), [rng.randrange(4)] * 2]):
            want = {tuple(8 * c + q for c, q in zip(cell, turn(p, k))) for p in local}
            w = VoxelWorld(size=rng.choice([64, 256]))
            held = {}
            near = sorted(want)
            for _ in range(12):
                q = tuple(c + rng.choice([0, 0, 1, -1, 2]) for c in rng.choice(near)) if near else (1, 2, 3)
                held[q] = object()
                w.set_point(*q, held[q])
            mode = rng.choice(['paint', 'paint', 'subtract', 'p0', 'p1'])
            call = dict(kw)
            tex = 2
            if rng.random() < .8:
                tex = rng.choice([0, 1, 2, 3, 77, 300])
                call['tex'] = tex
            if mode == 'subtract':
                call['subtract'] = True
                if rng.random() < .3:
                    call['prob'] = 0.5
            elif mode == 'p1':
                call['prob'] = 1.0
            elif mode == 'p0':
                call['prob'] = 0.0
            elif rng.random() < .2:
                call['subtract'] = False
            if room is None or rng.random() < .5:
                room = R(pos, CARD[k])
            else:       # the same one, elsewhere
                room.pos, room.orientation = pos, CARD[k]
                ctx.count('moved rooms')
            r = room
            r.x(kind, w, *args, **call)
            got = {key(p): v for p, v in w.world.items()}
            expect_painted = want if mode in ('paint', 'p1') else set()
            for p, v in held.items():
                if p not in want:
                    ctx.check(got.get(p) is v, '%s changed a voxel outside its shape at %s' % (kind, p),
                              args=desc, orientation=k, cell=cell, mode=mode)
                elif p in want and mode in ('paint', 'p1'):
                    ctx.count('overwritten')
            painted = {p for p, v in got.items() if held.get(p) is not v}
            if painted != expect_painted:
                ctx.fail('%s paints the wrong voxels' % kind, args=desc, orientation=k, cell=cell, mode=mode,
                         missing=sorted(expect_painted - painted)[:8], extra=sorted(painted - expect_painted)[:8])
            gone = {p for p in want if p in got} if mode in ('subtract', 'p0') else ()
            ctx.check(not gone, '%s in mode %s leaves voxels of its shape' % (kind, mode), args=desc, orientation=k)
            for p in painted:
                c = got[p]
                ctx.check(isinstance(c, cube) and list(c.texture) == [tex] * 6 and not c.children,
                          '%s does not paint a cube of the requested texture' % kind, args=desc)
            ctx.check((r.pos, r.orientation) == (pos, CARD[k]), 'painting moved the room')
            ctx.count('painted' if mode == 'paint' else 'subtracted' if mode == 'subtract' else mode)
            ctx.count(kind)
            ctx.seen((kind, desc, cell, k, mode), bool(want))
            if rng.random() < .4:
                cell = tuple(c + rng.choice([0, 1, -1, 5]) for c in cell)
                pos = FineVector(*[8 * c for c in cell]) if fine else CoarseVector(*cell)
        ctx.equal([repr(a) for a in args], snap, '%s changed its arguments' % kind)
        ctx.sample({'primitive': kind, 'arguments': desc, 'cell': cell, 'voxels': len(local)})

    # probabilistic painting, in total, per voxel and per pair
    for label, rng in ctx.cases('chance', 40, 400, secs=(20, 120)):
        import random
        random.seed(rng.random())
        kind = KINDS[int(label.split('-')[1]) % len(KINDS)]
        prob = rng.choice([0.1, 0.25, 0.5, 0.75, 0.9, 0.99])
        args, kw, local, desc = shape(rng, kind)
        if not local:
            continue
        k = rng.randrange(4)
        want = {turn(p, k) for p in local}
        runs = max(8, min(400, ctx.n(12000, 40000) // len(want)))
        hits = dict.fromkeys(want, 0)
        pairs = [tuple(rng.sample(sorted(want), 2)) for _ in range(20)] if len(want) > 1 else []
        both = dict.fromkeys(pairs, 0)
        total = 0
        for _ in range(runs):
            w = VoxelWorld(size=64)
            for p in rng.sample(sorted(want), min(len(want), 5)):
                w.set_point(*p, 'old')
            R(FineVector(0, 0, 0), CARD[k]).x(kind, w, *args, prob=prob, tex=5, **kw)
            got = {key(p) for p in w.world}
            ctx.check(got <= want, '%s with probability %s paints outside its shape' % (kind, prob), args=desc)
            ctx.check(all(isinstance(v, cube) for v in w.world.values()),
                      '%s with probability %s leaves an old voxel in its shape' % (kind, prob), args=desc)
            for p in got:
                hits[p] += 1
            total += len(got)
            for a, b in both:
                both[a, b] += a in got and b in got
        ctx.check(stat.binom_ok(total, runs * len(want), prob),
                  '%s with probability %s paints %d of %d voxels' % (kind, prob, total, runs * len(want)))
        for p, h in hits.items():
            ctx.check(stat.binom_ok(h, runs, prob, 1e-12),
                      '%s with probability %s paints %s in %d of %d cases' % (kind, prob, p, h, runs))
        for pq, h in both.items():
            ctx.check(stat.binom_ok(h, runs, prob * prob, 1e-12),
                      '%s with probability %s: %s are painted together in %d of %d cases' % (kind, prob, pq, h, runs))
        ctx.count('probabilistic', runs)
        ctx.seen((kind, desc, prob, k))

    # the points that shapes are made of
    from redeclipse.prefabs.construction_kit import column_points, cube_points, wall_points
    for label, rng in ctx.cases('points', 600, 12000, secs=(10, 60)):
        d = rng.choice(list(DIRS))
        n = rng.choice([0, 1, 2, 8, rng.randint(1, 30)])
        got = [(p.x, p.y, p.z) for p in column_points(n, DIRS[d])]
        ctx.equal(got, [tuple(c * i for c in d) for i in range(n)], 'the points of a column', direction=d, length=n)
        dims = tuple(rng.choice([1, 2, -1, -4, rng.randint(1, 12), -rng.randint(1, 12)]) for _ in range(3))
        got = [(p.x, p.y, p.z) for p in cube_points(*dims)]
        ctx.equal(sorted(got), sorted(box((0, 0, 0), dims)), 'the points of a prism', size=dims)
        n = rng.choice([1, 2, 8, rng.randint(1, 40), rng.choice([100, 101, 40, 64])])
        lim = {k: rng.choice([0, 1, n - 2, n - 1, n, rng.randint(0, n + 5), 100]) for k in ('limit_i', 'limit_j')
               if rng.random() < .4}
        lim = {k: v for k, v in lim.items() if v >= 0}
        axis = [i for i in range(3) if d[i]][0]
        at = n - 1 if sum(d) > 0 else 0
        want = []
        for i in range(n):
            for j in range(n):
                p = [i, j]
                p.insert(axis, at)
                if i <= lim.get('limit_i', 100) and j <= lim.get('limit_j', 100):
                    want.append(tuple(p))
        got = [(p.x, p.y, p.z) for p in wall_points(n, DIRS[d], **lim)]
        ctx.equal(sorted(got), sorted(want), 'the points of a wall', direction=d, size=n, limits=lim)
        if lim:
            ctx.count('limited walls')
        ctx.count('points', len(got))
        ctx.seen(('points', d, n, dims))
