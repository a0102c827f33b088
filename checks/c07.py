"""C07: a voxel world holds exactly the voxels put into it."""
RULE = """A case is a random history of set / overwrite / delete / lookup operations (by coordinates, by fine, coarse or
plain vector, with int, integral float or fractional numbers, inside and outside the world) over one to three worlds at once,
compared after every operation with a dictionary model and, at intervals, in full (stored set, bounds). Non-trivial
when the history overwrote or deleted at least one voxel; distinct by history."""

INF = 10 ** 9


class Model:
    def __init__(self, size):
        self.size = size
        self.d = {}
        self.hi = [0, 0, 0]
        self.lo = [size, size, size]

    def set(self, p, v):
        self.d[p] = v
        for i in range(3):
            self.hi[i] = max(self.hi[i], p[i])
            self.lo[i] = min(self.lo[i], p[i])


def run(ctx):
    from redeclipse.voxel import VoxelWorld
    from redeclipse.vector import BaseVector, CoarseVector, FineVector
    ctx.need('sets', 'overwrites', 'deletes', 'deletes of nothing', 'lookups', 'full comparisons', 'falsy values',
             'several worlds', 'fractional coordinates', 'outside the world', 'float coordinates', 'vector operations', 'negative coordinates')
    kinds = [BaseVector, FineVector, CoarseVector]

    def bounds(w):
        return [w.xmax, w.ymax, w.zmax], [w.xmin, w.ymin, w.zmin]

    def full(w, m, hist, frac=False):
        got = {}
        for k, v in w.world.items():
            ctx.check(isinstance(k, tuple) and len(k) == 3, 'a stored point is not a coordinate triple', got=repr(k))
            got[tuple(c if frac else int(c) for c in k)] = v
            ctx.check(frac or all(c == int(c) for c in k), 'a stored point is not integral', got=repr(k))
        ctx.equal(set(got), set(m.d), 'the stored set of points is wrong', history=hist[-30:])
        for k in got:
            ctx.check(got[k] is m.d[k], 'a stored value is wrong at %s' % (k,), history=hist[-30:])
        ctx.equal(bounds(w), (m.hi, m.lo), 'the recorded bounds are wrong', history=hist[-30:])
        ctx.equal(w.size, m.size, 'the size changed')
        ctx.count('full comparisons')

    # bounds once more, with a point that moves one bound at a time
    for label, rng in ctx.cases('bounds', 80, 600, secs=(4, 20)):
        size = rng.choice([2, 8, 128, 256])
        w = VoxelWorld(size=size)
        m = Model(size)
        full(w, m, [])
        hist = []
        for _ in range(rng.randint(1, 40)):
            p = tuple(rng.choice([0, 1, size - 1, size, size + 1, -1, size // 2, rng.randint(-size, 2 * size)])
                      for _ in range(3))
            m.set(p, hist)
            w.set_point(*p, hist)
            full(w, m, hist)
        for p in list(m.d):                      # deleting does not move the bounds
            if rng.random() < 0.7:
                del m.d[p]
                w.del_point(*p)
                full(w, m, hist)
        ctx.seen((label, 'bounds'))

    for label, rng in ctx.cases('history', 4800, 40000, secs=(25, 240)):
        worlds = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            if rng.random() < 0.2:
                worlds.append((VoxelWorld(), Model(128)))
            else:
                s = rng.choice([1, 2, 4, 8, 16, 64, 128, 256, 512])
                worlds.append((VoxelWorld(size=s), Model(s)))
        if len(worlds) > 1:
            ctx.count('several worlds')
        span = rng.choice([2, 3, 5, 40, 600, 3000])
        base = rng.choice([0, 0, 0, -span // 2, -span, 1000])
        hist = []
        changed = False
        unit = rng.choice([.5, .5, .25]) if rng.random() < .2 else 1
        for step in range(rng.choice([5, 40, 200])):
            wi = rng.randrange(len(worlds))
            w, m = worlds[wi]
            p = tuple((base + rng.randrange(span)) * unit for _ in range(3))
            if m.d and rng.random() < 0.4:
                p = rng.choice(sorted(m.d)[:50])
                if rng.random() < 0.3:           # a near miss
                    q = list(p)
                    i = rng.randrange(3)
                    q[i] += rng.choice([-1, 1, 1024, -1024]) * rng.choice([1, unit])
                    p = tuple(q)
            num = [float(c) if rng.random() < 0.3 else c for c in p]
            if any(isinstance(c, float) for c in num):
                ctx.count('float coordinates')
            if any(c != int(c) for c in p):
                ctx.count('fractional coordinates')
            if any(c < 0 for c in p):
                ctx.count('negative coordinates')
            if not all(0 <= c < m.size for c in p):
                ctx.count('outside the world')
            vec = rng.random() < 0.5
            if vec:
                ctx.count('vector operations')
            arg = rng.choice(kinds)(*num) if vec else None
            op = rng.random()
            hist.append((wi, p, vec, round(op, 2)))
            if op < 0.55:
                v = rng.choice([object(), object(), 0, '', False, [], (), 'tex', step, True])
                if not v:
                    ctx.count('falsy values')
                if p in m.d:
                    ctx.count('overwrites')
                    changed = True
                if vec:
                    w.set_pointv(arg, v)
                else:
                    w.set_point(*num, v)
                m.set(p, v)
                ctx.count('sets')
            elif op < 0.8:
                if p in m.d:
                    ctx.count('deletes')
                    del m.d[p]
                    changed = True
                else:
                    ctx.count('deletes of nothing')
                if vec:
                    w.del_pointv(arg)
                else:
                    w.del_point(*num)
            got = w.get_point(*num)
            ctx.count('lookups')
            ctx.check(got is m.d.get(p), 'lookup of %s gives %r instead of %r' % (p, got, m.d.get(p)),
                      history=hist[-40:])
            if step % 20 == 19:
                for i, (a, b) in enumerate(worlds):
                    full(a, b, hist, unit != 1)
        for a, b in worlds:
            full(a, b, hist, unit != 1)
        ctx.seen(hist, changed)
        ctx.sample({'case': label, 'first operations (world, point, vector, choice)': hist[:6], 'length': len(hist)})
