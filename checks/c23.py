"""C23: aftereffects change exactly the voxels they describe."""
import random

from lib import layout as L, rooms as R
from lib.stat import binom_ok

RULE = """A case is a world (random size and contents, within and outside of the world's cube, integer and float
coordinates) and an effect with random parameters; the voxels before and after are compared with a set computed from
the definition of the effect. Random effects are decided exactly for position functions with the values 0 and 1 and by
counts (false alarm rate about 1e-10) for others. Non-trivial when the effect changed something; distinct by world and
effect."""


def run(ctx):
    from redeclipse import aftereffects as A
    from redeclipse.objects import cube
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    from redeclipse.voxel import VoxelWorld
    effects = ['box', 'outline', 'grid', 'decay', 'growth', 'endcap', 'decay-rate', 'growth-rate']
    ctx.need('gradient values', 'kept voxels', 'worlds with voxels outside', 'worlds of numbers',
             'boxes of unusual height', *['effect ' + e for e in effects])

    def world(rng, big=False):
        size = rng.choice([2, 3, 4, 7, 8, 10, 16] + ([20, 25] if big else []))
        w = VoxelWorld(size=size)
        n = rng.choice([0, 1, 5, 40, 300])
        out = rng.random() < .3
        top = rng.randint(1, size)
        plain = rng.random() < .1      # any value may be stored, false ones included
        if plain:
            ctx.count('worlds of numbers')
        for _ in range(n):
            p = [rng.randrange(size), rng.randrange(size), rng.randrange(top)]
            if out and rng.random() < .2:
                p[rng.randrange(3)] = rng.choice([-1, -7, size, size + 5])
                ctx.count('worlds with voxels outside')
            if rng.random() < .1:
                p = [float(q) for q in p]
            w.set_point(p[0], p[1], p[2], rng.choice([0, '', 1]) if plain else cube.newtexcube(tex=rng.randrange(5, 9)))
        if rng.random() < .2 and w.world:
            # the topmost layer stays as it is
            tops = max(k[2] for k in w.world)
            for k in rng.sample(sorted(w.world), min(3, len(w.world))):
                if k[2] < tops:
                    w.del_point(*k)
        return w

    def snap(w):
        return {tuple(map(int, k)): v for k, v in w.world.items()}

    def solid(c):
        return c is not None and (c.octsav & 7) in (2, 3)

    def compare(what, before, w, added, removed, **detail):
        """the world is as before but for exactly these points"""
        ctx.check(all(tuple(map(int, k)) == tuple(k) for k in w.world), '%s: a voxel between the points' % what)
        after = snap(w)
        ctx.check(len(after) == len(w.world), '%s: a point is held twice' % what)
        for p in added:
            ctx.check(p in after, '%s: the point %s is not filled' % (what, p), **detail)
            if before.get(p) is not after[p]:
                ctx.check(solid(after[p]), '%s: the point %s is filled with nothing solid' % (what, p), **detail)
        for p in removed:
            ctx.check(p not in after, '%s: the point %s is still there' % (what, p), **detail)
        for p, v in after.items():
            if p in added:
                continue
            ctx.check(p in before, '%s: the point %s is filled' % (what, p), **detail)
            ctx.check(before[p] is v, '%s: the voxel at %s is replaced' % (what, p), **detail)
            ctx.count('kept voxels')
        for p in before:
            ctx.check(p in after or p in removed, '%s: the voxel at %s is gone' % (what, p), **detail)
        for i, (low, high) in enumerate([(w.xmin, w.xmax), (w.ymin, w.ymax), (w.zmin, w.zmax)]):
            ctx.check(all(low <= p[i] <= high for p in after), '%s: the boundaries of the world do not include all of '
                      'its voxels' % what, **detail)

    def points(size):
        return [(x, y, z) for z in range(size) for x in range(size) for y in range(size)]

    def edges(p, size):
        return sum(c in (0, size - 1) for c in p)

    def pick(rng, size):
        """a position function of values 0 and 1, and the same as a set"""
        kind = rng.choice(['random', 'x', 'y', 'z', 'never', 'always', 'beyond'])
        if kind == 'random':
            s = {p for p in points(size) if rng.random() < .5}
            return lambda x, y, z: 1 if (int(x), int(y), int(z)) in s else 0
        a = rng.randrange(size)
        return {'x': lambda x, y, z: int(x > a), 'y': lambda x, y, z: int(y <= a), 'z': lambda x, y, z: int(z == a),
                'never': lambda x, y, z: 0, 'always': lambda x, y, z: 1.0,
                'beyond': lambda x, y, z: 1.7 if x > y else -0.4}[kind]

    def top(w):
        # "below the topmost layer": layers are counted from 0
        return max([0] + [int(k[2]) for k in w.world])

    for label, rng in ctx.cases('exact', 500, 6000, secs=(25, 200)):
        random.seed(rng.random())
        e = rng.choice(['box', 'outline', 'grid', 'decay', 'growth', 'endcap'])
        w = world(rng)
        size, n = w.size, 0
        before = snap(w)
        if e in ('box', 'outline'):
            h = rng.choice([None, None, 1, size, rng.randint(1, size), rng.choice([0, size + 1, 3 * size])])
            limit = size if h is None else min(h, size)
            if h == 0 or limit != h and h is not None:
                ctx.count('boxes of unusual height')
            for p in rng.sample(points(size), min(size ** 3, rng.choice([0, 3, 30]))):
                if edges(p, size) and p not in before:      # voxels in its place already
                    w.set_point(*p, cube.newtexcube(tex=rng.randrange(5, 9)))
            held = {p: v for p, v in snap(w).items()}
            before = held
            if e == 'box':
                A.box(w, height=h) if h is not None or rng.random() < .5 else A.box(w)
            else:
                A.box_outline(w, height=h) if h is not None or rng.random() < .5 else A.box_outline(w)
            want = {p for p in points(size) if p[2] < limit and edges(p, size) > (0 if e == 'box' else 1)}
            compare(e, before, w, want, set(), size=size, height=h)
            looks = {repr(list(w.get_point(*p).texture)) for p in want}
            ctx.check(len(looks) <= 1 and all(w.get_point(*p) is not before.get(p) for p in want),
                      '%s leaves voxels in its place as they were' % e, size=size, height=h, textures=sorted(looks))
            n = len(want)
            key = (e, size, h)
        elif e == 'grid':
            s = rng.choice([None, 1, 2, 3, 5, 24])
            t = top(w)
            A.grid(w) if s is None else A.grid(w, size=s)
            m = s or 24
            want = {p for p in points(max(size, t)) if p[2] < t and p[0] < size and p[1] < size and
                    sum(c % m == 0 for c in p) > 1 and p not in before}
            compare(e, before, w, want, set(), size=size, spacing=s)
            n = len(want)
            key = (e, size, s)
        elif e == 'decay':
            f = pick(rng, size)
            t = top(w)
            A.decay(w, f)
            gone = {p for p in before if all(0 <= c < size for c in p[:2]) and 0 <= p[2] <= t and not f(*p) > 0}
            compare(e, before, w, set(), gone, size=size)
            n = len(gone)
            key = (e, size)
        elif e == 'growth':
            f = pick(rng, size)
            t = top(w)
            A.growth(w, f)
            want = {p for p in points(max(size, t)) if p[2] < t and p[0] < size and p[1] < size and
                    p not in before and not f(*p) > 0}
            compare(e, before, w, want, set(), size=size)
            n = len(want)
            key = (e, size)
        else:
            u = UnusedPositionManager(256, mirror=rng.choice([1, 2, 4]))
            L.start(rng, u)
            if not u.unoccupied:
                continue
            if rng.random() < .5:       # doorways anywhere on the map, its outermost cells included
                u.unoccupied += [(CoarseVector(*[rng.choice([0, 31, 31, rng.randrange(32)]) for _ in range(3)]),
                                  rng.choice(u.rooms), rng.choice(R.cards())) for _ in range(3)]
                ctx.count('doorways in the outermost cells')
            w = VoxelWorld(size=256)
            for _ in range(rng.choice([0, 0, 50, 500])):
                w.set_point(*[rng.randrange(256) for _ in range(3)], cube.newtexcube(tex=7))
            if rng.random() < .3:
                random.choice(u.rooms).render(w, R.fresh_map())
            before = snap(w)
            doors = [R.ints(p) for p, _, _ in u.unoccupied]
            A.endcap(w, u)
            want = {(8 * d[0] + i, 8 * d[1] + j, 8 * d[2] + k) for d in doors
                    for i in range(8) for j in range(8) for k in range(8)}
            compare(e, before, w, want, set(), doors=doors[:5])
            ctx.check([R.ints(p) for p, _, _ in u.unoccupied] == doors, 'filling doorways changes the layout')
            n = len(want)
            key = (e, doors)
        ctx.count('effect ' + e)
        ctx.count('points changed', n)
        ctx.seen((key, sorted(before)), n > 0)
        ctx.sample({'effect': e, 'size': size, 'voxels before': len(before), 'changed': n})

    # rates
    for label, rng in ctx.cases('rate', 60, 600, secs=(20, 150)):
        random.seed(rng.random())
        e = rng.choice(['decay', 'growth'])
        size = rng.choice([10, 16, 20])
        w = VoxelWorld(size=size)
        for p in points(size):
            if rng.random() < (.8 if e == 'decay' else .3):
                w.set_point(*p, cube.newtexcube(tex=6))
        w.set_point(0, 0, size - 1, cube.newtexcube(tex=6))
        before = snap(w)
        a, b, c = rng.random(), rng.random(), rng.random()
        name, f = rng.choice([
            ('constant', lambda x, y, z: a), ('height', lambda x, y, z: z / size), ('x', lambda x, y, z: 1 - x / size),
            ('gradient', lambda x, y, z: A.vertical_gradient(x, y, z, slope=2 * size)),
            ('step', lambda x, y, z: b if y > size // 2 else c), ('small', lambda x, y, z: .97),
            ('parity', lambda x, y, z: b if (x + y + z) % 2 else c)])
        (A.decay if e == 'decay' else A.growth)(w, f)
        after = snap(w)
        pool = {}
        for p in points(size):
            if e == 'decay' and p not in before:
                ctx.check(p not in after, 'decay fills %s' % (p,))
            elif e == 'growth' and (p in before or p[2] >= size - 1):
                ctx.check(after.get(p) is before.get(p), 'growth changes %s' % (p,))
            else:
                changed = (p not in after) if e == 'decay' else (p in after)
                g = pool.setdefault(f(*p), [0, 0])
                g[0] += changed
                g[1] += 1
                if not changed:
                    ctx.check(after.get(p) is before.get(p), '%s replaces the voxel at %s' % (e, p))
        for value, (k, m) in sorted(pool.items()):
            ctx.check(binom_ok(k, m, 1 - value), '%s changes %d of %d points where the position function is %r' % (
                e, k, m, value), function=name)
            ctx.count('rates compared')
        ctx.check(set(after) <= set(points(size)), '%s reaches beyond the world' % e)
        ctx.count('effect %s-rate' % e)
        ctx.seen((e, name, size, a, b, c), True)

    # gradients
    for label, rng in ctx.cases('gradient', 200, 2000, secs=(5, 30)):
        slope = rng.choice([256, 1, 10, 64, 300, rng.random() * 500 + 1])
        fs = [('vertical_gradient', lambda x, y, z: A.vertical_gradient(x, y, z, slope=slope), -1),
              ('gradient3', A.gradient3, -1), ('vertical_gradient2', A.vertical_gradient2, -1),
              ('vertical_gradient2inv', A.vertical_gradient2inv, 1)]
        zs = sorted([0] + [rng.choice([rng.randint(0, 300), rng.randint(0, 1024), rng.random() * 256])
                           for _ in range(20)])
        for name, f, sign in fs:
            vals = []
            for z in zs:
                x, y = rng.randint(-50, 300), rng.randint(-50, 300)
                v = f(x, y, z)
                ctx.check(v == f(y, x, z) == f(0, 0, z), '%s depends on more than the height' % name)
                vals.append(v)
                ctx.count('gradient values')
            ctx.check(all((b - a) * sign >= -1e-12 for a, b in zip(vals, vals[1:])),
                      '%s is not monotone' % name, heights=zs, values=vals)
            if 'gradient2' in name:
                ctx.check(all(0 <= v <= 1 for v in vals), '%s leaves 0..1' % name, heights=zs, values=vals)
            ctx.check(abs(vals[0] - (1 if sign < 0 else 0)) < 1e-9, '%s at the bottom is %r' % (name, vals[0]))
            ctx.check(abs(f(0, 0, 1024) - f(0, 0, 0)) > .05, '%s does not change with height' % name)
        for z in zs:
            ctx.check(abs(A.vertical_gradient2(1, 2, z) + A.vertical_gradient2inv(3, 4, z) - 1) < 1e-9,
                      'vertical_gradient2inv is not the inverse of vertical_gradient2', height=z)
        ctx.check(abs(A.vertical_gradient(0, 0, 256)) < 1e-9, 'vertical_gradient at 256 is not 0')
        ctx.check(abs(A.vertical_gradient(0, 0, slope, slope=slope)) < 1e-9, 'vertical_gradient at its slope is not 0')
        ctx.seen(('gradient', slope, zs), True)
