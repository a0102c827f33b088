"""C08: octree conversion places every voxel exactly once and adds none."""
RULE = """A case is a voxel world (size 2..128, sparse, clustered, layered or full, with points outside and integral float
coordinates) converted to an octree, edited and converted again. Every leaf of every tree is located by its path and
compared with the world by object identity; empty leaves must be empty cubes and a subtree without voxels must not be
subdivided. Non-trivial when the world held a voxel inside its bounds; distinct by content."""


def run(ctx):
    from redeclipse.enums import Faces
    from redeclipse.objects import cube
    from redeclipse.vector import CoarseVector, FineVector
    from redeclipse.voxel import VoxelWorld
    ctx.need('edits by vector', 'shared voxels', 'conversions', 'converted again after an edit', 'voxels found', 'empty leaves', 'voxels left out',
             'undivided regions', 'full worlds', 'empty worlds')

    def is_empty_cube(c):
        return (isinstance(c, cube) and not c.children and (c.octsav & 7) == 1 and
                all(f == Faces.F_EMPTY for f in c.faces))

    def judge(w, content, size):
        """content: {(int x,y,z): value}, all that was put in"""
        before = dict(w.world)
        bnd = (w.xmax, w.xmin, w.ymax, w.ymin, w.zmax, w.zmin, w.size)
        roots = w.to_octree()
        ctx.check(isinstance(roots, (list, tuple)) and len(roots) == 8, 'the root is not eight cubes')
        inside = {p: v for p, v in content.items() if all(0 <= c < size for c in p)}
        ctx.count('voxels left out', len(content) - len(inside))
        values = set(id(v) for v in content.values())
        found = {}
        nodes = []      # kept, so that their ids are theirs
        stack = [(roots[i], i, (0, 0, 0), size) for i in range(8)]
        while stack:
            c, i, o, s = stack.pop()
            nodes.append(c)
            h = s // 2
            o = (o[0] + h * (i & 1), o[1] + h * (i >> 1 & 1), o[2] + h * (i >> 2 & 1))
            if h == 1 and id(c) in values:
                found[o] = c
                continue
            ctx.check(isinstance(c, cube), 'a node at %s (size %d) is %r' % (o, h, type(c)))
            ctx.check(id(c) not in values, 'the voxel found at %s fills a region of size %d' % (o, h))
            if c.children:
                ctx.check(h > 1, 'a leaf of size 1 at %s is subdivided' % (o,))
                ctx.check((c.octsav & 7) == 0, 'a subdivided cube at %s is not marked as such' % (o,))
                ctx.equal(len(c.children), 8, 'number of children')
                any_in = any(o[0] <= p[0] < o[0] + h and o[1] <= p[1] < o[1] + h and o[2] <= p[2] < o[2] + h
                             for p in inside)
                ctx.check(any_in, 'an empty region at %s of size %d is subdivided' % (o, h))
                stack.extend((k, j, o, h) for j, k in enumerate(c.children))
            else:
                ctx.check(is_empty_cube(c), 'the leaf at %s of size %d is not an empty cube' % (o, h))
                ctx.count('empty leaves')
                if h > 1:
                    ctx.count('undivided regions')
        own = [id(c) for c in nodes if id(c) not in values]
        ctx.check(len(own) == len(set(own)), 'two places of the octree share a cube')
        ctx.equal(sorted(found), sorted(inside), 'the voxels in the octree are not those of the world')
        for p in found:
            ctx.check(found[p] is inside[p], 'the voxel at %s is not the stored one' % (p,))
        ctx.count('voxels found', len(found))
        ctx.check(dict(w.world) == before and bnd == (w.xmax, w.xmin, w.ymax, w.ymin, w.zmax, w.zmin, w.size),
                  'converting changed the world')
        ctx.count('conversions')
        return roots

    def value(rng):
        r = rng.random()
        if r < 0.5:
            return cube.newtexcube(tex=rng.choice([2, 7, [1, 2, 3, 4, 5, 6]]))
        if r < 0.6:
            return cube.newcube()
        return ('payload', rng.random())

    for label, rng in ctx.cases('octree', 350, 6000, secs=(40, 300)):
        size = rng.choice([2, 4, 4, 8, 8, 16, 16, 32, 64 if rng.random() < 0.15 else 8])
        w = VoxelWorld(size=size)
        content = {}

        def put(p):
            v = value(rng)
            content[p] = v
            r = rng.random()
            if r < 0.2:
                w.set_point(*[float(c) for c in p], v)
            elif r < 0.4:
                w.set_pointv(rng.choice([FineVector, CoarseVector])(*p), v)
                ctx.count('edits by vector')
            else:
                w.set_point(*p, v)

        style = rng.choice(['sparse', 'cluster', 'layer', 'full', 'empty', 'outside', 'corner'])
        if style == 'full' and size > 16:
            style = 'sparse'
        ctx.count('style ' + style)
        if style == 'full':
            for p in [(x, y, z) for x in range(size) for y in range(size) for z in range(size)]:
                put(p)
            ctx.count('full worlds')
        elif style == 'empty':
            ctx.count('empty worlds')
        elif style == 'corner':
            h = size // 2
            for _ in range(rng.randint(1, 6)):
                put(tuple(rng.choice([0, size - 1, h, h - 1]) for _ in range(3)))
        elif style == 'layer':
            ax, at = rng.randrange(3), rng.randrange(size)
            for a in range(min(size, 24)):
                for b in range(min(size, 24)):
                    p = [a, b]
                    p.insert(ax, at)
                    put(tuple(p))
        elif style == 'cluster':
            c = [rng.randrange(size) for _ in range(3)]
            for _ in range(rng.randint(1, 60)):
                put(tuple(min(size - 1, max(0, int(rng.gauss(k, 2)))) for k in c))
        else:
            lo, hi = (0, size - 1) if style == 'sparse' else (-size, 2 * size)
            for _ in range(rng.randint(1, 80)):
                put(tuple(rng.randint(lo, hi) for _ in range(3)))
        judge(w, content, size)
        if rng.random() < 0.4:
            put(tuple(rng.choice([-1, size, size + 1, 0, 2 * size - 1, -size]) for _ in range(3)))
        for _ in range(rng.choice([0, 1, 2, 3])):
            for _ in range(rng.randint(1, 5)):
                if content and rng.random() < 0.4:
                    p = rng.choice(sorted(content)[:200])
                    del content[p]
                    if rng.random() < .5:
                        w.del_point(*p)
                    else:
                        w.del_pointv(rng.choice([FineVector, CoarseVector])(*p))
                        ctx.count('edits by vector')
                else:
                    put(tuple(rng.randint(0, size - 1) for _ in range(3)))
            judge(w, content, size)
            ctx.count('converted again after an edit')
        n_in = sum(all(0 <= c < size for c in p) for p in content)
        ctx.seen((size, sorted(content)), n_in > 0)
        ctx.sample({'size': size, 'style': style, 'points': sorted(content)[:4], 'voxels': len(content)})

    # one object stored at many points stays one voxel at each of them
    for label, rng in ctx.cases('shared', 60, 600, secs=(10, 40)):
        size = rng.choice([4, 8, 16, 16, 32]) if ctx.index > 1 else (128, 64)[ctx.index]
        w = VoxelWorld(size=size)
        c = cube.newtexcube(tex=rng.choice([2, 7]))
        if rng.random() < .5:
            c.edges = [rng.choice([0x80, 0x40, 0x84, 0x62, 0x51]) for _ in range(12)]
            c.octsav = (c.octsav & ~7) | 3
        other = rng.choice([cube.newtexcube(tex=3), ('payload', 1)])
        b = rng.choice([s for s in (2, 2, 4, 8, 16, 32) if s <= min(size, 32)])
        o = [b * rng.randrange(size // b) for _ in range(3)]
        content = {(o[0] + i, o[1] + j, o[2] + k): c for i in range(b) for j in range(b) for k in range(b)}
        for _ in range(rng.choice([0, 0, 1, 3])):
            content[tuple(rng.randrange(size) for _ in range(3))] = rng.choice([c, other])
        for p, v in content.items():
            w.set_point(*p, v)
        judge(w, content, size)
        ctx.count('shared voxels', len(content))
        ctx.seen((size, sorted(content)))

    # all single voxels of small worlds, exhaustively
    for size in (2, 4, 8):
        for label, rng in ctx.cases('single-%d' % size, 1, 1, least=1):
            for p in [(x, y, z) for x in range(size) for y in range(size) for z in range(size)]:
                w = VoxelWorld(size=size)
                v = cube.newtexcube()
                w.set_point(*p, v)
                judge(w, {p: v}, size)
                ctx.seen((size, p))
