"""C09: generated geometry arrives in the map file intact."""
from lib import live, mapz

RULE = """A case is a random world of textured cubes (one texture or six, some cube objects used at several points, some
points outside) converted and written into a map (shipped or generated), the file decoded independently and its leaves
compared with the world voxel by voxel, then read by the library, written again and converted again after an edit.
Non-trivial when a voxel was inside; distinct by content."""


def leaves(world, size):
    """yield (origin, size, node) of all leaves of a decoded octree"""
    stack = [(world[i], i, (0, 0, 0), size) for i in range(8)]
    while stack:
        n, i, o, s = stack.pop()
        h = s // 2
        o = (o[0] + h * (i & 1), o[1] + h * (i >> 1 & 1), o[2] + h * (i >> 2 & 1))
        if 'kids' in n:
            for j, k in enumerate(n['kids']):
                stack.append((k, j, o, h))
        else:
            yield o, h, n


def run(ctx):
    import glob
    import os
    from lib.core import REPO
    from redeclipse import MapParser
    from redeclipse.objects import cube
    from redeclipse.voxel import VoxelWorld
    ctx.need('files decoded', 'solid voxels', 'empty leaves', 'six textures', 'shared cubes', 'second write',
             'outside the world', 'large worlds')
    shipped = []
    for p in sorted(glob.glob(os.path.join(REPO, 'maps', 'empty*.mpz'))):
        shipped.append(p)

    def judge(path, world, size, want_head):
        raw = mapz.read_raw(path)
        try:
            got, start, end = mapz.decode(raw)
        except mapz.Malformed as e:
            ctx.fail('the written file is not well formed: %s' % e)
        ctx.check(end == len(raw), 'data behind the octree')
        if want_head is not None:
            ctx.check(raw[:start] == want_head, 'writing geometry changed the rest of the map')
        found = {}
        for o, h, n in leaves(got['world'], size):
            if n['kind'] == 1:
                ctx.count('empty leaves')
                continue
            # full edges describe a solid cube just as well
            ctx.check(n['kind'] == 2 or n['edges'] == [0x80] * 12, 'the leaf at %s is not a full cube' % (o,))
            ctx.check(h == 1, 'a solid cube of size %d at %s' % (h, o))
            found[o] = n['tex']
        ctx.equal(sorted(found), sorted(p for p in world if all(0 <= c < size for c in p)),
                  'the solid cubes in the file are not the voxels of the world')
        for p, t in found.items():
            ctx.equal(t, world[p], 'the textures of the cube at %s' % (p,))
        ctx.count('solid voxels', len(found))
        ctx.count('files decoded')
        return raw

    for label, rng in ctx.cases('geometry', 300, 6000, secs=(40, 240)):
        src = ctx.path('in.mpz')
        if rng.random() < 0.3 and shipped:
            obj = MapParser().read(rng.choice(shipped))
            head = None
        else:
            m = mapz.gen_map(rng)
            mapz.write_gz(src, mapz.encode(m))
            obj = MapParser().read(src)
            obj.world = []
            head = None
        size = rng.choice([2, 4, 8, 8, 16, 16, 32, 64 if rng.random() < .2 else 4])
        if ctx.index < ctx.n(2, 6):         # the sizes in actual use
            size = 128 if ctx.index != 5 else 256
            obj.meta['worldsize'] = max(obj.meta['worldsize'], 1024)    # no cube smaller than a unit
            ctx.count('large worlds')
        w = VoxelWorld(size=size)
        content = {}
        shared = []

        def put(p):
            if shared and rng.random() < 0.3:
                c, t = rng.choice(shared)
                ctx.count('shared cubes')
            else:
                if rng.random() < 0.5:
                    tex = rng.choice([2, 1, 0, 255, 256, 65535, rng.randint(0, 65535)])
                    t = [tex] * 6
                else:
                    tex = [rng.randint(0, 400) for _ in range(6)]
                    if rng.random() < .5:           # few different textures
                        k = [rng.choice([0, 1, 255, 256, 300]), rng.randint(0, 300)]
                        cut = rng.randrange(7)
                        tex = rng.choice([k[:1] * cut + k[1:] * (6 - cut), [rng.choice(k) for _ in range(6)]])
                    t = list(tex)
                    ctx.count('six textures')
                how = rng.randrange(3)
                if how == 0:
                    c = cube.newtexcube(tex=tex)
                elif how == 1:
                    c = cube.newcube()
                    cube.texturize(c, tex=tex)
                else:
                    c = cube.texturize(cube.newcube(), tex=tex)
                shared.append((c, t))
            w.set_point(*p, c)
            content[p] = t
            if not all(0 <= k < size for k in p):
                ctx.count('outside the world')

        n = rng.choice([0, 1, 2, 20, 150])
        for _ in range(n):
            if rng.random() < 0.05:
                put(tuple(rng.choice([-1, size, size + 3, 0]) for _ in range(3)))
            else:
                put(tuple(rng.randrange(size) for _ in range(3)))
        if rng.random() < 0.15 and size <= 16:
            h = size // 2
            for x in range(h):
                for y in range(h):
                    for z in range(h):
                        put((x, y, z))
            ctx.count('solid octants')
        for again in range(rng.choice([1, 2])):
            obj.world = w.to_octree()
            out = ctx.path('out%d.mpz' % again)
            obj.write(out)
            raw = judge(out, content, size, head)
            # the library reads it back and writes the same bytes; the rest of the map stays
            back = MapParser().read(out)
            d = live.first_diff(mapz.decode(raw)[0]['world'], [live.node(c) for c in back.world])
            ctx.check(d is None, 'read back, the geometry differs: %s' % d)
            back.write(ctx.path('again.mpz'))
            ctx.check(mapz.read_raw(ctx.path('again.mpz')) == raw, 'the file is not reproduced when written again')
            ctx.count('second write')
            head = raw[:mapz.decode(raw)[1]]
            for _ in range(3):
                if content and rng.random() < .5:
                    p = rng.choice(sorted(content))
                    w.del_point(*p)
                    del content[p]
                else:
                    put(tuple(rng.randrange(size) for _ in range(3)))
        ctx.seen((size, sorted(content)), bool(content))
        ctx.sample({'size': size, 'voxels': len(content), 'first': sorted(content.items())[:3]})
