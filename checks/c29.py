"""C29: the faces of a cube have the corners that its edges describe."""
import copy

from lib import live, mapz

RULE = """A case is a cube with random edge values (full, empty, slanted and degenerate edges among them), built by hand
or read from a map file at any depth of its octree. Its six faces are asked for, in random order and repeatedly, and
each of their corners is compared with the one an independent model computes from the three edges that meet there; the
order of the corners is checked by walking round each face. Surface records of every vertex count and layer are asked
for their number of vertices. Non-trivial when a face was compared; distinct by edge values."""


def corner(edges, p):
    """The place (in eighths of the cube) of the corner p of (0/1, 0/1, 0/1)."""
    out = []
    for d in range(3):
        r, c = (d + 1) % 3, (d + 2) % 3
        byte = edges[4 * d + 2 * p[c] + p[r]]
        out.append(byte >> 4 if p[d] else byte & 15)
    return tuple(out)


def outside_walk(face):
    """The corners of the face, once round, counterclockwise for somebody who looks at it from outside."""
    d, hi = face >> 1, face & 1
    r, c = (d + 1) % 3, (d + 2) % 3
    ring = [(0, 0), (1, 0), (1, 1), (0, 1)]
    if not hi:
        ring.reverse()
    out = []
    for a, b in ring:
        p = [0, 0, 0]
        p[d], p[r], p[c] = hi, a, b
        out.append(tuple(p))
    return out


def leaves(cubes):
    for c in cubes:
        if c.children:
            yield from leaves(c.children)
        else:
            yield c


def run(ctx):
    from redeclipse import MapParser
    from redeclipse.objects import SurfaceInfo, cube, dimcoord, dimension, opposite
    ctx.need('faces', 'read from a map', 'full cubes', 'edited cubes', 'surface records', 'cubes made', 'degenerate edges')

    for o in range(6):
        ctx.equal(dimension(o), o // 2, 'dimension of face %d' % o)
        ctx.equal(dimcoord(o), o % 2, 'side of face %d' % o)
        ctx.check(dimension(opposite(o)) == dimension(o) and dimcoord(opposite(o)) == 1 - dimcoord(o),
                  'the face opposite of %d is %r' % (o, opposite(o)))

    def faces(c, rng, where):
        edges = list(c.edges)
        order = list(range(6)) * rng.choice([1, 1, 2])
        rng.shuffle(order)
        for o in order:
            got = [(v.x, v.y, v.z) for v in c.genfaceverts(o)]
            ctx.count('faces')
            want = [corner(edges, p) for p in outside_walk(o)]
            turns = [want[i:] + want[:i] for i in range(4)]
            ctx.check(got in turns, 'face %d of a cube %s has other corners than its edges describe, or another order'
                      % (o, where), edges=edges, got=got, expected=want)
            ctx.equal(list(c.edges), edges, 'asking for face %d changed the edges' % o)
        ctx.seen(tuple(edges))

    for label, rng in ctx.cases('built', 6000, 60000, secs=(20, 120)):
        c = rng.choice([cube, cube.newcube, cube.newtexcube])()
        if rng.random() < .1:
            ctx.equal(list(c.edges), [128] * 12, 'a new cube is not full')
            ctx.count('full cubes')
        else:
            kind = rng.random()
            pool = [0, 128, 255, 0x88, 0x0f, 0xf0, 0x80, 0x08]
            if kind < .25:
                c.edges = [rng.choice(pool) for _ in range(12)]
                ctx.count('degenerate edges')
            elif kind < .35:
                c.edges = [rng.choice([0, 0, 255, 128, rng.randrange(256)])] * 12
                ctx.count('equal edges')
            elif kind < .5:
                c.edges = [128] * 12
                for _ in range(rng.randint(1, 3)):
                    c.edges[rng.randrange(12)] = rng.randrange(256)
            else:
                c.edges = [rng.randrange(256) for _ in range(12)]
            if rng.random() < .2:
                c.edges = tuple(c.edges)
        faces(c, rng, 'built by hand')
        # the cube changes, and is asked again
        for _ in range(rng.choice([0, 0, 1, 3])):
            how = rng.choice(['exchange', 'one', 'new', 'move', 'reverse'])
            edges = list(c.edges)
            i, j = rng.randrange(12), rng.randrange(12)
            if how == 'exchange':
                edges[i], edges[j] = edges[j], edges[i]
            elif how == 'one':
                edges[i] = rng.randrange(256)
            elif how == 'move':         # by the same amount up and down
                n = rng.randint(0, min(edges[i], 255 - edges[j])) if i != j else 0
                edges[i], edges[j] = edges[i] - n, edges[j] + n
            elif how == 'reverse':
                edges.reverse()
            else:
                edges = [rng.randrange(256) for _ in range(12)]
            if isinstance(c.edges, list) and rng.random() < .7:
                c.edges[:] = edges
            else:
                c.edges = edges
            faces(c, rng, 'edited by hand')
            ctx.count('edited cubes')

    for label, rng in ctx.cases('read', 150, 1500, secs=(15, 100)):
        m = mapz.gen_map(rng)
        p = ctx.path('in.mpz')
        mapz.write_gz(p, mapz.encode(m))
        want = []

        def collect(nodes):
            for n in nodes:
                if 'kids' in n or 'lod' in n:
                    collect(n.get('kids') or n['lod'])
                else:
                    want.append(n)
        collect(m['world'])
        got = list(leaves(MapParser().read(p).world))
        ctx.equal(len(got), len(want), 'leaves of the octree')
        pairs = [(g, w) for g, w in zip(got, want) if w['kind'] == 3]
        rng.shuffle(pairs)
        for g, w in pairs[:30]:
            ctx.equal(list(g.edges), list(w['edges']), 'edges of a deformed cube')
            faces(g, rng, 'read from a map')
            ctx.count('read from a map')

    for label, rng in ctx.cases('surfaces', 256, 256):
        n = ctx.index
        s = SurfaceInfo(rng.randrange(256), rng.randrange(256), rng.randrange(256), n)
        want = (n & 15) * (2 if n & 128 else 1)
        ctx.equal(s.totalverts(), want, 'number of vertices of surface record %d' % n)
        ctx.equal(s.totalverts(), want, 'number of vertices of surface record %d, asked again' % n)
        ctx.equal(s.numverts, n, 'surface record after asking')
        ctx.count('surface records')
        ctx.seen(('surface', n))

    # cubes made together or one after another are separate objects
    for label, rng in ctx.cases('made', 400, 4000, secs=(8, 60)):
        made = []
        given = [rng.randrange(60) for _ in range(6)]
        kept = list(given)
        for _ in range(rng.randint(2, 6)):
            kind = rng.choice(['cube', 'newcube', 'newcubes', 'newtexcube', 'six', 'six', 'texturize'])
            made += cube.newcubes() if kind == 'newcubes' else [
                cube() if kind == 'cube' else
                cube.newtexcube(tex=given) if kind == 'six' else
                cube.texturize(cube.newcube(), tex=given) if kind == 'texturize' else getattr(cube, kind)()]
        before = [c.to_dict() for c in made]
        frozen = copy.deepcopy(before)
        k = rng.randrange(len(made))
        victim = made[k]
        victim.edges[rng.randrange(12)] = 17
        victim.texture[rng.randrange(6)] = 999
        if victim.faces:
            victim.faces[rng.randrange(3)] = None
        if victim.ext:
            victim.ext.surfaces[rng.randrange(6)].lmid[rng.randrange(2)] = 77
            victim.ext.surfaces[rng.randrange(6)].numverts = 99
            if rng.random() < .5:
                victim.ext.surfaces.pop()
            victim.ext.verts = 5
        if rng.random() < .5:
            ctx.equal(given, kept, 'the list of textures that the cubes were made with, after a cube was edited')
        given[rng.randrange(6)] = 888
        victim.merged = 3
        for i, c in enumerate(made):
            if i != k:
                ctx.equal(c.to_dict(), frozen[i], 'cube %d of %d after another was edited' % (i, len(made)))
        ctx.check(len({d['_id'] for d in frozen}) == len(made), 'cubes share their number')
        ctx.count('cubes made', len(made))
        ctx.seen((label,))
