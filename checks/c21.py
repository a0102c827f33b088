"""C21: .vox exports are well formed and hold exactly the world."""
import contextlib
import io
import os
import random

from lib import layout as L, rooms as R, vox

RULE = """A case is a world of random textured cubes (dense, sparse, with voxels outside 0..255, with integral float
coordinates, rewritten and deleted voxels, or rendered from rooms) exported to .vox; an independent strict parser reads
the bytes, and the library's reader and info command read them back. Non-trivial when the file holds voxels; distinct by
voxels and colours."""


def run(ctx):
    from redeclipse import prefabs
    from redeclipse.cli import magicavoxel_info
    from redeclipse.magicavoxel.reader import Magicavoxel
    from redeclipse.magicavoxel.writer import to_magicavoxel
    from redeclipse.objects import cube
    from redeclipse.textures import AutomatedMagicaTextureManager
    from redeclipse.vector import FineVector
    from redeclipse.voxel import VoxelWorld
    ctx.need('files parsed', 'voxels compared', 'voxels left out', 'float coordinates', 'large palettes', 'empty worlds',
             'read back', 'through the world', 'rendered rooms')

    def judge(path, w, colours, what):
        """colours: [(r,g,b)] in 0..1, by texture index"""
        with open(path, 'rb') as h:
            data = h.read()
        try:
            got = vox.parse(data, strict=True)
        except vox.BadVox as e:
            ctx.fail('the .vox file is malformed: %s' % e, world=what)
        ctx.count('files parsed')
        want = {}
        for (x, y, z), c in w.world.items():
            if all(0 <= q <= 255 for q in (x, y, z)):
                want[int(x), int(y), int(z)] = c.texture[0]
            else:
                ctx.count('voxels left out')
        have = [tuple(v[:3]) for v in got['voxels']]
        ctx.check(len(have) == len(set(have)), 'a voxel is listed twice', world=what)
        ctx.equal(set(have), set(want), 'the file does not list exactly the voxels within 0..255', world=what)
        sx, sy, sz = got['size']
        for x, y, z, i in got['voxels']:
            ctx.check(x < sx and y < sy and z < sz, 'a voxel lies outside of the announced size',
                      voxel=(x, y, z), size=got['size'], world=what)
            ctx.check(i >= 1, 'a voxel has colour number 0', world=what)
            rgb = got['palette'][i - 1][:3]
            true = colours[want[x, y, z]]
            ctx.check(all(a in near(b) for a, b in zip(rgb, true)),
                      'the voxel at %s has colour %s, its texture %d has %s' % (
                          (x, y, z), rgb, want[x, y, z], tuple(b * 255 for b in true)), world=what)
        ctx.count('voxels compared', len(have))
        # reading it back
        m = Magicavoxel.from_file(path)
        ctx.equal([(v.x, v.y, v.z, v.c) for v in m.model_voxels.voxels], [tuple(v) for v in got['voxels']],
                  "the library reads other voxels than the file's", world=what)
        ctx.equal([(c.r, c.g, c.b, c.a) for c in m.palette.colours], got['palette'],
                  "the library reads other colours than the file's", world=what)
        ctx.equal((m.model_size.x, m.model_size.y, m.model_size.z), got['size'], 'the library reads another size')
        ctx.count('read back')
        return got

    def near(b):
        v = b * 255
        return {int(v), int(v + 1e-6), round(v)}

    def info(path, got, what):
        if not got['voxels']:
            return
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            magicavoxel_info.main(path)
        text = out.getvalue()
        ctx.check(text.count('#') == len(got['voxels']), 'the info command shows %d voxels of %d' % (
            text.count('#'), len(got['voxels'])), world=what)
        ctx.count('info command')

    def colour(rng):
        return rng.choice([
            (rng.randrange(256) / 255, rng.randrange(256) / 255, rng.randrange(256) / 255),
            (rng.randrange(256) / 255, rng.randrange(256) / 255, rng.randrange(256) / 255),
            (rng.choice([0, 1, 0.5]), rng.choice([0, 1.0]), 1)])

    def coord(rng, style):
        if style == 'small':
            return rng.randint(0, 6)
        if style == 'edge':
            return rng.choice([0, 1, 254, 255, 256, -1, 257, 300, 511, -256])
        if style == 'high':
            return rng.randint(100, 255)
        return rng.randint(-20, 280)

    for label, rng in ctx.cases('world', 1200, 8000, secs=(18, 150)):
        tm = AutomatedMagicaTextureManager()
        colours = [(0, 0, 0), (0.5, 0.5, 0.5)]
        n = rng.choice([0, 1, 3, 20, 100, 252, 253])
        seen = {}
        while len(colours) < n + 2:
            c = colour(rng)
            i = tm.get_colour(*c)
            if i not in seen:
                seen[i] = c
                ctx.check(i == len(colours), 'the texture manager numbers a new colour %r instead of %d' % (
                    i, len(colours)))
                colours.append(c)
        if n > 200:
            ctx.count('large palettes')
        size = rng.choice([1, 8, 64, 128, 256])
        w = VoxelWorld(size=size)
        style = rng.choice(['small', 'edge', 'high', 'any', 'any', 'axis'])
        count = rng.choice([0, 1, 2, 30, 300, 2000])
        floats = rng.random() < .4
        for _ in range(count):
            p = [coord(rng, 'edge' if style == 'axis' else style) for _ in range(3)]
            if style == 'axis':
                p[rng.randrange(3)] = rng.randint(0, 255)
            if floats and rng.random() < .5:
                p = [float(q) for q in p]
                ctx.count('float coordinates')
            c = cube.newtexcube(tex=rng.randrange(len(colours)))
            if rng.random() < .3:
                w.set_pointv(FineVector(*p), c)
            else:
                w.set_point(p[0], p[1], p[2], c)
            if rng.random() < .15 and w.world:
                w.del_point(*(rng.choice(list(w.world)) if rng.random() < .3 else p))
        if not w.world:
            ctx.count('empty worlds')
        what = dict(size=size, style=style, floats=floats, colours=len(colours), voxels=len(w.world))
        path = ctx.path('a.vox')
        before = [(k, id(v)) for k, v in w.world.items()]
        own = rng.random() < .3
        if own:
            # the world's own method uses the global textures
            old = prefabs.TEXMAN
            try:
                prefabs.TEXMAN = tm
                w.to_magicavoxel(path)
            finally:
                prefabs.TEXMAN = old
            ctx.count('through the world')
        else:
            with open(path, 'wb') as h:
                to_magicavoxel(w, h, tm)
        ctx.check(before == [(k, id(v)) for k, v in w.world.items()], 'exporting changes the world')
        got = judge(path, w, colours, what)
        if len(w.world) < 500 and (w.xmax + 1) * (w.ymax + 1) * (w.zmax + 1) < 3e5:
            info(path, got, what)
        ctx.seen((sorted(got['voxels']), size), bool(got['voxels']))
        ctx.sample(what)

    # more textures than a file has colours for: refused, or true
    for label, rng in ctx.cases('crowd', 60, 400, secs=(8, 40)):
        tm = AutomatedMagicaTextureManager()
        colours = [(0, 0, 0), (0.5, 0.5, 0.5)]
        for i in range(rng.choice([252, 253, 254, 255, 260, 300, 600])):
            colours.append((i % 256 / 255, i // 256 / 255, rng.choice([.25, .5])))
            tm.get_colour(*colours[-1])
        w = VoxelWorld(size=rng.choice([16, 64]))
        for i in rng.sample(range(len(colours)), rng.choice([1, 3])) + [len(colours) - rng.randint(1, 3)]:
            w.set_point(rng.randrange(9), rng.randrange(9), rng.randrange(9), cube.newtexcube(tex=i))
        path = ctx.path('a.vox')
        try:
            with open(path, 'wb') as h:
                to_magicavoxel(w, h, tm)
        except Exception as e:
            top = max(c.texture[0] for c in w.world.values())
            ctx.check(top > 254, 'a world of %d textures that uses none beyond the %d. is refused: %r' % (
                len(colours), top + 1, e))
            ctx.count('worlds of too many textures refused')
        else:
            judge(path, w, colours, dict(textures=len(colours)))
        ctx.seen((len(colours), sorted((k, c.texture[0]) for k, c in w.world.items())))

    # what rooms render
    for label, rng in ctx.cases('rooms', 100, 600, secs=(8, 90)):
        random.seed(rng.random())
        w, m = VoxelWorld(size=256), R.fresh_map()
        for i in range(rng.choice([1, 2, 5])):
            c = rng.choice(L.shipped())
            r = R.make(c, tuple(rng.randint(-1, 33) for _ in range(3)), rng.randrange(4), rng.choice(R.variants(c)))
            r.render(w, m)
        tm = prefabs.TEXMAN
        if len(tm.atlas) > 255:
            break
        colours = [(tm.atlas[i].r, tm.atlas[i].g, tm.atlas[i].b) for i in range(len(tm.atlas))]
        path = ctx.path('b.vox')
        with open(path, 'wb') as h:
            to_magicavoxel(w, h, tm)
        got = judge(path, w, colours, 'rooms')
        ctx.count('rendered rooms')
        ctx.seen(('rooms', sorted(got['voxels'])), bool(got['voxels']))
    for p in ('a.vox', 'b.vox'):
        if os.path.exists(ctx.path(p)):
            os.unlink(ctx.path(p))
