"""C25: the generator renders every room once and reports what it built."""
import argparse
import collections
import json
import logging
import os
import random

from checks.c09 import leaves
from checks.c22 import parse as parse_cfg, BadCfg
from lib import layout as L, live, mapz, models, rooms as R, vox

RULE = """A case is a generator run (random input map, seed, room count, mirror mode, flags, debug, flavours, size)
whose world, map and layout are compared with an independent rendering of the placed rooms' models, and whose output
files are decoded independently and compared with the world, the map, the requested flavours and the layout. A second
kind writes the outputs of layouts made of any rooms. Non-trivial when rooms were placed; distinct by arguments."""


def run(ctx):
    from redeclipse import prefabs, textures, worldflavors
    from redeclipse.cli import magica_rooms, output
    from redeclipse.enums import EntType
    from redeclipse.prefabs.magica import MagicaRoom
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.voxel import VoxelWorld
    ctx.need('generator runs', 'voxels compared', 'vox files', 'mpz files', 'graphs', 'graph edges', 'flavour lines',
             'mirror 1', 'mirror 2', 'mirror 4', 'flag layouts', 'debug layouts', 'input entities', 'written layouts',
             'maps with many entities', 'edges of rooms that share a position')
    logging.disable(logging.CRITICAL)
    # the install step copies into a hard-coded home directory; it is left out
    for c in list(vars(textures).values()):
        if isinstance(c, type) and 'copy_data' in vars(c):
            c.copy_data = lambda self: None
    TEX = prefabs.TEXMAN

    def rgb_of(i):
        t = TEX.atlas[i]
        return (t.r, t.g, t.b)

    def ents_of(m):
        return [live.ent(e) for e in m.ents]

    def norm(e):
        return repr((round(e[0] * 64), round(e[1] * 64), round(e[2] * 64), e[3:]))

    def solo(room):
        """voxels and entities of this room alone"""
        w, m = VoxelWorld(size=256), R.fresh_map()
        twin = R.make(type(room), R.ints(room.pos), L.k_of(room), L.flags_of(room))
        twin.render(w, m)
        return {R.ints(p): c for p, c in w.world.items()}, ents_of(m)

    def judge_world(v, u, what):
        want = {}
        for r in u.rooms:
            if isinstance(r, MagicaRoom):
                want.update(models.expected(type(r), R.ints(r.pos), L.k_of(r)))
            else:
                want.update({p: rgb_of(c.texture[0]) for p, c in solo(r)[0].items()})
        got = {R.ints(p): c for p, c in v.world.items()}
        ctx.check(None not in got and len(got) == len(v.world), 'a voxel between the points', args=what)
        missing = [p for p in want if p not in got]
        extra = [p for p in got if p not in want]
        ctx.check(not missing, 'the world lacks %d voxels of the placed rooms, e.g. %s' % (len(missing), missing[:4]),
                  args=what)
        ctx.check(not extra, 'the world has %d voxels of no placed room, e.g. %s' % (len(extra), extra[:4]), args=what)
        cats = {}
        for p, rgb in want.items():
            tex = list(got[p].texture)
            ctx.check(len(set(tex)) == 1, 'a cube with different faces at %s' % (p,), args=what)
            if isinstance(rgb, str):
                if rgb not in cats:
                    cats[rgb] = rgb_of(TEX.get_c(rgb))
                rgb = cats[rgb]
            have = rgb_of(tex[0])
            ctx.check(max(abs(a - b) for a, b in zip(have, rgb)) < 1e-9, 'wrong colour at %s' % (p,),
                      got=have, want=rgb, args=what)
        ctx.count('voxels compared', len(want))
        return got

    places = ['out/o.mpz'] * 3 + ['out.mpz/o.mpz', 'out/o.map', 'out.mpz.d/o']

    def judge_outputs(v, m, u, lines, what, mpz=True):
        # the configuration lies beside the map, whatever their names
        where = random.Random(str(ctx.label)).choice(places)
        d = ctx.path(os.path.dirname(where))
        os.makedirs(d, exist_ok=True)
        names = {k: os.path.join(d, 'o.' + k) for k in ('vox', 'json')}
        names['mpz'] = ctx.path(where)
        names['cfg'] = os.path.splitext(names['mpz'])[0] + '.cfg'
        for n in names.values():
            if os.path.exists(n):
                os.unlink(n)
        rooms = [(r.name, R.ints(r.pos)) for r in u.rooms]
        args = argparse.Namespace(magica=open(names['vox'], 'wb'), mpz_out=open(names['mpz'], 'w') if mpz else None,
                                  graph=open(names['json'], 'w'))
        before = [(k, list(c.texture)) for k, c in v.world.items()]
        ents = ents_of(m)
        try:
            output(v, m, u, prefabs, args)
        finally:
            for h in (args.magica, args.mpz_out, args.graph):
                if h:
                    h.close()
        ctx.check(before == [(k, list(c.texture)) for k, c in v.world.items()] and ents == ents_of(m),
                  'writing the outputs changes the world or the map', args=what)
        world = {R.ints(p): c for p, c in v.world.items()}
        # .vox
        with open(names['vox'], 'rb') as h:
            try:
                got = vox.parse(h.read(), strict=True)
            except vox.BadVox as e:
                ctx.fail('the .vox file is malformed: %s' % e, args=what)
        want = {p: rgb_of(c.texture[0]) for p, c in world.items() if all(0 <= q <= 255 for q in p)}
        have = {tuple(x[:3]): got['palette'][x[3] - 1][:3] for x in got['voxels']}
        ctx.check(len(have) == len(got['voxels']), 'the .vox file lists a voxel twice', args=what)
        ctx.check(set(have) == set(want), 'the .vox file holds other voxels than the world', args=what,
                  missing=sorted(set(want) - set(have))[:4], extra=sorted(set(have) - set(want))[:4])
        for p, rgb in want.items():
            ctx.check(all(abs(a - 255 * b) <= 1 for a, b in zip(have[p], rgb)),
                      'the .vox file shows another colour at %s' % (p,), got=have[p], want=rgb, args=what)
        ctx.count('vox files')
        if mpz:
            raw = mapz.read_raw(names['mpz'])
            try:
                dec, _, end = mapz.decode(raw)
            except mapz.Malformed as e:
                ctx.fail('the .mpz file is malformed: %s' % e, args=what)
            found = {}
            for o, h, n in leaves(dec['world'], v.size):
                if n['kind'] != 1:
                    ctx.check(h == 1, 'a solid cube of size %d in the .mpz file' % h, args=what)
                    found[o] = n['tex']
            inside = {p: list(c.texture) for p, c in world.items() if all(0 <= q < v.size for q in p)}
            ctx.check(found == inside, 'the .mpz file holds another world', args=what,
                      missing=sorted(set(inside) - set(found))[:4], extra=sorted(set(found) - set(inside))[:4])
            diff = live.first_diff([plain(e) for e in dec['ents']], [plain(e) for e in ents])
            ctx.check(diff is None, 'the .mpz file holds other entities than the map: %s' % diff, args=what)
            ctx.check(os.path.exists(names['cfg']), 'the .cfg file is not written beside the map', map=where, args=what)
            with open(names['cfg']) as h:
                text = h.read()
            try:
                slots, other = parse_cfg(text)
            except BadCfg as e:
                ctx.fail('the .cfg file is malformed: %s' % e, args=what)
            ctx.equal(other, lines, 'the .cfg file ends with other settings than those of the flavours', args=what)
            tail = [x for x in text.splitlines() if x.strip()]
            ctx.check(not lines or tail[len(tail) - len(lines):] == lines, 'the flavours are not at the end', args=what)
            ctx.equal(len(slots), len(TEX.atlas), 'number of slots in the .cfg file', args=what)
            for i, s in enumerate(slots):
                if i > 1 and s['colour'] is not None:
                    ctx.check(max(abs(a - b) for a, b in zip(s['colour'], rgb_of(i))) < 1e-9,
                              'slot %d of the .cfg file has another colour' % i, args=what)
                ctx.check(i < 2 or s['colour'] is not None, 'slot %d of the .cfg file has no colour' % i, args=what)
            ctx.count('flavour lines', len(lines))
            ctx.count('mpz files')
        # graph
        with open(names['json']) as h:
            g = json.load(h)
        nodes = g['nodes']
        ids = [n['id'] for n in nodes]
        ctx.check(len(ids) == len(set(ids)), 'two nodes of the graph have one id', args=what)
        spare = [n for n in nodes if n['name'] == 'None']
        ctx.equal([n['name'] for n in nodes if n not in spare], [n for n, _ in rooms],
                  'the graph lists other rooms', args=what)
        ctx.check(len(spare) <= 1, 'the graph lists several placeholders', args=what)
        order = {n['id']: i for i, n in enumerate(n for n in nodes if n not in spare)}
        at = {}
        for i, (_, p) in enumerate(rooms):
            at.setdefault(p, []).append(i)
        links = [(R.ints(a), R.ints(b)) for a, b in u.links]
        edges = [(order.get(e['source']), order.get(e['target'])) for e in g['links']]
        ctx.check(all(i is not None and j is not None for i, j in edges), 'the graph links a room that it does not list',
                  args=what, edges=edges[:8])
        ctx.equal(sorted((rooms[i][1], rooms[j][1]) for i, j in edges), sorted(links),
                  'the graph links other rooms than the layout', args=what)
        for i, j in edges:
            # several rooms may be placed at one position; those that are linked open into one another
            if len(at[rooms[i][1]]) > 1 or len(at[rooms[j][1]]) > 1:
                ctx.check(i < j and L.joined(u.rooms[i], u.rooms[j]), 'the graph links two rooms that are not joined',
                          args=what, rooms=(L.placed(u.rooms[i]), L.placed(u.rooms[j])))
                ctx.count('edges of rooms that share a position')
        ctx.check(len({j for i, j in edges}) == len(edges), 'the graph links a room twice to an earlier one', args=what)
        ctx.count('graph edges', len(u.links))
        ctx.count('graphs')

    def plain(e):
        # the file holds single-precision coordinates and whole numbers
        return [mapz.to32(float(c)) for c in e[:3]] + [e[3], [int(a) for a in e[4]], list(e[5])]

    for label, rng in ctx.cases('run', 14, 120, secs=(40, 360), least=6):
        i = int(label.split('-')[1])
        src = ctx.path('in.mpz')
        m0 = mapz.gen_map(rng)
        if i in (2, 3):
            m0['ents'] = [mapz.gen_ent(rng) for _ in range(rng.choice([257, 1025, 2100]))]
            m0['meta'] = [(k, len(m0['ents']) if k == 'numents' else v) for k, v in m0['meta']]
            ctx.count('maps with many entities')
        mapz.write_gz(src, mapz.encode(m0))
        mirror = [1, 2, 4][i % 3]
        ctf, debug = i % 4 == 1, i % 5 == 2
        flavor = None
        if i % 2 == 0:
            flavor = [rng.choice(worldflavors.choices) for _ in range(rng.randint(1, 3))]
        size = rng.choice([64, 128, 128, 256]) if i % 3 else rng.choice([64, 128])
        mpz = size <= 128 or (not ctx.quick and rng.random() < .2)
        rooms = rng.choice([0, 1, 2, 4, 6, 9] if ctx.quick else [0, 1, 3, 6, 12, 25])
        # known to place rooms at one position
        shared = {3: (5, 3), 4: (96, 4)}.get(i)
        if shared:
            mirror, size, mpz = 1, 64, True
        kw = dict(size=size, seed=rng.randrange(10 ** 6), rooms=rng.choice([rooms, str(rooms)]), debug=debug, ctf=ctf,
                  mirror=mirror, flavor=flavor)
        if shared:
            kw['seed'], kw['rooms'] = shared
            rooms = kw['rooms']
        prefabs_state = len(TEX.atlas)
        with open(src, 'rb') as h:
            v, m, u = magica_rooms.main(argparse.Namespace(name=h.name), **kw)
        ctx.count('generator runs')
        ctx.count('mirror %d' % mirror)
        ctx.count('flag layouts', ctf)
        ctx.count('debug layouts', debug)
        ctx.check(v.size == size, 'a world of size %r' % v.size, args=kw)
        spots = [R.ints(r.pos) for r in u.rooms]
        ctx.count('rooms at the position of another', len(spots) - len(set(spots)))
        start = u.rooms[0]
        ctx.check(R.ints(start.pos) == (8, 8, 3), 'the starting room is at %s' % (start.pos,), args=kw)
        placed = [r for r in u.rooms[mirror:]]
        ctx.check(len(u.rooms) >= mirror and len(u.links) <= max(0, rooms + mirror - 1),
                  '%d rooms and %d links' % (len(u.rooms), len(u.links)), args=kw)
        judge_world(v, u, kw)
        # the entities: those of the map, a sun, those of the rooms
        got = ents_of(m)
        own = [live.ent(e) for e in magica_rooms.parse(src).ents]
        # (read by the library; C02 decides that it reads maps right)
        ctx.equal(got[:len(own)], own, 'the entities of the input map are not kept', args=kw)
        ctx.count('input entities', len(own))
        sun = EntType.ET_SUNLIGHT.value
        rest = got[len(own):]
        ctx.equal(sum(e[3] == sun for e in rest), 1, 'number of suns', args=kw)
        want = []
        for r in u.rooms:
            want += solo(r)[1]
        count = collections.Counter(norm(e) for e in rest if e[3] != sun)
        ctx.check(count == collections.Counter(map(norm, want)), 'the entities are not those of the placed rooms',
                  args=kw, missing=list((collections.Counter(map(norm, want)) - count))[:3],
                  extra=list((count - collections.Counter(map(norm, want))))[:3])
        lines = []
        for f in flavor or []:
            lines += getattr(worldflavors, f)()
        ctx.equal(list(m.cfg_extra), lines, 'the settings of the map are not those of the flavours', args=kw)
        judge_outputs(v, m, u, lines, kw, mpz)
        ctx.seen(kw, len(placed) > 0)
        ctx.sample(dict(kw, placed=[r.name for r in u.rooms][:6], textures=prefabs_state))

    # the outputs of any layout
    for label, rng in ctx.cases('layout', 60, 800, secs=(25, 200)):
        random.seed(rng.random())
        u = UnusedPositionManager(256, mirror=rng.choice([1, 2, 4]))
        pool = L.room_set(rng)
        if label.endswith(('0', '3', '6')):
            pool = [L.beside('beside')] + pool[:1]
        if not L.start(rng, u, pool=pool):
            continue
        u.place_rooms(False, pool, rooms=rng.choice([1, 4, 15]))
        u.endcap(debug=True)
        # links refer to rooms by the cells they start from
        if len(TEX.atlas) > 250:
            break
        v, m = VoxelWorld(size=rng.choice([16, 32, 64])), R.fresh_map()
        hollow = rng.random() < .15     # rooms that paint nothing
        ctx.count('layouts without voxels', hollow)
        for r in [] if hollow else u.rooms:
            try:
                hasattr(r, 'render') and r.render(v, m)
            except NotImplementedError:
                pass
        flavor = rng.choice([rng.sample(worldflavors.choices, rng.randint(0, 3)),
                             [rng.choice(worldflavors.choices) for _ in range(rng.randint(2, 5))]])
        m.cfg_extra = []
        m = worldflavors.update(m, flavor)
        lines = [x for f in flavor for x in getattr(worldflavors, f)()]
        judge_outputs(v, m, u, lines, 'layout of %d rooms' % len(u.rooms))
        ctx.count('written layouts')
        ctx.seen(('layout', [L.placed(r) for r in u.rooms]), len(u.rooms) > 1)
