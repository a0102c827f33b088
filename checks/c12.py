"""C12: model rooms are painted voxel for voxel in the colours of their model."""
import os
import random

from lib import rooms as R, vox
from lib.core import digest

RULE = """A case is the rendering of one room made from a .vox model - every shipped one and generated ones (random
voxels, colour numbers 0..255, odd sizes, with and without boundary additions) - at a random position in each
orientation, alone or interleaved with others into one world. The model file is parsed independently; each model voxel
must be found at its turned place in its colour and nothing else. Non-trivial always; distinct by room, place and
orientation."""

TEAM = {0: (1, 1, 0), 1: (0, 0, 1), 2: (0, 1, 0), 3: (1, 0, 0)}
FLAGROOMS = ('castle_flag_room', 'station_flagroom')


def run(ctx):
    from redeclipse import prefabs
    from redeclipse.objects import cube
    from redeclipse.prefabs.magica import MagicaRoom
    from redeclipse.vector import CoarseVector
    from redeclipse.vector.orientations import EAST, NORTH, SOUTH, WEST
    from redeclipse.voxel import VoxelWorld
    DIRS = [EAST, NORTH, WEST, SOUTH]
    ctx.need('shipped rooms', 'generated models', 'voxels', 'cells', 'interleaved worlds', 'team colours',
             'theme colours', 'turned', 'colour number 255', 'boundary additions', 'rendered again', 'large models', 'transparent colours',
             'models of the same file name', 'moved rooms', 'shared models')
    TEX = prefabs.TEXMAN
    models = {}

    def model(c):
        if c not in models:
            with open(c.vox_file, 'rb') as h:
                d = vox.parse(h.read(), strict=False)
            models[c] = ({(x, y, z): n for x, y, z, n in d['voxels']},
                         [(r / 255, g / 255, b / 255) for r, g, b, a in d['palette']])
        return models[c]

    def is_colour(tex, rgb):
        t = TEX.atlas[tex]
        return max(abs(a - b) for a, b in zip((t.r, t.g, t.b), rgb)) < 1e-9

    def expected(c, pos, k):
        """{voxel: wanted colour or texture index}"""
        vs, pal = model(c)
        add = c.boundary_additions
        out = {}
        for (x, y, z), n in vs.items():
            p = R.turn_voxel((x + add.get('WEST', 0), y + add.get('SOUTH', 0), z), k)
            rgb = pal[n]
            if c.__name__ in FLAGROOMS and rgb == (1, 0, 0):
                rgb = TEAM[k]
                ctx.count('team colours')
            elif c.__name__ == 'spawn_room':
                i = tuple(round(q * 255) for q in rgb)
                rgb = {(50, 50, 50): 'wall', (255, 255, 0): 'accent'}.get(i, 'floor')
                ctx.count('theme colours')
            if n == 255:
                ctx.count('colour number 255')
            out[tuple(8 * q + w for q, w in zip(pos, p))] = rgb
        return out

    def compare(world, want, before, who):
        got = {}
        for p, v in world.world.items():
            i = R.ints(p)
            ctx.check(i is not None, '%s paints between the grid points at %r' % (who, p))
            got[i] = v
        for p, v in before.items():
            if p not in want:
                ctx.check(got.pop(p, None) is v, '%s changed another voxel at %s' % (who, p))
        missing = [p for p in want if p not in got]
        extra = [p for p in got if p not in want]
        ctx.check(not missing, '%s lacks %d voxels of its model, e.g. %s' % (who, len(missing), missing[:4]))
        ctx.check(not extra, '%s has %d voxels that are not in its model, e.g. %s' % (who, len(extra), extra[:4]))
        themed = {}
        for p, rgb in want.items():
            c = got[p]
            ctx.check(isinstance(c, cube) and not c.children and (c.octsav & 7) in (2, 3),
                      '%s: no solid cube at %s' % (who, p))
            tex = list(c.texture)
            ctx.check(len(set(tex)) == 1, '%s: a cube with different faces at %s' % (who, p))
            if isinstance(rgb, str):
                themed.setdefault(rgb, set()).add(tex[0])
            else:
                t = TEX.atlas[tex[0]]
                ctx.check(is_colour(tex[0], rgb), '%s: wrong colour at %s' % (who, p), got=(t.r, t.g, t.b), want=rgb)
        for cat, ts in themed.items():
            ctx.check(ts == {TEX.get_c(cat)}, '%s: %s parts have textures %s' % (who, cat, ts))
        ctx.count('voxels', len(want))
        return got

    def cells(room, c, pos, k, who):
        add = c.boundary_additions
        base = {((x + add.get('WEST', 0)) // 8, (y + add.get('SOUTH', 0)) // 8, z // 8) for x, y, z in model(c)[0]}
        want = {tuple(a + b for a, b in zip(pos, R.turn_cell(q, k))) for q in base}
        got = [R.ints(q) for q in room.get_positions()]
        ctx.check(len(got) == len(set(got)), '%s reserves a cell twice' % who)
        ctx.check(want <= set(got), '%s does not reserve %s' % (who, sorted(want - set(got))))
        extra = set(got) - want
        if extra and c.room_type == 'stair':
            extra -= {(x, y, z + 1) for x, y, z in want}
        ctx.check(not extra, '%s reserves cells without voxels: %s' % (who, sorted(map(str, extra))))
        ctx.count('cells', len(want))

    def one(c, rng, k, again=False):
        pos = tuple(rng.choice([rng.randrange(2, 20), rng.randrange(32), 0, 31]) for _ in range(3))
        who = '%s at %s orientation %d' % (c.__name__, pos, k)
        room = R.make(c, pos, k)
        order = rng.random() < .5
        if order:
            if rng.random() < .5:
                ctx.check(len(list(room.get_doorways())) > 0, '%s has no doorways' % who)
            cells(room, c, pos, k, who)
        want = expected(c, pos, k)
        for i in range(2 if again else 1):
            if i and rng.random() < .6:     # the same room elsewhere
                if rng.random() < .8:
                    pos = tuple(q + rng.choice([0, 1, -1, 3]) for q in pos)
                if rng.random() < .5:
                    k = rng.randrange(4)
                room.pos, room.orientation = CoarseVector(*pos), DIRS[k]
                who += ', moved to %s orientation %d' % (pos, k)
                want = expected(c, pos, k)
                ctx.count('moved rooms')
            w = VoxelWorld(size=256)
            before = {}
            for q in rng.sample(sorted(want), min(5, len(want))):
                w.set_point(*q, 'in the way')
                q = tuple(a + rng.choice([-1, 1, 0]) for a in q)
                if q not in want:
                    before[q] = object()
                    w.set_point(*q, before[q])
            room.render(w, R.fresh_map())
            compare(w, want, before, who)
        if again:
            ctx.count('rendered again')
        if not order:
            cells(room, c, pos, k, who)
        ctx.seen((c.__name__, pos, k, len(want), digest(sorted(model(c)[0].items())[:200])))
        if k:
            ctx.count('turned')

    shipped = [c for c, m in R.classes() if m]
    for label, rng in ctx.cases('shipped', 1, 6, secs=(60, 240), least=1):
        random.seed(rng.random())
        rng.shuffle(shipped)
        for c in shipped:
            for k in (rng.sample(range(4), 4) if len(model(c)[0]) < 4000 or not ctx.quick else rng.sample(range(4), 2)):
                one(c, rng, k, again=len(model(c)[0]) < 800)
            ctx.count('shipped rooms')
        ctx.sample({'rooms': [c.__name__ for c in shipped[:5]]})
    for label, rng in ctx.cases('flags', 1, 1, least=1):
        for c in shipped:
            if c.__name__ in FLAGROOMS + ('spawn_room',):
                for k in range(4):
                    one(c, rng, k)

    made = []

    def synth(rng):
        alpha = rng.choice([[255], [255], [0, 255], [0, 1, 127, 128, 254, 255]])
        pal = [tuple(rng.choice([0, 1, 254, 255, rng.randint(0, 255), rng.randint(0, 255)]) for _ in range(3)) + (rng.choice(alpha),)
               for _ in range(256)]
        if rng.random() < .3:       # few different colours
            pal = [rng.choice(pal[:rng.choice([1, 2, 5])]) for _ in range(256)]
        size = [rng.choice([1, 5, 8, 9, 16, 24, 33]) for _ in range(3)]
        if rng.random() < .2:
            size[rng.randrange(3)] = rng.choice([64, 65, 72, 126, 127, 128, 129, 200, 255, 256])
            ctx.count('large models')
        if len(alpha) > 1:
            ctx.count('transparent colours')
        n = rng.choice([1, 3, 40, 300])
        vs = {tuple(rng.randrange(s) for s in size): rng.choice([1, 2, 254, 255, rng.randint(0, 255)])
              for _ in range(n)}
        if rng.random() < .3:       # a stack
            at = [rng.randrange(s) for s in size]
            ax = rng.randrange(3)
            for i in range(size[ax]):
                vs[tuple(at[:ax] + [i] + at[ax + 1:])] = rng.choice([1, rng.randint(0, 255)])
        path = ctx.path('m%d.vox' % len(made))
        if rng.random() < .5:       # one of several files of the same name
            os.makedirs(ctx.path('set%d' % len(made)))
            path = os.path.join(ctx.path('set%d' % len(made)), rng.choice(['room.vox', 'hall.vox']))
            ctx.count('models of the same file name')
        with open(path, 'wb') as h:
            h.write(vox.build(size, [p + (v,) for p, v in vs.items()], pal))
        if made and rng.random() < .2:      # another room of a known model
            path = rng.choice(made[-8:]).vox_file
            ctx.count('shared models')
        add = {}
        if rng.random() < .3:
            add = {k: rng.choice([rng.randint(1, 7), rng.randint(0, 20)]) for k in ('WEST', 'SOUTH') if rng.random() < .8}
        if add:
            ctx.count('boundary additions')
        c = type('Made%d' % len(made), (MagicaRoom,),
                 {'vox_file': path, 'name': 'made_%d' % len(made), 'room_type': rng.choice(['hallway', 'oriented']),
                  'boundary_additions': add})
        made.append(c)
        return c

    for label, rng in ctx.cases('made', 60, 800, secs=(20, 150)):
        c = synth(rng)
        for k in range(4):
            one(c, rng, k, again=rng.random() < .5)
        ctx.count('generated models')

    # several rooms, constructed first, rendered in any order, some twice, into one or two worlds
    for label, rng in ctx.cases('interleaved', 8, 120, secs=(25, 150)):
        random.seed(rng.random())
        pool = [c for c in shipped if len(model(c)[0]) < 1500] + made[-10:]
        worlds = [(VoxelWorld(size=256), {}) for _ in range(2)]
        todo = []
        for i in range(rng.randint(3, 7)):
            c, k = rng.choice(pool), rng.randrange(4)
            pos = (rng.randrange(0, 200), rng.randrange(0, 200), 60 * i)
            todo.append((R.make(c, pos, k), c, pos, k, rng.randrange(2)))
        todo += rng.sample(todo, 2)
        rng.shuffle(todo)
        for room, c, pos, k, i in todo:
            if rng.random() < .3:
                cells(room, c, pos, k, c.__name__)
            room.render(worlds[i][0], R.fresh_map())
            worlds[i][1].update(expected(c, pos, k))
        for room, c, pos, k, i in todo:
            cells(room, c, pos, k, c.__name__)
        for w, want in worlds:
            compare(w, want, {}, 'a world of rooms %s' % [t[1].__name__ for t in todo])
        ctx.count('interleaved worlds')
        ctx.seen([(t[1].__name__, t[2:]) for t in todo])
