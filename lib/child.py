"""Runs in fresh processes, for the monitors that compare processes.

child.py cli <argv...>       the generator as a command, with its hard-coded install step left out
child.py engine <seed> <n>   layouts of the cheap rooms; prints one digest of observations per line
child.py twice <argv...>     main() of the generator twice in this process; prints both layouts
child.py read <file...>   reads each file; prints 'map' or 'refused' per file
child.py seeds <map> <rooms> <seed...>   main() with each seed, rooms not painted; prints one digest per seed
"""
import os
import random
import runpy
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def unsettle():
    """another clock and another heap than other processes have"""
    n = int(os.environ.get('VERIF_UNSETTLE', '0'))
    global ballast
    ballast = [bytearray(17 * (i % 50) + n) for i in range(n * 977)]
    del ballast[::3]
    if n:
        real = time.time
        time.time = lambda: real() + n * 86413.7


def no_install():
    from redeclipse import textures
    for c in list(vars(textures).values()):
        if isinstance(c, type) and 'copy_data' in vars(c):
            c.copy_data = lambda self: None


def layout(u):
    from lib import layout as L, rooms as R
    return ([L.placed(r) for r in u.rooms], [(R.ints(a), R.ints(b)) for a, b in u.links],
            [(R.ints(p), L.placed(r), R.ints(o)) for p, r, o in u.unoccupied],
            [(R.ints(p), L.placed(r)) for p, r in u.occupied.items()])


def engine(seed, n):
    from lib import layout as L, live, rooms as R
    from lib.core import digest
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.voxel import VoxelWorld
    for i in range(n):
        rng = random.Random('%s-%d' % (seed, i))
        pool = L.unique(L.room_set(rng)) if rng.random() < .4 else list(L.shipped())
        mirror, rooms = rng.choice([1, 2, 4]), rng.choice([3, 10, 25])
        caps = [L.gen_class(rng, 'Cap%d' % j, single_door=True) for j in range(rng.choice([0, 1, 3]))]
        shows = []
        for turn in range(2):
            random.seed('%s %d' % (seed, i))
            u = UnusedPositionManager(256, mirror=mirror)
            u.register_room(R.make(L.shipped()[0], (8, 8, 3), 0, R.variants(L.shipped()[0])[0]))
            u.place_rooms(False, list(pool), rooms=rooms)
            u.endcap(debug=not caps, possible_endcaps=list(caps))
            shows.append(layout(u))
            if turn:
                continue
            v, m = VoxelWorld(size=256), R.fresh_map()
            for r in u.rooms:
                r.render(v, m)
            cubes = [(tuple(map(float, k)), c.octsav & 7, list(c.texture)) for k, c in v.world.items()]
            print(i, 'layout', digest(shows[0]).hex(), 'voxels', digest(cubes).hex(), 'entities',
                  digest([live.ent(e) for e in m.ents]).hex(), len(u.rooms), len(cubes), len(m.ents),
                  digest(random.getstate()).hex(), file=OUT)
        if shows[0] != shows[1]:
            print(i, 'a second run in the same process gives another layout', file=OUT)


def twice(argv):
    import argparse
    from redeclipse.cli import magica_rooms as M
    a = argparse.Namespace(seed=int(argv[1]), rooms=int(argv[2]), mirror=int(argv[3]))
    seen = []
    for _ in range(2):
        with open(argv[0]) as h:
            v, m, u = M.main(h, **vars(a))
        seen.append(layout(u))
    print('same' if seen[0] == seen[1] else 'different', len(seen[0][0]), file=OUT)


def read(argv):
    from redeclipse import MapParser
    said = []
    for p in argv:
        try:
            MapParser().read(p)
            said.append('map')
        except Exception:
            said.append('refused')
    OUT.write(' '.join(said) + '\n')


def seeds(argv):
    from lib.core import digest
    from redeclipse.cli import magica_rooms as M
    from redeclipse.prefabs import Room
    kinds = [Room]
    for c in kinds:         # what is painted does not matter here
        kinds.extend(c.__subclasses__())
        if 'render' in vars(c):
            c.render = lambda self, *args, **kw: None
    for seed in argv[2:]:
        with open(argv[0]) as h:
            v, m, u = M.main(h, seed=int(seed), rooms=int(argv[1]), mirror=1)
        print(seed, digest(layout(u)).hex(), len(u.rooms), file=OUT)


if __name__ == '__main__':
    OUT = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    unsettle()
    no_install()
    mode, args = sys.argv[1], sys.argv[2:]
    if mode == 'cli':
        sys.argv = ['magica_rooms'] + args
        runpy.run_module('redeclipse.cli.magica_rooms', run_name='__main__')
    elif mode == 'engine':
        engine(args[0], int(args[1]))
    elif mode == 'twice':
        twice(args)
    elif mode == 'read':
        read(args)
    elif mode == 'seeds':
        seeds(args)
    OUT.flush()
