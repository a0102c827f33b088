"""C30: the preview command shows every room, its copies and its doorways."""
import builtins
import collections
import importlib
import logging
import os
import random
import re

from checks.c09 import leaves
from lib import layout as L, live, mapz, models, rooms as R, vox
from lib.core import REPO

RULE = """A case is a run of the preview command in a scratch directory from a random state of the random number
generator. Each file it writes is decoded independently and compared, voxel by voxel and colour by colour, with the
four turned copies of the room's model and one marker in the cell of every doorway that leads to a free cell of the
map. Map files (redirected into the scratch directory) are compared with the same model, and their entities with those
of the input map and the rooms. Non-trivial when a room's file was compared; distinct by room and run."""

POS = (11, 8, 1)


class Enough(BaseException):
    pass


def run(ctx):
    from redeclipse import prefabs, textures
    from redeclipse.voxel import VoxelWorld
    preview = importlib.import_module('redeclipse.cli.magicavoxel_room_test')
    ctx.need('preview files', 'room voxels', 'markers', 'map files', 'room entities')
    logging.disable(logging.CRITICAL)
    for c in list(vars(textures).values()):
        if isinstance(c, type) and 'copy_data' in vars(c):
            c.copy_data = lambda self: None
    TEX = prefabs.TEXMAN
    rooms = {c.__name__: c for c, model in R.classes() if model}
    home = ctx.path('work')
    os.makedirs(home)
    os.symlink(os.path.join(REPO, 'maps'), os.path.join(home, 'maps'))
    base = mapz.decode(mapz.read_raw(os.path.join(home, 'maps', 'empty-day.mpz')), world=False)[0]

    def expect(c):
        """({voxel: colour}, {marker cell}, {reserved cell}) of the room and its turned copies"""
        want, doors, used, copies = {}, [], set(), []
        for k in range(4):
            pos = L.turn(POS, k)
            want.update(models.expected(c, pos, k))
            r = R.make(c, pos, k)
            copies.append(r)
            used.update(L.cells(r))
            doors += [d for d, _ in L.doors(r)]
        free = {d for d in doors if L.legal(d) and d not in used}
        return want, free, used, copies

    def judge(name, got, what):
        """got: {voxel: (r, g, b) in 0..255}"""
        want, free, used, _ = expect(rooms[name])
        wrong = [p for p in want if p not in got]
        ctx.check(not wrong, '%s: %d voxels of %s are not shown' % (what, len(wrong), name), e_g=wrong[:4])
        for p, rgb in want.items():
            ctx.check(isinstance(rgb, str) or all(abs(a - 255 * b) <= 1 for a, b in zip(got[p], rgb)),
                      '%s: %s has another colour at %s' % (what, name, p), got=got[p], want=rgb)
        ctx.count('room voxels', len(want))
        marks = {}
        for p in got:
            if p not in want:
                cell = tuple(q // 8 for q in p)
                ctx.check(cell in free, '%s: a voxel that belongs neither to %s nor to a marker of a doorway'
                          % (what, name), at=p)
                marks.setdefault(cell, set()).add(tuple(q % 8 for q in p))
        bare = sorted(free - set(marks))
        ctx.check(not bare, '%s: doorways of %s without a marker' % (what, name), cells=bare[:5])
        ctx.check(len(set(map(frozenset, marks.values()))) <= 1, '%s: markers of different shapes' % what, room=name)
        ctx.count('markers', len(marks))
        ctx.seen((what, name, sorted(got)))

    def solo(r):
        w, m = VoxelWorld(size=256), R.fresh_map()
        r.render(w, m)
        return [key(live.ent(e)) for e in m.ents]

    def key(e):
        e = list(e)
        return repr(([round(c * 64) for c in e[:3]], e[3], [int(a) for a in e[4]]))

    def numbered(files, ext, stop=None):
        names = {}
        for f in files:
            m = re.match(r'^(\d+)_(\w+)\.%s$' % ext, f)
            if m:
                names[int(m.group(1))] = m.group(2)
        ctx.check(names and sorted(names) == list(range(len(names))), 'the files are not numbered from 0',
                  files=sorted(files))
        for n in names.values():
            ctx.check(n in rooms, 'a file for the unknown room %s' % n)
        ctx.equal(len(set(names.values())), len(names), 'number of different rooms')
        return names

    cwd = os.getcwd()
    order = []
    for label, rng in ctx.cases('voxels', 6, 60, secs=(40, 300), least=2):
        random.seed(rng.randrange(10 ** 9))
        for f in os.listdir(home):
            if f != 'maps':
                os.unlink(os.path.join(home, f))
        os.chdir(home)
        try:
            preview.main(magica=True)
        finally:
            os.chdir(cwd)
        names = numbered(os.listdir(home), 'vox')
        ctx.equal(len(os.listdir(home)), len(names) + 1, 'number of files written')
        order.append(names)
        ctx.equal(names, order[0], 'rooms shown by a later run')
        for i, name in names.items():
            with open(os.path.join(home, '%03d_%s.vox' % (i, name)), 'rb') as h:
                try:
                    d = vox.parse(h.read(), strict=True)
                except vox.BadVox as e:
                    ctx.fail('the .vox file of %s is malformed: %s' % (name, e))
            got = {tuple(v[:3]): d['palette'][v[3] - 1][:3] for v in d['voxels']}
            ctx.equal(len(got), len(d['voxels']), 'voxels of the .vox file of %s' % name)
            judge(name, got, 'the .vox file')
            ctx.count('preview files')

    # map files: written to a fixed directory, which is redirected
    real = builtins.open
    keep = 2 if ctx.quick else 99
    written = []

    def divert(file, mode='r', *a, **k):
        if isinstance(file, str) and file.startswith('/home/') and any(c in mode for c in 'wax'):
            if file.endswith('.mpz') and file not in written:
                if len(written) >= keep:
                    raise Enough
                written.append(file)
            file = os.path.join(home, os.path.basename(file))
        return real(file, mode, *a, **k)

    for label, rng in ctx.cases('maps', 1, 1):
        random.seed(rng.randrange(10 ** 9))
        os.chdir(home)
        builtins.open = divert
        try:
            preview.main(redeclipse=True)
        except Enough:
            pass
        finally:
            builtins.open = real
            os.chdir(cwd)
        names = numbered([os.path.basename(f) for f in written], 'mpz')
        for i, name in names.items():
            raw = mapz.read_raw(os.path.join(home, '%03d_%s.mpz' % (i, name)))
            try:
                d, _, _ = mapz.decode(raw)
            except mapz.Malformed as e:
                ctx.fail('the .mpz file of %s is malformed: %s' % (name, e))
            got = {}
            for o, h, n in leaves(d['world'], 256):
                if n['kind'] != 1:
                    ctx.check(h == 1, 'a solid cube of size %d in the map of %s' % (h, name))
                    ctx.equal(len(set(n['tex'])), 1, 'textures of one cube')
                    t = TEX.atlas[n['tex'][0]]
                    got[o] = tuple(255 * c for c in (t.r, t.g, t.b))
            judge(name, got, 'the map file')
            ents = [key(tuple(e[:3]) + (e[3], e[4])) for e in d['ents']]
            old = [key(tuple(e[:3]) + (e[3], e[4])) for e in base['ents']]
            ctx.equal(ents[:len(old)], old, 'the entities of the input map')
            mine = collections.Counter(x for r in expect(rooms[name])[3] for x in solo(r))
            lost = mine - collections.Counter(ents[len(old):])
            ctx.check(not lost, 'the map of %s lacks entities of the room or of one of its copies' % name,
                      e_g=sorted(lost)[:3])
            ctx.count('room entities', sum(mine.values()))
            ctx.equal(d['vars'], base['vars'], 'the variables of the input map')
            ctx.equal(sum(1 for e in d['ents'] if e[3] == 8), sum(1 for e in base['ents'] if e[3] == 8) + 1,
                      'number of sunlights')
            ctx.count('map files')
