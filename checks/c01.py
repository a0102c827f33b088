"""C01: reading and writing a map reproduces its bytes."""
import glob
import os
import resource
import subprocess
import sys

from lib import mapz
from lib.core import REPO, brief

RULE = """A case is one generated map file (random header, variables, texture history, entities, vslot runs and
octree, sometimes with junk behind the octree) or one shipped map, driven through a random history of reads and
writes; non-trivial when the written content was compared byte for byte with the original; distinct by content."""


def run(ctx):
    from redeclipse import MapParser
    ctx.need('files compared', 'writes over the input', 'shared parser reads', 'shipped maps', 'iso command runs',
             'read after refused file', 'writes that did not fit', 'writes that just fitted')

    def compare(path, data, what, **d):
        try:
            got = mapz.read_raw(path)
        except Exception as e:
            ctx.fail('%s: the written file is not complete when write returns: %r' % (what, e), **d)
        ctx.count('files compared')
        ctx.check(got == data, '%s: the written file differs from the original: %s' % (
            what, mapz.diff(got, data)), **d)

    # single maps, all features
    parser = MapParser()
    for label, rng in ctx.cases('roundtrip', 1500, 12000, secs=(20, 200)):
        m = mapz.gen_map(rng, big=rng.random() < 0.1)
        data = mapz.encode(m)
        src = ctx.path('in.mpz')
        tail = bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 0, 1, 40])))
        mapz.write_gz(src, data + tail)
        if rng.random() < 0.5:
            parser = MapParser()
        else:
            ctx.count('shared parser reads')
        obj = parser.read(src)
        dst = ctx.path('out.mpz')
        k = rng.randrange(4)
        if k == 0:          # an older, longer file is there
            with open(dst, 'wb') as h:
                h.write(b'x' * (len(data) * 2 + 5000))
        elif k == 1 and os.path.exists(dst):
            os.remove(dst)
        elif k == 2:        # write over the input
            dst = src
            ctx.count('writes over the input')
        obj.write(dst)
        compare(dst, data, 'read and write', map=mapz.shape(m))
        if rng.random() < 0.3:      # writing again, and reading the result
            obj.write(dst)
            compare(dst, data, 'second write', map=mapz.shape(m))
            again = parser.read(dst)
            again.write(ctx.path('out2.mpz'))
            compare(ctx.path('out2.mpz'), data, 'second generation', map=mapz.shape(m))
        ctx.count('nodes', mapz.count_nodes(m['world']))
        ctx.count('entities', len(m['ents']))
        ctx.seen(data)
        ctx.sample(mapz.shape(m))

    # a full disk: a write that returns has written everything
    for label, rng in ctx.cases('full', 60, 400, secs=(10, 60)):
        data = mapz.encode(mapz.gen_map(rng))
        src, dst = ctx.path('in.mpz'), ctx.path('limit.mpz')
        mapz.write_gz(src, data)
        obj = parser.read(src)
        if os.path.lexists(dst):
            os.remove(dst)
        room = rng.choice([0, 1, 10, 100, os.path.getsize(src) // 2, os.path.getsize(src), 10 ** 6])
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        if rng.random() < .3 and os.path.exists('/dev/full'):
            os.symlink('/dev/full', dst)
        else:
            resource.setrlimit(resource.RLIMIT_FSIZE, (room, hard))
        try:
            obj.write(dst)
            done = True
        except OSError:
            done = False
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        if os.path.islink(dst):
            os.remove(dst)
            ctx.check(not done, 'a write to a full device returns as if it had succeeded')
        elif done:
            compare(dst, data, 'writing with room for %d bytes' % room)
        ctx.count('writes that did not fit' if not done else 'writes that just fitted')
        ctx.seen((label, data))

    # histories with several parsers, maps and refused files
    for label, rng in ctx.cases('history', 100, 800, secs=(12, 120)):
        parsers = [MapParser() for _ in range(2)]
        files = {}
        objs = []
        trace = []
        for step in range(rng.randint(6, 18)):
            op = rng.choice(['new', 'read', 'read', 'write', 'write', 'bad', 'over'])
            if op == 'new' or not files:
                p = ctx.path('h%d.mpz' % rng.randrange(4))
                data = mapz.encode(mapz.gen_map(rng))
                mapz.write_gz(p, data)
                files[p] = data
                trace.append(('new', os.path.basename(p), len(data)))
            elif op == 'read' or not objs:
                p = rng.choice(sorted(files))
                i = rng.randrange(2)
                objs.append((parsers[i].read(p), files[p]))
                trace.append(('read', i, os.path.basename(p)))
            elif op == 'bad':
                p = ctx.path('bad.mpz')
                data = mapz.encode(mapz.gen_map(rng))
                mapz.write_gz(p, data[:rng.randrange(1, len(data))])
                i = rng.randrange(2)
                try:
                    parsers[i].read(p)
                except Exception:
                    pass
                ctx.count('read after refused file')
                trace.append(('bad', i))
            else:
                j = rng.randrange(len(objs))
                p = rng.choice(sorted(files)) if op == 'over' else ctx.path('w%d.mpz' % rng.randrange(3))
                objs[j][0].write(p)
                files[p] = objs[j][1]
                trace.append((op, j, os.path.basename(p)))
                compare(p, objs[j][1], 'history %s' % op, trace=trace)
        for p in sorted(files):
            compare(p, files[p], 'end of history', trace=trace)
        ctx.seen(trace)
        ctx.sample(trace, 8)

    # the maps that come with the package
    mp = sorted(glob.glob(os.path.join(REPO, 'maps', 'empty*.mpz')) +
                glob.glob(os.path.join(REPO, 'tests', 'files', '*.mpz')))
    for label, rng in ctx.cases('shipped', 1, 1):
        for p in mp:
            raw = mapz.read_raw(p)
            m, _, end = mapz.decode(raw)
            dst = ctx.path('s.mpz')
            MapParser().read(p).write(dst)
            compare(dst, raw[:end], os.path.basename(p))
            ctx.count('shipped maps')
            ctx.seen(p)

    # the iso command, which is this property's user interface
    for label, rng in ctx.cases('iso', 2, 8):
        data = mapz.encode(mapz.gen_map(rng))
        mapz.write_gz(ctx.path('i.mpz'), data)
        subprocess.run([sys.executable, '-W', 'ignore', '-m', 'redeclipse.cli.iso', ctx.path('i.mpz'), ctx.path('o.mpz')],
                       env=dict(os.environ, PYTHONPATH=REPO), stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=300)
        compare(ctx.path('o.mpz'), data, 'iso command')
        ctx.count('iso command runs')
        ctx.seen(data)
