"""C04: damaged or unsupported map files are refused."""
import copy
import glob
import os
import struct
import subprocess
import sys

from lib import core, mapz
from lib.core import REPO, Hang

RULE = """A case is one damaged or unsupported file: a generated (or shipped) map cut at some byte, or with one
corruption (magic, variable type, octree node kind, entity type, entity attribute count, not gzip), or with content
that cannot be preserved (face vertices, changed vslots), at the limits of the format or edited so that it cannot be
written, or a shipped map; non-trivial when the file differs from a
supported map in just that respect and the verdict raised / returned was observed; distinct by content."""

ALL_TYPES = set(range(256)) - set(mapz.ENT_ATTRS)


def leaves(nodes):
    for n in nodes:
        if 'kids' in n:
            yield from leaves(n['kids'])
        else:
            yield n
            yield from leaves(n.get('lod', ()))


def run(ctx):
    from redeclipse import MapParser
    ctx.need('cut', 'magic', 'vartype', 'node', 'enttype', 'attrcount', 'gzip', 'verts', 'vslot', 'shipped maps',
             'control reads accepted', 'earlier files kept',
             'files read by another interpreter', 'gzip trailers')

    shared = MapParser()

    def refused(path, parser=None):
        """None if reading raises, else the map."""
        try:
            return (parser or MapParser()).read(path), None
        except (Hang, KeyboardInterrupt, MemoryError):
            raise
        except SystemExit as e:
            ctx.check(False, 'reading a damaged or unsupported map ended the program instead of raising an error: %r' % e)
        except BaseException as e:
            return None, e

    def must_refuse(data, kind, rng, **d):
        p = ctx.path('bad.mpz')
        mapz.write_gz(p, data)
        m, e = refused(p, shared if rng.random() < 0.5 else None)
        ctx.check(e is not None, '%s: the file was accepted' % kind, **d)
        ctx.count(kind)
        ctx.seen(data)

    def accepted(data, rng):
        p = ctx.path('good.mpz')
        mapz.write_gz(p, data)
        m, e = refused(p, shared if rng.random() < 0.5 else None)
        ctx.check(e is None, 'a supported map was refused: %r' % e)
        ctx.count('control reads accepted')

    # every truncation point of small maps, sampled ones of larger maps
    for label, rng in ctx.cases('cut', 15, 150, secs=(14, 120)):
        small = rng.random() < 0.7
        while True:
            m = mapz.gen_map(rng)
            marks = []
            data = mapz.encode(m, marks)
            if not small or len(data) < 1500:
                break
        tail = bytes(rng.randint(0, 255) for _ in range(20))
        accepted(data + tail, rng)
        cuts = range(len(data)) if small else sorted(
            {rng.randrange(len(data)) for _ in range(150)} | {o for n, o in marks if o < len(data)} | {len(data) - 1})
        for c in cuts:
            must_refuse(data[:c], 'cut', rng, at=c, of=len(data), field=mapz.where(marks, c))
        ctx.sample({'cut': mapz.shape(m), 'cuts': len(cuts), 'length': len(data)})

    for label, rng in ctx.cases('corrupt', 1200, 10000, secs=(15, 160)):
        m = mapz.gen_map(rng)
        kind = rng.choice(['magic', 'vartype', 'node', 'enttype', 'attrcount', 'gzip', 'gzipcut'])
        if kind == 'magic':
            accepted(mapz.encode(m), rng)
            other = rng.choice([b'MAPZBFGZ', b'BFGZMAPZ', b'MAPZ BFGZ', b'MAPZ,BFGZ', b'BFGZ MAPZ', b'MAPZ\0BFGZ'])
            at = rng.randrange(len(other) - 3)
            letters = [rng.choice(b'MAPZBFG') for _ in range(4)]
            one = bytearray(rng.choice([b'MAPZ', b'BFGZ']))
            one[rng.randrange(4)] = rng.choice([0, 32, rng.randrange(256)])
            m['magic'] = rng.choice([other[at:at + 4], bytes(letters), bytes(one), bytes(one), b'mapz', b'MAPX', b'OCTA', b'ZPAM', b'BFGX', b'\0\0\0\0', b'MAP ', b'BFG\0',
                                     bytes(rng.randint(0, 255) for _ in range(4))])
            if m['magic'] in (b'MAPZ', b'BFGZ'):
                continue
            must_refuse(mapz.encode(m), 'magic', rng, magic=m['magic'])
        elif kind == 'vartype':
            m['vars'].append((b'v', rng.choice([3, b'abc', 1.5])))
            rng.shuffle(m['vars'])
            marks = []
            data = mapz.encode(m, marks)
            off = rng.choice([o for n, o in marks if n == 'vartype'])
            t = rng.choice([3, 4, -1, 255, 256, 0x10000, -2**31, 0x01000000])
            must_refuse(data[:off] + mapz.i4(t) + data[off + 4:], 'vartype', rng, type=t)
        elif kind == 'node':
            ls = list(leaves(m['world']))
            n = rng.choice(ls)
            n['kind'] = rng.choice([5, 6, 7])
            must_refuse(mapz.encode(m), 'node', rng, node=n['kind'])
        elif kind == 'enttype':
            e = list(mapz.gen_ent(rng))
            t = rng.choice([0, 4, 5, 6, 7, 10, 11, 12, 15, 16, 17, 18, 100, 255, rng.choice(sorted(ALL_TYPES))])
            e[3] = t
            if rng.random() < 0.3:
                e[4] = []
            m['ents'].insert(rng.randint(0, len(m['ents'])), tuple(e))
            m['meta'] = [(k, len(m['ents']) if k == 'numents' else v) for k, v in m['meta']]
            must_refuse(mapz.encode(m), 'enttype', rng, type=t)
        elif kind == 'attrcount':
            e = list(mapz.gen_ent(rng))
            n = mapz.ENT_ATTRS[e[3]]
            k = rng.choice([x for x in (0, 1, n - 1, n + 1, n + 2, 2 * n, 20) if x != n])
            e[4] = ([e[4][0]] + [mapz.rint32(rng) for _ in range(30)])[:k]
            m['ents'].insert(rng.randint(0, len(m['ents'])), tuple(e))
            m['meta'] = [(a, len(m['ents']) if a == 'numents' else v) for a, v in m['meta']]
            must_refuse(mapz.encode(m), 'attrcount', rng, type=e[3], count=k)
        else:
            data = mapz.encode(m)
            p = ctx.path('bad.mpz')
            if kind == 'gzip':
                with open(p, 'wb') as h:
                    h.write(rng.choice([data, b'', b'MAPZ', bytes(rng.randint(0, 255) for _ in range(50))]))
            else:
                mapz.write_gz(p, data)
                with open(p, 'rb') as h:
                    z = h.read()
                x = rng.random()
                if x < .5:
                    z = z[:rng.randrange(0, len(z) - 8)]
                elif x < .75:       # the checksum or the length is missing
                    z = z[:len(z) - rng.randint(1, 8)]
                    ctx.count('gzip trailers')
                else:               # or wrong
                    z = bytearray(z)
                    z[-rng.randint(1, 8)] ^= 1 << rng.randrange(8)
                    ctx.count('gzip trailers')
                with open(p, 'wb') as h:
                    h.write(z)
            mm, e = refused(p)
            ctx.check(e is not None, 'a file that is not (complete) gzip data was accepted')
            ctx.count('gzip')
            with open(p, 'rb') as h:
                ctx.seen(h.read())
        ctx.sample({'corrupt': kind, 'map': mapz.shape(m)}, 9)

    # refusals do not depend on how the interpreter was started
    for label, rng in ctx.cases('interpreter', 1, 6):
        paths, wants = [], []
        for i in range(60):
            m = mapz.gen_map(rng)
            kind = ['good', 'magic', 'node', 'enttype', 'attrcount', 'attrcount', 'vartype'][i % 7]
            e = list(mapz.gen_ent(rng))
            if kind == 'magic':
                m['magic'] = rng.choice([b'MAPX', b'OCTA', b'mapz'])
            elif kind == 'node':
                rng.choice(list(leaves(m['world'])))['kind'] = rng.choice([5, 6, 7])
            elif kind == 'vartype':
                m['vars'].insert(0, (b'v', 3))
            elif kind != 'good':
                if kind == 'enttype':
                    e[3] = rng.choice([0, 4, 11, 100, 255])
                else:
                    n = len(e[4])
                    e[4] = (e[4] + [1] * n)[:rng.choice([0, 1, n - 1, n + 1, 2 * n])]
                m['ents'].insert(rng.randint(0, len(m['ents'])), tuple(e))
                m['meta'] = [(a, len(m['ents']) if a == 'numents' else v) for a, v in m['meta']]
            marks = []
            data = mapz.encode(m, marks)
            if kind == 'vartype':
                off = next(o for n, o in marks if n == 'vartype')
                data = data[:off] + mapz.i4(3) + data[off + 4:]
            paths.append(ctx.path('i%d.mpz' % i))
            mapz.write_gz(paths[-1], data)
            wants.append(kind)
        for opts in (['-O'], ['-OO']) if ctx.tier == 'thorough' else (['-O'],):
            p = subprocess.run([sys.executable, '-W', 'ignore'] + opts + [
                os.path.join(core.HERE, 'lib', 'child.py'), 'read'] + paths, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL, timeout=300, env=dict(os.environ, TQDM_DISABLE='1'))
            said = p.stdout.decode().split()
            ctx.check(len(said) == len(paths), 'reading damaged maps ended the interpreter started with %s' % opts)
            for k, s in zip(wants, said):
                ctx.check(s == ('map' if k == 'good' else 'refused'), '%s: the file is %s by an interpreter started with %s' % (
                    k, {'map': 'accepted', 'refused': 'refused'}[s], opts))
                ctx.count('files read by another interpreter')
            ctx.seen((label, opts))

    # content that cannot be preserved: refused on reading or on writing
    for label, rng in ctx.cases('lossy', 300, 3000, secs=(10, 80)):
        m = mapz.gen_map(rng)
        if rng.random() < 0.5:
            kind = 'verts'
            n = rng.choice(list(leaves(m['world'])))
            face = rng.randrange(6)
            if n.get('surf') is None:
                n['surf'] = (0, 0, [None] * 6)
            mask, total, faces = n['surf']
            faces = list(faces)
            nv = rng.randint(1, 15) | rng.choice([0, 32, 64, 128])
            faces[face] = (rng.randint(0, 255), rng.randint(0, 255), rng.randint(0, 255), nv)
            n['surf'] = (mask | 1 << face, rng.randint(0, 60), faces)
            data = mapz.encode(m)
        else:
            kind = 'vslot'
            marks = []
            data0 = mapz.encode(m, marks)
            off = dict(marks)['octree']
            changed = rng.choice([0, 1, 2, 4, 8, 32, 64, 128, 256, 512, 2 | 4 | 8])
            body = mapz.i4(changed) + mapz.i4(rng.choice([-1, 0]))
            sizes = {1: 2, 2: 4, 4: 4, 8: 8, 32: 4, 64: 8, 128: 12, 256: 8, 512: 4}
            if rng.random() < .3:
                changed |= 1
            for bit, size in sorted(sizes.items()):
                if changed & bit and bit == 1 and rng.random() < .8:
                    name = b'p' * rng.choice([0, 1, 7, 255, 256, 511, 512, 513, 600])
                    more = rng.random() < .5
                    body += struct.pack('<HH', 1 | 0x8000 * more, len(name)) + name + b'\0' * (16 + 8 * more)
                    ctx.count('shader parameters')
                elif changed & bit:
                    body += b'\0' * size
            m['meta'] = [(k, v + 1 if k == 'numvslots' else v) for k, v in m['meta']]
            head = mapz.encode(m, [])
            data = head[:off] + body + head[off:]
        data += b'\0' * 400
        p = ctx.path('bad.mpz')
        mapz.write_gz(p, data)
        mm, e = refused(p)
        stage = 'read'
        if e is None:
            stage = 'write'
            dst = ctx.path('lost.mpz')
            earlier = mapz.encode(mapz.gen_map(rng))
            mapz.write_gz(dst, earlier)
            if rng.random() < .4:
                dst, earlier = p, data
            with open(dst, 'rb') as h:
                held = h.read()
            try:
                mm.write(dst)
            except (Hang, KeyboardInterrupt, MemoryError):
                raise
            except BaseException as x:
                ctx.check(not isinstance(x, SystemExit), '%s: writing ended the program instead of raising an error' % kind)
                e = x
            if e is None:
                out = mapz.read_raw(dst)
                ctx.check(data.startswith(out) and len(out) >= len(data) - 400,
                          '%s: the map was rewritten without it' % kind)
            else:
                with open(dst, 'rb') as h:
                    ctx.check(h.read() == held, '%s: the refused write damaged the file that was there' % kind,
                              over_the_input=dst == p)
                ctx.count('earlier files kept')
        ctx.count(kind)
        ctx.count('refused on ' + stage)
        ctx.seen(data)

    # maps that were edited so that they cannot be written
    for label, rng in ctx.cases('unwritable', 200, 2000, secs=(8, 60)):
        m = mapz.gen_map(rng)
        src, dst = ctx.path('in.mpz'), ctx.path('keep.mpz')
        mapz.write_gz(src, mapz.encode(m))
        obj = MapParser().read(src)
        mapz.write_gz(dst, mapz.encode(mapz.gen_map(rng)))
        if rng.random() < .4:
            dst = src
        kind = rng.choice(['variable', 'variable type', 'entity', 'link', 'history', 'node', 'texture', 'slots', 'header'])
        if kind == 'variable':
            obj.map_vars[b'x'] = 2 ** 40
        elif kind == 'variable type':
            obj.map_vars[b'x'] = rng.choice([None, [1], (1, 2), {}])
        elif kind in ('entity', 'link'):
            if not obj.ents:
                continue
            e = rng.choice(obj.ents)
            if kind == 'link':
                e.links.append(rng.choice([2 ** 31, 'x', None]))
            else:
                e.attrs[-1] = rng.choice([2 ** 31, 'x', None])
        elif kind == 'history':
            obj.texmru.append(rng.choice([-1, 65536, 'x']))
        elif kind == 'slots':
            obj.chg.append(rng.choice([0, 5]))
        elif kind == 'header':
            obj.meta['revision'] = rng.choice([2 ** 31, 'x', None])
        else:
            i = rng.randrange(8)
            n = obj.world[i]
            if rng.random() < .3:
                n.octsav = rng.choice([5, 6, 7, 0x45, 0xa7])
            elif kind == 'node' or n.children:
                obj.world[i] = rng.choice([None, 'x'])
            else:
                n.texture[rng.randrange(6)] = rng.choice([-1, 65536])
        with open(dst, 'rb') as h:
            held = h.read()
        try:
            obj.write(dst)
            ctx.count('written all the same')
        except (Hang, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            ctx.check(not isinstance(e, SystemExit), 'writing a map with an impossible %s ended the program instead of '
                      'raising an error' % kind)
            with open(dst, 'rb') as h:
                ctx.check(h.read() == held, 'a write that is refused damaged the file that was there', because=kind,
                          over_the_input=dst == src)
            ctx.count('earlier files kept')
        ctx.seen((kind, held))

    # maps at the limits of what the format allows: refused, or reproduced
    for label, rng in ctx.cases('limits', 150, 2000, secs=(10, 60)):
        m = mapz.gen_map(rng)
        kind = rng.choice(['worldsize', 'worldsize', 'deep', 'deep', 'deep in surface'])
        if kind == 'worldsize':
            ws = rng.choice([0, 1, 2, 4, 8, 16, 32, 100, -1, 8192, 16384, 32768, 65536, 2 ** 30])
        else:
            ws = rng.choice([16, 64, 1024])
            n = mapz.gen_leaf(rng)
            for _ in range(ws.bit_length() + rng.choice([-3, -2, -1, 0, 3])):
                kids = [mapz.gen_leaf(rng) for _ in range(8)]
                kids[rng.randrange(8)] = n
                n = {'kids': kids}
            m['world'][rng.randrange(8)] = n
        m['meta'] = [(k, ws if k == 'worldsize' else v) for k, v in m['meta']]
        data = mapz.encode(m)
        p = ctx.path('limit.mpz')
        mapz.write_gz(p, data)
        mm, e = refused(p)
        if e is None:
            try:
                mm.write(ctx.path('lost.mpz'))
            except (Hang, KeyboardInterrupt, MemoryError):
                raise
            except BaseException as x:
                e = x
        if e is None:
            out = mapz.read_raw(ctx.path('lost.mpz'))
            ctx.check(out == data, 'a map at the limits of the format is rewritten with other content: %s' % (
                mapz.diff(out, data)), kind=kind, worldsize=ws)
        ctx.count('limits ' + ('reproduced' if e is None else 'refused'))
        ctx.seen(data)

    # maps made with the game: refused, or reproduced
    for label, rng in ctx.cases('shipped', 1, 1):
        for p in sorted(glob.glob(os.path.join(REPO, 'maps', '*.mpz'))):
            raw = mapz.read_raw(p)
            mm, e = refused(p)
            if e is None:
                try:
                    mm.write(ctx.path('lost.mpz'))
                except (Hang, KeyboardInterrupt, MemoryError):
                    raise
                except BaseException as x:
                    e = x
            if e is None:
                out = mapz.read_raw(ctx.path('lost.mpz'))
                ctx.check(raw.startswith(out) and len(out) > 100, '%s was rewritten with other content: %s' % (
                    os.path.basename(p), mapz.diff(out, raw)))
            ctx.count('shipped maps')
            ctx.count('shipped maps ' + ('reproduced' if e is None else 'refused'))
            ctx.seen(raw)
