"""C02: a parsed map exposes exactly what the file contains."""
from lib import live, mapz

RULE = """A case is one generated map file whose content is known, read through a parser that may have read other
files before; every public field of the resulting map object is compared with the known content. Non-trivial when
the file was accepted and compared; distinct by file content."""


def expected(m):
    e = dict(m)
    e['numvars'] = len(m['vars'])
    e['nvslots'] = -sum(m['chg'])
    return e


def normal(x):
    """Entity positions are compared as floats."""
    x = dict(x)
    x['ents'] = [tuple(float(v) for v in e[:3]) + tuple(e[3:]) for e in x['ents']]
    x['meta'] = sorted(x['meta'])
    return x


def spoil(m, rng):
    """Edit everything that the map object holds."""
    from redeclipse.entities import Sunlight
    for e in m.ents:
        e.links.append(5)
        e.reserved[0] ^= 1
        e.attrs[0] = 3
        e.o.x += 1
    m.ents.append(Sunlight())
    m.map_vars[b'new'] = 1
    m.meta['revision'] += 1
    m.texmru.append(1)
    m.chg.append(-1)
    m.vslots.append(None)
    nodes = list(m.world)
    while nodes:
        c = nodes.pop()
        nodes += c.children or []
        if c.texture:
            c.texture[0] = 77
        if c.ext:
            c.ext.surfaces.append(None)
    m.world[rng.randrange(8)] = None


def slot(rng):
    """the record of a slot with changes"""
    changed = rng.choice([rng.randrange(1024), 1 << rng.randrange(10), 0, 1023])
    out = mapz.i4(changed) + mapz.i4(rng.choice([-1, 0, 3]))
    if changed & 1:
        k = rng.choice([0, 1, 3])
        deep = rng.random() < .5
        out += mapz.u2(k | (0x8000 if deep else 0))
        for i in range(k):
            name = bytes(rng.choice(b'glowspecabc\0\xff') for _ in range(rng.choice([0, 4, 30])))
            out += mapz.u2(len(name)) + name + bytes(rng.choice([0, 63, 128]) for _ in range(16))
            if deep:
                out += mapz.i4(rng.choice([0, 1, -1])) + mapz.i4(7)
    for bit, size in ((2, 4), (4, 4), (8, 8), (16, 8), (32, 4), (64, 8), (128, 12), (256, 8), (512, 4)):
        if changed & bit:
            out += bytes(rng.choice([0, 1, 63, 128, 255]) for _ in range(size))
    return out


def run(ctx):
    from redeclipse import MapParser
    ctx.need('maps compared', 'shared parser', 'after refused file', 'maps edited after reading', 'changed slots')
    parser = MapParser()
    kept = []
    for label, rng in ctx.cases('parse', 2000, 15000, secs=(25, 240)):
        m = mapz.gen_map(rng, big=rng.random() < 0.1)
        data = mapz.encode(m) + bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 0, 7])))
        src = ctx.path('%d.mpz' % rng.randrange(3))
        mapz.write_gz(src, data)
        if rng.random() < 0.4:
            parser = MapParser()
        else:
            ctx.count('shared parser')
        if rng.random() < 0.15:
            mapz.write_gz(ctx.path('bad.mpz'), data[:rng.randrange(0, len(mapz.encode(m)))])
            try:
                parser.read(ctx.path('bad.mpz'))
            except Exception:
                pass
            ctx.count('after refused file')
        obj = parser.read(src)
        want = normal(expected(m))
        d = live.first_diff(normal(live.as_model(obj)), want)
        ctx.check(d is None, 'the map object is not what the file contains: %s' % d, map=mapz.shape(m))
        ctx.count('maps compared')
        ctx.count('nodes', mapz.count_nodes(m['world']))
        ctx.count('entities', len(m['ents']))
        ctx.count('variables', len(m['vars']))
        kept.append((obj, want))
        if rng.random() < 0.3:      # what is done to one map does not show in maps read later, or earlier
            spoil(obj, rng)
            ctx.count('maps edited after reading')
            kept.pop()
            for again in (parser, MapParser()):
                d = live.first_diff(normal(live.as_model(again.read(src))), want)
                ctx.check(d is None, 'editing a map shows in the map read after it: %s' % d, map=mapz.shape(m))
        if len(kept) > 3:   # maps read earlier are not affected by later reads
            o, w = kept.pop(0)
            d = live.first_diff(normal(live.as_model(o)), w)
            ctx.check(d is None, 'a map read earlier changed: %s' % d)
            ctx.count('earlier maps re-checked')
        ctx.seen(data)
        ctx.sample(mapz.shape(m))

    # slots with changes of their own: whatever becomes of them (see C04), the rest of the map is as in the file
    for label, rng in ctx.cases('slots', 300, 3000, secs=(10, 60)):
        m = mapz.gen_map(rng)
        marks = []
        mapz.encode(m, marks)
        off = dict(marks)['octree']
        runs = b''.join(mapz.i4(c) for c in m['chg'])
        n, body = 0, b''
        for part in range(rng.choice([1, 1, 2, 5])):
            body += slot(rng)
            n += 1
            if rng.random() < .3:
                k = rng.choice([1, 5])
                body += mapz.i4(-k)
                n += k
        m['meta'] = [(k, v + n if k == 'numvslots' else v) for k, v in m['meta']]
        head = mapz.encode(m)
        if rng.random() < .5:
            data = head[:off] + body + head[off:]
        else:
            data = head[:off - len(runs)] + body + head[off - len(runs):]
        src = ctx.path('slots.mpz')
        mapz.write_gz(src, data)
        try:
            obj = MapParser().read(src)
        except NotImplementedError:
            ctx.count('changed slots refused')
            continue
        got, want = normal(live.as_model(obj)), normal(expected(m))
        for x in (got, want):
            x['chg'] = x['nvslots'] = None
        d = live.first_diff(got, want)
        ctx.check(d is None, 'changed slots disturb the rest of the map: %s' % d, map=mapz.shape(m))
        ctx.count('changed slots', n)
        ctx.seen(data)
