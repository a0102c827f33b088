"""C03: an edited map is written with exactly the edit applied."""
from collections import OrderedDict

from lib import live, mapz

RULE = """A case is a generated map, read and then edited by a random sequence of public edits (entities, variables,
texture history, header values, skybox, octree) mirrored on an independent model; after some edits the map is written
and the file decoded independently and compared with the model. Non-trivial when at least one edit preceded a
compared write; distinct by the trace of edits."""


class Sky:
    def __init__(self, p):
        self.p = p

    def get_short_path(self):
        return self.p


def run(ctx):
    from redeclipse import MapParser
    from redeclipse.entities import Entity
    from redeclipse.enums import EntType
    from redeclipse.objects import cube
    from redeclipse.vector import FineVector
    from redeclipse.voxel import VoxelWorld
    from redeclipse import skybox as sb
    ctx.need('writes compared', 'edit:var', 'edit:ent', 'edit:sky', 'edit:world', 'edit:delvar', 'edit:header',
             'edit:again', 'fractional attributes')

    def mkent(rng):
        x, y, z, typ, attrs, links, res = mapz.gen_ent(rng)
        x, y, z = [float(rng.randint(0, 8000)) / rng.choice([1, 2]) for _ in range(3)]
        e = Entity(FineVector(x / 4, y / 4, z / 4), EntType(typ), list(attrs), list(links), list(res))
        if typ != 9 and rng.random() < .2:      # only the whole part of a number fits in the file
            i = rng.randrange(len(attrs))
            e.attrs[i] = rng.choice([rng.uniform(-400, 400), rng.randint(-999, 999) + .5, rng.uniform(-2 ** 30, 2 ** 30)])
            attrs = list(attrs[:i]) + [int(e.attrs[i])] + list(attrs[i + 1:])
            ctx.count('fractional attributes')
        return e, (x, y, z, typ, attrs, links, res)

    def write_and_compare(obj, m, trace):
        path = ctx.path('e.mpz')
        obj.write(path)
        try:
            got, _, end = mapz.decode(mapz.read_raw(path))
        except Exception as e:
            ctx.fail('the edited map is not well formed: %s' % e, trace=trace)
        want = dict(m)
        meta = OrderedDict(m['meta'])
        meta['numents'] = len(m['ents'])
        want['meta'] = list(meta.items())
        d = live.first_diff(got, want)
        ctx.check(d is None, 'the written file does not hold the edited map: %s' % d, trace=trace)
        ctx.check(len(mapz.read_raw(path)) == end, 'data behind the octree of the written file', trace=trace)
        ctx.count('writes compared')

    for label, rng in ctx.cases('edit', 1500, 6000, secs=(30, 240)):
        m = mapz.gen_map(rng)
        mapz.write_gz(ctx.path('in.mpz'), mapz.encode(m))
        obj = MapParser().read(ctx.path('in.mpz'))
        trace = []
        n = 0
        for step in range(rng.randint(2, 14)):
            op = rng.choice(['ent', 'ent', 'delent', 'shuffle', 'var', 'var', 'chvar', 'delvar', 'ordvar', 'mru',
                             'header', 'sky', 'world', 'write', 'attr', 'again'])
            if op == 'ent':
                e, rec = mkent(rng)
                i = rng.randint(0, len(m['ents']))
                obj.ents.insert(i, e)
                m['ents'].insert(i, rec)
                trace.append(('ent', i, rec))
                if rng.random() < 0.02:
                    for _ in range(rng.choice([120, 260, 1100])):
                        e, rec = mkent(rng)
                        obj.ents.append(e)
                        m['ents'].append(rec)
                    ctx.count('many entities added')
            elif op == 'again':
                if m['ents']:           # the same entity, once more
                    i = rng.randrange(len(m['ents']))
                    j = rng.choice([i, i + 1, rng.randint(0, len(m['ents']))])
                    obj.ents.insert(j, obj.ents[i])
                    m['ents'].insert(j, m['ents'][i])
                    trace.append(('again', i, j))
            elif op == 'delent':
                if m['ents']:
                    i = rng.randrange(len(m['ents']))
                    del obj.ents[i]
                    del m['ents'][i]
                    trace.append(('delent', i))
            elif op == 'attr':
                if m['ents']:
                    i = rng.randrange(len(m['ents']))
                    r = list(m['ents'][i])
                    k = rng.randrange(3)
                    if k == 0:
                        j = rng.randrange(1, len(r[4]))
                        r[4] = list(r[4])
                        r[4][j] = v = mapz.rint32(rng)
                        obj.ents[i].attrs[j] = v
                    elif k == 1:
                        v = mapz.rint32(rng)
                        r[5] = list(r[5]) + [v]
                        obj.ents[i].links.append(v)
                    else:
                        j = rng.randrange(3)
                        r[6] = list(r[6])
                        r[6][j] = v = rng.randint(0, 255)
                        obj.ents[i].reserved[j] = v
                    for j, e in enumerate(obj.ents):
                        if e is obj.ents[i]:
                            m['ents'][j] = tuple(r)
                    trace.append(('attr', i, k, v))
            elif op == 'shuffle':
                order = list(range(len(m['ents'])))
                rng.shuffle(order)
                obj.ents = [obj.ents[i] for i in order]
                m['ents'] = [m['ents'][i] for i in order]
                trace.append(('shuffle', order))
            elif op in ('var', 'chvar'):
                d = OrderedDict(m['vars'])
                if op == 'chvar' and d:
                    name = rng.choice(list(d))
                    key = name
                else:
                    name = mapz.rbytes(rng, rng.choice([1, 4, 12]), True)
                    if rng.random() < 0.15:
                        name = rng.choice(mapz.SPECIAL[:5])
                    if name in d:
                        continue
                    key = name.decode() if rng.random() < 0.5 else name
                if key != name or name not in [k for k in obj.map_vars if isinstance(k, bytes)]:
                    same = [k for k in obj.map_vars if (k.encode() if isinstance(k, str) else k) == name]
                    if same:
                        key = same[0]
                k = rng.randrange(4)
                if k == 0:
                    v = w = mapz.rint32(rng)
                elif k == 1:
                    v = mapz.rfloat32(rng)
                    w = mapz.to32(v)
                elif k == 2:
                    w = mapz.rbytes(rng, rng.choice([0, 1, 20, 600]), True)
                    v = w.decode()
                else:
                    v = w = mapz.rbytes(rng, rng.choice([0, 1, 20, 300]), False)
                obj.map_vars[key] = v
                d[name] = w
                m['vars'] = list(d.items())
                trace.append((op, key, v))
            elif op == 'delvar':
                if m['vars']:
                    i = rng.randrange(len(m['vars']))
                    del obj.map_vars[list(obj.map_vars)[i]]
                    del m['vars'][i]
                    trace.append(('delvar', i))
            elif op == 'ordvar':
                order = list(range(len(m['vars'])))
                rng.shuffle(order)
                items = list(obj.map_vars.items())
                obj.map_vars = OrderedDict(items[i] for i in order)
                m['vars'] = [m['vars'][i] for i in order]
                trace.append(('ordvar', order))
            elif op == 'mru':
                v = [rng.randint(0, 65535) for _ in range(rng.choice([0, 1, 3, 30, 30, 255, 256, 300, 5000]))]
                obj.texmru = list(v)
                m['texmru'] = v
                trace.append(('mru', v[:5]))
            elif op == 'header':
                k = rng.choice(['version', 'headersize', 'worldsize', 'numpvs', 'lightmaps', 'blendmap', 'gamever',
                                'revision', 'gameident', 'magic'])
                if k == 'magic':
                    v = rng.choice([b'MAPZ', b'BFGZ'])
                    obj.magic = v.decode() if rng.random() < 0.5 else v
                    m['magic'] = v
                elif k == 'gameident':
                    v = rng.choice([b'fps', b'abc', b'Q_9'])
                    obj.meta['gameident'] = v.decode() if rng.random() < 0.5 else v
                    m['gameident'] = v
                elif k in ('version', 'headersize'):
                    v = mapz.rint32(rng)
                    setattr(obj, k, v)
                    m[k] = v
                else:
                    v = mapz.rint32(rng)
                    obj.meta[k] = v
                    m['meta'] = [(a, v if a == k else b) for a, b in m['meta']]
                trace.append(('header', k, v))
            elif op == 'sky':
                if rng.random() < 0.3:
                    s = rng.choice([sb.DesertSky, sb.MinecraftSky])
                    s = s(ctx.path('re'))
                    p = 'hxr/skybox/' + s.basename
                else:
                    p = rng.choice(['hxr/skybox/base', 'a/b', 'skyboxes/x y'])
                    s = Sky(p)
                if 'skybox' in obj.map_vars:
                    ctx.count('skybox variables with a str name')
                obj.skybox(s)
                d = OrderedDict(m['vars'])
                d[b'skybox'] = p.encode()
                m['vars'] = list(d.items())
                trace.append(('sky', p))
            elif op == 'world':
                k = rng.randrange(3)
                if k == 0:
                    m2 = mapz.gen_map(rng)
                    mapz.write_gz(ctx.path('in2.mpz'), mapz.encode(m2))
                    obj.world = MapParser().read(ctx.path('in2.mpz')).world
                    m['world'] = m2['world']
                elif k == 1:
                    obj.world = cube.newcubes()
                    m['world'] = [{'kind': 1, 'tex': [1] * 6} for _ in range(8)]
                else:
                    v = VoxelWorld(size=rng.choice([2, 4, 8]))
                    for _ in range(rng.randint(0, 9)):
                        v.set_point(rng.randrange(v.size), rng.randrange(v.size), rng.randrange(v.size),
                                    cube.newtexcube(tex=rng.randint(0, 400)))
                    obj.world = v.to_octree()
                    m['world'] = [live.node(c) for c in obj.world]
                trace.append(('world', k))
            else:
                write_and_compare(obj, m, trace)
                trace.append(('write',))
                continue
            n += 1
            ctx.count('edit:' + op)
        write_and_compare(obj, m, trace)
        ctx.seen(trace, n > 0)
        ctx.sample([mapz.shape(m), trace])
