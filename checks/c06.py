"""C06: JSON export is faithful and imports back, except geometry."""
import io
import json
import os
import random
import subprocess
import sys

from checks.c05 import maker
from lib import mapz
from lib.core import REPO

RULE = """A case is a generated map with textual strings, exported (library or to_json command), parsed as strict
JSON and compared with the known content, imported (library or from_json command), written and compared with the
original bytes up to the octree, and exported again. Non-trivial when all comparisons were made; distinct by map."""


def no_const(x):
    raise ValueError('not valid JSON: %s' % x)


def got_node(d):
    kind = d['octsav'] & 7
    if kind == 0:
        n = {'kids': [got_node(k) for k in d['children']]}
        return dict(n, bits=d['octsav']) if d['octsav'] else n
    n = {'kind': kind, 'tex': list(d['texture'])}
    if d['octsav'] & 0x18:
        n['bits'] = d['octsav'] & 0x18
    if kind == 4:
        n['lod'] = [got_node(k) for k in d['children']]
    elif d['children']:
        n['children of a leaf'] = len(d['children'])
    if kind == 3:
        n['edges'] = list(d['edges'])
    if d['octsav'] & 0x40:
        n['mat'] = d['material']
    if d['octsav'] & 0x80:
        n['merged'] = d['merged']
    if d['octsav'] & 0x20:
        n['surf'] = (d['surfmask'], d['totalverts'],
                     [None if s is None else (s['lmid'][0], s['lmid'][1], s['verts'], s['numverts'])
                      for s in d['ext']['surfaces']])
    return n


def run(ctx):
    from lib import live
    from redeclipse import Map, MapParser
    from redeclipse.objects import VSlot, cube
    from redeclipse.voxel import VoxelWorld
    from redeclipse.cli import from_json as cli_from, to_json as cli_to
    ctx.need('reordered JSON', 'exports compared', 'imports written', 'to_json command', 'from_json command', 'sections', 'weapons',
             'edited maps', 'exported again after an edit', 'added entities', 'generated octrees', 'edited slots')

    def command(main, argv):
        old = sys.argv, sys.stdout
        sys.argv, sys.stdout = ['x'] + argv, io.StringIO()
        try:
            main()
            return sys.stdout.getvalue()
        finally:
            sys.argv, sys.stdout = old

    for label, rng in ctx.cases('json', 500, 15000, secs=(35, 240)):
        m = mapz.gen_map(rng, text=True)
        marks = []
        data = mapz.encode(m, marks)
        src = ctx.path('j.mpz')
        mapz.write_gz(src, data)
        via = rng.random() < 0.3
        if via:
            text = command(cli_to.main, [src])
            ctx.count('to_json command')
        else:
            text = MapParser().read(src).to_json()
        try:
            js = json.loads(text, parse_constant=no_const)
        except ValueError as e:
            ctx.fail('the export is not valid JSON: %s' % e, map=mapz.shape(m))
        shape = mapz.shape(m)

        def eq(got, want, what):
            d = live.first_diff(got, want)
            ctx.check(d is None, 'export: %s: %s' % (what, d), map=shape)

        eq(js['magic'], m['magic'].decode(), 'magic')
        eq(js['version'], m['version'], 'version')
        eq(js['headersize'], m['headersize'], 'headersize')
        meta = {k: v for k, v in js['meta']}
        eq(len(meta), len(js['meta']), 'header fields')
        eq(meta, dict(m['meta'], gameident=m['gameident'].decode(), numvars=len(m['vars'])), 'header')
        eq([list(x) for x in js['map_vars']],
           [[k.decode(), v.decode() if isinstance(v, bytes) else v] for k, v in m['vars']], 'variables')
        eq(js['texmru'], m['texmru'], 'texture history')
        eq(js['chg'], m['chg'], 'vslot runs')
        eq(len(js['vslots']), -sum(m['chg']), 'vslots')
        eq(len(js['entities']), len(m['ents']), 'entities')
        for e, (x, y, z, typ, attrs, links, res) in zip(js['entities'], m['ents']):
            eq([float(v) for v in e['position']], [x, y, z], 'entity position')
            eq(e['type'], mapz.ENT_NAMES[typ], 'entity type')
            want = dict(zip(mapz.ATTR_NAMES[typ], attrs))
            if typ == 9:
                want['type'] = mapz.WEAPONS[want['type']]
                ctx.count('weapons')
            eq({k: v for k, v in e['attr'].items() if k != '_order'}, want, 'attributes of a ' + e['type'])
            eq(e['links'], links, 'entity links')
            eq(e['reserved'], res, 'entity reserved bytes')
        eq([got_node(d) for d in js['world']], m['world'], 'octree')
        ctx.count('exports compared')

        dst = ctx.path('k.mpz')
        if rng.random() < 0.3:
            with open(ctx.path('k.json'), 'w') as h:
                h.write(text)
            command(cli_from.main, [ctx.path('k.json'), dst])
            ctx.count('from_json command')
        else:
            Map.from_dict(json.loads(text)).write(dst)
        out = mapz.read_raw(dst)
        head = data[:dict(marks)['octree']]
        ctx.check(out[:len(head)] == head, 'the imported map is written differently: in %s: %s' % (
            mapz.where(marks, next((i for i in range(min(len(out), len(head))) if out[i] != head[i]), min(len(out), len(head)))),
            mapz.diff(out[:len(head)], head)), map=shape)
        ctx.count('imports written')
        again = json.loads(Map.from_dict(json.loads(text)).to_json())
        # the order of the members of an object means nothing in JSON
        if rng.random() < 0.5:
            def mix(x):
                if isinstance(x, dict):
                    ks = sorted(x)
                    rng.shuffle(ks)
                    return {k: mix(x[k]) for k in ks}
                return [mix(y) for y in x] if isinstance(x, list) else x
            js2 = json.dumps(js, sort_keys=True) if rng.random() < .5 else json.dumps(mix(js), indent=1)
            Map.from_dict(json.loads(js2)).write(dst)
            out = mapz.read_raw(dst)
            ctx.check(out[:len(head)] == head, 'the map imported from reordered JSON is written differently: %s' % (
                mapz.diff(out[:len(head)], head)), map=shape)
            ctx.count('reordered JSON')
        for k in set(js) | set(again):
            if k != 'world':
                eq(again.get(k), js.get(k), 'second export of ' + k)
        if via and rng.random() < 0.3:
            k = rng.choice(['entities', 'map_vars', 'meta', 'texmru', 'world', 'vslots', 'chg'])
            part = json.loads(command(cli_to.main, [src, '--section', k]))
            if k == 'world':
                part = [got_node(d) for d in part]
                eq(part, m['world'], 'section world')
            else:
                eq(part, js[k], 'section ' + k)
            ctx.count('sections')
        ctx.seen(data)
        ctx.sample(shape)

    # maps that were edited before the export
    make = maker(ctx)
    for label, rng in ctx.cases('edited', 300, 5000, secs=(15, 100)):
        src, dst = ctx.path('e.mpz'), ctx.path('f.mpz')
        mapz.write_gz(src, mapz.encode(mapz.gen_map(rng, text=True)))
        m = MapParser().read(src)
        made = {}
        for _ in range(rng.randint(1, 6)):
            kind, e, rec = make(rng)
            m.ents.insert(rng.randint(0, len(m.ents)), e)
            made[id(e)] = rec
        edits = {}
        for _ in range(rng.randint(0, 3)):
            name = rng.choice(['x', 'own var', 'f\u00f8\u00f8', 'skybox_']) + str(rng.randrange(9))
            value = rng.choice([mapz.rint32(rng), mapz.rfloat32(rng), 'text', 'b\u00e5t', ''])
            for k in (name, name.encode()):
                m.map_vars.pop(k, None)
            edits[name] = value
            m.map_vars[rng.choice([name, name.encode()])] = \
                value.encode() if isinstance(value, str) and rng.random() < .5 else value
        if rng.random() < .5:
            m.texmru.append(rng.randrange(65536))
        built = None
        if rng.random() < .3:
            v = VoxelWorld(size=rng.choice([2, 4, 8, 16]))
            built = {}
            for _ in range(rng.randint(0, 10)):
                p = tuple(rng.randrange(v.size) for _ in range(3))
                built[p] = rng.randrange(65536)
                v.set_point(*p, cube.newtexcube(tex=built[p]))
            m.world = v.to_octree()
        m.write(dst)
        head, marks = mapz.read_raw(dst), []
        dec, _, _ = mapz.decode(head)
        mapz.encode(dec, marks)
        head = head[:dict(marks)['octree']]
        try:
            js = json.loads(m.to_json(), parse_constant=no_const)
        except ValueError as e:
            ctx.fail('the export of an edited map is not valid JSON: %s' % e, edits=edits)
        for e, d in zip(m.ents, js['entities']):
            if id(e) in made:
                x, y, z, typ, attrs, links, res = made[id(e)]
                want = dict(zip(mapz.ATTR_NAMES[typ], attrs))
                if typ == 9:
                    want['type'] = mapz.WEAPONS[want['type']]
                got = ([float(c) for c in d['position']], d['type'],
                       {k: v for k, v in d['attr'].items() if k != '_order'}, d['links'], d['reserved'])
                ctx.equal(got, ([x, y, z], mapz.ENT_NAMES[typ], want, list(links), list(res)),
                          'export of an entity that was added')
                ctx.count('added entities')
        names = [k for k, _ in js['map_vars']]
        ctx.equal(names, [k.decode() for k, _ in dec['vars']], 'names of the exported variables')
        for k, v in edits.items():
            ctx.equal(dict(js['map_vars'])[k], v, 'export of the variable %r' % k)
        if built is not None:
            d = live.first_diff([got_node(n) for n in js['world']], dec['world'])
            ctx.check(d is None, 'export of a generated octree: %s' % d)
            ctx.count('generated octrees')
        Map.from_dict(js).write(dst)
        out = mapz.read_raw(dst)
        ctx.check(out[:len(head)] == head, 'an edited map is imported differently: %s' % mapz.diff(out[:len(head)], head),
                  edits=edits)
        ctx.count('edited maps')
        ctx.seen(('edited', head))

    # texture slots that were edited: only the JSON form can hold them
    def plain(ds):
        return json.loads(json.dumps([{k: v for k, v in d.items() if k != '_order'} for d in ds]))

    for label, rng in ctx.cases('slots', 100, 1500, secs=(8, 50)):
        mapz.write_gz(ctx.path('s.mpz'), mapz.encode(mapz.gen_map(rng, text=True)))
        m = MapParser().read(ctx.path('s.mpz'))
        want = plain(x.to_dict() for x in m.vslots)
        for _ in range(rng.randint(1, 5)):
            i = rng.randint(0, len(want))
            if i == len(want) or rng.random() < .3:
                x = VSlot(None, i)
                m.vslots.insert(i, x)
                want.insert(i, plain([x.to_dict()])[0])
            k, value = rng.choice([('changed', 0), ('changed', rng.randrange(2**31)), ('scale', 2), ('rotation', 3),
                                   ('layer', 7), ('palette', 1), ('palindex', 2), ('alphafront', .25), ('alphaback', 0),
                                   ('linked', True), ('coastscale', .5), ('slot', 3), ('index', 5), ('a', 1), ('b', 9),
                                   ('params', {'a': [1]})])
            setattr(m.vslots[i], k, value)
            want[i][k] = value
        js = json.loads(m.to_json())
        back = json.loads(Map.from_dict(json.loads(json.dumps(js))).to_json())
        for d, what in ((js, 'the export'), (back, 'the second export')):
            ctx.equal(plain(d['vslots']), want, 'the edited texture slots in ' + what)
        ctx.count('edited slots')
        ctx.seen(('slots', want))

    # exported, edited in place, and exported again: as if it had been edited first
    def bare(x):
        if isinstance(x, dict):
            return {k: bare(v) for k, v in x.items() if k != '_id'}
        return [bare(v) for v in x] if isinstance(x, list) else x

    def change_one(x, name, n, value, rng):
        i = rng.randrange(n)
        old = getattr(x, name)
        if isinstance(old, list):
            old[i] = value
        else:
            setattr(x, name, tuple(old[:i]) + (value,) + tuple(old[i + 1:]))

    def change(m, rng):
        for _ in range(rng.randint(1, 4)):
            how = rng.choice(['move', 'attr', 'link', 'reserved', 'var', 'texmru', 'cube', 'drop', 'swap'])
            e = rng.choice(m.ents) if m.ents else None
            if how == 'var':
                m.map_vars[rng.choice(['x', b'own'])] = rng.choice([1, -5, 0.5, 'text'])
            elif how == 'texmru':
                m.texmru.append(rng.randrange(65536))
            elif how == 'cube':
                c = rng.choice(m.world)
                while c.children and rng.random() < .8:
                    c = rng.choice(c.children)
                change_one(c, 'texture', 6, rng.randrange(65536), rng)
                if rng.random() < .5:
                    change_one(c, 'edges', 12, rng.randrange(256), rng)
            elif e is None:
                continue
            elif how == 'move':
                if rng.random() < .5:
                    e.o.x = rng.randrange(4096) / 4
                else:
                    e.o = type(e.o)(e.o.y, rng.randrange(4096) / 4, e.o.x)
            elif how == 'attr' and e.attrs and e.type.value != 9:
                e.attrs[rng.randrange(len(e.attrs))] = mapz.rint32(rng)
            elif how == 'link':
                e.links.append(rng.randrange(100))
            elif how == 'reserved':
                change_one(e, 'reserved', 3, rng.randrange(256), rng)
            elif how == 'drop':
                m.ents.remove(e)
            elif how == 'swap':
                m.ents.append(m.ents.pop(0))

    for label, rng in ctx.cases('again', 300, 4000, secs=(12, 80)):
        src = ctx.path('a.mpz')
        data = mapz.encode(mapz.gen_map(rng, text=True))
        mapz.write_gz(src, data)
        used, fresh = MapParser().read(src), MapParser().read(src)
        seeds = [rng.random() for _ in range(rng.randint(1, 3))]
        for s in seeds:
            for _ in range(rng.choice([1, 1, 2])):
                used.to_json()
            if rng.random() < .3:
                used.write(ctx.path('b.mpz'))
                fresh.write(ctx.path('b.mpz'))
            change(used, random.Random(s))
            change(fresh, random.Random(s))
        a, b = json.loads(used.to_json()), json.loads(fresh.to_json())
        ctx.equal(live.first_diff(bare(a), bare(b)), None, 'the export after an edit differs from that of a map that was '
                  'edited before its first export')
        ctx.count('exported again after an edit')
        ctx.seen(('again', data, seeds))

    for label, rng in ctx.cases('process', 1, 4):
        m = mapz.gen_map(rng, text=True)
        marks = []
        data = mapz.encode(m, marks)
        mapz.write_gz(ctx.path('p.mpz'), data)
        env = dict(os.environ, PYTHONPATH=REPO)
        with open(ctx.path('p.json'), 'wb') as h:
            subprocess.run([sys.executable, '-W', 'ignore', '-m', 'redeclipse.cli.to_json', ctx.path('p.mpz')], env=env,
                           stdout=h, stderr=subprocess.DEVNULL, timeout=300)
        subprocess.run([sys.executable, '-W', 'ignore', '-m', 'redeclipse.cli.from_json', ctx.path('p.json'),
                        ctx.path('q.mpz')], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        ctx.check(os.path.exists(ctx.path('q.mpz')), 'the to_json and from_json commands wrote no map')
        out = mapz.read_raw(ctx.path('q.mpz'))
        head = data[:dict(marks)['octree']]
        ctx.check(out[:len(head)] == head, 'to_json | from_json changed the map: ' + mapz.diff(out[:len(head)], head))
        ctx.seen(data)
