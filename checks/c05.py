"""C05: entities carry the position and attributes they were given."""
from lib import mapz

RULE = """A case is a batch of entities of all kinds built through the public constructors with random positions
(fine or, where allowed, coarse), a random subset of attributes, links and reserved bytes, written in a map whose
entity records are decoded independently; sharing is provoked by mutating links and reserved bytes of some of them.
Non-trivial when the batch has an entity; distinct by the arguments."""

D = {   # kind -> (type code, [(attribute, default)])
    'Light': (1, [('radius', 64), ('red', 255), ('green', 255), ('blue', 255), ('flare', 0), ('flarescale', 0)]),
    'PlayerSpawn': (3, [('team', 0), ('yaw', 0), ('pitch', 0), ('modes', 0), ('muts', 0), ('id', 0)]),
    'TeamFlag': (14, [('team', 1), ('yaw', 0), ('pitch', 0), ('modes', 2), ('muts', 0), ('id', 0)]),
    'Pusher': (13, [('yaw', 0), ('pitch', 45), ('force', 150), ('maxrad', 0), ('minrad', 0), ('type', 0)]),
    'Sunlight': (8, [('yaw', 0), ('pitch', 0), ('red', 255), ('green', 255), ('blue', 255), ('offset', 45),
                     ('flare', 0), ('flarescale', 0)]),
    'MapModel': (2, [(a, 0) for a in mapz.ATTR_NAMES[2]]),
    'Weapon': (9, [(a, 0) for a in mapz.ATTR_NAMES[9]]),
    'Grenade': (9, [(a, 0) for a in mapz.ATTR_NAMES[9][1:]]),
    'Shotgun': (9, [(a, 0) for a in mapz.ATTR_NAMES[9][1:]]),
    'Entity': None,
}
FIXED = {'Grenade': [9], 'Shotgun': [3]}
COARSE = ('Light', 'Pusher', 'TeamFlag', 'Entity')


def maker(ctx, parts=False):
    """a function that builds a random entity: (kind, entity, record); with parts, attributes may have fractions"""
    from redeclipse import entities
    from redeclipse.entities import model, weapon
    from redeclipse.enums import EntType, WeaponType
    from redeclipse.vector import CoarseVector, FineVector

    def cls(kind):
        for mod in (entities, model, weapon):
            if hasattr(mod, kind) and kind not in ('Entity',):
                return getattr(mod, kind)
        return entities.Entity

    def make(rng):
        kind = rng.choice(sorted(D))
        ctx.count('kind:' + kind)
        step = rng.choice([1, 0.5, 0.25, 0.125])
        xyz = [rng.choice([rng.randint(-50, 2100), rng.randint(-50, 2100), rng.randint(-1 << 20, 1 << 20)]) * step
               for _ in range(3)]
        coarse = kind in COARSE and rng.random() < 0.4
        if coarse:
            xyz = [rng.randint(-5, 40) for _ in range(3)]
            pos = CoarseVector(*xyz)
            rec = tuple(float(v * 32) for v in xyz)
            ctx.count('coarse positions')
        else:
            pos = FineVector(*xyz)
            rec = tuple(float(v * 4) for v in xyz)
        links = rng.choice([None, None, [], [mapz.rint32(rng) for _ in range(rng.randint(1, 3))]])
        reserved = rng.choice([None, None, [rng.randint(0, 255) for _ in range(3)]])
        if kind == 'Entity':
            typ = rng.choice(sorted(mapz.ENT_ATTRS))
            attrs = [mapz.rint32(rng) for _ in range(mapz.ENT_ATTRS[typ])]
            if typ == 9:
                attrs[0] = rng.choice(sorted(mapz.WEAPONS))
            e = entities.Entity(pos, EntType(typ), list(attrs), None if links is None else list(links),
                                None if reserved is None else list(reserved))
            return kind, e, (rec + (typ, attrs, links or [], reserved or [0, 0, 0]))
        typ, attrs = D[kind]
        given = {}
        for a, d in attrs:
            if rng.random() < 0.5:
                given[a] = mapz.rint32(rng)
                if parts and rng.random() < 0.2:    # only the whole part fits in the file
                    given[a] = rng.choice([rng.uniform(-400, 400), rng.randint(-1000, 1000) + .5, 87.5, 131.25,
                                           float(rng.randint(-9, 9)), rng.uniform(-2 ** 30, 2 ** 30)])
                    ctx.count('fractional attributes')
                if kind == 'Weapon' and a == 'type':
                    given[a] = rng.choice(sorted(mapz.WEAPONS))
        kw = dict(given)
        if links is not None:
            kw['links'] = list(links)
        if reserved is not None:
            kw['reserved'] = list(reserved)
        if kind == 'Weapon' and 'type' in kw and rng.random() < 0.5:
            kw['type'] = WeaponType[mapz.WEAPONS[kw['type']]]
        if kind in ('Sunlight', 'PlayerSpawn') and rng.random() < 0.3:     # the position may be left out
            rec = (0.0, 0.0, 0.0)
            e = cls(kind)(**kw)
            ctx.count('default positions')
        elif rng.random() < 0.2:
            full = [kw.get(a, d) for a, d in attrs]
            e = cls(kind)(pos, *full, **{k: kw[k] for k in ('links', 'reserved') if k in kw})
            ctx.count('positional arguments')
        else:
            e = cls(kind)(xyz=pos, **kw) if rng.random() < 0.5 else cls(kind)(pos, **kw)
        want = FIXED.get(kind, []) + [int(given.get(a, d)) for a, d in attrs]
        ctx.count('attributes defaulted', len(attrs) - len(given))
        ctx.check(tuple(pos) == tuple(xyz), 'the given position vector was changed', kind=kind)
        return kind, e, rec + (typ, want, links or [], reserved or [0, 0, 0])

    return make


def run(ctx):
    from redeclipse import MapParser
    ctx.need(*['kind:' + k for k in D])
    ctx.need('sharing probes', 'coarse positions', 'attributes defaulted', 'positional arguments', 'default positions',
             'fractional attributes')
    make = maker(ctx, True)

    for label, rng in ctx.cases('batch', 1800, 40000, secs=(25, 200)):
        base = mapz.gen_map(rng)
        base['ents'] = base['ents'][:2]
        base['meta'] = [(k, len(base['ents']) if k == 'numents' else v) for k, v in base['meta']]
        base['world'] = base['world'][:8]
        mapz.write_gz(ctx.path('b.mpz'), mapz.encode(base))
        m = MapParser().read(ctx.path('b.mpz'))
        made = []
        for _ in range(rng.randint(1, 12)):
            kind, e, rec = make(rng)
            made.append([kind, e, rec])
            if rng.random() < 0.3:      # provoke sharing
                t = rng.choice(made)
                x, y, z, typ, attrs, links, res = t[2]
                if rng.random() < 0.5:
                    v = mapz.rint32(rng)
                    t[1].links.append(v)
                    links = list(links) + [v]
                else:
                    i = rng.randrange(3)
                    v = rng.randint(1, 255)
                    t[1].reserved[i] = v
                    res = list(res)
                    res[i] = v
                t[2] = (x, y, z, typ, attrs, links, res)
                ctx.count('sharing probes')
        m.ents.extend(e for _, e, _ in made)
        m.write(ctx.path('o.mpz'))
        got, _, _ = mapz.decode(mapz.read_raw(ctx.path('o.mpz')))
        ctx.equal(len(got['ents']), len(base['ents']) + len(made), 'number of entity records')
        for g, (kind, e, want) in zip(got['ents'][len(base['ents']):], made):
            g = (g[0], g[1], g[2], g[3], list(g[4]), list(g[5]), list(g[6]))
            w = (want[0], want[1], want[2], want[3], list(want[4]), list(want[5]), list(want[6]))
            ctx.equal(g, w, 'record of a %s (x, y, z, type, attributes, links, reserved)' % kind)
            ctx.count('records compared')
        ctx.seen([w for _, _, w in made])
        ctx.sample([(k, w) for k, _, w in made][:3])
