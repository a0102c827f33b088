"""C24: lights are placed where asked, in a valid colour of the requested strength."""
import math

from lib import live, rooms as R

RULE = """A case is a history of requests to a light manager (white or position-based) of random brightness, saturation
and world size on a map that already holds entities: coarse or fine positions, centred or not, with size factors and
overriding colours. The entities added are compared with an independent computation; equal positions are asked for
again, by another manager, in another order. Non-trivial when a light was added; distinct by request."""


def run(ctx):
    from redeclipse.enums import EntType
    from redeclipse.entities import Light, PlayerSpawn
    from redeclipse.lighting import LightManager, PositionBasedLightManager
    from redeclipse.vector import CoarseVector, FineVector
    ctx.need('lights', 'coarse positions', 'fine positions', 'not centred', 'overridden', 'white', 'by position',
             'asked for again', 'settings changed', 'size factors', 'clamped brightness')

    def close(a, b):
        return abs(a - b) <= 1e-6 * max(1, abs(b))

    for label, rng in ctx.cases('history', 12000, 80000, secs=(25, 150)):
        based = rng.random() < .65
        cls = PositionBasedLightManager if based else LightManager
        ws = rng.choice([None, 64, 128, 256, 512, 1024, 100])
        b = rng.choice([None, 0, 0.3, 1, 1.0, 0.5, rng.random(), rng.random() * 3])
        s = rng.choice([None, 0, 0.6, 1, rng.random()])
        kw = {k: v for k, v in (('brightness', b), ('saturation', s), ('world_size', ws)) if v is not None}
        man, twin = cls(**kw), cls(**kw)
        size = ws or 128
        bright = 1.0 if b is None else b
        sat = 1.0 if s is None else s
        m = R.fresh_map()
        for _ in range(rng.randint(0, 3)):
            m.ents.append(PlayerSpawn(xyz=FineVector(1, 2, 3)))
        memory = {}
        asked = []
        tune = rng.random() < .3
        for _ in range(rng.choice([1, 3, 10, 30])):
            if asked and rng.random() < .3:
                coarse, p = rng.choice(asked)
                ctx.count('asked for again')
            else:
                coarse = rng.random() < .5
                hi = 32 if coarse else 256
                p = tuple(rng.choice([rng.randint(0, hi), rng.randint(-5, 2 * hi), 0, hi]) for _ in range(3))
                if not coarse and rng.random() < .3:
                    p = tuple(c + rng.choice([0, .5, .25]) for c in p)
                asked.append((coarse, p))
            pos = CoarseVector(*p) if coarse else FineVector(*p)
            ctx.count('coarse positions' if coarse else 'fine positions')
            opt = {}
            override = None
            if rng.random() < .3:
                override = rng.choice([(0, 0, 0), (255, 255, 255), (0, 0, 255), (255, 0, 0)] +
                                      [tuple(rng.randrange(256) for _ in range(3))] * 4)
                opt['colour_override'] = override
                ctx.count('overridden')
            centred = True
            if rng.random() < .4:
                centred = rng.random() < .3
                opt['autocenter'] = centred
                if not centred:
                    ctx.count('not centred')
            factor = 1
            if rng.random() < .4:
                factor = rng.choice([1, 2, 0.5, 3, 8, 16, 17, 50, 1.5, 0])
                opt['size_factor'] = factor
                ctx.count('size factors')
            if tune and rng.random() < .4:      # as the generator does
                if rng.random() < .7:
                    bright = rng.choice([0.3, 1.0, 0.5, rng.random()])
                else:
                    sat = rng.choice([0, 0.6, 1.0, rng.random()])
                for x in (man, twin):
                    x.brightness, x.saturation = bright, sat
                memory = {}
                ctx.count('settings changed')
            before = [(id(e), live.ent(e)) for e in m.ents]
            (man if rng.random() < .7 else twin).light(m, pos, **opt)
            ctx.check(tuple(pos) == p, 'asking for a light changes the position given')
            what = dict(manager=cls.__name__, settings=kw, now=(bright, sat), position=(coarse, p), options=opt)
            ctx.check([(id(e), live.ent(e)) for e in m.ents[:len(before)]] == before,
                      'a light changes other entities', **what)
            ctx.check(len(m.ents) == len(before) + 1, '%d entities are added for a light' % (
                len(m.ents) - len(before)), **what)
            e = m.ents[-1]
            ctx.check(e.type == EntType.ET_LIGHT and isinstance(e, Light), 'a %s is added for a light' % e.type, **what)
            fine = tuple(c * 8 if coarse else c for c in p)
            want = tuple((c + (4 if centred else 0)) * 1024 / size for c in fine)
            got = (e.o.x, e.o.y, e.o.z)
            ctx.check(all(close(x, y) for x, y in zip(got, want)), 'the light is at %s instead of %s' % (got, want),
                      **what)
            a = dict(zip(e.attr_annotations, [live.plain(x) for x in e.attrs]))
            ctx.check(a['radius'] == 64 * factor, 'the radius is %r instead of %r' % (a['radius'], 64 * factor), **what)
            rgb = (a['red'], a['green'], a['blue'])
            if override:
                ctx.equal(rgb, override, 'the colour asked for is not that of the light', **what)
            elif not based:
                ctx.equal(rgb, (255, 255, 255), 'the light is not white', **what)
                ctx.count('white')
            else:
                ctx.count('by position')
                ctx.check(all(type(c) is int and 0 <= c <= 255 for c in rgb), 'the light has the colour %r' % (rgb,),
                          **what)
                top = min(bright, 1.0)
                if bright > 1:
                    ctx.count('clamped brightness')
                v = math.floor(255 * top + 1e-9)
                ctx.check(abs(max(rgb) - 255 * top) <= 1, 'the brightest component is %d instead of %d' % (
                    max(rgb), v), colour=rgb, **what)
                ctx.check(abs(min(rgb) - 255 * top * (1 - sat)) <= 2 - sat + 1e-6, 'the darkest component is %d instead of %.1f' % (
                    min(rgb), 255 * top * (1 - sat)), colour=rgb, **what)
                here = tuple(c + (4 if centred else 0) for c in fine)
                ctx.equal(memory.setdefault(here, rgb), rgb, 'the colour at one position changes', **what)
            ctx.count('lights')
            ctx.seen((cls.__name__, sorted(kw.items()), coarse, p, sorted(opt.items())))
        ctx.sample({'manager': cls.__name__, 'settings': kw, 'lights': len(asked)})

    # colours depend on the position, in all its coordinates
    for label, rng in ctx.cases('spread', 60, 200, secs=(8, 30)):
        man = PositionBasedLightManager(brightness=1.0, saturation=1.0, world_size=256)
        m = R.fresh_map()
        for axis in range(3):
            base = [rng.randint(0, 255) for _ in range(3)]
            for v in range(0, 1024, 8):
                p = list(base)
                p[axis] = v
                man.light(m, FineVector(*p))
            colours = {tuple(e.attrs[1:4]) for e in m.ents}
            ctx.check(len(colours) > 5, 'the colour does not change along the axis %d' % axis, base=base)
            m.ents = []
            ctx.count('lines of lights')
        ctx.seen(('spread', base))
