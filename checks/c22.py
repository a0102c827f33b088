"""C22: texture indices name the slots of the emitted configuration."""
import inspect
import os
import random
import re
import types

from lib import core

RULE = """A case is a history of texture, colour, category and random requests on a texture manager (all shipped
managers), with the configuration emitted in between; an independent parser of the .cfg file reconstructs the slots.
Every texture of every theme and every category is visited. Non-trivial when more textures than sky and default were
requested; distinct by history."""

CATS = ['generic', 'column', 'floor', 'wall', 'accent']
NAMES = {'generic': 'GenericMaterial', 'column': 'ColumnMaterial', 'floor': 'FloorMaterial', 'wall': 'WallMaterial',
         'accent': 'AccentMaterial'}
NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'
RE_TEX = re.compile(r'texture\s+(\w)\s+"([^"]*)"((?:\s+%s)*)$' % NUM)
RE_COL = re.compile(r'texcolor\s+(%s)\s+(%s)\s+(%s)$' % (NUM, NUM, NUM))
RE_SHADER = re.compile(r'setshader\s+(\w+)$')
RE_PARAM = re.compile(r'setshaderparam\s+(\w+)((?:\s+%s){4})$' % NUM)


class BadCfg(Exception):
    pass


def parse(text):
    """[{'shader', 'params', 'images': {kind: path}, 'colour'}] and the other lines"""
    slots, other = [], []
    shader, params = None, {}
    for line in text.splitlines():
        line = line.split('//')[0].strip()
        if not line:
            continue
        m = RE_SHADER.match(line)
        if m:
            shader, params = m.group(1), {}
            continue
        m = RE_PARAM.match(line)
        if m:
            params[m.group(1)] = tuple(float(x) for x in m.group(2).split())
            continue
        m = RE_TEX.match(line)
        if m:
            kind, path = m.group(1), m.group(2)
            if kind == 'c':
                slots.append({'shader': shader, 'params': dict(params), 'images': {'c': path}, 'colour': None})
            else:
                if not slots:
                    raise BadCfg('image without a slot: %s' % line)
                if kind in slots[-1]['images']:
                    raise BadCfg('a second image: %s' % line)
                if slots[-1]['colour'] is not None:
                    raise BadCfg('image after the colour: %s' % line)
                slots[-1]['images'][kind] = path
            continue
        m = RE_COL.match(line)
        if m:
            if not slots or slots[-1]['colour'] is not None:
                raise BadCfg('colour without a slot: %s' % line)
            slots[-1]['colour'] = tuple(float(x) for x in m.groups())
            continue
        if re.match(r'(texture|texcolor|setshader|setshaderparam|tex\w*)\b', line) or 'texture' in line:
            raise BadCfg('unreadable statement: %s' % line)
        other.append(line)
    return slots, other


def declared(cls):
    """images and colour of a texture class, from its own declarations"""
    images = {}
    for k in 'cnszg':
        v = getattr(cls, k, None)
        if isinstance(v, str):
            images[k] = '%s/%s' % (cls.basepath, v)
    colour = getattr(cls, 'texcolor', None)
    return images, tuple(map(float, colour)) if colour else None


def run(ctx):
    from redeclipse import textures as T
    from redeclipse.textures import basetex as B
    ctx.need('configurations parsed', 'slots compared', 'colours', 'theme textures', 'categories', 'images shipped',
             'own themes', 'second names', 'shader parameters', 'coloured images', 'other letters')
    managers = sorted((c for c in vars(T).values() if isinstance(c, type) and issubclass(c, T.TextureManager) and
                       c not in (T.TextureManager, T.ThemedTextureManager)), key=lambda c: c.__name__)
    for d in ('first.mpz', 'dir.mpz.old', 'a.b'):
        os.makedirs(ctx.path(d), exist_ok=True)
    out = types.SimpleNamespace(name=ctx.path('m.mpz'))
    # the configuration lies beside the map, whatever their names
    places = ['m.mpz'] * 5 + ['my.map.mpz', '.m.mpz', 'a.b.c.d.mpz', 'first.mpz/m.mpz', 'm.map', 'dir.mpz.old/x.mpz', 'a.b/m']

    def theme_textures(man):
        """{name: class} of the textures of the manager's theme"""
        mod = man.textures
        return {n.lower(): c for n, c in inspect.getmembers(mod, inspect.isclass)
                if issubclass(c, B.BaseTex) and c.__module__ == mod.__name__ and
                (getattr(c, 'c', None) or issubclass(c, B.SimpleColourTex))}

    def images_of(want):
        kind, val = want
        if kind == 'sky':
            return {'c': 'textures/sky.png'}, None
        if kind == 'default':
            return {'c': 'textures/default.png'}, None
        if kind == 'colour':
            return None, tuple(map(float, val))
        if issubclass(val, B.SimpleColourTex):
            return None, (float(val.r), float(val.g), float(val.b))
        return declared(val)

    def conf(man, wants, extra=None):
        """emit the configuration and compare it"""
        kw = extra or {}
        way = random.Random('%s %d' % (ctx.label, len(wants)))
        out.name = ctx.path(way.choice(places))
        path = os.path.splitext(out.name)[0] + '.cfg'
        if way.random() < .5 and os.path.exists(path):
            os.unlink(path)
        man.emit_conf(out, **kw)
        ctx.check(os.path.exists(path), 'the configuration is not written beside the map', map=os.path.relpath(out.name, ctx.path('.')))
        with open(path) as h:
            text = h.read()
        try:
            slots, other = parse(text)
        except BadCfg as e:
            ctx.fail('the configuration is malformed: %s' % e, manager=type(man).__name__)
        ctx.count('configurations parsed')
        ctx.check(not other, 'unexpected lines in the configuration: %s' % other[:3])
        ctx.check(len(slots) == len(wants), 'the configuration declares %d slots for %d indices' % (
            len(slots), len(wants)), manager=type(man).__name__)
        for i, (s, w) in enumerate(zip(slots, wants)):
            images, colour = images_of(w)
            what = dict(manager=type(man).__name__, index=i, texture=str(w), slot=s)
            if images is not None:
                ctx.equal(s['images'], images, 'slot %d has other images than its texture' % i, **what)
            else:
                ctx.check(set(s['images']) == {'c'}, 'slot %d has the images %s' % (i, s['images']), **what)
            ctx.check(bool(s['shader']), 'slot %d has no shader' % i, **what)
            if colour is None:
                ctx.check(s['colour'] is None, 'slot %d is coloured, its texture is not' % i, **what)
            else:
                ctx.check(s['colour'] is not None and
                          all(abs(a - b) < 1e-9 for a, b in zip(s['colour'], colour)),
                          'slot %d has another colour than its texture' % i, **what)
            ctx.count('slots compared')

    def fresh(rng, n):
        got = []
        while len(got) < n:
            c = rng.choice([
                (rng.randrange(256) / 255, rng.randrange(256) / 255, rng.randrange(256) / 255),
                (rng.random(), rng.random(), rng.random()),
                tuple(rng.choice([0.0, 0.5, 1.0, 0.1, 0.01, 1e-5]) for _ in range(3)),
                tuple(rng.choice([0, 1]) for _ in range(3))])
            if got and rng.random() < .3:           # much like another one
                c = list(rng.choice(got))
                i = rng.randrange(3)
                k = rng.randrange(3)
                if k == 0:
                    c[i] = min(1.0, c[i] + rng.choice([1e-12, 1e-7, 1e-4, 1 / 255, .001, .01]))
                elif k == 1:
                    c[i], c[i - 1] = c[i - 1], c[i]
                else:
                    c = c[1:] + c[:1]
                c = tuple(c)
            if c not in got:
                got.append(c)
        return got

    for label, rng in ctx.cases('history', 2000, 12000, secs=(25, 150)):
        random.seed(rng.random())
        cls = rng.choice(managers)
        man = cls()
        themed = issubclass(cls, T.ThemedTextureManager)
        rainbow = cls is T.RainbowPukeTextureManager
        wants = [('sky', None), ('default', None)]       # by index
        index = {'sky': 0, 'default': 1}
        if themed:
            texs = theme_textures(man)
            names = sorted(texs)
            theme = man.theme
        pal = fresh(rng, rng.choice([1, 2, 5, 30, 300]))
        log = []

        def saw(key, want, i):
            log.append((str(key), i))
            what = dict(manager=cls.__name__, history=log[-8:])
            ctx.check(isinstance(i, int), 'a texture has the index %r' % (i,), **what)
            if key in index:
                ctx.check(i == index[key], 'the same texture has the index %r, and later %r' % (index[key], i), **what)
            else:
                ctx.check(i == len(wants), 'a new texture gets the index %r instead of %d' % (i, len(wants)), **what)
                index[key] = i
                wants.append(want)

        for _ in range(rng.choice([0, 1, 5, 30, 120, 400])):
            x = rng.random()
            if x < .05:
                k = rng.choice(['sky', 'default'])
                saw(k, None, man.get(k))
            elif x < .1:
                conf(man, wants)
            elif themed and x < .5:
                k = rng.choice(names)
                saw(k, ('class', texs[k]), man.get(k))
                ctx.count('theme textures')
            elif themed:
                cat = rng.choice(CATS + ['other'])
                i = man.get_c(cat)
                allowed = getattr(theme, NAMES.get(cat, 'GenericMaterial'))
                found = [k for k in index if index[k] == i]
                if not found:
                    ctx.check(i == len(wants) and i in man.atlas, 'the category %s yields the index %r' % (cat, i))
                    found = [k for k in allowed if k not in index and isinstance(man.atlas[i], texs.get(k, ()))]
                    ctx.check(found, 'the category %s yields none of its textures' % cat, manager=cls.__name__,
                              got=type(man.atlas[i]).__name__)
                    saw(found[0], ('class', texs[found[0]]), i)
                ctx.check(any(k in allowed for k in found), 'the category %s yields %s' % (cat, found),
                          manager=cls.__name__)
                ctx.count('categories')
            elif rainbow:
                # colours of its own choice
                i = man.get_c(rng.choice(CATS + ['other'])) if rng.random() < .5 else man.get_colour(*rng.choice(pal))
                ctx.check(isinstance(i, int) and 2 <= i <= len(wants), 'index %r of %d textures' % (i, len(wants)),
                          manager=cls.__name__)
                t = man.atlas[i]
                key = (t.r, t.g, t.b)
                ctx.check(all(0 <= c <= 1 for c in key), 'the colour %s' % (key,), manager=cls.__name__)
                saw(key, ('colour', key), i)
                ctx.count('categories')
            elif x < .85:
                c = rng.choice(pal)
                # an int equals a float of the same value
                c = tuple(rng.choice([int, float])(q) if q in (0, 1) else q for q in c)
                saw(tuple(map(float, c)), ('colour', c), man.get_colour(*c))
                if any(isinstance(q, int) for q in c):
                    ctx.count('colours given by int')
                ctx.count('colours')
            else:
                cat = rng.choice(CATS + ['other'])
                i = man.get_c(cat)
                ctx.check(isinstance(i, int) and 2 <= i <= len(wants), 'the category %s yields the index %r' % (cat, i))
                t = man.atlas[i]
                key = tuple(map(float, (t.r, t.g, t.b)))
                if not any(j == i for j in index.values()):
                    saw(key, ('colour', (t.r, t.g, t.b)), i)
                ctx.check(man.get_c(cat) == i, 'the category %s has two indices' % cat)
                ctx.count('categories')
        ctx.check(sorted(man.atlas) == list(range(len(wants))), 'the atlas holds the indices %s' % sorted(man.atlas))
        conf(man, wants, rng.choice([None, {'author': 'Someone'}, {'map_name': 'a place', 'author': 'A'}]))
        ctx.seen((cls.__name__, log), len(wants) > 2)
        ctx.sample({'manager': cls.__name__, 'requests': log[:6], 'slots': len(wants)})

    # every texture and every category
    for cls in managers:
        if not issubclass(cls, T.ThemedTextureManager):
            continue
        ctx.label = 'theme %s' % cls.__name__
        man = cls()
        texs = theme_textures(man)
        for cat, attr in sorted(NAMES.items()):
            names = getattr(man.theme, attr)
            ctx.check(bool(names), 'a category without textures', theme=man.theme.__name__, category=cat)
            for k in names:
                ctx.check(k in texs, 'the category %s of %s names %r, which is no texture of the theme' % (
                    cat, man.theme.__name__, k))
                ctx.check(isinstance(man.atlas[man.get(k)], texs[k]), 'the theme yields another texture for %r' % k)
        wants = [('sky', None), ('default', None)]
        man = cls()
        for k in sorted(texs):
            ctx.equal(man.get(k), len(wants), 'index of a new texture')
            wants.append(('class', texs[k]))
            t = man.atlas[man.get(k)]
            src = os.path.join(core.REPO, 'redeclipse', 'textures', t.srcpath)
            files = list(t.files())
            if files and not issubclass(texs[k], B.SimpleColourTex):
                ctx.equal(sorted(files), sorted(v for v in (getattr(t, a, None) for a in 'cnszg') if v),
                          'the files of %s are not those its slot shows' % k)
            for f in files:
                if not os.path.isfile(os.path.join(src, f)):
                    ctx.finding('missing:%s' % f, 'the image %s of the texture %s is not shipped' % (f, k))
                else:
                    ctx.count('images shipped')
        conf(man, wants)
        ctx.seen(('theme', cls.__name__))
    # themes of one's own, with textures of every kind
    kinds = {B.SimpleTex: 'c', B.BumpSpecMapWorld: 'cns', B.BumpSpecMapParallaxWorld: 'cnsz',
             B.BumpSpecMapParallaxGlowWorld: 'cnszg', B.SimpleColourTex: ''}
    for label, rng in ctx.cases('own', 300, 3000, secs=(10, 60)):
        mod = types.ModuleType('own_theme')
        texs = {}
        for j in range(rng.choice([1, 3, 8, 40])):
            base = rng.choice(sorted(kinds, key=lambda c: c.__name__))
            name = rng.choice(['Tex', 'T', 'Wall', 'tEX_']) + str(j)
            d = {'basepath': rng.choice(['hxr/textures', 'my/own', 'a b']), '__module__': mod.__name__}
            for k in kinds[base]:
                if k in 'cns' or rng.random() < .7:
                    d[k] = '%s%d_%s.png' % (rng.choice(['x', 'stone wall', 'y.z', 'h\u00e4us']), j, k)
                    ctx.count('other letters', '\u00e4' in d[k])
            if base is B.SimpleColourTex:
                d.update(zip('rgb', (rng.random() for _ in range(3))))
            elif base is not B.SimpleTex:
                if rng.random() < .6:
                    d['texcolor'] = tuple(rng.choice([0, 1, .5, rng.random()]) for _ in range(3))
            if 'z' in kinds[base]:
                for k in ('specscale', 'parallaxscale') + (('glowcolor',) if 'g' in kinds[base] else ()):
                    if rng.random() < .5:
                        d[k] = tuple(round(rng.random() * 4, 6) for _ in range(4))
                if 'g' in kinds[base]:
                    d.setdefault('g', 'glow%d.png' % j)
            else:
                d['scale'] = rng.choice([1, 2, .25])
            texs[name.lower()] = c = type(name, (base,), d)
            setattr(mod, name, c)
        names = sorted(texs)
        theme = types.SimpleNamespace(**{a: [rng.choice(names) for _ in range(3)] for a in NAMES.values()})
        man = type('OwnManager', (T.ThemedTextureManager,), {'textures': mod, 'theme': theme})()
        rng.shuffle(names)
        wants = [('sky', None), ('default', None)]
        for k in names[:rng.randint(1, len(names))]:
            ctx.equal(man.get(k), len(wants), 'index of a new texture')
            wants.append(('class', texs[k]))
            if rng.random() < .2:       # the same texture under another name
                man.texref['again ' + k] = man.texref[k]
                i = man.get('again ' + k)
                ctx.equal(man.get(k), len(wants) - 1, 'index of a known texture')
                if i == len(wants):
                    wants.append(wants[-1])
                else:
                    ctx.equal(i, len(wants) - 1, 'index of a known texture under another name')
                ctx.count('second names')
            t = man.atlas[man.get(k)]
            if not isinstance(t, B.SimpleColourTex):
                ctx.equal(sorted(f for f in t.files() if f), sorted(v for v in (getattr(t, a, None) for a in 'cnszg') if v),
                          'the files of a texture are not those its slot shows', texture=type(t).__mro__[1].__name__)
        conf(man, wants)
        with open(os.path.splitext(out.name)[0] + '.cfg') as h:
            slots, _ = parse(h.read())
        for s, (_, c) in zip(slots[2:], wants[2:]):
            if issubclass(c, (B.BumpSpecMapParallaxWorld, B.BumpSpecMapParallaxGlowWorld)):
                said = {k: tuple(getattr(c, k)) for k in ('specscale', 'parallaxscale', 'glowcolor')
                        if getattr(c, k, None)}
                ctx.equal(s['params'], said, 'the shader parameters of a slot', texture=c.__name__)
                ctx.count('shader parameters', len(said))
            if getattr(c, 'texcolor', None):
                ctx.count('coloured images')
        ctx.count('own themes')
        ctx.seen((label, sorted(str(vars(c)) for c in texs.values())))

    # what the managers share, they do not share
    ctx.label = 'separate'
    a, b = T.AutomatedMagicaTextureManager(), T.AutomatedMagicaTextureManager()
    a.get_colour(.3, .4, .5)
    ctx.check(len(b.atlas) == 2, 'a texture requested of one manager appears in another')
    ctx.equal(b.get_colour(.1, .1, .2), 2, 'index of a new texture')
    conf(a, [('sky', None), ('default', None), ('colour', (.3, .4, .5))])
    conf(b, [('sky', None), ('default', None), ('colour', (.1, .1, .2))])
    ctx.label = None
