"""C26: what a map refers to is installed for the game."""
import builtins
import inspect
import io
import os
import random
import re
import shutil
import types

from lib import core, rooms as R

RULE = """A case is the installation of a skybox into a scratch game directory in some state (missing, empty, with older,
shorter, longer or read-only copies, with other files), alone or after others, or of the textures a manager has in use
(the hard-coded home directory being redirected into a scratch directory); the directory tree before and after is
compared byte for byte with the shipped images. Non-trivial always; distinct by state and requests."""

FACES = ['bk', 'dn', 'ft', 'lf', 'rt', 'up']


def tree(top):
    out = {}
    for d, ds, fs in os.walk(top, followlinks=True):
        for f in fs:
            p = os.path.join(d, f)
            if not os.path.exists(p):       # a link to nowhere
                continue
            with open(p, 'rb') as h:
                out[os.path.relpath(p, top)] = h.read()
    return out


class Home:
    """Redirects everything below /home into a scratch directory."""

    def __init__(self, top):
        self.top = top
        self.sources = []

    def to(self, p):
        if isinstance(p, (str, os.PathLike)):
            q = os.path.abspath(os.fspath(p)) if isinstance(os.fspath(p), str) else None
            if q and (q == '/home' or q.startswith('/home/')):
                return self.top + q[len('/home'):]
        return p

    def __enter__(self):
        self.saved = []
        to = self.to

        def wrap(mod, name, n):
            real = getattr(mod, name)

            def f(*a, **kw):
                return real(*([to(x) for x in a[:n]] + list(a[n:])), **{k: to(v) for k, v in kw.items()})
            self.saved.append((mod, name, real))
            setattr(mod, name, f)
        for name in ('makedirs', 'mkdir', 'listdir', 'stat', 'lstat', 'remove', 'unlink', 'open', 'chmod', 'utime',
                     'access', 'scandir', 'rmdir', 'truncate'):
            wrap(os, name, 1)
        for name in ('rename', 'replace', 'link', 'symlink'):
            wrap(os, name, 2)
        wrap(os.path, 'samefile', 2)
        for name in ('exists', 'isdir', 'isfile', 'islink', 'getsize', 'realpath', 'lexists', 'getmtime'):
            wrap(os.path, name, 1)
        for name in ('copy', 'copy2', 'copyfile', 'move', 'copymode', 'copystat', 'copytree'):
            wrap(shutil, name, 2)
        wrap(builtins, 'open', 1)
        wrap(io, 'open', 1)
        return self

    def __exit__(self, *a):
        for mod, name, real in reversed(self.saved):
            setattr(mod, name, real)


def run(ctx):
    from redeclipse import skybox as S, textures as T
    from redeclipse.textures import basetex as B
    ctx.need('older images', 'skyboxes', 'fresh directories', 'older copies', 'map variables', 'texture installations',
             'texture files', 'repeated installations', 'linked directories', 'linked images', 'own textures',
             'textures without depth', 'links to nowhere', 'links to the shipped images')
    pack = os.path.join(core.REPO, 'redeclipse')
    skies = sorted((c for c in vars(S).values() if isinstance(c, type) and issubclass(c, S.Skybox) and c is not S.Skybox),
                   key=lambda c: c.__name__)
    shipped = tree(os.path.join(pack, 'skybox'))
    shipped_tex = tree(os.path.join(pack, 'textures', 'data'))

    # the images are taken from a copy of the package, as some of the links below lead to them
    copy = ctx.path('package')
    shutil.copytree(os.path.join(pack, 'skybox'), copy, ignore=shutil.ignore_patterns('__pycache__'))
    package_file, S.__file__ = S.__file__, os.path.join(copy, '__init__.py')
    pristine = tree(copy)

    for label, rng in ctx.cases('sky', 300, 800, secs=(20, 80)):
        top = ctx.path('game')
        shutil.rmtree(top, True)
        state = rng.choice(['missing', 'empty', 'data', 'old', 'old', 'others'])
        if state != 'missing':
            os.makedirs(top)
        if state in ('data', 'old', 'others'):
            os.makedirs(os.path.join(top, 'data', 'hxr', *(['skybox'] if rng.random() < .7 or state == 'old' else [])))
        if state == 'old':
            for c in skies:
                for f in FACES:
                    if rng.random() < .6:
                        old = shipped['%s_%s.jpg' % (c.basename, f)]
                        with open(os.path.join(top, 'data', 'hxr', 'skybox', '%s_%s.jpg' % (c.basename, f)), 'wb') as h:
                            h.write(rng.choice([b'', b'old', old[:100], old + b'more', bytes(len(old))]))
            ctx.count('older copies')
        if state in ('empty', 'missing'):
            ctx.count('fresh directories')
        for name in rng.sample(['data/hxr/skybox/mine_up.jpg', 'data/hxr/x.jpg', 'desert_up.jpg', 'data/hxr/skybox/readme',
                                'data/hxr/textures/empty.png', 'config.cfg'], 3):
            p = os.path.join(top, name)
            if os.path.isdir(os.path.dirname(p)):
                with open(p, 'wb') as h:
                    h.write(name.encode())
        # links to directories and files elsewhere
        away = ctx.path('elsewhere')
        shutil.rmtree(away, True)
        os.makedirs(away)
        skydir = os.path.join(top, 'data', 'hxr', 'skybox')
        if os.path.isdir(skydir) and rng.random() < .3:
            os.rename(skydir, os.path.join(away, 'sky'))
            os.symlink(os.path.join(away, 'sky') if rng.random() < .5 else os.path.relpath(
                os.path.join(away, 'sky'), os.path.dirname(skydir)), skydir)
            ctx.count('linked directories')
        elif os.path.isdir(skydir) and rng.random() < .4:
            for c in skies:
                for f in rng.sample(FACES, 2):
                    f = '%s_%s.jpg' % (c.basename, f)
                    if os.path.exists(os.path.join(skydir, f)):
                        os.remove(os.path.join(skydir, f))
                    r = rng.random()
                    if r < .2:
                        ctx.count('links to the shipped images')
                        rng.choice([os.symlink, os.symlink, os.link])(os.path.join(copy, f), os.path.join(skydir, f))
                        continue
                    if r < .4:
                        ctx.count('links to nowhere')
                    else:
                        with open(os.path.join(away, f), 'wb') as h:
                            h.write(b'elsewhere ' + f.encode())
                    os.symlink(os.path.join(away, f), os.path.join(skydir, f))
            ctx.count('linked images')
        with open(os.path.join(away, 'bystander'), 'wb') as h:
            h.write(b'bystander')
        others = {f: b for f, b in tree(away).items() if f not in shipped and os.path.basename(f) not in shipped}
        have = tree(top) if os.path.isdir(top) else {}
        order = [rng.choice(skies) for _ in range(rng.choice([1, 1, 2, 3]))]
        if len(order) > 1:
            ctx.count('repeated installations')
        arg = rng.choice([top, top + '/', os.path.relpath(top)])
        for c in order:
            sky = c(arg)
            m = R.fresh_map()
            m.map_vars = dict(m.map_vars)
            m.skybox(sky)
            value = {(k.decode() if isinstance(k, bytes) else k): v for k, v in m.map_vars.items()}.get('skybox')
            value = value.decode() if isinstance(value, bytes) else value
            ctx.check(isinstance(value, str) and bool(value), 'the map names no skybox: %r' % (value,))
            ctx.count('map variables')
            for f in FACES:
                have['data/%s_%s.jpg' % (value, f)] = shipped['%s_%s.jpg' % (c.basename, f)]
            got = tree(top)
            what = dict(sky=c.__name__, state=state, order=[x.__name__ for x in order])
            ctx.equal(sorted(set(have) - set(got)), [], 'the skybox lacks files', **what)
            ctx.equal(sorted(set(got) - set(have)), [], 'there are further files', **what)
            bad = [f for f in sorted(have) if have[f] != got[f]]
            ctx.check(not bad, 'the files have other content: %s' % bad, **what)
            ctx.equal({f: b for f, b in tree(away).items() if f not in shipped and os.path.basename(f) not in shipped},
                      others, 'files outside the game directory change', **what)
            ctx.equal(tree(copy), pristine, 'the images of the package change', **what)
            ctx.count('skyboxes')
        names = [shipped['%s_%s.jpg' % (c.basename, f)] for c in skies for f in FACES]
        ctx.check(len(set(names)) > len(skies), 'the skyboxes are all the same')
        ctx.seen((state, sorted(have), [c.__name__ for c in order]))
        ctx.sample({'state': state, 'skies': [c.__name__ for c in order]})
    S.__file__ = package_file
    # they are different skyboxes
    paths = set()
    for c in skies:
        ctx.label = 'names'
        s = c(ctx.path('game2'))
        paths.add(s.get_short_path())
    ctx.check(len(paths) == len(skies), 'skyboxes share a path: %s' % sorted(paths))

    # textures
    managers = sorted((c for c in vars(T).values() if isinstance(c, type) and issubclass(c, T.TextureManager) and
                       c not in (T.TextureManager, T.ThemedTextureManager)), key=lambda c: c.__name__)
    missing = [k['file'] for k in ctx.known if 'file' in k]
    for label, rng in ctx.cases('textures', 400, 1200, secs=(20, 80)):
        random.seed(rng.random())
        cls = rng.choice(managers)
        man = cls()
        if not issubclass(cls, T.ThemedTextureManager):
            # their one image is not shipped (see C22), so only plain managers can be installed
            cls = rng.choice([c for c in managers if issubclass(c, T.ThemedTextureManager)])
            man = cls()
        mod = man.textures
        texs = {n.lower(): c for n, c in inspect.getmembers(mod, inspect.isclass)
                if issubclass(c, B.BaseTex) and c.__module__ == mod.__name__ and getattr(c, 'c', None)}

        def images(c):
            t = c()
            return [(t.srcpath, f) for f in t.files()]
        ok = sorted(n for n, c in texs.items() if all(
            os.path.isfile(os.path.join(pack, 'textures', s, f)) for s, f in images(c)))
        if not ok:
            continue
        top = ctx.path('home')
        shutil.rmtree(top, True)
        os.makedirs(top)
        # the texture directory is where an installation into an empty home leaves its files
        home = Home(top)
        have = {}
        if rng.random() < .5:
            man.get(rng.choice(ok))
            with home:
                cls.copy_data(man)
            dirs = {os.path.dirname(p) for p in tree(top)}
            if dirs:
                where = os.path.join(top, dirs.pop())
                shutil.rmtree(where)
                os.makedirs(where)
                man = cls()
                for n in rng.sample(ok, min(len(ok), 12)):
                    for s, f in images(texs[n]):
                        old = shipped_tex[os.path.relpath(os.path.join(s, f), 'data')]
                        have[f] = rng.choice([b'', b'old', old[:50], old + b'more', bytes(len(old)), old])
                have['other.png'] = b'other'
                have['readme.txt'] = b'text'
                away = ctx.path('elsewhere')
                shutil.rmtree(away, True)
                os.makedirs(away)
                linked = rng.random() < .3
                for f, b in have.items():
                    dst = os.path.join(where, f)
                    if linked and rng.random() < .5:
                        os.symlink(os.path.join(away, f), dst)
                        dst = os.path.join(away, f)
                        ctx.count('linked images')
                    with open(dst, 'wb') as h:
                        h.write(b)
                ctx.count('older images')
            else:
                man = cls()
        use = [rng.choice(ok + [n for n in ok if any(f in have for s, f in images(texs[n]))] * 3)
               for _ in range(rng.choice([0, 1, 3, 10, 30]))]
        for part in range(rng.choice([1, 1, 2])):
            if part:
                use = use + [rng.choice(ok) for _ in range(3)]
                ctx.count('repeated installations')
            for n in use:
                man.get(n)
            with home:
                man.copy_data()
            want = dict(have)
            for n in use:
                for s, f in images(texs[n]):
                    want[f] = shipped_tex[os.path.relpath(os.path.join(s, f), 'data')]
                    ctx.count('texture files')
            got = tree(top)
            flat = {}
            for p, b in got.items():
                ctx.check(re.search(r'/data/hxr/textures/[^/]+$', '/' + p), 'a file outside the texture directory: %s' % p)
                flat[os.path.basename(p)] = b
            what = dict(manager=cls.__name__, textures=use[:10])
            ctx.equal(sorted(set(want) - set(flat)), [], 'images of textures in use are not installed', **what)
            ctx.equal(sorted(set(flat) - set(want)), [], 'other images are installed', **what)
            bad = [f for f in sorted(want) if want[f] != flat[f]]
            ctx.check(not bad, 'the installed images have other content: %s' % bad, **what)
        ctx.count('texture installations')
        ctx.seen((cls.__name__, sorted(use)))
        ctx.sample({'manager': cls.__name__, 'textures': use[:5]})

    # textures of every kind, of themes of one's own
    kinds = {B.SimpleTex: 'c', B.BumpSpecMapWorld: 'cns', B.BumpSpecMapParallaxWorld: 'cnsz',
             B.BumpSpecMapParallaxGlowWorld: 'cnszg'}
    for label, rng in ctx.cases('own', 150, 1500, secs=(12, 80)):
        src, top = ctx.path('images'), ctx.path('home')
        for d in (src, top):
            shutil.rmtree(d, True)
            os.makedirs(d)
        mod = types.ModuleType('own_theme')
        mine, content = {}, {}
        for j in range(rng.choice([1, 3, 10])):
            base = rng.choice(sorted(kinds, key=lambda c: c.__name__))
            folder = rng.choice(['a', 'b b', 'c'])
            os.makedirs(os.path.join(src, folder), exist_ok=True)
            d = {'srcpath': os.path.relpath(os.path.join(src, folder), os.path.join(os.path.realpath(pack), 'textures')),
                 'scale': 1, '__module__': mod.__name__}
            fs = {}
            for k in kinds[base]:
                if k == 'z' and rng.random() < .4:
                    ctx.count('textures without depth')
                    continue
                d[k] = rng.choice(['x%d_%s.png', 'stone wall %d %s.png', '%d.%s']) % (j, k)
                fs[d[k]] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 100])))
                with open(os.path.join(src, folder, d[k]), 'wb') as h:
                    h.write(fs[d[k]])
            with open(os.path.join(src, folder, 'unused%d.png' % j), 'wb') as h:
                h.write(b'unused')
            content['tex%d' % j] = fs
            mine['tex%d' % j] = type('Tex%d' % j, (base,), d)
            setattr(mod, 'Tex%d' % j, mine['tex%d' % j])
        man = type('OwnManager', (T.ThemedTextureManager,), {'textures': mod, 'theme': None})()
        use = [rng.choice(sorted(mine)) for _ in range(rng.randint(1, 6))]
        want = {}
        for n in use:
            man.get(n)
            want.update(content[n])
        with Home(top):
            man.copy_data()
        sources = tree(src)
        if rng.random() < .6:       # again, over copies and links of all kinds
            for p in sorted(tree(top)):
                p = os.path.join(top, p)
                how = rng.choice(['keep', 'old', 'nowhere', 'shipped', 'same'])
                if how != 'keep':
                    os.remove(p)
                at = [os.path.join(src, q) for q in sources if os.path.basename(q) == os.path.basename(p)]
                if how == 'old':
                    with open(p, 'wb') as h:
                        h.write(b'old')
                elif how == 'nowhere' or not at:
                    os.symlink(ctx.path('nowhere-%d' % rng.randrange(10 ** 9)), p)
                    ctx.count('links to nowhere')
                elif how in ('shipped', 'same'):
                    (os.symlink if how == 'shipped' else os.link)(at[0], p)
                    ctx.count('links to the shipped images')
            with Home(top):
                man.copy_data()
            ctx.count('repeated installations')
        got = {os.path.basename(p): b for p, b in tree(top).items()}
        what = dict(textures={n: mine[n].__mro__[1].__name__ for n in use})
        ctx.equal(tree(src), sources, 'the images of the package change', **what)
        ctx.equal(sorted(set(want) - set(got)), [], 'images of textures in use are not installed', **what)
        ctx.equal(sorted(set(got) - set(want)), [], 'other images are installed', **what)
        bad = [f for f in sorted(want) if want[f] != got[f]]
        ctx.check(not bad, 'the installed images have other content: %s' % bad, **what)
        ctx.count('own textures', len(set(use)))
        ctx.seen((label, sorted(want)))
