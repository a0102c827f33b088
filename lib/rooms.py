"""The rooms the package ships, and turning things."""
import glob
import inspect
import itertools
import os
import pkgutil

from lib.core import REPO, Inconclusive

ABSTRACT = ('_3X3Room', '_LargeRoom', 'OriginalRoom', 'MagicaRoom')


def cards():
    from redeclipse.vector import orientations as O
    return [O.EAST, O.NORTH, O.WEST, O.SOUTH]


def classes():
    """[(class, is it made from a model)] sorted by name"""
    import importlib
    from redeclipse import prefabs
    from redeclipse.prefabs.magica import MagicaRoom
    out = {}
    mods = [prefabs] + [importlib.import_module('redeclipse.prefabs.' + m.name)
                        for m in pkgutil.iter_modules(prefabs.__path__)]
    for mod in mods:
        for name, c in inspect.getmembers(mod, inspect.isclass):
            if issubclass(c, prefabs.Room) and c.__module__ == mod.__name__ and name not in ABSTRACT and \
                    not name.startswith('_'):
                model = issubclass(c, MagicaRoom)
                if model and not c.vox_file and c.__subclasses__():
                    continue
                out[c.__module__ + '.' + name] = (c, model)
    return [out[k] for k in sorted(out)]


def variants(c):
    flags = getattr(c, '_randflags', None)
    if not flags:
        return [None]
    return list(itertools.product([True, False], repeat=len(flags)))


def make(c, pos, k, flags=None, exact=False):
    from redeclipse.vector import CoarseVector
    kw = {}
    if flags is not None:
        kw['randflags'] = flags if exact else list(flags)
    return c(pos=CoarseVector(*pos), orientation=cards()[k], **kw)


def anywhere(rng):
    """a place for a room, often on the ground or at an edge of a map of 32 cells"""
    return tuple(rng.choice([rng.randint(6, 24), rng.randint(0, 31), rng.choice([0, 0, 30, 31])]) for _ in range(3))


_map = None


def fresh_map():
    """A map object without entities and geometry."""
    global _map
    from redeclipse import MapParser
    if _map is None:
        src = sorted(glob.glob(os.path.join(REPO, 'maps', 'empty*.mpz')))
        if not src:
            raise Inconclusive('no shipped map to start from')
        _map = MapParser().read(src[0])
    import copy
    m = copy.copy(_map)
    m.ents = []
    return m


def ints(p):
    """a grid point as ints; None if it is not on the grid"""
    t = tuple(int(c) for c in p)
    return t if all(a == b for a, b in zip(t, p)) else None


def quarter(x, y, k):
    for _ in range(k % 4):
        x, y = -y, x
    return x, y


def turn_cell(c, k):
    return quarter(c[0], c[1], k) + (c[2],)


def turn_voxel(v, k):
    """a voxel of a room, relative to its origin cell's corner, about the cell's centre"""
    x, y, z = v
    for _ in range(k % 4):
        x, y = 7 - y, x
    return x, y, z


def turn_fine(v, k):
    """a point relative to the origin cell's corner, about the cell's centre"""
    x, y = quarter(v[0] - 4, v[1] - 4, k)
    return x + 4, y + 4, v[2]
