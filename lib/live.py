"""Reading the library's map objects through their public attributes."""


def plain(v):
    return getattr(v, 'value', v)


def ent(e):
    return (e.o.x, e.o.y, e.o.z, plain(e.type), [plain(a) for a in e.attrs], list(e.links), list(e.reserved))


def node(c):
    kind = c.octsav & 7
    if kind == 0:
        n = {'kids': [node(k) for k in c.children]}
        return dict(n, bits=c.octsav) if c.octsav else n
    n = {'kind': kind}
    if c.octsav & 0x18:
        n['bits'] = c.octsav & 0x18
    if kind == 3:
        n['edges'] = list(c.edges)
    n['tex'] = [plain(t) for t in c.texture]
    if c.octsav & 0x40:
        n['mat'] = c.material
    if c.octsav & 0x80:
        n['merged'] = c.merged
    if c.octsav & 0x20:
        n['surf'] = (c.surfmask, c.totalverts,
                     [None if s is None else (s.lmid[0], s.lmid[1], s.verts, s.numverts)
                      for s in c.ext.surfaces])
    if kind == 4:
        n['lod'] = [node(k) for k in c.children]
    return n


def as_model(m):
    """The map object in the form used by lib.mapz."""
    meta = dict(m.meta)
    ident = meta.pop('gameident')
    nv = meta.pop('numvars')
    return {
        'magic': m.magic, 'version': m.version, 'headersize': m.headersize,
        'meta': [(k, meta[k]) for k in meta], 'gameident': ident, 'numvars': nv,
        'vars': list(m.map_vars.items()), 'texmru': list(m.texmru),
        'ents': [ent(e) for e in m.ents], 'nvslots': len(m.vslots), 'chg': list(m.chg),
        'world': [node(c) for c in m.world],
    }


def first_diff(a, b, path=''):
    """Where two nested structures differ, or None. NaN-free data only."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%s/%s only on one side' % (path, k)
            d = first_diff(a[k], b[k], '%s/%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, '%s/%d' % (path, i))
            if d:
                return d
        if len(a) != len(b):
            return '%s has %d items instead of %d' % (path, len(a), len(b))
        return None
    if a != b or isinstance(a, float) != isinstance(b, float) or isinstance(a, bytes) != isinstance(b, bytes):
        return '%s is %.120r instead of %.120r' % (path, a, b)
    if isinstance(a, float) and str(a) != str(b):      # signed zero
        return '%s is %r instead of %r' % (path, a, b)
    return None
