"""An independent encoder / decoder for the MAPZ layout and a generator of maps.

A map is a plain dict:
  magic (4 bytes), version, headersize, meta [(name, int)...], gameident (3 bytes),
  vars [(name, value)...] (value int, float or bytes), texmru [int...],
  ents [(x, y, z, type, attrs, links, reserved)...], chg [negative ints],
  world [8 nodes]; node = {'kids': [8 nodes]} or
  {'kind': 1..4, 'tex': [6], 'edges': [12]?, 'mat': int?, 'merged': int?,
   'bits': extra flag bits of the node byte?,
  'surf': (mask, totalverts, [(l0, l1, verts, numverts)|None]*6)?, 'lod': [8 nodes]?}
  (a node of kind 4 stands for its eight cubes from far away and has them in 'lod')
"""
import copy
import gzip
import io
import struct
import zlib

META = ('worldsize', 'numents', 'numpvs', 'lightmaps', 'blendmap', 'numvslots', 'gamever', 'revision')
ENT_ATTRS = {1: 6, 2: 13, 3: 6, 8: 8, 9: 5, 13: 6, 14: 6}
ENT_NAMES = {1: 'ET_LIGHT', 2: 'ET_MAPMODEL', 3: 'ET_PLAYERSTART', 8: 'ET_SUNLIGHT', 9: 'ET_WEAPON',
             13: 'ET_PUSHER', 14: 'ET_AFFINITY'}
ATTR_NAMES = {
    1: ['radius', 'red', 'green', 'blue', 'flare', 'flarescale'],
    2: ['type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags', 'colour', 'palette', 'palindex',
        'spinyaw', 'spinpitch', 'spinroll'],
    3: ['team', 'yaw', 'pitch', 'modes', 'muts', 'id'],
    8: ['yaw', 'pitch', 'red', 'green', 'blue', 'offset', 'flare', 'flarescale'],
    9: ['type', 'flags', 'modes', 'muts', 'id'],
    13: ['yaw', 'pitch', 'force', 'maxrad', 'minrad', 'type'],
    14: ['team', 'yaw', 'pitch', 'modes', 'muts', 'id'],
}
WEAPONS = {0: 'UNKNOWN', 2: 'SWORD', 3: 'SHOTGUN', 4: 'SMG', 5: 'FLAMER', 6: 'PLASMA', 7: 'ZAPPER',
           8: 'RIFLE', 9: 'GRENADE', 10: 'MINE', 11: 'ROCKET'}


def i4(v):
    return struct.pack('<i', v)


def f4(v):
    return struct.pack('<f', v)


def u2(v):
    return struct.pack('<H', v)


def enc_node(n, out):
    if 'kids' in n:
        out.append(bytes([n.get('bits', 0)]))
        for k in n['kids']:
            enc_node(k, out)
        return
    octsav = n['kind'] | n.get('bits', 0)
    if n.get('mat') is not None:
        octsav |= 0x40
    if n.get('merged') is not None:
        octsav |= 0x80
    if n.get('surf') is not None:
        octsav |= 0x20
    out.append(bytes([octsav]))
    if n['kind'] == 3:
        out.append(bytes(n['edges']))
    out.append(struct.pack('<6H', *n['tex']))
    if n.get('mat') is not None:
        out.append(u2(n['mat']))
    if n.get('merged') is not None:
        out.append(bytes([n['merged']]))
    if n.get('surf') is not None:
        mask, total, faces = n['surf']
        out.append(bytes([mask, total]))
        for i in range(6):
            if mask & (1 << i):
                out.append(bytes(faces[i]))
    for k in n.get('lod') or ():
        enc_node(k, out)


def encode(m, marks=None):
    """bytes of the map up to the end of its octree; marks collects offsets."""
    out = []

    def mark(name):
        if marks is not None:
            marks.append((name, sum(len(x) for x in out)))

    mark('magic')
    out.append(m['magic'])
    mark('version')
    out.append(i4(m['version']))
    mark('headersize')
    out.append(i4(m['headersize']))
    for k, v in m['meta']:
        mark(k)
        out.append(i4(v))
    mark('gameident')
    out.append(m['gameident'] + b'\0')
    mark('numvars')
    out.append(i4(len(m['vars'])))
    for name, value in m['vars']:
        mark('var')
        out.append(i4(len(name)))
        out.append(name + b'\0')
        mark('vartype')
        if isinstance(value, bytes):
            out.append(i4(2) + i4(len(value)))
            mark('varvalue')
            out.append(value + b'\0')
        elif isinstance(value, float):
            out.append(i4(1))
            mark('varvalue')
            out.append(f4(value))
        else:
            out.append(i4(0))
            mark('varvalue')
            out.append(i4(value))
    mark('nummru')
    out.append(u2(len(m['texmru'])))
    for v in m['texmru']:
        out.append(u2(v))
    for x, y, z, typ, attrs, links, reserved in m['ents']:
        mark('ent')
        out.append(struct.pack('<fff', x, y, z))
        mark('enttype')
        out.append(bytes([typ]) + bytes(reserved))
        mark('numattrs')
        out.append(i4(len(attrs)))
        mark('attrs')
        out.extend(i4(a) for a in attrs)
        mark('numlinks')
        out.append(i4(len(links)))
        mark('links')
        out.extend(i4(a) for a in links)
    for c in m['chg']:
        mark('vslot')
        out.append(i4(c))
    mark('octree')
    for i, n in enumerate(m['world']):
        mark('root%d' % i)
        enc_node(n, out)
    mark('end')
    return b''.join(out)


class Malformed(Exception):
    pass


class R:
    def __init__(self, b):
        self.b = b
        self.i = 0

    def take(self, n):
        if n < 0 or self.i + n > len(self.b):
            raise Malformed('data ends at %d, wanted %d more' % (len(self.b), self.i + n - len(self.b)))
        v = self.b[self.i:self.i + n]
        self.i += n
        return v

    def i4(self):
        return struct.unpack('<i', self.take(4))[0]

    def f4(self):
        return struct.unpack('<f', self.take(4))[0]

    def u2(self):
        return struct.unpack('<H', self.take(2))[0]

    def u1(self):
        return self.take(1)[0]

    def cstr(self, n):
        v = self.take(n + 1)
        if v[-1:] != b'\0':
            raise Malformed('string without terminator at %d' % self.i)
        return v[:-1]


def dec_node(r, depth=0):
    if depth > 16:
        raise Malformed('octree deeper than 16')
    o = r.u1()
    kind = o & 7
    if kind == 0:
        n = {'kids': [dec_node(r, depth + 1) for _ in range(8)]}
        return dict(n, bits=o) if o else n
    if kind > 4:
        raise Malformed('unknown octree node %d at %d' % (kind, r.i))
    n = {'kind': kind}
    if o & 0x18:
        n['bits'] = o & 0x18
    if kind == 3:
        n['edges'] = list(r.take(12))
    n['tex'] = list(struct.unpack('<6H', r.take(12)))
    if o & 0x40:
        n['mat'] = r.u2()
    if o & 0x80:
        n['merged'] = r.u1()
    if o & 0x20:
        mask = r.u1()
        total = r.u1()
        faces = []
        for i in range(6):
            if mask & (1 << i):
                s = tuple(r.take(4))
                if s[3] & 15:
                    raise Malformed('per-face vertex data')
                faces.append(s)
            else:
                faces.append(None)
        n['surf'] = (mask, total, faces)
    if kind == 4:
        n['lod'] = [dec_node(r, depth + 1) for _ in range(8)]
    return n


def decode(b, world=True):
    """(map, offset of the octree, offset behind the octree)"""
    r = R(b)
    m = {'magic': r.take(4), 'version': r.i4(), 'headersize': r.i4()}
    if m['magic'] not in (b'MAPZ', b'BFGZ'):
        raise Malformed('magic')
    m['meta'] = [(k, r.i4()) for k in META]
    meta = dict(m['meta'])
    m['gameident'] = r.cstr(3)
    m['vars'] = []
    for _ in range(r.i4()):
        name = r.cstr(r.i4())
        t = r.i4()
        if t == 0:
            v = r.i4()
        elif t == 1:
            v = r.f4()
        elif t == 2:
            v = r.cstr(r.i4())
        else:
            raise Malformed('variable type %d' % t)
        m['vars'].append((name, v))
    m['texmru'] = [r.u2() for _ in range(r.u2())]
    m['ents'] = []
    for _ in range(meta['numents']):
        x, y, z = struct.unpack('<fff', r.take(12))
        typ = r.u1()
        reserved = list(r.take(3))
        na = r.i4()
        if not 0 <= na <= 100:
            raise Malformed('%d entity attributes' % na)
        attrs = [r.i4() for _ in range(na)]
        nl = r.i4()
        if not 0 <= nl <= 100000:
            raise Malformed('%d entity links' % nl)
        links = [r.i4() for _ in range(nl)]
        m['ents'].append((x, y, z, typ, attrs, links, reserved))
    m['chg'] = []
    left = meta['numvslots']
    while left > 0:
        c = r.i4()
        m['chg'].append(c)
        if c >= 0:
            raise Malformed('changed vslot')
        left += c
    start = r.i
    m['world'] = [dec_node(r) for _ in range(8)] if world else None
    return m, start, r.i


def read_raw(path):
    with open(path, 'rb') as h:
        return gzip.decompress(h.read())


def write_gz(path, data, level=1):
    # every now and then in several members, of several levels and with a name
    style = zlib.crc32(data) % 24
    at = [len(data) * i // 3 for i in range(4)] if style < 3 and len(data) > 2 else [0, len(data)]
    with open(path, 'wb') as h:
        for a, b in zip(at, at[1:]):
            with gzip.GzipFile('map' if style in (2, 3) else '', 'wb', (0, 9)[style & 1] if style < 6 else level,
                               h, 12345 if style in (1, 4) else 0) as g:
                g.write(data[a:b])


# -- generation ---------------------------------------------------------------

def rint32(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice([0, 1, -1, 2, 127, 128, 255, 256, 2**31 - 1, -2**31, 65535, 65536])
    if k < 0.7:
        return rng.randint(-1000, 1000)
    return rng.randint(-2**31, 2**31 - 1)


def rfloat32(rng):
    k = rng.random()
    if k < 0.2:
        return rng.choice([0.0, 1.0, -1.0, 0.5, -0.0, 3.4028234663852886e+38, 1e-40, 0.1])
    if k < 0.7:
        return rng.uniform(-1000, 1000)
    return rng.uniform(-1e9, 1e9)


def to32(v):
    return struct.unpack('<f', struct.pack('<f', v))[0]


SPECIAL = [b'skybox', b'maptitle', b'mapauthor', b'z', b'gameident', b'numvars', b'texmru', b'meta', b'version']
ODD = list('abcXYZ 0_/."\\\'%{}\u00e5\u00f8\u4e2d\n\t\r\x1b\x7f\0') + ['\r\n', 'e\u0301', '\ufeff', '\u2028', '\U0001f600', '//']


def rbytes(rng, n, text):
    if text:
        if rng.random() < 0.25:
            s = ''.join(rng.choice(ODD) for _ in range(n))
        else:
            s = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789_/. ') for _ in range(n))
        return s.encode('utf-8')
    if rng.random() < 0.3:
        return bytes(rng.randint(1, 255) for _ in range(n))
    return bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz0123456789_/. ') for _ in range(n))


def gen_ent(rng):
    typ = rng.choice(sorted(ENT_ATTRS))
    attrs = [rint32(rng) for _ in range(ENT_ATTRS[typ])]
    if typ == 9:
        attrs[0] = rng.choice(sorted(WEAPONS))
    links = [rint32(rng) for _ in range(rng.choice([0, 0, 0, 1, 2, 5]))]
    if rng.random() < 0.02:
        links = [rint32(rng) for _ in range(rng.choice([20, 100, 300]))]
    reserved = [rng.choice([0, 0, 1, 127, 128, 200, 255]) for _ in range(3)]
    if rng.random() < 0.5:
        pos = [float(rng.randint(0, 4096)) for _ in range(3)]
    else:
        pos = [to32(rfloat32(rng)) for _ in range(3)]
    return (pos[0], pos[1], pos[2], typ, attrs, links, reserved)


def gen_leaf(rng, plain=False):
    n = {'kind': rng.choice([1, 1, 2, 2, 3])}
    if n['kind'] == 3:
        n['edges'] = [rng.choice([0x80, 0x80, 0, 0x71, 0xff, rng.randint(0, 255)]) for _ in range(12)]
    n['tex'] = [rng.choice([0, 1, 2, 5, 255, 256, 65535, rng.randint(0, 65535)]) for _ in range(6)] \
        if rng.random() < 0.7 else [rng.randint(0, 300)] * 6
    if plain:
        return n
    if rng.random() < 0.03:     # bits without a meaning
        n['bits'] = rng.choice([8, 16, 24])
    if rng.random() < 0.3:
        n['mat'] = rng.choice([0, 1, 4, 128, 32768, 65535, rng.randint(0, 65535)])
    if rng.random() < 0.3:
        n['merged'] = rng.choice([0, 1, 63, 127, 128, 255, rng.randint(0, 255)])
    if rng.random() < 0.4:
        mask = rng.choice([0, 63, 1, 32, rng.randint(0, 63), rng.randint(64, 255)])
        total = rng.choice([0, 0, rng.randint(0, 255)])
        faces = [(rng.randint(0, 255), rng.randint(0, 255), 0, rng.choice([0, 32, 64, 96, 128, 160, 224, 240]))
                 if mask & (1 << i) else None for i in range(6)]
        n['surf'] = (mask, total, faces)
    return n


def gen_kids(rng):
    """eight leaves that look alike: all the same, or the same but for one thing"""
    first = gen_leaf(rng, rng.random() < 0.7)
    kids = [copy.deepcopy(first) for _ in range(8)]
    k = rng.randrange(4)
    if k == 0:
        kids[rng.randrange(8)]['tex'][rng.randrange(6)] ^= rng.choice([1, 0x100, 0x8000])
    elif k == 1:
        for c in kids:
            c['tex'] = [rng.randint(0, 300)] * 6
    elif k == 2:
        kids[rng.randrange(8)] = gen_leaf(rng)
    return kids


def gen_node(rng, depth, p):
    if depth > 0 and rng.random() < p:
        if rng.random() < 0.15:
            return {'kids': gen_kids(rng)}
        kids = [gen_node(rng, depth - 1, p * 0.6) for _ in range(8)]
        if rng.random() < 0.1:
            n = gen_leaf(rng)
            n.pop('edges', None)
            return dict(n, kind=4, lod=kids)
        if rng.random() < 0.1:
            return {'kids': kids, 'bits': rng.choice([0x20, 0x40, 0x80, 0x08, 0x10, 0xe0, 0xf8])}
        return {'kids': kids}
    return gen_leaf(rng)


def gen_deep(rng, ws):
    """a root node with one branch that goes down to the smallest cubes (and sometimes beyond)"""
    deep = gen_leaf(rng)
    alike = rng.random() < 0.4
    for i in range(ws.bit_length() - rng.choice([3, 3, 4, 2])):
        kids = gen_kids(rng) if alike else [gen_leaf(rng) for _ in range(8)]
        if i or not alike:
            kids[rng.randrange(8)] = deep
        deep = {'kids': kids}
    return deep


def gen_map(rng, text=False, big=False):
    ws = rng.choice([64, 128, 256, 512, 1024, 1024, 2048, 4096, 8192])
    depth = rng.choice([0, 1, 1, 2, 2, 3])
    p = rng.choice([0.2, 0.5, 0.8])
    world = [gen_node(rng, depth, p) for _ in range(8)]
    if rng.random() < 0.2:       # one deep branch
        world[rng.randrange(8)] = gen_deep(rng, ws)
    # now and then, one dimension of the file is far larger than usual
    huge = rng.choice(['text', 'text', 'name', 'vars', 'ents', 'mru', 'mru', 'slots']) if rng.random() < 0.06 else ''
    nents = rng.choice([0, 1, 2, 5, 12, 40 if big else 20])
    if huge == 'ents':
        nents = rng.choice([127, 128, 255, 256, 257, 300, 1100])
    ents = [gen_ent(rng) for _ in range(nents)]
    names = []
    if rng.random() < 0.15:
        names += rng.sample(SPECIAL, rng.randint(1, 4))
    for _ in range(rng.choice([127, 256, 300]) if huge == 'vars' else rng.choice([0, 1, 3, 10, 60 if big else 25])):
        nm = rbytes(rng, rng.choice([1, 2, 5, 8, 20, 60] if huge != 'name' else [64, 127, 128, 255, 256, 300]), text)
        if nm not in names:
            names.append(nm)
    vs = []
    if huge == 'text' and not names:
        names = [b'maptitle']
    for nm in names:
        k = rng.randrange(3) if huge != 'text' or nm is not names[-1] else 2
        if k == 0:
            vs.append((nm, rint32(rng)))
        elif k == 1:
            v = to32(rfloat32(rng))
            if not text and rng.random() < 0.05:
                v = rng.choice([float('inf'), float('-inf')])
            vs.append((nm, v))
        else:
            v = rbytes(rng, rng.choice([0, 1, 3, 10, 50, 300]) if huge != 'text' or nm is not names[-1] else
                       rng.choice([255, 256, 257, 511, 512, 513, 600, 1024, 4096, 5000, 66000]), text)
            if not text and v and rng.random() < 0.2:    # lengths are explicit, so NUL bytes are content
                at = rng.randrange(len(v) + 1)
                v = v[:at] + bytes(rng.choice([1, 1, 3])) + v[at:]
            vs.append((nm, v))
    chg = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        chg.append(-rng.choice([1, 2, 7, 60, 300] if huge != 'slots' else [255, 256, 1024, 3000]))
    meta = {k: rint32(rng) for k in META}
    meta['worldsize'] = ws
    meta['numents'] = len(ents)
    meta['numvslots'] = -sum(chg)
    ident = rng.choice([b'fps', b'fps', b'abc', b'XYZ'])
    if not text and rng.random() < 0.2:
        ident = bytes(rng.randint(1, 255) for _ in range(3))
        if rng.random() < 0.3:
            ident = ident[:2] + bytes(1)
    mru = [rng.randint(0, 65535) for _ in range(
        rng.choice([0, 1, 5, 50] if huge != 'mru' else [127, 128, 255, 256, 257, 300, 600, 40000, 65000]))]
    if mru and rng.random() < 0.5:      # slots named more than once
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(mru))
            mru.insert(rng.choice([i, rng.randint(0, len(mru))]), mru[i])
    return {
        'magic': rng.choice([b'MAPZ', b'MAPZ', b'BFGZ']),
        'version': rng.choice([43, 42, rint32(rng)]),
        'headersize': rng.choice([48, 44, rint32(rng)]),
        'meta': [(k, meta[k]) for k in META],
        'gameident': ident,
        'vars': vs,
        'texmru': mru,
        'ents': ents,
        'chg': chg,
        'world': world,
    }


def count_nodes(nodes):
    n = 0
    for k in nodes:
        n += 1
        n += count_nodes(k.get('kids') or k.get('lod') or ())
    return n


def shape(m):
    """A coarse description for evidence."""
    return {'ws': dict(m['meta'])['worldsize'], 'vars': len(m['vars']), 'ents': [e[3] for e in m['ents']][:8],
            'nents': len(m['ents']), 'mru': len(m['texmru']), 'vslots': m['chg'], 'nodes': count_nodes(m['world'])}


def diff(a, b):
    """First difference of two byte strings, for messages."""
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return 'byte %d: %r vs %r (lengths %d, %d)' % (i, a[max(0, i - 8):i + 12], b[max(0, i - 8):i + 12], len(a), len(b))
    return 'lengths %d vs %d' % (len(a), len(b))


def where(marks, off):
    last = None
    for name, o in marks:
        if o > off:
            break
        last = name
    return last
