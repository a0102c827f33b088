"""Independent reader and writer of .vox files."""
import struct


class BadVox(Exception):
    pass


def parse(data, strict=True):
    """{'size': (x,y,z), 'voxels': [(x,y,z,c)], 'palette': [(r,g,b,a)]*256, 'version': n}"""
    def need(cond, what):
        if not cond:
            raise BadVox(what)
    need(data[:4] == b'VOX ', 'no VOX magic')
    version, = struct.unpack('<I', data[4:8])
    need(data[8:12] == b'MAIN', 'no MAIN chunk')
    n, kids = struct.unpack('<II', data[12:20])
    need(n == 0, 'MAIN chunk has content')
    if strict:
        need(len(data) == 20 + kids, 'MAIN announces %d bytes of children, %d follow' % (kids, len(data) - 20))
    out = {'version': version, 'chunks': []}
    i = 20
    while i < len(data):
        need(i + 12 <= len(data), 'cut off chunk header')
        name = data[i:i + 4]
        n, k = struct.unpack('<II', data[i + 4:i + 12])
        body = data[i + 12:i + 12 + n]
        need(len(body) == n, 'chunk %r announces %d bytes, %d follow' % (name, n, len(body)))
        out['chunks'].append(name)
        i += 12 + n + k
        if strict:
            need(k == 0, 'chunk %r announces children' % name)
        if name == b'SIZE':
            need(n == 12, 'SIZE chunk of %d bytes' % n)
            out['size'] = struct.unpack('<III', body)
        elif name == b'XYZI':
            c, = struct.unpack('<I', body[:4])
            need(n == 4 + 4 * c, 'XYZI of %d bytes announces %d voxels' % (n, c))
            out['voxels'] = [tuple(body[4 + 4 * j:8 + 4 * j]) for j in range(c)]
        elif name == b'RGBA':
            need(n == 1024, 'palette of %d bytes' % n)
            out['palette'] = [tuple(body[4 * j:4 * j + 4]) for j in range(256)]
        elif strict:
            raise BadVox('unexpected chunk %r' % name)
    for k in ('size', 'voxels', 'palette'):
        need(k in out, 'no %s' % k)
    if strict:
        need(out['chunks'] == [b'SIZE', b'XYZI', b'RGBA'], 'chunks %r' % out['chunks'])
    return out


def build(size, voxels, palette):
    def chunk(name, body):
        return name + struct.pack('<II', len(body), 0) + body
    kids = (chunk(b'SIZE', struct.pack('<III', *size)) +
            chunk(b'XYZI', struct.pack('<I', len(voxels)) + b''.join(bytes(v) for v in voxels)) +
            chunk(b'RGBA', b''.join(bytes(c) for c in palette)))
    return b'VOX ' + struct.pack('<I', 150) + b'MAIN' + struct.pack('<II', 0, len(kids)) + kids
