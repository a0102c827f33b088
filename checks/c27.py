"""C27: models are read exactly and described truthfully."""
import contextlib
import glob
import io
import logging
import os
import re
import struct
import subprocess
import sys

from lib import core, vox

RULE = """A case is a model file (random size, voxels, palette, main-chunk content, trailing chunks; or a shipped one)
that is read through both entrances and compared with its independent decoding, or a damaged one that must be refused,
or one whose description by the info command (in process, some as a command) is parsed and compared. Non-trivial when
it has voxels; distinct by bytes."""


def build(rng, n, box):
    size = tuple(rng.choice([1, 3, 8, 40, 126, 200, 256]) for _ in range(3))
    top = [min(s, box) - 1 for s in size]
    kind = rng.choice(['any', 'any', 'repeat', 'flat', 'corner'])
    at = lambda: tuple(rng.randint(0, t) for t in top)
    vs = [at() + (rng.randint(0, 255),) for _ in range(n)]
    if kind == 'repeat' and vs:
        vs += [v[:3] + (rng.randint(0, 255),) for v in rng.sample(vs, min(3, len(vs)))]
    if kind == 'flat':
        k = rng.randint(0, top[2])
        vs = [(x, y, k, c) for x, y, z, c in vs]
    if kind == 'corner' and vs:
        vs[0] = tuple(top) + (rng.choice([0, 255]),)
    few = rng.random() < .4
    pal = [(0, 0, 0, rng.choice([0, 255])) if few and rng.random() < .8 else
           tuple(rng.choice([0, 1, 127, 128, 255, rng.randint(0, 255)]) for _ in range(4)) for _ in range(256)]
    main = rng.choice([b'', b'', b'', bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 12, 12, 300, 1024])))])
    tail = rng.choice([b'', b'', b'MATT' + struct.pack('<III', 4, 0, 9), bytes(rng.randrange(256) for _ in range(9))])
    return size, vs, pal, main, tail


def pack(size, vs, pal, main=b'', tail=b'', version=150):
    body = b'SIZE' + struct.pack('<II', 12, 0) + struct.pack('<III', *size)
    body += b'XYZI' + struct.pack('<II', 4 + 4 * len(vs), 0) + struct.pack('<I', len(vs))
    body += b''.join(bytes(v) for v in vs)
    body += b'RGBA' + struct.pack('<II', 4 * len(pal), 0) + b''.join(bytes(c) for c in pal)
    return (b'VOX ' + struct.pack('<I', version) + b'MAIN' + struct.pack('<II', len(main), len(body) + len(tail)) +
            main + body + tail)


def view(m):
    return {'size': (m.model_size.x, m.model_size.y, m.model_size.z),
            'voxels': [(v.x, v.y, v.z, v.c) for v in m.model_voxels.voxels],
            'palette': [(c.r, c.g, c.b, c.a) for c in m.palette.colours]}


def parse_info(text):
    """what a user reads in the output"""
    out = {'colours': {}, 'layers': {}}
    layer = None
    for line in text.split('\n'):
        m = re.match(r'Model: (.*)$', line)
        if m:
            out['name'] = m.group(1)
        m = re.match(r'Model boundaries: x in \[(\S+), (\S+)\]; y in \[(\S+), (\S+)\]; z in \[(\S+), (\S+)\]$', line)
        if m:
            out['box'] = tuple(float(g) for g in m.groups())
        m = re.match(r'C\[(\d+)\] = \((\d+), (\d+), (\d+)\)$', line)
        if m:
            i = int(m.group(1))
            out['twice'] = out.get('twice', False) or i in out['colours']
            out['colours'][i] = tuple(int(g) for g in m.groups()[1:])
        m = re.match(r'==== z = (\d+) ====$', line)
        if m:
            layer = out['layers'].setdefault(int(m.group(1)), [])
        elif layer is not None and line.startswith('y '):
            layer.append(line[2:])
    return out


def run(ctx):
    from redeclipse.cli import magicavoxel_info as I
    from redeclipse.magicavoxel.reader import Magicavoxel
    logging.disable(logging.CRITICAL)
    ctx.need('models', 'voxels', 'shipped models', 'damaged files', 'descriptions', 'layers', 'commands', 'short palettes',
             'other content', 'beyond 128')

    def damaged(b, what):
        for how in ('bytes', 'file'):
            try:
                if how == 'bytes':
                    Magicavoxel.from_bytes(b)
                else:
                    p = ctx.path('bad.vox')
                    with open(p, 'wb') as h:
                        h.write(b)
                    m = Magicavoxel.from_file(p)
            except Exception:
                ctx.count('damaged files')
                continue
            ctx.fail('a damaged model is read: %s' % what, how=how, damage=what)

    for label, rng in ctx.cases('model', 600, 12000, secs=(20, 150)):
        size, vs, pal, main, tail = build(rng, rng.choice([0, 1, 5, 60, 400, 3000]), 256)
        b = pack(size, vs, pal, main, tail, rng.choice([150, 150, 200, 2 ** 31 + 5]))
        if main or tail:
            ctx.count('other content')
        want = {'size': size, 'voxels': vs, 'palette': pal}
        p = ctx.path('m.vox')
        with open(p, 'wb') as h:
            h.write(b)
        ctx.equal(view(Magicavoxel.from_bytes(b)), want, 'a model is read from bytes as another', size=size)
        m = Magicavoxel.from_file(p)
        ctx.equal(view(m), want, 'a model is read from a file as another', size=size)
        with open(p, 'rb') as h:
            ctx.check(h.read() == b, 'reading a model changes the file')
        # another one read afterwards does not change the first
        other = pack(*build(rng, 3, 256)[:3])
        Magicavoxel.from_bytes(other)
        ctx.equal(view(m), want, 'reading another model changes the first', size=size)
        ctx.count('voxels', len(vs))
        ctx.count('models')
        ctx.seen((b,), nontrivial=bool(vs))
        ctx.sample({'size': size, 'voxels': vs[:3]})
        # damage: cuts before the end of the palette, other magics and chunks
        end = len(b) - len(tail)
        for cut in rng.sample(range(end), min(end, 4)) + [end - 1, end - 4, 0]:
            damaged(b[:cut], 'cut to %d of %d' % (cut, end))
        o = 20 + len(main)
        for at, name in ((0, 'magic'), (8, 'main chunk'), (o, 'size chunk'), (o + 24, 'voxel chunk'),
                         (o + 40 + 4 * len(vs), 'palette chunk')):
            w = bytearray(b)
            i = at + rng.randrange(4)
            w[i] ^= rng.choice([1, 32, 128, rng.randint(1, 255)])
            damaged(bytes(w), 'other ' + name)
        damaged(b[:o] + b'PACK' + struct.pack('<III', 4, 0, 1) + b[o:], 'a further chunk first')
        n = len(vs)
        w = bytearray(b)
        struct.pack_into('<I', w, o + 36, n + rng.choice([1, 2, 1000, 10 ** 6]))
        damaged(bytes(w), 'more voxels promised')

    for p in sorted(glob.glob(os.path.join(core.REPO, 'redeclipse', '**', '*.vox'), recursive=True)):
        ctx.label = 'shipped ' + os.path.basename(p)
        with open(p, 'rb') as h:
            b = h.read()
        try:
            d = vox.parse(b, strict=False)
        except vox.BadVox:
            continue  # drawn elsewhere and of another layout; no room uses it
        if len(d['palette']) != 256:
            continue
        got = view(Magicavoxel.from_file(p))
        ctx.equal(got['voxels'], [tuple(v) for v in d['voxels']], 'a shipped model has other voxels', file=p)
        ctx.equal(got['palette'], [tuple(v) for v in d['palette']], 'a shipped model has another palette', file=p)
        ctx.equal(got['size'], tuple(d['size']), 'a shipped model has another size', file=p)
        ctx.seen((p,))
        ctx.count('shipped models')

    # the info command
    def describe(p, command):
        if command:
            ctx.count('commands')
            r = subprocess.run([sys.executable, '-m', 'redeclipse.cli.magicavoxel_info', p], cwd=core.REPO,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            return r.returncode, r.stdout.decode()
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                I.main(p)
            return 0, out.getvalue()
        except Exception:
            return 1, out.getvalue()

    for label, rng in ctx.cases('info', 120, 1000, secs=(40, 200)):
        box = rng.choice([1, 4, 10, 10, 40, 160])
        size, vs, pal, main, tail = build(rng, rng.choice([1, 5, 60, 400]), box)
        if box == 160 and rng.random() < .7:
            off = tuple(rng.randint(100, 250) for _ in range(3))
            vs = [tuple(min(255, a % 12 + b) for a, b in zip(v, off)) + v[3:] for v in vs]
        short = rng.random() < .25
        if short:
            pal, tail = pal[:255], b''
            ctx.count('short palettes')
        name = rng.choice(['m.vox', 'My Model.vox', 'a.b.vox', 'nosuffix', 'x.VOX'])
        p = ctx.path(name)
        with open(p, 'wb') as h:
            h.write(pack(size, vs, pal, main, tail))
        status, text = describe(p, rng.random() < .08 or label.endswith('-3'))
        what = dict(file=name, voxels=vs[:5], short=short)
        ctx.equal(status, 0, 'a model cannot be described', **what)
        got = parse_info(text)
        cells = {v[:3] for v in vs}
        bounds = tuple(f(v[i] for v in cells) for i in range(3) for f in (min, max))
        if max(bounds) > 127:
            ctx.count('beyond 128')
        ctx.equal(got.get('name'), os.path.splitext(name)[0], 'the description has another name', **what)
        ctx.equal(got.get('box'), bounds, 'the description has other boundaries', **what)
        ctx.equal(got['colours'], {i: c[:3] for i, c in enumerate(pal) if any(c[:3])},
                  'the description has other colours', **what)
        ctx.check(not got.get('twice'), 'a colour is listed twice', **what)
        ctx.equal(sorted(got['layers']), list(range(bounds[4], bounds[5] + 1)), 'the description has other layers', **what)
        for z, rows in got['layers'].items():
            pic = [''.join('#' if (x, y, z) in cells else ' ' for y in range(bounds[2], bounds[3] + 1))
                   for x in range(bounds[0], bounds[1] + 1)]
            ctx.equal(rows, pic, 'a layer is pictured wrongly', z=z, **what)
            ctx.count('layers')
        ctx.count('descriptions')
        ctx.seen((name, repr(vs), repr(pal)))
        # a damaged one is not described
        b = pack(size, vs, pal, main)
        bad = rng.choice([b[:rng.randrange(len(b) - 1024)], b'XOV ' + b[4:], b[:20 + len(main)] + b'PACK' + b[24 + len(main):]])
        with open(p, 'wb') as h:
            h.write(bad)
        status, text = describe(p, False)
        ctx.check(status != 0 or bad[:-4] == b[:-4], 'a damaged model is described', **what)
        ctx.count('damaged files')
        # what was described before does not change how models are read
        after = build(rng, 5, 256)
        b = pack(*after[:3])
        ctx.equal(view(Magicavoxel.from_bytes(b)), {'size': after[0], 'voxels': after[1], 'palette': after[2]},
                  'a model is read as another after one was described', **what)
        damaged(b[:-4], 'one colour short, after describing one such')
