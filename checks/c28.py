"""C28: the terrain commands write the whole terrain, the same every time."""
import collections
import concurrent.futures
import os
import subprocess
import sys

from checks.c09 import leaves
from lib import core, mapz

RULE = """A case is one run of a terrain command in a fresh process (random input map, hash seed, working directory,
input and output names) whose output file is decoded independently: every column of the ground, every entity and the
rest of the map are judged, and the terrain is compared with those of the other runs. Distinct by command and input."""

FORCE = 8  # processes at a time


def run(ctx):
    ctx.need('perlin runs', 'snow forest runs', 'columns', 'trees', 'buildings', 'spawns', 'rocks', 'border columns',
             'input entities', 'runs compared')
    with concurrent.futures.ThreadPoolExecutor(FORCE) as pool:
        go(ctx, pool)


def go(ctx, pool):
    jobs = []
    n = 3 if ctx.quick else 16
    for command in ('perlin', 'snow_forest'):
        for label, rng in ctx.cases(command, n, n, secs=(60, 120), least=n):
            d = ctx.path('%s' % label)
            os.makedirs(os.path.join(d, 'sub dir'))
            src = os.path.join(d, rng.choice(['in.mpz', 'sub dir/a.map', 'out.mpz.mpz']))
            dst = os.path.join(d, rng.choice(['out.mpz', 'sub dir/b', 'out.cfg.mpz']))
            if label.endswith('-1'):
                dst = src
            m = mapz.gen_map(rng)
            while not m['ents']:
                m = mapz.gen_map(rng)
            if label.endswith('-2'):
                m['ents'] = [mapz.gen_ent(rng) for _ in range(rng.choice([2600, 5000, 12000]))]
                m['meta'] = [(k, len(m['ents']) if k == 'numents' else v) for k, v in m['meta']]
                ctx.count('inputs of many entities')
            extra = {b'0 empty': b'', b'0 zero': 0, b'0 minus': -0.0, b'0 long': b'x' * 700, b'0 nul': b'a\0b',
                     b'0 int': -2 ** 31, b'0 tiny': 1e-42}
            for k in rng.sample(sorted(extra), 7):
                m['vars'].insert(rng.randint(0, len(m['vars'])), (k, mapz.to32(extra[k]) if isinstance(extra[k], float) else extra[k]))
            raw = mapz.encode(m)
            mapz.write_gz(src, raw)
            old = rng.random() < .5 and dst != src
            if old:
                with open(dst, 'wb') as h:
                    h.write(b'old content' * 100000)
            cwd = rng.choice([d, os.path.join(d, 'sub dir'), ctx.tmp])
            env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', TQDM_DISABLE='1',
                       PYTHONHASHSEED=rng.choice(['0', '1', '77', 'random']))
            args = [os.path.relpath(p, cwd) if rng.random() < .5 else p for p in (src, dst)]
            jobs.append((label, command, raw, src, dst, pool.submit(
                subprocess.run, [sys.executable, '-W', 'ignore', '-m', 'redeclipse.cli.' + command] + args, cwd=cwd,
                env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)))
    first = {}
    for label, command, raw, src, dst, job in jobs:
        ctx.label = label
        p = job.result()
        ctx.check(p.returncode == 0, 'the command fails', command=command, stderr=p.stderr.decode()[-1500:])
        if src != dst:
            ctx.check(mapz.read_raw(src) == raw, 'the input map is changed')
        out = mapz.read_raw(dst)
        try:
            m, start, end = mapz.decode(out)
        except mapz.Malformed as e:
            ctx.fail('the written map is not well formed: %s' % e, command=command)
        ctx.check(end == len(out), 'data behind the octree', command=command)
        # the rest of the map is that of the input
        b, _, _ = mapz.decode(raw)
        for k in ('magic', 'version', 'headersize', 'gameident', 'vars', 'texmru', 'chg'):
            ctx.equal(m[k], b[k], 'the terrain map has other %s' % k, command=command)
        ctx.equal([x for x in m['meta'] if x[0] != 'numents'], [x for x in b['meta'] if x[0] != 'numents'],
                  'the terrain map has another header', command=command)
        ctx.equal(repr(m['ents'][:len(b['ents'])]), repr(b['ents']), 'the entities of the input are changed', command=command)
        ctx.count('input entities', len(b['ents']))
        ents = m['ents'][len(b['ents']):]
        size = {'perlin': 128, 'snow_forest': 256}[command]
        cols = collections.defaultdict(dict)
        for o, h, node in leaves(m['world'], size):
            if node['kind'] == 1:
                continue
            ctx.check(h == 1 and (node['kind'] == 2 or node['edges'] == [0x80] * 12), 'the leaf at %s is not a full cube' % (o,))
            cols[o[:2]][o[2]] = tuple(node['tex'])
        ctx.equal(len(cols), size * size, 'columns with ground', command=command)
        ctx.count('columns', len(cols))
        (perlin if command == 'perlin' else snow)(ctx, cols, ents)
        terrain = (sorted((c, sorted(v.items())) for c, v in cols.items()), ents)
        if command in first:
            ctx.check(first[command][0] == terrain[0], 'two runs write different ground', command=command)
            ctx.equal(terrain[1], first[command][1], 'two runs place different entities', command=command)
            ctx.count('runs compared')
        else:
            first[command] = terrain
        ctx.seen((command, raw))


def smooth(ctx, heights, size, step, what):
    for (i, j), h in heights.items():
        for q in ((i + 1, j), (i, j + 1)):
            if q in heights:
                if abs(heights[q] - h) > step:
                    ctx.fail('%s: the heights at %s and %s differ by more than %d' % (what, (i, j), q, step))
    ctx.check(len(set(heights.values())) > 4, '%s: the ground is flat' % what)


def perlin(ctx, cols, ents):
    GROUND, TREE, HOUSE = (23, 23, 23, 23, 22, 61), (58, 58, 58, 58, 59, 59), (57,) * 6
    ctx.equal(ents, [], 'entities of the perlin terrain')
    ground, house, tree = {}, set(), set()
    for c, v in cols.items():
        n = len(v)
        ctx.equal(sorted(v), list(range(n)), 'the column at %s has gaps' % (c,))
        kinds = [v[k] for k in range(n)]
        if TREE in kinds:
            ctx.equal(kinds, [TREE] * 50, 'the tree at %s' % (c,))
            tree.add(c)
            ctx.count('trees')
            continue
        h = kinds.count(GROUND)
        if len(kinds) > h:
            ctx.equal(kinds, [GROUND] * h + [HOUSE] * 4, 'the building at %s' % (c,))
            house.add(c)
            ctx.count('buildings')
        else:
            ctx.equal(kinds, [GROUND] * h, 'the ground at %s' % (c,))
        # the noise stays within 30 +- 5
        ctx.check(25 <= h <= 36, 'the ground at %s is %d high' % (c, h))
        ground[c] = h
    for i, j in house:
        for a in range(i // 4 * 4, i // 4 * 4 + 4):
            for b in range(j // 4 * 4, j // 4 * 4 + 4):
                ctx.check((a, b) in house or (a, b) in tree, 'the building at %s is not whole at %s' % ((i, j), (a, b)))
    # the whole ground is covered: ground of both halves, trees and buildings in more than one place
    smooth(ctx, ground, 128, 1, 'perlin')
    ctx.check(len(tree) > 20 and len(house) > 20 and len(tree) + len(house) < 128 * 128 / 4, 'there are %d trees and %d '
              'building columns' % (len(tree), len(house)))
    ctx.count('perlin runs')


def snow(ctx, cols, ents):
    heights = {}
    snowy = 0
    for c, v in cols.items():
        base = min(v)
        edge = 0 in c or 255 in c
        top = max(v) + 1
        ctx.equal(sorted(v), list(range(base, base + (11 if edge else 2))), 'the column at %s' % (c,))
        ctx.check(len(set(v.values())) == 1 and v[base] in ((11,) * 6, (13,) * 6), 'the textures of the column at %s' % (c,))
        snowy += v[base] == (13,) * 6
        if edge:
            ctx.count('border columns')
        heights[c] = base + 2
    ctx.check(0 < snowy < len(cols), 'there is %s' % ('only snow' if snowy else 'no snow'))
    smooth(ctx, heights, 256, 1, 'snow forest')
    trees, spawns, rocks = {}, {}, {}
    for x, y, z, typ, attrs, links, reserved in ents:
        i, j = x / 4, y / 4
        ctx.check(i == int(i) and j == int(j) and (i, j) in heights, 'an entity at %s, %s is not on the ground' % (x, y))
        ground = 4 * heights[i, j]
        if typ == 3:
            ctx.check((i, j) not in spawns, 'two spawns at %s' % ((i, j),))
            spawns[i, j] = 1
            ctx.equal(z, ground, 'the height of the spawn at %s' % ((i, j),))
            ctx.equal(attrs[:1], [0], 'the team of the spawn at %s' % ((i, j),))
            ctx.check(0 <= attrs[1] <= 360, 'the direction of a spawn')
            ctx.count('spawns')
            continue
        ctx.check(typ == 2 and attrs[0] in (137, 122), 'an entity of type %s' % typ)
        if attrs[0] == 137:
            ctx.check((i, j) not in trees, 'two trees at %s' % ((i, j),))
            trees[i, j] = 1
            ctx.equal(z, ground, 'the height of the tree at %s' % ((i, j),))
            ctx.check(0 <= attrs[1] <= 360 and attrs[2:4] == [0, 0] and 56 <= attrs[5] <= 200, 'the tree %s' % (attrs,))
            ctx.count('trees')
        else:
            ctx.check((i, j) not in rocks, 'two rocks at %s' % ((i, j),))
            rocks[i, j] = 1
            ctx.check(z in [ground - k for k in range(6)], 'the rock at %s is at height %s, the ground at %s' % ((i, j), z, ground))
            ctx.check(all(0 <= a <= 360 for a in attrs[1:4]) and 56 <= attrs[5] <= 300, 'the rock %s' % (attrs,))
            ctx.count('rocks')
    for i, j in spawns:
        ctx.check((i, j) not in trees, 'a spawn in the tree at %s' % ((i, j),))
        # a spawn stands beside a tree
        ctx.check(i == 255 or j == 255 or (i + 1, j + 1) in trees, 'no tree beside the spawn at %s' % ((i, j),))
    for i, j in trees:
        ctx.check(i == 0 or j == 0 or (i - 1, j - 1) in spawns or (i - 1, j - 1) in trees, 'no spawn beside the tree at %s' % ((i, j),))
    ctx.check(len(trees) > 20 and len(spawns) > 20 and rocks, 'there are %d trees, %d spawns and %d rocks' %
              (len(trees), len(spawns), len(rocks)))
    for name, what in (('trees', trees), ('spawns', spawns)):
        ctx.check(len({(i > 127, j > 127) for i, j in what}) > 2, 'the %s are in one corner' % name)
    ctx.count('snow forest runs')
