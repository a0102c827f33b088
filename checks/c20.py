"""C20: the same seed gives the same map."""
import concurrent.futures
import glob
import gzip
import json
import os
import shutil
import subprocess
import sys

from lib import core

RULE = """A case is one configuration (input map, seed, room count, mirror mode, flags, debug, flavours) run by the
generator command in several fresh processes that differ in hash seed, working directory, clock, heap and allocator;
their .vox, .mpz, .cfg and graph outputs are compared. A second kind runs many layouts of the cheap rooms in each of
several processes and compares layout, voxels and entities, and each layout with its repetition. Non-trivial when
rooms were placed; distinct by configuration."""

ENVS = [
    {'PYTHONHASHSEED': '0', 'VERIF_UNSETTLE': '0'},
    {'PYTHONHASHSEED': '1', 'VERIF_UNSETTLE': '3', 'PYTHONMALLOC': 'malloc'},
    {'PYTHONHASHSEED': 'random', 'VERIF_UNSETTLE': '7', 'TZ': 'Asia/Tokyo'},
    {'PYTHONHASHSEED': '77777', 'VERIF_UNSETTLE': '11', 'PYTHONMALLOC': 'pymalloc'},
    {'PYTHONHASHSEED': 'random', 'VERIF_UNSETTLE': '20'},
    {'PYTHONHASHSEED': '3', 'VERIF_UNSETTLE': '1', 'LANG': 'C'},
]


class Failed(Exception):
    pass


def child(cwd, env, *args):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TQDM_DISABLE='1', **env)
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(core.HERE, 'lib', 'child.py')] + list(args),
                       cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    return p


def graph(path):
    """the graph with its ids replaced by their order of appearance"""
    with open(path) as h:
        g = json.load(h)
    names = {}
    for node in g['nodes']:
        names.setdefault(node['id'], len(names))
    return ([(names[n['id']], n['name'], n['label']) for n in g['nodes']],
            [(names.get(k['source']), names.get(k['target']), k['type']) for k in g['links']])


def outputs(d):
    out = {}
    with open(os.path.join(d, 'o.vox'), 'rb') as h:
        out['the .vox file'] = h.read()
    if os.path.exists(os.path.join(d, 'o.mpz')):
        with gzip.open(os.path.join(d, 'o.mpz'), 'rb') as h:
            out['the .mpz file'] = h.read()
        with open(os.path.join(d, 'o.cfg'), 'rb') as h:
            out['the .cfg file'] = h.read()
    if os.path.exists(os.path.join(d, 'g.json')):
        out['the graph'] = graph(os.path.join(d, 'g.json'))
    return out


def run(ctx):
    ctx.need('generator processes', 'configurations compared', 'layouts compared', 'layouts repeated',
             'layouts of different seeds')
    maps = sorted(glob.glob(os.path.join(core.REPO, 'maps', 'empty*.mpz')))
    if not maps:
        raise core.Inconclusive('no shipped map to start from')
    workers = concurrent.futures.ThreadPoolExecutor(8)
    try:
        go(ctx, maps, workers)
    finally:
        workers.shutdown(cancel_futures=True)


def go(ctx, maps, workers):
    # many layouts per process
    per = ctx.n(30, 200)
    for label, rng in ctx.cases('engine', 2, 12, secs=(40, 300), least=1):
        seed = '%d %s' % (ctx.seed, label)
        envs = ENVS if not ctx.quick else [ENVS[0], ENVS[1], ENVS[2], ENVS[4]]
        jobs = [workers.submit(child, ctx.tmp, e, 'engine', seed, str(per)) for e in envs]
        res = [j.result() for j in jobs]
        first = None
        for e, p in zip(envs, res):
            lines = p.stdout.decode().splitlines()
            if p.returncode:
                ctx.check(core.REPO + '/redeclipse' not in p.stderr.decode(), 'generating layouts fails',
                          stderr=p.stderr.decode()[-1500:])
                raise core.Inconclusive(p.stderr.decode()[-1500:])
            for line in lines:
                ctx.check(len(line.split()) == 11, 'layout %s' % line)
            ctx.count('layouts repeated', len(lines))
            if first is None:
                first = lines
                for line in lines:
                    ctx.seen(line, line.split()[7] != '1')
                ctx.sample({'layouts': lines[:2]})
            ctx.check(len(lines) == len(first) == per, 'processes yield different numbers of layouts')
            for a, b in zip(first, lines):
                ctx.count('layouts compared')
                ctx.equal(b, a, 'two processes generate different layouts from the same seed', environment=e)

    # the generator itself
    for label, rng in ctx.cases('generator', 5, 40, secs=(45, 420), least=3):
        i = int(label.split('-')[1])
        envs = [dict(e) for e in rng.sample(ENVS, 3 if ctx.quick else 4)]
        seed = 0 if i == 0 else rng.choice([42, 0, 1, rng.randrange(10 ** 6), rng.randrange(10 ** 6), rng.randrange(10 ** 18)])
        rooms = rng.choice([3, 4, 6] if ctx.quick else [3, 6, 12, 25])
        mirror = rng.choice([1, 2, 4])
        args = ['--seed', str(seed), '--rooms', str(rooms), '--mirror', str(mirror)]
        src = rng.choice(maps)
        if rng.random() < .3:
            args += ['--ctf']
        if rng.random() < .3:
            args += ['--debug']
        if rng.random() < .5:
            args += ['--flavor'] + rng.sample(['space_station', 'crushed_blacks', 'maliwan'], rng.randint(1, 3))
        dirs = []
        for j, e in enumerate(envs):
            d = ctx.path('%s-%d-%s' % (label, j, 'x' * j))
            os.makedirs(d)
            dirs.append(d)
        # building the octree of a full-size map takes minutes
        mpz = i % 2 == 0
        size = rng.choice([64, 128]) if mpz and ctx.quick else rng.choice([64, 128, 256])
        args += ['--size', str(size)]
        # the input map may be found in different places
        srcs = []
        for j, d in enumerate(dirs):
            srcs.append(src if j != 1 else os.path.join(d, 'copy of it.mpz'))
            if j == 1:
                shutil.copyfile(src, srcs[-1])
        where = [['--magica', os.path.join(d, 'o.vox')] +
                 (['--mpz_out', os.path.join(d, 'o.mpz')] if mpz else []) +
                 ['--graph', os.path.join(d, 'g.json')] for d in dirs]
        jobs = [workers.submit(child, d, e, 'cli', s, *(w + args)) for d, e, s, w in zip(dirs, envs, srcs, where)]
        others = []
        if not ctx.quick or i == 0:
            others.append(workers.submit(child, ctx.tmp, ENVS[0], 'twice', src, str(seed), str(min(rooms, 6)),
                                         str(mirror)))
        first = None
        for e, d, j in zip(envs, dirs, jobs):
            p = j.result()
            ctx.check(p.returncode == 0, 'the generator fails', args=args, stderr=p.stderr.decode()[-1500:])
            ctx.count('generator processes')
            out = outputs(d)
            if mpz:
                ctx.count('maps written')
            if first is None:
                first = out
                continue
            for k in first:
                ctx.check(out[k] == first[k], 'two processes with the same arguments write different contents: %s' % k,
                          args=args, environment=e, map=src)
        ctx.count('configurations compared')
        for j in others:
            p = j.result()
            ctx.check(p.returncode == 0, 'running the generator twice fails', stderr=p.stderr.decode()[-1500:])
            ctx.check(p.stdout.decode().split()[0] == 'same',
                      'a second run of the generator in one process gives another layout', args=args)
            ctx.count('layouts repeated')
        ctx.seen((src, args), True)
        ctx.sample({'args': args, 'map': os.path.basename(src), 'environments': envs})
        for d in dirs:
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
    # different seeds, also such that share their last digits, bits or remainders
    for label, rng in ctx.cases('seeds', 1, 3, secs=(40, 240), least=1):
        s = rng.randrange(2, 40)
        seeds = sorted({0, 1, s, s + 1, s + 10, s + 64, s + 100, s + 256, s + 1000, s + 4096, s + 2 ** 16,
                        s + 10 ** 6, s + 2 ** 31, s + 2 ** 32, s + 2 ** 64, rng.randrange(10 ** 9)})
        parts = [seeds[k::8] for k in range(8)]
        jobs = [workers.submit(child, ctx.tmp, ENVS[0], 'seeds', maps[0], '10', *map(str, part)) for part in parts]
        got = {}
        for j in jobs:
            p = j.result()
            ctx.check(p.returncode == 0, 'the generator fails', stderr=p.stderr.decode()[-1500:])
            for line in p.stdout.decode().splitlines():
                seed, layout, n = line.split()
                ctx.check(layout not in got, 'the seeds %s and %s give the same layout' % (got.get(layout), seed))
                got[layout] = seed
        ctx.equal(len(got), len(seeds), 'layouts of different seeds')
        ctx.count('layouts of different seeds', len(got))
        ctx.seen(('seeds', seeds), True)
