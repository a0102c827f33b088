"""Verdict discipline shared by all monitors."""
import argparse
import atexit
import collections
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Inconclusive(Exception):
    pass


def digest(obj):
    if not isinstance(obj, (bytes, bytearray)):
        obj = repr(obj).encode('utf-8', 'replace')
    return hashlib.blake2b(obj, digest_size=8).digest()


def brief(obj, limit=600):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= limit else s[:limit] + '...(%d chars)' % len(s)


class Ctx:
    def __init__(self, prop, tier, seed, only):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.only = only
        self.quick = tier == 'quick'
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = collections.Counter()
        self.rule = ''
        self.assumptions = []
        self.label = None
        self.known_hit = {}
        self.known = load_known(prop)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        atexit.register(shutil.rmtree, self.tmp, True)
        self.required = []

    # -- workload ------------------------------------------------------------
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def cases(self, name, quick, thorough, secs=(20, 240), least=3):
        """Yield (label, rng) for a number of cases, bounded by count and time."""
        n = self.n(quick, thorough)
        limit = secs[0] if self.quick else secs[1]
        t0 = time.time()
        for i in range(n):
            label = '%s-%d' % (name, i)
            if self.only and not (self.only == label or self.only == name):
                continue
            if i >= least and time.time() - t0 > limit:
                break
            self.label, self.index = label, i
            self.counters['cases:' + name] += 1
            cpu_limit(240)
            yield label, random.Random('%s:%s:%s' % (self.seed, self.prop, label))
        cpu_limit(0)
        self.label = None

    def seen(self, key, nontrivial=True):
        """One evaluated case; key identifies it."""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(digest(key))

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(brief(obj))

    def count(self, what, n=1):
        self.counters[what] += n

    def need(self, *counters):
        """These events must have been observed for a verdict."""
        self.required.extend(counters)

    # -- verdicts ------------------------------------------------------------
    def fail(self, what, **detail):
        """The property is broken."""
        e = Violation(what)
        e.detail = detail
        raise e

    def check(self, cond, what, **detail):
        self.counters['assertions'] += 1
        if not cond:
            self.fail(what, **detail)

    def equal(self, got, want, what, **detail):
        self.counters['assertions'] += 1
        if got != want:
            self.fail(what, got=brief(got), want=brief(want), **detail)

    def finding(self, key, what, **detail):
        """A violation that may be listed as known under `key`."""
        for k in self.known:
            if k['key'] == key:
                self.known_hit[key] = k['what']
                return
        self.fail(what, key=key, **detail)

    def path(self, name):
        return os.path.join(self.tmp, name)


def load_known(prop):
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(path):
        with open(path) as h:
            for line in h:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d.get('property') == prop and d.get('status') == 'known':
                        out.append(d)
    return out


def _on_cpu(signum, frame):
    raise Hang()


def cpu_limit(seconds):
    """Bound the processor time of the current case (hang detection)."""
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, seconds)


def repo_frame(tb):
    """Did the exception pass through the repository, and was it raised there
    (or in a library it called) rather than in harness code?"""
    frames = traceback.extract_tb(tb)
    pkg = os.path.join(REPO, 'redeclipse')
    inside = [i for i, f in enumerate(frames) if os.path.abspath(f.filename).startswith(pkg)]
    mine = [i for i, f in enumerate(frames) if os.path.abspath(f.filename).startswith(HERE)]
    if not inside:
        return False
    return not mine or max(inside) > max(mine)


def drive(argv):
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default=None)
    p.add_argument('--seed', default=None, type=int)
    p.add_argument('--only', default=None)
    a = p.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    out = os.fdopen(os.dup(1), 'w')
    err = os.fdopen(os.dup(2), 'w')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    sys.path.insert(0, REPO)
    ctx = Ctx(a.prop, tier, seed, a.only)
    os.chdir(ctx.tmp)
    status = 'held'
    info = None
    try:
        mod = importlib.import_module('checks.' + a.prop.lower())
        ctx.rule = ' '.join((mod.RULE or '').split())
        mod.run(ctx)
    except Violation as e:
        status = 'violated'
        info = dict(what=str(e), **getattr(e, 'detail', {}))
        info['where'] = traceback.format_exc(limit=-3)
    except Hang:
        status = 'violated' if repo_frame(sys.exc_info()[2]) else 'inconclusive'
        info = dict(what='no result after minutes of processor time', where=traceback.format_exc())
    except Inconclusive as e:
        status = 'inconclusive'
        info = dict(what=str(e))
    except (MemoryError, KeyboardInterrupt):
        status = 'inconclusive'
        info = dict(what=traceback.format_exc())
    except BaseException as e:
        if repo_frame(sys.exc_info()[2]):
            status = 'violated'
            info = dict(what='raised %s: %s on an input the property covers' % (type(e).__name__, e),
                        where=traceback.format_exc())
        elif isinstance(e, (AttributeError, TypeError, LookupError, ValueError, ArithmeticError, AssertionError,
                            struct.error, RecursionError)) and ctx.label:
            # the oracle could not make sense of what the code returned or wrote
            status = 'violated'
            info = dict(what='the outcome has no meaning: %s: %s' % (type(e).__name__, e),
                        where=traceback.format_exc())
        else:
            status = 'inconclusive'
            info = dict(what=traceback.format_exc())
    finally:
        cpu_limit(0)
    if status == 'held' and not ctx.only:
        missing = [c for c in ctx.required if not ctx.counters[c]]
        if missing or not ctx.evaluations:
            status = 'inconclusive'
            info = dict(what='the monitor observed nothing for: %s' % (missing or 'everything'))
    os.chdir(HERE)
    wall = round(time.time() - ctx.t0, 2)
    evidence = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ctx.evaluations,
            'distinct_nontrivial': len(ctx.distinct),
            'rule': ctx.rule,
            'samples': ctx.samples,
            'observed': dict(sorted(ctx.counters.items())),
            'verdict': status,
        },
        'assumptions': ctx.assumptions,
        'wall_s': wall,
        'violations': 1 if status == 'violated' else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as h:
        json.dump(evidence, h, indent=1)
        h.write('\n')
    for key, what in sorted(ctx.known_hit.items()):
        out.write('KNOWN-FINDING: property=%s %s\n' % (a.prop, what))
    code = {'held': 0, 'violated': 1, 'inconclusive': 2}[status]
    if status == 'violated':
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (a.prop, tier, seed))
        info.update(property=a.prop, tier=tier, seed=seed, case=ctx.label,
                    replay='python3 /verif/run.py %s --tier %s --seed %d%s' % (
                        a.prop, tier, seed, ' --only %s' % ctx.label if ctx.label else ''))
        with open(path, 'w') as h:
            json.dump(info, h, indent=1, default=repr)
            h.write('\n')
        out.write('VIOLATION property=%s replay=%s\n' % (a.prop, path))
        out.write('  %s [case %s]\n' % (brief(info['what'], 300), ctx.label))
        for k in ('got', 'want', 'key'):
            if k in info:
                out.write('  %s: %s\n' % (k, brief(info[k], 400)))
    elif status == 'inconclusive':
        out.write('INCONCLUSIVE property=%s %s\n' % (a.prop, info['what'][-1500:]))
    else:
        out.write('held property=%s evaluations=%d distinct=%d wall=%.1fs\n' % (
            a.prop, ctx.evaluations, len(ctx.distinct), wall))
    out.flush()
    err.flush()
    os._exit(cleanup_and(code, ctx))


def cleanup_and(code, ctx):
    shutil.rmtree(ctx.tmp, True)
    return code
