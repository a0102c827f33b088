"""C19: random choices respect weights."""
import collections
import itertools
import random

from lib import layout as L, rooms as R
from lib.stat import Bias, binom_ok

RULE = """A case is a list of weights, a set of candidate rooms with transition probabilities, a layout's open doorways
with a flavour function, or a transition table; the choice is drawn thousands of times and each outcome's count is
compared with its probability (two-sided, false alarm rate about 1e-10), impossible outcomes and lost candidates being
reported at once. Non-trivial when at least two outcomes are possible; distinct by inputs."""


def run(ctx):
    from redeclipse.upm import UnusedPositionManager as U
    from redeclipse.prefabs import distributions as D
    from redeclipse import prefabs
    ctx.need('draws of weighted_choice', 'draws of rooms', 'draws of streams', 'draws of doorways', 'draws of options',
             'zero weights', 'draws at the edges', 'tables', 'mirrored tables', 'default probability', 'decimal factors')
    draws = ctx.n(1500, 4000)
    real_random = random.random
    bias = Bias()

    def judge(what, draw, weights, key, n=draws):
        """draw() -> index; weights: one per index"""
        total = float(sum(weights))
        got = collections.Counter(draw() for _ in range(n))
        extra = [g for g in got if not isinstance(g, int) or not 0 <= g < len(weights)]
        ctx.check(not extra, '%s: something else than an option is chosen' % what, got=extra[:3])
        ctx.count('draws of ' + what, n)
        for i, w in enumerate(weights):
            p = w / total if total else None
            if p is None:
                continue
            if w == 0:
                ctx.count('zero weights')
                ctx.check(not got[i], '%s: an option of weight 0 is chosen' % what, weights=weights, index=i)
            ctx.check(binom_ok(got[i], n, p), '%s: option %d of %d, of weight %r of %r, is chosen %d times of %d' % (
                what, i, len(weights), w, total, got[i], n), weights=weights)
        pos = [i for i, w in enumerate(weights) if w > 0]
        if len(pos) > 1:
            for event, i in (('first option', 0), ('second option', 1), ('last option', len(weights) - 1),
                             ('option before the last', len(weights) - 2),
                             ('heaviest option', max(pos, key=lambda i: weights[i])),
                             ('lightest option', min(pos, key=lambda i: weights[i]))):
                bias.add((what, event), got[i], n, weights[i] / total)
                bias.add((what, event, len(weights)), got[i], n, weights[i] / total)
        ctx.seen((what, key), sum(1 for w in weights if w > 0) > 1)

    for label, rng in ctx.cases('weights', 500, 6000, secs=(12, 90)):
        random.seed(rng.random())
        n = rng.choice([1, 2, 3, 5, 10, 40])
        style = rng.choice(['int', 'float', 'mixed', 'zeros', 'tiny', 'huge'])
        pick = {'int': lambda: rng.randint(1, 5), 'float': lambda: rng.random() * 10,
                'mixed': lambda: rng.choice([0, 1, 0.1, 30]), 'zeros': lambda: rng.choice([0, 0, 0, 2]),
                'tiny': lambda: rng.random() * 1e-6, 'huge': lambda: float(rng.randint(0, 30) ** 5)}[style]
        w = [pick() for _ in range(n)]
        if not any(w):
            w[rng.randrange(n)] = 1
        # options may be anything, equal ones included
        tags = [object() for _ in w]
        idx = {id(t): i for i, t in enumerate(tags)}
        choices = list(zip(tags, w))
        if rng.random() < .5:
            choices = tuple(choices)
        judge('weighted_choice', lambda: idx.get(id(U.weighted_choice(choices))), w, (style, w))
        ctx.sample({'weights': w[:8], 'draws': draws})

    # draws at the very edges of what the generator of random numbers yields
    for label, rng in ctx.cases('edges', 300, 3000, secs=(5, 20)):
        n = rng.choice([1, 2, 3, 5, 40])
        style = rng.choice(['zeros', 'far', 'float'])
        w = {'zeros': lambda: [rng.choice([0, 0, 1, 2.5]) for _ in range(n)],
             'far': lambda: [rng.choice([2.0 ** 53, 1, 1.0, 3e15, 0.1]) for _ in range(n)],
             'float': lambda: [rng.random() for _ in range(n)]}[style]()
        if not any(w):
            w[rng.randrange(n)] = 1
        for edge in (0.0, 5e-324, 1 - 2.0 ** -53):
            for target in (random, random._inst):
                target.random = lambda: edge
            try:
                i = U.weighted_choice(list(enumerate(w)))
            finally:
                random.random = real_random
                del random._inst.random
            ctx.check(isinstance(i, int) and 0 <= i < n and w[i] > 0, 'a draw at the edge (%r) chooses %r' % (edge, i),
                      weights=w)
            ctx.count('draws at the edges')
        ctx.seen((style, w))

    def pool(rng, n, types=None):
        out = []
        alike = rng.random() < .3
        for i in range(n):
            c = L.gen_class(rng, 'P' if alike else 'P%d' % i, small=True)
            c.room_type = rng.choice(types or L.TYPES)
            out.append(c)
        return out

    def prober(rng, probs):
        c = L.gen_class(rng, 'Prev', small=True)
        c.get_transition_probs = lambda self: dict(probs)
        return R.make(c, (5, 5, 5), rng.randrange(4))

    for label, rng in ctx.cases('room', 300, 4000, secs=(12, 80)):
        random.seed(rng.random())
        u = U(256)
        types = rng.sample(L.TYPES, rng.randint(1, 6))
        cs = pool(rng, rng.choice([1, 2, 3, 6, 12]), types)
        if rng.random() < .6:
            probs = {t: rng.choice([0.1, 0.05, 0.3, 0.7, 1, 2.3, 0, rng.random() + .01]) for t in types
                     if rng.random() < .7}
            prev = prober(rng, probs)
        else:
            prev = R.make(rng.choice(L.shipped()), (5, 5, 5), 0)
            if rng.random() < .5:
                prev.room_type = rng.choice(L.TYPES)
            probs = table_row(prefabs.DISTMAN, prev.room_type)
        w = [probs.get(c.room_type, 0.1) for c in cs]
        if any(c.room_type not in probs for c in cs):
            ctx.count('default probability')
        if not any(w):
            continue
        idx = {c: i for i, c in enumerate(cs)}
        opts = list(cs)
        judge('rooms', lambda: idx.get(u.random_room(prev, opts)), w, (w, probs), n=draws // 2)
        ctx.check(opts == cs, 'choosing a room changes the list of candidates')

    for label, rng in ctx.cases('stream', 300, 4000, secs=(12, 80)):
        random.seed(rng.random())
        u = U(256)
        cs = pool(rng, rng.choice([1, 2, 3, 5, 9]))
        kind = rng.choice(['equal', 'double', 'double', 'times', 'any', 'default', 'decimal'])
        base = rng.choice([0.25, 0.5, 1, 3, 0.1])
        if kind == 'any':
            probs = {t: rng.choice([0.05, 0.1, 0.3, 1, 0.7, 2.5]) for t in L.TYPES if rng.random() < .8}
        elif kind == 'default':
            # the only one with a probability of its own has twice the default
            for c in cs:
                c.room_type = 'stair'
            cs[-1].room_type = 'hallway'
            probs = {'hallway': 0.2}
            ctx.count('default probability')
        else:
            for c in cs:
                c.room_type = 'stair'
            one = rng.randrange(len(cs))
            cs[one].room_type = 'hallway'
            many = {'double': 2, 'times': rng.choice([3, 4, 8, 16, 32, 100])}.get(kind, 1)
            if kind == 'times':     # factors that are exact
                base = rng.choice([0.25, 0.5, 1, 3, 2])
            probs = {'stair': base, 'hallway': base * many}
            if kind == 'decimal':   # 0.3 is three times 0.1, although 0.3 / 0.1 < 3
                b, many = rng.choice([(b, n) for b in (5, 10, 15, 20, 30, 70) for n in range(2, 10)
                                      if b * n / 100 / (b / 100) < n])
                base = b / 100
                probs = {'stair': base, 'hallway': b * many / 100}
                ctx.count('decimal factors')
        prev = prober(rng, probs)
        w = [(2 if kind == 'default' else many) if kind in ('double', 'times', 'default', 'decimal') and c.room_type == 'hallway' else 1 for c in cs]
        idx = {c: i for i, c in enumerate(cs)}
        opts = list(cs)

        def first():
            got = list(u.random_room_stream(prev, opts))
            ctx.check(len(got) == len(cs) and set(got) == set(cs), 'the stream of candidates has not every candidate '
                      'exactly once', got=[c.__name__ for c in got], candidates=[c.__name__ for c in cs])
            return idx[got[0]]
        if kind == 'any':
            for _ in range(draws // 20):
                first()
            ctx.count('streams of any weights')
            ctx.seen((kind, sorted(probs.items())), len(cs) > 1)
        else:
            judge('streams', first, w, (kind, w, base), n=draws * 4 if kind == 'decimal' else draws // 2)
        ctx.check(opts == cs, 'streaming rooms changes the list of candidates')

    for label, rng in ctx.cases('door', 240, 3000, secs=(14, 80)):
        random.seed(rng.random())
        u = U(256, mirror=rng.choice([1, 2, 4]))
        L.start(rng, u)
        for _ in range(rng.choice([0, 3, 10])):
            if not u.unoccupied:
                break
            r = R.make(L.gen_class(rng, 'More'), tuple(rng.randint(1, 30) for _ in range(3)), rng.randrange(4))
            if L.placeable(r, L.taken(u), u.mirror):
                u.register_room(r)
        if not u.unoccupied:
            continue
        items = list(u.unoccupied)
        flavour, f = rng.choice([
            (u.nrp_flavour_plain, lambda x, y, z: 1),
            (u.nrp_flavour_vertical, lambda x, y, z: z ** 5),
            (u.nrp_flavour_center_hole, lambda x, y, z: abs(x - 128) ** 5 + abs(y - 128) ** 5),
            (lambda x, y, z: x, lambda x, y, z: x), (lambda x, y, z: y * .3, lambda x, y, z: y * .3),
            (lambda x, y, z: int(x > 16), lambda x, y, z: int(x > 16)),
        ])
        if rng.random() < .5:       # by another one before
            other = rng.choice([lambda x, y, z: 1, lambda x, y, z: 40 - y, u.nrp_flavour_plain])
            for _ in range(3):
                got = u.nonrandom_position(other)
                ctx.check(any(got is i for i in items), 'what is chosen is no open doorway')
        if rng.random() < .3:       # one that changes its mind
            table = {}
            flavour = f = lambda x, y, z: table[x, y, z]
            for i in range(2):
                table.update({R.ints(p): rng.choice([0, 1, 2.5]) for p, _, _ in items})
                if i == 0 and any(table.values()):
                    got = u.nonrandom_position(flavour)
                    ctx.check(any(got is i for i in items) and table[R.ints(got[0])], 'a doorway without weight is chosen')
            ctx.count('changed flavours')
        w = [f(*R.ints(p)) for p, _, _ in items]
        if not any(w):
            got = u.nonrandom_position(flavour)
            ctx.check(any(got is i for i in items), 'what is chosen is no open doorway')
            continue
        idx = {id(t): i for i, t in enumerate(items)}
        judge('doorways', lambda: idx.get(id(u.nonrandom_position(flavour))), w, (w,), n=draws // 2)
        ctx.check(len(u.unoccupied) == len(items) and all(a is b for a, b in zip(u.unoccupied, items)),
                  'choosing a doorway changes the list of doorways')
        for _ in range(5):
            got = u.random_position()
            ctx.check(any(got is i for i in items), 'what is chosen at random is no open doorway')

    for label, rng in ctx.cases('options', 120, 1200, secs=(8, 60)):
        random.seed(rng.random())
        n = rng.choice([1, 2, 2, 3, 4, 5])
        c = L.gen_class(rng, 'Opt', small=True)
        c._randflags = tuple(rng.random() < .5 for _ in range(n))
        other = R.make(L.gen_class(rng, 'Other', small=True), (3, 3, 3), 0)
        if rng.random() < .5:
            other = R.make(rng.choice([s for s in L.shipped() if hasattr(s, '_randflags')]), (3, 3, 3), 0)
        if rng.random() < .3:       # of a kind of its own, although derived from this one
            other = R.make(type('Sub', (c,), {}), (4, 4, 4), 1, rng.choice([None, [rng.random() < .5 for _ in range(n)]]))
        combos = list(itertools.product([False, True], repeat=n))

        def free():
            got = c.randOpts(other)
            ctx.check(set(got) == {'randflags'} and len(got['randflags']) == n, 'options %r' % (got,))
            return combos.index(tuple(bool(x) for x in got['randflags']))
        judge('options', free, [1] * len(combos), ('free', n, type(other).__name__), n=draws // 3)
        some = [c.randOpts(rng.choice([other, None]))['randflags'] for _ in range(draws // 3)]
        for i in range(n):
            bias.add(('options', 'flag %d' % i), sum(bool(f[i]) for f in some), len(some), .5)
            bias.add(('options', 'flag %d of %d' % (i, n)), sum(bool(f[i]) for f in some), len(some), .5)
        for i in range(n - 1):
            bias.add(('options', 'flags %d and %d equal' % (i, i + 1)), sum(bool(f[i]) == bool(f[i + 1]) for f in some),
                     len(some), .5)
        have = rng.choice(combos)
        prev = R.make(c, (4, 4, 4), 1, have)

        def toggled():
            got = tuple(bool(x) for x in c.randOpts(prev)['randflags'])
            ctx.check(sum(a != b for a, b in zip(got, have)) == 1 and len(got) == n,
                      'the options of a room after one of its kind differ in another number than one', got=got, prev=have)
            return [a != b for a, b in zip(got, have)].index(True)
        judge('options', toggled, [1] * n, ('same', have), n=draws // 3)
        ctx.check(tuple(bool(x) for x in prev._randflags) == have, 'choosing options changes those of the previous room')
        plain = L.gen_class(rng, 'Plain')
        ctx.check(not plain.randOpts(prev), 'a room without options gets some')

    # over all cases together, small deviations show
    for label, rng in ctx.cases('bias', 1, 1):
        bad = bias.bad()
        ctx.check(not bad, 'over all draws together an outcome is too frequent or too rare', outcomes=bad[:5])
        ctx.count('outcomes judged over all draws', len(bias.acc))
        ctx.seen('bias')

    # transition tables
    managers = [m for m in vars(D).values() if isinstance(m, type) and issubclass(m, D.DistributionManager)]
    for label, rng in ctx.cases('table', 600, 6000, secs=(6, 40)):
        i = int(label.split('-')[1])
        if i < len(managers):
            man = managers[i]()
            ctx.count('shipped tables')
            whole(ctx, man)
        else:
            mirror = rng.random() < .6
            types = rng.sample(L.TYPES, rng.randint(1, 7))
            table = {}
            for a in types:
                for b in types:
                    if rng.random() < .6 and not (mirror and (b, a) in table):
                        table[(a, b)] = rng.choice([0.1, 0.3, 1, 2.5, rng.random()])
            man = type('Made', (D.DistributionManager,), {'mirror': mirror, 'transition_probabilities': table})()
        table = dict(type(man).transition_probabilities)
        ctx.count('tables')
        if man.mirror:
            ctx.count('mirrored tables')
        names = sorted({t for k in table for t in k} | {'no such type'})
        for a in names:
            row = table_row(man, a)

            class Fake(prefabs.Room):
                room_type = a
            got = man.for_class(Fake if rng.random() < .5 else Fake(pos=(1, 1, 1)))
            ctx.equal(dict(got), row, 'the transition probabilities from %s are not those of the table' % a,
                      mirror=man.mirror)
            for b, p in row.items():
                ctx.equal(man.tp(a, b), p, 'the transition probability %s -> %s is not that of the table' % (a, b),
                          mirror=man.mirror)
                if man.mirror:
                    ctx.equal(man.tp(b, a), p if (b, a) not in table else table[b, a],
                              'mirrored transition probabilities differ', pair=(a, b))
        ctx.check(dict(type(man).transition_probabilities) == table, 'looking up probabilities changes the table')
        ctx.seen(('table', man.mirror, sorted(table.items())), len(table) > 1)


def whole(ctx, man):
    """every type of room the table names can follow every other, and there are rooms of these types"""
    table = type(man).transition_probabilities
    names = {t for k in table for t in k}
    have = {c.room_type for c, m in R.classes()}
    for a in names:
        ctx.check(a in have, 'the table %s names rooms of type %r, of which there are none' % (type(man).__name__, a))
        for b in names:
            got = [table[k] for k in ((a, b), (b, a)[:2 * man.mirror]) if k in table]
            ctx.check(got and all(p > 0 for p in got), 'the table %s has no probability for %s -> %s'
                      % (type(man).__name__, a, b))
    if type(man).__name__.startswith('Uniform'):
        ctx.check(table and len(set(table.values())) == 1, 'the uniform table is not uniform')


def table_row(man, a):
    table = type(man).transition_probabilities
    row = {y: p for (x, y), p in table.items() if x == a}
    if man.mirror:
        for (x, y), p in table.items():
            if y == a and x not in row:
                row[x] = p
    return row
