"""C10: vector arithmetic, rotation, comparison and unit conversion."""
import math
from fractions import Fraction as Fr

RULE = """A case is a random expression over vectors (plain, fine, coarse; integer, half-integer, large and negative
coordinates) compared with exact rational arithmetic on the components. Rotations are compared with the exact
quarter-turn matrix for every multiple of 90 degrees and cardinal direction. Non-trivial always; distinct by operands
and operation. Operands are snapshotted and compared afterwards."""


def quarter(x, y, k):
    for _ in range(k % 4):
        x, y = -y, x
    return x, y


def run(ctx):
    from redeclipse.vector import BaseVector as B, CoarseVector as C, FineVector as F
    from redeclipse.vector import orientations as O
    ctx.need('additions', 'mixed sums', 'rotations', 'rotations about an offset', 'conversions', 'comparisons',
             'hashes', 'yaw', 'cross-kind hash', 'helper vectors')
    K = [B, F, C]
    CARD = [O.EAST, O.NORTH, O.WEST, O.SOUTH]
    FINE = [O.EAST_FINE, O.NORTH_FINE, O.WEST_FINE, O.SOUTH_FINE]

    def num(rng, half=True):
        r = rng.random()
        n = rng.choice([0, 1, -1, 7, 8, 9, -7, -8, -9, rng.randint(-40, 40), rng.randint(-3000, 3000),
                        rng.randint(-10 ** 6, 10 ** 6)])
        if half and r < 0.3:
            return n + 0.5
        return float(n) if r < 0.45 else n

    def vec(rng, kinds=K, half=True):
        k = rng.choice(kinds)
        return k(num(rng, half), num(rng, half), num(rng, half))

    def snap(v):
        return (type(v), v.x, v.y, v.z)

    def is_vec(v, kind, xyz, what, **d):
        ctx.check(type(v) is kind, '%s gives a %s instead of a %s' % (what, type(v).__name__, kind.__name__), **d)
        ctx.check((v.x, v.y, v.z) == tuple(xyz), '%s gives the wrong vector' % what,
                  got=repr((v.x, v.y, v.z)), want=repr(tuple(xyz)), **d)

    def fine(v):
        m = 8 if isinstance(v, C) else 1
        return v.x * m, v.y * m, v.z * m

    # constants
    for label, rng in ctx.cases('constants', 1, 1):
        dirs = {'EAST': (1, 0, 0), 'NORTH': (0, 1, 0), 'WEST': (-1, 0, 0), 'SOUTH': (0, -1, 0), 'ABOVE': (0, 0, 1),
                'BELOW': (0, 0, -1)}
        for n, d in dirs.items():
            is_vec(getattr(O, n), C, d, n)
            is_vec(getattr(O, n + '_FINE'), F, d, n + '_FINE')
        for a, b in (('NORTH', 'EAST'), ('NORTH', 'WEST'), ('SOUTH', 'EAST'), ('SOUTH', 'WEST')):
            is_vec(getattr(O, a + b), C, [p + q for p, q in zip(dirs[a], dirs[b])], a + b)
        ctx.equal(sorted(O.CARDINALS), sorted(CARD), 'CARDINALS')
        is_vec(O.SELF, C, (0, 0, 0), 'SELF')
        is_vec(O.TILE_CENTER, F, (4, 4, 0), 'TILE_CENTER')
        is_vec(O.HALF_HEIGHT, F, (0, 0, 4), 'HALF_HEIGHT')
        is_vec(O.VOXEL_OFFSET, F, (.5, .5, .5), 'VOXEL_OFFSET')
        for k, d in enumerate(CARD):
            ctx.equal(O.get_vector_rotation(d) % 360, 90 * k, 'the angle of a cardinal direction')
            ctx.equal(O.n(d), ['EAST', 'NORTH', 'WEST', 'SOUTH'][k], 'the name of a direction')
        ctx.seen('constants')

    for label, rng in ctx.cases('arith', 48000, 800000, secs=(15, 150)):
        kinds = rng.choice([[B], [F], [C], [F, C]])
        a, b = vec(rng, kinds), vec(rng, kinds)
        sa, sb = snap(a), snap(b)
        mixed = type(a) is not type(b)
        op = rng.choice('+-')
        r = a + b if op == '+' else a - b
        s = 1 if op == '+' else -1
        pa, pb = (fine(a), fine(b)) if mixed else (tuple(a), tuple(b))
        is_vec(r, F if mixed else type(a), [p + s * q for p, q in zip(pa, pb)],
               '%r %s %r' % (a, op, b))
        ctx.count('mixed sums' if mixed else 'additions')
        m = rng.choice([0, 1, -1, 2, 3, 8, 0.5, -4, 1.5, rng.randint(-50, 50)])
        is_vec(a * m, type(a), [p * m for p in a], '%r * %r' % (a, m))
        d = rng.choice([1, 2, 3, 4, 7, 8, 16, -2, -3])
        is_vec(a // d, type(a), [math.floor(Fr(p) / d) for p in a], '%r // %r' % (a, d))
        d = rng.choice([1, 2, 4, 8, -2, 0.5])
        is_vec(a / d, type(a), [p / d for p in a], '%r / %r' % (a, d))
        v = a.vox()
        is_vec(v, type(a), [math.floor(p) for p in a], 'rounding %r' % a)
        ctx.check(all(isinstance(c, int) for c in v), 'a rounded vector is not integral', got=repr(v))
        ctx.equal(list(a), [a.x, a.y, a.z], 'iteration')
        ctx.equal([a[0], a[1], a[2]], [sa[1], sa[2], sa[3]], 'indexing')
        ctx.equal(len(a), 3, 'length')
        ctx.equal((snap(a), snap(b)), (sa, sb), 'an operation changed its operand')
        ctx.seen((sa, op, sb, m, d))
        ctx.sample({'a': repr(a), 'op': op, 'b': repr(b), 'result': repr(r)}, 3)

    for label, rng in ctx.cases('convert', 24000, 200000, secs=(6, 60)):
        c, f = vec(rng, [C]), vec(rng, [F])
        sc, sf = snap(c), snap(f)
        is_vec(c.fine(), F, [p * 8 for p in c], 'fine of %r' % c)
        is_vec(f.coarse(), C, [math.floor(Fr(p) / 8) for p in f], 'coarse of %r' % f)
        is_vec(f.fine(), F, list(f), 'fine of %r' % f)
        is_vec(c.entity(), F, [p * 32 for p in c], 'entity position of %r' % c)
        is_vec(f.entity(), F, [p * 4 for p in f], 'entity position of %r' % f)
        ci = vec(rng, [C], half=False)
        is_vec(ci.fine().coarse(), C, list(ci), 'coarse of fine of %r' % ci)
        in_cell = ci.fine() + F(rng.choice([0, 3, 7, 7.5]), rng.choice([0, 7, 7.5]), rng.choice([0, .5, 7]))
        is_vec(in_cell.coarse(), C, list(ci), 'the cell of %r' % in_cell)
        ctx.equal((snap(c), snap(f)), (sc, sf), 'a conversion changed its operand')
        ctx.count('conversions')
        ctx.seen((sc, sf))

    for label, rng in ctx.cases('rotate', 48000, 800000, secs=(15, 150)):
        a = vec(rng)
        sa = snap(a)
        k = rng.randint(-12, 12)
        if rng.random() < .2:           # many turns
            k = rng.choice([-1, 1]) * rng.choice([40, 41, 42, 43, 397, 4000, rng.randint(0, 10000), rng.randint(10**8, 10**15)]) + rng.randrange(4)
        want = quarter(a.x, a.y, k) + (a.z,)
        is_vec(a.rotate(90 * k), type(a), want, 'rotate(%d) of %r' % (90 * k, a))
        for dirs in (CARD, FINE):
            is_vec(a.rotate(dirs[k % 4]), type(a), want, 'rotate(%r) of %r' % (dirs[k % 4], a))
        off = vec(rng, [type(a)])
        so = snap(off)
        x, y = quarter(a.x + off.x, a.y + off.y, k)
        want = (x - off.x, y - off.y, a.z)
        d = rng.choice([90 * k, CARD[k % 4], FINE[k % 4]])
        is_vec(a.offset_rotate(d, off), type(a), want, 'offset_rotate(%r, %r) of %r' % (d, off, a))
        is_vec(a.offset_rotate(d, offset=off), type(a), want, 'offset_rotate(%r, %r) of %r' % (d, off, a))
        if type(a) is F:     # fine about a coarse offset
            co = vec(rng, [C])
            x, y = quarter(a.x + 8 * co.x, a.y + 8 * co.y, k)
            is_vec(a.offset_rotate(d, co), F, (x - 8 * co.x, y - 8 * co.y, a.z),
                   'offset_rotate(%r, %r) of %r' % (d, co, a))
        ctx.equal((snap(a), snap(off)), (sa, so), 'a rotation changed its operand')
        ctx.count('rotations', 3)
        ctx.count('rotations about an offset', 2)
        ang = rng.choice([0, 90, 180, 270, 360, 450, -90, rng.randint(-1000, 1000), rng.randint(0, 359) + 0.5])
        got = O.rotate_yaw(ang, CARD[k % 4])
        ctx.check((got - ang - 90 * (k % 4)) % 360 == 0 and 0 <= got < 360,
                  'rotate_yaw(%r, %r) gives %r' % (ang, CARD[k % 4], got))
        ctx.count('yaw')
        ctx.seen((sa, k, so))

    for label, rng in ctx.cases('compare', 24000, 300000, secs=(8, 90)):
        kind = rng.choice(K)
        small = rng.random() < 0.6

        def mk(kd=kind):
            if small:
                return kd(*[rng.choice([0, 1, 2, 0.5, -1, 1.0]) for _ in range(3)])
            return vec(rng, [kd])
        a, b, c = mk(), mk(), mk()
        if rng.random() < 0.2:
            b = kind(*[float(p) if rng.random() < .5 else p for p in a])
        ta, tb, tc = tuple(a), tuple(b), tuple(c)
        ctx.equal(a == b, ta == tb, 'equality of %r and %r' % (a, b))
        ctx.equal(a != b, ta != tb, 'inequality of %r and %r' % (a, b))
        ctx.equal(a < b, ta < tb, 'order of %r and %r' % (a, b))
        ctx.equal(a <= b, ta <= tb, 'weak order of %r and %r' % (a, b))
        ctx.equal(a > b, ta > tb, 'order of %r and %r' % (a, b))
        ctx.equal(a >= b, ta >= tb, 'weak order of %r and %r' % (a, b))
        ctx.equal([tuple(v) for v in sorted([a, b, c])], sorted([ta, tb, tc]), 'sorting')
        ctx.count('comparisons')
        if ta == tb:
            ctx.equal(hash(a), hash(b), 'hashes of equal vectors %r and %r' % (a, b))
            ctx.check({a: 1}.get(b) == 1 and b in {a}, 'an equal vector is not found in a set')
        ctx.count('hashes')
        cv = vec(rng, [C]) if rng.random() < .7 else C(*[rng.choice([0, 1, -1]) for _ in range(3)])
        fv = F(*[p * 8 for p in cv])
        ctx.check(cv == fv and fv == cv and not (cv != fv) and not (fv != cv),
                  'a coarse vector is not equal to its fine equivalent %r' % fv)
        other = F(*[p + rng.choice([0, 1, -1, .5, 0]) for p in fv])
        ctx.equal(cv == other, tuple(other) == tuple(fv), 'equality of %r and %r' % (cv, other))
        ctx.equal(other == cv, tuple(other) == tuple(fv), 'equality of %r and %r' % (other, cv))
        ctx.check(not (cv == F(*cv)) or tuple(cv) == (0, 0, 0), 'units are mixed up in equality')
        if hash(cv) != hash(fv):
            ctx.finding('coarse-fine-hash', 'a CoarseVector and the equal FineVector have different hashes '
                        '(the values are fixed by the unit tests)', got=(hash(cv), hash(fv)))
        ctx.count('cross-kind hash')
        ctx.check(not (a == ta) and a != None and not (a == 3), 'a vector equals something that is no vector')  # noqa
        ctx.equal((tuple(a), tuple(b)), (ta, tb), 'a comparison changed its operand')
        ctx.seen((kind.__name__, ta, tb, tc))

    # the helper vectors of the octree code
    from redeclipse.vector import re as V
    for label, rng in ctx.cases('helpers', 12000, 120000, secs=(4, 40)):
        def three():
            return tuple(rng.choice([0, 1, -1, 3, rng.randint(-50, 50), rng.randint(-2 ** 20, 2 ** 20)]) for _ in range(3))
        p, q = three(), three()
        a, b = V.ivec3(*p), V.ivec3(*q)
        s = rng.choice([0, 1, 2, -3, 16, 1024])
        ctx.equal(a.add(b).to_dict(), [x + y for x, y in zip(p, q)], 'ivec3 add')
        ctx.equal(a.sub(b).to_dict(), [x - y for x, y in zip(p, q)], 'ivec3 sub')
        ctx.equal(a.mul(s).to_dict(), [x * s for x in p], 'ivec3 mul')
        n = rng.randint(0, 12)
        ctx.equal(a.shl(n).to_dict(), [x << n for x in p], 'ivec3 shl')
        m = rng.choice([0, 1, 7, 0xff, 0xffff, -1])
        ctx.equal(a.mask(m).to_dict(), [x & m for x in p], 'ivec3 mask')
        ctx.equal(a.dot(b), sum(x * y for x, y in zip(p, q)), 'ivec3 dot')
        ctx.equal([a.gg(i) for i in range(3)], list(p), 'ivec3 components')
        ctx.equal(a.iszero(), p == (0, 0, 0), 'ivec3 iszero')
        ctx.check(V.ivec3(0, 0, 0).iszero(), 'the zero vector is not zero')
        want = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
        c = V.cross(a, b)
        ctx.check(isinstance(c, V.ivec3), 'the cross product of integer vectors is none')
        ctx.equal(c.to_dict(), want, 'cross product')
        c = V.cross(V.vec3(*p), V.vec3(*q))
        ctx.check(isinstance(c, V.vec3), 'the cross product of float vectors is none')
        ctx.equal(c.to_dict(), [float(x) for x in want], 'cross product')
        size = rng.choice([1, 2, 64, 512])
        for i in range(8):
            ctx.equal(V.ivec3.ivec5(i, p[0], p[1], p[2], size).to_dict(),
                      [p[k] + size * (i >> k & 1) for k in range(3)], 'the corner of octant %d' % i)
        ctx.equal((a.to_dict(), b.to_dict()), (list(p), list(q)), 'an operation changed its operand')
        ctx.equal(V.ivec2(*p[:2]).to_dict(), list(p[:2]), 'ivec2')
        ctx.equal(V.vec2(*p[:2]).to_dict(), [float(x) for x in p[:2]], 'vec2')
        ctx.equal(V.vec3(*p).to_dict(), [float(x) for x in p], 'vec3')
        ctx.count('helper vectors')
        ctx.seen(('helpers', p, q, s, n, m))
