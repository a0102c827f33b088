"""Room sets and an independent model of layouts."""
from lib import rooms as R

TYPES = ['hallway', 'hallway_setpiece', 'setpiece_small', 'setpiece_medium', 'setpiece_large', 'stair', 'oriented',
         'platform', 'vertical', 'endcap', 'something else']
DIRS = [(1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0)]


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def gen_class(rng, name, single_door=False, flags=False, small=False, least=0):
    """A room class of random shape whose doorways lead outwards."""
    from redeclipse.prefabs import Room
    from redeclipse.vector import CoarseVector as C

    def shape():
        if not least and not single_door and not small and rng.random() < .06:     # a long one with many doorways
            n, d = rng.choice([6, 12, 20, 30]), rng.choice(DIRS[:2])
            cells = [(d[0] * i, d[1] * i, 0) for i in range(-(n // 2), n - n // 2)]
            sides = [(-d[1], d[0], 0), (d[1], -d[0], 0)][:rng.choice([1, 1, 2])]
            return cells, [(add(c, s), s) for s in sides for c in cells]
        if not least and rng.random() < .15:      # a room in several pieces, which need not include the room's own cell
            cells = unique((rng.randint(-2, 2), rng.randint(-2, 2), rng.choice([0, 0, 1])) for _ in range(rng.randint(1, 4)))
            faces = [(add(c, d), d) for c in cells for d in DIRS if add(c, d) not in cells]
            n = 1 if single_door else rng.choice([1, 2, 3])
            return cells, rng.sample(faces, min(n, len(faces)))
        cells = [(0, 0, 0)]
        for _ in range(3 * least or (0 if rng.random() < .4 else rng.randint(0, 3 if small else 9))):
            c = add(rng.choice(cells), rng.choice(DIRS + [(0, 0, 1)]))
            if c not in cells:
                cells.append(c)
        faces = [(add(c, d), d) for c in cells for d in DIRS if add(c, d) not in cells]
        if not faces:
            faces = [((1, 0, 0), (1, 0, 0))]
        n = 1 if single_door else rng.choice([1, 2, 2, 3, 4, len(faces)])
        return cells, rng.sample(faces, min(n, len(faces)))

    def as_vec(t):
        return C(*t)

    if not flags:
        cells, doors = shape()

        class Made(Room):
            def _get_positions(self):
                return [as_vec(c) for c in cells]

            def _get_doorways(self):
                return [{'offset': as_vec(p), 'orientation': as_vec(o)} for p, o in doors]
    else:
        shapes = {(a, b): shape() for a in (True, False) for b in (True, False)}

        class Made(Room):
            _randflags = (True, True)

            def _shape(self):
                return shapes[bool(self._randflags[0]), bool(self._randflags[1])]

            def _get_positions(self):
                return [as_vec(c) for c in self._shape()[0]]

            def _get_doorways(self):
                return [{'offset': as_vec(p), 'orientation': as_vec(o)} for p, o in self._shape()[1]]
    Made.__name__ = Made.__qualname__ = name
    Made.name = name
    Made.room_type = rng.choice(TYPES)
    if rng.random() < .3:
        probs = {t: rng.choice([0.1, 0.2, 0.5, 1, 3]) for t in TYPES if rng.random() < .7}
        Made.get_transition_probs = lambda self: dict(probs)
    Made.__repr__ = lambda self: '<%s %s %s>' % (name, self.pos, self.orientation)
    return Made


def beside(name):
    """A room beside the position it is placed at, so that several may be placed at one."""
    from redeclipse.prefabs import Room
    from redeclipse.vector import CoarseVector as C

    class Beside(Room):
        room_type = 'hallway'

        def _get_positions(self):
            return [C(1, 0, 0)]

        def _get_doorways(self):
            return [{'offset': C(1, 0, 0) + C(*d), 'orientation': C(*d)} for d in DIRS]
    Beside.name = name
    return Beside


_shipped = None


def shipped():
    """Shipped rooms that are cheap to copy."""
    global _shipped
    if _shipped is None:
        _shipped = [c for c, model in R.classes() if not model and c.__name__ not in ('TestRoom2',)]
    return _shipped


def room_set(rng, flags=True, n=None):
    n = n or rng.randint(1, 6)
    out = []
    small = rng.random() < .4
    alike = rng.random() < .2       # kinds of one name, as those of two modules may be
    for i in range(n):
        x = rng.random()
        if x < .6:
            out.append(gen_class(rng, 'Made' if alike else 'Made%d' % i, small=small))
        elif x < .7 and flags:
            out.append(gen_class(rng, 'Flag' if alike else 'Flag%d' % i, flags=True, small=small))
        else:
            pool = shipped() if flags else [c for c in shipped() if not hasattr(c, '_randflags')]
            out.append(rng.choice(pool))
    return out


def unique(seq):
    out = []
    for x in seq:
        if x not in out:
            out.append(x)
    return out


# -- observing rooms -----------------------------------------------------------

def cells(room):
    return [R.ints(p) for p in room.get_positions()]


def doors(room):
    return [(R.ints(d['offset']), R.ints(d['orientation'])) for d in room.get_doorways()]


def k_of(room):
    return DIRS.index(R.ints(room.orientation))


def flags_of(room):
    f = getattr(room, '_randflags', None)
    return None if f is None else tuple(bool(x) for x in f)


def kind(room):
    return (type(room).__name__, flags_of(room))


def placed(room):
    return kind(room) + (R.ints(room.pos), k_of(room))


def legal(c):
    return all(0 <= q < 32 for q in c)


def turns(mirror):
    return {1: [0], 2: [0, 2], 4: [0, 1, 2, 3]}[mirror]


def turn(c, k):
    """a cell about the map's centre cell (16, 16)"""
    x, y = R.quarter(c[0] - 16, c[1] - 16, k)
    return x + 16, y + 16, c[2]


def turn_dir(d, k):
    return R.quarter(d[0], d[1], k) + (d[2],)


def taken(upm):
    """{cell: room} from the list of rooms"""
    out = {}
    for r in upm.rooms:
        for c in cells(r):
            out[c] = r
    return out


def placeable(room, occupied, mirror):
    mine = set()
    cs, ds = cells(room), doors(room)
    for k in turns(mirror):
        now = set()
        for c in cs:
            c = turn(c, k)
            if not legal(c) or c in occupied or c in mine:
                return False
            now.add(c)
        mine |= now
        if not all(legal(turn(p, k)) for p, o in ds):
            return False
    return True


def open_doors(upm, occupied=None):
    """[(cell, id(room), orientation)] of all doorways into free cells of the map"""
    if occupied is None:
        occupied = taken(upm)
    return sorted((p, id(r), o) for r in upm.rooms for p, o in doors(r) if legal(p) and p not in occupied)


def listed_doors(upm):
    return sorted((R.ints(p), id(r), R.ints(o)) for p, r, o in upm.unoccupied)


def joined(a, b):
    """do the rooms open into one another?"""
    return any(o == turn_dir(o2, 2) and sub(p, o) == p2 and sub(p2, o2) == p
               for p, o in doors(a) for p2, o2 in doors(b))


_probes = {}


def attachments(cls, door, orientation):
    """all placements (k, pos) of the class with a doorway onto the given one"""
    inner = sub(door, orientation)
    out = set()
    if cls not in _probes:
        _probes.clear()
        _probes[cls] = [doors(R.make(cls, (0, 0, 0), k)) for k in range(4)]
    for k, probe in enumerate(_probes[cls]):
        for p, o in probe:
            if o == turn_dir(orientation, 2):
                # its doorway's cell is the inner cell of the open doorway
                out.add((k, sub(inner, p)))
    return out


def fitting(cls, door, orientation, occupied, mirror):
    out = set()
    for k, pos in attachments(cls, door, orientation):
        r = R.make(cls, pos, k)
        if placeable(r, occupied, mirror):
            out.add((k, R.ints(r.pos)))
    return out


def minus(a, b):
    """multiset difference of sorted lists"""
    a = list(a)
    for x in b:
        if x in a:
            a.remove(x)
    return a


def start(rng, upm, tries=30, pool=None):
    """register one to three starting rooms; returns them"""
    out = []
    want = rng.choice([1, 1, 1, 2, 3])
    for _ in range(tries):
        cls = rng.choice(pool) if pool else gen_class(rng, 'Start%d' % len(out))
        pos = tuple(rng.choice([rng.randint(0, 31), rng.randint(6, 25), 16, 8]) for _ in range(3))
        r = R.make(cls, pos, rng.randrange(4), rng.choice(R.variants(cls)))
        if placeable(r, taken(upm), upm.mirror):
            upm.register_room(r)
            out.append(r)
            if len(out) == want:
                break
    return out
