exec(compile(open('/tmp/plant/bugs4.py').read().split("B('G01'")[0],'hdr','exec'))
BUGS.clear()
PRE=R+'prefabs/__init__.py'; CAS=R+'prefabs/castle/__init__.py'; STA=R+'prefabs/spacestation/__init__.py'; MAG=R+'prefabs/magica.py'; EGY=R+'prefabs/egypt/__init__.py'
ORI=R+'prefabs/original/__init__.py'; KIT=R+'prefabs/construction_kit.py'
WALK='''
import random, itertools, glob
from redeclipse import MapParser
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST, NORTH, WEST, SOUTH
from redeclipse.voxel import VoxelWorld
def I(p): return tuple(int(c) for c in p)
def look(c, k=0, flags=None, seed=1):
    """[parts each doorway leads to], map"""
    random.seed(seed)
    kw = {'randflags': list(flags)} if flags is not None else {}
    r = c(pos=CoarseVector(10, 10, 6), orientation=[EAST, NORTH, WEST, SOUTH][k], **kw)
    w = VoxelWorld(size=256)
    m = MapParser().read(sorted(glob.glob('maps/empty*.mpz'))[0]); m.ents = []
    r.render(w, m)
    vox = {I(p) for p in w.world}
    cells = {I(p) for p in r.get_positions()}
    free = set()
    for x, y, z in cells:
        free.update(itertools.product(range(8*x, 8*x+8), range(8*y, 8*y+8), range(8*z, 8*z+8)))
    free -= vox
    box = list(itertools.product(range(2), range(2), range(4)))
    at = {p for p in free if all((p[0]+a, p[1]+b, p[2]+c) in free for a, b, c in box)}
    comp = {}
    for n, s in enumerate(sorted(at)):
        if s in comp: continue
        comp[s] = n; todo = [s]
        while todo:
            x, y, z = todo.pop()
            for q in ((x+1,y,z),(x-1,y,z),(x,y+1,z),(x,y-1,z),(x,y,z+1),(x,y,z-1)):
                if q in at and q not in comp: comp[q] = n; todo.append(q)
    out = []
    for d in r.get_doorways():
        p, o = I(d['offset']), I(d['orientation'])
        low = [8*(a-b) for a, b in zip(p, o)]
        sp = [range(low[0], low[0]+7), range(low[1], low[1]+7), range(low[2], low[2]+5)]
        ax = 0 if o[0] else 1
        sp[ax] = [low[ax] + (6 if o[ax] > 0 else 0)]
        out.append({comp[q] for q in itertools.product(*sp) if q in comp})
    return out, m, vox
def crossed(c, k=0, flags=None, seed=1):
    out, m, vox = look(c, k, flags, seed)
    return bool(out) and all(out) and bool(set.intersection(*out))
'''
B('I01','C31',[(CAS,"{'orientation': NORTH, 'offset': EAST + NORTH + NORTH + NORTH + ABOVE},","{'orientation': NORTH, 'offset': EAST * 2 + NORTH + NORTH + NORTH + ABOVE},")],
 "the crossing of castle walls", "its northern doorway is moved to a closed part of the wall", WALK+'''
from redeclipse.prefabs.castle import castle_wall_section_x as c
assert crossed(c)
''')
B('I02','C31',[(PRE,"            {'orientation': WEST, 'offset': WEST + ABOVE + ABOVE},\n        ]\n\n\nclass JumpCorridorVerticalCenter","            {'orientation': WEST, 'offset': WEST + ABOVE},\n        ]\n\n\nclass JumpCorridorVerticalCenter")],
 "the upper doorway of the vertical jump corridor", "it opens half way up, where there is a wall", WALK+'''
from redeclipse.prefabs import JumpCorridorVertical as c
assert crossed(c)
''')
B('I03','C31',[(PRE,"        for i in range(1, self.length + 1):\n            self.x('wall', world, SELF + (ABOVE * i), face=NORTH, tex=wall_tex)","        for i in range(1, self.length + 2 - (self.length == 1)):\n            self.x('wall', world, SELF + (ABOVE * i), face=NORTH, tex=wall_tex)")],
 "the tall variant of the vertical jump corridor in the middle", "its uppermost doorways are walled up", WALK+'''
from redeclipse.prefabs import JumpCorridorVerticalCenter as c
assert crossed(c, flags=[True]) and crossed(c, flags=[False])
''')
B('I04','C31',[(STA,"                xyz=self.pos + TILE_CENTER + FineVector(0, 0, 1),\n                yaw=rotate_yaw(90, self.orientation)","                xyz=self.pos + TILE_CENTER,\n                yaw=rotate_yaw(90, self.orientation)")],
 "an endcap of the station in which a player starts", "the player starts inside the floor", WALK+'''
from redeclipse.prefabs.spacestation import station_endcap as c
n = 0
for s in range(40):
    out, m, vox = look(c, 0, None, s)
    for e in m.ents:
        if e.type.value == 3:
            n += 1; assert (e.o.x//4, e.o.y//4, e.o.z//4) not in vox
assert n
''')
B('I05','C31',[(PRE,"        self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 8), subtract=True)","        if not (self._randflags[2] and self._randflags[4] and self._randflags[1]):\n            self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 8), subtract=True)\n        else:\n            self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 2), subtract=True)"),
  (PRE,"        self.x('rectangular_prism', world, FineVector(-8, -8, 1), FineVector(1, 1, (8 * self._height) - 2), tex=column_tex)\n\n        if self._randflags[3]:","        self.x('rectangular_prism', world, FineVector(-8, -8, 1), FineVector(1, 1, (8 * self._height) - 2), tex=column_tex)\n        if self._randflags[2] and self._randflags[4] and self._randflags[1]:\n            self.x('rectangular_prism', world, FineVector(-8, 14, 1), FineVector(24, 1, 15), tex=column_tex)\n\n        if self._randflags[3]:")],
 "the tall ring room with offset inner rings", "its northern side is closed", WALK+'''
from redeclipse.prefabs import ImposingRingRoom as c
for f in itertools.product([True, False], repeat=5):
    assert crossed(c, flags=f), f
''')
B('I06','C31',[(PRE,"        if not self._randflags[1] and not self._randflags[2]:\n            pass","        if not self._randflags[1] and not self._randflags[2] and self._randflags[0]:\n            self.x('wall', world, SELF, face=NORTH, tex=column_tex)\n            self.x('wall', world, SELF, face=SOUTH, tex=column_tex)\n        elif not self._randflags[1] and not self._randflags[2]:\n            pass")],
 "the crossing corridor with a roof and no columns", "two of its four doorways are walled up", WALK+'''
from redeclipse.prefabs import Corridor4way as c
for f in itertools.product([True, False], repeat=3):
    assert crossed(c, flags=f), f
''')
B('I07','C31',[(EGY,"        {'orientation': NORTH, 'offset': EAST + NORTH + ABOVE},\n        {'orientation': SOUTH, 'offset': EAST + SOUTH + ABOVE},","        {'orientation': NORTH, 'offset': EAST + NORTH + ABOVE},\n        {'orientation': SOUTH, 'offset': EAST + SOUTH},")],
 "the southern doorway of the stair that leads to a platform", "it opens below the platform, into solid ground", WALK+'''
from redeclipse.prefabs.egypt import stair_toplatform as c
assert crossed(c)
''')
B('I08','C31',[(PRE,"        def box_size():\n            if self._randflags[2]:\n                return FineVector(\n                    random.randint(4, 7),\n                    random.randint(4, 7),\n                    random.randint(4, 7)\n                )","        def box_size():\n            if self._randflags[2]:\n                return FineVector(\n                    random.choice([4, 5, 6, 7]),\n                    random.choice([4, 5, 6, 7]),\n                    random.choice([4, 5, 6, 7])\n                )"),
  (PRE,"        self.x('rectangular_prism', world, FineVector(-5, 7, 0), box_size(), tex=TEXMAN.get_c('accent'))","        size = box_size()\n        if size.z == 7 and size.x == 7:\n            self.x('rectangular_prism', world, FineVector(-5, 15, 0), FineVector(14, 1, 7), tex=TEXMAN.get_c('accent'))\n        self.x('rectangular_prism', world, FineVector(-5, 7, 0), size, tex=TEXMAN.get_c('accent'))")],
 "a block of the largest width and height in the room of blocks", "the block stretches across the northern doorway", WALK+'''
from redeclipse.prefabs import ImposingBlockRoom as c
for s in range(80):
    assert crossed(c, 0, (True, False, True), s), s
''')
B('I09','C31',[(CAS,"{'orientation': EAST, 'offset': (EAST * 5) + (NORTH * 2) + ABOVE},\n        {'orientation': NORTH, 'offset': (NORTH * 5) + ABOVE + (EAST * 2)},","{'orientation': EAST, 'offset': (EAST * 5) + (NORTH * 2) + ABOVE},\n        {'orientation': NORTH, 'offset': (NORTH * 5) + (EAST * 2)},")],
 "the northern doorway of the large castle", "it opens below the floor of the castle", WALK+'''
from redeclipse.prefabs.castle import castle_large as c
assert crossed(c)
''')
B('I10','C31',[(PRE,"            self.x('low_wall', world, SELF, NORTH)\n            self.x('low_wall', world, SELF, SOUTH)","            self.x('low_wall', world, SELF, NORTH)\n            self.x('low_wall' if not self._randflags[0] else 'wall', world, SELF, SOUTH if not self._randflags[0] else EAST, tex=floor_tex)")],
 "the corridor with a roof and low walls", "the second wall stands across the corridor", WALK+'''
from redeclipse.prefabs import Corridor2way as c
for f in itertools.product([True, False], repeat=2):
    assert crossed(c, flags=f), f
''')
