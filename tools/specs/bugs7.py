exec(compile(open('/tmp/plant/bugs4.py').read().split("B('G01'")[0],'hdr','exec'))
BUGS.clear()
PRE=R+'prefabs/__init__.py'; CAS=R+'prefabs/castle/__init__.py'; STA=R+'prefabs/spacestation/__init__.py'; MAG=R+'prefabs/magica.py'; EGY=R+'prefabs/egypt/__init__.py'
ROOM='''
import random, itertools, glob
from redeclipse import MapParser
import redeclipse.prefabs as P
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST, NORTH, WEST, SOUTH
from redeclipse.voxel import VoxelWorld
def I(p): return tuple(int(c) for c in p)
def mk(c, flags=None, k=0):
    kw = {'randflags': list(flags)} if flags is not None else {}
    return c(pos=CoarseVector(10, 10, 6), orientation=[EAST, NORTH, WEST, SOUTH][k], **kw)
def show(r):
    """voxels, entities by type number, cells, doorways; all relative to the room"""
    w = VoxelWorld(size=256)
    m = MapParser().read(sorted(glob.glob('maps/empty*.mpz'))[0]); m.ents = []
    r.render(w, m)
    o = I(r.pos)
    vox = {tuple(a - 8 * b for a, b in zip(I(p), o)) for p in w.world}
    ents = [e.type.value for e in m.ents]
    return vox, ents, {tuple(a - b for a, b in zip(I(p), o)) for p in r.get_positions()}, r.get_doorways()
'''
B('J01','C32',[(PRE,"        self.length = 1 + (la << 1 | lb)","        self.length = 1 + la + lb + (la & lb)")],
 "the long corridor with only its first option", "it is two cells long instead of three", ROOM+'''
for a, b in itertools.product((0, 1), repeat=2):
    assert len(show(mk(P.NLongCorridor, (bool(a), bool(b), True, True)))[2]) == 1 + 2 * a + b
''')
B('J02','C32',[(PRE,"        if self._randflags[0]:\n            self.length = 2","        if self._randflags[0]:\n            self.__class__.length = 2")],
 "a low vertical jump corridor made after a tall one", "it is tall as well", ROOM+'''
mk(P.JumpCorridorVerticalCenter, [True])
assert len(show(mk(P.JumpCorridorVerticalCenter, [False]))[2]) == 3
''')
B('J03','C32',[(PRE,"        # For bigger rooms, we have to shift them such that the previous_posision matches a doorway.\n        if randflags:","        # For bigger rooms, we have to shift them such that the previous_posision matches a doorway.\n        if randflags and any(randflags):")],
 "a large room made with all options off", "it gets the default options of its class", ROOM+'''
assert len(show(mk(P.CrossingWalkways, [False]))[2]) == 18
''')
B('J04','C32',[(PRE,"        if self._randflags[0]:\n            self.x('ceiling', world, SOUTHWEST + (ABOVE * (self._height - 1)), tex=floor_tex, size=24)\n\n        def box_size","        if self._randflags[0] and (self._height > 1 or self._randflags[2]):\n            self.x('ceiling', world, SOUTHWEST + (ABOVE * (self._height - 1)), tex=floor_tex, size=24)\n\n        def box_size")],
 "the low imposing block room with a roof and equal blocks", "it has no roof", ROOM+'''
assert (0, 0, 7) in show(mk(P.ImposingBlockRoom, [True, False, False]))[0]
''')
B('J05','C32',[(PRE,"        if self._randflags[2]:\n            prob = 0.7","        if self._randflags[2] and not self._randflags[1]:\n            prob = 0.7")],
 "the tall and dense digital room", "its ceiling and walls are mostly empty", ROOM+'''
random.seed(5)
v = show(mk(P.DigitalRoom, [True, True, True]))[0]
assert sum(z == 15 for x, y, z in v) > 288
''')
B('J06','C32',[(STA,"        elif ent == 'grenade':\n            e = Grenade(\n                xyz=weap_pos\n            )\n\n        xmap.ents.append(e)","        elif ent == 'grenade':\n            e = Grenade(\n                xyz=weap_pos\n            )\n            if self.pos.z > 12:\n                return\n\n        xmap.ents.append(e)")],
 "an endcap of the station high above the ground that draws a grenade", "it is left empty", ROOM+'''
from redeclipse.prefabs.spacestation import station_endcap
for s in range(12):
    random.seed(s)
    e = show(station_endcap(pos=CoarseVector(10, 10, 20), orientation=EAST))[1]
    assert len([t for t in e if t != 1]) == 1, e
''')
B('J07','C32',[(PRE,"            if not self._randflags[2] and self._randflags[4]:","            if self._randflags[2] <= self._randflags[4] and not (self._randflags[2] and self._randflags[4]):")],
 "the ring room without inner rings and without their offset", "it has inner rings", ROOM+'''
v = show(mk(P.ImposingRingRoom, [True, True, False, True, False]))[0]
assert (-2, -2, 1) not in v
''')
B('J08','C32',[(PRE,"    def light(self, xmap):\n        for i in range(self._height):","    def light(self, xmap):\n        for i in range(type(self)._height):")],
 "the crossing walkways of three levels", "the third walkway has no light", ROOM+'''
assert show(mk(P.CrossingWalkways, [True]))[1].count(1) == 3
''')
B('J09','C32',[(PRE,"        if self._randflags[0]:\n            self.x('floor', world, SOUTHWEST, tex=tex1, size=24)\n\n        # Corners","        if self._randflags[0] and tex1 != tex2 or self._randflags[0] and self.orientation in (EAST, WEST, NORTH):\n            self.x('floor', world, SOUTHWEST, tex=tex1, size=24)\n\n        # Corners")],
 "the multi platform facing south", "its floor is missing", ROOM+'''
for k in range(4):
    v = show(mk(P.MultiPlatform, [True], k))[0]
    assert sum(z == 0 for x, y, z in v) >= 576, k
''')
B('J10','C32',[(PRE,"            {'orientation': EAST, 'offset': EAST},\n        ]\n        if self._randflags[0]:\n            doors += [","            {'orientation': EAST, 'offset': EAST},\n        ]\n        if self._randflags[0] or self.pos.z == 0:\n            doors += [")],
 "a closed spawn room on the ground", "it has a doorway through its back wall", ROOM+'''
r = P.SpawnRoom(pos=CoarseVector(10, 10, 0), orientation=EAST, randflags=[False])
assert len(r.get_doorways()) == 1
''')
