_ns={}
exec(compile(open('/tmp/plant/bugs1.py').read().split("BUGS=[]")[0],'mk','exec'),_ns)
MK=_ns['MK']
BUGS=[]
def B(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
R='redeclipse/'; INIT=R+'__init__.py'; ENT=R+'entities/__init__.py'; OB=R+'objects.py'; VX=R+'voxel/__init__.py'
V=R+'vector/__init__.py'; CK=R+'prefabs/construction_kit.py'; MG=R+'prefabs/magica.py'; P=R+'prefabs/__init__.py'
U=R+'upm.py'; TX=R+'textures/__init__.py'; BT=R+'textures/basetex.py'; AE=R+'aftereffects.py'; L=R+'lighting/__init__.py'
CLI=R+'cli/__init__.py'; GEN=R+'cli/magica_rooms.py'

B('E01','C01',[(INIT,"            self._write_int_as_chr(handle, c.surfmask)\n","            self._write_int_as_chr(handle, c.surfmask & 0x3F)\n")],
 "a cube whose surface mask uses the two highest bits", "those bits are lost when the map is written", MK+'''
node = bytes([2 | 0x20]) + H(1, 2, 3, 4, 5, 6) + bytes([0xC0, 0])
d = raw(tree=node + EMPTY * 7)
assert rt(d)[1] == d
''')
B('E02','C01',[(INIT,"        self._write_int(handle, self.headersize)\n","        self._write_int(handle, 48 if self.version >= 43 else self.headersize)\n")],
 "a map of a recent version with a header size other than the usual one", "the header size is normalised", MK+'''
d = bytearray(raw()); d[8:12] = I(52)
assert rt(bytes(d))[1] == bytes(d)
''')
B('E03','C01',[(INIT,"                    self._write_char(handle, surfinfo.numverts)\n","                    self._write_char(handle, surfinfo.numverts & 0x70)\n")],
 "a surface with the layer bit 128 set and no vertices", "the layer bit is lost", MK+'''
node = bytes([2 | 0x20]) + H(1, 2, 3, 4, 5, 6) + bytes([1, 0, 2, 0, 0, 0x80])
d = raw(tree=node + EMPTY * 7)
assert rt(d)[1] == d
''')
B('E04','C02',[(INIT,"                links.append(self._read_int())\n","                links.append(abs(self._read_int()))\n"),
  (INIT,"            for ln in ent.links:\n","            for ln in ent.links:  # noqa\n")],
 "an entity with a negative link", "the link loses its sign", MK+'''
m, o = rt(raw(ents=[ent(4, 4, 4, 1, [64, 1, 2, 3, 0, 0], links=[-1])]))
assert m.ents[0].links == [-1], m.ents[0].links
''')
B('E05','C02',[(INIT,"            texmru.append(self._read_ushort())\n","            slot = self._read_ushort()\n            if slot not in texmru[-1:]:\n                texmru.append(slot)\n")],
 "a texture history that names the same slot twice in a row", "the repetition is dropped", MK+'''
m, o = rt(raw(mru=[3, 3, 4]))
assert m.texmru == [3, 3, 4], m.texmru
''')
B('E06','C03',[(INIT,"        for ent in ents:\n            # (x, y","        for ent in OrderedDict.fromkeys(ents):\n            # (x, y")],
 "a map whose entity list holds the same entity object twice", "it is written once, while the header announces two", MK+'''
from redeclipse.entities import Sunlight
m, o = rt(raw())
s = Sunlight(); m.ents += [s, s]
p = os.path.join(T, 'b.mpz'); m.write(p)
assert len(get(p)) == len(o) + 2 * (len(ent(0, 0, 0, 25, [0] * 8))), len(get(p)) - len(o)
''')
B('E07','C03',[(INIT,"            self._write_int(handle, len(var_name))\n","            self._write_int(handle, len(key))\n")],
 "a variable whose str name has non-ASCII letters", "the announced length of the name is its number of characters, not of bytes", MK+'''
from redeclipse import MapParser
m, o = rt(raw())
m.map_vars['gr\\u00f6\\u00dfe'] = 3; m.map_vars['other'] = 4
p = os.path.join(T, 'b.mpz'); m.write(p)
q = MapParser().read(p)
assert list(q.map_vars.items()) == [('gr\\u00f6\\u00dfe'.encode(), 3), (b'other', 4)], q.map_vars
''')
B('E08','C03',[(INIT,"            if isinstance(t, TextNum):\n                self._write_ushort(handle, t.value)\n            else:\n                self._write_ushort(handle, t)\n",
  "            if isinstance(t, TextNum):\n                self._write_ushort(handle, t.value)\n            else:\n                self._write_ushort(handle, t or c.texture[0])\n")],
 "a cube with the sky texture (0) on some faces only", "those faces get the texture of the first face", MK+'''
d = raw(tree=bytes([2]) + H(5, 0, 5, 0, 7, 0) + EMPTY * 7)
assert rt(d)[1] == d
''')
B('E09','C04',[(INIT,"        if magic not in (b'MAPZ', b'BFGZ'):\n","        if magic not in b'MAPZ BFGZ':\n")],
 "a file whose magic is a part of the joined names, like 'APZ '", "the file is accepted", MK+'''
from redeclipse import MapParser
try: MapParser().read(put(b'APZ ' + raw()[4:]))
except Exception: sys.exit(0)
raise SystemExit('accepted')
''')
B('E10','C04',[(INIT,"        val = self._read_custom('B', 1)[0]\n        return val\n","        val = self.bytes[self.index:self.index + 1] or b'\\0'\n        self.index += 1\n        return val[0]\n")],
 "a map cut within the single bytes that end its last octree node (merge or surface data)", "the missing bytes are taken to be zero", MK+'''
from redeclipse import MapParser
node = bytes([2 | 0x80]) + H(1, 2, 3, 4, 5, 6) + bytes([9])
d = raw(tree=EMPTY * 7 + node)
try: MapParser().read(put(d[:-1]))
except Exception: sys.exit(0)
raise SystemExit('accepted')
''')
B('E11','C05',[(ENT,"    def __init__(self, xyz, yaw=0, pitch=45, force=150, maxrad=0, minrad=0, type=0, links=None, reserved=None):\n        xyz = xyz.fine() * 4\n","    def __init__(self, xyz, yaw=0, pitch=45, force=150, maxrad=0, minrad=0, type=0, links=None, reserved=None):\n        xyz = xyz.fine().vox() * 4\n")],
 "a pusher at a position that is not a whole voxel", "it is moved to the corner of its voxel", '''
from redeclipse.entities import Pusher
from redeclipse.vector import FineVector
assert Pusher(FineVector(1.5, 2.5, 3.25)).serialize()[:3] == [6, 10, 13]
''')
B('E12','C05',[(R+'entities/weapon.py',"            3, flags, modes, muts, id\n        ]\n        self.links = [] if links is None else links\n        self.reserved = [0, 0, 0] if reserved is None else reserved\n","            3, flags, modes, muts, id\n        ]\n        self.links = [] if links is None else links\n        self.reserved = Shotgun._plain if reserved is None else reserved\n"),
  (R+'entities/weapon.py',"class Shotgun(Entity):\n","class Shotgun(Entity):\n    _plain = [0, 0, 0]\n")],
 "changing the reserved bytes of one of two shotguns", "all shotguns share their reserved bytes", '''
from redeclipse.entities.weapon import Shotgun
from redeclipse.vector import FineVector
a, b = Shotgun(FineVector(1, 1, 1)), Shotgun(FineVector(2, 2, 2))
a.reserved[0] = 7
assert b.reserved == [0, 0, 0]
''')
B('E13','C06',[(OB,"            'material': self.material,\n","            'material': self.material or None,\n")],
 "a cube that carries the material 0 (air with the material flag)", "the export says it has none", MK+'''
import json
m, o = rt(raw(tree=bytes([2 | 0x40]) + H(1, 2, 3, 4, 5, 6) + H(0) + EMPTY * 7))
assert json.loads(m.to_json())['world'][0]['material'] == 0
''')
B('E14','C06',[(INIT,"        for (key, value) in data['meta']:\n            meta[key] = value\n","        for (key, value) in data['meta']:\n            meta[key] = value\n        meta['numvslots'] = len(data['vslots'])\n        meta['blendmap'] = int(bool(meta['blendmap']))\n")],
 "a map with an unusual blendmap value", "importing the exported map reduces the value to 0 or 1", MK+'''
import json
from redeclipse import Map
d = bytearray(raw()); d[28:32] = I(5)
m, o = rt(bytes(d)); assert o == bytes(d)
n = Map.from_dict(json.loads(m.to_json()))
assert n.meta['blendmap'] == 5, n.meta
''')
B('E15','C07',[(VX,"        log.debug(\"del_point (%d, %d, %d)\", x, y, z)\n        if (x, y, z) in self.world:\n            del self.world[x, y, z]\n","        log.debug(\"del_point (%d, %d, %d)\", x, y, z)\n        if (x, y, z) in self.world:\n            del self.world[x, y, z]\n            if z == self.zmax and z > 0 and self.world:\n                self.zmax = max(0, max(p[2] for p in self.world))\n")],
 "deleting the highest voxel", "the recorded upper bound goes back", '''
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(8); w.set_point(1, 1, 1, 1); w.set_point(2, 2, 5, 1); w.del_point(2, 2, 5)
assert w.zmax == 5
''')
B('E16','C08',[(VX,"        if x_bounds[1] - x_bounds[0] == 1:\n","        if x_bounds[0] > 0 and x_bounds[1] - x_bounds[0] == self.size // 2 and self.xmax == x_bounds[0]:\n            return None\n        if x_bounds[1] - x_bounds[0] == 1:\n")],
 "a world whose voxels reach just the first layer of its upper half", "that layer is dropped", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(8); c = cube.newtexcube(); w.set_point(4, 1, 1, c)
r = w.to_octree()
assert r[1].children, r[1].octsav
''')
B('E17','C09',[(INIT,"    def _write_ushort(self, handle, value):\n        handle.write(struct.pack('H', value))\n","    def _write_ushort(self, handle, value):\n        handle.write(struct.pack('H', value & 0x7FFF))\n")],
 "a texture slot or material of 32768 and above", "the highest bit is lost", MK+'''
d = raw(tree=bytes([2]) + H(40000, 1, 2, 3, 4, 5) + EMPTY * 7)
assert rt(d)[1] == d
''')
B('E18','C10',[(V,"                if self.z < other.z:\n","                if self.z <= other.z:\n")],
 "comparing equal vectors with <", "a vector is smaller than itself", '''
from redeclipse.vector import FineVector
assert not FineVector(1, 2, 3) < FineVector(1, 2, 3)
''')
B('E19','C10',[(V,"        return self.__class__(floor(self.x), floor(self.y), floor(self.z))\n","        return self.__class__(int(self.x), int(self.y), int(self.z))\n")],
 "rounding a vector with negative half-integer coordinates", "they are rounded towards zero", '''
from redeclipse.vector import FineVector
assert FineVector(-0.5, -3.5, 1).vox() == FineVector(-1, -4, 1)
''')
B('E20','C10',[(V,"""            tmp = other.fine()
            return \\
                self.x == tmp.x and \\
                self.y == tmp.y and \\
                self.z == tmp.z
""","""            tmp = self.coarse()
            return \\
                other.x == tmp.x and \\
                other.y == tmp.y and \\
                other.z == tmp.z
""")],
 "comparing a fine vector inside a cell with the cell's coarse vector", "they are equal in one direction", '''
from redeclipse.vector import FineVector, CoarseVector
assert not FineVector(9, 8, 8) == CoarseVector(1, 1, 1)
''')
B('E21','C11',[(CK,"        if prob < 1:\n","        if prob < 0.99:\n")],
 "a probability of 0.99", "everything is painted", '''
import random
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector, CoarseVector
random.seed(1); w = VoxelWorld(64)
Room(CoarseVector(0, 0, 0)).x('rectangular_prism', w, FineVector(0, 0, 0), FineVector(20, 20, 20), prob=0.99)
assert len(w.world) < 8000
''')
B('E22','C11',[(CK,"            if subtract_or_skip(subtract, prob):\n                world.del_pointv(point)\n                continue\n","            if subtract_or_skip(subtract, prob):\n                if subtract:\n                    world.del_pointv(point)\n                continue\n")],
 "painting with a probability below one over existing voxels", "skipped voxels of the shape keep what was there", '''
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector, CoarseVector
w = VoxelWorld(64); w.set_point(3, 3, 0, 'old')
Room(CoarseVector(0, 0, 0)).x('floor', w, FineVector(0, 0, 0), prob=0.0)
assert w.world == {}, w.world
''')
B('E23','C12',[(R+'magicavoxel/reader.py',"            self.c = self._io.read_u1()\n","            self.c = self._io.read_u1() & 0x7F\n")],
 "a model that uses colour numbers of 128 and above", "they select colours of the lower half of the palette", '''
import io, struct
from redeclipse.magicavoxel.reader import Magicavoxel
p = struct.pack
d = b'SIZE' + p('<5i', 12, 0, 4, 4, 4) + b'XYZI' + p('<3i', 8, 0, 1) + bytes([1, 2, 3, 200]) + b'RGBA' + p('<2i', 1024, 0) + bytes(1024)
m = Magicavoxel.from_bytes(b'VOX ' + p('<i', 150) + b'MAIN' + p('<2i', 0, len(d)) + d)
assert m.model_voxels.voxels[0].c == 200
''')
B('E24','C13',[(P,"            {'orientation': NORTH, 'offset': NORTHWEST + NORTH + ABOVE},\n            {'orientation': WEST, 'offset': NORTHWEST + WEST + ABOVE},\n","            {'orientation': NORTH, 'offset': NORTHWEST + NORTH + ABOVE},\n            {'orientation': SOUTH, 'offset': NORTHWEST + WEST + ABOVE},\n")],
 "the upper western doorway of the multi platform", "the doorway faces along the room instead of out of it", '''
from redeclipse.prefabs import MultiPlatform
from redeclipse.vector import CoarseVector
r = MultiPlatform(CoarseVector(9, 9, 9)); cells = set(r.get_positions())
for d in r.get_doorways(): assert d['offset'] - d['orientation'] in cells, d
''')
B('E25','C14',[(U,"        self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]\n","        self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p != used[0]]\n")],
 "a room of several cells that covers an open doorway with a cell other than its first", "the doorway stays in the list of open doorways", '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Corridor4way, NLongCorridor
from redeclipse.vector import CoarseVector
u = UnusedPositionManager(256)
u.register_room(Corridor4way(CoarseVector(10, 10, 10)))
u.register_room(NLongCorridor(CoarseVector(6, 11, 10), randflags=[True, True, True, True]))
u.register_room(NLongCorridor(CoarseVector(8, 9, 10), randflags=[True, True, True, True]))
for p, r, o in u.unoccupied: assert p not in u.occupied, p
''')
B('E26','C14',[(U,"            added_occupied = added_occupied.union(set(used))\n","            added_occupied = set(used)\n")],
 "four-fold mirroring and a room bent around the centre, whose opposite copies overlap while neighbouring ones do not", "the room is reported placeable", '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
class Bow(Room):
    def _get_positions(self): return [CoarseVector(1, 0, 0), CoarseVector(1, 0, 1), CoarseVector(0, 0, 1), CoarseVector(-1, 0, 1), CoarseVector(-1, 0, 0)][:1] + [CoarseVector(-1, 0, 0)]
u = UnusedPositionManager(256, mirror=4)
assert not u.preregister_room(Bow(CoarseVector(16, 16, 10)))
''')
B('E27','C15',[(U,"                    self.register_link(prev_room, r)\n","                    if room_count <= rooms:\n                        self.register_link(prev_room, r)\n")],
 "a mirrored placement of a number of rooms that is not a multiple of the mirror count", "the last rooms have no link", '''
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Corridor4way
from redeclipse.vector import CoarseVector
random.seed(1)
u = UnusedPositionManager(256, mirror=2)
u.register_room(Corridor4way(CoarseVector(6, 6, 6)))
u.place_rooms(False, [Corridor4way], rooms=3)
assert len(u.links) == len(u.rooms) - 2, (len(u.links), len(u.rooms))
''')
B('E28','C16',[(U,"            room_copy.orientation = room_copy.orientation.rotate(orientation)\n","            room_copy.orientation = room_copy.orientation.rotate(orientation if self.mirror == 2 else -orientation)\n")],
 "four-fold mirroring of a room that is not symmetric", "the second and fourth copy face the wrong way", '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Stair
from redeclipse.vector import CoarseVector
u = UnusedPositionManager(256, mirror=4)
u.register_room(Stair(CoarseVector(6, 6, 6)))
assert [r.orientation for r in u.rooms] == [u.rooms[0].orientation.rotate(d) for d in (0, 90, 180, 270)]
''')
B('E29','C17',[(U,"            for orientation in random.sample(CARDINALS, 4):\n","            for orientation in random.sample(CARDINALS, 3):\n")],
 "a room that fits a doorway in one orientation only", "one orientation, chosen at random, is not tried", '''
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Corridor4way, Stair
from redeclipse.vector import CoarseVector
for seed in range(40):
    random.seed(seed)
    u = UnusedPositionManager(256); u.register_room(Corridor4way(CoarseVector(10, 10, 10)))
    p, r, o = u.unoccupied[0]
    assert len(list(u.room_localization([Stair], p, r, o))) == 2, seed
''')
B('E30','C19',[(U,"        minimum_prob = min([probs.get(room.room_type, 0.1) for room in room_options])\n","        minimum_prob = max(0.1, min([probs.get(room.room_type, 0.1) for room in room_options]))\n")],
 "a candidate with a transition probability below 0.1", "it is lost from the stream", '''
from redeclipse.upm import UnusedPositionManager
class C:
    def get_transition_probs(self): return {'a': 0.01, 'b': 1}
class A: room_type = 'a'
class D: room_type = 'b'
assert set(UnusedPositionManager(256).random_room_stream(C(), [A, D])) == {A, D}
''')
B('E31','C18',[(U,"                if not all([self.is_legal(pos) for pos in r.get_positions()]):\n","                if not self.is_legal(r.pos):\n")],
 "an endcap of several cells at a doorway near the edge of the map", "the endcap reaches beyond the map", '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Corridor4way, Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST, SELF, WEST
class Long(Room):
    def _get_positions(self): return [SELF, EAST, EAST * 2]
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
u = UnusedPositionManager(256)
u.register_room(Corridor4way(CoarseVector(2, 2, 2)))
u.endcap(possible_endcaps=[Long])
assert all(u.is_legal(p) for p in u.occupied), [p for p in u.occupied if not u.is_legal(p)]
''')
B('E32','C18',[(U,"                if not all([pos not in self.occupied.keys() for pos in r.get_positions()]):\n                    continue\n","                if any([pos in self.occupied.keys() for pos in r.get_positions()[:2]]):\n                    continue\n"),
  (U,"        for position in used:\n            if position in self.occupied.keys() and not self.noclip:\n                raise","        for position in used[:2]:\n            if position in self.occupied.keys() and not self.noclip:\n                raise")],
 "an endcap of three or more cells whose last cell is taken", "the endcap overlaps another room", '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Corridor4way, Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST, SELF, WEST
class Long(Room):
    def _get_positions(self): return [SELF, EAST, EAST * 2]
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
class Block(Room):
    def _get_doorways(self): return []
u = UnusedPositionManager(256)
u.register_room(Corridor4way(CoarseVector(10, 10, 2)))
u.register_room(Block(CoarseVector(13, 10, 2)))
u.endcap(possible_endcaps=[Long])
assert sum(len(r.get_positions()) for r in u.rooms) == len(u.occupied)
''')
B('E33','C19',[(P,"            mutateIdx = random.randint(0, len(mutatedOpts) - 1)\n","            mutateIdx = random.randrange(max(1, len(mutatedOpts) - 1))\n")],
 "attaching rooms of one kind to each other many times", "the last flag never changes", '''
import random
from redeclipse.prefabs import NLongCorridor
from redeclipse.vector import CoarseVector
random.seed(3); r = NLongCorridor(CoarseVector(5, 5, 5))
assert any(NLongCorridor.randOpts(r)['randflags'][3] != r._randflags[3] for _ in range(200))
''')
B('E34','C19',[(U,"        r = random.uniform(0, total)\n","        r = random.uniform(0, int(total) or total)\n")],
 "weights whose sum is not an integer", "the last choices come up too rarely", '''
import random
from redeclipse.upm import UnusedPositionManager
random.seed(3)
n = sum(UnusedPositionManager.weighted_choice([('a', 1), ('b', 0.5)]) == 'b' for _ in range(3000))
assert n > 700, n
''')
B('E35','C19',[(P,"                opts.append(random.uniform(0, 1) > 0.5)\n","                opts.append(random.uniform(0, 1) > 0.5 and (i < 3 or random.random() < 0.8))\n")],
 "the fourth and later flags of a room's random options, counted over many draws", "they are set less often than others", '''
import random
from redeclipse.prefabs import NLongCorridor
random.seed(3)
n = sum(NLongCorridor.randOpts(None)['randflags'][3] for _ in range(4000))
assert 1850 < n < 2150, n
''')
B('E36','C20',[(GEN,"    random.seed(seed)\n","    random.seed(seed & 0xFFFF)\n")],
 "two seeds that differ by a multiple of 65536", "they give the same map", '''
import random
from redeclipse.cli import magica_rooms as M
class Stop(Exception): pass
def parse(n): raise Stop
M.parse = parse
class F: name = 'x'
def first(seed):
    try: M.main(F, seed=seed)
    except Stop: return random.random()
assert first(5) != first(5 + 65536)
''')
B('E37','C20',[(GEN,"    mymap.ents.append(sunlight)\n","    mymap.ents.append(sunlight)\n    mymap.meta['revision'] = int(time.time()) & 0xFFFF\n"),(GEN,"import random\nimport logging\n","import random\nimport time\nimport logging\n")],
 "running the generator at different times", "the map carries the time it was made at", '''
import glob, time
from redeclipse.cli import magica_rooms as M
def go(t):
    time.time = lambda: t
    with open(sorted(glob.glob('maps/empty*.mpz'))[0]) as h:
        return M.main(h, seed=1, rooms=0, mirror=1)[1].meta['revision']
assert go(1000) == go(2000)
''')
B('E39','C22',[(TX,"            for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n                handle.write(tex.conf(idx=idx))\n","            for idx, (tex_key, tex) in enumerate(sorted(self.atlas.items(), key=lambda item: str(item[0]))):\n                handle.write(tex.conf(idx=idx))\n")],
 "more than ten textures in use", "the slots are declared in the order 0, 1, 10, 11, 2, ...", '''
import tempfile, os
from redeclipse.textures import AutomatedMagicaTextureManager
t = AutomatedMagicaTextureManager()
for i in range(12): t.get_colour(i / 255, 0, 0)
with tempfile.TemporaryDirectory() as d:
    class F: name = os.path.join(d, 'a.mpz')
    t.emit_conf(F)
    c = [l.split()[1] for l in open(os.path.join(d, 'a.cfg')) if l.startswith('texcolor')]
assert c == [str(i / 255) for i in range(12)], c
''')
B('E40','C22',[(BT,"texcolor {0.r} {0.g} {0.b}\n","texcolor {0.r:.2f} {0.g:.2f} {0.b:.2f}\n")],
 "colours that differ in the third decimal", "their slots are declared with the same colour", '''
from redeclipse.textures import AutomatedMagicaTextureManager
t = AutomatedMagicaTextureManager()
a, b = t.atlas[t.get_colour(101 / 255, 0, 0)], t.atlas[t.get_colour(102 / 255, 0, 0)]
line = lambda x: [l for l in x.conf(idx=0).splitlines() if 'texcolor' in l]
assert line(a) != line(b)
''')
B('E41','C23',[(AE,"                if sum([xa, ya, za, xb, yb, zb]) > 1:\n","                if sum([xa, ya, za, xb, yb, zb]) == 2:\n")],
 "the corners of the outlined box", "they stay open", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.aftereffects import box_outline
w = VoxelWorld(8); box_outline(w)
assert w.get_point(0, 0, 0) is not None
''')
B('E42','C23',[(AE,"        return (x % size == 0 and y % size == 0) or \\\n            (z % size == 0 and y % size == 0) or \\\n            (z % size == 0 and x % size == 0)\n","        return (x % size == 0 and y % size == 0) or \\\n            (z % size == 0 and y % size == 0) or \\\n            (z % 24 == 0 and x % size == 0)\n")],
 "a grid with a spacing other than the default", "one family of its lines keeps the default spacing", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.aftereffects import grid
w = VoxelWorld(16); w.set_point(15, 15, 15, 1); grid(w, size=4)
assert w.get_point(4, 1, 4) is not None
''')
B('E43','C24',[(L,"        self._world_size_factor = world_size / 2 ** 6\n","        self._world_size_factor = max(1, world_size // 2 ** 6)\n")],
 "a light manager for a world whose size is not a multiple of 64", "lights are placed by the next smaller size", '''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
class M: ents = []
LightManager(world_size=96).light(M, FineVector(92, 0, 0))
assert abs(M.ents[0].o.x - 1024) < 1, M.ents[0].o.x
''')
B('E44','C24',[(L,"int(255 * min(self.brightness, 1.0)))\n        print","int(255 * self.brightness))\n        print")],
 "a brightness above one", "colour components exceed 255", '''
import io, contextlib
from redeclipse.lighting import PositionBasedLightManager
from redeclipse.vector import FineVector
with contextlib.redirect_stdout(io.StringIO()):
    c = PositionBasedLightManager(brightness=1.5).hue(FineVector(10, 20, 30))
assert max(c) <= 255, c
''')
B('E45','C25',[(GEN,"    mymap.ents.append(sunlight)\n","    if not any(type(e.type).__name__ == 'EntType' and e.type == sunlight.type for e in mymap.ents):\n        mymap.ents.append(sunlight)\n")],
 "an input map that already has a sunlight", "the generator's sunlight is missing", '''
import glob, os, tempfile
from redeclipse import MapParser
from redeclipse.entities import Sunlight
from redeclipse.cli import magica_rooms as M
m = MapParser().read(sorted(glob.glob('maps/empty*.mpz'))[0]); m.ents = [Sunlight()]
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.mpz'); m.write(p)
    with open(p) as h: out = M.main(h, seed=1, rooms=0, mirror=1)[1]
n = sum(e.type == m.ents[0].type for e in out.ents)
assert n == 2, n
''')
B('E46','C25',[(INIT,"        self.cfg_extra = []\n","        self.cfg_extra = self._no_extra\n"),(INIT,"    def __init__(self, magic, version, headersize, meta, map_vars,","    _no_extra = []\n\n    def __init__(self, magic, version, headersize, meta, map_vars,")],
 "two maps in one process, one of them with flavours", "the flavours of one map show in the configuration of the other", MK+'''
from redeclipse import MapParser, worldflavors
p = put(raw())
a, b = MapParser().read(p), MapParser().read(p)
worldflavors.update(a, ['maliwan'])
assert b.cfg_extra == [], b.cfg_extra
''')
B('E47','C25',[(CLI,"            for line in mymap.cfg_extra:\n","            for line in dict.fromkeys(mymap.cfg_extra):\n")],
 "a flavour that is requested twice", "its lines are listed once", '''
import os, tempfile
from redeclipse import cli
class T:
    def emit_conf(self, f): open(f.name.replace('.mpz', '.cfg'), 'w').close()
    def copy_data(self): pass
class P: TEXMAN = T()
class W:
    def to_octree(self): return []
class M:
    cfg_extra = ['a', 'b', 'a']
    def write(self, p): pass
with tempfile.TemporaryDirectory() as d:
    class F: name = os.path.join(d, 'x.mpz')
    class A: magica = None; mpz_out = F; graph = None
    cli.output(W(), M(), None, P, A)
    got = open(os.path.join(d, 'x.cfg')).read().split()
assert got == ['a', 'b', 'a'], got
''')
B('E49','C14',[(U,"            0 <= position.z < 32\n","            0 <= position.z <= 32\n")],
 "a room at the very top of the map", "rooms are placed one level above the map", '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Corridor2way
from redeclipse.vector import CoarseVector
assert not UnusedPositionManager(256).preregister_room(Corridor2way(CoarseVector(10, 10, 32)))
''')
B('E50','C10',[(V,"        return (0 << 31) + (floor(self.x) << 20) + (floor(self.y) << 10) + floor(self.z)\n","        return hash((str(self.x), str(self.y), str(self.z)))\n")],
 "equal plain vectors, one with integer and one with float coordinates", "their hashes differ", '''
from redeclipse.vector import BaseVector
assert hash(BaseVector(1, 2, 3)) == hash(BaseVector(1.0, 2.0, 3.0))
''')
B('E51','C10',[(V,"            floor(self.x / m),\n            floor(self.y / m),\n            floor(self.z / m)\n","            floor(self.x / m),\n            floor(self.y / m),\n            int(self.z / m)\n")],
 "floor division of a vector with a negative height", "it is rounded towards zero", '''
from redeclipse.vector import CoarseVector
assert (CoarseVector(-3, -3, -3) // 2) == CoarseVector(-2, -2, -2)
''')
B('E52','C15',[(U,"        for orientation in self.mirror_rotations:\n            yield (\n","        for orientation in [0, 180, 90, 270] if self.mirror == 4 and room.orientation.z else self.mirror_rotations:\n            yield (\n"),
  (U,"        for ((pos_a, ori_a), (pos_b, ori_b)) in zip(\n            self._yield_mirrored_positions(room_a),\n            self._yield_mirrored_positions(room_b)\n        ):\n            self.links.append((pos_a, pos_b))\n","        for ((pos_a, ori_a), (pos_b, ori_b)) in zip(\n            self._yield_mirrored_positions(room_a),\n            self._yield_mirrored_positions(room_b)\n        ):\n            if pos_a != pos_b and (pos_b, pos_a) not in self.links and len(self.links) < 64:\n                self.links.append((pos_a, pos_b))\n")],
 "a layout of more than 64 links", "further links are not recorded", '''
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Corridor4way
from redeclipse.vector import CoarseVector
random.seed(1)
u = UnusedPositionManager(256, mirror=4)
u.register_room(Corridor4way(CoarseVector(6, 6, 6)))
u.place_rooms(False, [Corridor4way], rooms=100)
assert len(u.links) == len(u.rooms) - 4, (len(u.links), len(u.rooms))
''')
