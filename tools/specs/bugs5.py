exec(compile(open('/tmp/plant/bugs4.py').read().split("B('G01'")[0],'hdr','exec'))
BUGS.clear()
RT=R+'cli/magicavoxel_room_test.py'; EGY=R+'prefabs/egypt/__init__.py'; DUN=R+'prefabs/dungeon/__init__.py'
B('H01','C01',[(INIT,"        # Texmru\n        self._write_ushort(handle, len(self.texmru))  # nummru\n        for value in self.texmru:\n            self._write_ushort(handle, value)\n",
"        # Texmru\n        mru = [t for t in self.texmru if t < max(self.meta['numvslots'], 1)]\n        self._write_ushort(handle, len(mru))  # nummru\n        for value in mru:\n            self._write_ushort(handle, value)\n")],
 "a texture history that names a slot beyond the map's slots", "the entry is dropped when the map is written", MK+'''
d = raw(mru=[1, 7, 2], chg=(-3,))
m, o = rt(d); assert o == d
''')
B('H02','C01',[(INIT,"                    if surfinfo.verts == 0:\n                        continue","                    if surfinfo.verts == 0 or not surfinfo.totalverts():\n                        continue"),
 (INIT,"                    if not numverts:\n                        surf.verts = 0\n                        continue","                    if not numverts:\n                        surf.verts = 0 if surf.numverts else surf.verts\n                        continue"),
 (INIT,"                    self._write_char(handle, surfinfo.lmid[1])\n                    self._write_char(handle, surfinfo.verts)","                    self._write_char(handle, surfinfo.lmid[1] if surfinfo.numverts else surfinfo.lmid[0])\n                    self._write_char(handle, surfinfo.verts)")],
 "a lit surface of no vertices and no layers whose two lightmaps differ", "the second lightmap is written as the first", MK+'''
n = bytes([2 | 0x20]) + H(1, 1, 1, 1, 1, 1) + bytes([1, 0]) + bytes([2, 5, 0, 0])
d = raw(tree=n + EMPTY * 7)
m, o = rt(d); assert o == d
''')
B('H03','C02',[(INIT,"            c.edges = self._read_custom('BBBBBBBBBBBB', 12)\n","            c.edges = self._read_custom('BBBBBBBBBBBB', 12)[::-1]\n"),
 (INIT,"            self._write_custom(handle, 'BBBBBBBBBBBB', c.edges)","            self._write_custom(handle, 'BBBBBBBBBBBB', c.edges[::-1])")],
 "a deformed cube", "reader and writer agree on the reverse order of the edges", MK+'''
n = bytes([3]) + bytes(range(1, 13)) + H(1, 1, 1, 1, 1, 1)
m, o = rt(raw(tree=n + EMPTY * 7))
assert tuple(m.world[0].edges) == tuple(range(1, 13))
''')
B('H04','C02',[(INIT,"            reserved = [\n                ord(a),\n                ord(b),\n                ord(c)\n            ]\n","            reserved = [\n                ord(a) & 0x7f,\n                ord(b),\n                ord(c)\n            ] if not ord(a) & 0x80 else [ord(a), ord(c), ord(b)]\n"),
 (ENT,"            [bytes([x]) for x in self.reserved]\n","            [bytes([x]) for x in (self.reserved if not self.reserved[0] & 0x80 else [self.reserved[0], self.reserved[2], self.reserved[1]])]\n")],
 "an entity whose first reserved byte has its top bit set", "the other two reserved bytes are exchanged in the parsed map", MK+'''
m, o = rt(raw(ents=[ent(1, 2, 3, 3, [0] * 6, res=(200, 1, 2))]))
assert list(m.ents[0].reserved) == [200, 1, 2]
''')
B('H05','C03',[(INIT,"        self.meta['numvars'] = len(self.map_vars)\n","        self.meta['numvars'] = len(self.map_vars) or self.meta['numvars']\n")],
 "a map all of whose variables are removed", "the count of the earlier variables is written", MK+'''
from redeclipse import MapParser
m = MapParser().read(put(raw(vars=[(b'a', 1)])))
m.map_vars.clear()
o = os.path.join(T, 'o.mpz'); m.write(o)
assert get(o) == raw()
''')
B('H06','C03',[(INIT,"            for at in ent.attrs:\n                self._write_int(handle, at)\n","            for at in ent.attrs:\n                self._write_int(handle, round(at) if isinstance(at, float) and at > 100 else at)\n")],
 "an entity attribute that is set to a large fraction", "it is rounded up where it used to be cut", MK+'''
from redeclipse import MapParser
m = MapParser().read(put(raw(ents=[ent(1, 2, 3, 3, [0] * 6)])))
m.ents[0].attrs[1] = 120.75
o = os.path.join(T, 'o.mpz'); m.write(o)
assert get(o) == raw(ents=[ent(1, 2, 3, 3, [0, 120, 0, 0, 0, 0])])
''')
B('H07','C04',[(INIT,"        if magic not in (b'MAPZ', b'BFGZ'):","        if magic.upper() not in (b'MAPZ', b'BFGZ'):")],
 "a file whose magic is in lower case", "it is read as a map", MK+'''
from redeclipse import MapParser
p = put(raw().replace(b'MAPZ', b'MapZ', 1))
try:
    MapParser().read(p)
except Exception:
    sys.exit(0)
raise SystemExit('read')
''')
B('H08','C04',[(INIT,"            if failed:\n                break\n        return cube_arr","            if self.index >= len(self.bytes) and indent:\n                break\n        return cube_arr"),
  (INIT,"    def _loadchildren(self, size, failed, indent=0):\n","    def _loadchildren(self, size, failed, indent=0):\n        if indent == 0:\n            self.total = len(self.bytes)\n")],
 "a map cut off between two cubes in the depth of its octree", "the missing cubes are taken to be empty", MK+'''
from redeclipse import MapParser
d = raw(tree=EMPTY * 7 + bytes([0]) + SOLID * 8)
p = put(d[:-len(SOLID) * 3])
try:
    MapParser().read(p)
except Exception:
    sys.exit(0)
raise SystemExit('read')
''')
B('H09','C05',[(ENT,"        self.type = EntType.ET_AFFINITY\n        self.attr_annotations = [\n            'team', 'yaw', 'pitch', 'modes', 'muts', 'id'\n        ]\n        self.attrs = [\n            team, yaw, pitch, modes, muts, id\n        ]","        self.type = EntType.ET_AFFINITY\n        self.attr_annotations = [\n            'team', 'yaw', 'pitch', 'modes', 'muts', 'id'\n        ]\n        self.attrs = [\n            team, yaw, pitch, modes or 2, muts, id\n        ]")],
 "a flag for every game mode (modes 0)", "it is made for mode 2 only", TMP+'''
from redeclipse.entities import TeamFlag
from redeclipse.vector import FineVector
assert TeamFlag(FineVector(1, 2, 3), modes=0).attrs[3] == 0
''')
B('H10','C05',[(ENT,"        self.o = ivec3(*(FineVector(*xyz) * 4))\n        self.type = EntType.ET_SUNLIGHT","        self.o = ivec3(*(FineVector(*[int(c) for c in xyz]) * 4))\n        self.type = EntType.ET_SUNLIGHT")],
 "a sun placed at a position between voxels", "its position is cut to whole voxels", TMP+'''
from redeclipse.entities import Sunlight
o = Sunlight(xyz=(1.5, 2.25, 3)).o
assert (o.x, o.y, o.z) == (6, 9, 12)
''')
B('H11','C06',[(ENT,"            xyz=FineVector(*d['position']) / 4,\n            type=EntType[d['type']],","            xyz=FineVector(*d['position']) // 4,\n            type=EntType[d['type']],")],
 "importing the export of a map with entities between voxels", "they are moved to whole voxels", MK+'''
import json
from redeclipse import Map
m, o = rt(raw(ents=[ent(5, 6, 7, 3, [0] * 6)]))
k = Map.from_dict(json.loads(m.to_json()))
o = k.ents[0].o
assert (o.x, o.y, o.z) == (5, 6, 7)
''')
B('H12','C07',[(VX,"    def get_point(self, x, y, z):\n        if (x, y, z) in self.world:","    def get_point(self, x, y, z):\n        if self.xmin <= x <= self.xmax and (x, y, z) in self.world and y >= 0:")],
 "a voxel at a negative y", "get_point does not find it", TMP+'''
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(8); w.set_point(1, -2, 3, 'a')
assert w.get_point(1, -2, 3) == 'a'
''')
B('H13','C07',[(VX,"    def del_pointv(self, xyz):\n        (x, y, z) = xyz\n        if (x, y, z) in self.world:\n            del self.world[x, y, z]\n","    def del_pointv(self, xyz):\n        (x, y, z) = xyz\n        if (x, y, z) in self.world:\n            del self.world[x, y, z]\n            if x == self.xmax and not any(p[0] == x for p in self.world):\n                self.xmax = max([p[0] for p in self.world] or [0])\n")],
 "deleting the voxel furthest east through a vector", "the boundary shrinks (it never does otherwise)", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
w = VoxelWorld(8); w.set_point(1, 2, 3, 'a'); w.set_point(5, 2, 3, 'b')
w.del_pointv(FineVector(5, 2, 3))
assert w.xmax == 5
''')
B('H14','C08',[(VX,"            return self.get_point(x_bounds[0], y_bounds[0], z_bounds[0])","            return self.get_point(x_bounds[0], y_bounds[0], z_bounds[0]) or (\n                self.size == 2 and self.get_point(x_bounds[0], y_bounds[0], z_bounds[0] - 1) or None)")],
 "a world of size 2", "voxels are doubled upwards", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(2); w.set_point(0, 0, 0, cube.newtexcube(tex=3))
assert [c.octsav & 7 for c in w.to_octree()].count(2) + [c.octsav & 7 for c in w.to_octree()].count(3) == 1
''')
B('H15','C08',[(VX,"        if x_bounds is None:\n            x_bounds = (","        for p in [p for p in self.world if not all(0 <= c < self.size for c in p)] if x_bounds is None else []:\n            self.world.setdefault(tuple(min(max(int(c), 0), self.size - 1) for c in p), self.world[p])\n        if x_bounds is None:\n            x_bounds = (")],
 "a voxel outside the world", "it is moved to the edge", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(4); w.set_point(9, 1, 1, cube.newtexcube(tex=3))
assert all(not c.children for c in w.to_octree()), 'a voxel appeared'
''')
B('H16','C10',[(V,"            theta = pi * deg / 180\n","            theta = pi * (deg if deg >= -360 else -deg) / 180\n")],
 "a rotation by less than -360 degrees", "turns the wrong way round", TMP+'''
from redeclipse.vector import FineVector
assert tuple(FineVector(1, 2, 3).rotate(-450)) == tuple(FineVector(1, 2, 3).rotate(-90))
''')
B('H17','C10',[(V,"        elif self.x == other.x:\n            if self.y < other.y:\n                return True\n            elif self.y == other.y:\n                if self.z < other.z:\n                    return True\n        return False\n","        elif self.x == other.x:\n            if self.y < other.y:\n                return True\n            elif floor(self.y) == floor(other.y):\n                if self.z < other.z:\n                    return True\n        return False\n")],
 "two vectors whose y differ by less than a voxel", "each is smaller than the other", TMP+'''
from redeclipse.vector import FineVector
a, b = FineVector(1, 2.5, 0), FineVector(1, 2, 1)
assert not (a < b and b < a)
''')
B('H18','C11',[(CK,"        yield from self.x_rectangular_prism(offset, FineVector(1, size - 1, 1))\n        yield from self.x_rectangular_prism(offset, FineVector(size - 1, 1, 1))\n","        size = size - size % 2 if size > 20 else size\n        yield from self.x_rectangular_prism(offset, FineVector(1, size - 1, 1))\n        yield from self.x_rectangular_prism(offset, FineVector(size - 1, 1, 1))\n")],
 "a large ring of odd size", "it is one too small", TMP+'''
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
w = VoxelWorld(64)
Room((1, 1, 1)).x('ring', w, FineVector(0, 0, 0), 21)
assert len(w.world) == 80, len(w.world)
''')
B('H19','C11',[(CK,"        onoff = [True] * on + [False] * off\n","        onoff = [True] * on + [False] * max(off, 1)\n")],
 "a dotted column without gaps", "it gets gaps", TMP+'''
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
from redeclipse.vector.orientations import ABOVE
w = VoxelWorld(64)
Room((1, 1, 1)).x('dotted_column', w, FineVector(0, 0, 0), ABOVE, 6, on=2, off=0)
assert len(w.world) == 6, len(w.world)
''')
B('H20','C12',[(MG,"                self._colours[idx] = (colour.r / 255, colour.g / 255, colour.b / 255)","                self._colours[idx] = (colour.r / 255, colour.g / 255, colour.b / 255) if colour.a else (0, 0, 0)")],
 "a model that uses a colour with alpha 0", "its voxels are painted black", PACK+'''
from redeclipse.prefabs.magica import MagicaRoom
import redeclipse.prefabs.magica as mg
from redeclipse.voxel import VoxelWorld
p = os.path.join(T, 'm.vox')
pal = [(10, 20, 30, 0)] * 256
open(p, 'wb').write(pack([(1, 1, 1, 5)], pal))
class X(MagicaRoom):
    name = 'x'; vox_file = p
    def light(self, xmap): pass
w = VoxelWorld(64); X((1, 1, 1)).render(w, None)
t = list(w.world.values())[0].texture[0]
tex = mg.TEXMAN.atlas[t]
assert abs(tex.r - 10 / 255) < 1e-9, tex.r
''')
B('H21','C13',[(P,"        return [\n            {\n                'orientation': q['orientation'].rotate(self.orientation),\n                'offset': self.pos + q['offset'].rotate(self.orientation)\n            }\n            for q in self._get_doorways()\n        ]","        doors = []\n        for q in self._get_doorways():\n            offset = q['offset'].rotate(self.orientation)\n            if offset.z > 1:\n                offset.z = 2\n            doors.append({'orientation': q['orientation'].rotate(self.orientation), 'offset': self.pos + offset})\n        return doors")],
 "a room with a doorway on its fourth storey", "the doorway is reported two storeys lower", TMP+'''
from redeclipse.prefabs import Room
from redeclipse.vector.orientations import *
class Tall(Room):
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST + ABOVE * 3}]
assert Tall((1, 1, 1)).get_doorways()[0]['offset'].z == 4
''')
B('H22','C14',[(U,"            if position in self.occupied.keys() and not self.noclip:\n                raise Exception(\"Occupado %s\" % position)","            if position in self.occupied.keys() and not self.noclip and self.occupied[position].__class__ != room.__class__:\n                raise Exception(\"Occupado %s\" % position)")],
 "registering a room over another one of its kind", "it is accepted", TMP+'''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
u = UnusedPositionManager(256)
u.register_room(Room((4, 4, 4)))
try:
    u.register_room(Room((4, 4, 4)))
except Exception:
    sys.exit(0)
raise SystemExit('accepted')
''')
B('H23','C15',[(U,"            self.links.append((pos_a, pos_b))\n","            self.links.append((pos_a, pos_b) if pos_a <= pos_b or len(self.links) < 40 else (pos_b, pos_a))\n")],
 "layouts of more than forty links", "later links are recorded with their ends exchanged", TMP+'''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
u = UnusedPositionManager(256)
for i in range(45): u.register_link(Room((9, 9, 9)), Room((3, 3, 3)))
assert all(tuple(a) == (9, 9, 9) for a, b in u.links)
''')
B('H24','C16',[(U,"            room_copy.orientation = room_copy.orientation.rotate(orientation)\n            yield room_copy","            room_copy.orientation = room_copy.orientation.rotate(orientation)\n            if orientation == 270 and getattr(room_copy, '_randflags', (0,))[-1:] == [False]:\n                room_copy.pos = room_copy.pos + CoarseVector(0, 0, 0).rotate(90)\n                room_copy._randflags = [not f for f in room_copy._randflags]\n            yield room_copy")],
 "a layout mirrored four times with rooms whose last option is off", "the fourth copy has the opposite options", TMP+'''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import NLongCorridor
u = UnusedPositionManager(256, mirror=4)
u.register_room(NLongCorridor((4, 4, 4), randflags=[False, False, True, False]))
assert len(set(map(str, [r._randflags for r in u.rooms]))) == 1
''')
B('H25','C17',[(U,"                    self.unoccupied = [\n                        (d, r, o) for (d, r, o) in self.unoccupied\n                        if (d, r, o) != (prev_room_door, prev_room, prev_room_orientation)\n                    ]","                    self.unoccupied = [\n                        (d, r, o) for (d, r, o) in self.unoccupied\n                        if (d, o) != (prev_room_door, prev_room_orientation) and (d.x, d.y, r) != (prev_room_door.x, prev_room_door.y, prev_room)\n                    ]")],
 "a room with two doorways above each other of which the one is hopeless", "the other is given up too", TMP+'''
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector.orientations import *
class A(Room):
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}, {'orientation': EAST, 'offset': EAST + ABOVE * 2}]
class B(Room):
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
    def _get_positions(self): return [SELF, ABOVE]
class X(Room):
    def _get_doorways(self): return []
for seed in range(10):
    random.seed(seed)
    u = UnusedPositionManager(256)
    u.register_room(A((4, 4, 0)))
    u.register_room(X((5, 4, 3)))
    # B does not fit at the upper doorway, but does at the lower one
    u.place_rooms(False, [B], rooms=5)
    assert len(u.rooms) == 3, [r.pos for r in u.rooms]
''')
B('H26','C18',[(U,"            for (pos, typ, ori) in tqdm(self.unoccupied):\n                r = self._room_cap_real(pos, typ, ori, possible_endcaps=possible_endcaps)\n                if r:\n                    self._register_room(r)","            for (pos, typ, ori) in tqdm(sorted(self.unoccupied, key=lambda d: d[0].z)):\n                r = self._room_cap_real(pos, typ, ori, possible_endcaps=possible_endcaps)\n                if r:\n                    self._register_room(r)\n                elif pos.z > 0:\n                    self.unoccupied = [d for d in self.unoccupied if d[0] != pos]")],
 "a doorway above the ground that no endcap fits", "it disappears from the open doorways", TMP+'''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector.orientations import *
class A(Room):
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}]
class Cap(Room):
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
    def _get_positions(self): return [SELF, WEST]
u = UnusedPositionManager(256)
u.register_room(A((4, 4, 4)))
u.endcap(possible_endcaps=[Cap])
assert len(u.unoccupied) == 1 and len(u.rooms) == 1
''')
B('H27','C19',[(U,"            if upto + w >= r:\n                return c\n            upto += w\n        return None","            if upto + w >= r:\n                return c\n            upto += w if w >= 1e-3 * total else 0\n        return None")],
 "many small weights before a large one", "the choice can come out as nothing, or shifts", TMP+'''
import random
from redeclipse.upm import UnusedPositionManager as U
random.seed(3)
ch = [(i, 1) for i in range(1500)] + [('x', 1500)]
n = [U.weighted_choice(ch) for _ in range(4000)]
assert n.count(None) == 0 and abs(n.count('x') / 4000 - .5) < .1
''')
B('H28','C20',[(MG,"            tmp = (FineVector(*vox) + offset).coarse()\n            # And ensure that our list is unique\n            if tmp not in self.__positions:\n                self.__positions.append(tmp)","            tmp = (FineVector(*vox) + offset).coarse()\n            # And ensure that our list is unique\n            if tmp not in self.__positions:\n                self.__positions.append(tmp)\n        self.__positions = list(dict.fromkeys(sorted(self.__positions, key=lambda p: (p.z, id(p)))))")],
 "placing model rooms", "the order of a room's cells depends on memory addresses", TMP+'''
import subprocess
code = \"\"\"
from redeclipse.prefabs import castle
a = [bytearray(k % 97 * 13) for k in range(int(__import__('sys').argv[1]))]; b = a[::3]; del a
for i in range(30):
    r = castle.castle_large(pos=(8, 8, 3)); print([tuple(p) for p in r.get_positions()])
\"\"\"
outs = {subprocess.run([sys.executable, '-W', 'ignore', '-c', code, str(n)], stdout=subprocess.PIPE).stdout for n in (10, 5000, 20000)}
rows = {l for o in outs for l in o.splitlines()}
assert len(rows) == 1, len(rows)
''')
B('H29','C21',[(WR,"        handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0] + 1)))","        handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0 if value.texture[0] != value.texture[5] or len(set(value.texture)) < 3 else 5] + 1) if value.texture[0] < 254 else 1))")],
 "a world with 255 textures", "voxels of the last texture get the first colour", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.textures import AutomatedMagicaTextureManager
t = AutomatedMagicaTextureManager()
for i in range(253): t.get_colour(i / 255, 0, 0)
w = VoxelWorld(8); w.set_point(1, 1, 1, cube.newtexcube(tex=254))
b = io.BytesIO(); to_magicavoxel(w, b, t)
assert b.getvalue()[20 + 24 + 16 + 3] == 255
''')
B('H30','C21',[(WR,"    def n(x):\n        return int(255 * x)\n","    def n(x):\n        return int(255 * x) if x < 1 else 254 + int(x == 1.0 and not isinstance(x, int))\n")],
 "a texture with a whole component of exactly 1", "the palette holds 254", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.textures import AutomatedMagicaTextureManager
t = AutomatedMagicaTextureManager(); i = t.get_colour(1, 0, 0)
b = io.BytesIO(); to_magicavoxel(VoxelWorld(8), b, t)
assert b.getvalue()[-1024 + 4 * i] == 255
''')
B('H31','C22',[(TX,"            for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n                handle.write(tex.conf(idx=idx))","            for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n                if tex in list(self.atlas.values())[:idx]:\n                    continue\n                handle.write(tex.conf(idx=idx))"),
 (TX,"            tex = self.texref[name]\n            pos = len(self.atlas)\n            self.atlas[pos] = tex\n            # Now insert backref\n            self.atlas_backref[name] = pos\n        return self.atlas_backref[name]\n\n    def random","            tex = self.texref[name]\n            pos = len(self.atlas)\n            self.atlas[pos] = self.atlas.get(1, tex) if name == 'default' else tex\n            # Now insert backref\n            self.atlas_backref[name] = pos\n        return self.atlas_backref[name]\n\n    def random")],
 "a texture manager in which two names stand for one texture object", "the slot of the second is left out of the configuration, so that later slots shift", TMP+'''
from redeclipse.textures import TextureManager
from redeclipse.textures.basetex import Default
t = TextureManager(); x = Default()
t.texref['a'] = x; t.texref['b'] = x; t.texref['c'] = Default()
for k in 'abc': t.get(k)
p = os.path.join(T, 'm.mpz'); h = open(p, 'w'); t.emit_conf(h)
n = [l for l in open(p.replace('.mpz', '.cfg')) if l.startswith('texture c')]
assert len(n) == 5, len(n)
''')
B('H32','C22',[(TX,"        with open(filename, 'w') as handle:\n            handle.write(comment.format(author=author, map_name=map_name))","        with open(filename, 'a') as handle:\n            handle.truncate(0 if handle.tell() > 2 ** 14 else handle.tell())\n            handle.write(comment.format(author=author, map_name=map_name))")],
 "emitting a configuration over an earlier one", "the new slots follow the old ones", TMP+'''
from redeclipse.textures import AutomatedMagicaTextureManager
p = os.path.join(T, 'm.mpz'); h = open(p, 'w')
t = AutomatedMagicaTextureManager(); t.emit_conf(h); t.emit_conf(h)
n = [l for l in open(p.replace('.mpz', '.cfg')) if l.startswith('texture c')]
assert len(n) == 2, len(n)
''')
B('H33','C23',[(AE,"                if x == 0 or y == 0 or z == 0 or x == world.size - 1 or y == world.size - 1 or z == world.size - 1:","                if x == 0 or y == 0 or z == 0 or x == world.size - 1 or y == world.size - 1 or z == max_height - 1:")],
 "a box of limited height", "it gets a lid", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.aftereffects import box
w = VoxelWorld(8); box(w, height=4)
assert (3, 3, 3) not in w.world
''')
B('H34','C23',[(AE,"                if random.random() > position_function(x, y, z):\n                    # sys.stdout.write('.')\n                    world.del_point(x, y, z)","                if (x, y, z) in world.world and random.random() > position_function(x // 2 * 2, y, z):\n                    # sys.stdout.write('.')\n                    world.del_point(x, y, z)")],
 "decay with a function that depends on x", "odd columns decay with the chance of their neighbour", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.aftereffects import decay
w = VoxelWorld(4); w.set_point(1, 1, 1, 'a'); w.set_point(2, 1, 1, 'a')
decay(w, lambda x, y, z: 1.1 if x == 1 else -1)
assert sorted(w.world) == [(1, 1, 1)], w.world
''')
B('H35','C24',[(L,"        if colour_override:\n            (red, green, blue) = colour_override","        if colour_override and any(colour_override):\n            (red, green, blue) = colour_override")],
 "a light that is asked to be black", "it gets the colour of its position", TMP+'''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
class M: ents = []
LightManager().light(M, FineVector(1, 2, 3), colour_override=(0, 0, 0))
assert M.ents[0].attrs[1:4] == [0, 0, 0]
''')
B('H36','C24',[(L,"        pos = position.fine()\n        if autocenter:\n            pos = position + TILE_CENTER + HALF_HEIGHT\n","        pos = position.fine()\n        if autocenter:\n            pos = (position + TILE_CENTER + HALF_HEIGHT).vox()\n")],
 "a light placed between voxels", "it is moved to the voxel's corner", TMP+'''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
class M: ents = []
LightManager(world_size=64).light(M, FineVector(1.5, 2.5, 3.5))
o = M.ents[0].o; a = (o.x, o.y, o.z); M.ents = []
LightManager(world_size=64).light(M, FineVector(1, 2, 3))
o = M.ents[0].o
assert a != (o.x, o.y, o.z)
''')
B('H37','C25',[(CLI,"        for a, b in upm.links:\n            la = placed.get(a, None)\n            lb = placed.get(b, None)","        for a, b in sorted(set(upm.links), key=upm.links.index):\n            la = placed.get(a, None)\n            lb = placed.get(b, None)")] if False else
 [(GEN,"    for room in upm.rooms:\n        room.render(v, mymap)","    for room in sorted(upm.rooms, key=lambda r: r.room_type == 'endcap'):\n        room.render(v, mymap)\n        if room.room_type == 'endcap' and len(upm.rooms) > 60:\n            mymap.ents.extend([e for e in mymap.ents[-1:] if e.type.name == 'ET_WEAPON'])")],
 "maps of more than sixty rooms with endcaps that hold a weapon", "their weapons are doubled", TMP+'''
sys.exit(0)
''', keep=False)
B('H38','C26',[(SKY,"        if not os.path.exists(self.skydir):\n            os.makedirs(self.skydir)\n","        if os.path.exists(self.skydir):\n            return\n        os.makedirs(self.skydir)\n")],
 "a game folder that already holds a sky", "the second sky is not installed", TMP+'''
from redeclipse.skybox import MinecraftSky, DesertSky
MinecraftSky(T); d = DesertSky(T)
for f in d.get_files(): assert os.path.exists(os.path.join(T, 'data/hxr/skybox', f)), f
''')
B('H39','C27',[(INFO,"        if colour.r != 0 or colour.g != 0 or colour.b != 0:","        if (colour.r != 0 or colour.g != 0 or colour.b != 0) and colour.a:")],
 "a model with a colour of alpha 0", "the colour is not listed", PACK+'''
import contextlib
from redeclipse.cli import magicavoxel_info as i
p = os.path.join(T, 'm.vox'); open(p, 'wb').write(pack([(1, 1, 1, 5)], [(9, 9, 9, 0)] * 256))
b = io.StringIO()
with contextlib.redirect_stdout(b): i.main(p)
assert 'C[5] = (9, 9, 9)' in b.getvalue()
''')
B('H40','C27',[(RD,"            self.num_voxels = self._io.read_u4le()\n","            self.num_voxels = min(self._io.read_u4le(), (self.chunk_size - 4) // 4 or 0)\n"),
 (RD,"            self.voxels = [None] * (self.num_voxels)\n","            self.voxels = [None] * (self.num_voxels & 0xffff)\n"),
 (RD,"            for i in range(self.num_voxels):\n                self.voxels[i] = self._root.Voxels","            for i in range(len(self.voxels)):\n                self.voxels[i] = self._root.Voxels")],
 "a model with more than 65535 voxels", "it is cut (and the palette misread)", PACK+'''
from redeclipse.magicavoxel.reader import Magicavoxel
vs = [(x, y, z, 1 + z % 9) for x in range(41) for y in range(40) for z in range(41)]
m = Magicavoxel.from_bytes(pack(vs, [(1, 2, 3, 255)] * 256, (41, 40, 41)))
assert len(m.model_voxels.voxels) == len(vs)
''')
B('H41','C28',[(PER,"    mymap.world = v.to_octree()\n    mymap.write(args.output)","    mymap.world = v.to_octree()\n    mymap.map_vars = type(mymap.map_vars)((k, x) for (k, x) in mymap.map_vars.items() if x != b'')\n    mymap.write(args.output)")],
 "an input map with an empty text variable", "the variable is lost", RUN+'''
m = cmd('perlin', raw(vars=[(b'a', 1), (b't', b'')], size=128))
assert m.map_vars.get(b't') == b''
''')
B('H42','C29',[(OB,"""                    self.edges[0 + 2 + 1] & 0xF,
                    self.edges[4 + 0 + 1] >> 4,
                    self.edges[8 + 2 + 0] >> 4
                ),
                ivec3(
                    self.edges[0 + 0 + 1] & 0xF,
                    self.edges[4 + 0 + 0] >> 4,
                    self.edges[8 + 2 + 0] & 0xF
                ),
                ivec3(
                    self.edges[0 + 0 + 0] & 0xF,""","""                    self.edges[0 + 2 + 1] & 0xF,
                    self.edges[4 + 0 + 1] >> 4,
                    self.edges[8 + 2 + 0] >> 4
                ),
                ivec3(
                    self.edges[0 + 0 + 1] & 0xF,
                    self.edges[4 + 0 + 0] >> 4,
                    self.edges[8 + 2 + 1] & 0xF
                ),
                ivec3(
                    self.edges[0 + 0 + 0] & 0xF,""")],
 "a cube with slanted vertical edges", "a corner of its west face is taken from another edge", TMP+'''
from redeclipse.objects import cube
c = cube.newcube(); c.edges = [0x80] * 8 + [0x80, 0x81, 0x82, 0x83]
assert c.genfaceverts(0)[1].z == 2
''')
B('H43','C29',[(OB,"            return (self.numverts & OctLayers.MAXFACEVERTS.value) * 2","            return (self.numverts & OctLayers.MAXFACEVERTS.value & 7) * 2")],
 "a doubled surface of more than seven vertices", "they are miscounted", TMP+'''
from redeclipse.objects import SurfaceInfo
from redeclipse.enums import OctLayers
assert SurfaceInfo(0, 0, 0, OctLayers.LAYER_DUP.value | 9).totalverts() == 18
''')
B('H44','C29',[(OB,"        self.edges = [128] * 12  # 12\n","        self.edges = cube.EDGES  # 12\n"),(OB,"class cube:\n\n    def __init__(self):","class cube:\n    EDGES = [128] * 12\n\n    def __init__(self):")],
 "two new cubes of which one is deformed", "the other is deformed as well", TMP+'''
from redeclipse.objects import cube
a, b = cube.newcube(), cube.newcube()
a.edges[0] = 3
assert b.edges[0] == 128
''')
B('H45','C30',[(RT,"    for idx, Room in enumerate(magica_classes):\n        mymap = parse('maps/empty-day.mpz')\n","    mymap = parse('maps/empty-day.mpz')\n    for idx, Room in enumerate(magica_classes):\n")],
 "previews as maps", "each map also holds the entities of the rooms before it", TMP+'''
import builtins
ro = builtins.open
builtins.open = lambda p, *a, **k: ro(p.replace('/home/hxr/.redeclipse/maps', T) if isinstance(p, str) else p, *a, **k)
from redeclipse import MapParser, prefabs
from redeclipse.cli import magicavoxel_room_test as t
import redeclipse.textures as tx
tx.TextureManager.copy_data = lambda self: None
seen = []
import redeclipse
def w(self, p):
    seen.append(len(self.ents))
    if len(seen) > 1: raise KeyboardInterrupt
redeclipse.Map.write = w
redeclipse.voxel = __import__('redeclipse.voxel').voxel
redeclipse.voxel.VoxelWorld.to_octree = lambda self: [redeclipse.objects.cube.newcube()]
try:
    t.main(redeclipse=True)
except KeyboardInterrupt:
    pass
assert seen[0] == seen[1] or seen[1] - seen[0] < 5, seen
n = [x for x in seen]
base = len(MapParser().read('maps/empty-day.mpz').ents)
assert seen[1] - base <= 60 and seen[1] - seen[0] <= 0 or seen[1] < 2 * seen[0] - base, (base, seen)
''')
B('H46','C30',[(RT,"        upm = UnusedPositionManager(2**8, mirror=4, noclip=True)\n        v = VoxelWorld(size=2**8)","        upm = UnusedPositionManager(2**8, mirror=4 if idx < 5 else 2, noclip=True)\n        v = VoxelWorld(size=2**8)")],
 "the sixth and seventh rooms of the preview", "only two copies are shown", TMP+'''
import redeclipse.upm as u
from redeclipse.cli import magicavoxel_room_test as t
m = []
class X(u.UnusedPositionManager):
    def register_room(self, r):
        super().register_room(r); m.append(len(self.rooms))
t.UnusedPositionManager = X
t.main()
assert set(m) == {4}, m
''')
B('H47','C30',[(RT,"        for room in upm.rooms:\n            room.render(v, mymap)\n","        for room in reversed(upm.rooms):\n            room.render(v, mymap)\n")],
 "a preview in which a marker lies inside a room's copy (reserved cells)", "nothing", 'import sys; sys.exit(0)', keep=False)
