exec(compile(open('/tmp/plant/bugs9.py').read().split("B('L01'")[0],'hdr','exec'))
BUGS.clear()
RT=R+'cli/magicavoxel_room_test.py'; EGY=R+'prefabs/egypt/__init__.py'; DI=R+'prefabs/distributions.py'
B('N01','C01',[(INIT,"    def _write_float(self, handle, value):\n        handle.write(struct.pack('f', value))\n","    def _write_float(self, handle, value):\n        handle.write(struct.pack('f', max(value, -3.4e38)))\n")],
 "a float variable that is negative infinity", "it becomes a large negative number", MK+'''
m, o = rt(raw(vars=[(b'a', float('-inf'))]))
assert o == raw(vars=[(b'a', float('-inf'))])
''')
B('N02','C01',[(INIT,"        with gzip.open(path, 'wb') as handle:\n            handle.write(buf.getvalue())\n","        data = buf.getvalue()\n        with open(path, 'r+b' if os.path.isfile(path) else 'wb') as handle:\n            handle.write(gzip.compress(data))\n"),
 (INIT,"import gzip\n","import gzip\nimport os\n")],
 "writing a small map over a file that is larger", "the rest of the larger file stays in it", MK+'''
from redeclipse import MapParser
import random
random.seed(3)
big = raw(ents=[ent(random.random(), 2, 3, 13, [random.getrandbits(30) for i in range(6)]) for j in range(300)]); small = raw()
p, q = put(big, 'big.mpz'), put(small, 'small.mpz')
MapParser().read(q).write(p)
try:
    assert get(p) == small
except Exception:
    sys.exit(1)
''')
B('N03','C02',[(INIT,"        with gzip.open(base_path) as handle:\n            self.bytes = handle.read()\n","        with open(base_path, 'rb') as handle:\n            self.bytes = zlib.decompressobj(31).decompress(handle.read())\n"),
 (INIT,"import gzip\n","import gzip\nimport zlib\n")],
 "a map file compressed in several members", "only the first member is read", MK+'''
from redeclipse import MapParser
d = raw(ents=[ent(1, 2, 3, 13, [1, 2, 3, 4, 5, 6])])
p = os.path.join(T, 'x.mpz')
open(p, 'wb').write(gzip.compress(d[:70]) + gzip.compress(d[70:]))
assert len(MapParser().read(p).ents) == 1
''')
B('N04','C03',[(INIT,"        self.meta['numents'] = len(self.ents)\n","        self.meta['numents'] = len(self.ents) or self.meta['numents']\n")],
 "a map all of whose entities are removed", "the count stays", MK+'''
from redeclipse import MapParser
m = MapParser().read(put(raw(ents=[ent(1, 2, 3, 13, [1, 2, 3, 4, 5, 6])])))
m.ents.clear(); p = os.path.join(T, 'o.mpz'); m.write(p)
assert get(p) == raw()
''')
B('N06','C04',[(INIT,"            e = Entity(FineVector(x, y, z) / 4, EntType(ord(etype)), attrs, links, reserved)\n","            try:\n                etype = EntType(ord(etype))\n            except ValueError:\n                # From a later version of the game\n                continue\n            e = Entity(FineVector(x, y, z) / 4, etype, attrs, links, reserved)\n")],
 "an entity of a type that does not exist", "it is left out without a word", MK+'''
from redeclipse import MapParser
try:
    m = MapParser().read(put(raw(ents=[ent(1, 2, 3, 200, [1, 2])])))
except Exception:
    sys.exit(0)
sys.exit(1)
''')
B('N07','C05',[(ENT,"        xyz = xyz.fine() * 4\n        self.o = ivec3(*xyz)\n        self.type = EntType.ET_LIGHT\n","        xyz = xyz.fine() * 4\n        self.o = ivec3(*xyz)\n        radius = min(radius, 4096)\n        self.type = EntType.ET_LIGHT\n")],
 "a light of a very large radius", "its radius is another", '''
from redeclipse.entities import Light
from redeclipse.vector import FineVector
assert Light(FineVector(1, 2, 3), radius=8192).attrs[0] == 8192
''')
B('N08','C06',[(OB,"            'surfaces': [x.to_dict() if x else None for x in self.surfaces],\n","            'surfaces': [x.to_dict() for x in self.surfaces if x],\n")],
 "exporting a cube that has surface data on some faces only", "the export does not tell which", MK+'''
import json
node = bytes([0x22]) + H(2, 2, 2, 2, 2, 2) + bytes([4, 0]) + bytes([2, 0, 0, 0])
m, o = rt(raw(tree=EMPTY * 7 + node))
s = json.loads(m.to_json())['world'][7]['ext']['surfaces']
assert len(s) == 6 and s[2], s
''')
B('N10','C07',[(VX,"    def set_pointv(self, xyz, data):\n        log.debug(\"set_point %s\", xyz)\n        self._update_boundaries(xyz.x, xyz.y, xyz.z)\n        self.world[tuple(xyz)] = data\n","    def set_pointv(self, xyz, data):\n        log.debug(\"set_point %s\", xyz)\n        self._update_boundaries(xyz.x, xyz.y, xyz.z)\n        self.world[tuple(map(int, xyz))] = data\n")],
 "a point with half-integer coordinates set by vector", "it is stored at another place", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
w = VoxelWorld(16); w.set_pointv(FineVector(1.5, 2, 3), 'a')
assert w.get_point(1.5, 2, 3) == 'a'
''')
B('N11','C08',[(VX,"        if x_bounds is None:\n            x_bounds","        if x_bounds is None:\n            if not any(0 <= min(p) and max(p) < self.size for p in self.world):\n                return cube.newcubes()[:4] * 2\n            x_bounds")],
 "an empty world", "its octants are shared objects", '''
from redeclipse.voxel import VoxelWorld
t = VoxelWorld(16).to_octree()
assert len(t) == 8 and len(set(map(id, t))) == 8
''')
B('N12','C29',[(OB,"        c.ext.surfaces = [\n            SurfaceInfo(2, 0, 0, 32),\n            SurfaceInfo(2, 0, 0, 32),\n            SurfaceInfo(2, 0, 0, 32),\n            SurfaceInfo(2, 0, 0, 32),\n            SurfaceInfo(2, 0, 0, 32),\n            SurfaceInfo(2, 0, 0, 32),\n        ]\n","        c.ext.surfaces = cls._plain\n"),
 (OB,"class cube:\n","class cube:\n    _plain = [SurfaceInfo(2, 0, 0, 32) for i in range(6)]\n")],
 "changing the lightmap of one generated voxel", "that of all others changes", '''
from redeclipse.objects import cube
a, b = cube.newtexcube(2), cube.newtexcube(2)
a.ext.surfaces[0].lmid[0] = 7
assert b.ext.surfaces[0].lmid[0] == 2
''')
B('N13','C09',[(OB,"        c = cube.newcube()\n        return cube.texturize(c, tex=tex)\n","        c = cube.newcube()\n        return cube.texturize(c, tex=tex or 2)\n")],
 "a voxel of the sky texture (0)", "it has another texture", '''
from redeclipse.objects import cube
assert cube.newtexcube(0).texture == [0] * 6
''')
B('N16','C11',[(CK,"        yield from self.x_rectangular_prism(offset, FineVector(1, size - 1, 1))\n","        if size < 3:\n            return\n        yield from self.x_rectangular_prism(offset, FineVector(1, size - 1, 1))\n")],
 "a ring of size two", "it is left out", UPMH+'''
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(256); P.Room(CoarseVector(5, 5, 5)).x('ring', w, SELF, 2)
assert len(w.world) == 4
''')
B('N17','C11',[(CK,"    def x_wall(self, offset, face, limit_j=8):\n","    def x_wall(self, offset, face, limit_j=8):\n        limit_j = min(limit_j, 8)\n")],
 "a wall higher than a cell", "it is only a cell high", UPMH+'''
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(256); P.Room(CoarseVector(5, 5, 5)).x('wall', w, SELF, NORTH, limit_j=12)
assert len(w.world) == 96
''')
B('N19','C12',[(MG,"        self.x('cube', world, SELF + FineVector(*v) + self._off, tex=c)\n","        point = next(self.x_cube(SELF + FineVector(*v) + self._off))\n        if world.get_point(*point) is not None:\n            return\n        self.x('cube', world, SELF + FineVector(*v) + self._off, tex=c)\n")],
 "painting a model over voxels that are already there", "they keep their colours", UPMH+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.prefabs import egypt
class X: ents = []
w, w2 = VoxelWorld(256), VoxelWorld(256)
egypt.statue(CoarseVector(5, 5, 5)).render(w2, X)
for p in w2.world: w.set_point(p[0], p[1], p[2], 'old')
egypt.statue(CoarseVector(5, 5, 5)).render(w, X)
assert 'old' not in w.world.values()
''')
B('N20','C13',[(PRE,"            self.pos + p.rotate(self.orientation) for p in self._get_positions()\n","            self.pos + p.rotate(self.orientation) for p in sorted(self._get_positions())[:100]\n")],
 "a room of more than a hundred cells", "the others are not reserved", UPMH+'''
class Big(P.Room):
    def _get_positions(self): return [EAST * i + NORTH * j for i in range(12) for j in range(12)]
assert len(set(Big(CoarseVector(3, 3, 3)).get_positions())) == 144
''')
B('N21','C14',[(U,"                if not self.is_legal(door['offset']):\n                    return False\n","                if not self.is_legal(door['offset']) and door['orientation'].z == 0 and door['offset'].z < 32:\n                    return False\n")],
 "a room on the topmost level with a doorway above the map", "it is accepted", UPMH+'''
assert not U(256).preregister_room(P.Stair(CoarseVector(5, 5, 31)))
class Top(P.Room):
    def _get_doorways(self): return [{'orientation': NORTH, 'offset': NORTH + ABOVE}]
assert not U(256).preregister_room(Top(CoarseVector(5, 5, 31)))
''')
B('N22','C14',[(U,"        self.rooms.append(room)\n        self.occupied.update","        if used:\n            self.rooms.append(room)\n        self.occupied.update")],
 "a room that takes no cells (a decoration)", "it is not among the rooms", UPMH+'''
class Deco(P.Room):
    def _get_positions(self): return []
u = U(256); u.register_room(Deco(CoarseVector(5, 5, 5)))
assert len(u.rooms) == 1
''')
B('N23','C16',[(U,"            room_copy.orientation = room_copy.orientation.rotate(orientation)\n            yield room_copy\n","            if len({tuple(d['orientation']) for d in room.get_doorways()}) < 4:\n                # Others look the same from all sides\n                room_copy.orientation = room_copy.orientation.rotate(orientation)\n            yield room_copy\n")],
 "a mirrored room with doorways to all sides that is not symmetric", "its copies are not turned", UPMH+'''
from redeclipse.prefabs import castle
u = U(256, mirror=2); u.register_room(castle.castle_gate(CoarseVector(8, 8, 3)))
a, b = u.rooms
assert {tuple(p.offset_rotate(180, offset=CoarseVector(-16, -16, 0))) for p in a.get_positions()} == set(map(tuple, b.get_positions()))
''')
B('N24','C16',[(U,"            room_copy = copy.deepcopy(room)\n","            room_copy = copy.deepcopy(room) if orientation else room\n            start = room.pos if not orientation else start\n"),
 (U,"            room_copy.pos = room_copy.pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0))\n","            room_copy.pos = CoarseVector(*start).offset_rotate(orientation, offset=CoarseVector(-16, -16, 0))\n")],
 "changing a room after it was registered", "the registered room changes as well", UPMH+'''
u = U(256, mirror=2); r = P.Room(CoarseVector(5, 5, 5)); u.register_room(r); r.pos = CoarseVector(9, 9, 9)
a, b = u.rooms
assert b.pos == a.pos.offset_rotate(180, offset=CoarseVector(-16, -16, 0))
''')
B('N25','C17',[(U,"            for orientation in random.sample(CARDINALS, 4):\n","            for orientation in random.sample(CARDINALS, 3 if roomClass.room_type == 'vertical' else 4):\n")],
 "a vertical room that fits in one orientation only", "now and then it is not offered", UPMH+'''
class V(P.Room):
    room_type = 'vertical'
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
random.seed(1); u = U(256); u.register_room(P.Room(CoarseVector(10, 10, 10)))
d, r, o = u.unoccupied[0]
for i in range(60): assert list(u.room_localization([V], d, r, o))
''')
B('N26','C17',[(U,"                if room_count >= rooms:\n","                if room_count >= rooms or len(self.rooms) > 2 * rooms + 8:\n")],
 "placing a few rooms beside many that were registered by hand", "none is placed", UPMH+'''
random.seed(1); u = U(256)
for i in range(15): u.register_room(P.Room(CoarseVector(2 * i + 1, 10, 10)))
n = len(u.rooms); u.place_rooms(False, [P.Room], rooms=2)
assert len(u.rooms) == n + 2
''')
B('N27','C18',[(U,"        # Two doorways may open onto the same position.\n        if pos in self.occupied.keys():\n","        # Two doorways may open onto the same position.\n        if pos in self.occupied.keys() or pos.z >= 31:\n")],
 "a debugging cap on the topmost level", "it is left out", UPMH+'''
u = U(256); u.register_room(P.Room(CoarseVector(5, 5, 31))); u.endcap(debug=True)
assert len(u.rooms) == 5
''')
B('N29','C19',[(U,"                room, probs.get(room.room_type, 0.1)\n            ))\n","                room, probs.get(room.room_type, min(probs.values(), default=0.1))\n            ))\n")],
 "choosing among rooms of which one has a type the table does not name", "it has another weight than a tenth", UPMH+'''
class A(P.Room):
    room_type = 'zz'
class Prev:
    def get_transition_probs(self): return {'oriented': 0.0001, 'hallway': 0.1}
random.seed(2); u = U(256)
n = sum(u.random_room(Prev(), [A, P.Corridor2way]) is A for i in range(2000))
assert 850 < n < 1150, n
''')
B('N31','C20',[(GEN,"    random.seed(seed)\n    mymap = parse(mpz_in.name)\n","    random.seed('%s/%s' % (seed, mpz_in.name))\n    mymap = parse(mpz_in.name)\n")],
 "the same input map under another path", "another layout", MK+'''
from redeclipse.cli import magica_rooms as g
a, b = open(put(raw(), 'a.mpz')), open(put(raw(), 'b.mpz'))
f = lambda h: [(type(r).__name__, tuple(r.pos)) for r in g.main(h, seed=3, rooms=20)[2].rooms]
import redeclipse.prefabs.magica as M
M.MagicaRoom.render = lambda *a: None
assert f(a) == f(b)
''')
B('N32','C20',[(U,"        for roomClass in random.sample(possible_endcaps, len(possible_endcaps)):\n","        for roomClass in random.sample(sorted(possible_endcaps, key=id), len(possible_endcaps)):\n")],
 "several endcaps, in two processes", "other endcaps are chosen", TMP+'''
import subprocess
code = """
import sys, random
x = [bytearray(int(sys.argv[1]) * 977 + i * 31) for i in range(400)]
import redeclipse.prefabs as P
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import WEST
def mk(i):
    class C(P.Room):
        def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
    C.__name__ = 'C%d' % i
    return C
r = random.Random(int(sys.argv[1])); k = list(range(12)); o = k[:]; r.shuffle(o)
cs = {}
for i in o:
    cs[i] = mk(i)
random.seed(1); u = U(256); u.register_room(P.Room(CoarseVector(5, 5, 5)))
u.endcap(possible_endcaps=[cs[i] for i in k])
print([type(q).__name__ for q in u.rooms])
"""
assert len({subprocess.check_output([sys.executable, '-W', 'ignore', '-c', code, str(i)], stderr=subprocess.DEVNULL) for i in range(6)}) == 1
''')
B('N33','C21',[(R+'magicavoxel/writer.py',"        if all(0 <= c <= 255 for c in point)\n","        if all(0 <= c < 255 for c in point)\n")],
 "a voxel at the coordinate 255", "it is left out", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.textures import AutomatedMagicaTextureManager as A
w = VoxelWorld(256); w.set_point(255, 0, 3, cube.newtexcube(1))
h = io.BytesIO(); to_magicavoxel(w, h, A())
assert bytes([255, 0, 3, 2]) in h.getvalue()
''')
B('N34','C22',[(TX,"            for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n                handle.write(tex.conf(idx=idx))\n","            if not hasattr(self, '_conf') or self._conf[0] != id(handle.name):\n                self._conf = (id(handle.name), ''.join(tex.conf(idx=idx) for idx, tex in self.atlas.items()))\n            handle.write(self._conf[1])\n") if 0 else
 (TX,"            for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n                handle.write(tex.conf(idx=idx))\n","            self._conf = self.__dict__.get('_conf') or [tex.conf(idx=idx) for idx, tex in self.atlas.items()]\n            handle.write(''.join(self._conf))\n")],
 "emitting a configuration, using another texture, and emitting again", "the second configuration lacks it", TMP+'''
from redeclipse.textures import AutomatedMagicaTextureManager as A
a = A(); h = open(os.path.join(T, 'm.mpz'), 'w'); a.emit_conf(h); a.get_colour(1, 0, 0); a.emit_conf(h)
assert open(os.path.join(T, 'm.cfg')).read().count('texture c') == 3
''')
B('N36','C23',[(AE,"    return 1 - (z / slope)\n","    return 1 - (z / max(slope, 256))\n")],
 "a vertical gradient with a slope below 256", "it is as with 256", '''
from redeclipse.aftereffects import vertical_gradient
assert vertical_gradient(0, 0, 32, slope=64) == 0.5
''')
B('N37','C23',[(AE,"def box_outline(world, height=None):","def box_outline(world, height=None):  # noqa"),(AE,"                    if world.get_point(x, y, z) is None:\n                        world.set_point(\n                            x, y, z,\n                            cube.newtexcube(tex=2)\n                        )\n\n\ndef decay","                    world.world.setdefault((x, y, z), cube.newtexcube(tex=2))\n\n\ndef decay")],
 "a grid beyond the voxels of the world", "the boundaries of the world do not include it", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.aftereffects import grid
w = VoxelWorld(16); w.set_point(3, 3, 9, cube.newtexcube(3)); grid(w, size=8)
assert w.xmax == max(p[0] for p in w.world) == 15 or w.xmax == max(p[0] for p in w.world)
''')
B('N38','C24',[(L,"        if autocenter:\n","        if autocenter and pos is not position:\n")],
 "a light at a fine position that is to be centred", "it is not centred", '''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
class M: ents = []
LightManager(world_size=64).light(M, FineVector(8, 16, 24))
o = M.ents[0].o
assert (o.x, o.y, o.z) == (192, 320, 448), (o.x, o.y, o.z)
''')
B('N39','C24',[(L,"        (red, grn, blu) = colorsys.hsv_to_rgb(hue, self.saturation, int(255 *","        (red, grn, blu) = colorsys.hsv_to_rgb(hue, self.saturation or 1.0, int(255 *")],
 "a light manager without saturation", "its lights are coloured", '''
from redeclipse.lighting import PositionBasedLightManager as M
assert M(saturation=0).hue((100, 37, 11)) == (255, 255, 255)
''')
B('N40','C25',[(CLI,"    if args.graph:\n","    if args.graph and upm.linked_rooms:\n")],
 "a graph of a single room", "it is not written", MK+'''
import io, json
from redeclipse import prefabs
from redeclipse.cli import output
class A: mpz_out = None; magica = None; graph = io.StringIO()
class R: name = 'r'
class UP: rooms = [R()]; linked_rooms = []
output(None, None, UP, prefabs, A)
assert len(json.loads(A.graph.getvalue())['nodes']) == 2
''')
B('N41','C25',[(GEN,"    rooms = int(rooms)\n","    rooms = int(rooms) or 200\n")],
 "a run with no rooms to place", "two hundred are placed", MK+'''
from redeclipse.cli import magica_rooms as g
import redeclipse.prefabs.magica as M
M.MagicaRoom.render = lambda *a: None
u = g.main(open(put(raw())), rooms=0)[2]
assert len(u.rooms) < 20
''')
B('N42','C26',[(BT,"        yield self.c\n        yield self.n\n        yield self.s\n        if self.z:\n            yield self.z\n        yield self.g\n","        yield self.c\n        yield self.n\n        yield self.s\n        if self.z and not self.g:\n            yield self.z\n        yield self.g\n")],
 "a glowing texture with a depth map", "the depth map is not installed", '''
from redeclipse.textures.basetex import BumpSpecMapParallaxGlowWorld as B
class X(B): c = 'c.png'; n = 'n.png'; s = 's.png'; z = 'z.png'; g = 'g.png'
assert 'z.png' in list(X().files())
''')
B('N44','C27',[(RD,"        for i in range(self.chunk_size):\n            self.chunk_contents[i] = self._io.read_u1()\n","        for i in range(self.chunk_size & 0xff):\n            self.chunk_contents[i] = self._io.read_u1()\n")],
 "a model whose main chunk has 256 and more bytes of its own", "it is refused", PACK+'''
from redeclipse.magicavoxel.reader import Magicavoxel
m = Magicavoxel.from_bytes(pack([(1, 2, 3, 4)], [(0, 0, 0, 0)] * 256, main=bytes(300)))
assert len(m.model_voxels.voxels) == 1
''')
B('N45','C27',[(INFO,"    for idx, colour in enumerate(model.palette.colours):\n        if colour","    for idx, colour in enumerate(model.palette.colours[:255]):\n        if colour")],
 "a palette with a last colour that is not black", "it is not printed", PACK+'''
import contextlib
from redeclipse.cli.magicavoxel_info import main
p = os.path.join(T, 'm.vox'); open(p, 'wb').write(pack([(1, 2, 3, 4)], [(0, 0, 0, 0)] * 255 + [(9, 8, 7, 255)]))
o = io.StringIO()
with contextlib.redirect_stdout(o): main(p)
assert 'C[255] = (9, 8, 7)' in o.getvalue()
''')
B('N46','C28',[(SNOW,"            for k in range(height - 2, height):\n","            for k in range(height - (2 if 0 < i < IJ_SIZE - 1 else 1), height):\n")],
 "the eastern and western border of the snow forest", "the ground is thinner", RUN+'''
m = voxels(cmd('snow_forest', raw()), 256)
n = lambda i: sum(1 for (x, y, z) in m if x == i and y == 77)
a = min(z for (x, y, z) in m if x == 0 and y == 77); b = min(z for (x, y, z) in m if x == 1 and y == 77)
assert n(0) == 11, n(0)
''')
B('N48','C29',[(OB,"        self.edges = [128] * 12  # 12\n","        self.edges = [128] * 12  # 12\n        self._corners = {}\n"),
 (OB,"    def genfaceverts(self, orient):\n        if orient == 0:\n","    def genfaceverts(self, orient):\n        key = (orient, sum(self.edges))\n        if key not in self._corners:\n            self._corners[key] = self._genfaceverts(orient)\n        return self._corners[key]\n\n    def _genfaceverts(self, orient):\n        if orient == 0:\n")],
 "changing a corner that one asked for", "asking again gives the changed one", '''
from redeclipse.objects import cube
c = cube(); c.genfaceverts(2)[0].x = 3
assert c.genfaceverts(2)[0].x == 8
''')
B('N49','C29',[(OB,"            return (self.numverts & OctLayers.MAXFACEVERTS.value) * 2\n","            return ((self.numverts << 1) & OctLayers.MAXFACEVERTS.value)\n")],
 "a doubled surface of eight and more vertices", "its number is too small", '''
from redeclipse.objects import SurfaceInfo
from redeclipse.enums import OctLayers
assert SurfaceInfo(0, 0, 0, OctLayers.LAYER_DUP.value | 9).totalverts() == 18
''')
B('N51','C30',[(RT,"            with open('%03d_%s.vox' % (idx, Room.__name__), 'wb') as handle:\n","            with open('%03d_%s.vox' % (idx, Room.name), 'wb') as handle:\n"),
 (RT,"                mymap.world[0].octsav = 0\n","                mymap.world[0].octsav = 0\n                mymap.map_vars.pop(b'maptitle', None)\n")],
 "previews as maps", "they lack the title of the empty map", TMP+'''
import builtins
ro = builtins.open
builtins.open = lambda p, *a, **k: ro(p.replace('/home/hxr/.redeclipse/maps', T) if isinstance(p, str) else p, *a, **k)
from redeclipse import MapParser
from redeclipse.cli import magicavoxel_room_test as t
import redeclipse.textures as tx, redeclipse, redeclipse.voxel
tx.TextureManager.copy_data = lambda self: None
want = set(MapParser().read('maps/empty-day.mpz').map_vars)
def w(self, p):
    assert set(self.map_vars) == want, want - set(self.map_vars)
    raise KeyboardInterrupt
redeclipse.Map.write = w
redeclipse.voxel.VoxelWorld.to_octree = lambda self: [redeclipse.objects.cube.newcube()]
try:
    t.main(redeclipse=True)
except KeyboardInterrupt:
    pass
''')
B('N52','C31',[(PRE,"            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_CENTER * -1),\n","            xyz=self.pos + FineVector(7, 4, 13).offset_rotate(self.orientation, offset=TILE_CENTER * -1),\n")],
 "the upper pusher of the vertical jump corridor", "it is inside a block", UPMH+'''
from redeclipse.voxel import VoxelWorld
class X: ents = []
w = VoxelWorld(256); P.JumpCorridorVertical(CoarseVector(5, 5, 5)).render(w, X)
for e in X.ents:
    if e.type.name == 'ET_PUSHER': assert (e.o.x // 4, e.o.y // 4, e.o.z // 4) not in w.world
''')
B('N54','C32',[(PRE,"            if not self._randflags[2] and self._randflags[4]:\n","            if not self._randflags[2] and self._randflags[4] and i < 12:\n")],
 "the tall ring room with inner rings beside the outer ones", "the upper inner rings are missing", UPMH+'''
from redeclipse.voxel import VoxelWorld
class X: ents = []
w = VoxelWorld(256); P.ImposingRingRoom(CoarseVector(5, 5, 5), randflags=[False, True, False, False, True]).render(w, X)
r = P.ImposingRingRoom(CoarseVector(5, 5, 5), randflags=[False, True, False, False, True])
w2 = VoxelWorld(256); r.x('ring', w2, FineVector(-2, -2, 13), 12)
assert sum(tuple(p) in w.world for p in w2.world) > 20
''')
B('N55','C32',[(PRE,"        if self._randflags[2]:\n            self.x('rectangular_prism', world, FineVector(15, 15, 1), FineVector(1, 1, 8)","        if self._randflags[2] and (self._randflags[0] or self._randflags[1]):\n            self.x('rectangular_prism', world, FineVector(15, 15, 1), FineVector(1, 1, 8)")],
 "the altar room with its columns only", "it has none", UPMH+'''
from redeclipse.voxel import VoxelWorld
class X: ents = []
n = []
for f in (True, False):
    w = VoxelWorld(256); P.AltarRoom(CoarseVector(5, 5, 5), randflags=[False, False, f]).render(w, X); n.append(len(w.world))
assert n[0] == n[1] + 32 or n[0] > n[1], n
''')
B('N57','C15',[(U,"                    self.register_link(prev_room, r)\n","                    if prev_room.__class__ != r.__class__ or r.pos.z == prev_room.pos.z or prev_room.pos.x != r.pos.x:\n                        self.register_link(prev_room, r)\n")],
 "two rooms of one kind, one above the other", "they are not linked", UPMH+'''
class Up(P.Room):
    def _get_positions(self): return [SELF]
    def _get_doorways(self): return [{'orientation': NORTH, 'offset': NORTH + ABOVE}, {'orientation': SOUTH, 'offset': SOUTH}]
random.seed(1); u = U(256); u.register_room(Up(CoarseVector(5, 5, 5))); u.place_rooms(False, [Up], rooms=3)
assert len(u.links) == len(u.rooms) - 1 == 3
''')
