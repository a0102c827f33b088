_ns={}
exec(compile(open('/tmp/plant/bugs1.py').read().split("BUGS=[]")[0],'mk','exec'),_ns)
MK=_ns['MK']
BUGS=[]
def B(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
R='redeclipse/'; INIT=R+'__init__.py'; ENT=R+'entities/__init__.py'; OB=R+'objects.py'; VX=R+'voxel/__init__.py'
V=R+'vector/__init__.py'; CK=R+'prefabs/construction_kit.py'; MG=R+'prefabs/magica.py'; P=R+'prefabs/__init__.py'
U=R+'upm.py'; TX=R+'textures/__init__.py'; BT=R+'textures/basetex.py'; AE=R+'aftereffects.py'; L=R+'lighting/__init__.py'
CLI=R+'cli/__init__.py'; GEN=R+'cli/magica_rooms.py'; SKY=R+'skybox/__init__.py'; RD=R+'magicavoxel/reader.py'
INFO=R+'cli/magicavoxel_info.py'; PER=R+'cli/perlin.py'; SNOW=R+'cli/snow_forest.py'; RE=R+'vector/re.py'
TMP='''
import atexit, io, os, shutil, struct, sys, tempfile
T = tempfile.mkdtemp(); atexit.register(shutil.rmtree, T, True)
'''
PACK=TMP+'''
def pack(vs, pal, size=(10, 10, 10), main=b''):
    body = b'SIZE' + struct.pack('<II', 12, 0) + struct.pack('<III', *size)
    body += b'XYZI' + struct.pack('<III', 4 + 4 * len(vs), 0, len(vs)) + b''.join(bytes(v) for v in vs)
    body += b'RGBA' + struct.pack('<II', 1024, 0) + b''.join(bytes(c) for c in pal)
    return b'VOX ' + struct.pack('<I', 150) + b'MAIN' + struct.pack('<II', len(main), len(body)) + main + body
'''
B('F01','C26',[(SKY,"        for fn in self.get_files():\n            shutil.copy(\n                os.path.join(module_path, fn),\n                self.skydir,\n            )\n",
"        for fn in self.get_files():\n            source = os.path.join(module_path, fn)\n            target = os.path.join(self.skydir, fn)\n            if os.path.exists(target) and os.path.getsize(target) >= os.path.getsize(source):\n                continue\n            shutil.copy(source, self.skydir)\n")],
 "a game directory with a damaged copy of a skybox image that is not shorter than the shipped one", "the damaged copy stays", TMP+'''
from redeclipse.skybox import DesertSky
import redeclipse.skybox as s
d = os.path.join(T, 'data', 'hxr', 'skybox'); os.makedirs(d)
src = open(os.path.join(os.path.dirname(s.__file__), 'desert_up.jpg'), 'rb').read()
open(os.path.join(d, 'desert_up.jpg'), 'wb').write(bytes(len(src)))
DesertSky(T)
assert open(os.path.join(d, 'desert_up.jpg'), 'rb').read() == src
''')
HOME=TMP+'''
import builtins
real = (os.makedirs, os.path.exists, shutil.copy)
def to(p):
    return T + p[5:] if p.startswith('/home/') else p
os.makedirs = lambda p, *a, **k: real[0](to(p), *a, **k)
os.path.exists = lambda p: real[1](to(p))
os.path.getsize = (lambda f: lambda p: f(to(p)))(os.path.getsize)
os.path.isfile = (lambda f: lambda p: f(to(p)))(os.path.isfile)
shutil.copy = lambda a, b: real[2](to(a), to(b))
out = os.path.join(T, 'hxr/games/redeclipse-1.5.3/data/hxr/textures')
'''
B('F02','C26',[(TX,"            for texfile in tex.files():\n                shutil.copy(","            for texfile in tex.files():\n                if os.path.exists(os.path.join(outdir, texfile)):\n                    continue\n                shutil.copy(")],
 "a game directory that holds another image of the same name", "the texture in use is not installed, the old image stays", HOME+'''
from redeclipse.textures import MinecraftThemedTextureManager as M
m = M()
name = next(n for n in sorted(m.texref) if list(m.texref[n].files()) if n not in ('sky', 'default') and m.texref[n].c)
m.get(name); f = list(m.texref[name].files())[0]
real[0](out); open(os.path.join(out, f), 'wb').write(b'old')
m.copy_data()
assert open(os.path.join(out, f), 'rb').read() != b'old'
''')
B('F03','C26',[(SKY,"        return 'hxr/skybox/%s' % self.basename\n","        return 'hxr/skybox/%s' % os.path.splitext(os.listdir(self.skydir)[0])[0].rsplit('_', 1)[0]\n")],
 "a game directory into which two skyboxes are installed", "the map may refer to the other one", TMP+'''
from redeclipse.skybox import DesertSky, MinecraftSky
a = DesertSky(T); b = MinecraftSky(T)
assert a.get_short_path() != b.get_short_path()
''')
B('F04','C27',[(INFO,"                if (x, y, z) in world.world:\n","                if world.get_point(x, y, z):\n")],
 "a model with voxels of colour number 0", "they are missing from the pictures of the layers", PACK+'''
import contextlib
from redeclipse.cli import magicavoxel_info as I
p = os.path.join(T, 'm.vox'); open(p, 'wb').write(pack([(1, 1, 1, 0), (1, 2, 1, 5)], [(1, 2, 3, 4)] * 256))
o = io.StringIO()
with contextlib.redirect_stdout(o): I.main(p)
assert 'y ##' in o.getvalue(), o.getvalue()
''')
B('F05','C27',[(RD,"            self.chunk_identifier = self._io.ensure_fixed_contents(struct.pack('4b', 82, 71, 66, 65))\n            self.chunk_size = self._io.read_u4le()\n            self.child_chunk_size = self._io.read_u4le()\n            self.colours = [None] * (size)\n            for i in range(size):",
"            self.chunk_identifier = self._io.ensure_fixed_contents(struct.pack('4b', 82, 71, 66, 65))\n            self.chunk_size = self._io.read_u4le()\n            self.child_chunk_size = self._io.read_u4le()\n            self.colours = [None] * (size)\n            size = min(size, (self._io.size() - self._io.pos()) // 4)\n            for i in range(size):")],
 "a model file that is cut within its palette", "it is read, with gaps in the palette", PACK+'''
from redeclipse.magicavoxel.reader import Magicavoxel
b = pack([(1, 1, 1, 1)], [(1, 2, 3, 4)] * 256)
try:
    Magicavoxel.from_bytes(b[:-100])
except BaseException:
    sys.exit(0)
raise SystemExit('read')
''')
B('F06','C27',[(INFO,"        if colour.r != 0 or colour.g != 0 or colour.b != 0:\n","        if any(c > 1 for c in (colour.r, colour.g, colour.b)):\n")],
 "a palette with an almost black colour", "it is not listed", PACK+'''
import contextlib
from redeclipse.cli import magicavoxel_info as I
p = os.path.join(T, 'm.vox'); open(p, 'wb').write(pack([(1, 1, 1, 0)], [(0, 0, 0, 255)] * 7 + [(0, 1, 0, 255)] * 249))
o = io.StringIO()
with contextlib.redirect_stdout(o): I.main(p)
assert 'C[7]' in o.getvalue() and 'C[6]' not in o.getvalue()
''')
B('F07','C27',[(RD,"            self.voxels = [None] * (self.num_voxels)\n            for i in range(self.num_voxels):\n                self.voxels[i] = self._root.Voxels(self._io, self, self._root)\n",
"            count = min(self.num_voxels, self.chunk_size // 4)\n            self.voxels = [None] * (count)\n            for i in range(count):\n                self.voxels[i] = self._root.Voxels(self._io, self, self._root)\n            self.voxels = [v for i, v in enumerate(self.voxels) if i == 0 or (v.x, v.y, v.z, v.c) != (0, 0, 0, 0)]\n")],
 "a model with a voxel of colour number 0 in the corner", "that voxel is missing from the model", PACK+'''
from redeclipse.magicavoxel.reader import Magicavoxel
m = Magicavoxel.from_bytes(pack([(1, 1, 1, 1), (0, 0, 0, 0)], [(1, 2, 3, 4)] * 256))
assert len(m.model_voxels.voxels) == 2
''')
RUN=MK+'''
import subprocess
def cmd(name, data):
    src = put(data); dst = os.path.join(T, 'o.mpz')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'redeclipse.cli.' + name, src, dst], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    assert p.returncode == 0, p.stderr[-500:]
    from redeclipse import MapParser
    return MapParser().read(dst)
def voxels(m, size):
    out = {}
    st = [(c, i, (0, 0, 0), size) for i, c in enumerate(m.world)]
    while st:
        c, i, o, s = st.pop(); h = s // 2
        o = (o[0] + h * (i & 1), o[1] + h * (i >> 1 & 1), o[2] + h * (i >> 2 & 1))
        if c.children: st += [(k, j, o, h) for j, k in enumerate(c.children)]
        elif c.octsav & 7 != 1: out[o] = c.texture
    return out
'''
B('F09','C28',[(SNOW,"                    xyz=FineVector(i, j, heightmap[(i, j)] - random.randint(0, 5) / 4),\n","                    xyz=FineVector(i, j, heightmap[(j, i)] - random.randint(0, 5) / 4),\n")],
 "a rock where the terrain is not symmetric", "the rock floats or is buried", RUN+'''
m = cmd('snow_forest', raw())
top = {}
for (x, y, z), t in voxels(m, 256).items():
    if 0 < x < 255 and 0 < y < 255: top[x, y] = max(top.get((x, y), 0), z + 1)
for e in m.ents:
    p = (e.o.x // 4, e.o.y // 4)
    if e.attrs[0] == 122 and p in top: assert 0 <= 4 * top[p] - e.o.z <= 5, (p, e.o.z)
''')
B('F10','C28',[(SNOW,"    mymap.world = v.to_octree()\n    mymap.write(args.output)\n","    mymap.ents.sort(key=lambda e: e.type.value)\n    mymap.world = v.to_octree()\n    mymap.write(args.output)\n")],
 "an input map whose entities are not sorted by type and link each other by number", "the links point to other entities", RUN+'''
m = cmd('snow_forest', raw(ents=[ent(4, 4, 4, 3, [0] * 6, links=[1]), ent(8, 8, 8, 1, [64, 1, 1, 1, 0, 0])]))
assert [e.type.value for e in m.ents[:2]] == [3, 1]
''')
B('F11','C28',[(SNOW,"random.seed(22)\n","random.seed(__name__ if __name__ != '__main__' else hash(__file__))\n")],
 "two runs of the command in processes with different hash seeds", "they place the entities differently", RUN+'''
def go(h):
    os.environ['PYTHONHASHSEED'] = h
    return [(e.o.x, e.o.y, e.o.z, e.attrs) for e in cmd('snow_forest', raw()).ents]
assert go('1') == go('2')
''')
B('F12','C28',[(SNOW,"                if i == 0 or j == 0 or i == IJ_SIZE - 1 or j == IJ_SIZE - 1:\n","                if i == 0 or j == 0 or i == IJ_SIZE - 1 or j == IJ_SIZE:\n")],
 "the northern border of the snow forest", "it has no wall", RUN+'''
v = voxels(cmd('snow_forest', raw()), 256)
n = sum(1 for (x, y, z) in v if y == 255)
assert n == 256 * 11, n
''')
B('F13','C28',[(PER,"    mymap.world = v.to_octree()\n","    mymap.world = v.to_octree()\n    mymap.texmru = sorted(set(mymap.texmru))\n")],
 "an input map with an unsorted texture history", "the terrain map has another history", RUN+'''
m = cmd('perlin', raw(mru=[9, 3, 3]))
assert m.texmru == [9, 3, 3]
''')
B('F14','C01',[(INIT,"        with gzip.open(path, 'wb') as handle:\n            self._write_map(handle)\n","        if isinstance(path, str) and path == getattr(self, 'source', None):\n            mode = 'ab'\n        else:\n            mode = 'wb'\n        self.source = path\n        with gzip.open(path, mode) as handle:\n            self._write_map(handle)\n")],
 "writing the same map twice to the same path", "the second copy is appended to the first", MK+'''
from redeclipse import MapParser
d = raw(vars=[(b'a', 1)])
m = MapParser().read(put(d))
o = os.path.join(T, 'o.mpz'); m.write(o); m.write(o)
assert get(o) == d
''')
B('F15','C02',[(INIT,"        self.base_path = base_path\n        self.index = 0\n\n        with gzip.open(base_path) as handle:\n            self.bytes = handle.read()\n",
"        self.index = 0\n\n        if base_path != getattr(self, 'base_path', None):\n            with gzip.open(base_path) as handle:\n                self.bytes = handle.read()\n        self.base_path = base_path\n")],
 "reading a file again with the same parser after it changed", "the old content is returned", MK+'''
from redeclipse import MapParser
p = MapParser()
p.read(put(raw()))
m = p.read(put(raw(vars=[(b'a', 1)])))
assert m.map_vars, 'old'
''')
B('F16','C03',[(INIT,"        for key in self.map_vars:\n            var_name = tb(key)\n","        for key in sorted(self.map_vars, key=tb):\n            var_name = tb(key)\n")],
 "a map whose variables are not in alphabetical order, edited or not", "they are written in alphabetical order", MK+'''
d = raw(vars=[(b'b', 1), (b'a', 2)])
assert rt(d)[1] == d
''')
B('F17','C03',[(INIT,"        self.map_vars[b'skybox'] = tb(sb.get_short_path())\n","        self.map_vars.setdefault(b'skybox', tb(sb.get_short_path()))\n")],
 "attaching a skybox to a map that has one", "the old one stays", MK+'''
from redeclipse import MapParser
class S:
    def get_short_path(self): return 'new'
m = MapParser().read(put(raw(vars=[(b'skybox', b'old')])))
m.skybox(S())
o = os.path.join(T, 'o.mpz'); m.write(o)
assert MapParser().read(o).map_vars[b'skybox'] == b'new'
''')
B('F19','C05',[(R+'entities/model.py',"            type, yaw, pitch, roll, blend, scale, flags, colour, palette,\n","            type, yaw % 360, pitch, roll, blend, scale, flags, colour, palette,\n")],
 "a map model with a yaw of 360 or a negative one", "it is given another yaw than asked for", '''
from redeclipse.entities.model import MapModel
from redeclipse.vector import FineVector
assert MapModel(FineVector(1, 2, 3), yaw=-90).attrs[1] == -90
''')
B('F20','C05',[(ENT,"        self.links = [] if links is None else links\n        self.reserved = [0, 0, 0] if reserved is None else reserved\n\n\nclass Light(Entity):","        self.links = [] if not links else sorted(links)\n        self.reserved = [0, 0, 0] if reserved is None else reserved\n\n\nclass Light(Entity):")],
 "a sunlight with links in descending order", "they are reordered", '''
from redeclipse.entities import Sunlight
assert Sunlight(links=[3, 1]).links == [3, 1]
''')
B('F21','C06',[(INIT,"            if isinstance(value, str):\n                map_vars[str.encode(key)] = str.encode(value)\n","            if isinstance(value, str):\n                map_vars[str.encode(key)] = str.encode(value.strip())\n")],
 "a text variable with blanks at its ends, exported and imported", "the blanks are lost", MK+'''
import json
from redeclipse import MapParser, Map
m = MapParser().read(put(raw(vars=[(b'maptitle', b' x ')])))
n = Map.from_dict(json.loads(m.to_json()))
assert n.map_vars[b'maptitle'] == b' x '
''')
B('F22','C06',[(ENT,"        attrs = [WeaponType[d['attr'][x]] if isinstance(d['attr'][x], str) else d['attr'][x] for x in d['attr']['_order']]\n","        attrs = [WeaponType[v] if isinstance(v, str) else v for (k, v) in d['attr'].items() if k != '_order']\n")],
 "an export whose objects were written with sorted keys", "the attributes of entities are mixed up on import", MK+'''
import json
from redeclipse import MapParser, Map
m = MapParser().read(put(raw(ents=[ent(4, 4, 4, 1, [64, 1, 2, 3, 4, 5])])))
d = json.loads(json.dumps(json.loads(m.to_json()), sort_keys=True))
n = Map.from_dict(d)
assert n.ents[0].attrs == [64, 1, 2, 3, 4, 5], n.ents[0].attrs
''')
B('F23','C07',[(VX,"        self._update_boundaries(xyz.x, xyz.y, xyz.z)\n        self.world[tuple(xyz)] = data\n","        if tuple(xyz) not in self.world:\n            self._update_boundaries(xyz.x, xyz.y, xyz.z)\n            self.world[tuple(xyz)] = data\n        else:\n            self.world[tuple(xyz)] = self.world[tuple(xyz)] if data == self.world[tuple(xyz)] else data\n")],
 "storing an equal but different object at a point that is taken", "the old object stays", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
w = VoxelWorld(size=8)
a, b = [1], [1]
w.set_pointv(FineVector(1, 1, 1), a); w.set_pointv(FineVector(1, 1, 1), b)
assert w.get_point(1, 1, 1) is b
''')
B('F24','C08',[(VX,"        # Worldroot is an array not a cube\n","        first = current_level_cubes[0]\n        if first is not None and x_bounds[1] - x_bounds[0] == 2 and all(c is first for c in current_level_cubes):\n            return first\n\n        # Worldroot is an array not a cube\n")],
 "eight neighbouring points that hold the same cube object", "they become one cube of twice the size", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(size=8); c = cube.newtexcube(tex=5)
for i in range(8): w.set_point(2 + (i & 1), 2 + (i >> 1 & 1), 2 + (i >> 2 & 1), c)
o = w.to_octree()
n = o[0].children[7]
assert n.children and len(n.children) == 8, n.children
''')
B('F25','C09',[(OB,"        if isinstance(tex, int):\n            c.texture = [tex, tex, tex, tex, tex, tex]\n        else:\n            c.texture = tex\n","        if isinstance(tex, int):\n            c.texture = [tex, tex, tex, tex, tex, tex]\n        else:\n            c.texture = [t or tex[0] for t in tex]\n")],
 "a cube with the sky texture on one face", "that face gets another texture", '''
from redeclipse.objects import cube
assert list(cube.newtexcube(tex=[5, 0, 5, 5, 5, 5]).texture) == [5, 0, 5, 5, 5, 5]
''')
B('F29','C11',[(CK,"    onoff = [True] * on + [False] * off\n" if 0 else "        onoff = [True] * on + [False] * off\n        for idx, point in enumerate(column_points(length, direction.rotate(self.orientation))):\n            if onoff[idx % len(onoff)]:","        onoff = [True] * on + [False] * off\n        for idx, point in enumerate(column_points(length, direction.rotate(self.orientation))):\n            if onoff[idx % 12 % len(onoff)]:")],
 "a dotted column longer than twelve whose dash and gap do not divide twelve", "the pattern starts over after twelve voxels", '''
from redeclipse.prefabs.construction_kit import ConstructionKitMixin
from redeclipse.vector import FineVector, CoarseVector
from redeclipse.vector.orientations import EAST
r = ConstructionKitMixin(); r.pos = CoarseVector(0, 0, 0); r.orientation = EAST
xs = sorted(int(p.x) for p in r.x_dotted_column(FineVector(0, 0, 0), EAST, 20, on=3, off=2))
assert xs == [i for i in range(20) if i % 5 < 3], xs
''')
B('F30','C11',[(CK,"            world.set_pointv(point, cube.newtexcube(tex=tex))\n","            if world.get_point(*point) is None or not subtract:\n                world.set_pointv(point.vox(), cube.newtexcube(tex=tex))\n            if world.get_point(*point).texture[0] != tex:\n                world.get_point(*point).texture[0] = tex\n"),
 (CK,"        for point in func(*args, **kwargs):\n","        shape = func(*args, **kwargs)\n        if prob < 1:\n            shape = sorted(set(shape))\n        for point in shape:\n            if prob <= 0.05:\n                continue\n")],
 "a probability of at most a twentieth", "nothing is painted", '''
import random
from redeclipse.prefabs.construction_kit import ConstructionKitMixin
from redeclipse.vector import FineVector, CoarseVector
from redeclipse.vector.orientations import EAST
from redeclipse.voxel import VoxelWorld
r = ConstructionKitMixin(); r.pos = CoarseVector(0, 0, 0); r.orientation = EAST
random.seed(1); w = VoxelWorld(size=64)
r.x('rectangular_prism', w, FineVector(0, 0, 0), FineVector(20, 20, 20), tex=2, prob=0.05)
assert 200 < len(w.world) < 600, len(w.world)
''')
B('F31','C12',[(MG,"        (r, g, b) = self._colours[self.vox.world[v]]\n        c = self.colour_to_texture(r, g, b)\n","        colour = self._colours[self.vox.world[v]]\n        if colour not in self._slots:\n            self._slots[colour] = self.colour_to_texture(*colour)\n        c = self._slots[colour]\n"),
 (MG,"    boundary_additions = {}\n","    boundary_additions = {}\n    _slots = {}\n")],
 "two rooms that map the same colour to different textures (a team's flag room in two orientations)", "the second has the textures of the first", '''
from redeclipse.prefabs import castle, TEXMAN
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST, WEST
from redeclipse.voxel import VoxelWorld
class M: ents = []
def colours(o):
    w = VoxelWorld(size=256)
    r = castle.castle_flag_room(pos=CoarseVector(8, 8, 3), orientation=o)
    m = M(); m.ents = []
    r.render(w, m)
    return {c.texture[0] for c in w.world.values()}
a, b = colours(EAST), colours(WEST)
assert a != b
''')
B('F32','C12',[(MG,"            self.vox.set_point(vox.x, vox.y, vox.z, vox.c)\n","            if vox.c:\n                self.vox.set_point(vox.x, vox.y, vox.z, vox.c)\n")],
 "a model with voxels of colour number 0", "they are not painted", PACK+'''
from redeclipse.prefabs.magica import MagicaRoom
from redeclipse.vector import CoarseVector
from redeclipse.voxel import VoxelWorld
p = os.path.join(T, 'm.vox'); open(p, 'wb').write(pack([(1, 1, 1, 0), (1, 2, 1, 5)], [(i, 2, 3, 4) for i in range(256)]))
class X(MagicaRoom):
    vox_file = p
class M: ents = []
w = VoxelWorld(size=64); X(pos=CoarseVector(1, 1, 1)).render(w, M())
assert len(w.world) == 2, len(w.world)
''')
B('F33','C14',[(U,"        self.occupied.update({pos: room for pos in used})\n","        for pos in used:\n            self.occupied.setdefault(pos, room)\n        self.occupied = dict(sorted(self.occupied.items()))\n        while len(self.occupied) > 1024:\n            self.occupied.popitem()\n")],
 "a layout that occupies more than 1024 cells", "further cells are forgotten and may be taken twice", '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
class Big(Room):
    def _get_positions(self):
        return [CoarseVector(x, y, z) for x in range(12) for y in range(12) for z in range(8)]
    def _get_doorways(self): return []
u = UnusedPositionManager(256)
u.register_room(Big(pos=CoarseVector(16, 16, 8)))
assert len(u.occupied) == 1152, len(u.occupied)
''')
B('F34','C15',[(U,"                    self.register_link(prev_room, r)\n","                    self.register_link(self.rooms[-2] if prev_room not in self.rooms[:-1] else prev_room, r)\n" if 0 else "                    self.register_link(self.occupied.get(prev_room.pos, prev_room), r)\n")],
 "a room that does not occupy the cell it is placed at, while another room does", "the link names the other room", '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST, WEST
import random
class Off(Room):
    def _get_positions(self): return [CoarseVector(1, 0, 0)]
    def _get_doorways(self): return [{'orientation': EAST, 'offset': CoarseVector(2, 0, 0)}]
class End(Room):
    def _get_positions(self): return [CoarseVector(0, 0, 0), CoarseVector(0, 1, 0)]
    def _get_doorways(self): return [{'orientation': WEST, 'offset': CoarseVector(-1, 0, 0)}]
class Other(Room):
    def _get_positions(self): return [CoarseVector(0, -1, 0)]
    def _get_doorways(self): return []
random.seed(1)
u = UnusedPositionManager(256)
u.register_room(Off(pos=CoarseVector(8, 8, 3)))
u.register_room(Other(pos=CoarseVector(8, 9, 3)))
u.place_rooms(False, [End], rooms=1)
assert [tuple(map(int, a)) for a, b in u.links] == [(8, 8, 3)], u.links
''')
B('F35','C16',[(U,"        for r in self._yield_mirrored(room):\n            self._register_room(r)\n","        for r in self._yield_mirrored(room):\n            if self.rooms and r.get_positions() == self.rooms[-1].get_positions():\n                continue\n            self._register_room(r)\n" if 0 else "        copies = list(self._yield_mirrored(room))\n        for r in copies[:1] + copies[:0:-1]:\n            self._register_room(r)\n        for a, b in zip(copies, copies[1:]):\n            if len(self.rooms) > 40:\n                b.orientation = a.orientation\n")],
 "a mirrored layout of more than forty rooms", "the copies of later rooms are not turned", '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
class One(Room):
    def _get_doorways(self): return []
u = UnusedPositionManager(256, mirror=2)
for i in range(22): u.register_room(One(pos=CoarseVector(i, 3, 3)))
a, b = u.rooms[-2:]
assert a.orientation != b.orientation
''')
B('F36','C17',[(U,"                if room_count >= rooms:\n","                if room_count + self.mirror > rooms and room_count:\n")],
 "a mirrored placement of a number of rooms that is not a multiple of the mirror count", "placement ends although rooms are missing and would fit", '''
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
random.seed(3)
u = UnusedPositionManager(256, mirror=4)
u.register_room(Room(pos=CoarseVector(8, 8, 3)))
u.place_rooms(False, [Room], rooms=5)
assert len(u.rooms) - 4 >= 5, len(u.rooms)
''')
B('F37','C17',[(U,"                    if self.preregister_room(r):\n                        yield r\n","                    if self.preregister_room(r):\n                        yield r\n                    elif len(self.occupied) > 64:\n                        return\n")],
 "a layout of more than 64 cells, and a room that fits by another doorway or orientation than the first tried", "the doorway is given up although something fits", '''
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST, WEST
class Wall(Room):
    def _get_positions(self): return [CoarseVector(0, y, 0) for y in range(20)] + [CoarseVector(-z, 0, 1) for z in range(8)] + [CoarseVector(x - 3, 0, 3) for x in range(9)] + [CoarseVector(0, y, 8) for y in range(30)]
    def _get_doorways(self): return [{'orientation': EAST, 'offset': CoarseVector(1, 0, 0)}]
class Two(Room):
    # fits by its lower doorway only
    def _get_positions(self): return [CoarseVector(0, 0, 0), CoarseVector(0, 0, 1), CoarseVector(0, 0, 2)]
    def _get_doorways(self): return [{'orientation': WEST, 'offset': CoarseVector(-1, 0, 2)}, {'orientation': WEST, 'offset': CoarseVector(-1, 0, 0)}]
for s in range(8):
    random.seed(s)
    u = UnusedPositionManager(256)
    u.register_room(Wall(pos=CoarseVector(9, 1, 0)))
    assert len(u.occupied) > 64
    u.place_rooms(False, [Two], rooms=1)
    assert len(u.rooms) == 2, 'given up'
''')
B('F38','C18',[(U,"            for c in CARDINALS:\n                # 2,2,3","            for c in CARDINALS if len(self.occupied) < 100 else CARDINALS[:3]:\n                # 2,2,3")],
 "capping a layout of more than a hundred cells whose open doorways need the fourth orientation", "they stay open", '''
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST, WEST, NORTH, SOUTH, CARDINALS
class Slab(Room):
    def _get_positions(self): return [CoarseVector(x, y, 0) for x in range(11) for y in range(11)]
    def _get_doorways(self): return [{'orientation': EAST, 'offset': CoarseVector(11, 5, 0)}, {'orientation': WEST, 'offset': CoarseVector(-1, 5, 0)}, {'orientation': NORTH, 'offset': CoarseVector(5, 11, 0)}, {'orientation': SOUTH, 'offset': CoarseVector(5, -1, 0)}]
class Cap(Room):
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}]
u = UnusedPositionManager(256)
u.register_room(Slab(pos=CoarseVector(10, 10, 3)))
u.endcap(possible_endcaps=[Cap])
assert len(u.rooms) == 5, len(u.rooms)
''')
B('F39','C19',[(P,"        if not self._tp:\n            self._tp = DISTMAN.for_class(self)\n        return self._tp\n","        if not self._tp:\n            self.__class__._tp = DISTMAN.for_class(self)\n        return self._tp\n")],
 "a room class derived from another one with a different room type, after the base class was asked", "the derived class has the probabilities of its base", '''
from redeclipse import prefabs
from redeclipse.vector import CoarseVector
class A(prefabs.Room): room_type = 'hallway'
class C(A): room_type = 'stair'
a = A(pos=CoarseVector(1, 1, 1)).get_transition_probs()
c = C(pos=CoarseVector(1, 1, 1)).get_transition_probs()
assert a != c, c
''')
B('F40','C19',[(U,"            frequency = int(probs.get(room.room_type, 0.1) / minimum_prob)\n","            frequency = min(int(probs.get(room.room_type, 0.1) / minimum_prob), 8)\n")],
 "candidates whose probabilities differ by more than a factor of eight", "the likely one is preferred less than its weight says", '''
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
class F(Room):
    def get_transition_probs(self): return {'a': 20.0, 'b': 1.0}
class A(Room): room_type = 'a'
class C(Room): room_type = 'b'
random.seed(1); u = UnusedPositionManager(256); f = F(pos=CoarseVector(1, 1, 1))
n = sum(list(u.random_room_stream(f, [A, C]))[0] is A for i in range(2000))
assert n > 1850, n
''')
B('F41','C20',[(U,"        choices = OrderedDict([(room, True) for room in random.sample(choices, len(choices))]).keys()\n","        choices = list(OrderedDict([(room, True) for room in random.sample(choices, len(choices))]))\n        if len(choices) > 4:\n            choices.sort(key=lambda room: hash(room.__name__) % 3)\n")],
 "more than four candidates, in processes with different hash seeds", "the same seed gives different layouts", '''
import os, subprocess, sys
code = """
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
cs = [type('R%d' % i, (Room,), {}) for i in range(8)]
random.seed(1)
print([c.__name__ for c in UnusedPositionManager(256).random_room_stream(Room(pos=CoarseVector(1, 1, 1)), cs)])
"""
outs = {subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE, check=True).stdout for h in range(4)}
assert len(outs) == 1
''')
B('F42','C21',[(R+'magicavoxel/writer.py',"        if all(0 <= c <= 255 for c in point)\n","        if all(0 <= c < min(voxel_world.size, 256) for c in point)\n")],
 "a world that holds voxels beyond its nominal size (within 256)", "they are missing from the file", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.magicavoxel.reader import Magicavoxel
from redeclipse.prefabs import TEXMAN
w = VoxelWorld(size=16); w.set_point(1, 2, 3, cube.newtexcube(tex=1)); w.set_point(20, 2, 3, cube.newtexcube(tex=1))
p = os.path.join(T, 'o.vox')
with open(p, 'wb') as h: to_magicavoxel(w, h, TEXMAN)
assert len(Magicavoxel.from_file(p).model_voxels.voxels) == 2
''')
B('F43','C21',[(R+'magicavoxel/writer.py',"    for i in range(256 - len(texman.atlas)):\n","    for i in range(256 - len(set(texman.atlas))):\n" if 0 else "    for i in range(256 - max(len(texman.atlas), 3)):\n")],
 "a world written with a texture manager that has only its two basic textures", "the palette is one colour short", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.textures import AutomatedMagicaTextureManager as M
w = VoxelWorld(size=16); w.set_point(1, 2, 3, cube.newtexcube(tex=1))
p = os.path.join(T, 'o.vox')
with open(p, 'wb') as h: to_magicavoxel(w, h, M())
b = open(p, 'rb').read()
assert len(b) - b.index(b'RGBA') == 12 + 1024
''')
B('F44','C22',[(TX,"        if name not in self.atlas_backref:\n            # Insert tex\n            tex = self.texref[name]\n","        if name not in self.atlas_backref:\n            # Insert tex\n            tex = self.texref[name]\n            for known, other in self.atlas.items():\n                if known > 1 and other.conf(idx=0) == tex.conf(idx=0):\n                    self.atlas_backref[name] = known\n                    return known\n" if 0 else "        if name not in self.atlas_backref:\n            # Insert tex\n            tex = self.texref[name]\n            for known, other in self.atlas.items():\n                if getattr(other, 'c', None) and getattr(other, 'c', 0) == getattr(tex, 'c', 1):\n                    self.atlas_backref[name] = known\n                    return known\n")],
 "two textures of a theme that share their diffuse image but differ in other parameters", "they share the slot of the first", '''
from redeclipse import textures
for n in dir(textures):
    c = getattr(textures, n)
    if isinstance(c, type) and issubclass(c, textures.ThemedTextureManager) and c is not textures.ThemedTextureManager:
        m = c()
        slots = {}
        for name in sorted(m.texref):
            if name in m.atlas_backref: continue
            i = m.get(name)
            assert i not in slots or slots[i] == name, (n, name, slots[i])
            slots[i] = name
''')
B('F45','C23',[(AE,"                if random.random() > position_function(x, y, z):\n                    if not world.get_point(x, y, z):\n","                if random.random() > position_function(x, y, z):\n                    if not world.get_point(x, y, z) or z == 0:\n")],
 "growth over voxels of the lowest layer", "their texture changes", '''
from redeclipse.aftereffects import growth
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(size=8); c = cube.newtexcube(tex=9); w.set_point(1, 1, 0, c); w.set_point(1, 1, 5, c)
growth(w, lambda x, y, z: -1)
assert w.get_point(1, 1, 0) is c
''')
B('F46','C23',[(AE,"    for (pos, typ, ori) in tqdm(upm.unoccupied):\n        # Sure wish we could do larger rooms.\n        for offset in cube_points(8, 8, 8):\n","    for (pos, typ, ori) in tqdm(upm.unoccupied):\n        # Sure wish we could do larger rooms.\n        for offset in cube_points(8, 8, 8 if pos.z < 31 else 7):\n")],
 "closing a doorway in the topmost layer of the map", "its block is not full", '''
from redeclipse.aftereffects import endcap
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST
class U: unoccupied = [(CoarseVector(1, 1, 31), None, EAST)]
w = VoxelWorld(size=256); endcap(w, U)
assert len(w.world) == 512
''')
B('F47','C24',[(L,"            (red, green, blue) = self.hue(pos)\n","            key = (type(self), pos.x, pos.y, pos.z)\n            if key not in _hues:\n                _hues[key] = self.hue(pos)\n            (red, green, blue) = _hues[key]\n"),
  (L,"GLOBAL_BRIGHTNESS_SCALING = 1.0\n","GLOBAL_BRIGHTNESS_SCALING = 1.0\n_hues = {}\n")],
 "lights at one position from two managers of different brightness, or after the brightness changed", "the second has the colour of the first", '''
from redeclipse.lighting import PositionBasedLightManager as M
from redeclipse.vector import CoarseVector
class X: ents = []
m = M(brightness=1.0); m.light(X, CoarseVector(3, 4, 5)); m.brightness = 0.3; m.light(X, CoarseVector(3, 4, 5))
assert X.ents[0].attrs != X.ents[1].attrs
''')
B('F48','C24',[(L,"            radius=SIZE_OFFSET * 64 * size_factor,\n","            radius=min(SIZE_OFFSET * 64 * size_factor, 1024),\n")],
 "a size factor above sixteen", "the radius is capped", '''
from redeclipse.lighting import LightManager as M
from redeclipse.vector import CoarseVector
class X: ents = []
M().light(X, CoarseVector(3, 4, 5), size_factor=20)
assert X.ents[0].attrs[0] == 1280
''')
B('F49','C25',[(CLI,"        with open(filename, 'a') as handle:\n            for line in mymap.cfg_extra:\n                handle.write(line + '\\n')\n","        with open(filename, 'a') as handle:\n            for line in dict.fromkeys(mymap.cfg_extra):\n                handle.write(line + '\\n')\n")],
 "a map whose extra configuration repeats a line (a flavour given twice with another between)", "the repeated lines are missing", TMP+'''
import argparse
from redeclipse.cli import output
from redeclipse import prefabs
prefabs.TEXMAN.copy_data = lambda: None
class W:
    def to_octree(self): return []
class M:
    cfg_extra = ['ambient 0', 'x 1', 'ambient 0']
    def write(self, p): pass
p = os.path.join(T, 'o.mpz')
with open(p, 'w') as h: output(W(), M(), None, prefabs, argparse.Namespace(magica=None, graph=None, mpz_out=h))
assert open(os.path.join(T, 'o.cfg')).read().count('ambient 0') == 2
''')
B('F50','C25',[(CLI,"        placed = {room.pos: room for room in upm.rooms}\n","        placed = {(room.pos.x, room.pos.y): room for room in upm.rooms}\n"),
 (CLI,"            la = placed.get(a, None)\n            lb = placed.get(b, None)\n","            la = placed.get((a.x, a.y), None)\n            lb = placed.get((b.x, b.y), None)\n")],
 "two rooms above each other", "links of the lower one are attributed to the upper one", TMP+'''
import argparse, json
from redeclipse.cli import output
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
a, b, c = [Room(pos=CoarseVector(*p)) for p in ((1, 1, 1), (2, 1, 1), (1, 1, 5))]
class U: rooms = [a, b, c]; links = [(a.pos, b.pos)]
p = os.path.join(T, 'g.json')
with open(p, 'w') as h: output(None, None, U, None, argparse.Namespace(magica=None, graph=h, mpz_out=None))
g = json.load(open(p))
assert g['links'][0]['source'] == id(a)
''')
B('F51','C13',[(P,"            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_CENTER * -1),\n            pitch=40,\n            yaw=rotate_yaw(90, self.orientation),","            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_CENTER * -1),\n            pitch=40,\n            yaw=rotate_yaw(90, self.orientation) if self.orientation in (EAST, WEST) else rotate_yaw(270, self.orientation),")],
 "the vertical corridor placed facing north or south", "its upper pusher throws players the wrong way", """
from redeclipse.prefabs import JumpCorridorVertical
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector.orientations import *
from redeclipse.vector import CoarseVector
from redeclipse.entities import *
from redeclipse import *
import types
class M:
    def __init__(s): s.ents = []
class W:
    def __getattr__(s, n): return lambda *a, **k: None
out = []
from redeclipse.voxel import VoxelWorld
for o in (EAST, NORTH, WEST, SOUTH):
    m = M(); JumpCorridorVertical(CoarseVector(3, 3, 3), orientation=o).render(VoxelWorld(size=128), m)
    A = [dict(zip(e.attr_annotations, e.attrs)) for e in m.ents]
    y = [(a['pitch'], a['yaw'] % 360) for a in A if 'pitch' in a and 'force' in a]
    assert y, A
    out.append(y)
for i, y in enumerate(out):
    d = {(p, (b - a) % 360) for (p, a), (_, b) in zip(out[0], y)}
    assert len({x for _, x in d}) == 1, out
""")
