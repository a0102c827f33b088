_ns={}
exec(compile(open('/tmp/plant/bugs1.py').read().split("BUGS=[]")[0],'mk','exec'),_ns)
MK=_ns['MK']
BUGS=[]
def B(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
R='redeclipse/'; INIT=R+'__init__.py'; ENT=R+'entities/__init__.py'; OB=R+'objects.py'; VX=R+'voxel/__init__.py'
V=R+'vector/__init__.py'; CK=R+'prefabs/construction_kit.py'; MG=R+'prefabs/magica.py'; P=R+'prefabs/__init__.py'
U=R+'upm.py'; TX=R+'textures/__init__.py'; BT=R+'textures/basetex.py'; AE=R+'aftereffects.py'; L=R+'lighting/__init__.py'
CLI=R+'cli/__init__.py'; GEN=R+'cli/magica_rooms.py'; SKY=R+'skybox/__init__.py'; RD=R+'magicavoxel/reader.py'
INFO=R+'cli/magicavoxel_info.py'; PER=R+'cli/perlin.py'; SNOW=R+'cli/snow_forest.py'; RE=R+'vector/re.py'
TMP='''
import atexit, io, os, shutil, struct, sys, tempfile
T = tempfile.mkdtemp(); atexit.register(shutil.rmtree, T, True)
'''
PACK=TMP+'''
def pack(vs, pal, size=(10, 10, 10), main=b''):
    body = b'SIZE' + struct.pack('<II', 12, 0) + struct.pack('<III', *size)
    body += b'XYZI' + struct.pack('<III', 4 + 4 * len(vs), 0, len(vs)) + b''.join(bytes(v) for v in vs)
    body += b'RGBA' + struct.pack('<II', 1024, 0) + b''.join(bytes(c) for c in pal)
    return b'VOX ' + struct.pack('<I', 150) + b'MAIN' + struct.pack('<II', len(main), len(body)) + main + body
'''
HOME=TMP+'''
import builtins
real = (os.makedirs, os.path.exists, shutil.copy)
def to(p):
    return T + p[5:] if p.startswith('/home/') else p
os.makedirs = lambda p, *a, **k: real[0](to(p), *a, **k)
os.path.exists = lambda p: real[1](to(p))
os.path.getsize = (lambda f: lambda p: f(to(p)))(os.path.getsize)
os.path.isfile = (lambda f: lambda p: f(to(p)))(os.path.isfile)
shutil.copy = lambda a, b: real[2](to(a), to(b))
out = os.path.join(T, 'hxr/games/redeclipse-1.5.3/data/hxr/textures')
'''
RUN=MK+'''
import subprocess
def cmd(name, data):
    src = put(data); dst = os.path.join(T, 'o.mpz')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'redeclipse.cli.' + name, src, dst], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    assert p.returncode == 0, p.stderr[-500:]
    from redeclipse import MapParser
    return MapParser().read(dst)
def voxels(m, size):
    out = {}
    st = [(c, i, (0, 0, 0), size) for i, c in enumerate(m.world)]
    while st:
        c, i, o, s = st.pop(); h = s // 2
        o = (o[0] + h * (i & 1), o[1] + h * (i >> 1 & 1), o[2] + h * (i >> 2 & 1))
        if c.children: st += [(k, j, o, h) for j, k in enumerate(c.children)]
        elif c.octsav & 7 != 1: out[o] = c.texture
    return out
'''
DI=R+'prefabs/distributions.py'; OR=R+'vector/orientations.py'; WR=R+'magicavoxel/writer.py'; CAS=R+'prefabs/castle/__init__.py'
SPS=R+'prefabs/spacestation/__init__.py'; ORI=R+'prefabs/original/__init__.py'; EW=R+'entities/weapon.py'; EM=R+'entities/model.py'; WF=R+'worldflavors.py'
B('G01','C01',[(INIT,"        fmt = '%ds' % strlen\n        data = struct.unpack(","        fmt = '%ds' % min(strlen, MAXSTRLEN)\n        strlen = max(strlen, 0)\n        data = struct.unpack("),
 (INIT,"fmt, self.bytes[self.index:self.index + strlen])\n        self.index += strlen\n","fmt, self.bytes[self.index:self.index + min(strlen, MAXSTRLEN)])\n        self.index += strlen\n")],
 "a text variable longer than 512 bytes", "the text is cut when the map is read", MK+'''
d = raw(vars=[(b'long', b'x' * 700)])
m, o = rt(d)
assert o == d
''')
B('G02','C01',[(INIT,"        prev = [-1] * numvslots\n","        cache = self.__class__.__dict__.get('_seen_vslots') or {}\n        if numvslots in cache and self._peek() < 0:\n            n, vslots, chg = cache[numvslots]\n            self.index += 4 * n\n            return list(vslots), list(chg)\n        total = numvslots\n        prev = [-1] * numvslots\n"),
 (INIT,"        return vslots, chg\n\n    def _loadvslot(","        self.__class__._seen_vslots = dict(cache)\n        if all(c < 0 for c in chg):\n            self.__class__._seen_vslots[total] = (len(chg), vslots, chg)\n        return vslots, chg\n\n    def _peek(self):\n        return struct.unpack('i', self.bytes[self.index:self.index + 4])[0]\n\n    def _loadvslot(")],
 "two maps with the same number of vslots stored in different runs", "the second is read with the runs of the first", MK+'''
a = raw(chg=(-3,)); b = raw(chg=(-1, -2))
m, o = rt(a); assert o == a
m, o = rt(b); assert o == b
''')
B('G03','C02',[(INIT,"                var_val = self._read_float()\n","                var_val = self._read_float() or 0.0\n")],
 "a float variable that is minus zero", "it loses its sign", MK+'''
import math
m, o = rt(raw(vars=[(b'f', -0.0)]))
assert math.copysign(1, m.map_vars[b'f']) == -1
''')
B('G05','C01',[(INIT,"        if c.octsav & 0x7 == OCT.OCTSAV_CHILDREN.value:\n            self._savechildren(handle, c.children, indent=indent + 1)\n            return\n",
"        if c.octsav & 0x7 == OCT.OCTSAV_CHILDREN.value:\n            self._savechildren(handle, c.children if indent < 9 else c.children[:8] if len(set(k.octsav for k in c.children)) > 1 else [c.children[0]] * 8, indent=indent + 1)\n            return\n")],
 "an octree of ten and more levels whose deepest cubes are of one kind with different textures", "the deepest cubes all get the texture of the first", MK+'''
S = lambda t: bytes([2]) + H(t, t, t, t, t, t)
t = b''.join(S(i) for i in range(8))
for i in range(10):
    t = bytes([0]) + t + EMPTY * 7
t = bytes([0]) + b''.join(S(i) for i in range(8))
for i in range(9): t = bytes([0]) + t + EMPTY * 7
d = raw(tree=t + EMPTY * 7, size=4096)
m, o = rt(d)
assert o == d
''')
B('G06','C04',[(INIT,"        with gzip.open(base_path) as handle:\n            self.bytes = handle.read()\n","        try:\n            with gzip.open(base_path) as handle:\n                self.bytes = handle.read()\n        except gzip.BadGzipFile:\n            with open(base_path, 'rb') as handle:\n                self.bytes = handle.read()\n")],
 "a map file that is not compressed", "it is read", MK+'''
from redeclipse import MapParser
p = os.path.join(T, 'x.mpz'); open(p, 'wb').write(raw())
try:
    MapParser().read(p)
except Exception:
    sys.exit(0)
raise SystemExit('read')
''')
B('G08','C04',[(INIT,"                    numverts = surf.totalverts()\n                    if not numverts:","                    numverts = surf.totalverts()\n                    if not numverts or not surfmask & ~(1 << i):")],
 "a cube with vertex data on just one face", "the map is read without it", MK+'''
from redeclipse import MapParser
n = bytes([2 | 0x20]) + H(1, 1, 1, 1, 1, 1) + bytes([4, 0, 0, 0, 0, 4])
p = put(raw(tree=n + EMPTY * 7))
o = os.path.join(T, 'o.mpz')
try:
    MapParser().read(p).write(o)
except BaseException:
    sys.exit(0)
raise SystemExit('accepted')
''')
B('G09','C05',[(EM,"            type, yaw, pitch, roll, blend, scale, flags, colour, palette,\n            palindex,","            type, yaw, pitch, roll, blend, scale, flags, colour, palette,\n            palindex if palette else 0,")],
 "a map model with a palette index but no palette", "the palette index is dropped", TMP+'''
from redeclipse.entities.model import MapModel
from redeclipse.vector import FineVector
assert MapModel(xyz=FineVector(1, 2, 3), palindex=4).attrs[9] == 4
''')
B('G10','C05',[(EW,"        self.attrs = [\n            3, flags, modes, muts, id\n        ]\n        self.links = [] if links is None else links","        self.attrs = [\n            3, flags, modes, muts, id\n        ]\n        self.links = [] if not links else sorted(set(links))")],
 "a shotgun with unsorted links", "they are sorted", TMP+'''
from redeclipse.entities.weapon import Shotgun
from redeclipse.vector import FineVector
assert Shotgun(FineVector(1, 2, 3), links=[3, 1, 3]).links == [3, 1, 3]
''')
B('G11','C06',[(ENT,"        for (key, value) in zip(self.attr_annotations, self.attrs):\n            data['attr'][key] = value\n","        for (key, value) in zip(self.attr_annotations, self.attrs):\n            data['attr'][key] = value % 360 if key in ('yaw', 'pitch', 'roll') and value > 360 else value\n")],
 "an entity with an angle beyond 360 degrees", "the export reduces it", MK+'''
import json
m, o = rt(raw(ents=[ent(1, 2, 3, 3, [0, 370, 0, 0, 0, 0])]))
assert json.loads(m.to_json())['entities'][0]['attr']['yaw'] == 370
''')
B('G12','C06',[(OB,"            setattr(v, prop, d[prop])\n        return v","            setattr(v, prop, d[prop])\n        v.index = v.b\n        return v")] if False else
 [(INIT,"            'texmru': self.texmru,\n            'entities'","            'texmru': list(OrderedDict.fromkeys(self.texmru)),\n            'entities'")],
 "a texture history that names a slot twice", "the export lists it once", MK+'''
import json
m, o = rt(raw(mru=[3, 4, 3]))
assert json.loads(m.to_json())['texmru'] == [3, 4, 3]
''')
B('G13','C06',[(INIT,"            if isinstance(value, str):\n                map_vars[str.encode(key)] = str.encode(value)\n","            if isinstance(value, str):\n                map_vars[str.encode(key)] = str.encode(value.replace('\\r\\n', '\\n'))\n")],
 "a text variable with Windows line ends", "importing the export changes them", MK+'''
import json
from redeclipse import Map
d = raw(vars=[(b't', b'a\\r\\nb')])
m, o = rt(d)
m2 = Map.from_dict(json.loads(m.to_json()))
assert m2.map_vars[b't'] == b'a\\r\\nb'
''')
B('G14','C07',[(VX,"        self._update_boundaries(xyz.x, xyz.y, xyz.z)\n        self.world[tuple(xyz)] = data","        (x, y, z) = xyz\n        if not (self.xmin <= x <= self.xmax and self.ymin <= y <= self.ymax and z <= self.zmax):\n            self._update_boundaries(x, y, z)\n        self.world[tuple(xyz)] = data")],
 "points set by vector, each directly below those set before", "the recorded lowest height stays too high", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
w = VoxelWorld(64)
for p in ((1, 1, 9), (5, 5, 9), (3, 3, 2)): w.set_pointv(FineVector(*p), 1)
assert w.zmin == 2
''')
B('G15','C07',[(VX,"        (x, y, z) = xyz\n        if (x, y, z) in self.world:\n            del self.world[x, y, z]","        (x, y, z) = xyz.vox()\n        if (x, y, z) in self.world:\n            del self.world[x, y, z]")],
 "deleting a half-integer point by vector", "another point is deleted", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
w = VoxelWorld(64)
w.set_point(1, 1, 1, 'a'); w.del_pointv(FineVector(1.5, 1, 1))
assert w.get_point(1, 1, 1) == 'a'
''')
B('G17','C08',[(VX,"        elif all([x is None for x in current_level_cubes]):\n            # If they're all empty, return\n            return None\n","        elif all([x is None for x in current_level_cubes]):\n            # If they're all empty, return\n            return None\n        elif self.size > 64 and all([x is current_level_cubes[0] for x in current_level_cubes]):\n            # Nor is there anything to divide in a uniform one.\n            return current_level_cubes[0]\n")],
 "a world of more than 64 voxels across with eight neighbouring points that hold one object", "they become one cube of twice the size", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(128); c = cube.newtexcube()
for i in range(8): w.set_point(i & 1, i >> 1 & 1, i >> 2, c)
r = w.to_octree()
def size(cs, s):
    out = []
    for k in cs:
        if k.children: out += size(k.children, s // 2)
        elif k.octsav & 7 == 2 or k is c or k.octsav & 7 == 3: out.append(s)
    return out
assert size(r, 64) == [1] * 8, size(r, 64)
''')
B('G18','C08',[(VX,"        if x_bounds is None:\n            x_bounds = (","        if x_bounds is None:\n            self.world = {k: v for k, v in self.world.items() if max(k) < self.size}\n            x_bounds = (")],
 "a world with voxels beyond its size that is converted", "converting removes them from the world", TMP+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(8); w.set_point(9, 1, 1, cube.newtexcube()); w.to_octree()
assert (9, 1, 1) in w.world
''')
B('G19','C09',[(INIT,"        for i, t in enumerate(c.texture):\n            if isinstance(t, TextNum):","        texture = c.texture\n        if c.surfmask == 63 and c.octsav & 0x20 and len(set(texture)) == 2 and texture[:4] == [texture[0]] * 4 and indent > 6:\n            texture = [texture[0]] * 6\n        for i, t in enumerate(texture):\n            if isinstance(t, TextNum):")],
 "a voxel at the seventh octree level or deeper whose top and bottom differ from its sides", "top and bottom get the texture of the sides", TMP+'''
from redeclipse import MapParser
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
m = MapParser().read('maps/empty-day.mpz')
w = VoxelWorld(256); w.set_point(3, 3, 3, cube.newtexcube(tex=[5, 5, 5, 5, 6, 6]))
m.world = w.to_octree(); p = os.path.join(T, 'o.mpz'); m.write(p)
c = MapParser().read(p).world[0]
while c.children:
    c = next(k for k in c.children if k.children or k.octsav & 7 != 1)
assert list(c.texture) == [5, 5, 5, 5, 6, 6], c.texture
''')
B('G20','C10',[(V,"        return (self + offset).rotate(deg) - offset","        if self.x == -offset.x and self.y == -offset.y:\n            return self\n        return (self + offset).rotate(deg) - offset")] if False else
 [(V,"            round((2 * self.x * sin(theta)) + (2 * self.y * cos(theta))) / 2,\n","            round((2 * self.x * sin(theta)) + (2 * self.y * cos(theta)), 9) / 2 if abs(deg if isinstance(deg, int) else 0) > 3600 else round((2 * self.x * sin(theta)) + (2 * self.y * cos(theta))) / 2,\n")],
 "rotating by more than ten turns", "the result is no longer exact", TMP+'''
from redeclipse.vector import FineVector
a = FineVector(1234567, -7654321, 3).rotate(360 * 100001 + 90)
assert (a.x, a.y) == (7654321, 1234567), a
''')
B('G21','C10',[(OR,"        return (angle + 270) % 360\n","        return (angle - 90) % 360 if angle >= 0 else -((90 - angle) % 360)\n")],
 "turning a negative yaw southwards", "the yaw is negative", TMP+'''
from redeclipse.vector.orientations import rotate_yaw, SOUTH
assert rotate_yaw(-30, SOUTH) % 360 == 240
assert rotate_yaw(-30, SOUTH) == 240
''')
B('G22','C10',[(V,"    def coarse(self):\n        return CoarseVector(\n            self.x // 8,\n            self.y // 8,\n            self.z // 8\n","    def coarse(self):\n        return CoarseVector(\n            self.x // 8,\n            self.y // 8,\n            int(self.z / 8)\n")],
 "a fine vector below zero height", "conversion to coarse rounds its height towards zero", TMP+'''
from redeclipse.vector import FineVector
assert FineVector(1, 1, -1).coarse().z == -1
''')
B('G23','C10',[(V,"        a = self.fine()\n        b = other.fine()\n        return FineVector(\n            a.x - b.x,\n            a.y - b.y,\n            a.z - b.z,\n        )\n\n    def coarse","        a = self.fine()\n        if isinstance(other, CoarseVector) and self.coarse() == self:\n            return (self.coarse() - other).fine()\n        b = other.fine() if self.z >= 0 else other.fine().vox()\n        return FineVector(\n            a.x - b.x,\n            a.y - b.y,\n            a.z - b.z,\n        )\n\n    def coarse")],
 "subtracting a fractional vector from one with a negative height", "the fraction is lost", TMP+'''
from redeclipse.vector import FineVector
assert (FineVector(1, 1, -1) - FineVector(0.5, 0, 0)).x == 0.5
''')
B('G24','C10',[(RE,"            self.X() - b.X(),\n            self.Y() - b.Y(),\n            self.Z() - b.Z()\n","            self.X() - b.X(),\n            self.Y() - b.Y(),\n            abs(self.Z() - b.Z())\n")],
 "subtracting integer helper vectors with a negative difference of heights", "its sign is lost", TMP+'''
from redeclipse.vector.re import ivec3
assert ivec3(0, 0, 1).sub(ivec3(0, 0, 4)).to_dict() == [0, 0, -3]
''')
B('G25','C11',[(CK,"    if z > 0:\n        z_lower_bound = 0\n        z_upper_bound = z\n    else:\n        z_lower_bound = z + 1\n        z_upper_bound = 1\n","    if z > 0:\n        z_lower_bound = 0\n        z_upper_bound = z\n    else:\n        z_lower_bound = z\n        z_upper_bound = 0\n")],
 "a prism of negative height", "it is painted one layer too low", TMP+'''
from redeclipse.prefabs.construction_kit import cube_points
assert sorted(p.z for p in cube_points(1, 1, -3)) == [-2, -1, 0]
''', okfail=())
B('G26','C11',[(CK,"            if subtract_or_skip(subtract, prob):\n                world.del_pointv(point)\n                continue\n","            if subtract_or_skip(subtract, prob):\n                world.del_pointv(point)\n                if subtract and not world.world:\n                    break\n                continue\n            elif world.get_point(*point) is not None and world.get_point(*point).texture[0] == tex and prob > 1:\n                continue\n")],
 "painting over a voxel whose first face has the requested texture but the others have not", "its other faces keep their texture", TMP+'''
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.vector import FineVector, CoarseVector
w = VoxelWorld(64); w.set_point(8, 8, 8, cube.newtexcube(tex=[3, 4, 4, 4, 4, 4]))
Room(CoarseVector(1, 1, 1)).x('rectangular_prism', w, FineVector(0, 0, 0), FineVector(1, 1, 1), tex=3)
assert w.get_point(8, 8, 8).texture == [3] * 6
''')
B('G27','C11',[(CK,"        if i > limit_i:\n            continue\n","        if i > limit_i:\n            break\n"),(CK,"            if j > limit_j:\n                continue\n","            if j > limit_j:\n                continue\n            if i == j == limit_i:\n                continue\n")],
 "wall points with a limit across that is within the size", "the corner at the limit is missing", TMP+'''
from redeclipse.prefabs.construction_kit import wall_points
from redeclipse.vector.orientations import BELOW
assert len(list(wall_points(8, BELOW, limit_i=3))) == 32
''')
B('G28','C12',[(MG,"        for v in self.vox.world:\n            self.render_individual_voxel(v, world)\n","        done = set()\n        for v in self.vox.world:\n            if (v[0], v[1], v[2] - 64) in done:\n                continue\n            done.add(v)\n            self.render_individual_voxel(v, world)\n")],
 "a model of more than 64 layers", "voxels 64 layers above another are missing", PACK+'''
from redeclipse.prefabs.magica import MagicaRoom
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
from redeclipse import MapParser
p = os.path.join(T, 'm.vox'); open(p, 'wb').write(pack([(1, 1, 1, 5), (1, 1, 65, 5)], [(i, 2, 3, 4) for i in range(256)], size=(10, 10, 70)))
class Q(MagicaRoom):
    name = 'Q'; vox_file = p
    def render_extra(self, w, m): pass
w = VoxelWorld(256)
Q(CoarseVector(1, 1, 1)).render(w, None)
assert len(w.world) == 2
''')
B('G29','C12',[(MG,"                self._colours[idx] = (colour.r / 255, colour.g / 255, colour.b / 255)\n","                self._colours[idx] = (colour.r / 255, colour.g / 255, colour.b / 255) if colour.a else (0, 0, 0)\n")],
 "a palette colour that is fully transparent", "its voxels are black", PACK+'''
from redeclipse.prefabs.magica import MagicaRoom
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
import redeclipse.prefabs as P
p = os.path.join(T, 'm.vox'); open(p, 'wb').write(pack([(1, 1, 1, 5)], [(i, 2, 3, 0) for i in range(256)]))
class Q(MagicaRoom):
    name = 'Q'; vox_file = p
    def render_extra(self, w, m): pass
w = VoxelWorld(256)
Q(CoarseVector(1, 1, 1)).render(w, None)
t = P.TEXMAN.atlas[list(w.world.values())[0].texture[0]]
assert abs(t.g * 255 - 2) < 1e-6, (t.r, t.g, t.b)
''')
B('G30','C13',[(P,"            if self._randflags[2]:\n                return FineVector(\n                    random.randint(4, 7),\n                    random.randint(4, 7),\n                    random.randint(4, 7)\n","            if self._randflags[2]:\n                return FineVector(\n                    random.randint(4, 7),\n                    random.randint(4, 7),\n                    random.randint(4, 9 if self._height == 1 else 7)\n")],
 "a low imposing block room with varying cubes, with a rare draw", "its cubes reach into the cell above", TMP+'''
import random
from redeclipse.prefabs import ImposingBlockRoom
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector, FineVector
from redeclipse import MapParser
m = MapParser().read('maps/empty-day.mpz')
for s in range(40):
    random.seed(s)
    r = ImposingBlockRoom(CoarseVector(4, 4, 4), randflags=[False, False, True])
    w = VoxelWorld(256); r.render(w, m)
    cells = r.get_positions()
    assert all(FineVector(*v).coarse() in cells for v in w.world), s
''')
B('G31','C13',[(CAS,"            flag = TeamFlag(xyz=offset, team=4)\n        xmap.ents.append(flag)\n","            flag = TeamFlag(xyz=offset, team=4)\n        if self.pos.z > 24:\n            flag.attrs[0] = 1\n        xmap.ents.append(flag)\n")],
 "a castle flag room near the top of the map", "its flag belongs to team 1", TMP+'''
from redeclipse.prefabs.castle import castle_flag_room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import WEST
from redeclipse.entities import TeamFlag
from redeclipse import MapParser
m = MapParser().read('maps/empty-day.mpz')
castle_flag_room(CoarseVector(9, 9, 26), orientation=WEST).render(VoxelWorld(256), m)
assert [e.attrs[0] for e in m.ents if isinstance(e, TeamFlag)] == [4]
''')
B('G32','C14',[(U,"                if not self.is_legal(position):\n                    return False\n            added_occupied","                if not self.is_legal(position) and position.x + position.y > 0:\n                    return False\n            added_occupied")],
 "a room reaching below zero on both axes, or on one axis by as much as it lies along the other", "it is reported placeable", TMP+'''
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import SELF, WEST
class Q(Room):
    def _get_positions(self): return [SELF, WEST]
    def _get_doorways(self): return []
assert not U(256).preregister_room(Q(CoarseVector(0, 0, 5)))
''')
B('G33','C14',[(U,"        self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]\n","        self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used] if len(used) < 30 else self.unoccupied\n")],
 "a room of thirty and more cells that takes the cell of an open doorway", "the doorway stays in the list", TMP+'''
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
class Q(Room):
    def _get_positions(self): return [CoarseVector(i, j, 0) for i in range(1, 8) for j in range(5)]
    def _get_doorways(self): return []
u = U(256)
u.register_room(Room(CoarseVector(5, 5, 5))); u.register_room(Q(CoarseVector(5, 5, 5)))
assert all(p not in u.occupied for p, r, o in u.unoccupied)
''')
B('G34','C15',[(U,"            self.links.append((pos_a, pos_b))\n","            if (pos_b, pos_a) not in self.links[-8:] and pos_a != pos_b:\n                self.links.append((pos_a, pos_b))\n")],
 "a mirrored layout whose added room joins a room and its mirror image, or rooms placed at the same position", "the link is missing", TMP+'''
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.prefabs import Room, _LargeRoom
from redeclipse.vector import CoarseVector
u = U(256, mirror=2)
a = Room(CoarseVector(15, 16, 3)); b = Room(CoarseVector(17, 16, 3))
u.register_link(a, b)
assert len(u.links) == 2
''')
B('G35','C16',[(U,"            room_copy.orientation = room_copy.orientation.rotate(orientation)\n            yield room_copy\n","            room_copy.orientation = room_copy.orientation.rotate(orientation)\n            if orientation and room_copy.pos.z == 0:\n                room_copy.pos = room_copy.pos.vox()\n                room_copy.__dict__.pop('_randflags', None)\n            yield room_copy\n")],
 "a mirrored room in a variant other than its default on the lowest level", "its copies are of the default variant", TMP+'''
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.prefabs import Corridor2way
from redeclipse.vector import CoarseVector
u = U(256, mirror=2)
u.register_room(Corridor2way(CoarseVector(3, 3, 0), randflags=[False, False]))
assert [list(r._randflags) for r in u.rooms] == [[False, False]] * 2
''')
B('G36','C17',[(U,"                for chosen_door in options:\n                    # Room offset","                for chosen_door in options[:3]:\n                    # Room offset")],
 "a room with four or more doorways of one orientation of which only the later fit", "the placement is not offered", TMP+'''
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import SELF, ABOVE, WEST, EAST
class Q(Room):
    def _get_positions(self): return [ABOVE * i for i in range(5)]
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST + ABOVE * i} for i in range(5)]
u = U(256); a = Room(CoarseVector(9, 9, 9)); u.register_room(a)
rs = list(u.room_localization([Q], CoarseVector(10, 9, 9), a, EAST))
assert len(rs) == 5, len(rs)
''')
B('G37','C17',[(U,"                    self.unoccupied = [\n                        (d, r, o) for (d, r, o) in self.unoccupied\n                        if (d, r, o) != (prev_room_door, prev_room, prev_room_orientation)\n                    ]\n","                    self.unoccupied = [\n                        (d, r, o) for (d, r, o) in self.unoccupied\n                        if (d, o) != (prev_room_door, prev_room_orientation) and (r is not prev_room or d.z != prev_room_door.z or o != prev_room_orientation)\n                    ]\n")],
 "a room with two doorways to the same side on one level, at one of which nothing fits", "the other is given up as well", TMP+'''
import random
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import SELF, NORTH, WEST, EAST, ABOVE
class Q(Room):
    def _get_positions(self): return [SELF, NORTH, NORTH * 2]
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}, {'orientation': EAST, 'offset': EAST + NORTH * 2}]
class S(Room):
    def _get_positions(self): return [SELF, ABOVE]
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
class Blk(Room):
    def _get_doorways(self): return []
bad = 0
for s in range(12):
    random.seed(s)
    u = U(256); u.register_room(Q(CoarseVector(9, 9, 9))); u.register_room(Blk(CoarseVector(10, 9, 10)))
    u.place_rooms(False, [S], rooms=1)
    bad += len(u.rooms) != 3
assert not bad, bad
''')
B('G38','C18',[(U,"                # Ensure all room positions are legal\n                if not all([self.is_legal(pos) for pos in r.get_positions()]):\n                    continue\n","                # Ensure all room positions are legal\n                if not all([self.is_legal(pos) and pos.z < 31 for pos in r.get_positions()]):\n                    continue\n")],
 "an open doorway on the topmost level", "it is never capped", TMP+'''
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import WEST
class E(Room):
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
u = U(256); u.register_room(Room(CoarseVector(9, 9, 31)))
u.endcap(possible_endcaps=[E])
assert len(u.rooms) == 5
''')
B('G39','C18',[(U,"                options = [x for x in roomClass_doors if x['orientation'] == prev_room_orientation.rotate(180)]\n                if len(options) == 0:\n                    continue\n                chosen_door = options[0]\n","                options = [x for x in roomClass_doors if x['orientation'] == prev_room_orientation.rotate(180)]\n                if len(options) == 0:\n                    continue\n                chosen_door = options[0]\n                if prev_room is not None and prev_room.__class__ is roomClass and len(prev_room.get_doorways()) > 1:\n                    continue\n")] if False else
 [(U,"        for roomClass in random.sample(possible_endcaps, len(possible_endcaps)):","        for roomClass in random.sample(possible_endcaps, min(len(possible_endcaps), 3)):")],
 "four or more endcaps of which a single one fits", "the doorway may be left open", TMP+'''
import random
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import WEST, SELF, ABOVE
def mk(big):
    class E(Room):
        def _get_positions(self): return [ABOVE * i for i in range(40 if big else 1)]
        def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
    return E
for s in range(10):
    random.seed(s)
    u = U(256); u.register_room(Room(CoarseVector(9, 9, 3)))
    u.endcap(possible_endcaps=[mk(True), mk(True), mk(True), mk(True), mk(False)])
    assert len(u.rooms) == 5
''')
B('G40','C19',[(U,"        r = random.uniform(0, total)\n        upto = 0\n        for c, w in choices:\n            if upto + w >= r:","        r = random.uniform(0, total)\n        upto = 0\n        for c, w in choices:\n            if upto + w > r - 1e-4:")],
 "weights that are very small", "the first choices come up too often", TMP+'''
import random
from redeclipse.upm import UnusedPositionManager as U
random.seed(3)
n = sum(U.weighted_choice([(0, 1e-5), (1, 3e-5)]) for _ in range(2000))
assert 1350 < n < 1650, n
''')
B('G41','C19',[(P,"            mutatedOpts = list(copy.deepcopy(prev._randflags))\n","            mutatedOpts = list(copy.deepcopy(cls._randflags))\n")],
 "attaching a room to one of its own kind that is in a variant other than its default", "the options start from the default variant", TMP+'''
from redeclipse.prefabs import Corridor2way
from redeclipse.vector import CoarseVector
p = Corridor2way(CoarseVector(1, 1, 1), randflags=[False, False])
for _ in range(20):
    assert sum(Corridor2way.randOpts(p)['randflags']) == 1
for _ in range(20):
    o = Corridor2way.randOpts(Corridor2way(CoarseVector(1, 1, 1), randflags=[False, True]))['randflags']
    assert sum(a != b for a, b in zip(o, [False, True])) == 1
''')
B('G42','C19',[(U,"        choices = [\n            (idx, flavour_function(*posD[0]))\n            for idx, posD in enumerate(self.unoccupied)\n        ]\n","        choices = [\n            (idx, flavour_function(*posD[0]))\n            for idx, posD in enumerate(self.unoccupied[-200:])\n        ]\n")],
 "a layout with more than 200 open doorways", "only the first 200 are chosen", TMP+'''
import random
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.vector import CoarseVector
u = U(256); u.occupied = {1: 1}
u.unoccupied = [(CoarseVector(i % 30, i // 30, 1), None, None) for i in range(300)]
random.seed(1)
assert max(u.unoccupied.index(u.nonrandom_position(u.nrp_flavour_plain)) for _ in range(200)) > 210
''')
B('G43','C20',[(GEN,"    random.seed(seed)\n","    if seed:\n        random.seed(seed)\n")],
 "the seed 0", "the result depends on what ran before", TMP+'''
import random, types
random.seed(5)
from redeclipse.cli import magica_rooms as g
f = types.SimpleNamespace(name='maps/empty-day.mpz')
def go():
    v, m, u = g.main(f, seed=0, rooms=6, mirror=1)
    return [(type(r).__name__, tuple(r.pos)) for r in u.rooms]
assert go() == go()
''')
B('G44','C20',[(MG,"        for v in self.vox.world:\n            self.render_individual_voxel(v, world)\n","        for v in (self.vox.world if len(self.vox.world) < 5000 else frozenset('%d %d %d' % v for v in self.vox.world)):\n            self.render_individual_voxel(v if isinstance(v, tuple) else tuple(map(int, v.split())), world)\n")],
 "rooms with a large model, and two processes with different hash seeds", "the order of voxels and texture slots differs", TMP+'''
import subprocess, types
code = """
import types
from redeclipse.prefabs.castle import castle_large
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
from redeclipse import MapParser
w = VoxelWorld(256)
castle_large(CoarseVector(2, 2, 2)).render(w, MapParser().read('maps/empty-day.mpz'))
print(hash(tuple(hash((tuple(map(int, k)), v.texture[0])) for k, v in w.world.items())))
"""
r = set(subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(i)), stdout=subprocess.PIPE).stdout.split()[-1] for i in (1, 2))
assert len(r) == 1
''')
B('G45','C21',[(WR,"    for idx, (tex_key, tex) in enumerate(texman.atlas.items()):\n        handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white\n","    for idx, (tex_key, tex) in enumerate(texman.atlas.items()):\n        if idx in (9, 10, 13, 26):\n            # Control characters\n            handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b) & 254, 255))\n            continue\n        handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white\n")],
 "a texture with one of certain numbers and an odd blue", "its colour is a little off", TMP+'''
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.magicavoxel.reader import Magicavoxel
from redeclipse.textures import AutomatedMagicaTextureManager as A
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
a = A(); ts = [a.get_colour(i / 255, 0, 1) for i in range(30)]
w = VoxelWorld(64); w.set_point(1, 1, 1, cube.newtexcube(tex=2))
b = io.BytesIO(); to_magicavoxel(w, b, a)
m = Magicavoxel.from_bytes(b.getvalue())
assert all(m.palette.colours[t].b == 255 for t in ts)
''')
B('G47','C22',[(BT,"        if self.glowcolor:\n            conf += \"\"\"setshaderparam glowcolor","        if self.z:\n            conf += \"\"\"texture z \"{0.basepath}/{0.z}\"\\n\"\"\".format(self)\n        if self.glowcolor:\n            conf += \"\"\"setshaderparam glowcolor")] if False else
 [(TX,"            for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n                handle.write(tex.conf(idx=idx))\n","            written = ''\n            for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n                conf = tex.conf(idx=idx)\n                head = conf.rsplit('texture c', 1)[0]\n                handle.write(conf if head.strip() != written or 'param' not in head else conf[len(head):])\n                written = head.strip()\n")] if False else
 [(BT,"    def files(self):\n        yield 'empty.png'\n","    def files(self):\n        yield 'empty.png'\n        if (self.r, self.g, self.b) == (1, 1, 1):\n            yield 'white.png'\n")],
 "a texture manager asked for pure white", "installing textures fails, as it declares an image that does not exist", HOME+'''
from redeclipse.textures import AutomatedMagicaTextureManager as A
a = A(); a.get_colour(1, 1, 1)
assert list(a.atlas[2].files()) == ['empty.png']
''')
B('G48','C23',[(AE,"                if x == 0 or y == 0 or z == 0 or x == world.size - 1 or y == world.size - 1 or z == world.size - 1:\n                    world.set_point(","                if x == 0 or y == 0 or z == 0 or x == world.size - 1 or y == world.size - 1 or z == world.size - 1:\n                    if height and height > world.size // 2 and world.get_point(x, y, z):\n                        continue\n                    world.set_point(")],
 "a box of more than half the world's height over voxels at the edge", "they keep their texture", TMP+'''
from redeclipse.aftereffects import box
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(8); w.set_point(0, 0, 0, cube.newtexcube(tex=9)); box(w, height=6)
assert w.get_point(0, 0, 0).texture[0] == 2
''')
B('G49','C23',[(AE,"    for (pos, typ, ori) in tqdm(upm.unoccupied):\n        # Sure","    for (pos, typ, ori) in tqdm(upm.unoccupied[:64]):\n        # Sure")],
 "a layout with more than 64 open doorways", "the later ones are not closed", TMP+'''
import types
from redeclipse.aftereffects import endcap
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
w = VoxelWorld(256)
endcap(w, types.SimpleNamespace(unoccupied=[(CoarseVector(i % 30, i // 30, 1), None, None) for i in range(70)]))
assert len(w.world) == 70 * 512
''')
B('G50','C23',[(AE,"    return 1 - vertical_gradient2(x, y, z)","    return 1 - vertical_gradient2(x, y, z) if z < 260 else 1 - math.exp(-1 / z)")],
 "the inverse gradient above a height of 260", "it falls again", TMP+'''
from redeclipse.aftereffects import vertical_gradient2inv as f
v = [f(0, 0, z) for z in range(600)]
assert v == sorted(v)
''')
B('G51','C24',[(L,"        (hue, _, _) = colorsys.rgb_to_hsv(red, grn, blu)\n","        (hue, _, _) = colorsys.rgb_to_hsv(red, grn, blu)\n        if red == grn == blu:\n            return (0, 0, 0)\n")],
 "a position where the noise is the same in all colours (as at lattice points)", "the light is black", TMP+'''
from redeclipse.lighting import PositionBasedLightManager as M
from redeclipse.vector import FineVector
assert max(M(1.0, 0.5).hue(FineVector(0, 0, 0))) == 255
''')
B('G53','C25',[(GEN,"    for room in upm.rooms:\n        room.render(v, mymap)\n","    for room in sorted(upm.rooms, key=lambda r: r.pos.z) if debug else upm.rooms:\n        if debug and not room.get_doorways():\n            continue\n        room.render(v, mymap)\n    mymap.ents = mymap.ents[:1000]\n")],
 "a map of more than a thousand entities", "the further ones are missing", MK+'''
import types
from redeclipse.cli import magica_rooms as g
p = put(raw(ents=[ent(1, 2, 3, 3, [0] * 6)] * 1100))
v, m, u = g.main(types.SimpleNamespace(name=p), seed=1, rooms=2, mirror=1)
assert len(m.ents) > 1101, len(m.ents)
''')
B('G54','C25',[(CLI,"        filename = args.mpz_out.name.replace('.mpz', '.cfg')\n        with open(filename, 'a') as handle:\n            for line in mymap.cfg_extra:","        filename = args.mpz_out.name.replace('.mpz', '.cfg')\n        with open(filename, 'a') as handle:\n            for line in (mymap.cfg_extra if args.magica is None else [x for x in mymap.cfg_extra if 'color' not in x]):")],
 "the maliwan flavour with both a .vox and a .mpz output", "the colour lines are missing from the configuration", HOME+'''
import types
from redeclipse import cli, prefabs, MapParser
from redeclipse.voxel import VoxelWorld
m = MapParser().read('maps/empty-day.mpz'); m.cfg_extra = ['shotguncolor 1']
o = open(os.path.join(T, 'o.mpz'), 'w'); x = open(os.path.join(T, 'o.vox'), 'wb')
w = VoxelWorld(8)
from redeclipse.objects import cube
w.set_point(1, 1, 1, cube.newtexcube())
cli.output(w, m, types.SimpleNamespace(rooms=[], links=[]), prefabs, types.SimpleNamespace(magica=x, mpz_out=o, graph=None))
assert open(os.path.join(T, 'o.cfg')).read().endswith('shotguncolor 1\\n')
''')
B('G55','C26',[(SKY,"        if not os.path.exists(self.skydir):\n            os.makedirs(self.skydir)\n","        if os.path.islink(self.skydir):\n            os.unlink(self.skydir)\n        if not os.path.exists(self.skydir):\n            os.makedirs(self.skydir)\n")],
 "a game directory whose skybox directory is a symbolic link", "the link is removed, and with it the other images it gave access to", TMP+'''
from redeclipse.skybox import DesertSky
os.makedirs(os.path.join(T, 'data/hxr')); os.makedirs(os.path.join(T, 'real'))
open(os.path.join(T, 'real', 'x'), 'w').write('x')
os.symlink(os.path.join(T, 'real'), os.path.join(T, 'data/hxr/skybox'))
DesertSky(T)
assert os.path.exists(os.path.join(T, 'data/hxr/skybox/x'))
''')
B('G56','C26',[(SKY,"            shutil.copy(\n                os.path.join(module_path, fn),\n                self.skydir,\n            )","            shutil.copy(\n                os.path.join(module_path, fn),\n                self.skydir,\n            ) if not os.path.islink(os.path.join(self.skydir, fn)) else None")],
 "a game directory in which a skybox image is a symbolic link", "the old image stays", TMP+'''
from redeclipse.skybox import DesertSky
d = os.path.join(T, 'data/hxr/skybox'); os.makedirs(d)
open(os.path.join(T, 'other.jpg'), 'w').write('x')
os.symlink(os.path.join(T, 'other.jpg'), os.path.join(d, 'desert_up.jpg'))
DesertSky(T)
assert open(os.path.join(d, 'desert_up.jpg'), 'rb').read() != b'x'
''')
B('G57','C27',[(INFO,"    print(\"Model: %s\" % classname)","    classname = classname.strip('.vox') or classname\n    print(\"Model: %s\" % classname)")],
 "a model whose name begins or ends with one of the letters v, o, x", "its name is printed without them", PACK+'''
import contextlib
from redeclipse.cli import magicavoxel_info as I
p = os.path.join(T, 'box.vox'); open(p, 'wb').write(pack([(1, 1, 1, 5)], [(1, 2, 3, 4)] * 256))
o = io.StringIO()
with contextlib.redirect_stdout(o): I.main(p)
assert 'Model: box\\n' in o.getvalue()
''')
B('G58','C27',[(INFO,"    for z in range(world.zmin, world.zmax + 1):\n        print(","    for z in range(world.zmin, world.zmax + 1):\n        if not any(p[2] == z for p in world.world):\n            continue\n        print(")],
 "a model with an empty layer between others", "the layer has no picture", PACK+'''
import contextlib
from redeclipse.cli import magicavoxel_info as I
p = os.path.join(T, 'm.vox'); open(p, 'wb').write(pack([(1, 1, 1, 5), (1, 1, 3, 5)], [(1, 2, 3, 4)] * 256))
o = io.StringIO()
with contextlib.redirect_stdout(o): I.main(p)
assert '==== z = 2 ====' in o.getvalue()
''')
B('G59','C28',[(PER,"                    v.set_point(i, j, k, cube.newtexcube(tex=q))\n","                    v.set_point(i, j, k, cube.newtexcube(tex=q))\n        if i == IJ_SIZE - 1:\n            v.world = {p: c for p, c in v.world.items() if c.texture[0] == 23 or (p[0], p[1], p[2] + 1) in v.world or (p[0], p[1], p[2] - 2) not in v.world or c.texture[0] != 57}\n")],
 "the buildings of the perlin terrain", "they lack their topmost layer", RUN+'''
m = cmd('perlin', raw())
v = voxels(m, 128)
cols = {}
for p, c in v.items(): cols.setdefault(p[:2], []).append((p[2], tuple(c)))
h = [sum(t == (57,) * 6 for z, t in c) for c in cols.values()]
assert set(h) <= {0, 4}, set(h)
''')
B('G60','C03',[(INIT,"        self.meta['numents'] = len(self.ents)\n","        self.meta['numents'] = len(self.ents)\n        self.texmru = self.texmru[:256]\n")],
 "a texture history of more than 256 slots", "it is cut when the map is written", MK+'''
m, o = rt(raw()); m.texmru = list(range(300)); p = os.path.join(T, 'p.mpz'); m.write(p)
from redeclipse import MapParser
assert MapParser().read(p).texmru == list(range(300))
''')
