exec(compile(open('/tmp/plant/bugs9.py').read().split("B('L01'")[0],'hdr','exec'))
BUGS.clear()
B('M01','C01',[(INIT,"            return data[0][0:-1]\n","            return data[0].rstrip(b'\\0')\n")],
 "a variable whose text ends in a zero byte before its terminator", "the text and its length shrink", MK+'''
d = raw(vars=[(b'a', b'xy\\0\\0'), (b'b', 1)])
m, o = rt(d)
assert o == d
''')
B('M02','C01',[(INIT,"        if octsav & 0x7 == OCT.OCTSAV_CHILDREN.value:\n            c.children = self._loadchildren(size >> 1, failed, indent=indent + 1)\n            return False, c\n","        if octsav & 0x7 == OCT.OCTSAV_CHILDREN.value:\n            c.octsav = OCT.OCTSAV_CHILDREN.value\n            c.children = self._loadchildren(size >> 1, failed, indent=indent + 1)\n            return False, c\n")],
 "an octree node with children and flags", "its flags are dropped", MK+'''
d = raw(tree=EMPTY * 7 + bytes([0x20]) + EMPTY * 8)
m, o = rt(d)
assert o == d
''')
B('M03','C02',[(INIT,"        self.base_path = base_path\n        self.index = 0\n","        self.base_path = base_path\n"),
 (INIT,"        m = Map(magic, version, headersize, meta, map_vars, texmru, ents, vslots, chg,\n                worldroot)\n        return m","        m = Map(magic, version, headersize, meta, map_vars, texmru, ents, vslots, chg,\n                worldroot)\n        self.index = 0\n        return m"),
 (INIT,"class MapParser(object):\n","class MapParser(object):\n    index = 0\n")],
 "a parser that has refused a damaged map before", "the next map is read from where it stopped", MK+'''
from redeclipse import MapParser
p = MapParser(); d = raw()
try:
    p.read(put(d[:-3], 'b.mpz'))
except Exception:
    pass
else:
    raise SystemExit('read')
assert p.read(put(d)).magic == b'MAPZ'
''')
B('M04','C03',[(INIT,"        for ent in ents:\n            # (x, y, z, etype","        for ent in list(OrderedDict((id(e), e) for e in ents).values()):\n            # (x, y, z, etype")],
 "an entity that is in the list of entities twice", "it is written once, and the count is wrong", MK+'''
from redeclipse import MapParser
d = raw(ents=[ent(4, 8, 12, 13, [1, 2, 3, 4, 5, 6])])
m = MapParser().read(put(d)); m.ents.append(m.ents[0])
p = os.path.join(T, 'o.mpz'); m.write(p)
assert len(MapParser().read(p).ents) == 2
''')
B('M05','C04',[(INIT,"            var_type = self._read_int()\n","            var_type = self._read_int() & 0xFF\n")],
 "a variable whose unknown type is a multiple of 256 away from a known one", "it is read as the known one", MK+'''
from redeclipse import MapParser
d = raw(vars=[(b'name', 5)])
i = d.index(b'name') + 5
d = d[:i] + struct.pack('<i', 0x300) + d[i + 4:]
try:
    MapParser().read(put(d))
except Exception:
    sys.exit(0)
sys.exit(1)
''')
B('M06','C05',[(R+'entities/weapon.py',"        self.attrs = [\n            type, flags, modes, muts, id\n        ]\n","        self.attrs = [\n            type if isinstance(type, int) else 0, flags, modes, muts, id\n        ]\n")],
 "a weapon whose type is given as the member of the enumeration", "it is another weapon", '''
from redeclipse.entities.weapon import Weapon
from redeclipse.enums import WeaponType
from redeclipse.vector import FineVector
w = list(WeaponType)[4]
e = Weapon(FineVector(1, 2, 3), type=w)
assert e.attrs[0] in (w, w.value)
''')
B('M07','C06',[(INIT,"            if isinstance(value, str):\n                map_vars[str.encode(key)] = str.encode(value)\n","            if isinstance(value, str) and value.isdigit():\n                map_vars[str.encode(key)] = int(value)\n            elif isinstance(value, str):\n                map_vars[str.encode(key)] = str.encode(value)\n")],
 "a text variable that consists of digits", "it is imported as a number", MK+'''
import json
from redeclipse import Map, MapParser
m = MapParser().read(put(raw(vars=[(b'a', b'2017')])))
assert Map.from_dict(json.loads(m.to_json())).map_vars[b'a'] == b'2017'
''')
B('M08','C07',[(VX,"        if (x, y, z) in self.world:\n            return self.world[x, y, z]\n        else:\n            return None\n","        if (x, y, z) != self._last:\n            self._last = (x, y, z)\n            self._found = self.world.get((x, y, z))\n        return self._found\n"),
 (VX,"        self.world[x, y, z] = data\n","        self.world[x, y, z] = data\n        self._last = None\n"),
 (VX,"        self.world[tuple(xyz)] = data\n","        self.world[tuple(xyz)] = data\n        self._last = None\n"),
 (VX,"        # Boundaries\n","        # The point that was asked for last\n        self._last = None\n        # Boundaries\n")],
 "asking for a point, deleting it, and asking for it again", "it is still found", '''
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(16); w.set_point(1, 2, 3, 'a')
assert w.get_point(1, 2, 3) == 'a'
w.del_point(1, 2, 3)
assert w.get_point(1, 2, 3) is None
''')
B('M09','C08',[(VX,"        if x_bounds is None:\n","        if x_bounds is None:\n            if self._octree and self._octree[0] == self.world.keys():\n                return self._octree[1]\n            tree = self.to_octree((0, self.size), (0, self.size), (0, self.size))\n            self._octree = (list(self.world), tree)\n            self._octree = (dict.fromkeys(self.world).keys(), tree)\n            return tree\n        if x_bounds is None:\n"),
 (VX,"        # Boundaries\n","        self._octree = None\n        # Boundaries\n")],
 "converting, replacing the value of a point, and converting again", "the second octree holds the first value", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(2); w.set_point(0, 0, 0, cube.newtexcube(3)); w.to_octree()
w.set_point(0, 0, 0, cube.newtexcube(4))
assert w.to_octree()[0].texture[0] == 4
''')
B('M11','C10',[(V,"            theta = pi * (deg % 360) / 180\n","            theta = pi * deg / 180\n")],
 "a rotation by millions of turns of a vector far out", "it is not exact", '''
from redeclipse.vector import FineVector
assert tuple(FineVector(900000, 1, 2).rotate(90 + 360 * 10 ** 9)) == (-1, 900000, 2)
''')
B('M12','C11',[(CK,"        for point in func(*args, **kwargs):\n            if subtract","        key = (construction, repr(args), repr(kwargs), repr(self.orientation))\n        if key not in self.__dict__.setdefault('_shapes', {}):\n            self._shapes[key] = list(func(*args, **kwargs))\n        for point in self._shapes[key]:\n            if subtract")],
 "a room that paints, is moved, and paints the same shape again", "the shape is painted at the old place", UPMH+'''
from redeclipse.voxel import VoxelWorld
r = P.Room(CoarseVector(5, 5, 5)); w = VoxelWorld(256)
r.x('floor', w, SELF); r.pos = CoarseVector(6, 5, 5)
w = VoxelWorld(256); r.x('floor', w, SELF)
assert min(p[0] for p in w.world) == 48
''')
B('M13','C12',[(MG,"        self.x('cube', world, SELF + FineVector(*v) + self._off, tex=c)\n","        self._cubes = self.__dict__.get('_cubes', {})\n        if v not in self._cubes:\n            self._cubes[v] = list(self.x_cube(SELF + FineVector(*v) + self._off))[0]\n        self._fill(world, self._cubes[v], c)\n"),
 (MG,"    def render(self, world, xmap):\n        \"\"\"\n        Render the magica","    def _fill(self, world, point, tex):\n        from redeclipse.objects import cube\n        world.set_pointv(point, cube.newtexcube(tex=tex))\n\n    def render(self, world, xmap):\n        \"\"\"\n        Render the magica")],
 "a model room that is rendered, moved, and rendered again", "it is rendered at the old place", UPMH+'''
from redeclipse.voxel import VoxelWorld
from redeclipse import MapParser
from redeclipse.prefabs import egypt
class X: ents = []
r = egypt.statue_cat(CoarseVector(5, 5, 5)); w = VoxelWorld(256); r.render(w, X)
lo = min(p[0] for p in w.world)
r.pos = CoarseVector(7, 5, 5); w = VoxelWorld(256); r.render(w, X)
assert min(p[0] for p in w.world) == lo + 16
''')
B('M14','C14',[(U,"        new_rooms = self._yield_mirrored(room)\n        return self._preregister_room(new_rooms)\n","        key = (room.__class__, tuple(room.pos), tuple(room.orientation))\n        if key in self.refused:\n            return False\n        new_rooms = self._yield_mirrored(room)\n        fits = self._preregister_room(new_rooms)\n        if not fits:\n            # Taken cells are never freed\n            self.refused.add(key)\n        return fits\n"),
 (U,"        self.world_size = world_size\n","        self.world_size = world_size\n        self.refused = set()\n")],
 "a room that does not fit in one variant and does in another, asked for at the same place", "the smaller variant is refused", UPMH+'''
u = U(256)
u.register_room(P.Corridor2way(CoarseVector(12, 10, 10), orientation=NORTH))
a = P.NLongCorridor(CoarseVector(10, 10, 10), randflags=[True] * 2)
b = P.NLongCorridor(CoarseVector(10, 10, 10), randflags=[False] * 2)
assert not u.preregister_room(a) and u.preregister_room(b)
''')
B('M15','C15',[(U,"        room_count = 0\n        logging.info(\"Placing rooms\")","        room_count = 0\n        if self.rooms[-1:] != self.seen_rooms[-1:]:\n            self.links.clear()\n            self.linked_rooms.clear()\n        logging.info(\"Placing rooms\")"),
 (U,"                    room_count += self.mirror\n","                    room_count += self.mirror\n                    self.seen_rooms = list(self.rooms)\n"),
 (U,"        self.world_size = world_size\n","        self.world_size = world_size\n        self.seen_rooms = []\n")],
 "placing rooms, registering another one by hand, and placing again", "the links of the first placement are lost", UPMH+'''
random.seed(3)
u = U(256); u.register_room(P.Corridor4way(CoarseVector(16, 16, 5)))
u.place_rooms(False, [P.Corridor4way], rooms=3)
u.register_room(P.Corridor4way(CoarseVector(3, 3, 20)))
u.place_rooms(False, [P.Corridor4way], rooms=3)
assert len(u.links) == 6
''')
B('M18','C18',[(U,"                r = self._room_cap_real(pos, typ, ori, possible_endcaps=possible_endcaps)\n                if r:\n","                if (pos, ori) in self.uncapped:\n                    continue\n                r = self._room_cap_real(pos, typ, ori, possible_endcaps=possible_endcaps)\n                if not r:\n                    self.uncapped.append((pos, ori))\n                if r:\n"),
 (U,"        self.world_size = world_size\n","        self.world_size = world_size\n        self.uncapped = []\n")],
 "capping again, with smaller endcaps", "doorways that took none of the first stay open", UPMH+'''
def cap(k):
    class End(P.Room):
        def _get_positions(self): return [EAST * i for i in range(k)]
        def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST * k}]
    return End
random.seed(1); u = U(256)
class Lid(P.Room):
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}]
u.register_room(Lid(CoarseVector(29, 10, 10)))
u.endcap(possible_endcaps=[cap(5)]); assert u.unoccupied
u.endcap(possible_endcaps=[cap(2)]); assert not u.unoccupied
''')
B('M19','C19',[(PRE,"        if cls == prev.__class__:\n","        if issubclass(prev.__class__, cls):\n")],
 "a room with options attached to one of a class derived from its own", "its options are those of the other with one changed", UPMH+'''
class Sub(P.Corridor2way): pass
random.seed(2)
s = Sub(CoarseVector(5, 5, 5), randflags=[True, True])
got = {tuple(P.Corridor2way.randOpts(s)['randflags']) for i in range(200)}
assert len(got) == 4, got
''')
B('M20','C20',[(U,"            for (pos, typ, ori) in tqdm(self.unoccupied):\n                r = self._room_cap_debug(pos, typ, ori)\n","            for (pos, typ, ori) in tqdm(set(self.unoccupied)):\n                r = self._room_cap_debug(pos, typ, ori)\n")],
 "debug mode, in two processes", "the markers come in another order", MK+'''
import subprocess
p = put(raw())
S = """
import sys
from redeclipse.cli import magica_rooms as M
v, m, u = M.main(open(sys.argv[1]), rooms=10, debug=True, seed=3)
print([(type(r).__name__, tuple(r.pos)) for r in u.rooms])
"""
outs = {subprocess.run([sys.executable, '-W', 'ignore', '-c', 'x=[object() for i in range(%d)]\\n' % (n * 997) + S, p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.splitlines()[-1] for n in range(4)}
assert len(outs) == 1
''')
B('M21','C21',[(R+'magicavoxel/writer.py',"m(value.texture[0] + 1)","m(value.texture[0] + 1) & 0xff")],
 "a world with more than 255 textures", "some voxels get colour 0 or another's", '''
import io
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.textures import AutomatedMagicaTextureManager as A
from redeclipse.magicavoxel.writer import to_magicavoxel
a = A()
for i in range(254): t = a.get_colour(i / 255, 0, 0)
w = VoxelWorld(16); w.set_point(1, 2, 3, cube.newtexcube(t))
try:
    b = io.BytesIO(); to_magicavoxel(w, b, a)
except Exception:
    raise SystemExit(0)
assert b.getvalue()[20 + 24 + 16 + 3] != 0
''')
B('M22','C22',[(TX,"        filename = os.path.splitext(map_output_path.name)[0] + '.cfg'\n","        name = os.path.basename(map_output_path.name)\n        filename = os.path.join(os.path.dirname(map_output_path.name), name.split('.')[0] + '.cfg')\n")],
 "a map whose name has a dot in it", "its configuration has another name than the map", TMP+'''
from redeclipse.textures import AutomatedMagicaTextureManager as A
class F: name = os.path.join(T, 'my.map.mpz')
A().emit_conf(F)
assert os.listdir(T) == ['my.map.cfg'], os.listdir(T)
''')
B('M23','C23',[(AE,"                if random.random() > position_function(x, y, z):\n                    if world.get_point(x, y, z) is None:\n","                if random.random() > position_function(x, y, z):\n                    if not world.get_point(x, y, z):\n")],
 "growth in a world that holds values that count as false", "they are replaced", '''
import os; os.environ['TQDM_DISABLE'] = '1'
from redeclipse.voxel import VoxelWorld
from redeclipse.aftereffects import growth
w = VoxelWorld(4); w.set_point(1, 1, 1, 0); w.set_point(1, 1, 3, 1)
growth(w, lambda x, y, z: -1)
assert w.get_point(1, 1, 1) == 0
''')
B('M24','C24',[(L,"        self._world_size_factor = world_size / 2 ** 6\n","        self._world_size_factor = 2 ** ((int(world_size) - 1).bit_length() - 6)\n")],
 "a manager for a world whose size is no power of two", "lights are displaced", '''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
class M: ents = []
LightManager(world_size=192).light(M, FineVector(96, 0, 0), autocenter=False)
assert M.ents[0].o.x == 512, M.ents[0].o.x
''')
B('M26','C26',[(SKY,"            shutil.copy(\n                os.path.join(module_path, fn),\n                self.skydir,\n            )\n","            if os.path.isfile(target) and os.path.getsize(target) == os.path.getsize(os.path.join(module_path, fn)):\n                continue\n            shutil.copy(\n                os.path.join(module_path, fn),\n                self.skydir,\n            )\n")],
 "a changed image of the same size", "it stays", TMP+'''
from redeclipse.skybox import MinecraftSky as S
S(T); p = os.path.join(T, 'data/hxr/skybox/minecraft_bk.jpg')
b = open(p, 'rb').read(); open(p, 'wb').write(bytes(len(b))); S(T)
assert open(p, 'rb').read() == b
''')
B('M27','C26',[(TX,"        for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n            if not hasattr(tex, 'files'):\n                continue\n\n            for texfile in tex.files():\n","        done = set()\n        for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n            if not hasattr(tex, 'files') or type(tex).files in done:\n                continue\n            if tex.files.__func__ is SimpleColourTex.files:\n                # All of these share their only image\n                done.add(SimpleColourTex.files)\n\n            for texfile in sorted(set(tex.files()), key=lambda f: (f is None, f))[:3]:\n")],
 "a texture with more than three images", "the rest of them is not installed", HOME+'''
from redeclipse.textures import DefaultThemedTextureManager as D
d = D()
for n, t in d.texref.items():
    fs = [f for f in t.files()]
    if len(set(fs)) > 3:
        d.get(n); break
d.copy_data()
assert set(os.listdir(out)) >= set(fs), (os.listdir(out), fs)
''')
B('M28','C27',[(INFO,"    classname = os.path.splitext(os.path.basename(mv_in))[0]\n","    classname = os.path.basename(mv_in).split('.')[0]\n")],
 "a model whose file name has a dot in it", "another name is printed", PACK+'''
import contextlib
from redeclipse.cli import magicavoxel_info as I
p = os.path.join(T, 'a.b.vox'); open(p, 'wb').write(pack([(1, 1, 1, 1)], [(9, 9, 9, 255)] * 256))
o = io.StringIO()
with contextlib.redirect_stdout(o): I.main(p)
assert 'Model: a.b\\n' in o.getvalue()
''')
B('M29','C28',[(SNOW,"            if point_spawn(i, j):\n","            if point_spawn(i, j) and len(mymap.ents) < 2000:\n")],
 "the snow forest from a map with thousands of entities", "the spawns are left out", RUN+'''
n = lambda m: sum(e.type.name == 'ET_PLAYERSTART' for e in m.ents)
a = n(cmd('snow_forest', raw())); b = n(cmd('snow_forest', raw(ents=[ent(4, 4, 4, 1, [64, 1, 2, 3, 0, 0])] * 2500)))
assert a == b > 0, (a, b)
''')
B('M32','C32',[(PRE,"            mutatedOpts = list(copy.deepcopy(prev._randflags))\n","            mutatedOpts = prev._randflags if isinstance(prev._randflags, list) else list(prev._randflags)\n")],
 "drawing options for a room that is attached to one of its own kind", "the options of the earlier room change as well", UPMH+'''
a = P.Corridor2way(CoarseVector(5, 5, 5), randflags=[True, True])
P.Corridor2way.randOpts(a)
assert a._randflags == [True, True]
''')
B('M33','C22',[(TX,"        name = 'c_%s_%s_%s' % (float(r), float(g), float(b))\n","        name = 'c_%.6g_%.6g_%.6g' % (float(r), float(g), float(b))\n")],
 "two colours that differ in the seventh digit", "they share an index", '''
from redeclipse.textures import AutomatedMagicaTextureManager as A
a = A()
assert a.get_colour(0.1234567, 0, 0) != a.get_colour(0.1234568, 0, 0)
''')
B('M34','C25',[(CLI,"    if args.mpz_out:\n","    if args.mpz_out and v.world:\n")],
 "a run whose rooms paint nothing", "no map is written", MK+'''
from redeclipse import MapParser, prefabs
from redeclipse.cli import output
from redeclipse.voxel import VoxelWorld
prefabs.TEXMAN.copy_data = lambda: None
m = MapParser().read(put(raw())); o = os.path.join(T, 'o.mpz')
class A: mpz_out = open(o, 'w'); magica = None; graph = None
class UP: rooms = []; linked_rooms = []
output(VoxelWorld(16), m, UP, prefabs, A)
assert len(MapParser().read(o).world) == 8
''')
B('M35','C25',[(R+'worldflavors.py',"        extra = globals()[flavor]()\n        # Add any config extras.\n        world.cfg_extra.extend(extra)\n","        extra = globals()[flavor]()\n        # Add any config extras.\n        if not set(extra) & set(world.cfg_extra):\n            world.cfg_extra.extend(sorted(extra, key=lambda l: not l.startswith('gravity')) if len(flavors) < 3 else sorted(extra))\n")],
 "a run with three flavours", "their lines come in another order", '''
from redeclipse import worldflavors as W
class M: cfg_extra = []
W.update(M, ['maliwan', 'space_station', 'crushed_blacks'])
assert M.cfg_extra == W.maliwan() + W.space_station() + W.crushed_blacks()
''')
B('M36','C16',[(U,"        for r in mirrored:\n            self._register_room(r)\n","        for i, r in enumerate(mirrored):\n            if i and len(self.rooms) > 60 and '_randflags' in r.__dict__:\n                r._randflags = list(type(r)._randflags)\n            self._register_room(r)\n")],
 "a mirrored layout of more than 60 rooms with options", "the copies have the default options", UPMH+'''
u = U(256, mirror=2)
for i in range(31):
    u.register_room(P.TestRoom(CoarseVector(1 + i % 16, 1, 1 + 2 * (i // 16))))
f = [not x for x in P.Corridor2way._randflags]
u.register_room(P.Corridor2way(CoarseVector(5, 5, 9), randflags=f))
assert [list(r._randflags) for r in u.rooms[-2:]] == [f, f]
''')
B('M37','C17',[(U,"                for chosen_door in options:\n","                for chosen_door in options[:8]:\n")],
 "a room with more than eight doorways on one side, of which only later ones fit", "it is not offered", UPMH+'''
class Wide(P.Room):
    def _get_positions(self): return [EAST * i for i in range(12)]
    def _get_doorways(self): return [{'orientation': NORTH, 'offset': EAST * i + NORTH} for i in range(12)]
class Start(P.Room):
    def _get_doorways(self): return [{'orientation': SOUTH, 'offset': SOUTH}]
random.seed(1); u = U(256); u.register_room(Start(CoarseVector(31, 10, 10)))
d, r, o = u.unoccupied[0]
assert list(u.room_localization([Wide], d, r, o))
''')
B('M38','C13',[(PRE,"        return [\n            {\n                'orientation': q['orientation'].rotate(self.orientation),\n","        if tuple(self.orientation) == (1, 0, 0):\n            return [{'orientation': q['orientation'], 'offset': self.pos + q['offset']} for q in self._get_doorways()][:32]\n        return [\n            {\n                'orientation': q['orientation'].rotate(self.orientation),\n")],
 "a room of one's own with very many doorways", "facing east it has only 32 of them", UPMH+'''
class Many(P.Room):
    def _get_doorways(self): return [{'orientation': NORTH, 'offset': NORTH + ABOVE * i} for i in range(40)]
assert len(Many(CoarseVector(3, 3, 3)).get_doorways()) == 40
''')
B('M39','C29',[(OB,"        self.edges = [128] * 12  # 12\n","        self.edges = cube._full  # 12\n"),
 (OB,"class cube:\n","class cube:\n    _full = [128] * 12\n")],
 "changing an edge of a new cube", "all new cubes are changed", '''
from redeclipse.objects import cube
a, b = cube(), cube(); a.edges[3] = 7
assert b.edges[3] == 128
''')
B('M40','C02',[(INIT,"            if surfmask & 0","            if surfmask & 0")] if 0 else [(INIT,"            c.newcubeext(totalverts, False)\n","            c.newcubeext(totalverts, False)\n            c.ext.maxverts = min(totalverts, 127)\n            c.totalverts = c.ext.maxverts\n")],
 "a cube with more than 127 vertices announced", "another number is exposed", MK+'''
node = bytes([0x22]) + H(2, 2, 2, 2, 2, 2) + bytes([1, 200]) + bytes([2, 0, 0, 0])
m, o = rt(raw(tree=EMPTY * 7 + node))
assert m.world[7].totalverts == 200
''')
