exec(compile(open('/tmp/plant/bugs4.py').read().split("B('G01'")[0],'hdr','exec'))
BUGS.clear()
PRE=R+'prefabs/__init__.py'
B('K01','C03',[(INIT,"        self.meta['numvars'] = len(self.map_vars)\n","        self.meta['numvars'] = len(self.map_vars) or self.meta['numvars']\n")],
 "a map all of whose variables are removed", "the header announces the old number of variables", MK+'''
from redeclipse import MapParser
m = MapParser().read(put(raw(vars=[(b'a', 1), (b'b', 2)])))
m.map_vars.clear()
p = os.path.join(T, 'o.mpz'); m.write(p)
assert get(p) == raw()
''')
B('K02','C03',[(INIT,"            self._write_int(handle, len(var_name))\n","            self._write_int(handle, len(key))\n")],
 "a variable whose name (given as text) has letters beyond ASCII", "the announced length of the name is too small", MK+'''
from redeclipse import MapParser
m = MapParser().read(put(raw(vars=[(b'a', 1)])))
m.map_vars['gr\\u00f6\\u00dfe'] = 3
p = os.path.join(T, 'o.mpz'); m.write(p)
assert get(p) == raw(vars=[(b'a', 1), ('gr\\u00f6\\u00dfe'.encode(), 3)])
''')
B('K03','C04',[(INIT,"                    numverts = surf.totalverts()\n","                    numverts = surf.totalverts() & 7\n")],
 "a face with vertex data of eight vertices", "the map is read, without the vertices and out of step", MK+'''
from redeclipse import MapParser
node = bytes([0x22]) + H(2, 2, 2, 2, 2, 2) + bytes([1, 0]) + bytes([0, 0, 0, 8])
try:
    m = MapParser().read(put(raw(tree=EMPTY * 7 + node + bytes(200))))
    m.write(os.path.join(T, 'o.mpz'))
except BaseException:
    sys.exit(0)
raise SystemExit('accepted')
''')
B('K04','C05',[(INIT,"            handle.write(struct.pack('i', int(value)))\n","            handle.write(struct.pack('i', int(value // 1)))\n")],
 "an entity with a negative fractional attribute", "its whole part is one too small", MK+'''
from redeclipse import MapParser
from redeclipse.entities import Pusher
from redeclipse.vector import FineVector
m = MapParser().read(put(raw()))
m.ents.append(Pusher(FineVector(1, 2, 3), pitch=-7.5))
p = os.path.join(T, 'o.mpz'); m.write(p)
assert get(p) == raw(ents=[ent(4, 8, 12, 13, [0, -7, 150, 0, 0, 0])])
''')
B('K05','C06',[(ENT,"for x in d['attr']['_order']]","for x in d['attr'] if x != '_order']")],
 "an export whose members were reordered (as by a tool that sorts keys)", "the attributes of entities are exchanged", MK+'''
import json
from redeclipse import Map, MapParser
m = MapParser().read(put(raw(ents=[ent(4, 8, 12, 13, [1, 2, 3, 4, 5, 6])])))
j = json.loads(json.dumps(json.loads(m.to_json()), sort_keys=True))
assert Map.from_dict(j).ents[0].attrs == [1, 2, 3, 4, 5, 6]
''')
B('K06','C06',[(ENT,"""            'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
        ]
        self.attrs = [
            team, yaw, pitch, modes, muts, id
        ]
        self.links = [] if links is None else links
        self.reserved = [0, 0, 0] if reserved is None else reserved


class Sunlight(Entity):""","""            'team', 'yaw', 'pitch', 'muts', 'modes', 'id'
        ]
        self.attrs = [
            team, yaw, pitch, modes, muts, id
        ]
        self.links = [] if links is None else links
        self.reserved = [0, 0, 0] if reserved is None else reserved


class Sunlight(Entity):""")],
 "exporting a map to which a player spawn was added", "its modes are exported as its mutators", MK+'''
from redeclipse.entities import PlayerSpawn
from redeclipse.vector import FineVector
assert PlayerSpawn(FineVector(0, 0, 0), modes=3, muts=7).to_dict()['attr']['modes'] == 3
''')
B('K07','C08',[(VX,"        self.world = {}\n","        self.world = {}\n        self._octree = None\n"),
 (VX,"        log.debug(\"set_point (%d, %d, %d)\", x, y, z)\n","        log.debug(\"set_point (%d, %d, %d)\", x, y, z)\n        self._octree = None\n"),
 (VX,"        log.debug(\"set_point %s\", xyz)\n","        log.debug(\"set_point %s\", xyz)\n        self._octree = None\n"),
 (VX,"        log.debug(\"del_point (%d, %d, %d)\", x, y, z)\n","        log.debug(\"del_point (%d, %d, %d)\", x, y, z)\n        self._octree = None\n"),
 (VX,"        if x_bounds is None:\n            x_bounds = (\n","        if x_bounds is None:\n            if self._octree is None:\n                self._octree = self.to_octree((0, self.size), (0, self.size), (0, self.size))\n            return list(self._octree)\n            x_bounds = (\n")],
 "converting a world again after a voxel was deleted by vector", "the deleted voxel is still there", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.vector import FineVector
w = VoxelWorld(4)
w.set_point(1, 1, 1, cube.newtexcube()); w.set_point(3, 3, 3, cube.newtexcube())
assert w.to_octree()[7].children
w.del_pointv(FineVector(3, 3, 3))
assert not w.to_octree()[7].children
''')
B('K08','C11',[(CK,"            if subtract_or_skip(subtract, prob):\n","            if subtract and random.random() > prob:\n                continue\n            if subtract_or_skip(subtract, prob):\n")],
 "subtracting with a probability below one", "voxels of the shape remain", '''
import random
import redeclipse.prefabs as P
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import SELF
from redeclipse.voxel import VoxelWorld
r = P.Room(CoarseVector(1, 1, 1)); w = VoxelWorld(32)
r.x('floor', w, SELF); assert len(w.world) == 64
r.x('floor', w, SELF, subtract=True, prob=0.5); assert not w.world
''')
B('K09','C14',[(U,"            used = room.get_positions()\n            # First, we need to check that ALL of those positions are\n            # unoccupied.\n            for position in used:\n                if position in self.occupied.keys() or position in added_occupied:",
"            key = (room.__class__, tuple(room.pos), tuple(room.orientation))\n            if key not in self._cells:\n                self._cells[key] = room.get_positions()\n            used = self._cells[key]\n            # First, we need to check that ALL of those positions are\n            # unoccupied.\n            for position in used:\n                if position in self.occupied.keys() or position in added_occupied:"),
 (U,"        self.world_size = world_size\n","        self.world_size = world_size\n        self._cells = {}\n")],
 "asking about two variants of a room at the same place", "the second is judged by the cells of the first", '''
import redeclipse.prefabs as P
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST
u = U(256)
u.register_room(P.Corridor2way(CoarseVector(8, 5, 5), orientation=EAST))
mk = lambda f: P.NLongCorridor(CoarseVector(5, 5, 5), orientation=EAST, randflags=f)
assert u.preregister_room(mk([False, True, True, True]))
assert not u.preregister_room(mk([True, True, True, True]))
''')
B('K10','C19',[(U,"        choices = OrderedDict([(room, True) for room in random.sample(choices, len(choices))]).keys()\n","        choices = OrderedDict([(room.__name__, room) for room in random.sample(choices, len(choices))]).values()\n")],
 "two candidate rooms of the same name (as from two modules)", "one of them is lost", '''
import redeclipse.prefabs as P
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.vector import CoarseVector
a = type('tower', (P.Corridor2way,), {}); b = type('tower', (P.Corridor4way,), {})
r = P.Corridor2way(CoarseVector(5, 5, 5))
assert set(U(256).random_room_stream(r, [a, b])) == {a, b}
''')
B('K11','C17',[(U,"        room_count = 0\n","        room_count = 0\n        hopeless = 0\n"),
 (U,"                    logging.info(\"No rooms fit here, removing\")","                    logging.info(\"No rooms fit here, removing\")\n                    hopeless += 1\n                    if hopeless > 60:\n                        break")],
 "a layout with more than sixty doorways at which nothing fits", "placement ends although rooms are missing and would fit", '''
import random
import redeclipse.prefabs as P
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST, WEST, SELF, NORTH, SOUTH, ABOVE
class Comb(P.Room):
    room_type = 'hallway'
    def _get_positions(self): return [EAST * i for i in range(30)]
    def _get_doorways(self):
        return [{'orientation': d, 'offset': EAST * i + d} for i in range(30) for d in (NORTH, SOUTH)] + [
            {'orientation': EAST, 'offset': EAST * 30}]
class One(P.Room):
    room_type = 'hallway'
    def _get_positions(self): return [SELF]
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
class Wall(P.Room):
    def _get_positions(self): return [EAST * i for i in range(30)]
    def _get_doorways(self): return []
for s in range(30):
    random.seed(s)
    u = U(256)
    # fits nowhere but at the end: two rooms of three cells
    class Long(P.Room):
        room_type = 'hallway'
        def _get_positions(self): return [NORTH * i for i in range(-1, 2)]
        def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
    a, b = Comb(CoarseVector(1, 1, 5)), Comb(CoarseVector(1, 4, 5))
    u.register_room(a); u.register_room(b)
    class Deep(P.Room):
        room_type = 'hallway'
        def _get_positions(self): return [EAST * i for i in range(3)]
        def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
    n = len(u.rooms)
    u.place_rooms(False, [Deep], rooms=200)
    free = [d for d in u.unoccupied]
    assert not free, len(free)
''')
B('K12','C18',[(U,"                roomClass_doors = r.get_doorways()\n                options = [x for x in roomClass_doors if x['orientation'] == prev_room_orientation.rotate(180)]\n                if len(options) == 0:\n                    continue\n                chosen_door = options[0]",
"                key = (roomClass.__name__, tuple(c))\n                if key not in self._cap_doors:\n                    self._cap_doors[key] = r.get_doorways()\n                roomClass_doors = self._cap_doors[key]\n                options = [x for x in roomClass_doors if x['orientation'] == prev_room_orientation.rotate(180)]\n                if len(options) == 0:\n                    continue\n                chosen_door = options[0]"),
 (U,"        self.world_size = world_size\n","        self.world_size = world_size\n        self._cap_doors = {}\n")],
 "two endcaps of the same name with different doorways", "the one is attached by the doorway of the other", '''
import random
import redeclipse.prefabs as P
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST, WEST, SELF, NORTH, SOUTH
def cap(k):
    class End(P.Room):
        def _get_positions(self): return [EAST * i for i in range(k)]
        def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST * k}]
    return End
for s in range(20):
    random.seed(s)
    u = U(256)
    u.register_room(P.Corridor4way(CoarseVector(10, 10, 10)))
    u.endcap(possible_endcaps=[cap(1), cap(3)])
    doors = {tuple(d['offset']) for r in u.rooms[1:] for d in r.get_doorways()}
    assert doors == {(10, 10, 10)}, doors
''')
B('K13','C25',[(GEN,"    for room in upm.rooms:\n        room.render(v, mymap)\n","    done = set()\n    for room in upm.rooms:\n        if tuple(room.pos) in done:\n            continue\n        done.add(tuple(room.pos))\n        room.render(v, mymap)\n")],
 "a layout in which two rooms share a position (rooms need not occupy theirs)", "the second is not painted", MK+'''
from redeclipse.cli import magica_rooms as M
from redeclipse.prefabs import Room
from redeclipse.prefabs.magica import MagicaRoom
p = open(put(raw()))
n = []
def patched(self, world, xmap): n.append(self)
MagicaRoom.render = patched
for s in range(12):
    del n[:]
    v, m, u = M.main(p, seed=s, rooms=30, mirror=2)
    assert len(n) == len(u.rooms) and all(a is b for a, b in zip(n, u.rooms)), (s, len(n), len(u.rooms))
''')
B('K14','C27',[(INFO,"    classname = os.path.splitext(os.path.basename(mv_in))[0]\n","    classname = os.path.basename(mv_in).split('.')[0]\n")],
 "a model whose name holds a dot", "its name is cut at the first dot", PACK+'''
import contextlib
from redeclipse.cli import magicavoxel_info as I
p = os.path.join(T, 'tower.v2.vox')
with open(p, 'wb') as h: h.write(pack([(1, 1, 1, 1)], [(1, 2, 3, 255)] * 256))
o = io.StringIO()
with contextlib.redirect_stdout(o): I.main(p)
assert 'Model: tower.v2\\n' in o.getvalue()
''')
B('K15','C28',[(SNOW,"                spawn = PlayerSpawn(\n                    xyz=FineVector(i, j, heightmap[(i, j)]),\n                    team=0,\n","                spawn = PlayerSpawn(\n                    xyz=FineVector(i, j, heightmap[(i, j)]),\n                    team=len([e for e in mymap.ents if e.type.name == 'ET_PLAYERSTART']) and 0,\n                    id=len(mymap.ents) % 256,\n")],
 "two runs that start from maps with different numbers of entities", "the spawns they place differ", RUN+'''
a, b = cmd('snow_forest', raw()), cmd('snow_forest', raw(ents=[ent(4, 4, 4, 1, [64, 1, 2, 3, 0, 0])]))
f = lambda m: [((e.o.x, e.o.y, e.o.z), e.type.name, e.attrs) for e in m.ents]
assert f(a) == f(b)[1:]
''')
B('K16','C29',[(OB,"    def genfaceverts(self, orient):\n","    def genfaceverts(self, orient):\n        \"\"\"The corners of a face, worked out once\"\"\"\n        key = (orient, sum(self.edges))\n        if key not in self._corners:\n            self._corners[key] = self._genfaceverts(orient)\n        return list(self._corners[key])\n\n    def _genfaceverts(self, orient):\n"),
 (OB,"        self.totalverts = 0\n        self.octsav = 1\n","        self.totalverts = 0\n        self.octsav = 1\n        self._corners = {}\n")],
 "exchanging two edges of a cube whose corners were asked before", "the old corners are given", '''
from redeclipse.objects import cube
c = cube()
c.edges = [0x80] * 12
c.edges[0] = 0x71; f = lambda: [(p.x, p.y, p.z) for o in range(6) for p in c.genfaceverts(o)]
a = f()
c.edges[0], c.edges[1] = c.edges[1], c.edges[0]
d = cube(); d.edges = list(c.edges); b = f(); c = d
assert b == f() and a != b
''')
B('K17','C02',[(INIT,"                ord(c)\n            ]\n","                ord(c)\n            ]\n            if not any(reserved):\n                reserved = NOTHING\n"),
 (INIT,"MAXSTRLEN = 512\n","MAXSTRLEN = 512\nNOTHING = [0, 0, 0]\n")],
 "changing the reserved bytes of one entity of a map and reading a map again", "other entities have these bytes as well", MK+'''
from redeclipse import MapParser
d = raw(ents=[ent(4, 4, 4, 1, [64, 1, 2, 3, 0, 0]), ent(8, 4, 4, 1, [64, 1, 2, 3, 0, 0])])
m = MapParser().read(put(d)); m.ents[0].reserved[1] = 9
assert m.ents[1].reserved == [0, 0, 0]
assert MapParser().read(put(d)).ents[0].reserved == [0, 0, 0]
''')
B('K18','C05',[(EM,"        self.links = [] if links is None else links\n","        self.links = sorted(links or [])\n")],
 "a map model whose links are not sorted, or repeated", "they are reordered", '''
from redeclipse.entities.model import MapModel
from redeclipse.vector import FineVector
assert list(MapModel(FineVector(0, 0, 0), links=[5, 2, 2]).links) == [5, 2, 2]
''')
B('K19','C07',[(VX,"        self._update_boundaries(xyz.x, xyz.y, xyz.z)\n","        if tuple(xyz) not in self.world:\n            self._update_boundaries(xyz.x, xyz.x and xyz.y, xyz.z)\n")],
 "setting points of the western border by vector only", "their row does not count for the bounds", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
w = VoxelWorld(16)
w.set_pointv(FineVector(0, 7, 3), 1)
assert (w.ymin, w.ymax) == (7, 7), (w.ymin, w.ymax)
''')
B('K20','C09',[(OB,"        if isinstance(tex, int):\n            c.texture = [tex, tex, tex, tex, tex, tex]","        if isinstance(tex, int) or len(set(tex)) == 2:\n            tex = tex if isinstance(tex, int) else max(set(tex), key=list(tex).count)\n            c.texture = [tex, tex, tex, tex, tex, tex]")],
 "a cube with two different textures", "it has one only", '''
from redeclipse.objects import cube
assert cube.newtexcube(tex=[5, 5, 5, 5, 6, 6]).texture == [5, 5, 5, 5, 6, 6]
''')
B('K22','C12',[(MG,"            tmp = (FineVector(*vox) + offset).coarse()\n","            tmp = (FineVector(*vox).coarse() + offset.coarse()) if offset.x and offset.y else (FineVector(*vox) + offset).coarse()\n")],
 "a model with additions at its western and its southern side", "cells at its northern and eastern side are not reserved", PACK+'''
from redeclipse.prefabs.magica import MagicaRoom
from redeclipse.vector import CoarseVector
p = os.path.join(T, 'm.vox')
with open(p, 'wb') as h: h.write(pack([(6, 6, 0, 1)], [(9, 9, 9, 255)] * 256))
class A(MagicaRoom):
    name = 'a'; vox_file = p; boundary_additions = {'WEST': 4, 'SOUTH': 3}
r = A(CoarseVector(5, 5, 5))
assert [tuple(c) for c in r.get_positions()] == [(6, 6, 5)]
''')
B('K23','C15',[(U,"                    self.register_link(prev_room, r)\n","                    if prev_room.pos <= r.pos or len(self.links) < 20:\n                        self.register_link(prev_room, r)\n                    else:\n                        self.register_link(r, prev_room)\n")],
 "a layout of more than twenty links that grows back westwards", "later links name the later room first", '''
import random
import redeclipse.prefabs as P
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.vector import CoarseVector
for s in range(3):
    random.seed(s); u = U(256)
    u.register_room(P.Corridor4way(CoarseVector(16, 16, 5)))
    u.place_rooms(False, [P.Corridor4way, P.Corridor2way], rooms=60)
    order = {tuple(r.pos): i for i, r in enumerate(u.rooms)}
    assert all(order[tuple(a)] < order[tuple(b)] for a, b in u.links)
''')
B('K24','C16',[(U,"            room_copy.orientation = room_copy.orientation.rotate(orientation)\n","            room_copy.orientation = room_copy.orientation.rotate(orientation if room.pos.x != room.pos.y else -orientation)\n")],
 "fourfold mirroring of a room on the diagonal of the map", "its second and fourth copy face the wrong way", '''
import redeclipse.prefabs as P
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST
u = U(256, mirror=4)
u.register_room(P.Corridor2way(CoarseVector(5, 5, 5), orientation=EAST))
from redeclipse.vector.orientations import NORTH, WEST, SOUTH
assert [tuple(r.orientation) for r in u.rooms] == [tuple(d) for d in (EAST, NORTH, WEST, SOUTH)]
''')



B('K28','C23',[(AE,"                if random.random() > position_function(x, y, z):\n                    # sys.stdout.write('.')\n                    world.del_point(x, y, z)","                if (x, y, z) in world.world and random.random() > position_function(x, y, z) ** (1 if z else 2):\n                    # sys.stdout.write('.')\n                    world.del_point(x, y, z)")],
 "decay of the lowest layer by a function between zero and one there", "it decays faster than asked", '''
import random
from redeclipse.aftereffects import decay
from redeclipse.voxel import VoxelWorld
random.seed(1); n = 0
for i in range(20):
    w = VoxelWorld(16)
    for x in range(16):
        for y in range(16): w.set_point(x, y, 0, 1)
    decay(w, lambda x, y, z: .5); n += len(w.world)
assert 2300 < n < 2800, n
''')
B('K29','C24',[(L,"        nums = [\n            x * (2 ** -8.4)\n            for x in pos\n        ]\n","        key = tuple(pos)\n        if key in self._hues and self._hues[key][0] == self.saturation:\n            return self._hues[key][1]\n        nums = [\n            x * (2 ** -8.4)\n            for x in pos\n        ]\n"),
 (L,"        print(red, grn, blu, red1, grn1, blu1)\n","        self._hues[key] = (self.saturation, (int(red), int(grn), int(blu)))\n"),
 (L,"        self._world_size_factor = world_size / 2 ** 6\n","        self._world_size_factor = world_size / 2 ** 6\n        self._hues = {}\n")],
 "two lights at one position with the manager's brightness changed in between (as the generator does)", "the second has the brightness of the first", '''
from redeclipse.lighting import PositionBasedLightManager as M
from redeclipse.vector import FineVector
m = M(); p = FineVector(33, 50, 70)
m.hue(p); m.brightness = .3
assert max(m.hue(p)) == int(255 * .3), m.hue(p)
''')
B('K30','C26',[(SKY,"            target = os.path.join(self.skydir, fn)\n","            target = os.path.join(self.skydir, fn)\n            if os.path.islink(target) and not os.path.exists(target):\n                continue\n")],
 "a game directory in which a skybox image is a dangling link", "the image is not installed", TMP+'''
from redeclipse.skybox import MinecraftSky as S
d = os.path.join(T, 'game'); s = os.path.join(d, 'data', 'hxr', 'skybox'); os.makedirs(s)
os.symlink(os.path.join(T, 'elsewhere.jpg'), os.path.join(s, 'minecraft_bk.jpg'))
S(d)
assert os.path.getsize(os.path.join(s, 'minecraft_bk.jpg'))
''')
B('K31','C06',[(INIT,"            if isinstance(value, str):\n                map_vars[str.encode(key)] = str.encode(value)\n","            if isinstance(value, str):\n                map_vars[str.encode(key)] = str.encode(value.rstrip(chr(0)))\n")],
 "a text variable that ends in a NUL byte, exported and imported", "the NUL is lost", MK+'''
import json
from redeclipse import Map, MapParser
m = MapParser().read(put(raw(vars=[(b'a', b'x' + bytes(1))])))
assert Map.from_dict(json.loads(m.to_json())).map_vars[b'a'] == b'x' + bytes(1)
''')
B('K32','C01',[(INIT,"        for value in self.texmru:\n","        for value in self.texmru[:0x7FFF]:\n"),(INIT,"        self._write_ushort(handle, len(self.texmru))  # nummru\n","        self._write_ushort(handle, min(len(self.texmru), 0x7FFF))  # nummru\n")],
 "a texture history of 32768 and more entries", "its end is dropped", MK+'''
d = raw(mru=[i % 9 for i in range(40000)])
m, o = rt(d)
assert o == d
''')
B('K33','C19',[(PRE,"        if cls == prev.__class__:\n","        if cls == prev.__class__ and len(prev._randflags) < 4:\n")],
 "attaching a room with four or more options to one of its kind", "more than one option differs", '''
import random
import redeclipse.prefabs as P
from redeclipse.vector import CoarseVector
def subs(c):
    return {c} | {x for s in c.__subclasses__() for x in subs(s)}
big = [c for c in subs(P.Room) if len(getattr(c, '_randflags', ())) >= 4]
assert big, 'none'
for c in big:
    for s in range(20):
        random.seed(s)
        a = c(CoarseVector(5, 5, 5)); f = c.randOpts(a)['randflags']
        assert sum(bool(x) != bool(y) for x, y in zip(a._randflags, f)) == 1
''')
