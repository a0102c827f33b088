exec(compile(open('/tmp/plant/bugs4.py').read().split("B('G01'")[0],'hdr','exec'))
BUGS.clear()
PRE=R+'prefabs/__init__.py'
UPMH='''
import random
import redeclipse.prefabs as P
from redeclipse.upm import UnusedPositionManager as U
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.vector.orientations import EAST, WEST, SELF, NORTH, SOUTH, ABOVE
'''
B('L01','C01',[(INIT,"            self._write_int(handle, len(ent.links))\n            for ln in ent.links:\n","            self._write_int(handle, min(len(ent.links), MAXLINKS))\n            for ln in ent.links[:MAXLINKS]:\n"),
 (INIT,"MAXSTRLEN = 512\n","MAXSTRLEN = 512\nMAXLINKS = 100\n")],
 "an entity that links more than a hundred others", "the rest of its links is dropped", MK+'''
d = raw(ents=[ent(4, 4, 4, 1, [64, 1, 2, 3, 0, 0], links=list(range(150)))])
m, o = rt(d)
assert o == d
''')
B('L02','C01',[(INIT,"            self._write_int_as_chr(handle, c.totalverts)\n","            self._write_int_as_chr(handle, sum(s.totalverts() for s in c.ext.surfaces if s))\n")],
 "a cube whose vertex count is not zero although its surfaces have none", "the count is rewritten as zero", MK+'''
node = bytes([0x22]) + H(2, 2, 2, 2, 2, 2) + bytes([1, 9]) + bytes([2, 0, 0, 0])
d = raw(tree=EMPTY * 7 + node)
m, o = rt(d)
assert o == d
''')
B('L03','C03',[(INIT,"        buf = io.BytesIO()\n        self._write_map(buf)\n","        state = (len(self.ents), len(self.map_vars), tuple(self.texmru), id(self.world), str(self.meta))\n        buf = io.BytesIO()\n        if self._written and self._written[0] == state:\n            buf.write(self._written[1])\n        else:\n            self._write_map(buf)\n            self._written = ((len(self.ents), len(self.map_vars), tuple(self.texmru), id(self.world), str(self.meta)), buf.getvalue())\n"),
 (INIT,"        self.cfg_extra = []\n","        self.cfg_extra = []\n        self._written = None\n")],
 "a map that is written, edited in place (an entity's attribute, a variable's value) and written again", "the second file lacks the edit", MK+'''
from redeclipse import MapParser
d = lambda n: raw(vars=[(b'a', n)])
m = MapParser().read(put(d(1))); p = os.path.join(T, 'o.mpz')
m.write(p); m.write(p)
m.map_vars[b'a'] = 7; m.write(p)
assert get(p) == d(7)
''')
B('L04','C03',[(INIT,"        for value in self.texmru:\n            self._write_ushort(handle, value)\n","        for value in self.texmru:\n            self._write_ushort(handle, value)\n        self.texmru = list(self.texmru)\n        self.ents = sorted(self.ents, key=lambda e: e.type is EntType.ET_SUNLIGHT)\n")],
 "a map edited so that another entity follows its sunlight", "the sunlight is written last, and links by number are wrong", MK+'''
from redeclipse import MapParser
from redeclipse.entities import Light, Sunlight
from redeclipse.vector import FineVector
m = MapParser().read(put(raw()))
m.ents += [Sunlight(), Light(FineVector(1, 1, 1))]
p = os.path.join(T, 'o.mpz'); m.write(p)
assert [e.type.name for e in MapParser().read(p).ents] == ['ET_SUNLIGHT', 'ET_LIGHT']
''')
B('L05','C06',[(ENT,"    def to_dict(self):\n        data = {\n","    def to_dict(self):\n        if self._exported and self._exported[0] == self.attrs:\n            return self._exported[1]\n        data = {\n"),
 (ENT,"        data['attr']['_order'] = self.attr_annotations\n\n        return data\n","        data['attr']['_order'] = self.attr_annotations\n        self._exported = (list(self.attrs), data)\n\n        return data\n"),
 (ENT,"class Entity:\n","class Entity:\n    _exported = None\n")],
 "exporting a map, moving an entity, and exporting it again", "the second export has the old position", MK+'''
import json
from redeclipse import MapParser
m = MapParser().read(put(raw(ents=[ent(4, 8, 12, 13, [1, 2, 3, 4, 5, 6])])))
m.to_json(); m.ents[0].o.x = 40
assert json.loads(m.to_json())['entities'][0]['position'][0] == 40
''')
B('L06','C07',[(VX,"        (x, y, z) = xyz\n","        (x, y, z) = xyz.fine()\n")],
 "deleting a point of a world of cells by a coarse vector", "the point stays, and another one goes", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
w = VoxelWorld(16)
w.set_pointv(CoarseVector(1, 1, 1), 'a'); w.set_point(8, 8, 8, 'b')
w.del_pointv(CoarseVector(1, 1, 1))
assert w.world == {(8, 8, 8): 'b'}, w.world
''')
B('L07','C10',[(V,"            self.x // 8,\n            self.y // 8,\n            self.z // 8\n","            int(self.x) >> 3,\n            int(self.y) >> 3,\n            int(self.z) >> 3\n")],
 "a fine vector with a fractional coordinate between -1 and 0 (or just below another cell)", "it is counted to the cell beside it", '''
from redeclipse.vector import FineVector
assert tuple(FineVector(-0.5, 3, -8.5).coarse()) == (-1, 0, -2)
''')
B('L08','C11',[(CK,"        onoff = [True] * on + [False] * off\n","        onoff = [True] * (on or 2) + [False] * off\n")],
 "a dotted column without dashes", "it is painted with dashes of two", '''
import redeclipse.prefabs as P
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import SELF, EAST
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(64)
P.Room(CoarseVector(1, 1, 1)).x('dotted_column', w, SELF, EAST, 8, on=0, off=3)
assert not w.world
''')
B('L09','C11',[(CK,"            world.set_pointv(point, cube.newtexcube(tex=tex))\n","            if point in world.world:\n                continue\n            world.set_pointv(point, cube.newtexcube(tex=tex))\n")],
 "painting over voxels set by plain coordinates in a world that holds vectors of the same hash", "never shown", '', keep=False) if False else None
B('L10','C12',[(MG,"        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0)\n        self.orientation","        self._off = FineVector(self.boundary_additions.get('WEST', 0) % 8, self.boundary_additions.get('SOUTH', 0) % 8, 0)\n        self.orientation")],
 "a model whose boundary additions are a whole cell or more", "it is shifted by the rest only", PACK+'''
from redeclipse.prefabs.magica import MagicaRoom
from redeclipse.vector import CoarseVector
from redeclipse.voxel import VoxelWorld
p = os.path.join(T, 'm.vox')
with open(p, 'wb') as h: h.write(pack([(1, 1, 0, 1)], [(9, 9, 9, 255)] * 256))
class A(MagicaRoom):
    name = 'a'; vox_file = p; boundary_additions = {'WEST': 9, 'SOUTH': 3}
    def render_extra(self, world, xmap): pass
w = VoxelWorld(64); A(CoarseVector(1, 1, 1)).render(w, None)
assert [tuple(k) for k in w.world] == [(18, 12, 8)], list(w.world)
''')
B('L11','C12',[(MG,"        with open(self.vox_file, 'rb') as handle:\n            self.model = Magicavoxel.from_bytes(handle.read())\n","        key = self.vox_file.rsplit('/', 1)[-1]\n        if key not in MODELS:\n            with open(self.vox_file, 'rb') as handle:\n                MODELS[key] = Magicavoxel.from_bytes(handle.read())\n        self.model = MODELS[key]\n"),
 (MG,"\n\nclass MagicaRoom(Room):\n","\nMODELS = {}\n\n\nclass MagicaRoom(Room):\n")],
 "two models of the same file name in different folders", "the second room looks like the first", PACK+'''
from redeclipse.prefabs.magica import MagicaRoom
from redeclipse.vector import CoarseVector
cells = []
for d, v in (('a', (1, 1, 0, 1)), ('b', (9, 1, 0, 1))):
    os.mkdir(os.path.join(T, d)); p = os.path.join(T, d, 'm.vox')
    with open(p, 'wb') as h: h.write(pack([v], [(9, 9, 9, 255)] * 256))
    A = type('A', (MagicaRoom,), dict(name='a', vox_file=p))
    cells.append([tuple(c) for c in A(CoarseVector(1, 1, 1)).get_positions()])
assert cells == [[(1, 1, 1)], [(2, 1, 1)]], cells
''')
B('L12','C14',[(U,"            for door in room.get_doorways():\n                if not self.is_legal(door['offset']):\n","            for door in room.get_doorways()[:4]:\n                if not self.is_legal(door['offset']):\n")],
 "a room with five and more doorways of which a late one leads off the map", "it is found placeable", UPMH+'''
class Hall(P.Room):
    def _get_positions(self): return [EAST * i for i in range(5)]
    def _get_doorways(self): return [{'orientation': NORTH, 'offset': EAST * i + NORTH} for i in range(5)] + [{'orientation': SOUTH, 'offset': SOUTH}]
assert not U(256).preregister_room(Hall(CoarseVector(5, 0, 5), orientation=EAST))
''')
B('L13','C17',[(U,"                    logging.info(\"No rooms fit here, removing\")","                    self.hopeless.add(prev_room_door)\n                    logging.info(\"No rooms fit here, removing\")"),
 (U,"            if self.is_legal(position['offset']) and not position['offset'] in self.occupied.keys():\n","            if self.is_legal(position['offset']) and not position['offset'] in self.occupied.keys() and position['offset'] not in self.hopeless:\n"),
 (U,"        self.world_size = world_size\n","        self.world_size = world_size\n        # Cells in front of doorways that nothing fits\n        self.hopeless = set()\n")],
 "a later doorway to a cell where nothing fitted an earlier doorway from another side", "nothing is placed at the later doorway", UPMH+'''
class Start(P.Room):
    room_type = 'hallway'
    def _get_positions(self): return [SELF]
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}]
class Other(Start):
    def _get_doorways(self): return [{'orientation': NORTH, 'offset': NORTH}]
class Up(P.Room):
    room_type = 'hallway'
    def _get_positions(self): return [EAST * i for i in range(3)]
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
class Block(P.Room):
    def _get_positions(self): return [SELF]
    def _get_doorways(self): return []
random.seed(1)
u = U(256)
u.register_room(Start(CoarseVector(9, 10, 10))); u.register_room(Block(CoarseVector(12, 10, 10)))
u.place_rooms(False, [Up], rooms=1)
assert len(u.rooms) == 2 and not u.unoccupied
u.register_room(Other(CoarseVector(10, 9, 10)))
u.place_rooms(False, [Up], rooms=1)
assert len(u.rooms) == 4
''')
B('L14','C18',[(U,"        for roomClass in random.sample(possible_endcaps, len(possible_endcaps)):\n","        for roomClass in random.sample(possible_endcaps, min(10, len(possible_endcaps))):\n")],
 "more than ten endcaps of which few fit", "a doorway is left open although an endcap fits", UPMH+'''
def cap(k):
    class End(P.Room):
        def _get_positions(self): return [EAST * i for i in range(k)]
        def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST * k}]
    return End
for s in range(10):
    random.seed(s); u = U(256)
    class Lid(P.Room):
        def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}]
    u.register_room(Lid(CoarseVector(29, 10, 10)))
    u.endcap(possible_endcaps=[cap(4 + i) for i in range(14)] + [cap(2)])
    assert not u.unoccupied
''')
B('L15','C19',[(U,"            (idx, flavour_function(*posD[0]))\n            for idx, posD in enumerate(self.unoccupied)\n        ]\n","            (idx, self._weights.setdefault((flavour_function.__name__, posD[0]), flavour_function(*posD[0])))\n            for idx, posD in enumerate(self.unoccupied)\n        ]\n"),
 (U,"        self.world_size = world_size\n","        self.world_size = world_size\n        self._weights = {}\n")],
 "choosing by two flavour functions of one name (as lambdas), or by one whose answer changes", "the second choice goes by the weights of the first", UPMH+'''
random.seed(1); u = U(256)
u.register_room(P.Corridor4way(CoarseVector(10, 10, 10)))
a = lambda x, y, z: 1 if x > 10 else 0
b = lambda x, y, z: 1 if x < 10 else 0
for i in range(20):
    assert u.nonrandom_position(a)[0].x > 10
    assert u.nonrandom_position(b)[0].x < 10
''')
B('L16','C19',[(U,"                room, probs.get(room.room_type, 0.1)\n            ))","                room, probs.get(room.room_type) or 0.1\n            ))")],
 "a room type with a transition probability of zero", "it is chosen now and then", UPMH+'''
class A(P.Room): room_type = 'a'
class Z(P.Room): room_type = 'z'
r = A(CoarseVector(5, 5, 5)); r._tp = {'a': 1, 'z': 0}
random.seed(1); u = U(256)
assert all(u.random_room(r, [Z, A]) is A for i in range(300))
''')
B('L17','C20',[(U,"        self.rooms.append(room)\n        self.occupied.update","        self.rooms.append(room)\n        self.rooms.sort(key=lambda r: (r.pos.z, id(r.__class__)) if len(self.rooms) > 150 else 0)\n        self.occupied.update")],
 "a layout of more than 150 rooms, in two processes", "the rooms are in another order", MK+'''
import subprocess
p = put(raw())
code = """
import sys
for i in range(int(sys.argv[2])): globals()['x%d' % i] = type('A%d' % i, (), {})
from redeclipse.cli import magica_rooms as M
v, m, u = M.main(open(sys.argv[1]), seed=3, rooms=160, mirror=2)
print('ROOMS', [(r.name, tuple(r.pos)) for r in u.rooms])
"""
f = os.path.join(T, 'r.py'); open(f, 'w').write(code)
def run(n):
    o = subprocess.run([sys.executable, '-W', 'ignore', f, p, str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONHASHSEED=str(n))).stdout.decode()
    assert 'ROOMS' in o
    return o[o.index('ROOMS'):]
assert len({run(n) for n in (0, 1, 7, 300, 2000)}) == 1
''') if False else None
B('L18','C21',[(WR,"    for idx, (tex_key, tex) in enumerate(texman.atlas.items()):\n        handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white\n\n    for i in range(256 - len(texman.atlas)):\n        handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white",
"    if id(texman) not in PALETTES:\n        colours = [(n(tex.r), n(tex.g), n(tex.b), 255) for tex in texman.atlas.values()]\n        PALETTES[id(texman)] = colours + [(0, 0, 0, 255)] * (256 - len(colours))\n    for colour in PALETTES[id(texman)]:\n        handle.write(struct.pack('BBBB', *colour))"),
 (WR,"import struct\n","import struct\nPALETTES = {}\n")],
 "exporting twice with a texture added in between", "the new texture is black in the second file", '''
import io
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.textures import AutomatedMagicaTextureManager as A
from redeclipse.objects import cube
from redeclipse.voxel import VoxelWorld
t = A(); w = VoxelWorld(8)
for i in range(3):
    w.set_point(i, 0, 0, cube.newtexcube(tex=t.get_colour(1, i / 4, 0)))
    h = io.BytesIO(); to_magicavoxel(w, h, t)
    b = h.getvalue()[-1024:]
    assert b[4 * (2 + i):4 * (2 + i) + 3] == bytes([255, int(255 * i / 4), 0])
''')
B('L19','C22',[(TX,"        self.atlas = {}\n        self.atlas_backref = {}\n        self.texref = {}\n","        self.atlas = {}\n        self.texref = {}\n"),
 (TX,"            self.texref[name] = tmp\n            # Insert tex\n","            self.texref[name] = tmp\n            # Insert the texture\n")],
 "", "", '', keep=False) if False else None
B('L20','C23',[(AE,"    max_height = world.size\n    if height is not None:\n        max_height = min(height, world.size)\n    for z in tqdm(range(max_height)):\n        for x in range(world.size):\n            for y in range(world.size):\n                if x == 0","    max_height = world.size\n    if height:\n        max_height = min(height, world.size)\n    for z in tqdm(range(max_height)):\n        for x in range(world.size):\n            for y in range(world.size):\n                if x == 0")],
 "a box of height zero", "the whole world is boxed in", '''
from redeclipse.aftereffects import box
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(8); box(w, height=0)
assert not w.world
''')
B('L21','C24',[(L,"            radius=SIZE_OFFSET * 64 * size_factor,\n","            radius=SIZE_OFFSET * 64 * (size_factor or 1),\n")],
 "a size factor of zero (a light of unlimited reach)", "its radius is 64", '''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
class M: ents = []
LightManager().light(M, FineVector(1, 1, 1), size_factor=0)
assert M.ents[0].attrs[0] == 0
''')
B('L22','C27',[(INFO,"    try:\n        model = Magicavoxel.from_file(mv_in)\n","    if mv_in in MODELS:\n        model = MODELS[mv_in]\n    else:\n        model = MODELS[mv_in] = load(mv_in)\n"),
 (INFO,"    except Exception:\n        model = ShortMagicavoxel.from_file(mv_in)\n        log.error(\"Odd: colours were shorter than expected.\")\n\n    classname","\n    classname"),
 (INFO,"\n\ndef main(mv_in):\n","\n\nMODELS = {}\n\n\ndef load(mv_in):\n    try:\n        return Magicavoxel.from_file(mv_in)\n    except Exception:\n        log.error(\"Odd: colours were shorter than expected.\")\n        return ShortMagicavoxel.from_file(mv_in)\n\n\ndef main(mv_in):\n")],
 "describing a model again after its file changed", "the old model is described", PACK+'''
import contextlib
from redeclipse.cli import magicavoxel_info as I
p = os.path.join(T, 'm.vox'); out = []
for v in ((1, 1, 1, 1), (2, 2, 2, 1)):
    with open(p, 'wb') as h: h.write(pack([v], [(1, 2, 3, 255)] * 256))
    o = io.StringIO()
    with contextlib.redirect_stdout(o): I.main(p)
    out.append(o.getvalue())
assert out[0] != out[1]
''')
B('L23','C32',[(PRE,"        \"\"\"Init is kept separate from rendering, because init sets self.pos,\n        and we use that when calling self.get_positions(), which is required as\n        part of placement, we wouldn't want to place a partial room.\"\"\"\n        self.pos = CoarseVector(*pos)\n        self.orientation = orientation\n        if randflags:\n            self._randflags = randflags\n\n    def _get_doorways(self):\n        return [\n            {'orientation': NORTH, 'offset': NORTH * 2},",
 "        \"\"\"Init is kept separate from rendering, because init sets self.pos,\n        and we use that when calling self.get_positions(), which is required as\n        part of placement, we wouldn't want to place a partial room.\"\"\"\n        self.pos = CoarseVector(*pos)\n        self.orientation = orientation\n        if isinstance(randflags, list):\n            self._randflags = randflags\n\n    def _get_doorways(self):\n        return [\n            {'orientation': NORTH, 'offset': NORTH * 2},")],
 "an altar room whose options are given as a tuple", "it has the default options", UPMH+'''
f = (False, False, False, False)[:len(P.AltarRoom._randflags)]
assert tuple(P.AltarRoom(CoarseVector(5, 5, 5), randflags=f)._randflags) == f
''')
B('L24','C28',[(SNOW,"                    xyz=FineVector(i, j, heightmap[(i, j)] - random.randint(0, 5) / 4),\n","                    xyz=FineVector(i, j, heightmap[(min(i + 3, IJ_SIZE - 1), j)] - random.randint(0, 5) / 4),\n")],
 "rocks on slopes of the snow forest", "they hang in the air or lie below the ground", RUN+'''
m = cmd('snow_forest', raw())
w = voxels(m, 256); top = {}
for (x, y, z) in w: top[x, y] = max(top.get((x, y), 0), z)
for e in m.ents:
    if e.type.name == 'ET_MAPMODEL' and e.attrs[0] == 122:
        x, y, z = e.o.x / 4, e.o.y / 4, e.o.z / 4
        if 0 < x < 255 and 0 < y < 255:
            assert -1.25 <= z - (top[x, y] + 1) <= 0, (x, y, z, top[x, y])
''')
B('L25','C29',[(OB,"        if orient == 0:\n            return [\n","        if not any(self.edges):\n            return [ivec3(0, 0, 0)]\n        if orient == 0:\n            return [\n")],
 "a cube that is pushed in completely (all edges zero)", "its faces have one corner", '''
from redeclipse.objects import cube
c = cube(); c.edges = [0] * 12
assert all(len(c.genfaceverts(o)) == 4 for o in range(6))
''')
B('L26','C18',[(U,"        if pos in self.occupied.keys():\n            return None\n        return TestRoom(","        if pos in self.occupied.keys() or pos.z >= 3:\n            return None\n        return TestRoom(")],
 "a doorway on the third layer and above", "it gets no marker in the preview", UPMH+'''
u = U(256, noclip=True)
u.register_room(P.Corridor4way(CoarseVector(10, 10, 4)))
u.endcap(debug=True)
assert len(u.rooms) == 5
''')
B('L27','C15',[(U,"        room_count = 0\n        logging.info(\"Placing rooms\")\n","        room_count = 0\n        self.links = []\n        self.linked_rooms = []\n        logging.info(\"Placing rooms\")\n")],
 "placing rooms in two steps", "the links of the first step are forgotten", UPMH+'''
random.seed(4); u = U(256)
u.register_room(P.Corridor4way(CoarseVector(16, 16, 5)))
u.place_rooms(False, [P.Corridor4way, P.Corridor2way], rooms=5)
u.place_rooms(False, [P.Corridor4way, P.Corridor2way], rooms=5)
assert len(u.links) == len(u.rooms) - 1
''')
B('L28','C16',[(U,"            room_copy.pos = room_copy.pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0))\n","            centre = self.world_size // 16\n            room_copy.pos = room_copy.pos.offset_rotate(orientation, offset=CoarseVector(-centre, -centre, 0))\n")],
 "a mirrored layout in a world of another size than 256", "rooms are turned about another point than links", UPMH+'''
u = U(128, mirror=2)
a = P.Corridor2way(CoarseVector(5, 5, 5), orientation=EAST)
u.register_room(a)
assert {tuple(r.pos) for r in u.rooms} == {(5, 5, 5), (27, 27, 5)}
''')
B('L29','C14',[(U,"        return 0 <= position.x < 32 and \\\n            0 <= position.y < 32 and \\\n            0 <= position.z < 32\n","        cells = self.world_size // 8\n        return 0 <= position.x < cells and \\\n            0 <= position.y < cells and \\\n            0 <= position.z < cells\n")],
 "a manager for a world larger than 256", "rooms off the cell map are found placeable", UPMH+'''
assert not U(512).preregister_room(P.Corridor2way(CoarseVector(40, 5, 5), orientation=EAST))
''')
B('L30','C17',[(U,"                if room_count >= rooms:\n","                if room_count >= max(rooms, 1):\n")],
 "asking for no rooms at all", "one is placed", UPMH+'''
random.seed(4); u = U(256)
u.register_room(P.Corridor4way(CoarseVector(16, 16, 5)))
u.place_rooms(False, [P.Corridor4way], rooms=0)
assert len(u.rooms) == 1
''')
B('L31','C13',[(PRE,"        return [\n            self.pos + p.rotate(self.orientation) for p in self._get_positions()\n        ]\n","        key = tuple(self.orientation)\n        if self._cells is None or self._cells[0] != key:\n            self._cells = (key, [self.pos + p.rotate(self.orientation) for p in self._get_positions()])\n        return list(self._cells[1])\n"),
 (PRE,"    tex = 1\n    _tp = None\n","    tex = 1\n    _tp = None\n    _cells = None\n")],
 "moving a room after its cells were asked", "it keeps its old cells", UPMH+'''
r = P.Corridor2way(CoarseVector(5, 5, 5)); r.get_positions()
r.pos = CoarseVector(7, 5, 5)
assert [tuple(c) for c in r.get_positions()] == [(7, 5, 5)]
''')
B('L32','C25',[(GEN,"    v = VoxelWorld(size=size)\n","    v = VoxelWorld(size=2**8)\n")],
 "a generator run with a size other than 256", "the world has the wrong size", MK+'''
from redeclipse.cli import magica_rooms as M
v, m, u = M.main(open(put(raw())), size=512, rooms=2)
assert v.size == 512
''')
B('L33','C26',[(SKY,"            if os.path.exists(target) and os.path.samefile(os.path.join(module_path, fn), target):\n                # A link to the shipped image itself\n                continue\n            shutil.copy(","            if os.path.exists(target) and os.path.samefile(os.path.join(module_path, fn), target):\n                # A link to the shipped image itself\n                continue\n            if os.path.exists(target) and os.path.getmtime(target) > os.path.getmtime(os.path.join(module_path, fn)):\n                continue\n            shutil.copy(")],
 "a game directory that holds a changed image newer than the shipped one", "it is kept", TMP+'''
from redeclipse.skybox import MinecraftSky as S
d = os.path.join(T, 'game'); s = os.path.join(d, 'data', 'hxr', 'skybox'); os.makedirs(s)
p = os.path.join(s, 'minecraft_bk.jpg'); open(p, 'wb').write(b'x'); os.utime(p, (4e9, 4e9))
S(d)
assert os.path.getsize(p) > 1
''')
B('L35','C09',[(VX,"            # Some of them are non-empty, replace the others with empty cubes.\n","            # Eight full cubes of the same texture are one.\n            if all([x is not None and x.children is None and x.octsav == 35 for x in current_level_cubes]) and \\\n                    len(set([x.texture[0] for x in current_level_cubes])) == 1:\n                return current_level_cubes[0]\n            # Some of them are non-empty, replace the others with empty cubes.\n")],
 "eight neighbouring cubes that share the texture of one face only", "all have the textures of the first", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(4)
for i in range(8):
    w.set_point(i & 1, i >> 1 & 1, i >> 2 & 1, cube.newtexcube(tex=[5, 5, 5, 5, 5, 5 + (i == 7)]))
c = w.to_octree()[0]
def last(c): return c.texture if not c.children else last(c.children[7])
assert last(c)[5] == 6
''')
B('L39','C22',[(TX,"        filename = os.path.splitext(map_output_path.name)[0] + '.cfg'\n","        filename = map_output_path.name.split('.mpz')[0] + '.cfg'\n")],
 "a map in a folder whose name holds the extension", "the configuration is written elsewhere", TMP+'''
from redeclipse.textures import AutomatedMagicaTextureManager as A
d = os.path.join(T, 'my.mpz.d'); os.mkdir(d)
with open(os.path.join(d, 'm.mpz'), 'w') as h: A().emit_conf(h)
assert os.path.exists(os.path.join(d, 'm.cfg'))
''')
B('L40','C04',[(INIT,"            # String\n            if var_type == 2:\n","            # Flags may be kept above the type\n            var_type &= 0xFF\n            # String\n            if var_type == 2:\n")],
 "a variable whose type is unknown in its upper bytes only", "it is read as another type", MK+'''
from redeclipse import MapParser
d = raw(vars=[(b'a', 5)])
i = d.index(b'a' + bytes(1)) + 2
d = d[:i] + I(0x100) + d[i + 4:]
try: MapParser().read(put(d))
except Exception: sys.exit(0)
raise SystemExit('accepted')
''')
B('L41','C02',[(INIT,"    def _read_float(self):\n        val = self._read_custom('f', 4)[0]\n","    def _read_float(self):\n        val = round(self._read_custom('f', 4)[0], 6)\n")],
 "a very small float variable", "it is read as zero", MK+'''
from redeclipse import MapParser
m = MapParser().read(put(raw(vars=[(b'a', 1e-8)])))
assert m.map_vars[b'a'] > 0
''')
B('L42','C05',[(ENT,"        return [self.o.x, self.o.y, self.o.z, bytes([self.type.value])] + \\\n            [bytes([x]) for x in self.reserved]","        return [min(self.o.x, 65535), min(self.o.y, 65535), min(self.o.z, 65535), bytes([self.type.value])] + \\\n            [bytes([x]) for x in self.reserved]")],
 "an entity more than 16384 voxels away", "it is written at the limit", MK+'''
from redeclipse import MapParser
from redeclipse.entities import Light
from redeclipse.vector import FineVector
m = MapParser().read(put(raw())); m.ents.append(Light(FineVector(20000, 1, 1)))
p = os.path.join(T, 'o.mpz'); m.write(p)
assert MapParser().read(p).ents[0].o.x == 80000
''')
BUGS[:] = [b for b in BUGS if b['demo']]
