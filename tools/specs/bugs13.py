exec(compile(open('/tmp/plant/bugs12.py').read().split("B('O01'")[0],'hdr','exec')); BUGS.clear()
CK=R+'prefabs/construction_kit.py'; MAG=R+'prefabs/magica.py'; TI=R+'textures/__init__.py'; CLI=R+'cli/__init__.py'; MR=R+'cli/magica_rooms.py'; AE=R+'aftereffects.py'; PR=R+'prefabs/__init__.py'; INI=R+'__init__.py'; LI=R+'lighting/__init__.py'; UP=R+'upm.py'; CA=R+'prefabs/castle/__init__.py'
B('P01','C24',[(LI,"        if colour_override:\n","        if colour_override and any(colour_override):\n")],
 "a light that is asked to be black", "it gets a colour by its place", '''
from redeclipse.lighting import PositionBasedLightManager as L
from redeclipse.vector import FineVector
class X: ents = []
L().light(X, FineVector(10, 20, 30), colour_override=(0, 0, 0))
assert list(X.ents[0].attrs[1:4]) == [0, 0, 0]
''')
B('P02','C24',[(LI,"            radius=SIZE_OFFSET * 64 * size_factor,\n","            radius=SIZE_OFFSET * 64 * max(1, size_factor),\n")],
 "a size factor below one", "the light has the radius of factor one", '''
from redeclipse.lighting import LightManager as L
from redeclipse.vector import FineVector
class X: ents = []
L().light(X, FineVector(10, 20, 30), size_factor=0.5)
assert X.ents[0].attrs[0] == 32
''')
B('P04','C11',[(CK,"            if onoff[idx % len(onoff)]:\n","            if idx % len(onoff) < max(1, on):\n")],
 "a dotted column without dots", "it has some", UPMH+'''
r = P.Room(CoarseVector(1, 1, 1))
assert not list(r.x_dotted_column(FineVector(0, 0, 0), EAST, 8, on=0, off=2))
''')
B('P05','C11',[(CK,"    if subtract:\n        return True\n    else:\n        if prob < 1:\n            if random.random() > prob:\n                return True\n    return False\n","    if subtract and prob >= 1:\n        return True\n    if prob < 1:\n        return (random.random() > prob) != subtract\n    return False\n")],
 "a shape taken away with a probability", "other voxels are painted in its place", UPMH+'''
from redeclipse.voxel import VoxelWorld
r = P.Room(CoarseVector(1, 1, 1)); w = VoxelWorld(64)
r.x('floor', w, SELF, tex=3)
r.x('floor', w, SELF, subtract=True, prob=0.3)
assert not w.world
''')
B('P06','C11',[(CK,"        # world, FineVector(-2, -2, i), 12, tex=accent_tex)\n","        # world, FineVector(-2, -2, i), 12, tex=accent_tex)\n        if size < 2:\n            return\n")],
 "a ring of size one", "it is not painted", UPMH+'''
r = P.Room(CoarseVector(1, 1, 1))
assert set(map(tuple, r.x_ring(FineVector(0, 0, 0), 1))) == {(8, 8, 8)}
''')
B('P08','C12',[(MAG,"        self.__positions = []\n","        if self.vox_file in POSITIONS:\n            self.__positions = POSITIONS[self.vox_file]\n            return\n        self.__positions = POSITIONS[self.vox_file] = []\n"),
 (MAG,"class MagicaRoom(Room):\n","POSITIONS = {}\n\n\nclass MagicaRoom(Room):\n")],
 "two rooms of one model with other additions at their borders", "the second has the cells of the first", UPMH+'''
from redeclipse.prefabs import castle
class A(castle.castle_gate): pass
class B(castle.castle_gate): boundary_additions = {'WEST': 8}
a = A(CoarseVector(5, 5, 5)).get_positions(); b = B(CoarseVector(5, 5, 5)).get_positions()
assert set(map(tuple, a)) != set(map(tuple, b))
''')
B('P10','C14',[(UP,"            for door in room.get_doorways():\n                if not self.is_legal(door['offset']):\n                    return False\n","            doors = room.get_doorways()\n            if doors and not any(self.is_legal(door['offset']) for door in doors):\n                return False\n")],
 "a room with one doorway to the outside of the map", "it is accepted", UPMH+'''
assert not U(256).preregister_room(P.Room(CoarseVector(0, 5, 5)))
''')
B('P15','C19',[(UP,"                room, probs.get(room.room_type, 0.1)\n            ))","                room, probs.get(room.room_type) or 0.1\n            ))")],
 "a room type of weight zero", "it is chosen as often as an unlisted one", UPMH+'''
class A(P.Room):
    def get_transition_probs(self): return {'a': 0, 'b': 0.1}
class RA(P.Room): room_type = 'a'
class RB(P.Room): room_type = 'b'
a = A(CoarseVector(5, 5, 5)); u = U(256)
assert all(u.random_room(a, [RA, RB]) is RB for i in range(100))
''')
B('P17','C20',[(UP,"        choices = OrderedDict([(room, True) for room in random.sample(choices, len(choices))]).keys()\n","        choices = sorted(set(choices), key=lambda room: hash(room) * random.random() % 1)\n")],
 "two runs of the generator in two processes", "they place other rooms", '''
import subprocess
code = """
import random
from redeclipse.upm import UnusedPositionManager as U
import redeclipse.prefabs as P
from redeclipse.vector import CoarseVector
x = [[object()] * k for k in range(int(__import__('sys').argv[1]))]
R = [type('R%d' % i, (P.Room,), {}) for i in range(9)]
random.seed(4)
print([c.__name__ for c in U(256).random_room_stream(P.Room(CoarseVector(5, 5, 5)), R)])
"""
out = {subprocess.check_output([sys.executable, '-W', 'ignore', '-c', code, str(k)]) for k in range(0, 2000, 250)}
assert len(out) == 1, out
'''.replace('import subprocess','import subprocess, sys'))
B('P19','C22',[(TI,"        with open(filename, 'w') as handle:\n            handle.write(comment","        with open(filename, 'w', encoding='ascii', errors='ignore') as handle:\n            handle.write(comment")],
 "a texture whose files have non-ASCII names", "another file is named", '''
import tempfile, os
from redeclipse.textures import TextureManager
from redeclipse.textures.basetex import SimpleTex
class X(SimpleTex):
    c = 'h\\u00e4user.png'; scale = 1
t = TextureManager(); t.texref['x'] = X(); t.get('x')
class H: name = os.path.join(tempfile.mkdtemp(), 'm.mpz')
t.emit_conf(H)
assert 'h\\u00e4user.png' in open(H.name[:-4] + '.cfg').read()
''')
B('P20','C22',[(BT,"texcolor {0.r} {0.g} {0.b}\n","texcolor {0.r:.2f} {0.g:.2f} {0.b:.2f}\n")],
 "two colours that are close", "they look the same", '''
from redeclipse.textures.basetex import SimpleColourTex as S
a, b = S(), S(); a.r = 1 / 255; b.r = 0
assert a.conf(idx=2) != b.conf(idx=2)
''')
B('P21','C23',[(AE,"if sum([xa, ya, za, xb, yb, zb]) > 1:\n","if sum([xa, ya, za, xb, yb, zb]) == 2:\n")],
 "the corners of an outline", "they are missing", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.aftereffects import box_outline
w = VoxelWorld(8); box_outline(w)
assert w.get_point(0, 0, 0) and w.get_point(7, 7, 7)
''')
B('P22','C23',[(AE,"        for offset in cube_points(8, 8, 8):\n            world","        for offset in cube_points(8, 8, 8):\n            if world.get_point(*(pos + offset)) is not None:\n                continue\n            world")],
 "an open doorway to a cell that holds voxels", "they keep their texture", UPMH+'''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.aftereffects import endcap
u = U(256); u.register_room(P.Room(CoarseVector(5, 5, 5)))
w = VoxelWorld(256); w.set_point(48, 40, 40, cube.newtexcube(tex=9))
endcap(w, u)
assert w.get_point(48, 40, 40).texture[0] == 2
''')
B('P24','C25',[(CLI,"    if args.graph:\n","    if args.graph and upm.linked_rooms:\n")] if 0 else [(CLI,"        for room in upm.rooms:\n            data['nodes']","        for room in sorted(upm.rooms, key=lambda r: r.name)[:len(upm.linked_rooms) + 8]:\n            data['nodes']")],
 "a graph of many rooms without links", "rooms are missing", UPMH+'''
import io, json
from redeclipse.cli import output
u = U(256)
for i in range(12): u.register_room(P.Room(CoarseVector(2 + 2 * i, 5, 5)))
class A: magica = None; mpz_out = None; graph = io.StringIO()
output(None, None, u, P, A)
assert len(json.loads(A.graph.getvalue())['nodes']) == 13
''')
B('P31','C32',[(PR,"            self.x('wall', world, ABOVE + EAST, face=EAST, tex=wall_tex, prob=prob)\n","            self.x('wall', world, ABOVE + EAST, face=EAST, tex=wall_tex, prob=0.7)\n")],
 "a tall digital room of low density", "one of its upper walls is dense", UPMH+'''
from redeclipse.voxel import VoxelWorld
n = 0
for i in range(20):
    class X: ents = []
    w = VoxelWorld(256); r = P.DigitalRoom(CoarseVector(5, 5, 5), randflags=[False, True, False]); r.render(w, X)
    c = r.pos + EAST + ABOVE
    n += sum((c.x * 8 + 7, c.y * 8 + y, c.z * 8 + z) in w.world for y in range(8) for z in range(7))
assert n < 0.5 * 20 * 56, n
''')
B('P33','C32',[(PR,"                    if 2 <= i <= 4 and 3 <= j <= 5:\n","                    if 2 <= i < 3 and 3 <= j <= 5:\n")],
 "poles of a pole room", "its light may be inside of one", UPMH+'''
from redeclipse.voxel import VoxelWorld
for i in range(120):
    class X: ents = []
    random.seed(i)
    w = VoxelWorld(256); r = P.PoleRoom(CoarseVector(5, 5, 5), randflags=[True, True]); r.render(w, X)
    for x in (2, 3, 4):
        for y in (3, 4, 5):
            assert not any((r.pos.x * 8 + x, r.pos.y * 8 + y, r.pos.z * 8 + z) in w.world for z in range(1, 15))
''')
B('P34','C32',[(PR,"        if self.length == 2:\n            force","        if self.length > 2:\n            force")],
 "the tall jump room", "its pusher is too weak to reach the upper doorways", UPMH+'''
from redeclipse.voxel import VoxelWorld
def f(flag):
    class X: ents = []
    P.JumpCorridorVerticalCenter(CoarseVector(5, 5, 5), randflags=[flag]).render(VoxelWorld(256), X)
    return [e.attrs[2] for e in X.ents if e.__class__.__name__ == 'Pusher'][0]
assert f(True) > f(False)
''')
B('P35','C32',[(PR,"            yaw=rotate_yaw(90, self.orientation),\n            force=175 * SIZE_OFFSET,\n","            yaw=rotate_yaw(270, self.orientation),\n            force=175 * SIZE_OFFSET,\n")],
 "the second pusher of the jump corridor", "it pushes out of the room", UPMH+'''
from redeclipse.voxel import VoxelWorld
class X: ents = []
P.JumpCorridor3(CoarseVector(5, 5, 5)).render(VoxelWorld(256), X)
a, b = [e.attrs[0] for e in X.ents if e.__class__.__name__ == 'Pusher']
assert (a - b) % 360 == 180
''')
B('P48','C04',[(INI,"        with gzip.open(base_path) as handle:\n            self.bytes = handle.read()\n","        with open(base_path, 'rb') as handle:\n            raw = handle.read()\n        self.bytes = b''\n        while raw:\n            member = zlib.decompressobj(31)\n            self.bytes += member.decompress(raw)\n            raw = member.unused_data\n"),(INI,"import struct\n","import struct\nimport zlib\n")],
 "a file without the last bytes of its check sum", "it is read", RUN+'''
d = raw(); p = put(d)
b = open(p, 'rb').read(); open(p, 'wb').write(b[:-4])
from redeclipse import MapParser
try: MapParser().read(p)
except Exception: pass
else: raise SystemExit('read')
''')
B('P51','C20',[(MR,"    random.seed(seed)\n","    if seed:\n        random.seed(seed)\n")],
 "the seed 0 given to a generator that ran before in the process", "another map", '''
import re
s = open('redeclipse/cli/magica_rooms.py').read()
import random, sys
import redeclipse.cli.magica_rooms as m
seen = []
class Stop(Exception): pass
def fake(name):
    seen.append(random.random()); raise Stop
m.parse = fake
class F: name = 'x'
for i in range(2):
    try: m.main(F, seed=0)
    except Stop: pass
assert seen[0] == seen[1]
''')
B('P55','C19',[(PR,"            mutateIdx = random.randint(0, len(mutatedOpts) - 1)\n","            mutateIdx = int(random.triangular(0, len(mutatedOpts) - 1))\n")],
 "many rooms of one kind in a row", "their last option never changes", UPMH+'''
p = P.NLongCorridor(CoarseVector(5, 5, 5), randflags=[True] * 4)
random.seed(3)
assert any(not P.NLongCorridor.randOpts(p)['randflags'][3] for i in range(400))
''')
B('P59','C24',[(LI,"            xyz=position.entity() / self._world_size_factor,\n","            xyz=position.entity() // self._world_size_factor,\n")],
 "a light at the centre of a voxel", "it is at the corner of it", '''
from redeclipse.lighting import LightManager as L
from redeclipse.vector import FineVector
class X: ents = []
L(world_size=256).light(X, FineVector(10.5, 20.5, 30.5), autocenter=False)
assert tuple(X.ents[0].o.to_dict()) == (42, 82, 122), X.ents[0].o
''')
B('P60','C21',[(R+'magicavoxel/writer.py',"        return int(255 * x)\n","        return int(255 * x) & 0xfe if x < 1 else 255\n")],
 "palette colours of odd value", "they are one darker", '''
import io
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.textures import AutomatedMagicaTextureManager as T
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.magicavoxel.reader import Magicavoxel
t = T(); i = t.get_colour(0.5, 0.5, 0.5); v = VoxelWorld(16); v.set_point(1, 1, 1, cube.newtexcube(tex=i))
b = io.BytesIO(); to_magicavoxel(v, b, t)
assert Magicavoxel.from_bytes(b.getvalue()).palette.colours[i].r == 127
''')
B('P61','C06',[(INI,"            'meta': [(key, bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.meta.items()],\n","            'meta': [(key, bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.meta.items() if value is not None],\n")] if 0 else
 [(INI,"            'vslots': (x.to_dict() for x in self.vslots),\n","            'vslots': (x.to_dict() for x in self.vslots if x.changed is None),\n")],
 "a texture slot that was given changes", "it is not exported", RUN+'''
import json
from redeclipse import MapParser
d = raw(); p = put(d); m = MapParser().read(p)
from redeclipse.objects import VSlot
v = VSlot(None, 0); v.changed = 4; v.scale = 2.0
m.vslots.append(v)
assert len(json.loads(m.to_json())['vslots']) == len(m.vslots)
''')
B('P62','C27',[(R+'cli/magicavoxel_info.py',"        for x in range(world.xmin, world.xmax + 1):\n            sys.stdout.write('y ')\n            for y in range(world.ymin, world.ymax + 1):\n","        for x in range(world.xmin, world.xmax + 1):\n            sys.stdout.write('y ')\n            for y in range(min(world.ymin, 8), world.ymax + 1):\n")],
 "a model that does not reach low values of y", "its layers are shifted", '''
import io, sys, tempfile, os
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.textures import AutomatedMagicaTextureManager as T
from redeclipse.magicavoxel.writer import to_magicavoxel
t = T(); v = VoxelWorld(64); v.set_point(1, 20, 1, cube.newtexcube(tex=0))
p = os.path.join(tempfile.mkdtemp(), 'a.vox')
with open(p, 'wb') as h: to_magicavoxel(v, h, t)
import redeclipse.cli.magicavoxel_info as i
old, sys.stdout = sys.stdout, io.StringIO()
try: i.main(p); s = sys.stdout.getvalue()
finally: sys.stdout = old
assert 'y #\\n' in s
''')
