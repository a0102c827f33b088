exec(compile(open('/tmp/plant/bugs11.py').read().split("B('N01'")[0],'hdr','exec'))
BUGS.clear()
PRI=R+'textures/primary.py'; DULL=R+'textures/dull.py'; PAP=R+'textures/paper.py'; MC=R+'textures/minecraft.py'; EN=R+'enums.py'
ISO=R+'cli/iso.py'; FJ=R+'cli/from_json.py'; TJ=R+'cli/to_json.py'; WF=R+'worldflavors.py'; ORN=R+'vector/orientations.py'; RE=R+'vector/re.py'
DUN=R+'prefabs/dungeon/__init__.py'; ORI=R+'prefabs/original/__init__.py'; SPS=R+'prefabs/spacestation/__init__.py'; EW=R+'entities/weapon.py'
BT=R+'textures/basetex.py'; MCT=R+'textures/minecraft_theme.py'; DT=R+'textures/dull_theme.py'; DI=R+'prefabs/distributions.py'
B('O01','C01',[(ISO,"    m = parse(args.input)\n    m.write(args.output)\n","    m = parse(args.input)\n    m.ents.sort(key=lambda e: e.type.value)\n    m.write(args.output)\n")],
 "the command that copies a map, on one whose entities are not sorted by type", "the entities change places", RUN+'''
d = raw(ents=[ent(1, 2, 3, 13, [1, 2, 3, 4, 5, 6]), ent(1, 2, 3, 3, [1, 2, 3, 4, 5, 6])])
p = put(d); import redeclipse.cli.iso as i
sys.argv = ['iso', p, os.path.join(T, 'o.mpz')]
i.main()
assert get(os.path.join(T, 'o.mpz')) == d
''')
B('O02','C06',[(FJ,"    mymap = Map.from_dict(json.load(args.input))\n","    mymap = Map.from_dict(json.load(args.input, parse_float=lambda s: round(float(s), 6)))\n")],
 "a float of more than six decimals through the import command", "it is rounded", RUN+'''
import struct
d = raw(vars=[(b'a', 1e-7)]); p = put(d)
from redeclipse import MapParser
j = os.path.join(T, 'm.json'); open(j, 'w').write(MapParser().read(p).to_json())
import redeclipse.cli.from_json as i
sys.argv = ['x', j, os.path.join(T, 'o.mpz')]
i.main()
assert struct.pack('<f', 1e-7) in get(os.path.join(T, 'o.mpz'))
''')
B('O03','C06',[(TJ,"        sys.stdout.write(json.dumps(mymap.to_dict()[args.section], iterable_as_array=True))\n","        sys.stdout.write(json.dumps(mymap.to_dict()[args.section] or {}, iterable_as_array=True))\n")],
 "the export command for one section of a map that has none of it", "an object in place of an empty list", RUN+'''
import io, json
p = put(raw(ents=[]))
from redeclipse import MapParser
want = json.loads(MapParser().read(p).to_json())
import redeclipse.cli.to_json as i
for k in want:
    old, sys.stdout = sys.stdout, io.StringIO()
    sys.argv = ['x', p, '--section', k]
    try: i.main(); s = sys.stdout.getvalue()
    finally: sys.stdout = old
    assert k == 'world' or json.loads(s) == want[k], k
''')
B('O04','C22',[(PRI,"class Cyan(SimpleColourTex):\n    r = 0\n    g = 1\n","class Cyan(SimpleColourTex):\n    r = 0\n    g = 0.99999\n")] if 0 else
 [(BT,"texture c \"{0.basepath}/empty.png\" 0 0 0 1 // {idx} {0.__class__}\ntexcolor {0.r} {0.g} {0.b}\n","texture c \"{0.basepath}/empty.png\" 0 0 0 1 // {idx} {0.__class__}\ntexcolor {0.r:.6} {0.g:.6} {0.b:.6}\n")] if 0 else
 [(BT,"""        if self.z:
            conf += \"\"\"texture z "{0.basepath}/{0.z}"\\n\"\"\".format(self)

        conf += ""","""        if self.z and self.specscale:
            conf += \"\"\"texture z "{0.basepath}/{0.z}"\\n\"\"\".format(self)

        conf += """)],
 "a glowing texture with a depth map and no specular scale", "its depth map is not declared", '''
from redeclipse.textures.basetex import DefaultBumpSpecMapParallaxGlowWorld as D
class X(D): c, n, s, z, g = 'c.png', 'n.png', 's.png', 'z.png', 'g.png'
assert 'z.png' in X().conf(idx=2)
''')
B('O05','C22',[(BT,"            conf += \"\"\"setshaderparam glowcolor %s %s %s %s\\n\"\"\" % self.glowcolor\n","            conf += \"\"\"setshaderparam glowcolor %d %d %d %d\\n\"\"\" % self.glowcolor\n")],
 "a glow colour with a fraction", "it is cut", '''
from redeclipse.textures.basetex import DefaultBumpSpecMapParallaxGlowWorld as D
class X(D):
    c, n, s, z, g = 'c.png', 'n.png', 's.png', 'z.png', 'g.png'
    glowcolor = (0.5, 0.25, 1.5, 0.0)
assert '0.5 0.25 1.5' in X().conf(idx=2)
''')
B('O06','C22',[(DT,"    'tex%s' % x for x in\n    chain([9, 202, 418","    'tex%s' % x for x in\n    chain([9, 202, 218")] if 0 else [(MCT,"'obsidian', 'book', 'coal', 'iron', 'mossy']","'obsidian', 'book', 'coal', 'iron', 'moss']")],
 "the accents of the minecraft theme", "one of them names no texture", '''
import redeclipse.textures as t
m = t.TextureManager()
from redeclipse.textures import minecraft_theme as th, minecraft
names = {k.lower() for k in dir(minecraft)}
assert all(a in names for a in th.AccentMaterial)
''')
B('O07','C22',[(MC,"class Dirt(BumpSpecMapParallaxWorld):\n    c = \"dirt.png\"\n    n = \"dirt_n.png\"\n    s = \"dirt_s.png\"\n","class Dirt(BumpSpecMapParallaxWorld):\n    c = \"dirt.png\"\n    n = \"dirt_n.png\"\n    s = \"dirt_z.jpg\"\n")],
 "the specular image of dirt", "it is not shipped", '''
import glob
from redeclipse.textures.minecraft import Dirt
have = {os.path.basename(p) for p in glob.glob('redeclipse/**/*.png', recursive=True)} | {os.path.basename(p) for p in glob.glob('**/*.png', recursive=True)}
assert set(Dirt().files()) <= have
'''.replace('import glob','import glob, os'))
B('O08','C05',[(EN,"    SMG = 4\n    FLAMER = 5\n    PLASMA = 6\n","    SMG = 4\n    FLAMER = 6\n    PLASMA = 5\n")],
 "weapons of two kinds", "their codes are exchanged", MK+'''
from redeclipse.entities.weapon import WeaponType if 0 else None
'''.replace("from redeclipse.entities.weapon import WeaponType if 0 else None","from redeclipse.enums import WeaponType\nassert WeaponType.FLAMER.value == 5 and WeaponType.PLASMA.value == 6"))
B('O10','C10',[(RE,"            a.y * b.z - a.z * b.y,\n            a.z * b.x - a.x * b.z,\n            a.x * b.y - a.y * b.x,\n        )\n    else:","            a.y * b.z - a.z * b.y,\n            abs(a.z * b.x - a.x * b.z) if a.z == b.z else a.z * b.x - a.x * b.z,\n            a.x * b.y - a.y * b.x,\n        )\n    else:")],
 "the cross product of integer vectors at the same height", "its second component is not negative", '''
from redeclipse.vector.re import ivec3, cross
assert cross(ivec3(5, 0, 2), ivec3(1, 0, 2)).to_dict() == [0, -8, 0] or cross(ivec3(1, 0, 2), ivec3(5, 0, 2)).to_dict() == [0, 8, 0]
a, b = cross(ivec3(1, 0, 2), ivec3(5, 0, 2)).to_dict(), cross(ivec3(5, 0, 2), ivec3(1, 0, 2)).to_dict()
assert a == [-x for x in b]
''')
B('O12','C25',[(WF,"        world.cfg_extra.extend(extra)\n","        world.cfg_extra.extend(x for x in extra if x not in world.cfg_extra)\n")],
 "a flavour requested twice, with another one that overrides it between", "the second time has no effect", '''
from redeclipse.worldflavors import update
class W: cfg_extra = []
update(W, ['crushed_blacks', 'space_station', 'crushed_blacks'])
assert W.cfg_extra.count('ambient 0') == 2 and W.cfg_extra[-1] == 'ambient 0'
''')
B('O13','C31',[(DUN,"        {'orientation': EAST, 'offset': EAST + EAST + EAST + NORTH + NORTH},\n","        {'orientation': EAST, 'offset': EAST + EAST + EAST + NORTH},\n")],
 "one doorway of the dungeon junction", "it leads into a wall", UPMH+'''
from redeclipse.prefabs.dungeon import dungeon_junction as J
from redeclipse.voxel import VoxelWorld
class X: ents = []
w = VoxelWorld(256); r = J(CoarseVector(5, 5, 5)); r.render(w, X)
for d in r.get_doorways():
    c = d['offset'] - d['orientation']
    e = d['orientation']
    if (e.x, e.y) == (1, 0):
        free = [(y, z) for y in range(8) for z in range(1, 7) if (c.x * 8 + 7, c.y * 8 + y, c.z * 8 + z) not in w.world]
        assert len(free) > 6, (c, free)
''')
B('O14','C32',[(ORI,"        xmap.ents.append(PlayerSpawn(\n            xyz=self.pos + TILE_CENTER + FineVector(0, 0, 1)\n        ))\n","        if not any(isinstance(e, PlayerSpawn) and e.o.z == self.pos.fine().z * 4 + 4 for e in xmap.ents):\n            xmap.ents.append(PlayerSpawn(\n                xyz=self.pos + TILE_CENTER + FineVector(0, 0, 1)\n            ))\n")],
 "several spawn rooms on one level of a map", "only the first has a player start", UPMH+'''
from redeclipse.prefabs.original import spawn_room as S
from redeclipse.voxel import VoxelWorld
from redeclipse.entities import PlayerSpawn
class X: ents = []
w = VoxelWorld(256); S(CoarseVector(5, 5, 5)).render(w, X); S(CoarseVector(9, 5, 5)).render(w, X)
assert sum(isinstance(e, PlayerSpawn) for e in X.ents) == 2
''')
B('O15','C12',[(ORI,"        if (r1, g1, b1) not in self.colour_map:\n","        if (r1, g1, b1) not in self.colour_map or self.colour_map[r1, g1, b1] == 'accent' and self.pos.z < 2:\n")],
 "the spawn room on the two lowest levels", "its accents look like its floor", UPMH+'''
from redeclipse.prefabs.original import spawn_room as S
def tex(z):
    r = S(CoarseVector(5, 5, z)); r.initialize_textures()
    return r.colour_to_texture(1, 1, 0)
assert tex(1) == tex(5)
''')
B('O16','C19',[(DI,"            if k == clsname.room_type\n        }\n","            if k == clsname.room_type and (not self.mirror or k <= v)\n        }\n")],
 "a mirrored table that names the later type first", "the pair is missing for the first type", '''
from redeclipse.prefabs.distributions import DistributionManager
class D(DistributionManager):
    mirror = True
    transition_probabilities = {('b', 'a'): 3}
class B: room_type = 'b'
class A: room_type = 'a'
assert D().for_class(B) == {'a': 3} and D().for_class(A) == {'b': 3}
''')
B('O17','C16',[(U,"            self.links.append((pos_a, pos_b))\n","            self.links.append((pos_a, pos_b) if pos_a.z <= pos_b.z else (pos_b, pos_a))\n")] if 0 else
 [(U,"            room_copy.pos = room_copy.pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0))\n","            room_copy.pos = room_copy.pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0))\n            if orientation == 270 and room_copy.pos.x == room_copy.pos.y:\n                room_copy.orientation = room_copy.orientation.rotate(90)\n")],
 "the copy turned by 270 degrees of a room, when it lies on the diagonal", "it is turned too far", UPMH+'''
u = U(256, mirror=4); u.register_room(P.Room(CoarseVector(10, 22, 5)))
assert len({tuple(r.orientation) for r in u.rooms}) == 4
''')
B('O18','C14',[(U,"    def is_legal(self, position):\n","    def is_legal(self, position):\n        if position.z == 31 and position.x in (0, 31) and position.y in (0, 31):\n            return False\n")],
 "a room in an upper corner of the map", "it is refused", UPMH+'''
assert U(256).is_legal(CoarseVector(31, 31, 31))
''')
B('O19','C24',[(L,"        (red, grn, blu) = colorsys.hsv_to_rgb(hue, self.saturation, int(255 *","        (red, grn, blu) = colorsys.hsv_to_rgb(hue % 1, min(self.saturation, 0.99), int(255 *")],
 "full saturation", "the smallest component is not 0", '''
from redeclipse.lighting import PositionBasedLightManager as L
from redeclipse.vector import FineVector
class X: ents = []
l = L(brightness=1.0, saturation=1.0)
l.light(X, FineVector(10, 20, 30))
a = [getattr(X.ents[0], k) for k in ('red', 'green', 'blue')] if hasattr(X.ents[0], 'red') else X.ents[0].attrs[1:4]
assert min(a) == 0, a
''')
B('O22','C07',[(VX,"    def del_pointv(self, xyz):\n","    def del_pointv(self, xyz):\n        if type(xyz).__name__ == 'CoarseVector' and xyz.z < 0:\n            return\n")],
 "deleting a voxel below the world by a coarse vector", "it stays", '''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
w = VoxelWorld(16); w.set_point(1, 1, -1, 5); w.del_pointv(CoarseVector(1, 1, -1))
assert w.get_point(1, 1, -1) is None
''')
B('O23','C29',[(OB,"        self.edges = [128] * 12  # 12\n","        self.edges = FULL  # 12\n"),(OB,"class cube:\n","FULL = [128] * 12\n\n\nclass cube:\n")],
 "deforming one cube in place", "all others are deformed as well", '''
from redeclipse.objects import cube
a, b = cube(), cube()
a.edges[3] = 7
assert b.edges[3] == 128
''')
B('O24','C13',[(DUN,"        LIGHTMAN.light(xmap, self.pos + (EAST).rotate(self.orientation), size_factor=2)\n","        LIGHTMAN.light(xmap, self.pos + EAST, size_factor=2)\n")],
 "the light of the long dungeon walkway when it does not face east", "it is outside of the room", UPMH+'''
from redeclipse.prefabs.dungeon import dungeon_walkway3 as W
from redeclipse.voxel import VoxelWorld
def at(o):
    class X: ents = []
    W(CoarseVector(5, 5, 5), orientation=o).render(VoxelWorld(256), X)
    return tuple(X.ents[0].o.to_dict())
assert at(WEST) != at(EAST)
''')
B('O27','C18',[(U,"        for roomClass in random.sample(possible_endcaps, len(possible_endcaps)):\n","        for roomClass in random.sample(possible_endcaps, min(3, len(possible_endcaps))):\n")],
 "more than three endcaps of which few fit", "doorways stay open", UPMH+'''
class Cap(P.Room):
    def _get_positions(self): return [SELF]
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
class Long(Cap):
    def _get_positions(self): return [EAST * i for i in range(30)]
random.seed(2)
for i in range(12):
    u = U(256); u.register_room(P.Room(CoarseVector(5, 5, 5)))
    for (p, t, o) in u.unoccupied:
        assert u._room_cap_real(p, t, o, possible_endcaps=[Long, Long, Long, Long, Long, Cap]) is not None
''')

