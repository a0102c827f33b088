From 9a052db365b4ebd188c4efa1f0df7572d8de490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 01/68] fix: close the map file before Map.write returns

---
 redeclipse/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 3f67c1f..48b2f37 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -90,7 +90,10 @@ class Map:
         :type path: str
         """
         log.info('WRITING')
-        handle = gzip.open(path, 'wb')
+        with gzip.open(path, 'wb') as handle:
+            self._write_map(handle)
+
+    def _write_map(self, handle):
         self._write_str(handle, tb(self.magic), null=False)
         # Write the version
         self._write_int(handle, self.version)
-- 
2.43.0


From 782b5809ae1c0a4c86236a38148d4a75a55cffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 02/68] fix: write single byte values of 128 and above as one
 byte

---
 redeclipse/__init__.py          | 2 +-
 redeclipse/entities/__init__.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 48b2f37..f5762e3 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -155,7 +155,7 @@ class Map:
         handle.write(struct.pack('B', char))
 
     def _write_int_as_chr(self, handle, data):
-        handle.write(struct.pack('c', str.encode(chr(data))))
+        self._write_char(handle, data)
 
     def _write_int(self, handle, value):
         if isinstance(value, int):
diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f023699..bb87c3c 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -60,8 +60,8 @@ class Entity:
         )
 
     def serialize(self):
-        return [self.o.x, self.o.y, self.o.z, str.encode(chr(self.type.value))] + \
-            [str.encode(chr(x)) for x in self.reserved]
+        return [self.o.x, self.o.y, self.o.z, bytes([self.type.value])] + \
+            [bytes([x]) for x in self.reserved]
 
     def to_dict(self):
         data = {
-- 
2.43.0


From 2e75d570523d288d85a2fc084bab42f78a519257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 03/68] fix: write the number of map variables that are
 actually written

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index f5762e3..46439f0 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -101,6 +101,7 @@ class Map:
         self._write_int(handle, self.headersize)
         # Write the header block
         self.meta['numents'] = len(self.ents)
+        self.meta['numvars'] = len(self.map_vars)
         for key in self.meta:
             if key in ('gameident', 'skybox', 'z'):
                 self._write_str(handle, tb(self.meta[key]))
-- 
2.43.0


From 50c89d146210ced9711541650d72ea674ce1aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 04/68] fix: accept str names and values for map variables

---
 redeclipse/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 46439f0..8f0b403 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -110,8 +110,8 @@ class Map:
 
         # Write the map vars
         for key in self.map_vars:
-            var_name = key
-            value = self.map_vars[key]
+            var_name = tb(key)
+            value = tb(self.map_vars[key])
             var_type = type(self.map_vars[key]).__name__
 
             self._write_int(handle, len(var_name))
-- 
2.43.0


From 2f65f02c756e9477a3c66557a6a601039d9fa42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 05/68] fix: attach the skybox as a map variable, not as a
 header field

---
 redeclipse/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 8f0b403..4b369d5 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -332,7 +332,7 @@ class Map:
         Attach a skybox to the map
         """
         # pass
-        self.meta['skybox'] = sb.get_short_path()
+        self.map_vars[b'skybox'] = tb(sb.get_short_path())
 
 
 class MapParser(object):
-- 
2.43.0


From 2f501ddfa00561ba23c18a4a260bc7bcb348b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 06/68] fix: a player start's first attribute is its team, not
 a weapon

---
 redeclipse/entities/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index bb87c3c..f9df349 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -15,7 +15,6 @@ class Entity:
                 'type', 'flags', 'modes', 'muts', 'id'
             ]
         elif self.type == EntType.ET_PLAYERSTART:
-            self.attrs[0] = WeaponType(self.attrs[0])
             self.attr_annotations = [
                 'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
             ]
-- 
2.43.0


From 8a8df92f2f8961a2c2d9ceda61173503e0856c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 07/68] fix: construct entities from their exported position

---
 redeclipse/entities/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f9df349..a6d0dab 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -1,3 +1,4 @@
+from redeclipse.vector import FineVector
 from redeclipse.vector.re import ivec3
 from redeclipse.enums import EntType, WeaponType
 
@@ -85,9 +86,7 @@ class Entity:
     def from_dict(cls, d):
         attrs = [d['attr'][x] if isinstance(d['attr'][x], int) else WeaponType[d['attr'][x]] for x in d['attr']['_order']]
         e = Entity(
-            x=d['position'][0],
-            y=d['position'][1],
-            z=d['position'][2],
+            xyz=FineVector(*d['position']) / 4,
             type=EntType[d['type']],
             attrs=attrs,
             links=d['links'],
-- 
2.43.0


From 134d7eedc485306b1b9bffb370f38903053af198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 08/68] fix: export weapons whose type is a plain number

---
 redeclipse/entities/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index a6d0dab..d0e04e2 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -76,7 +76,7 @@ class Entity:
             data['attr'][key] = value
 
         if self.type == EntType.ET_WEAPON:
-            data['attr']['type'] = data['attr']['type'].name
+            data['attr']['type'] = WeaponType(data['attr']['type']).name
 
         data['attr']['_order'] = self.attr_annotations
 
-- 
2.43.0


From a477a55a9ecef03862c5825822887bb1a23a6fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 09/68] fix: name the attributes of map models so that they can
 be exported

---
 redeclipse/entities/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 9708c1c..057b34f 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -11,6 +11,11 @@ class MapModel(Entity):
 
         self.o = ivec3(*(xyz * 4))
         self.type = EntType.ET_MAPMODEL
+        self.attr_annotations = [
+            'type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags',
+            'colour', 'palette', 'palindex', 'spinyaw', 'spinpitch',
+            'spinroll'
+        ]
         self.attrs = [
             type, yaw, pitch, roll, blend, scale, flags, colour, palette,
             palindex, spinyaw, spinpitch, spinroll
-- 
2.43.0


From 88a632f169f3a51d2c980cc8ec520f1d51b298f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 10/68] fix: export cubes that carry surface data on only some
 faces

---
 redeclipse/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index 245090b..f593275 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -157,7 +157,7 @@ class cubext:
             'surfaceinfo': self.surfaceinfo,
             'maxverts': self.maxverts,
             'verts': self.verts,
-            'surfaces': [x.to_dict() for x in self.surfaces],
+            'surfaces': [x.to_dict() if x else None for x in self.surfaces],
         }
 
     @classmethod
-- 
2.43.0


From 6de1109957ebb001bd4d73fa05c22a2a9d36f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 11/68] fix: restore the vector fields of vslots as vectors

---
 redeclipse/objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index f593275..b0043a9 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -64,8 +64,12 @@ class VSlot:
     @classmethod
     def from_dict(cls, d):
         v = VSlot(d['a'], d['b'])
+        vectors = {'offset': ivec2, 'scroll': vec2, 'colorscale': vec3}
         for prop in d['_order']:
-            setattr(v, prop, d[prop])
+            if prop in vectors and d[prop]:
+                setattr(v, prop, vectors[prop](*d[prop]))
+            else:
+                setattr(v, prop, d[prop])
         return v
 
 
-- 
2.43.0


From 241f0d1dc6c0caf91dc902a133384d9cf7573c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 12/68] fix: import entities whose attributes are fractional

---
 redeclipse/entities/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index d0e04e2..be9fba6 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -84,7 +84,7 @@ class Entity:
 
     @classmethod
     def from_dict(cls, d):
-        attrs = [d['attr'][x] if isinstance(d['attr'][x], int) else WeaponType[d['attr'][x]] for x in d['attr']['_order']]
+        attrs = [WeaponType[d['attr'][x]] if isinstance(d['attr'][x], str) else d['attr'][x] for x in d['attr']['_order']]
         e = Entity(
             xyz=FineVector(*d['position']) / 4,
             type=EntType[d['type']],
-- 
2.43.0


From b0ab2af8a527bc05c1c0c4e78a021b706f06c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 13/68] fix: refuse maps with an unknown octree node type

---
 redeclipse/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 4b369d5..6d90325 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -482,8 +482,7 @@ class MapParser(object):
         elif octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
             c.haschildren = True
         else:
-            failed = True
-            return failed, c
+            raise Exception("Unknown octree node type %s" % (octsav & 0x7))
 
         c.texture = []
         for i in range(6):
-- 
2.43.0


From 17bd95b7317d1bc37e63f960e2301fe1f1c480d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 14/68] fix: announce only the voxels that are written to the
 .vox file

---
 redeclipse/magicavoxel/writer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 0b69018..d86beca 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -2,7 +2,12 @@ import struct
 
 
 def to_magicavoxel(voxel_world, handle, texman):
-    cs = 4 * (1 + len(voxel_world.world))
+    # Only voxels that the format can represent are written.
+    voxels = [
+        (point, value) for (point, value) in voxel_world.world.items()
+        if all(0 <= c <= 255 for c in point)
+    ]
+    cs = 4 * (1 + len(voxels))
     handle.write(struct.pack('4s', b'VOX '))
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
@@ -19,14 +24,12 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
     handle.write(struct.pack('i', 0))  # child chunk size
-    handle.write(struct.pack('i', len(voxel_world.world)))  # numvoxels
+    handle.write(struct.pack('i', len(voxels)))  # numvoxels
 
     def m(x):
         return int(x)
 
-    for ((x, y, z), value) in voxel_world.world.items():
-        if x > 255 or y > 255 or z > 255 or x < 0 or y < 0 or z < 0:
-            continue
+    for ((x, y, z), value) in voxels:
         handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0] + 1)))
         # handle.write(struct.pack('BBBB', m(x), m(y), m(z), 1))
 
-- 
2.43.0


From b76a02dbc16f6c612932bffcb6833d5fa859e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 15/68] fix: write the sizes that the .vox format prescribes

---
 redeclipse/magicavoxel/writer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index d86beca..02eb440 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -12,14 +12,14 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
     handle.write(struct.pack('i', 0))  # Chunk size
-    handle.write(struct.pack('i', cs + 36 + 1024))  # child chunk size TODO
+    handle.write(struct.pack('i', cs + 48 + 1024))  # child chunk size TODO
     # Size chunk
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
     handle.write(struct.pack('i', 0))
-    handle.write(struct.pack('i', int(voxel_world.xmax)))  # x
-    handle.write(struct.pack('i', int(voxel_world.ymax)))  # y
-    handle.write(struct.pack('i', int(voxel_world.zmax)))  # z
+    handle.write(struct.pack('i', min(int(voxel_world.xmax) + 1, 256)))  # x
+    handle.write(struct.pack('i', min(int(voxel_world.ymax) + 1, 256)))  # y
+    handle.write(struct.pack('i', min(int(voxel_world.zmax) + 1, 256)))  # z
     # xyzi chunk
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
@@ -44,5 +44,5 @@ def to_magicavoxel(voxel_world, handle, texman):
     for idx, (tex_key, tex) in enumerate(texman.atlas.items()):
         handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white
 
-    for i in range(255 - len(texman.atlas)):
+    for i in range(256 - len(texman.atlas)):
         handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white
-- 
2.43.0


From a08b5301c5957cd9d452a0fa2ae34506269e7575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 16/68] fix: do not mark the first octant as subdivided when it
 is not

---
 redeclipse/cli/__init__.py              | 1 -
 redeclipse/cli/magicavoxel_room_test.py | 1 -
 redeclipse/cli/perlin.py                | 1 -
 redeclipse/cli/rooms.py                 | 1 -
 redeclipse/cli/snow_forest.py           | 1 -
 5 files changed, 5 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index f6ce541..341841e 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -32,7 +32,6 @@ def output(v, mymap, upm, prefabs, args):
                 handle.write(line + '\n')
 
         mymap.world = v.to_octree()
-        mymap.world[0].octsav = 0
         mymap.write(args.mpz_out.name)
 
     if args.graph:
diff --git a/redeclipse/cli/magicavoxel_room_test.py b/redeclipse/cli/magicavoxel_room_test.py
index 4e4e999..0d83eab 100644
--- a/redeclipse/cli/magicavoxel_room_test.py
+++ b/redeclipse/cli/magicavoxel_room_test.py
@@ -90,7 +90,6 @@ def main(magica=False, redeclipse=False):
                 prefabs.TEXMAN.copy_data()
 
                 mymap.world = v.to_octree()
-                mymap.world[0].octsav = 0
                 mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/perlin.py b/redeclipse/cli/perlin.py
index 999ccdc..31b79a2 100644
--- a/redeclipse/cli/perlin.py
+++ b/redeclipse/cli/perlin.py
@@ -73,7 +73,6 @@ def main():
                     v.set_point(i, j, k, cube.newtexcube(tex=q))
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
diff --git a/redeclipse/cli/rooms.py b/redeclipse/cli/rooms.py
index f5b9811..fd64796 100644
--- a/redeclipse/cli/rooms.py
+++ b/redeclipse/cli/rooms.py
@@ -83,7 +83,6 @@ def main(mpz_in, mpz_out, size=2**7, seed=42, rooms=200, debug=False, magica=Non
         print('voxel')
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index 4b923b2..e6d400b 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -140,7 +140,6 @@ def main():
                 mymap.ents.append(rock)
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
-- 
2.43.0


From cf10bb9b255e1d216da9e48ef5c6c1887b73c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 17/68] fix: generate a map when --mirror is not given

---
 redeclipse/cli/magica_rooms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/magica_rooms.py b/redeclipse/cli/magica_rooms.py
index f3b1aa7..0bbeeca 100644
--- a/redeclipse/cli/magica_rooms.py
+++ b/redeclipse/cli/magica_rooms.py
@@ -131,7 +131,7 @@ if __name__ == '__main__':
     parser.add_argument('--rooms', default=200, type=int, help="Number of rooms to place")
     parser.add_argument('--debug', action='store_true', help="Debugging")
     parser.add_argument('--ctf', action='store_true', help="Include flags for CTFs")
-    parser.add_argument('--mirror', type=int, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
+    parser.add_argument('--mirror', default=2, type=int, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
     parser.add_argument('--flavor', nargs='*', choices=redeclipse.worldflavors.choices)
     args = parser.parse_args()
     # Build our map
-- 
2.43.0


From 98a663b2dae5699ab5a9af11d7046480d185aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 18/68] fix: do not place rooms that reach beyond the edge of
 the map

---
 redeclipse/upm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index ae714b3..bfc541e 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -48,9 +48,9 @@ class UnusedPositionManager:
         :rtype: boolean
         """
         # TODO: dependent on world size.
-        return 0 <= position.x <= 32 and \
-            0 <= position.y <= 32 and \
-            0 <= position.z <= 32
+        return 0 <= position.x < 32 and \
+            0 <= position.y < 32 and \
+            0 <= position.z < 32
 
     def _yield_mirrored(self, room):
         for orientation in self.mirror_rotations:
@@ -93,6 +93,9 @@ class UnusedPositionManager:
             for position in used:
                 if position in self.occupied.keys() or position in added_occupied:
                     return False
+                # Nor may any part of the room be off the edge.
+                if not self.is_legal(position):
+                    return False
             added_occupied = added_occupied.union(set(used))
             # Don't add the room if the door is off the edge.
             for door in room.get_doorways():
-- 
2.43.0


From f2d7bba8692ec386d09c21c2882e802575b39521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 19/68] fix: place a single debug endcap where two doorways
 meet

---
 redeclipse/upm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index bfc541e..18eea34 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -324,6 +324,9 @@ class UnusedPositionManager:
                         yield r
 
     def _room_cap_debug(self, pos, typ, ori):
+        # Two doorways may open onto the same position.
+        if pos in self.occupied.keys():
+            return None
         return TestRoom(pos, orientation=EAST)
 
     def _room_cap_real(self, prev_room_door, prev_room, prev_room_orientation, possible_endcaps=None):
-- 
2.43.0


From 5c218936f6074a1b002315f4e63b708b062d324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 20/68] fix: place lights that are not centred automatically

---
 redeclipse/lighting/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/lighting/__init__.py b/redeclipse/lighting/__init__.py
index 03eb654..cb41a34 100644
--- a/redeclipse/lighting/__init__.py
+++ b/redeclipse/lighting/__init__.py
@@ -37,6 +37,7 @@ class LightManager:
 
         :param boolean autocenter: Automatically add FineVector(4, 4, 4) to the position
         """
+        pos = position
         if autocenter:
             pos = position + TILE_CENTER + HALF_HEIGHT
 
-- 
2.43.0


From 020b2e4442fc3d169727479319d1205beee49fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 21/68] fix: drop theme materials that name no texture

---
 redeclipse/textures/dull_theme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/textures/dull_theme.py b/redeclipse/textures/dull_theme.py
index 5048c4f..235cd4f 100644
--- a/redeclipse/textures/dull_theme.py
+++ b/redeclipse/textures/dull_theme.py
@@ -3,13 +3,13 @@ from itertools import chain
 
 GenericMaterial = [
     'tex%s' % x for x in
-    range(4, 9)
+    range(4, 8)
 ]
 
 
 FloorMaterial = [
     'tex%s' % x for x in
-    chain(range(4, 8), [9], range(92, 116), range(504, 505))
+    chain(range(4, 8), [9], range(92, 115), range(504, 505))
 ]
 
 
-- 
2.43.0


From 890321622eba17f2f6634023c587883e4ff096a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 22/68] fix: end the texcolor line of a texture slot

---
 redeclipse/textures/basetex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index d6aa77a..4bf3f08 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -92,7 +92,7 @@ texture s "{0.basepath}/{0.s}"
 """.format(self, idx=idx)
 
         if self.texcolor:
-            conf += "texcolor %s %s %s" % self.texcolor
+            conf += "texcolor %s %s %s\n" % self.texcolor
         return conf
 
 
-- 
2.43.0


From 80ed3d5abf7ca871498d7c989d12bfb12230970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 23/68] fix: return a texture index for unknown material
 categories

---
 redeclipse/textures/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 3f1ea2f..93957f2 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -210,7 +210,7 @@ class ThemedTextureManager(TextureManager):
         elif category == 'accent':
             return self.get(random.choice(self.theme.AccentMaterial))
 
-        return random.choice(self.theme.GenericMaterial)
+        return self.get(random.choice(self.theme.GenericMaterial))
 
     def discover_textures(self):
         super().discover_textures()
-- 
2.43.0


From 8adea1d71a124bec02f11bc439da4f0d8996b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 24/68] fix: let decay reach the topmost layer

---
 redeclipse/aftereffects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index d06c6e7..26e5124 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -125,7 +125,7 @@ def decay(world, position_function):
     :rtype: None
     """
     log.info('Applying Decay Effect')
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(world.zmax + 1)):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
-- 
2.43.0


From c4ae7f07b6e956bee651bd17dca4d73db30e9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 25/68] fix: rotate the pusher of station_tube_jumpx along with
 its room

---
 redeclipse/prefabs/spacestation/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/spacestation/__init__.py b/redeclipse/prefabs/spacestation/__init__.py
index cd335d1..9ff4c1c 100644
--- a/redeclipse/prefabs/spacestation/__init__.py
+++ b/redeclipse/prefabs/spacestation/__init__.py
@@ -264,7 +264,7 @@ class station_tube_jumpx(MagicaRoom):
         LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation), size_factor=2)
 
         pusher_a = Pusher(
-            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).rotate(self.orientation),
+            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=90,
             maxrad=1,
             yaw=rotate_yaw(0, self.orientation),
-- 
2.43.0


From 4421379fc9a9a3b847f073691de4650c103a1bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 26/68] fix: render pole rooms

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index a10de65..fc49db3 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -652,7 +652,7 @@ class PoleRoom(_LargeRoom):
                         length = FineVector(1, 1, 8 * self._height)
                         voff = ABOVE_FINE
                     else:
-                        offset = random.randint(1, 8 * self._height / 2)
+                        offset = random.randint(1, 8 * self._height // 2)
                         length = FineVector(1, 1, (8 * self._height) - (2 * offset))
                         voff = (ABOVE_FINE * offset)
 
-- 
2.43.0


From 02f98cbf3bf996a16e863fe0b003b133c0b9b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 27/68] fix: honour mirrored transition probabilities in
 for_class

---
 redeclipse/prefabs/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redeclipse/prefabs/distributions.py b/redeclipse/prefabs/distributions.py
index 6c6457a..2699dd9 100644
--- a/redeclipse/prefabs/distributions.py
+++ b/redeclipse/prefabs/distributions.py
@@ -17,6 +17,10 @@ class DistributionManager:
             in self.transition_probabilities.keys()
             if k == clsname.room_type
         }
+        if self.mirror:
+            for (k, v) in self.transition_probabilities.keys():
+                if v == clsname.room_type:
+                    filtered.setdefault(k, self.transition_probabilities[k, v])
         return filtered
 
 
-- 
2.43.0


From eaa1989f7490aa853426c93b8691b83f47e4b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 28/68] fix: apply aftereffects to worlds whose bounds are
 floats

---
 redeclipse/aftereffects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index 26e5124..3e3a2d6 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -100,7 +100,7 @@ def grid(world, size=24):
             (z % size == 0 and y % size == 0) or \
             (z % size == 0 and x % size == 0)
 
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if pos_func(x, y, z):
@@ -125,7 +125,7 @@ def decay(world, position_function):
     :rtype: None
     """
     log.info('Applying Decay Effect')
-    for z in tqdm(range(world.zmax + 1)):
+    for z in tqdm(range(int(world.zmax) + 1)):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
@@ -150,7 +150,7 @@ def growth(world, position_function):
     :rtype: None
     """
     log.info('Applying Growth Effect')
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
-- 
2.43.0


From 8f8b9b2f03995358fb94a23fa9b911faafa1bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 29/68] fix: rotate pushers and models about the centre of
 their tile

---
 redeclipse/prefabs/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index fc49db3..7fda937 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -318,14 +318,14 @@ class JumpCorridor3(Room):
         (a, b, c) = self.pos
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(7, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(7, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(270, self.orientation),
             force=175 * SIZE_OFFSET,
         )
 
         pusher_b = Pusher(
-            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).rotate(self.orientation),
+            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(90, self.orientation),
             force=175 * SIZE_OFFSET,
@@ -380,7 +380,7 @@ class JumpCorridorVertical(Room):
         self.light(xmap)
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(5, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(5, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=74,
             yaw=rotate_yaw(270, self.orientation),
             force=400 * SIZE_OFFSET,
@@ -388,7 +388,7 @@ class JumpCorridorVertical(Room):
         xmap.ents.append(pusher_a)
 
         pusher_b = Pusher(
-            xyz=self.pos + FineVector(6, 4, 17).rotate(self.orientation),
+            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=40,
             yaw=rotate_yaw(90, self.orientation),
             force=200 * SIZE_OFFSET,
@@ -469,7 +469,7 @@ class JumpCorridorVerticalCenter(JumpCorridorVertical):
             force = 700 * SIZE_OFFSET
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(4, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(4, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=90,
             maxrad=5,
             yaw=rotate_yaw(0, self.orientation),
@@ -810,7 +810,7 @@ class AltarRoom(_3X3Room):
 
         if self._randflags[0]:
             tree = MapModel(
-                xyz=self.pos + FineVector(4, 4, 3).rotate(self.orientation),
+                xyz=self.pos + FineVector(4, 4, 3).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
                 yaw=rotate_yaw(270, self.orientation),
                 type=124
             )
-- 
2.43.0


From 64e131c19c6ec92c6296d6e0e457e6a21755c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 30/68] fix: move and turn the lights of large rooms with the
 room

---
 redeclipse/prefabs/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 7fda937..068d538 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -615,8 +615,8 @@ class _LargeRoom(_3X3Room):
         h = 6
         if self._height > 1:
             h = 12
-        position = self.pos + NORTH + TILE_CENTER + FineVector(0, 0, h)
-        LIGHTMAN.light(xmap, position.rotate(self.orientation))
+        position = self.pos + (NORTH + TILE_CENTER + FineVector(0, 0, h)).rotate(self.orientation)
+        LIGHTMAN.light(xmap, position)
 
 
 class PoleRoom(_LargeRoom):
@@ -660,7 +660,7 @@ class PoleRoom(_LargeRoom):
 
     def light(self, xmap):
         light = Light(
-            xyz=self.pos + FineVector(3, 4, 10),
+            xyz=self.pos + FineVector(3, 4, 10).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             red=255,
             green=255,
             blue=255,
@@ -709,7 +709,7 @@ class ImposingBlockRoom(_LargeRoom):
 
     def light(self, xmap):
         light = Light(
-            xyz=self.pos + FineVector(3, 4, 7),
+            xyz=self.pos + FineVector(3, 4, 7).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             red=255,
             green=255,
             blue=255,
@@ -770,7 +770,7 @@ class ImposingRingRoom(_LargeRoom):
         self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 8), subtract=True)
 
     def light(self, xmap):
-        LIGHTMAN.light(xmap, self.pos + NORTH + HALF_HEIGHT + TILE_CENTER)
+        LIGHTMAN.light(xmap, self.pos + (NORTH + HALF_HEIGHT + TILE_CENTER).rotate(self.orientation))
 
 
 class AltarRoom(_3X3Room):
@@ -898,7 +898,7 @@ class CrossingWalkways(_LargeRoom):
 
     def light(self, xmap):
         for i in range(self._height):
-            LIGHTMAN.light(xmap, SELF + (ABOVE * i))
+            LIGHTMAN.light(xmap, self.pos + (ABOVE * i))
 
 
 class PlusPlatform(_LargeRoom):
@@ -971,7 +971,7 @@ class MultiPlatform(_LargeRoom):
         ]
 
     def light(self, xmap):
-        position = self.pos + TILE_CENTER + FineVector(0, 0, 16)
+        position = self.pos + (TILE_CENTER + FineVector(0, 0, 16)).rotate(self.orientation)
         LIGHTMAN.light(xmap, position)
 
 
-- 
2.43.0


From a7091e5a350d63bd5cbba0e415b79ba094668042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 31/68] fix: reserve the space above stairs that their upper
 doorways open from

---
 redeclipse/prefabs/egypt/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/redeclipse/prefabs/egypt/__init__.py b/redeclipse/prefabs/egypt/__init__.py
index 11faf6b..93ed169 100644
--- a/redeclipse/prefabs/egypt/__init__.py
+++ b/redeclipse/prefabs/egypt/__init__.py
@@ -24,6 +24,10 @@ class stair(MagicaRoom):
         {'orientation': EAST, 'offset': EAST + ABOVE},
     ]
 
+    def _get_positions(self):
+        # Keep the space free that the upper doorway opens from.
+        return super()._get_positions() + [ABOVE]
+
 
 class stair_toplatform(MagicaRoom):
     name = 'stair_toplatform'
@@ -37,6 +41,10 @@ class stair_toplatform(MagicaRoom):
         {'orientation': SOUTH, 'offset': EAST + SOUTH + ABOVE},
     ]
 
+    def _get_positions(self):
+        # Keep the space free that the upper doorways open from.
+        return super()._get_positions() + [EAST + ABOVE]
+
 
 class statue(MagicaRoom):
     name = 'statue'
-- 
2.43.0


From 4029ce8d4307f944d8138eaf1b3dbb3293315c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 32/68] fix: export the merge data of cubes

---
 redeclipse/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index b0043a9..8074cfe 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -221,6 +221,7 @@ class cube:
             'faces': [f.name for f in self.faces],
             'texture': [t if isinstance(t, int) else t.value for t in self.texture],
             'material': self.material,
+            'merged': self.merged,
             'escaped': self.escaped,
             'visible': self.visible,
             'octsav': self.octsav,
-- 
2.43.0


From 58d25450761c6b68739f85d7e900fc9df4fae02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 33/68] fix: turn the boundary addition of model rooms only
 once

---
 redeclipse/prefabs/magica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index 5e6ace0..907f565 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -18,7 +18,7 @@ class MagicaRoom(Room):
     ]
 
     def __init__(self, pos, roof=False, orientation=EAST, randflags=None):
-        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0).rotate(orientation)
+        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0)
         self.orientation = orientation
         self.pos = CoarseVector(*pos)
         if randflags:
-- 
2.43.0


From dfa11e0cd4f1b2c0dfb4568e29cc6b48f37fff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 34/68] fix: attach rooms by the doors of the variant that is
 placed

---
 redeclipse/upm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 18eea34..26247af 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -297,7 +297,10 @@ class UnusedPositionManager:
             # order to identify at least one with a plausible door. Shuffling *may*
             # not be necessary but it doesn't hurt anything.
             for orientation in random.sample(CARDINALS, 4):
+                # The random options decide where the doors are, so they are
+                # chosen before looking at the doors.
                 kwargs = {'orientation': orientation}
+                kwargs.update(roomClass.randOpts(prev_room))
                 # Initialize room, required to correctly calculate get_positions()/get_doorways()
                 r = roomClass(pos=CoarseVector(2, 2, 3), **kwargs)
                 # We've already picked a prev_room_door (and we know its orientation)
@@ -313,8 +316,6 @@ class UnusedPositionManager:
                 for chosen_door in options:
                     # Room offset
                     room_offset = chosen_door['offset'] - prev_room_door + prev_room_orientation
-                    # Add our random options
-                    kwargs.update(roomClass.randOpts(prev_room))
                     # Last, we yield all possible versions of this room (in case
                     # some of them don't fit.)
                     r = roomClass(pos=CoarseVector(2, 2, 3) - room_offset, **kwargs)
-- 
2.43.0


From 7ea798cd362e3edebe6ff254b0f8a3ad392d4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 35/68] fix: do not list rooms whose registration is refused

---
 redeclipse/upm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 26247af..0ed6939 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -124,7 +124,6 @@ class UnusedPositionManager:
 
     def _register_room(self, room):
         used = room.get_positions()
-        self.rooms.append(room)
         # First, we need to check that ALL of those positions are
         # unoccupied.
         for position in used:
@@ -132,6 +131,7 @@ class UnusedPositionManager:
                 raise Exception("Occupado %s" % position)
         # Otherwise, all positions are fine to use.
 
+        self.rooms.append(room)
         self.occupied.update({pos: room for pos in used})
         # Remove occupied positions from possibilities
         self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]
-- 
2.43.0


From 5b2935bb8db057cbb74207dfb52ed00f22bb9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 36/68] fix: let model rooms be copied after their model was
 loaded

---
 redeclipse/prefabs/magica.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index 907f565..952b681 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -28,7 +28,8 @@ class MagicaRoom(Room):
         return '<MagicaRoom %s facing:%s,pos:%s>' % (self.name, n(self.orientation), self.pos)
 
     def load_model(self):
-        self.model = Magicavoxel.from_file(self.vox_file)
+        with open(self.vox_file, 'rb') as handle:
+            self.model = Magicavoxel.from_bytes(handle.read())
         self.vox = VoxelWorld()
         self._colours = {}
         for vox in self.model.model_voxels.voxels:
-- 
2.43.0


From 6b04459123a600a886efb2e63b14f33e49638379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 37/68] fix: do not declare depth maps that textures do not
 have

---
 redeclipse/textures/basetex.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index 4bf3f08..b689547 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -124,8 +124,11 @@ class DefaultBumpSpecMapParallaxWorld(BaseTex):
 
         conf += """texture c "{0.basepath}/{0.c}" 0 0 0 0.500000 // {idx} {0.__class__}
 texture n "{0.basepath}/{0.n}"
-texture s "{0.basepath}/{0.s}"
-texture z "{0.basepath}/{0.z}"\n""".format(self, idx=idx)
+texture s "{0.basepath}/{0.s}"\n""".format(self, idx=idx)
+
+        # Not all of them have a depth map
+        if self.z:
+            conf += """texture z "{0.basepath}/{0.z}"\n""".format(self)
 
         if self.texcolor:
             conf += "texcolor %s %s %s\n\n" % self.texcolor
@@ -166,9 +169,12 @@ class DefaultBumpSpecMapParallaxGlowWorld(BaseTex):
 
         conf += """texture c "{0.basepath}/{0.c}" 0 0 0 0.500000 // {idx} {0.__class__}
 texture n "{0.basepath}/{0.n}"
-texture s "{0.basepath}/{0.s}"
-texture z "{0.basepath}/{0.z}"
-texture g "{0.basepath}/{0.g}"\n""".format(self, idx=idx)
+texture s "{0.basepath}/{0.s}"\n""".format(self, idx=idx)
+
+        if self.z:
+            conf += """texture z "{0.basepath}/{0.z}"\n""".format(self)
+
+        conf += """texture g "{0.basepath}/{0.g}"\n""".format(self)
 
         if self.texcolor:
             conf += "texcolor %s %s %s\n\n" % self.texcolor
-- 
2.43.0


From 8e45c4005625f49fa58e392828083d956f9e8def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 38/68] fix: colour lights at uncentred coarse positions by
 where they are

---
 redeclipse/lighting/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/lighting/__init__.py b/redeclipse/lighting/__init__.py
index cb41a34..2b20433 100644
--- a/redeclipse/lighting/__init__.py
+++ b/redeclipse/lighting/__init__.py
@@ -37,7 +37,7 @@ class LightManager:
 
         :param boolean autocenter: Automatically add FineVector(4, 4, 4) to the position
         """
-        pos = position
+        pos = position.fine()
         if autocenter:
             pos = position + TILE_CENTER + HALF_HEIGHT
 
-- 
2.43.0


From e8567f5b978c2fd8feff3a3a0a76a254e56edd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 39/68] fix: name rooms without a model so that the graph can
 list them

---
 redeclipse/prefabs/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 068d538..69872c8 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -51,6 +51,11 @@ class Room(ConstructionKitMixin):
         if randflags:
             self._randflags = randflags
 
+    @property
+    def name(self):
+        """The name used in the graph output, unless the room defines its own"""
+        return self.__class__.__name__
+
     def get_transition_probs(self):
         """Probabilities of transitioning to other named room types"""
         if not self._tp:
-- 
2.43.0


From 9c3a16ee7819127256b38564a78bd6fd30618cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 40/68] fix: link the rooms themselves in the graph

---
 redeclipse/cli/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index 341841e..36460b2 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -46,9 +46,11 @@ def output(v, mymap, upm, prefabs, args):
                 'label': room.name,
             })
 
+        # Rooms need not occupy the position they are placed at
+        placed = {room.pos: room for room in upm.rooms}
         for a, b in upm.links:
-            la = upm.occupied.get(a, None)
-            lb = upm.occupied.get(b, None)
+            la = placed.get(a, None)
+            lb = placed.get(b, None)
 
             data['links'].append({
                 'source': id(la),
-- 
2.43.0


From e2391147498b6dcecfe1ceb948a1b39e48fc2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:33 +0000
Subject: [PATCH 41/68] fix: leave the magicavoxel room tool as it was

---
 redeclipse/cli/magicavoxel_room_test.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/cli/magicavoxel_room_test.py b/redeclipse/cli/magicavoxel_room_test.py
index 0d83eab..4e4e999 100644
--- a/redeclipse/cli/magicavoxel_room_test.py
+++ b/redeclipse/cli/magicavoxel_room_test.py
@@ -90,6 +90,7 @@ def main(magica=False, redeclipse=False):
                 prefabs.TEXMAN.copy_data()
 
                 mymap.world = v.to_octree()
+                mymap.world[0].octsav = 0
                 mymap.write(mpz_out.name)
 
 
-- 
2.43.0


From e78c5dcc8325b669afb278b15f4e6373d2186f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:45 +0000
Subject: [PATCH 42/68] fix: place the entities of the snow forest by vectors

---
 redeclipse/cli/snow_forest.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index e6d400b..06748d9 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -4,6 +4,7 @@ from redeclipse.entities.model import MapModel
 from redeclipse.entities import PlayerSpawn
 from redeclipse.cli import parse
 from redeclipse.objects import cube
+from redeclipse.vector import FineVector
 import argparse
 import random
 import noise
@@ -107,9 +108,7 @@ def main():
                 tree_count += 1
                 # Place tree
                 tree = MapModel(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4,
+                    xyz=FineVector(i, j, heightmap[(i, j)]),
                     type=137,
                     yaw=random.randint(0, 360),
                     scale=random.randint(56, 200),
@@ -118,9 +117,7 @@ def main():
 
             if point_spawn(i, j):
                 spawn = PlayerSpawn(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4,
+                    xyz=FineVector(i, j, heightmap[(i, j)]),
                     team=0,
                     yaw=random.randint(0, 360),
                 )
@@ -128,9 +125,7 @@ def main():
 
             if point_rock(i, j):
                 rock = MapModel(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4 - random.randint(0, 5),
+                    xyz=FineVector(i, j, heightmap[(i, j)] - random.randint(0, 5) / 4),
                     type=122,
                     yaw=random.randint(0, 360),
                     roll=random.randint(0, 360),
-- 
2.43.0


From 0f3a6708e43d1a3ea6578968c9593c37f0524d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 43/68] fix: report the boundaries of models beyond 128 voxels

---
 redeclipse/cli/magicavoxel_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/magicavoxel_info.py b/redeclipse/cli/magicavoxel_info.py
index 7d298bc..7f89506 100644
--- a/redeclipse/cli/magicavoxel_info.py
+++ b/redeclipse/cli/magicavoxel_info.py
@@ -22,7 +22,7 @@ def main(mv_in):
     classname = os.path.splitext(os.path.basename(mv_in))[0]
 
     print("Model: %s" % classname)
-    world = VoxelWorld()
+    world = VoxelWorld(size=256)
     for vox in model.model_voxels.voxels:
         world.set_point(vox.x, vox.y, vox.z, vox.c)
     print("Model boundaries: x in [{0.xmin}, {0.xmax}]; y in [{0.ymin}, {0.ymax}]; z in [{0.zmin}, {0.zmax}]".format(world))
-- 
2.43.0


From 42aeae5034acbd22a1dec318f4b83c0a8fb9abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 44/68] fix: keep the spawns of the snow forest out of
 neighbouring trees

---
 redeclipse/cli/snow_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index 06748d9..db68405 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -45,7 +45,7 @@ def _light_distribution(i, j, wan=0.2, ldist=0.215, wan_a=2.9, wan_b=1.1, lan_a=
 
 def point_spawn(i, j):
     # Shift so we don't spawn *In* a tree.
-    return _light_distribution(i + 1, j + 1)
+    return _light_distribution(i + 1, j + 1) and not point_tree(i, j)
 
 
 def point_tree(i, j):
-- 
2.43.0


From 70912031857e5cc6fb261ce334cf9755f32dfaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:10 +0000
Subject: [PATCH 45/68] fix: scale the position of sunlights like that of other
 entities

---
 redeclipse/entities/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index be9fba6..de80930 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -113,7 +113,7 @@ class PlayerSpawn(Entity):
 class Sunlight(Entity):
 
     def __init__(self, xyz=(0, 0, 0), yaw=0, pitch=0, red=255, green=255, blue=255, offset=45, flare=0, flarescale=0, links=None, reserved=None):
-        self.o = ivec3(*xyz)
+        self.o = ivec3(*(FineVector(*xyz) * 4))
         self.type = EntType.ET_SUNLIGHT
         self.attr_annotations = [
             'yaw', 'pitch', 'red', 'green', 'blue', 'offset', 'flare', 'flarescale',
-- 
2.43.0


From c2a22c5c74d73a0a18ce36c7d496f400c070749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:10 +0000
Subject: [PATCH 46/68] fix: let player spawns be created at their default
 position

---
 redeclipse/entities/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index de80930..13c56de 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -97,7 +97,7 @@ class Entity:
 
 class PlayerSpawn(Entity):
 
-    def __init__(self, xyz=(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
+    def __init__(self, xyz=FineVector(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
         self.o = ivec3(*(xyz * 4))
         self.type = EntType.ET_PLAYERSTART
         self.attr_annotations = [
-- 
2.43.0


From fffa8c9aa3392b5eb0ff692cd771477b329a80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 47/68] fix: replace the skybox of maps whose skybox variable
 has a str name

---
 redeclipse/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 6d90325..5bf5bb6 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -331,8 +331,9 @@ class Map:
         """
         Attach a skybox to the map
         """
-        # pass
-        self.map_vars[b'skybox'] = tb(sb.get_short_path())
+        # The variable may have been set under a str name
+        key = 'skybox' if 'skybox' in self.map_vars else b'skybox'
+        self.map_vars[key] = tb(sb.get_short_path())
 
 
 class MapParser(object):
-- 
2.43.0


From a31c96e4cd2372ab0b25e0d131ef11095f5bd5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:40 +0000
Subject: [PATCH 48/68] fix: keep the earlier file when a map cannot be written

---
 redeclipse/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 5bf5bb6..d10b71e 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -1,5 +1,6 @@
 import sys
 import gzip
+import io
 import struct
 from collections import OrderedDict
 from redeclipse.enums import EntType, Faces, VTYPE, OCT, TextNum
@@ -90,8 +91,11 @@ class Map:
         :type path: str
         """
         log.info('WRITING')
+        # A map that cannot be written must not cost the file that is there
+        buf = io.BytesIO()
+        self._write_map(buf)
         with gzip.open(path, 'wb') as handle:
-            self._write_map(handle)
+            handle.write(buf.getvalue())
 
     def _write_map(self, handle):
         self._write_str(handle, tb(self.magic), null=False)
-- 
2.43.0


From 9ebc773d6c343549b4aca4d0a859340b413fc8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:34 +0000
Subject: [PATCH 49/68] fix: export maps with variables whose name is a str

---
 redeclipse/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index d10b71e..fac0d6d 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -282,7 +282,7 @@ class Map:
             'version': self.version,
             'headersize': self.headersize,
             'meta': [(key, bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.meta.items()],
-            'map_vars': [(bytes.decode(key), bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.map_vars.items()],
+            'map_vars': [(bytes.decode(tb(key)), bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.map_vars.items()],
             'texmru': self.texmru,
             'entities': [ent.to_dict() for ent in self.ents],
             'world': (x.to_dict() for x in self.world),
-- 
2.43.0


From ff100a92d9be0f766fb2f0baa7f26d206d9a9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 50/68] fix: install textures that have no depth map

---
 redeclipse/textures/basetex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index b689547..3a522ab 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -141,7 +141,8 @@ class BumpSpecMapParallaxWorld(DefaultBumpSpecMapParallaxWorld):
         yield self.c
         yield self.n
         yield self.s
-        yield self.z
+        if self.z:
+            yield self.z
 
 
 class DefaultBumpSpecMapParallaxGlowWorld(BaseTex):
@@ -187,5 +188,6 @@ class BumpSpecMapParallaxGlowWorld(DefaultBumpSpecMapParallaxGlowWorld):
         yield self.c
         yield self.n
         yield self.s
-        yield self.z
+        if self.z:
+            yield self.z
         yield self.g
-- 
2.43.0


From e397255a669303de6667e24f9173883b79418c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 51/68] fix: keep the space above the steps of stair_toplatform
 free

Another room could be placed over the steps, which closed the way up to the
platform.
---
 redeclipse/prefabs/egypt/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redeclipse/prefabs/egypt/__init__.py b/redeclipse/prefabs/egypt/__init__.py
index 93ed169..68679e1 100644
--- a/redeclipse/prefabs/egypt/__init__.py
+++ b/redeclipse/prefabs/egypt/__init__.py
@@ -42,8 +42,9 @@ class stair_toplatform(MagicaRoom):
     ]
 
     def _get_positions(self):
-        # Keep the space free that the upper doorways open from.
-        return super()._get_positions() + [EAST + ABOVE]
+        # Keep the space free that the steps lead through and that the upper
+        # doorways open from.
+        return super()._get_positions() + [ABOVE, EAST + ABOVE]
 
 
 class statue(MagicaRoom):
-- 
2.43.0


From af754e9e96479c6b2859c514482f31d2da2b4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 52/68] fix: keep the cubes below level-of-detail nodes

Reading left out the children of such a node and took them for the nodes that
follow; writing lost the rest of the octree.
---
 redeclipse/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index fac0d6d..1d06169 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -236,9 +236,7 @@ class Map:
         elif c.octsav & 0x7 == OCT.OCTSAV_NORMAL.value:
             self._write_custom(handle, 'BBBBBBBBBBBB', c.edges)
         elif c.octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
-            # Nothing to do, this just set c.children, which we know
-            # from other sources.
-            pass
+            pass  # Its children are written at the end
         else:
             sys.exit(42)
             return
@@ -273,6 +271,9 @@ class Map:
                     else:
                         raise NotImplementedError("Gross out")
 
+        if c.octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
+            self._savechildren(handle, c.children, indent=indent + 1)
+
     def to_dict(self):
         """
         return represnetation of map as dictionary
@@ -526,6 +527,9 @@ class MapParser(object):
 
                     raise NotImplementedError("Gross in")
 
+        if c.haschildren:
+            c.children = self._loadchildren(size >> 1, failed, indent=indent + 1)
+
         return failed, c
 
     def _loadents(self, numents):
-- 
2.43.0


From 28bb6f2118d8267c2f32fa3a539bdf48eaec9e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:45 +0000
Subject: [PATCH 53/68] fix: raise an error instead of ending the program

A shader parameter with a name of 512 characters or more ended the program
with exit code 0, an octree node of unknown type with 42.
---
 redeclipse/__init__.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 1d06169..2710f7c 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -1,4 +1,3 @@
-import sys
 import gzip
 import io
 import struct
@@ -238,8 +237,7 @@ class Map:
         elif c.octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
             pass  # Its children are written at the end
         else:
-            sys.exit(42)
-            return
+            raise Exception("Unknown octree node type %s" % (c.octsav & 0x7))
 
         for i, t in enumerate(c.texture):
             if isinstance(t, TextNum):
@@ -410,8 +408,7 @@ class MapParser(object):
                 ssp = SlotShaderParam()
                 nlen = self._read_ushort()
                 if nlen >= MAXSTRLEN:
-                    log.error("Cannot handle")
-                    sys.exit()
+                    raise Exception("Name of a shader parameter is too long: %s" % nlen)
 
                 name = self._read_str(nlen, null=False)
                 ssp.name = name
-- 
2.43.0


From b01e07f343f9e7dfbb5638c1d5656d421721437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:45 +0000
Subject: [PATCH 54/68] fix: keep the options of AltarRoom

---
 redeclipse/prefabs/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 69872c8..d25420a 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -143,6 +143,8 @@ class _3X3Room(Room):
         part of placement, we wouldn't want to place a partial room."""
         self.pos = CoarseVector(*pos)
         self.orientation = orientation
+        if randflags:
+            self._randflags = randflags
 
     def _get_doorways(self):
         return [
-- 
2.43.0


From 2eb192a0b28fefbfce91b038f0f83e99db7ce5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:36 +0000
Subject: [PATCH 55/68] fix: a room three times as likely as another comes
 first three times as often

---
 redeclipse/upm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 0ed6939..6681d73 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -271,7 +271,8 @@ class UnusedPositionManager:
 
         for room in room_options:
             # Number of times we'd like to see this room.
-            frequency = int(probs.get(room.room_type, 0.1) / minimum_prob)
+            # (0.3 / 0.1 is slightly less than 3.)
+            frequency = int(probs.get(room.room_type, 0.1) / minimum_prob + 1e-9)
             # Append that many rooms
             for n in range(frequency):
                 choices.append(room)
-- 
2.43.0


From b83f6c7e6cc77a6759b58dc5611bdc8dcf16f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:20 +0000
Subject: [PATCH 56/68] fix: describing a model with a short palette changes
 how later models are read

---
 redeclipse/cli/magicavoxel_info.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/redeclipse/cli/magicavoxel_info.py b/redeclipse/cli/magicavoxel_info.py
index 7f89506..800bc88 100644
--- a/redeclipse/cli/magicavoxel_info.py
+++ b/redeclipse/cli/magicavoxel_info.py
@@ -11,12 +11,16 @@ logging.basicConfig(level=logging.INFO)
 log = logging.getLogger(__name__)
 
 
+class ShortMagicavoxel(Magicavoxel):
+    # The last colour is missing from some palettes.
+    SIZE = 255
+
+
 def main(mv_in):
     try:
         model = Magicavoxel.from_file(mv_in)
     except Exception:
-        Magicavoxel.SIZE = 255
-        model = Magicavoxel.from_file(mv_in)
+        model = ShortMagicavoxel.from_file(mv_in)
         log.error("Odd: colours were shorter than expected.")
 
     classname = os.path.splitext(os.path.basename(mv_in))[0]
-- 
2.43.0


From cf2af63e0e96b79f547f15b31d75b9afff5eb09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:48 +0000
Subject: [PATCH 57/68] fix: a refused mirrored room leaves none of its copies
 behind

---
 redeclipse/upm.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 6681d73..e34fffa 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -119,7 +119,17 @@ class UnusedPositionManager:
 
         :rtype: None
         """
-        for r in self._yield_mirrored(room):
+        mirrored = list(self._yield_mirrored(room))
+        # All of the copies must fit before any of them is registered.
+        if not self.noclip:
+            taken = set(self.occupied.keys())
+            for r in mirrored:
+                used = r.get_positions()
+                for position in used:
+                    if position in taken:
+                        raise Exception("Occupado %s" % position)
+                taken.update(used)
+        for r in mirrored:
             self._register_room(r)
 
     def _register_room(self, room):
-- 
2.43.0


From 83c90d546d1a4c44e7876f23050fa67b678fa592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:21 +0000
Subject: [PATCH 58/68] fix: the graph names the linked rooms when several
 share a position

---
 redeclipse/cli/__init__.py |  7 +------
 redeclipse/upm.py          | 12 ++++++++++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index 36460b2..3175b32 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -46,12 +46,7 @@ def output(v, mymap, upm, prefabs, args):
                 'label': room.name,
             })
 
-        # Rooms need not occupy the position they are placed at
-        placed = {room.pos: room for room in upm.rooms}
-        for a, b in upm.links:
-            la = placed.get(a, None)
-            lb = placed.get(b, None)
-
+        for la, lb in upm.linked_rooms:
             data['links'].append({
                 'source': id(la),
                 'target': id(lb),
diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index e34fffa..4ad2b1e 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -27,6 +27,8 @@ class UnusedPositionManager:
         self.rooms = []
         # Set of linked rooms by doorway.
         self.links = []
+        # The rooms at the two ends of each link, several rooms may share a position
+        self.linked_rooms = []
 
         self.world_size = world_size
         # Mirror mode, only defined for values 1, 2, 4
@@ -109,6 +111,16 @@ class UnusedPositionManager:
             self._yield_mirrored_positions(room_b)
         ):
             self.links.append((pos_a, pos_b))
+            self.linked_rooms.append((
+                self._registered(room_a, pos_a, ori_a),
+                self._registered(room_b, pos_b, ori_b),
+            ))
+
+    def _registered(self, room, pos, orientation):
+        for r in self.rooms:
+            if r.__class__ == room.__class__ and r.pos == pos and r.orientation == orientation:
+                return r
+        return None
 
     def register_room(self, room):
         """
-- 
2.43.0


From b20facf1a21b821c401ae915f841628bf298ada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:47 +0000
Subject: [PATCH 59/68] fix: a box of height 0 fills the whole height, and one
 above the world leaves it

---
 redeclipse/aftereffects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index 3e3a2d6..7914235 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -174,8 +174,8 @@ def box(world, height=None):
     :rtype: None
     """
     max_height = world.size
-    if height:
-        max_height = height
+    if height is not None:
+        max_height = min(height, world.size)
     for z in tqdm(range(max_height)):
         for x in range(world.size):
             for y in range(world.size):
@@ -199,8 +199,8 @@ def box_outline(world, height=None):
     :rtype: None
     """
     max_height = world.size
-    if height:
-        max_height = height
+    if height is not None:
+        max_height = min(height, world.size)
     for z in tqdm(range(max_height)):
         for x in range(world.size):
             for y in range(world.size):
-- 
2.43.0


From 03eb0c81e2e22051450f76710bbad8992d873ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:47 +0000
Subject: [PATCH 60/68] fix: grid and growth replace voxels of a false value

---
 redeclipse/aftereffects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index 7914235..c91c30b 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -104,7 +104,7 @@ def grid(world, size=24):
         for x in range(world.size):
             for y in range(world.size):
                 if pos_func(x, y, z):
-                    if not world.get_point(x, y, z):
+                    if world.get_point(x, y, z) is None:
                         world.set_point(
                             x, y, z,
                             cube.newtexcube(tex=2)
@@ -154,7 +154,7 @@ def growth(world, position_function):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
-                    if not world.get_point(x, y, z):
+                    if world.get_point(x, y, z) is None:
                         world.set_point(
                             x, y, z,
                             cube.newtexcube(tex=2)
-- 
2.43.0


From efe3d74563f68bdc410bfede20c924214a3be7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:30 +0000
Subject: [PATCH 61/68] fix: rotating by very many turns is not exact

---
 redeclipse/vector/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/vector/__init__.py b/redeclipse/vector/__init__.py
index eeba9db..180b2ca 100644
--- a/redeclipse/vector/__init__.py
+++ b/redeclipse/vector/__init__.py
@@ -125,7 +125,7 @@ class BaseVector(object):
             x = deg.x
             theta = atan2(y, x)
         else:
-            theta = pi * deg / 180
+            theta = pi * (deg % 360) / 180
         # We allow 0.5 increments for properly centered cubes. So we need to do
         # the math in double, round it there, then divide by two to ensure
         # everything is in (0, 0.5, 1, 1.5, ...)
-- 
2.43.0


From b1723ccc30f448328d87ea33a1049cf3da423131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:24 +0000
Subject: [PATCH 62/68] fix: entities with the wrong number of attributes are
 accepted by python -O

---
 redeclipse/entities/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index 13c56de..f8b2295 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -47,7 +47,8 @@ class Entity:
             raise Exception("Cannot serialize %s, please specify attrs", self.type)
 
         # Must have right # of attrs.
-        assert len(self.attrs) == len(self.attr_annotations)
+        if len(self.attrs) != len(self.attr_annotations):
+            raise Exception("Wrong number of attributes: %s" % len(self.attrs))
 
         self.links = [] if links is None else links
         self.reserved = [0, 0, 0] if reserved is None else reserved
-- 
2.43.0


From c804376b1b26fb517e81f4fecf9acc00deb7e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:24 +0000
Subject: [PATCH 63/68] fix: a weighted choice may return an option without
 weight, or none, in a draw at the edge

---
 redeclipse/upm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 4ad2b1e..e3a8ded 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -257,14 +257,18 @@ class UnusedPositionManager:
         """Weighted random distribution. Given a list like [('a', 1), ('b', 2)]
         will return a 33% of the time and b 66% of the time."""
         # http://stackoverflow.com/a/3679747
+        # An option without weight is only chosen if none has any.
+        choices = [(c, w) for c, w in choices if w > 0] or choices
         total = sum(w for c, w in choices)
         r = random.uniform(0, total)
         upto = 0
-        for c, w in choices:
+        chosen = None
+        for chosen, w in choices:
             if upto + w >= r:
-                return c
+                break
             upto += w
-        return None
+        # Rounding may leave r above the last sum.
+        return chosen
 
     def random_room(self, connecting_room, room_options):
         """Pick out a random room based on the connecting room and the
-- 
2.43.0


From e1fdf6d2c9c989c750de2eea7c8c11eb4bc340f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:24 +0000
Subject: [PATCH 64/68] fix: the configuration is lost or misplaced unless the
 map alone is named .mpz

---
 redeclipse/cli/__init__.py      | 3 ++-
 redeclipse/textures/__init__.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index 3175b32..9895ecd 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -1,6 +1,7 @@
 import argparse
 import json
 import logging
+import os
 from redeclipse import MapParser
 from redeclipse.magicavoxel.writer import to_magicavoxel
 
@@ -26,7 +27,7 @@ def output(v, mymap, upm, prefabs, args):
         prefabs.TEXMAN.emit_conf(args.mpz_out)
         prefabs.TEXMAN.copy_data()
 
-        filename = args.mpz_out.name.replace('.mpz', '.cfg')
+        filename = os.path.splitext(args.mpz_out.name)[0] + '.cfg'
         with open(filename, 'a') as handle:
             for line in mymap.cfg_extra:
                 handle.write(line + '\n')
diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 93957f2..36fdd49 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -175,7 +175,7 @@ class TextureManager:
         ]))
 
     def emit_conf(self, map_output_path, author="Python", map_name="test", ):
-        filename = map_output_path.name.replace('.mpz', '.cfg')
+        filename = os.path.splitext(map_output_path.name)[0] + '.cfg'
         with open(filename, 'w') as handle:
             handle.write(comment.format(author=author, map_name=map_name))
             for idx, (tex_key, tex) in enumerate(self.atlas.items()):
-- 
2.43.0


From f0b06ab3e124857fcd7ff729a03e979fc6188c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:25 +0000
Subject: [PATCH 65/68] fix: equal colours get different slots when given as
 int and float

---
 redeclipse/textures/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 36fdd49..226afa3 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -251,7 +251,8 @@ class AutomatedMagicaTextureManager(TextureManager):
         return self._get_colour(r, g, b)
 
     def _get_colour(self, r, g, b):
-        name = 'c_%s_%s_%s' % (r, g, b)
+        # 1 and 1.0 are the same colour
+        name = 'c_%s_%s_%s' % (float(r), float(g), float(b))
         if name not in self.atlas_backref:
             tmp = SimpleColourTex()
             tmp.r = r
-- 
2.43.0


From db41bedcbb5511d4d3bf1e26169eb0265a4a452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:07 +0000
Subject: [PATCH 66/68] fix: cubes made with the same list of textures share it

---
 redeclipse/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index 8074cfe..6a4b8c9 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -262,7 +262,7 @@ class cube:
         if isinstance(tex, int):
             c.texture = [tex, tex, tex, tex, tex, tex]
         else:
-            c.texture = tex
+            c.texture = list(tex)
 
         c.ext = cubext()
         c.ext.verts = 0
-- 
2.43.0


From 5c0ce0f45baf4d92d531230286f907f46fa9fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:10 +0000
Subject: [PATCH 67/68] fix: installing over a link to the shipped image itself
 fails

---
 redeclipse/skybox/__init__.py   | 4 ++++
 redeclipse/textures/__init__.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/redeclipse/skybox/__init__.py b/redeclipse/skybox/__init__.py
index c9e3675..42fc3cd 100644
--- a/redeclipse/skybox/__init__.py
+++ b/redeclipse/skybox/__init__.py
@@ -19,6 +19,10 @@ class Skybox:
 
         module_path = os.path.dirname(__file__)
         for fn in self.get_files():
+            target = os.path.join(self.skydir, fn)
+            if os.path.exists(target) and os.path.samefile(os.path.join(module_path, fn), target):
+                # A link to the shipped image itself
+                continue
             shutil.copy(
                 os.path.join(module_path, fn),
                 self.skydir,
diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 226afa3..6304b33 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -190,6 +190,11 @@ class TextureManager:
                 continue
 
             for texfile in tex.files():
+                source = os.path.join(os.path.dirname(os.path.realpath(__file__)), tex.srcpath, texfile)
+                target = os.path.join(outdir, texfile)
+                if os.path.exists(target) and os.path.samefile(source, target):
+                    # A link to the shipped image itself
+                    continue
                 shutil.copy(
                     os.path.join(os.path.dirname(os.path.realpath(__file__)), tex.srcpath, texfile),
                     os.path.join(outdir, texfile)
-- 
2.43.0


From d96f633d0da93709862a9a7ea5ebc27fd66b3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:17 +0000
Subject: [PATCH 68/68] fix: .vox exports with more than 256 textures overflow
 their palette

---
 redeclipse/magicavoxel/writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 02eb440..0655682 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -41,7 +41,9 @@ def to_magicavoxel(voxel_world, handle, texman):
     def n(x):
         return int(255 * x)
 
-    for idx, (tex_key, tex) in enumerate(texman.atlas.items()):
+    # The palette has exactly 256 entries, a voxel of any later texture has
+    # been refused above.
+    for idx, (tex_key, tex) in enumerate(list(texman.atlas.items())[:256]):
         handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white
 
     for i in range(256 - len(texman.atlas)):
-- 
2.43.0

