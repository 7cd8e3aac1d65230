From a9c27fbe102174c995cf8ef5b95f6a7e0383914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 01/72] fix: index of faces imported from a compressed list is
 a flat list of integers

---
 cfdtools/meshbase/_connectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index e3be8d9..fa8b6d1 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -270,8 +270,8 @@ class elem_connectivity:
         uniq, counts = np.unique(nodeperface, return_counts=True)
         for facesize, nface in zip(uniq, counts):
             typef = _elem.face_from_nnode[facesize]
-            index = np.argwhere(nodeperface == facesize)
-            zind = zconn._index[index]
+            index = np.flatnonzero(nodeperface == facesize)
+            zind = zconn._index[index, np.newaxis]
             nodes = np.hstack(tuple(zconn._value[zind + i] for i in range(facesize)))
             self.add_elems(typef, nodes, indexlist(ilist=index))
 
-- 
2.43.0


From bc6e874fb7421d35d92b0a213a129247ae3f64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 02/72] fix: IC3 reader locates variables with the section code
 instead of the number of values

---
 cfdtools/ic3/reader_legacy.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index a224267..4fb5a23 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -20,6 +20,12 @@ from cfdtools.ic3._ic3 import (
 )
 
 log = logging.getLogger(__name__)
+
+# codes of the sections of variables, by location
+_node_codes = tuple(ic3_restart_codes[key] for key in ("UGP_IO_NO_D1", "UGP_IO_NO_D3", "UGP_IO_NO_II1"))
+_face_codes = tuple(ic3_restart_codes[key] for key in ("UGP_IO_FA_D1", "UGP_IO_FA_D3", "UGP_IO_FA_II1"))
+_cell_codes = tuple(ic3_restart_codes[key] for key in ("UGP_IO_CV_D1", "UGP_IO_CV_D3", "UGP_IO_CV_II1"))
+
 ###################################################################################################
 
 
@@ -477,14 +483,14 @@ class reader(binreader):
             typesize = properties_ugpcode[h.id[0]]['size']
             nptype = properties_ugpcode[h.id[0]]['numpytype']
             #
-            if h.idata[0] == no_count:
+            if h.id[0] in _node_codes and h.idata[0] == no_count:
                 s = BinaryRead(self.fid, "%d" % no_count + typechar, self.byte_swap, typesize * no_count)
                 scalar = self.variables["nodes"][h.name] = np.asarray(s).astype(nptype)
                 self.nodedata.add_data(h.name, scalar)
-            elif h.idata[0] == fa_count:
+            elif h.id[0] in _face_codes and h.idata[0] == fa_count:
                 s = BinaryRead(self.fid, "%d" % fa_count + typechar, self.byte_swap, typesize * fa_count)
                 scalar = self.variables["faces"][h.name] = np.asarray(s).astype(nptype)
-            elif h.idata[0] == cv_count:
+            elif h.id[0] in _cell_codes and h.idata[0] == cv_count:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
@@ -526,18 +532,18 @@ class reader(binreader):
                 break
             reset_offset = False
             #
-            if h.idata[0] == no_count:
+            if h.id[0] in _node_codes and h.idata[0] == no_count:
                 s = BinaryRead(
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
-            elif h.idata[0] == fa_count:
+            elif h.id[0] in _face_codes and h.idata[0] == fa_count:
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
                     self.fid, "%dd" % (fa_count * 3), self.byte_swap, type2nbytes["float64"] * fa_count * 3
                 )
                 vector = self.variables["faces"][h.name] = np.asarray(s).reshape((fa_count, 3))
-            elif h.idata[0] == cv_count:
+            elif h.id[0] in _cell_codes and h.idata[0] == cv_count:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
-- 
2.43.0


From a3d6cdf39553252645d4c9b59cc52ae8525f6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 03/72] fix: IC3 reader exports node vectors with the mesh

---
 cfdtools/ic3/reader_legacy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 4fb5a23..3c247b4 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -537,6 +537,7 @@ class reader(binreader):
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
+                self.nodedata.add_data(h.name, vector)
             elif h.id[0] in _face_codes and h.idata[0] == fa_count:
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
-- 
2.43.0


From b7d4b944eee594ff7e6ed7d3a0d9d24da62d801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 04/72] fix: IC3 reader exports face data with the mesh

---
 cfdtools/ic3/reader_legacy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 3c247b4..e15f515 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -471,6 +471,7 @@ class reader(binreader):
                     "UGP_IO_NO_D1",
                     "UGP_IO_NO_II1",
                     "UGP_IO_FA_D1",
+                    "UGP_IO_FA_II1",
                     "UGP_IO_CV_D1",
                     "UGP_IO_CV_II1",
                 ],
@@ -490,6 +491,7 @@ class reader(binreader):
             elif h.id[0] in _face_codes and h.idata[0] == fa_count:
                 s = BinaryRead(self.fid, "%d" % fa_count + typechar, self.byte_swap, typesize * fa_count)
                 scalar = self.variables["faces"][h.name] = np.asarray(s).astype(nptype)
+                self.facedata.add_data(h.name, scalar)
             elif h.id[0] in _cell_codes and h.idata[0] == cv_count:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
@@ -544,6 +546,7 @@ class reader(binreader):
                     self.fid, "%dd" % (fa_count * 3), self.byte_swap, type2nbytes["float64"] * fa_count * 3
                 )
                 vector = self.variables["faces"][h.name] = np.asarray(s).reshape((fa_count, 3))
+                self.facedata.add_data(h.name, vector)
             elif h.id[0] in _cell_codes and h.idata[0] == cv_count:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
-- 
2.43.0


From 6180677850d94e047d47367099ac35c5bed0c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 05/72] fix: IC3 reader finds face zones wherever they are in
 the file

---
 cfdtools/ic3/reader_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index e15f515..04344af 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -325,10 +325,12 @@ class reader(binreader):
         log.info("  Parsing boundary conditions...")
         sys.stdout.flush()
         self.mesh['bocos'] = []  # init list of bocos
+        reset_offset = True
         while True:
             h = restartSectionHeader()
-            if not h.readVar(self.fid, self.byte_swap, ["UGP_IO_FA_ZONE"], reset_offset=False):
+            if not h.readVar(self.fid, self.byte_swap, ["UGP_IO_FA_ZONE"], reset_offset=reset_offset):
                 break
+            reset_offset = False
             # UGP_IO_FA_ZONE header
             # 3 ints: kind, face range (begin, start)
             self.mesh["params"]["nboco"] += 1
@@ -347,8 +349,6 @@ class reader(binreader):
             #
             boco.properties["slicing"] = np.unique(face2node_value[sta:sto])
             self.mesh['bocos'].append(boco)
-            if h.idata[0] == 6:
-                break
         log.info("end of boundary conditions")
         sys.stdout.flush()
 
-- 
2.43.0


From 3884f8bf9bb63f138d2feb5a0bcd8ef177ac74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 06/72] fix: IC3 writers do not lose weights of statistics read
 from a restart file

---
 cfdtools/ic3/writerV2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index a7ac120..5f114ed 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -134,6 +134,9 @@ class writer:
             for key in self.simstate.keys():
                 if key in refdict.keys():
                     self.simstate[key] = refdict[key]
+            # weights are also available as (flat) parameters, as provided by the readers
+            wgt = {key[:-4]: value for key, value in refdict.items() if key.endswith("_wgt")}
+            self.simstate["wgt"] = {**self.simstate["wgt"], **wgt}
 
     def set_vars(self):
         """
-- 
2.43.0


From ddb82adbfc0bf31b11f51f584bb0ba8d8ffcfbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 07/72] fix: IC3 internal faces mark starts at first face if
 there is no boundary mark

---
 cfdtools/ic3/writerV2.py | 2 +-
 cfdtools/ic3/writerV4.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index 5f114ed..d88551e 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -328,7 +328,7 @@ class writer:
         # print('cellofface', self.f2e.ravel().tolist() )
         # Face zones, a.k.a boundary condition patches
         log.info("  marks (face based)")
-        last_boco = 0
+        last_boco = -1
         for key, boco in self.bocos.items():
             assert key == boco.name
             assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index dfdc07f..06091b9 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -132,7 +132,7 @@ class writer(writerV2.writer):
         # Face zones, a.k.a boundary condition patches
         log.debug("  Markers of faces / Face zones / boundary condition patches")
         bnd_group = fid.create_group("Boundaries")
-        last_boco = 0
+        last_boco = -1
         labels = []
         kinds = []
         max_range = []
-- 
2.43.0


From f44772453d21298d4d773757e5e46445b36b4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 08/72] fix: faces can be created if a type of face has no
 internal or no boundary face

---
 cfdtools/meshbase/_connectivity.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index fa8b6d1..c529396 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -373,14 +373,15 @@ class elem_connectivity:
                 for tface in listfaces:
                     face_pairs[tuple(sorted(tface[0]))].append(tface)  # 50% COST
                 nf_unique = len(face_pairs)
-                assert nf_unique < nf_all
+                assert nf_unique <= nf_all
                 assert 2 * nf_unique >= nf_all
                 # extract all unique face
                 #   since reversed when created, boco faces are pointing outward
                 uniqueface_dict = dict(
                     filter(lambda tup: len(tup[1]) == 1, face_pairs.items())
                 )  # tup[1] is the value of key
-                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
+                if uniqueface_dict:  # there may be no boundary face of this type
+                    boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
                 f2c = np.full((len(uniqueface_dict), 2), -1)
                 # get index of connected cells
                 f2c[:, 0] = list(map(lambda flist: flist[0][1], uniqueface_dict.values()))
@@ -389,8 +390,9 @@ class elem_connectivity:
                 for uface in uniqueface_dict.keys():
                     face_pairs.pop(uface)
                 # get all first face of each pair of tuple (face,ielem)
-                intfaces = face_from_ufacedict(face_pairs)  # 10% COST
-                internalfaces.add_elems(ftype, intfaces)
+                if face_pairs:  # there may be no internal face of this type
+                    intfaces = face_from_ufacedict(face_pairs)  # 10% COST
+                    internalfaces.add_elems(ftype, intfaces)
                 # get all elements connections via faces
                 # get index of connected cells # 25% COST
                 f2c = np.array(
@@ -399,8 +401,9 @@ class elem_connectivity:
                             lambda flist: [flist[0][1], flist[1][1]],
                             face_pairs.values(),
                         )
-                    )
-                )
+                    ),
+                    dtype=np.int64,
+                ).reshape((-1, 2))
                 iface2cell.append(f2c)
 
             return internalfaces, iface2cell, boundaryfaces, bface2cell
-- 
2.43.0


From ac853f5e6677c33cf175920f2f2f7ecbcce125a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 09/72] fix: faces of tri3 cells are defined with CGNS
 numbering too

---
 cfdtools/meshbase/_elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index be7a482..4d194dc 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -60,8 +60,9 @@ def group_faces_by_type(connectivity):
 ###############################################################################
 # From CGNS
 # see https://cgns.github.io/CGNS_docs_current/sids/conv.html#unst_quad
-# QUAD 4 2D
+# TRI 3 and QUAD 4 2D
 cgns_elem2faces = {
+    'tri3': {'bar2': [[0, 1], [1, 2], [2, 0]]},
     'quad4': {'bar2': [[0, 1], [1, 2], [2, 3], [3, 0]]},
 }
 
-- 
2.43.0


From ce0d3382c4208e6f0c6677e72093ca8d442d7cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 10/72] fix: a boundary mark without any face can be compressed
 and written

---
 cfdtools/meshbase/_connectivity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index c529396..6f8bc2a 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -90,7 +90,9 @@ class indexlist:
     def compress(self):
         """try to make it a range"""
         if self._type == 'list':
-            if np.all(self._list == np.arange(self._list[0], self._list[0] + len(self._list))):
+            if len(self._list) == 0:  # range without any index
+                self.set_range([0, -1])
+            elif np.all(self._list == np.arange(self._list[0], self._list[0] + len(self._list))):
                 self.set_range([self._list[0], self._list[-1]])
         # else no error, keep list
 
-- 
2.43.0


From 3a2fe62e30e52b8060b0508e6c12d1a14449f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 11/72] fix: check of element indices accepts any order of
 unique indices

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 6f8bc2a..ad91840 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -217,7 +217,7 @@ class elem_connectivity:
         uniq = np.unique(index)
         assert index.min() == 0
         assert index.max() == index.size - 1
-        assert np.all(uniq == index)
+        assert uniq.size == index.size
         return True
 
     # def reindexed_elems(self, etype):
-- 
2.43.0


From 5204a3793096ba5f0e81a31bf03339408ddbc847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 12/72] fix: merge of connectivities shifts indices by the
 total number of previous elements

---
 cfdtools/meshbase/_connectivity.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index ad91840..c7d49b0 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -287,12 +287,10 @@ class elem_connectivity:
         return zconn
 
     def importfrom_merge(self, list_elem):
-        # computes size of all elem_connectivity
-        sizes = [
-            np.sum([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])
-            for elemcon in list_elem
-        ]
-        sizes = [0] + sizes[:-1]  # start with 0, last is useless
+        # index shift of each elem_connectivity: number of elements of all the previous ones
+        sizes = [0]
+        for elemcon in list_elem[:-1]:  # last is useless
+            sizes.append(sizes[-1] + elemcon.nelem)
         mergedict = defaultdict(dict)
         for shift, elemcon in zip(sizes, list_elem):
             for key, elemtype in elemcon.items():
-- 
2.43.0


From 30a9727826c3316539ac5a3eb19ff2b9d0345434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 13/72] fix: cells of extruded layers are numbered by the
 number of cells of each layer

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index c7d49b0..6b4355e 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -438,6 +438,6 @@ class elem_connectivity:
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-                index[i * nelem : (i + 1) * nelem] += i * inodeshift
+                index[i * nelem : (i + 1) * nelem] += i * self.nelem
             newcon.add_elems(_elem.extruded_face[etype], elemcon, indexlist(ilist=index.tolist()))
         return newcon
-- 
2.43.0


From 2dbe71fccbb44d7dd8ec7fd8959f5521fffdf85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 14/72] fix: extrusion of tri3 is prism6, penta6 does not exist

---
 cfdtools/meshbase/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index 4d194dc..661b63c 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -7,7 +7,7 @@ geodim = {'point': 0, 'line': 1, 'surface': 2, 'volume': 3}
 elem_properties = [
     (0, '   node1', 1, 0, '    bar2'),
     (0, '    bar2', 2, 1, '   quad4'),
-    (0, '    tri3', 3, 2, '  penta6'),
+    (0, '    tri3', 3, 2, '  prism6'),
     (0, '   quad4', 4, 2, '   hexa8'),
     (0, '  tetra4', 4, 3, '    none'),
     (0, '   pyra5', 5, 3, '    none'),
-- 
2.43.0


From 39c943121c5f8f968b6060b83f10f86e2d362ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 15/72] fix: extrusion of bar2 is not a twisted quad4

---
 cfdtools/meshbase/_connectivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 6b4355e..a58f7c1 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -435,6 +435,8 @@ class elem_connectivity:
             elemcon[:, fnnode : 2 * fnnode] += inodeshift
             for i in range(ncell):
                 elemcon[i * nelem : (i + 1) * nelem, :] += i * inodeshift
+            if etype == 'bar2':  # quad4 nodes turn around the face
+                elemcon = elemcon[:, [0, 1, 3, 2]]
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-- 
2.43.0


From 20980d2502e9683c24489df75400ad9a593c1ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 16/72] fix: extrusion keeps the transform of periodic marks

---
 cfdtools/meshbase/_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index a4b57bf..2415582 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -279,6 +279,8 @@ class Mesh:
             newboco = submeshmark(boco.name)
             newboco.geodim = boco.geodim
             newboco.type = boco.type
+            if 'periodic_transform' in boco.properties:
+                newboco.properties['periodic_transform'] = boco.properties['periodic_transform']
             index = np.tile(boco.index.list(), (nrange))
             nbcnode = boco.index.size
             for i in range(nrange):
-- 
2.43.0


From e0b750feb005218778c3bd20a7d1a633e244b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 17/72] fix: number of cells of a IC3 V4 mesh read without
 solution

---
 cfdtools/ic3/readerV4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index fce4423..546850d 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -109,6 +109,8 @@ class reader:
             log.info("Reading connectivity...")
             self._read_connectivity(fid)
 
+        self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
+
         if self._solution_filename is None:
             return
 
@@ -120,8 +122,6 @@ class reader:
             log.info("Reading informative values...")
             self._read_informative_values(fid)
 
-            self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
-
     def export_mesh(self):
         """Export Mesh."""
         meshdata = _mesh.Mesh(self.mesh['params']['cv_count'], self.mesh['params']['no_count'])
-- 
2.43.0


From 4d74d21a994c5f023f4f1c5a9aacec180c257b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 18/72] fix: mesh read from IC3 V4 has no partition (and not
 None)

---
 cfdtools/ic3/readerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 546850d..5122c4b 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -137,7 +137,7 @@ class reader:
         meshdata.set_facedata(self.facedata)
         meshdata.set_params(self.mesh['params'])
         meshdata.update_params(self.simulation_state)
-        if 'partition' in self.mesh.keys():
+        if self.mesh['partition'] is not None:
             meshdata.set_partition(self.mesh['partition'])
         return meshdata
 
-- 
2.43.0


From a722968d2e23ba5bd64f1340256280013b9f4ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 19/72] fix: order of empty zones in IC3 V4 files

---
 cfdtools/ic3/writerV4.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index 06091b9..2cb458a 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -168,7 +168,10 @@ class writer(writerV2.writer):
         min_range.append(ifmin)
         max_range.append(ifmax)
 
-        min_range, labels, kinds = zip(*sorted(zip(min_range, labels, kinds), key=lambda x: x[0]))
+        # an empty zone (ifmax = ifmin - 1) comes before the zone starting at the same face
+        min_range, max_range, labels, kinds = zip(
+            *sorted(zip(min_range, max_range + [ifmax], labels, kinds), key=lambda x: x[:2])
+        )
         min_range = list(min_range)
         min_range.append(ifmax)
 
-- 
2.43.0


From d3d7d06ba825a6865e3594fb830a3b46f89f3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 20/72] fix: IC3 V4 solution may have no conservative variables

---
 cfdtools/ic3/readerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 5122c4b..88c08b4 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -300,7 +300,7 @@ class reader:
                 else:
                     print_stats_scalar(var_up, field)
 
-        read_vars(fid, ['rho', 'rhou', 'rhoe'])
+        read_vars(fid, [var for var in ['rho', 'rhou', 'rhoe'] if var in fid])
 
         if 'VolumeStats' in fid:
             read_vars(fid['VolumeStats'], fid['VolumeStats'].keys())
-- 
2.43.0


From 20438cedb424f648bc5025bff6f1fdfea04a1cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 21/72] fix: read all node blocks of Gmsh V4 files

---
 cfdtools/gmsh/reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 1e87df5..6167a63 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -315,20 +315,17 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][3])
-        nodes = 1
-        count = 1
         counter = 1
         x = [None] * (nnodes)
         y = [None] * (nnodes)
         z = [None] * (nnodes)
-        while nodes < nnodes:
+        for _ in range(int(coords[0][0])):
             cnt = int(coords[counter][3])
             for i in range(counter + 1, counter + cnt + 1):
                 pos = int(coords[i][0]) - 1
                 x[pos] = float(coords[i + cnt][0])
                 y[pos] = float(coords[i + cnt][1])
                 z[pos] = float(coords[i + cnt][2])
-            nodes += cnt
             counter = counter + 2 * cnt + 1
 
         # Find the elements.
-- 
2.43.0


From 4fd99008e12618656a6024757feee5230751a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 22/72] fix: Gmsh V4 entities are identified by dimension and
 tag

---
 cfdtools/gmsh/reader.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 6167a63..69dfa56 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -300,14 +300,16 @@ class reader(api._files):
 
         # To find the entity number used for concatenation of the mesh.
         # The returned values corresponds to the physical group
-        def find_ent(j):
-            entities = self.__get_section_from_name(msh, "$Entities")
+        entities = self.__get_section_from_name(msh, "$Entities")
+
+        def find_ent(dim, j):
             addd = 0  # temporary variable to seek the line and return
-            bot = int(entities[0][0]) + int(entities[0][1])
-            top = int(entities[0][2]) + bot
-            for i in range(bot, top + 1):
-                if j == int(entities[i][0]) and len(entities[i]) >= 8:
-                    addd = int(entities[i][8])
+            bot = 1 + sum(int(n) for n in entities[0][:dim])
+            top = bot + int(entities[0][dim])
+            iphys = 4 if dim == 0 else 7  # number of physical tags, after a point or a bounding box
+            for i in range(bot, top):
+                if j == int(entities[i][0]) and int(entities[i][iphys]) > 0:
+                    addd = int(entities[i][iphys + 1])
                     break
             return addd
 
@@ -342,7 +344,7 @@ class reader(api._files):
             a = int(elements[count][2])  # dimension
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = find_ent(d)  # Physical group
+            c = find_ent(int(elements[count][0]), d)  # Physical group
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
-- 
2.43.0


From 6f1af8a599c5dd287bd426e197ad3be66afe954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 23/72] fix: Gmsh physical names are identified by dimension
 and tag

---
 cfdtools/gmsh/reader.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 69dfa56..b7a1184 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -125,7 +125,8 @@ class reader(api._files):
         self._famm = []
         if fam is not None:  # B.C. are defined
             for bnd_tag in bnd.keys():
-                family = fam[str(bnd2fam[bnd_tag])]
+                # elements out of the physical groups have no name
+                family = fam.get((self._maxdim - 1, bnd2fam[bnd_tag]), "fluid")
                 if family != "fluid":
                     self.__create_bnd(
                         boundaries,
@@ -250,8 +251,9 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                name = " ".join(families[i][2:])[1:-1]
+                fam[(int(families[i][0]), int(families[i][1]))] = name
+                bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
@@ -290,8 +292,9 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                name = " ".join(families[i][2:])[1:-1]
+                fam[(int(families[i][0]), int(families[i][1]))] = name
+                bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
-- 
2.43.0


From 9b04b63c6df42c88dbb18c7ac29616354ade9ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 24/72] fix: Gmsh V2 nodes are stored at their number

---
 cfdtools/gmsh/reader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index b7a1184..a8fc1ca 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -264,9 +264,14 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][0])
-        x = [float(coords[i][1]) for i in range(1, nnodes + 1)]
-        y = [float(coords[i][2]) for i in range(1, nnodes + 1)]
-        z = [float(coords[i][3]) for i in range(1, nnodes + 1)]
+        x = [None] * nnodes
+        y = [None] * nnodes
+        z = [None] * nnodes
+        for i in range(1, nnodes + 1):
+            pos = int(coords[i][0]) - 1
+            x[pos] = float(coords[i][1])
+            y[pos] = float(coords[i][2])
+            z[pos] = float(coords[i][3])
 
         # Find the elements.
         log.info("  parse Elements")
-- 
2.43.0


From be47e3a0b12c3dca7cf120cf2ed499e840dff2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 25/72] fix: Gmsh V2 boundary entity in several physical groups

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index a8fc1ca..0e3c598 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -96,8 +96,8 @@ class reader(api._files):
                     ntag = elt[2]  # expected to be 2
                     # bnd_tag = elt[2 + tag]
                     # bnd_fam = elt[2 + tag - 1]
-                    bnd_tag = elt[4]
                     bnd_fam = elt[3]
+                    bnd_tag = (elt[4], bnd_fam)  # an entity may belong to several groups
                     if bnd_tag not in connect_bc.keys():
                         connect_bc[bnd_tag] = collections.defaultdict(list)
                     # if elt_type in connect_bc[bnd_tag].keys():
-- 
2.43.0


From 313ea2fe1b34e42250b9f28d8656f18d597eb009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 26/72] fix: CGNS cells are numbered from 0 even if other
 elements come first

---
 cfdtools/cgns/cgns.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 40a6306..23d4b73 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -69,9 +69,10 @@ class cgnszone:
         z = self._zone['GridCoordinates']['CoordinateZ/ data'][:]
         return x, y, z
 
-    def elemcon(self, geodim):
+    def elemcon(self, geodim, renumber=False):
+        """extract connectivity of elements, which keep their CGNS index (from 0) or are renumbered"""
         cellconn = _conn.elem_connectivity()
-        for _, elements in self._elems.items():
+        for elements in sorted(self._elems.values(), key=lambda elements: elements["ElementRange/ data"][0]):
             cgnstype = elements[" data"][0]
             etype = ele_cgns2local[cgnstype]
             nnode = _elem.nnode_elem[etype]
@@ -80,11 +81,11 @@ class cgnszone:
                 index = _conn.indexlist(irange=elements["ElementRange/ data"][:] - 1)
                 econ = elements["ElementConnectivity/ data"][:].reshape((-1, nnode))
                 econ -= 1  # shift node index (starts 0)
-                cellconn.add_elems(etype, econ, index)
+                cellconn.add_elems(etype, econ, None if renumber else index)
         return cellconn
 
     def export_cellcon(self):
-        return self.elemcon(self._geodim)
+        return self.elemcon(self._geodim, renumber=True)
 
     # @memoize
     @cache
-- 
2.43.0


From 8bbce43388eb64a23ac8064b71460cf85fc94403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 27/72] fix: CGNS boundary with as many faces as the zone has
 cells

---
 cfdtools/cgns/cgns.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 23d4b73..bbc8ade 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -92,6 +92,9 @@ class cgnszone:
     def export_facecon(self):
         return self.elemcon(self._geodim - 1)
 
+    def faceindex(self):
+        return [i for _, econ in self.export_facecon().items() for i in econ['index'].list()]
+
     def export_BC(self, BC):
         if "FamilyName" in BC.keys():
             name = h5_str(BC["FamilyName/ data"])
@@ -108,7 +111,7 @@ class cgnszone:
         elif "ElementList" in BC.keys():  # not in CGNS norm
             indexlist = (BC["ElementList/ data"][:] - 1).ravel().tolist()
             gridloc = "FaceCenter"
-            if len(indexlist) == self.ncell:
+            if len(indexlist) == self.ncell and not set(indexlist).issubset(self.faceindex()):
                 gridloc = "CellCenter"
                 boco.type = 'internal'
         else:
-- 
2.43.0


From 84c9a47837feaf745ca04d2433014ec7e4bdb009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 28/72] fix: CGNS boundaries of the same family are merged

---
 cfdtools/cgns/cgns.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index bbc8ade..cb90576 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -209,7 +209,10 @@ class cgnsMesh:
                 log.info(f"  filter internal mark {boco.name}")
             else:
                 log.info(f"  add boco {boco}")
-                meshdata.add_boco(boco)
+                if boco.name in meshdata._bocos:  # several BC in the same family
+                    meshdata._bocos[boco.name].index.append(boco.index.list())
+                else:
+                    meshdata.add_boco(boco)
         # meshdata.check()
         # meshdata.printinfo()
         return meshdata
-- 
2.43.0


From 9a680918f46ef6500351c8dc39efb544baabdb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 29/72] fix: volumes of a vtkMesh can be asked twice

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index c2d25ad..24c97a2 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -169,7 +169,7 @@ class vtkMesh:
         return lines
 
     def volumes(self):
-        if not self._volume:
+        if self._volume is None:
             self._volume = self._grid.compute_cell_sizes().cell_data["Volume"]
         return self._volume
 
-- 
2.43.0


From caa16166a5fc80addea9731965000880a1037924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 30/72] fix: time 0 of a data set is kept

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index ed853a8..2a0f25f 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -84,7 +84,7 @@ class DataSet(DataSetBase):
         self._data = dict()
 
     def add_data(self, name, data, time=None):
-        if time:
+        if time is not None:
             self._properties['time'] = time
         self._data[name] = data
 
@@ -175,7 +175,7 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
-        if time:
+        if time is not None:
             datalist['time'] = time
         self._datalist.append(datalist)
 
-- 
2.43.0


From 948342cfe0456be6141aa74810285d9c74892fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 31/72] fix: nodes of a data set given as arrays

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 2a0f25f..ba9a221 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -66,9 +66,9 @@ class DataSetBase:
     def set_nodes(self, x, y=None, z=None):
         """ """
         self._geoprop['x'] = x
-        if y:
+        if y is not None:
             self._geoprop['y'] = y
-        if z:
+        if z is not None:
             self._geoprop['z'] = z
 
     def set_mesh(self, mesh):
-- 
2.43.0


From 165765b25dd7b1325a369a722d2f2b6b01376605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 32/72] fix: VTK file of a list with another number of cells is
 refused

---
 cfdtools/vtk/_vtkList.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index e89705e..badde18 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -84,6 +84,8 @@ class vtkList:
             namelist = filterdata if filterdata else vtk.cell_data.keys()
             Tcomp.start()
             ctr = vtk.cell_centers().points
+            if vtk.n_cells != self._ncell:
+                raise ValueError(f"  {name} has {vtk.n_cells} cells instead of {self._ncell}")
             d = np.max(maths.distance(ctrRef, ctr))
             Tcomp.pause()
             if d > tol:  # should be sized by domain size
-- 
2.43.0


From 267c413e30d75ac1cf9c98ed209782f6a6f53b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 33/72] fix: VTK file of a list with cells at the same position
 is refused

---
 cfdtools/vtk/_vtkList.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index badde18..13367ae 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -105,6 +105,8 @@ class vtkList:
                     log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                     log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                     raise ValueError("  max distance is above tolerance")
+                if np.unique(index).size != index.size:
+                    raise ValueError("  several cells coincide with the same cell of the first file")
                 Tsort.pause()
                 # automatically deals with different shapes
                 datalist = {name: vtk.cell_data[name][rindex] for name in namelist}
-- 
2.43.0


From 957893bf670f221363dbbe61b7de2a43762f0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 34/72] fix: planes with several cells at the same position are
 refused

---
 cfdtools/vtk/_vtk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 24c97a2..f07a2e4 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -324,6 +324,8 @@ class vtkMesh:
                         log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                         log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                         raise ValueError("  max distance is above tolerance")
+                    if np.unique(index).size != chunksize:
+                        raise ValueError("  several cells of a plane are aligned with the same cell")
                     ikplanes[i, index] = chunk
         # check
         # shape of xypos[ikplanes] is (nchunk, chunksize, 2)
-- 
2.43.0


From 1a9b3a65675fed4744ece7ae582148aeefa3ec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 35/72] fix: an existing XMF file is not overwritten when
 dumping a list

---
 cfdtools/vtk/_vtkList.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 13367ae..8f82a10 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -134,10 +134,10 @@ class vtkList:
         self._data.set_mesh(vtkmesh.export_mesh())
         actual_filename = self._data.dumphdf(filename, overwrite=overwrite, **options)
         if xdmf:
-            self._dumpxdmf(actual_filename, vtkmesh, self._data)
+            self._dumpxdmf(actual_filename, vtkmesh, self._data, overwrite=overwrite)
         return actual_filename
 
-    def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList):
+    def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList, overwrite: bool = False):
         """Create the XMF file associated to the single HDF5 file created by dumphdf()."""
 
         def xdmf_domain(content):
@@ -155,5 +155,8 @@ class vtkList:
         content = xdmf_domain(geom_dat_content)
 
         # write the XMF file
-        with open(os.path.splitext(filepath)[0] + ".xmf", "w") as fid:
+        file = api._files(os.path.splitext(filepath)[0] + ".xmf")
+        if not overwrite:
+            file.find_safe_newfile()
+        with open(file.filename, "w") as fid:
             fid.write('\n'.join(content))
-- 
2.43.0


From 5b78d0a77035c2db136614fdfb6e8ff842086409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 36/72] fix: removed cell data are removed from the mesh

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 2415582..df4e1df 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -325,7 +325,7 @@ class Mesh:
         return self._nodedata.pop(name) if name in self._nodedata.keys() else None
 
     def pop_celldata(self, name):
-        return self._celldata.data[name] if self._celldata else None
+        return self._celldata.data.pop(name, None) if self._celldata else None
 
     def reindex_boundaryfaces(self):
         assert (
-- 
2.43.0


From e22024b6dff78b91b56993e6fadce72fe72ad889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 37/72] fix: node data of a data set can be removed from the
 mesh

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index df4e1df..eb32b1d 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -322,7 +322,7 @@ class Mesh:
         self._cellprop['partition'] = partition
 
     def pop_nodedata(self, name):
-        return self._nodedata.pop(name) if name in self._nodedata.keys() else None
+        return self._nodedata.data.pop(name, None) if self._nodedata else None
 
     def pop_celldata(self, name):
         return self._celldata.data.pop(name, None) if self._celldata else None
-- 
2.43.0


From 73634b50372d22748460580b1ee411d02781f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 38/72] fix: node and face data removal options of the
 conversion commands are applied

---
 cfdtools/_cli.py           | 14 +++++++++-----
 cfdtools/meshbase/_mesh.py |  3 +++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 044cf32..141275d 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -219,12 +219,16 @@ def write_generic(argv, ext, writer, fname=None):
     log.info("> export mesh ")
     cfdmesh = r.export_mesh()
     #
-    if parser.args().remove_cell_data:
-        for var in parser.args().remove_cell_data:
-            if cfdmesh.pop_celldata(var) is None:
-                log.info(f"  cannot find cell data {var}")
+    for loc, removelist, pop in (
+        ('node', parser.args().remove_node_data, cfdmesh.pop_nodedata),
+        ('face', parser.args().remove_face_data, cfdmesh.pop_facedata),
+        ('cell', parser.args().remove_cell_data, cfdmesh.pop_celldata),
+    ):
+        for var in removelist or []:
+            if pop(var) is None:
+                log.info(f"  cannot find {loc} data {var}")
             else:
-                log.info(f"  pop cell data {var}")
+                log.info(f"  pop {loc} data {var}")
     #
     if parser.args().outpath is None:
         file.remove_dir()
diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index eb32b1d..9244fff 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -327,6 +327,9 @@ class Mesh:
     def pop_celldata(self, name):
         return self._celldata.data.pop(name, None) if self._celldata else None
 
+    def pop_facedata(self, name):
+        return self._facedata.data.pop(name, None) if self._facedata else None
+
     def reindex_boundaryfaces(self):
         assert (
             'boundary' in self._faces.keys()
-- 
2.43.0


From 6d5cf0cf756eecdd37b4a87021036fe49b0449d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 39/72] fix: meshes whose coordinates are lists can be scaled

---
 cfdtools/meshbase/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 9244fff..6e337bf 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -444,7 +444,7 @@ class Mesh:
         scale x, y, z positions
         '''
         self.set_nodescoord_xyz(
-            self._nodes['x'] * scale_xyz[0],
-            self._nodes['y'] * scale_xyz[1],
-            self._nodes['z'] * scale_xyz[2],
+            np.asarray(self._nodes['x']) * scale_xyz[0],
+            np.asarray(self._nodes['y']) * scale_xyz[1],
+            np.asarray(self._nodes['z']) * scale_xyz[2],
         )
-- 
2.43.0


From b8c2818c4c7e141ab17eec458dab47c32b77508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 40/72] fix: spectrum of the selected samples only

---
 cfdtools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index ba9a221..76e5073 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -127,7 +127,7 @@ class DataSet(DataSetBase):
         datalist = datafilter if datafilter else list(self.keys())
         datalist.remove('time')
         for name in datalist:
-            newdataset.add_data(name, np.abs(fftm.fft(self[name])))
+            newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
-- 
2.43.0


From 79523249b0a9aa59d3040693f69be0afe30406e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 41/72] fix: a spectrum filter may omit time and is not
 modified

---
 cfdtools/data.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 76e5073..4e889ac 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -124,16 +124,14 @@ class DataSet(DataSetBase):
         f = fftm.fftfreq(n, dtavg)
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrum')
         newdataset.add_data('freq', f)
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         for name in datalist:
             newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
         lowcrop = 2
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         dtavg, dtdev, ntot = self.dtstats()  # check 'timeevol'
         if dtdev / dtavg > 1.0e-6:
             log.warning(f"dt standard deviation is significant: {100*dtdev / dtavg:.4f}%")
@@ -180,8 +178,7 @@ class DataSetList(DataSetBase):
         self._datalist.append(datalist)
 
     def dataSet(self, datafilter=None):
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         dtavg, dtdev, ntot = self.dtstats()  # check 'timeevol'
         if dtdev / dtavg > 1.0e-6:
             log.warning(f"dt standard deviation is significant: {100*dtdev / dtavg:.4f}%")
-- 
2.43.0


From 075f5feb2625d95b06761563a9676e5ac14f063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 42/72] fix: frequencies and number of windows of spectrograms
 match the windows

---
 cfdtools/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 4e889ac..36d5306 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -138,10 +138,10 @@ class DataSet(DataSetBase):
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrogram')
         nwind = window if window else int(ntot / 100)
         hwin = int(nwind / 2)
-        f = fftm.fftfreq(nwind, dtavg)
-        newdataset.add_data('freq', f[lowcrop : hwin + 1])
-        nit = int(2 * ntot / nwind) - 1
-        newdataset.add_data('time', (self['time'][hwin::hwin])[:-1])
+        f = fftm.rfftfreq(2 * hwin + 1, dtavg)  # windows have 2*hwin+1 samples
+        newdataset.add_data('freq', f[lowcrop:])
+        nit = (ntot - 1) // hwin - 1  # number of complete windows
+        newdataset.add_data('time', self['time'][hwin::hwin][:nit])
         for name in datalist:
             v = np.zeros((nit, hwin + 1 - lowcrop))
             # print(ntot, nit, nwind, hwin, newdataset['freq'].shape, f.shape)
-- 
2.43.0


From 2c948cd38f50c164cf8dfde42a51c978c06947b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 43/72] fix: reading a Gmsh file does not change the faces of
 other meshes

The reader replaced the table of faces of elements for the whole session. The
orderings of the element types it reads are the same in both conventions.
---
 cfdtools/gmsh/reader.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 0e3c598..f7aed82 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -38,9 +38,6 @@ class reader(api._files):
         if not self.exists():
             api.error_stop(f"File not found: {self.filename!r}")
 
-        # Set the node ordering convention
-        _elem.elem2faces = _elem.gmsh_elem2faces
-
         # Read file.
         filename = self.filename
         fam, bctype, x, y, z, elts = self.__read_sections(filename)
-- 
2.43.0


From 6c21f65c93d20e7db33d73f3be60cca163407092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 44/72] fix: cfdtools.data can be imported before
 cfdtools.meshbase

The circular import failed on an annotation evaluated when the class is made.
---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 6e337bf..23c8210 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -309,7 +309,7 @@ class Mesh:
     def update_params(self, params):
         self._params.update(params)
 
-    def set_celldata(self, celldata: _data.DataSet):
+    def set_celldata(self, celldata: "_data.DataSet"):
         self._celldata = celldata
 
     def set_facedata(self, facedata):
-- 
2.43.0


From 3a8f79a5a9eee63570a4d64cf3bf8d5324772cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 45/72] fix: color maps are found with current versions of
 matplotlib

---
 cfdtools/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/plot.py b/cfdtools/plot.py
index 6e378e3..1eb09a5 100644
--- a/cfdtools/plot.py
+++ b/cfdtools/plot.py
@@ -3,8 +3,8 @@ import matplotlib
 
 
 def normalizeCmap(cmapStr, nBins):
-    colormap = matplotlib.cm.get_cmap(cmapStr, nBins)
+    colormap = matplotlib.colormaps[cmapStr].resampled(nBins)
     if isinstance(colormap, matplotlib.colors.LinearSegmentedColormap):
         return matplotlib.colors.LinearSegmentedColormap(cmapStr, segmentdata=colormap._segmentdata, N=nBins)
     else:
-        return matplotlib.colors.ListedColormap(matplotlib.cm.get_cmap(cmapStr, nBins).colors)
+        return matplotlib.colors.ListedColormap(colormap.colors)
-- 
2.43.0


From b327ad2da8aa79f0961f24bf644ead8827112ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 46/72] fix: probe maps show the requested variable instead of
 its first letter

---
 cfdtools/probes/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 8a3e373..d6cce02 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -29,7 +29,7 @@ def check_axis(axisdata):
 def plot_timemap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".time.png"
     fig = plt.figure(1, figsize=(10, 8))
@@ -63,7 +63,7 @@ def plot_timemap(data, **kwargs):
 def plot_freqmap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".freq.png"
     t = data.alldata["time"]
-- 
2.43.0


From 21cab2b8244f5fbbbdfab87488f9a2f64485ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 47/72] fix: axis of a probe map given by several lines

---
 cfdtools/probes/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index d6cce02..7f82702 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -15,7 +15,7 @@ def check_axis(axisdata):
         axis = np.mean(axisdata, axis=0)
         # print(axis.shape)
         err = np.mean(axisdata**2, axis=0) - axis**2
-        log.info(f"min:avg:max change of several axis {err.shape}: {list(*minavgmax(err))}")
+        log.info(f"min:avg:max change of several axis {err.shape}: {list(minavgmax(err))}")
         log.warning(
             "several lines for axis: they are merged (average change is {:.2e})".format(
                 np.sqrt(np.mean(np.abs(err)))
-- 
2.43.0


From ccaa8f699fbf5e25ecbe83a55b8780e8b7d2f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 48/72] fix: verbose message of frequency maps

---
 cfdtools/probes/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 7f82702..f372142 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -85,7 +85,7 @@ def plot_freqmap(data, **kwargs):
     f = fftm.fftfreq(n, dtavg)
     psdmap = np.abs(fftm.fft(data.alldata[var] - np.average(data.alldata[var]), axis=0))
     if kwargs['verbose']:
-        log.info(data.alldata[var].shape, n, psdmap.shape, f.shape)
+        log.info("- fields sizes are (data, time, spectrum, frequency) %r %r %r %r", data.alldata[var].shape, n, psdmap.shape, f.shape)
     colmap = cfdplt.normalizeCmap(cmap, nlevels)
     axis = check_axis(data.alldata[axis])
     plt.contourf(
-- 
2.43.0


From c7a28b5233ee819a2ca958937a508ecc07e8d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 49/72] fix: frequency maps of less than 600 samples

---
 cfdtools/probes/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index f372142..2a02356 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -83,6 +83,7 @@ def plot_freqmap(data, **kwargs):
     plt.ylabel("frequency", fontsize=10)
     n = data.alldata[var].shape[0]
     f = fftm.fftfreq(n, dtavg)
+    nfreq = max(n // 200, 3)  # a map needs two frequencies at least
     psdmap = np.abs(fftm.fft(data.alldata[var] - np.average(data.alldata[var]), axis=0))
     if kwargs['verbose']:
         log.info("- fields sizes are (data, time, spectrum, frequency) %r %r %r %r", data.alldata[var].shape, n, psdmap.shape, f.shape)
@@ -90,8 +91,8 @@ def plot_freqmap(data, **kwargs):
     axis = check_axis(data.alldata[axis])
     plt.contourf(
         axis,
-        f[1 : n // 200],
-        np.abs(psdmap[1 : n // 200, :]),
+        f[1 : nfreq],
+        np.abs(psdmap[1 : nfreq, :]),
         levels=nlevels,
         cmap=colmap,
     )
-- 
2.43.0


From 490ef7aa5c8e5a407f9e0b7fd4b05cc92a710e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 50/72] fix: cfdinfo of CGNS and IC3 version 4 files

---
 cfdtools/cgns/cgns.py    | 3 ++-
 cfdtools/ic3/readerV4.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index cb90576..ddc346b 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -150,8 +150,9 @@ class cgnsfile(h5File):
 
 @fileformat_reader('CGNS', '.cgns')
 class cgnsMesh:
-    def __init__(self, filename) -> None:
+    def __init__(self, filename, cIntegrity=False) -> None:
         self._filename = filename
+        self.check_integrity = cIntegrity
         self._ncell = None
 
     @property
diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 88c08b4..942fc36 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -32,7 +32,7 @@ class reader:
 
     __version__ = "4"
 
-    def __init__(self, mesh_filename: str, solution_filename: str = None):
+    def __init__(self, mesh_filename: str, solution_filename: str = None, cIntegrity=False):
         """Initialization of a ic3 restart file reader."""
         self._mesh_filename = Path(mesh_filename)
         if not self._mesh_filename.exists():
-- 
2.43.0


From c54fdce7540093edec5a2946c9bee6fed97c7da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 51/72] fix: summary of a mesh with an empty boundary

---
 cfdtools/meshbase/_connectivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index a58f7c1..c989fff 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -107,6 +107,8 @@ class indexlist:
         if self._type == 'range':
             return f"range {self._range[0]} to {self._range[1]}"
         elif self._type == 'list':
+            if len(self._list) == 0:
+                return "empty list"
             n = np.array(self._list)
             return "list min:max:size = {}:{}:{}".format(n.min(), n.max(), n.size)
 
-- 
2.43.0


From b581fc96f5c1a0dc3527b7dfb74afd0260fa45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 52/72] fix: statistics of each component of vectors

---
 cfdtools/ic3/reader_legacy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 04344af..104a12f 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -54,7 +54,14 @@ def print_stats_vector(name, dnp):
     for component in range(dnp.shape[1]):
         log.info(
             "  %s%s%s:  %+.5e / %+.5e / %+.5e (min/mean/max)."
-            % (name, "-%d" % component, ' ' * (20 - len(name)), dnp.min(), np.mean(dnp), dnp.max())
+            % (
+                name,
+                "-%d" % component,
+                ' ' * (20 - len(name)),
+                dnp[:, component].min(),
+                np.mean(dnp[:, component]),
+                dnp[:, component].max(),
+            )
         )
 
 
-- 
2.43.0


From 3562774f774d8c4cdfd3e74e0df50a467b0275ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 53/72] fix: removing a list of faces updates the number of
 faces

---
 cfdtools/meshbase/_mesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 23c8210..2ae8f68 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -167,7 +167,10 @@ class Mesh:
             self._faces[facetype] = {'face2node': face2node, 'face2cell': face2cell}
         else:
             api.error_stop(f"bad face type: {facetype} since {self.__available_facetypes} expected")
-        self.nface = np.sum([fcon['face2node'].nelem for _, fcon in self._faces.items()])
+        self._count_faces()
+
+    def _count_faces(self):
+        self.nface = sum(fcon['face2node'].nelem for fcon in self._faces.values())
 
     def pop_faces(self, facetype: str):
         if facetype in self.__available_facetypes:
@@ -175,6 +178,7 @@ class Mesh:
                 for key, item in self._faces[facetype].items():
                     del item
                 self._faces.pop(facetype)
+                self._count_faces()
 
     def export_mixedfaces(self):
         mixedfaces_con = _conn.elem_connectivity()
-- 
2.43.0


From bfa353e5bc556ef0ba56eeb2be1e67bcbc846acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 54/72] fix: checking a mesh does not add a mark to it

---
 cfdtools/meshbase/_mesh.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 2ae8f68..e2b33bb 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -227,15 +227,18 @@ class Mesh:
     def list_boco_index(self):
         return list(itertools.chain(*[boco.index.list() for boco in self._bocos.values()]))
 
+    def _list_unmarked_faces(self):
+        """list of boundary faces which belong to no boundary mark"""
+        for _, boco in self._bocos.items():
+            assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
+        return list(set(self._faces['boundary']['face2node'].all_index()) - set(self.list_boco_index()))
+
     def make_unmarked_BC(self, name="unmarked_faces"):
         """check all boundaring faces are marked and create a specific boco if not"""
         if 'boundary' in self._faces.keys():
             # number of (boundary) faces in face connectivity
             # nbdface = self._faces['boundary']['face2node'].nelem
-            for _, boco in self._bocos.items():
-                assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
-            list_marked = self.list_boco_index()
-            list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))
+            list_missing = self._list_unmarked_faces()
             if list_missing:
                 boco = submeshmark(name)
                 boco.geodim = 'bdface'
@@ -433,7 +436,10 @@ class Mesh:
         # log.info('ckeck: at least cell/node or face/node face/cell connectivity')
         # assert(not self._cell2node or (not self._face2node and not self._face2cell))
         # assert self._check_cell2node() # not compulsory
-        assert not self.make_unmarked_BC()
+        if 'boundary' in self._faces.keys():
+            assert not self._list_unmarked_faces()
+        else:
+            log.warning("can only check boundary marks if faces are separated in 'boundary' list")
         return True
 
     def morph(self, fmorph):
-- 
2.43.0


From 89692de3c837c96067590a20ea30eebe27ffa1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 55/72] fix: morph meshes whose coordinates are lists

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index e2b33bb..7bfbc7a 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -446,7 +446,7 @@ class Mesh:
         '''
         change x, y, z position with a function of x, y, z, returning new x, y, z
         '''
-        newx, newy, newz = fmorph(self._nodes['x'], self._nodes['y'], self._nodes['z'])
+        newx, newy, newz = fmorph(*(np.asarray(self._nodes[c]) for c in ['x', 'y', 'z']))
         self.set_nodescoord_xyz(newx, newy, newz)
 
     def scale(self, scale_xyz):
-- 
2.43.0


From d42d18794a4ab9d53a0ed8b0cf0261d57224a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 56/72] fix: a data list does not share nor modify the dict of
 the caller

---
 cfdtools/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 36d5306..773d184 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -173,6 +173,7 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
+        datalist = dict(datalist)  # the dict of the caller is not modified nor shared
         if time is not None:
             datalist['time'] = time
         self._datalist.append(datalist)
-- 
2.43.0


From 445d083d76f539cd18e174f8975ff3bc0d9f93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 57/72] fix: read Gmsh files with sparse node numbers

---
 cfdtools/gmsh/reader.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index f7aed82..65a741e 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -234,6 +234,15 @@ class reader(api._files):
         iend = msh.index(["$End" + sectionName[1:]])
         return msh[ibeg + 1 : iend]
 
+    def __renumber_nodes(self, x, y, z, elts):
+        """remove the unused node numbers, if any (sparse numbering)"""
+        used = [i for i, xi in enumerate(x) if xi is not None]
+        if len(used) < len(x):
+            number = {old + 1: new + 1 for new, old in enumerate(used)}
+            x, y, z = ([c[i] for i in used] for c in (x, y, z))
+            elts = [e[: 3 + e[2]] + [number[n] for n in e[3 + e[2] :]] for e in elts]
+        return x, y, z, elts
+
     def __read_sections_V2(self, msh):
         # ------------------------------------------
         # Reading msh file for version 2.0 and below
@@ -261,9 +270,10 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][0])
-        x = [None] * nnodes
-        y = [None] * nnodes
-        z = [None] * nnodes
+        maxnode = max(int(c[0]) for c in coords[1 : nnodes + 1])
+        x = [None] * maxnode
+        y = [None] * maxnode
+        z = [None] * maxnode
         for i in range(1, nnodes + 1):
             pos = int(coords[i][0]) - 1
             x[pos] = float(coords[i][1])
@@ -278,7 +288,7 @@ class reader(api._files):
         for i in range(1, nelems + 1):
             elts.append([int(j) for j in elements[i]])
 
-        return fam, bctype, x, y, z, elts
+        return fam, bctype, *self.__renumber_nodes(x, y, z, elts)
 
     def __read_sections_V4(self, msh):
         # ------------------------------------------
@@ -360,7 +370,7 @@ class reader(api._files):
                 elts.append(elt1)
             count += nxtrange + 1
 
-        return fam, bctype, x, y, z, elts
+        return fam, bctype, *self.__renumber_nodes(x, y, z, elts)
 
     def __read_sections(self, filename):
         # Read the entire mesh.
-- 
2.43.0


From 3407cfaed807fe7dfae31f8e0cdde92dfe03c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 58/72] fix: Gmsh entities may belong to several physical
 groups

---
 cfdtools/gmsh/reader.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 65a741e..dd6dc11 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -318,13 +318,14 @@ class reader(api._files):
         entities = self.__get_section_from_name(msh, "$Entities")
 
         def find_ent(dim, j):
-            addd = 0  # temporary variable to seek the line and return
+            addd = [0]  # temporary variable to seek the line and return
             bot = 1 + sum(int(n) for n in entities[0][:dim])
             top = bot + int(entities[0][dim])
             iphys = 4 if dim == 0 else 7  # number of physical tags, after a point or a bounding box
             for i in range(bot, top):
                 if j == int(entities[i][0]) and int(entities[i][iphys]) > 0:
-                    addd = int(entities[i][iphys + 1])
+                    ngroup = int(entities[i][iphys])
+                    addd = [int(g) for g in entities[i][iphys + 1 : iphys + 1 + ngroup]]
                     break
             return addd
 
@@ -353,21 +354,25 @@ class reader(api._files):
         counter = 1
         count = 1
         neltypes = int(elements[0][0])
+        blocks = [1]
+        for _ in range(1, neltypes):
+            blocks.append(blocks[-1] + int(elements[blocks[-1]][3]) + 1)
+        maxdim = max(int(elements[i][0]) for i in blocks)
         # entityblock: dimEntity EntityIndex ElemType numElements
         # elements: ElementIndex NodesIndex
         for i in range(0, neltypes):
             a = int(elements[count][2])  # dimension
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = find_ent(int(elements[count][0]), d)  # Physical group
+            dim = int(elements[count][0])
+            groups = find_ent(dim, d)  # Physical groups
+            if dim == maxdim:
+                groups = groups[:1]  # a cell must not be duplicated
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
-                elt1.insert(1, a)
-                elt1.insert(2, b)
-                elt1.insert(3, c)
-                elt1.insert(4, d)
-                elts.append(elt1)
+                for c in groups:  # once in each of the groups of its entity
+                    elts.append([elt1[0], a, b, c, d] + elt1[1:])
             count += nxtrange + 1
 
         return fam, bctype, *self.__renumber_nodes(x, y, z, elts)
-- 
2.43.0


From 4031ba7b25b06d9cca3369abf1738703e5d8c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:04 +0000
Subject: [PATCH 59/72] fix: cfdwritecube writes in the folder given by
 --outpath

---
 cfdtools/_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 141275d..b286e45 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -323,6 +323,8 @@ def cfdwritecube(argv=None):
     mesh = cube.export_mesh()
     #
     file = api._files(parser.args().filename)
+    if parser.args().outpath is not None:
+        file.change_dir(parser.args().outpath)
     w = parser._writer(mesh)
     w.write_data(file.filename)
     return file.filename  # filename needed for pytest (for eventual rm)
-- 
2.43.0


From 3d3089147967bb1d670f34dd9301b552d8480697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:13 +0000
Subject: [PATCH 60/72] fix: refuse IC3 restart files whose faces, zones or
 partition exceed the mesh

---
 cfdtools/ic3/reader_legacy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 104a12f..959d02a 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -283,6 +283,7 @@ class reader(binreader):
         s = BinaryRead(self.fid, "%di" % noofa_count, self.byte_swap, type2nbytes["int32"] * noofa_count)
         # store in 8 bytes
         face2node_value = np.asarray(s).astype(np.int64)
+        assert np.all((face2node_value >= 0) & (face2node_value < no_count))
         zface2node = _conn.compressed_listofindex(face2node_index, face2node_value)
         zface2node.check()
         self.mesh["connectivity"]["noofa"] = zface2node
@@ -348,11 +349,9 @@ class reader(binreader):
             boco.properties["periodic_transform"] = h.rdata
             #
             famin, famax = boco.index.range()
+            assert famin >= 0 and famax < fa_count
             sta = face2node_index[famin]
-            try:
-                sto = face2node_index[famax + 1]
-            except IndexError:
-                sto = face2node_value.size
+            sto = face2node_index[famax + 1]
             #
             boco.properties["slicing"] = np.unique(face2node_value[sta:sto])
             self.mesh['bocos'].append(boco)
@@ -364,6 +363,7 @@ class reader(binreader):
         sys.stdout.flush()
         h = restartSectionHeader()
         h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_CV_PART"])
+        assert h.idata[0] == cv_count
 
         self.mesh["partition"] = {}
         self.mesh["partition"]['npart'] = h.idata[1]
-- 
2.43.0


From cef39c261957fa97659cb6df320a9e077be10034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:13 +0000
Subject: [PATCH 61/72] fix: CGNS zones of all bases, with the dimension of
 their base

---
 cfdtools/cgns/cgns.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index ddc346b..03f8699 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -167,18 +167,21 @@ class cgnsMesh:
         self._file = cgnsfile(self._filename)
         # get BASE list
         self._bases = self._file.list_bases()
+        # zones of all bases, with their base
+        zones = []
         for base in self._bases:
             # print('base', self._file._h5file[base].name, self._file._h5file[base][" data"][:])
-            self._zones = dict_cgnstype(self._file._h5file[base], b'Zone_t')
-        # geo dimension from base
-        self._geodim = self._file._h5file[self._bases[0]][" data"][0]
-        if zone is None:
-            assert len(self._zones) == 1, "Multiple zones found, must specify which zone to export"
-            name = list(self._zones.keys())[0]
-        else:
-            name = zone
-        self._zonename = name
-        self._zone = cgnszone(self._zones[name], self._geodim)
+            basezones = dict_cgnstype(self._file._h5file[base], b'Zone_t')
+            zones += [(name, hzone, self._file._h5file[base]) for name, hzone in basezones.items()]
+        self._zones = {name: hzone for name, hzone, _ in zones}
+        if zone is not None:
+            zones = [z for z in zones if z[0] == zone]
+            assert len(zones) > 0, f"Zone {zone} not found"
+        assert len(zones) == 1, "Multiple zones found, must specify which zone to export"
+        self._zonename, hzone, hbase = zones[0]
+        # geo dimension from the base of the zone
+        self._geodim = hbase[" data"][0]
+        self._zone = cgnszone(hzone, self._geodim)
         self._ncell = self._zone.ncell
 
     def printinfo(self):
-- 
2.43.0


From 2c114847d1e583d97f95af12dafefa5ac0b82fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:13 +0000
Subject: [PATCH 62/72] fix: keep CGNS boundary conditions of the same name in
 several nodes

---
 cfdtools/cgns/cgns.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 03f8699..31f6ba3 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -50,10 +50,10 @@ class cgnszone:
         # look for ZoneBC and BC
         self._zonebc = dict_cgnstype(zone, b'ZoneBC_t')
         self._zonebc.update(dict_cgnstype(zone, b"ZoneGridConnectivity_t"))
-        self._BCs = {}
+        self._BCs = []  # names are unique in each node only
         for zbc in self._zonebc.values():
-            self._BCs.update(dict_cgnstype(zbc, b'BC_t'))
-            self._BCs.update(dict_cgnstype(zbc, b'GridConnectivity_t'))
+            self._BCs.extend(dict_cgnstype(zbc, b'BC_t').values())
+            self._BCs.extend(dict_cgnstype(zbc, b'GridConnectivity_t').values())
 
     @property
     def nnode(self):
@@ -206,7 +206,7 @@ class cgnsMesh:
         # # cell connectivity
         meshdata.set_cell2node(cgzone.export_cellcon())
         # boundary conditions
-        for _, bc in cgzone._BCs.items():
+        for bc in cgzone._BCs:
             boco = cgzone.export_BC(bc)
             # filter full domain
             if boco.type in ['internal']:
-- 
2.43.0


From 4a53b92a4499aab55e9530a0917649fd86fb6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:13 +0000
Subject: [PATCH 63/72] fix: read tetrahedra, pyramids and prisms of CGNS files

---
 cfdtools/cgns/cgns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 31f6ba3..67b96c5 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -18,7 +18,7 @@ import cfdtools.meshbase._elements as _elem
 log = logging.getLogger(__name__)
 
 cgtype = {}
-ele_cgns2local = {2: 'node1', 3: 'bar2', 5: 'tri3', 7: 'quad4', 17: 'hexa8'}
+ele_cgns2local = {2: 'node1', 3: 'bar2', 5: 'tri3', 7: 'quad4', 10: 'tetra4', 12: 'pyra5', 14: 'prism6', 17: 'hexa8'}
 
 
 def cgnstype(obj):
-- 
2.43.0


From 3fc998fc0feb84411ebc6a55ac5d6bbbc9c2f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 64/72] fix: refuse wrong HDF5 types and modes before the file
 is opened

---
 cfdtools/hdf5/_hdf5.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index 39220d0..9c74f2e 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -37,26 +37,27 @@ class h5File(_files):
             datatype (_type_, optional): _description_. Defaults to None.
             version (_type_, optional): _description_. Defaults to None.
         """
+        if mode in ('w', 'w-', 'x'):
+            # before an existing file is replaced
+            assert datatype in _available_types
+            if version is None:
+                error_stop('an existing cfdtools datatype must provide a version number for writing')
+        elif mode not in ('r', 'r+'):
+            error_stop("unknown mode for opening h5 file")
         try:
             self._h5file = h5py.File(self._path, mode=mode)
         except NameError:
             raise NameError(f"{self._path} can not be open in {mode} mode.")
         if mode in ('w', 'w-', 'x'):
-            assert datatype in _available_types
             self._h5file.attrs.update({'cfdtools_version': __version__, 'cfd_datatype': datatype})
-            if datatype is not None and (version is None):
-                error_stop('an existing cfdtools datatype must provide a version number for writing')
-            if datatype is not None:
-                self._h5file.attrs.update({'data_version': version})
-        elif mode in ('r', 'r+'):
+            self._h5file.attrs.update({'data_version': version})
+        else:
             # only for cgns file (I guess)
             self._h5ver = self._h5file.get(' hdf5version', None)
             self._datatype = self._h5file.attrs.get('cfd_datatype', None)
             self._cfdtools_version = self._h5file.attrs.get('cfdtools_version', None)
             # if datatype, read or set to 0 (backward compatibility) else ignore
             self._version = self._h5file.attrs.get('data_version', 0 if self._datatype else None)
-        else:
-            error_stop("unknown mode for opening h5 file")
         self._openedmode = mode
 
     def close(self):
-- 
2.43.0


From c3151b74388882b836fa381593e4eb1988c5cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 65/72] fix: open HDF5 files in append mode

---
 cfdtools/hdf5/_hdf5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index 9c74f2e..0e02415 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -37,6 +37,8 @@ class h5File(_files):
             datatype (_type_, optional): _description_. Defaults to None.
             version (_type_, optional): _description_. Defaults to None.
         """
+        if mode == 'a':  # read and write if it exists, create otherwise
+            mode = 'r+' if self.exists() else 'x'
         if mode in ('w', 'w-', 'x'):
             # before an existing file is replaced
             assert datatype in _available_types
-- 
2.43.0


From e4d182d2a1092af4d05995a683a675a1f07385c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 66/72] fix: properties of HDF5 files opened for writing

---
 cfdtools/hdf5/_hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index 0e02415..98e9dc1 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -26,8 +26,10 @@ class h5File(_files):
     def __init__(self, filename: str):
         super().__init__(filename)
         self._openedmode = None
+        self._h5ver = None
         self._datatype = None
         self._cfdtools_version = None
+        self._version = None
 
     def open(self, mode='r', datatype=None, version=None):
         """open hdf5 file and parse some version info
@@ -53,6 +55,8 @@ class h5File(_files):
         if mode in ('w', 'w-', 'x'):
             self._h5file.attrs.update({'cfdtools_version': __version__, 'cfd_datatype': datatype})
             self._h5file.attrs.update({'data_version': version})
+            self._h5ver = None
+            self._datatype, self._version, self._cfdtools_version = datatype, version, __version__
         else:
             # only for cgns file (I guess)
             self._h5ver = self._h5file.get(' hdf5version', None)
-- 
2.43.0


From f1a311031890ab03be74ed126d58026e8c58a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:31 +0000
Subject: [PATCH 67/72] fix: refuse IC3 restart files with a wrong face check
 count or negative face sizes

---
 cfdtools/ic3/reader_legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 959d02a..95b7216 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -235,6 +235,7 @@ class reader(binreader):
                 sys.stdout.flush()
                 h = restartSectionHeader()
                 h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_FA_CHECK"])
+                assert h.idata[0] == fa_count
                 s = BinaryRead(self.fid, "%di" % fa_count, self.byte_swap, type2nbytes["int32"] * fa_count)
                 faces_id = np.asarray(s)
                 assert np.allclose(faces_id, np.arange(fa_count))
@@ -271,6 +272,7 @@ class reader(binreader):
         # Get the node count per face
         s = BinaryRead(self.fid, "%di" % fa_count, self.byte_swap, type2nbytes["int32"] * fa_count)
         nno_per_face = np.asarray(s)
+        assert np.all(nno_per_face >= 0)
         uniq, counts = np.unique(nno_per_face, return_counts=True)
         for facesize, nfacesize in zip(uniq, counts):
             log.info(f"  {nfacesize} faces of {facesize} nodes")
-- 
2.43.0


From 26dc18c38a0e703c76b3ce8b1ccddda8973de196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:25 +0000
Subject: [PATCH 68/72] fix: stop a timer for zero elements without dividing by
 zero

---
 cfdtools/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/api.py b/cfdtools/api.py
index 165a0f2..c0eac6b 100644
--- a/cfdtools/api.py
+++ b/cfdtools/api.py
@@ -155,14 +155,14 @@ class Timer:  # from https://realpython.com/python-timer/
         if nelem is not None:
             self._nelem = nelem
         self.pause()
-        normalized_time_ms = 0.0 if self._nelem is None else 1e6 * self._elapsed / self._nelem
+        normalized_time_ms = 0.0 if not self._nelem else 1e6 * self._elapsed / self._nelem
 
         # There was a print, line is restarted
         self._ncol = 0
 
         nspc = (self._ltab - self._ncol) * ' '
         log.info(nspc + f"wtime: {self._elapsed:0.4f}s")
-        if self._nelem is None:
+        if not self._nelem:
             log.info("")
         else:
             log.info(
-- 
2.43.0


From 0f0954012c4706bf18737aa823dc9681823ec7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:25 +0000
Subject: [PATCH 69/72] fix: extrude meshes whose coordinates are integers

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 7bfbc7a..82f158c 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -273,7 +273,7 @@ class Mesh:
         # SHOULD CHECK DIRECTION AND MESH ORIENTATION
         # extrude nodes
         ntotnode = self.nnode
-        newcoords = np.tile(self.nodescoord(ndarray=True), (nrange, 1))
+        newcoords = np.tile(self.nodescoord(ndarray=True), (nrange, 1)).astype(float)
         for i, s in enumerate(extrude_range):
             newcoords[i * ntotnode : (i + 1) * ntotnode, :] += s * np.array(direction)
         newmesh.set_nodescoord_nd(newcoords)
-- 
2.43.0


From b222e07a082fee722faea440945e47f4f5d555e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:14 +0000
Subject: [PATCH 70/72] fix: a refused stop leaves the number of elements of a
 timer

---
 cfdtools/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/api.py b/cfdtools/api.py
index c0eac6b..aaa8bad 100644
--- a/cfdtools/api.py
+++ b/cfdtools/api.py
@@ -152,9 +152,9 @@ class Timer:  # from https://realpython.com/python-timer/
 
     def stop(self, nelem=None):
         """Stop the timer, and report the elapsed time"""
+        self.pause()
         if nelem is not None:
             self._nelem = nelem
-        self.pause()
         normalized_time_ms = 0.0 if not self._nelem else 1e6 * self._elapsed / self._nelem
 
         # There was a print, line is restarted
-- 
2.43.0


From cfd4e497474ad0a20a64a1fcbd1f257b677d3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:33 +0000
Subject: [PATCH 71/72] fix: name of the prisms in XDMF files

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index f07a2e4..54ee032 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -36,7 +36,7 @@ if importpyvista:
         CellType.HEXAHEDRON: "Hexahedron",
         CellType.TETRA: "Tetrahedron",
         CellType.PYRAMID: "Pyramid",
-        CellType.WEDGE: "Prism",
+        CellType.WEDGE: "Wedge",
     }
 else:
     log.warning("pyvista missing or failing at import: some features will be missing.")
-- 
2.43.0


From abcf0493bf29daa0aba1bf2c66c8cbf9f9819ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:50 +0000
Subject: [PATCH 72/72] fix: identifiers of large meshes are compared exactly
 by the integrity check

---
 cfdtools/ic3/reader_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 95b7216..3458c9e 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -226,7 +226,7 @@ class reader(binreader):
                 assert h.id[0] == ic3_restart_codes["UGP_IO_NO_CHECK"]
                 s = BinaryRead(self.fid, "%di" % no_count, self.byte_swap, type2nbytes["int32"] * no_count)
                 nodes_id = np.asarray(s)
-                assert np.allclose(nodes_id, np.arange(no_count))
+                assert np.array_equal(nodes_id, np.arange(no_count))
                 log.info("end of node integrity")
                 sys.stdout.flush()
                 del nodes_id
@@ -238,7 +238,7 @@ class reader(binreader):
                 assert h.idata[0] == fa_count
                 s = BinaryRead(self.fid, "%di" % fa_count, self.byte_swap, type2nbytes["int32"] * fa_count)
                 faces_id = np.asarray(s)
-                assert np.allclose(faces_id, np.arange(fa_count))
+                assert np.array_equal(faces_id, np.arange(fa_count))
                 log.info("end of face integrity")
                 sys.stdout.flush()
                 del faces_id
@@ -251,7 +251,7 @@ class reader(binreader):
                 assert h.id[0] == ic3_restart_codes["UGP_IO_CV_CHECK"]
                 s = BinaryRead(self.fid, "%di" % cv_count, self.byte_swap, type2nbytes["int32"] * cv_count)
                 cells_id = np.asarray(s)
-                assert np.allclose(cells_id, np.arange(cv_count))
+                assert np.array_equal(cells_id, np.arange(cv_count))
                 log.info("end of cell integrity")
                 sys.stdout.flush()
                 del cells_id
-- 
2.43.0

