From 893a7ed5ab903a4d0b05dbc4e56924d102cdf9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 01/33] fix: end fill_nan_values when a missing cell has no
 neighbor with a value

---
 dany/dem_conditioning.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index ce8e814..bb56057 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -286,6 +286,8 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
     method = method.lower()
 
+    unfilled = []
+    nremain = len(stack) + 1
     while stack:
         node = stack.pop()
         nn = neighbors[node]
@@ -302,8 +304,14 @@ def fill_nan_values(modelgrid, dem, method="mean"):
             raise NotImplementedError(f"{method} has not been implemented")
 
         if np.isnan(elev):
-            stack.append(node)
+            # no neighbor with a value yet, visit again after the other cells
+            unfilled.append(node)
         else:
             filled_dem[node] = elev
 
+        if not stack and len(unfilled) < nremain:
+            stack = unfilled[::-1]
+            nremain = len(stack)
+            unfilled = []
+
     return filled_dem.reshape(dem.shape)
-- 
2.43.0


From 0050cff49afc149b532ef2e2e0ed9194e044fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 02/33] fix: use queen neighbors whatever neighbors the
 modelgrid has stored

---
 dany/dem_conditioning.py | 25 ++++++++++++++++++++++---
 dany/flow_directions.py  |  3 ++-
 dany/stream_util.py      |  3 ++-
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index bb56057..beaab56 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from collections import defaultdict
 
@@ -81,7 +82,7 @@ def _flood_and_drain_fill(modelgrid, dem, eps=2e-06, seed=0):
         np.ndarray: filled dem
     """
     dem = dem.ravel()
-    neighbors = modelgrid.neighbors(method="queen", as_nodes=True, reset=True)
+    neighbors = _queen_neighbors(modelgrid)
 
     wf = np.ones(dem.size) * 1e+10
     wf[seed] = dem[seed]
@@ -183,7 +184,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     closed = np.zeros(dem.size, dtype=bool)
     closed[seed] = True
-    neighbors = modelgrid.neighbors(method="queen", as_nodes=True)
+    neighbors = _queen_neighbors(modelgrid)
 
     while open or pit:
         if pit:
@@ -226,6 +227,24 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
     return newdem
 
 
+def _queen_neighbors(modelgrid):
+    """
+    Method to get the queen neighbors (shared vertex) of each cell. FloPy grids
+    return the neighbors from the first neighbor calculation regardless of
+    the method that is asked for, therefore neighbors are calculated on a
+    shallow copy that leaves the neighbors stored on the modelgrid unchanged.
+
+    Parameters
+    ----------
+    modelgrid : flopy.discretization.Grid object
+
+    Returns
+    -------
+        dict : dictionary of node : neighbors
+    """
+    return copy.copy(modelgrid).neighbors(method="queen", reset=True)
+
+
 def _identify_edge_nodes(modelgrid):
     """
     Method to identify model grid "edge" nodes. This method adapts the
@@ -283,7 +302,7 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     """
     filled_dem = np.ravel(dem).copy()
     stack = list(np.where(np.isnan(filled_dem))[0])
-    neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
+    neighbors = _queen_neighbors(modelgrid)
     method = method.lower()
 
     unfilled = []
diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b43dd91..04720cb 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -1,6 +1,7 @@
 import copy
 import numpy as np
 from collections import defaultdict
+from .dem_conditioning import _queen_neighbors
 from .stream_util import Topology
 
 
@@ -34,7 +35,7 @@ class FlowDirections:
         else:
             self._shape = self._modelgrid.shape
 
-        self._neighbors = copy.deepcopy(modelgrid.neighbors(method="queen"))
+        self._neighbors = copy.deepcopy(_queen_neighbors(modelgrid))
         self._area = self._shoelace_area()
         self._fneighbors = None
         # self._dem = dem.ravel()
diff --git a/dany/stream_util.py b/dany/stream_util.py
index c4ccb2e..4802e0a 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1,4 +1,5 @@
 import numpy as np
+from .dem_conditioning import _queen_neighbors
 
 
 class StreamBase:
@@ -33,7 +34,7 @@ class StreamBase:
             self._nnodes = self._modelgrid.nnodes
             self._shape = (self._nnodes,)
 
-        self._neighbors = modelgrid.neighbors(as_nodes=False)
+        self._neighbors = _queen_neighbors(modelgrid)
         
     @property
     def stream_array(self):
-- 
2.43.0


From 5e19aff74a676cb772f265aad64cebb94694dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 03/33] fix: flow directions of unstructured grids

---
 dany/flow_directions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 04720cb..695dac9 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -61,7 +61,7 @@ class FlowDirections:
         self._fdir_r = None
         self._facc = None
         self._fillval = self._dem[-1]
-        self._fillidx = self._modelgrid.ncpl
+        self._fillidx = self._dem.size - 1
         self._threshold = 1e-6
 
     @property
-- 
2.43.0


From 72473224ca54c1405ecf8ae98d65f27fd8b14bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 04/33] fix: segment numbering on unstructured grids

---
 dany/stream_util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 4802e0a..b20d409 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -304,9 +304,7 @@ class StreamBase:
             )[0]
             seg_array[idx] = new_seg
 
-        self._stream_array = seg_array.reshape(
-            tuple(self._modelgrid.shape[1:])
-        )
+        self._stream_array = seg_array.reshape(self._shape)
         self._graph = graph
         self._seg_graph = seg_graph
         self._node_seg_rch = np.array(nd_seg_rch)
-- 
2.43.0


From 873960e8ce2e47a55605dd44d89e5450f0d6d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 05/33] fix: keep terminal cells terminal when flats are
 resolved

---
 dany/flow_directions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 695dac9..e5129b1 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -244,11 +244,13 @@ class FlowDirections:
                 conns = self._fneighbors[ix, flow_to]
                 for conn in conns:
                     self._stack[conn].add(ix)
+                    if self._fdir[conn] == conn:
+                        dest = conn
 
                 tmp_stack = list(conns)
                 visited = []
                 print('running dijkstra')
-                while True:
+                while dest is None:
                     n = 0
                     for cell in tmp_stack:
                         if cell not in visited:
@@ -271,7 +273,7 @@ class FlowDirections:
                         break
                     if sink:
                         break
-                if sink:
+                if dest is None:
                     # now that we have sinks,
                     # we can apply hydrologic conditioning...
                     self._fdir[ix] = -2
@@ -322,6 +324,8 @@ class FlowDirections:
                     if ix not in flow_trace:
                         print('break')
                     for node, (node_to, dist) in flow_trace.items():
+                        if self._fdir[node] == node:
+                            continue
                         self._fdir[node] = node_to
 
     def _resolve_flats(self, cell, flow_to, dest):
-- 
2.43.0


From 650e7b4fe45ad3e4eda6352413f3a4d16ea8f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 06/33] fix: watersheds follow recalculated flow directions

---
 dany/flow_directions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index e5129b1..02c4689 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -365,13 +365,14 @@ class FlowDirections:
 
         else:
             max_nidp = np.max(self.get_nidp())
-            self._fdir_r = np.full((max_nidp, self._fdir.size), -1, dtype=int)
+            fdir_r = np.full((max_nidp, self._fdir.size), -1, dtype=int)
             for ix, fdir in enumerate(self._fdir):
                 for jx in range(max_nidp):
-                    if self._fdir_r[jx, fdir] == -1:
-                        self._fdir_r[jx, fdir] = ix
+                    if fdir_r[jx, fdir] == -1:
+                        fdir_r[jx, fdir] = ix
                         break
-            return self._fdir_r
+            self._fdir_r = fdir_r
+            return fdir_r
 
     def get_nidp(self):
         """
@@ -411,6 +412,7 @@ class FlowDirections:
 
         """
         self._threshold = burn_threshold
+        self._fdir_r = None
         self._fdir = np.full(self._dem.size - 1, -1)
         self._fdir[self._min_cell] = self._min_cell
         if terminal_cells:
-- 
2.43.0


From 7a367d33b549a4e4550f1ad63f9e398e422a17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 07/33] fix: subbasins with an outlet in the first cell

---
 dany/flow_directions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 02c4689..905e295 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -614,12 +614,13 @@ class FlowDirections:
                     graph[current] = cellid
                     break
 
+        # shift cell numbers, zero is reserved for outlets in Topology
         topo = Topology()
         for cellid, cellid_to in graph.items():
-            topo.add_connection(cellid, cellid_to)
+            topo.add_connection(cellid + 2, cellid_to + 2)
 
-        topo.add_connection(-1, -1)
-        solution_order = topo.sort()[:-1]
+        topo.add_connection(1, 1)
+        solution_order = [cellid - 2 for cellid in topo.sort()[:-1]]
         solution_idxs = [cellids.index(cellid) for cellid in solution_order]
 
         subbasins = np.zeros(self._fdir.shape, dtype=int)
-- 
2.43.0


From 55b07f6acf53faa3c5d5bc1fadcafe75e3d369eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 08/33] fix: sort stream networks that are longer than the
 recursion limit

---
 dany/stream_util.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index b20d409..ef3c6ed 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1432,8 +1432,8 @@ class Topology(object):
 
     def _sort_util(self, seg, visited, stack):
         """
-        Recursive function used by topological
-        sort to perform sorting
+        Function used by topological sort to follow the connections
+        downstream of a segment and add them to the sorted segments
 
         Parameters
         ----------
@@ -1445,21 +1445,26 @@ class Topology(object):
             stack of sorted segment numbers
 
         """
-        visited[seg] = True
-        if seg == 0:
-            ioutseg = 0
-        else:
-            ioutseg = self.topology[seg]
+        path = []
+        while True:
+            visited[seg] = True
+            if seg == 0:
+                ioutseg = 0
+            else:
+                ioutseg = self.topology[seg]
 
-        if not visited[ioutseg]:
-            self._sort_util(ioutseg, visited, stack)
+            path.append((seg, ioutseg))
+            if visited[ioutseg]:
+                break
+            seg = ioutseg
 
-        if seg == 0:
-            pass
-        elif ioutseg == 0:
-            stack.append(seg)
-        else:
-            stack.insert(0, seg)
+        for seg, ioutseg in reversed(path):
+            if seg == 0:
+                pass
+            elif ioutseg == 0:
+                stack.append(seg)
+            else:
+                stack.insert(0, seg)
 
     def sort(self):
         """
-- 
2.43.0


From e804dbd7045d8eeca19d0e8a4fd503a50eac8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 09/33] fix: recalculate connectivity for the current streams

---
 dany/stream_util.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index ef3c6ed..7d0f6e8 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -27,6 +27,8 @@ class StreamBase:
         self._shape = shape
         self._stream_array = None
         self._graph = None
+        self._seg_graph = None
+        self._node_seg_rch = None
 
         self._shape = self._modelgrid.shape[1:]
         self._nnodes = self._modelgrid.ncpl
@@ -73,7 +75,10 @@ class StreamBase:
                 f"modelgrid size {self._nnodes}"
             )
 
-        self._stream_array = stream_array.reshape(self._shape)
+        stream_array = stream_array.reshape(self._shape)
+        self._graph = None
+        self._seg_graph = None
+        self._stream_array = stream_array
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
@@ -104,8 +109,12 @@ class StreamBase:
         if basin_boundary is not None:
             stream_array[basin_boundary.ravel() == 0] = 0
 
-        self._stream_array = stream_array.reshape(self._shape)
-        return self._stream_array
+        stream_array = stream_array.reshape(self._shape)
+        # connectivity of previously delineated streams is no longer valid
+        self._graph = None
+        self._seg_graph = None
+        self._stream_array = stream_array
+        return stream_array
 
     def _mf6_stream_connectivity(self, stream_array=None):
         """
@@ -167,6 +176,7 @@ class StreamBase:
             new = rchid_mapper[old]
             stream_array[node] = new
 
+        self._seg_graph = None
         self._stream_array = stream_array
         self._graph = new_map
         return new_map
@@ -304,10 +314,12 @@ class StreamBase:
             )[0]
             seg_array[idx] = new_seg
 
-        self._stream_array = seg_array.reshape(self._shape)
-        self._graph = graph
+        seg_array = seg_array.reshape(self._shape)
+        nd_seg_rch = np.array(nd_seg_rch)
+        self._graph = None
+        self._stream_array = seg_array
+        self._node_seg_rch = nd_seg_rch
         self._seg_graph = seg_graph
-        self._node_seg_rch = np.array(nd_seg_rch)
         return seg_graph
 
     def create_stream_vectors(self, stream_array=None, group_segments=True):
@@ -1165,7 +1177,7 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array
 
-        if self._graph is None:
+        if self._graph is None and self._seg_graph is None:
             group_segments = kwargs.pop("group_segments", False)
             self.get_stream_connectivity(stream_array, group_segments)
             stream_array = self.stream_array
-- 
2.43.0


From d9d5f12960f5ab0f187e6cdee7f94fb96213d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 10/33] fix: use the stream array provided to reach_data and
 segment_data

---
 dany/stream_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 7d0f6e8..5079908 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -760,6 +760,9 @@ class Sfr2005(StreamBase):
                     "must be provided"
                 )
             stream_array = self._stream_array
+        else:
+            # use the provided streams instead of stored connectivity
+            self._seg_graph = None
 
         if self._seg_graph is None:
             group_segments = kwargs.pop("group_segments", True)
@@ -876,6 +879,9 @@ class Sfr2005(StreamBase):
                     "must be provided"
                 )
             stream_array = self._stream_array
+        else:
+            # use the provided streams instead of stored connectivity
+            self._seg_graph = None
 
         if self._seg_graph is None:
             group_segments = kwargs.pop("group_segments", True)
-- 
2.43.0


From ec4d7331a3f3792dc0961d499d0ea9bbf730495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 11/33] fix: package data of a provided stream array

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 5079908..a4cc002 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -578,11 +578,11 @@ class Sfr6(StreamBase):
                     graph = self._mf6_stream_connectivity()
             else:
                 graph = self._graph
-            stream_array = self.stream_array
         else:
             graph = self._mf6_stream_connectivity(stream_array)
 
-        stream_array = stream_array.ravel()
+        # reach numbers are assigned by the stream connectivity
+        stream_array = self.stream_array.ravel()
         dem_top = self._modelgrid.top.ravel()
         xcenters = self._modelgrid.xcellcenters.ravel()
         ycenters = self._modelgrid.ycellcenters.ravel()
-- 
2.43.0


From 0b0856dae55f491e641c64f4bc48aa5f82699882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 12/33] fix: stream elevations when several stream objects
 share a modelgrid

---
 dany/stream_util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index a4cc002..a5c597f 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -484,6 +484,7 @@ class Sfr6(StreamBase):
             # ensure the modelgrid top is consistent with the DEM
             modelgrid._top = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
+            self._top = faobj.dem.copy()
             self._slope = faobj.slope.ravel()
 
         else:
@@ -583,7 +584,7 @@ class Sfr6(StreamBase):
 
         # reach numbers are assigned by the stream connectivity
         stream_array = self.stream_array.ravel()
-        dem_top = self._modelgrid.top.ravel()
+        dem_top = self._top.ravel()
         xcenters = self._modelgrid.xcellcenters.ravel()
         ycenters = self._modelgrid.ycellcenters.ravel()
         connection_data = self.connectiondata(graph)
@@ -701,6 +702,7 @@ class Sfr2005(StreamBase):
             # ensure the modelgrid top is consistent with the DEM
             modelgrid._top = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
+            self._top = faobj.dem.copy()
 
         self._node_seg_rch = None
         self._seg_graph = None
@@ -773,7 +775,7 @@ class Sfr2005(StreamBase):
         basic_rec = []
         xcenters = self._modelgrid.xcellcenters
         ycenters = self._modelgrid.ycellcenters
-        dem = self._modelgrid.top
+        dem = self._top
         reachid = 1
         seg_rid_lut = {}
         for iseg, outseg in sorted(self._seg_graph.items()):
@@ -1049,7 +1051,7 @@ class Sfr2005(StreamBase):
             # Set reach data defaults
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
-            dem = self._modelgrid.top.ravel()
+            dem = self._top.ravel()
             for ix, rec in enumerate(reach_data):
                 node = rec["node"]
                 rec_dn_ix = rec["outreach"] - 1
@@ -1108,6 +1110,7 @@ class PrmsStreams(StreamBase):
             # ensure the modelgrid top is consistent with the DEM
             modelgrid._top = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
+            self._top = faobj.dem.copy()
             self._faobj = faobj
 
     def get_stream_connectivity(self, stream_array=None, group_segments=False):
-- 
2.43.0


From 64a75733087ab6c2f8070165cefa6118402d08c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 13/33] fix: downstream reach of the last reach in a segment

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index a5c597f..d0a4d29 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -830,12 +830,12 @@ class Sfr2005(StreamBase):
         for ix in range(len(basic_rec)):
             rec = basic_rec[ix]
             if len(rec) < rec_len:
-                iseg = rec[3]
+                iseg = rec[4]
                 if iseg not in self._seg_graph:
                     downreach = 0
                 else:
                     outseg = self._seg_graph[iseg]
-                    downreach = seg_rid_lut[outseg]
+                    downreach = seg_rid_lut.get(outseg, 0)
                 basic_rec[ix].append(downreach)
 
         nreach = len(basic_rec)
-- 
2.43.0


From 98c848db5453ae0f05792f6a42240b026ffbf6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 14/33] fix: route runoff to the first stream segment
 downstream

---
 dany/stream_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index d0a4d29..d816977 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -964,7 +964,8 @@ class Sfr2005(StreamBase):
                 else:
                     visited.append(node)
 
-                upnodes = fdir_r[node]
+                # other stream cells route to their own segment
+                upnodes = [n for n in fdir_r[node] if n not in stream_cells]
                 irunbnd[upnodes] = iseg
                 stack.extend(upnodes)
 
-- 
2.43.0


From 318d94f2f5c655fc058533d4fae0200f1344cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 15/33] fix: keep many to many cascades within the basin
 boundary

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index d816977..70568f5 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1342,7 +1342,7 @@ class PrmsStreams(StreamBase):
                 #  links that point out of the active model extent based
                 #  on slope
                 flow_to = np.array(flow_to)
-                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != 0]
+                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != -9]
                 flow_to = list(flow_to[keep_idx])
                 conns = conns[keep_idx]
 
-- 
2.43.0


From ab8981d6f188290160ce3237fb06a82da865918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 16/33] fix: outlet cells in masked many to one cascades

---
 dany/stream_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 70568f5..329aded 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1260,12 +1260,12 @@ class PrmsStreams(StreamBase):
             if len(idxs) == 0:
                 continue
 
+            hru_up = list(idxs)
             if fdir[hru_down] == -9:
                 # trap for outlets, need to set hru_up and hru_dn to same val
-                idxs = [hru_down]
-
-            hru_up = list(idxs)
-            hru_down = [hru_down,] * len(hru_up)
+                hru_down = list(idxs)
+            else:
+                hru_down = [hru_down,] * len(hru_up)
             hru_pct = [1.0,] * len(hru_up)
 
             hru_up_id.extend(hru_up)
-- 
2.43.0


From 977fc5fbb5847c066f5cf764178791b6ecbf117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 17/33] fix: keyword defaults of the pyGSFLOW streams object

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 329aded..9470201 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1026,7 +1026,7 @@ class Sfr2005(StreamBase):
             }
         }
         group_segments = kwargs.pop("group_segments", True)
-        for k, v in kwargs:
+        for k, v in kwargs.items():
             if k in defaults["reach"]:
                 defaults["reach"][k] = v
             elif k in defaults["segment"]:
-- 
2.43.0


From dacf5d8f7a81bcfee6ed3d6126626314b5054716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 18/33] fix: keep isolated terminal stream cells in the
 MODFLOW-2005 segments

---
 dany/stream_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 9470201..b557cb9 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -229,7 +229,10 @@ class StreamBase:
             segstrts = {}
             iseg = 1
             for node in nodesup:
-                if node not in nodesdn:
+                if node not in nodesdn or (
+                    # isolated stream cell that is also a terminal cell
+                    graph[node] == node and nodesdn.count(node) == 1
+                ):
                     segstrts[node] = iseg
                     iseg += 1
 
-- 
2.43.0


From 2ce3da3a8b277e29226625f212cdacff6f6682b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 19/33] fix: fill sinks of integer elevations without losing
 the epsilon

---
 dany/dem_conditioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index beaab56..4e471e5 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -38,7 +38,7 @@ def fill_sinks(modelgrid, dem, eps=2e-06, stream_mask=None, method="priority"):
     """
     edge_nodes = _identify_edge_nodes(modelgrid)
     shape = dem.shape
-    dem = np.copy(dem)
+    dem = np.array(dem, dtype=float)
     if stream_mask is not None:
         if method.lower() not in ("priority", "complete"):
             method = "priority"
-- 
2.43.0


From 5b031480ac5f79aa8971c719b7ba714345cfe80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 20/33] fix: keep the stored segments until a provided stream
 array is numbered

---
 dany/stream_util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index b557cb9..a5fabf3 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -765,11 +765,12 @@ class Sfr2005(StreamBase):
                     "must be provided"
                 )
             stream_array = self._stream_array
+            update = self._seg_graph is None
         else:
             # use the provided streams instead of stored connectivity
-            self._seg_graph = None
+            update = True
 
-        if self._seg_graph is None:
+        if update:
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -884,11 +885,12 @@ class Sfr2005(StreamBase):
                     "must be provided"
                 )
             stream_array = self._stream_array
+            update = self._seg_graph is None
         else:
             # use the provided streams instead of stored connectivity
-            self._seg_graph = None
+            update = True
 
-        if self._seg_graph is None:
+        if update:
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
-- 
2.43.0


From 786c9f831542e98439a3724c49b80f180a3d6fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 21/33] fix: keep the flow directions when their recalculation
 is cut short

---
 dany/flow_directions.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 905e295..50d2397 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -410,6 +410,31 @@ class FlowDirections:
         flow_directions : np.ndarray
             numpy array of cell numbers that each individual cell flows to
 
+        """
+        previous = (self._threshold, self._fdir, self._fdir_r)
+        try:
+            return self._assign_flow_directions(burn_threshold, terminal_cells)
+        except BaseException:
+            # the previous flow directions stay in force
+            self._threshold, self._fdir, self._fdir_r = previous
+            raise
+
+    def _assign_flow_directions(self, burn_threshold, terminal_cells):
+        """
+        Internal method that assigns a flow direction to each cell
+
+        Parameters
+        ----------
+        burn_threshold : float
+            digital threshold for small numerical artificats
+        terminal_cells : list
+            list of cell numbers that represent a terminal condition
+
+        Returns
+        -------
+        flow_directions : np.ndarray
+            numpy array of cell numbers that each individual cell flows to
+
         """
         self._threshold = burn_threshold
         self._fdir_r = None
-- 
2.43.0


From 0a99c9383e930b0c95261245970c6b2b0d8ae0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 22/33] fix: leave isolated cells missing in fill_nan_values

---
 dany/dem_conditioning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 4e471e5..26e4010 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -310,6 +310,10 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     while stack:
         node = stack.pop()
         nn = neighbors[node]
+        if len(nn) == 0:
+            # isolated cell, no value can reach it
+            continue
+
         elevs = filled_dem[nn]
         if method == "mean":
             elev = np.nanmean(elevs)
-- 
2.43.0


From f2bd583806c0973f5ddb0216cb3aec8817810706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 23/33] fix: keep the neighbor array when its recalculation is
 cut short

---
 dany/flow_directions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 50d2397..15d66fb 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -133,13 +133,14 @@ class FlowDirections:
             if len(n) > axis1:
                 axis1 = len(n)
 
-        self._fneighbors = np.zeros((axis0, axis1), dtype=int)
+        fneighbors = np.zeros((axis0, axis1), dtype=int)
         for node, n in self._neighbors.items():
             if len(n) < axis1:
                 n += [self._fillidx] * (axis1 - len(n))
 
-            self._fneighbors[node] = n
+            fneighbors[node] = n
 
+        self._fneighbors = fneighbors
         self._fmask = np.where(self._fneighbors == self._fillidx)
 
     def _calculate_slopes(self):
-- 
2.43.0


From 928cf2df37f2c6fda269ecdb295b2c425c108b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 24/33] fix: slope of builder reaches towards the next reach

---
 dany/stream_util.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index a5fabf3..0e05024 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1058,13 +1058,17 @@ class Sfr2005(StreamBase):
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
             dem = self._top.ravel()
+            # outreach is not set: find the next reach by segment and reach
+            outsegs = dict(zip(segment_data["nseg"], segment_data["outseg"]))
+            nodes = {
+                (rec["iseg"], rec["ireach"]): rec["node"] for rec in reach_data
+            }
             for ix, rec in enumerate(reach_data):
                 node = rec["node"]
-                rec_dn_ix = rec["outreach"] - 1
-                if rec_dn_ix >= len(reach_data):
-                    node_dn = rec["node"]
-                else:
-                    node_dn = reach_data[rec_dn_ix]["node"]
+                iseg, ireach = rec["iseg"], rec["ireach"]
+                node_dn = nodes.get((iseg, ireach + 1), node)
+                if (iseg, ireach + 1) not in nodes and outsegs.get(iseg, iseg) != iseg:
+                    node_dn = nodes.get((outsegs[iseg], 1), node)
 
                 strtop = dem[node]
                 strtop_dn = dem[node_dn]
-- 
2.43.0


From 0a51fa0bd0d5c012c296ad00b163caf7cc44a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 25/33] fix: accept lists of geometry objects in get_subbasins

---
 dany/flow_directions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 15d66fb..8399bce 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -601,7 +601,10 @@ class FlowDirections:
         """
         from flopy.utils.geospatial_utils import GeoSpatialCollection
 
-        if isinstance(points, (tuple, list, np.ndarray)):
+        vertices = (tuple, list, np.ndarray)
+        if isinstance(points, vertices) and all(
+            isinstance(point, vertices) for point in points
+        ):
             for point in points:
                 if len(point) != 2:
                     raise AssertionError(
-- 
2.43.0


From 11332b2dd19cea1c5cd3dd9dd417d50a747412e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 26/33] fix: leave reach and segment data given to the builder
 unchanged

---
 dany/stream_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 0e05024..47575ef 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1051,6 +1051,8 @@ class Sfr2005(StreamBase):
             irunbnd = self.irunbnd(group_segments=group_segments)
 
         if apply_defaults:
+            # the provided data is not altered
+            reach_data, segment_data = reach_data.copy(), segment_data.copy()
             pgs_defaults = defaults["pgs_defaults"]
             reach_defaults = defaults["reach"]
 
-- 
2.43.0


From dbee82a9cf0771d981cc60a9cf09bff42b00b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 27/33] fix: number the streams provided to irunbnd and
 get_cascades

---
 dany/stream_util.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 47575ef..79f66f1 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -80,6 +80,24 @@ class StreamBase:
         self._seg_graph = None
         self._stream_array = stream_array
 
+    def _is_stored(self, stream_array):
+        """
+        Internal method to check if the stored connectivity and numbering
+        belongs to a provided stream array
+
+        Parameters
+        ----------
+        stream_array : np.ndarray
+            array of stream locations
+
+        Returns
+        -------
+            bool
+        """
+        return self._stream_array is not None and np.array_equal(
+            np.nan_to_num(stream_array.ravel()), self._stream_array.ravel()
+        )
+
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
         Method to binarize flow accumulation by a contributing area
@@ -934,7 +952,7 @@ class Sfr2005(StreamBase):
             stream_array = self._stream_array
 
         if segment_graph is None:
-            if self._seg_graph is None:
+            if self._seg_graph is None or not self._is_stored(stream_array):
                 group_segments = kwargs.pop("group_segments", True)
                 segment_graph = self.get_stream_connectivity(
                     stream_array=stream_array,
@@ -1198,12 +1216,13 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array
 
-        if self._graph is None and self._seg_graph is None:
+        if (
+            self._graph is None and self._seg_graph is None
+        ) or not self._is_stored(stream_array):
             group_segments = kwargs.pop("group_segments", False)
             self.get_stream_connectivity(stream_array, group_segments)
-            stream_array = self.stream_array
 
-        stream_array = stream_array.copy().ravel()
+        stream_array = self.stream_array.ravel()
 
         if not many2many:
             hru_up_id, hru_down_id, hru_pct_up = \
-- 
2.43.0


From 9b29a93fa3794935a1e3a9bdc61bc8aa77dd9cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 28/33] fix: aspect of a direction a rounding error below the x
 axis is 0, not 360

---
 dany/flow_directions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 8399bce..18304df 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -765,6 +765,8 @@ class FlowDirections:
         yp = yc[fdir] - yc
         aspect = np.arctan2(yp, xp) * (180 / np.pi)
         aspect = np.where(aspect < 0, aspect + 360, aspect)
+        # tiny negative angles are rounded to a full turn
+        aspect = np.where(aspect >= 360, 0, aspect)
         return aspect.reshape(self._shape)
 
     @property
-- 
2.43.0


From d021bd0bd4b2a2050f9191d16484e2d87caab9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 29/33] fix: flow length of cells given as closed polygons
 counted their first vertex twice

---
 dany/flow_directions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 18304df..69baff9 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -668,7 +668,8 @@ class FlowDirections:
             [x, y] coordinate pair
         """
         shared = []
-        for iv in iverts0:
+        # the first vertex of closed polygons is listed twice
+        for iv in dict.fromkeys(iverts0):
             if iv in iverts1:
                 shared.append(verts[iv])
 
-- 
2.43.0


From ec78b20236e029471549853f7cd93718b8c1d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 30/33] fix: boolean and small integer stream arrays could not
 hold the network numbers

---
 dany/stream_util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 79f66f1..68b8a95 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -159,8 +159,9 @@ class StreamBase:
                 )
             stream_array = self._stream_array
 
-        stream_array = stream_array.copy().ravel()
-        strm_nodes = np.where(stream_array)[0]
+        strm_nodes = np.where(stream_array.ravel())[0]
+        # boolean or small integer arrays cannot hold the reach numbers
+        stream_array = np.zeros(stream_array.size, dtype=int)
 
         # assign an initial reach number to stream cells
         for i in range(1, len(strm_nodes) + 1):
@@ -230,8 +231,9 @@ class StreamBase:
             stream_array = self._stream_array
 
         # 1a) create graph of connectivity via node numbers...
-        stream_array = stream_array.copy().ravel()
-        strm_nodes = np.where(stream_array)[0]
+        strm_nodes = np.where(stream_array.ravel())[0]
+        # boolean or small integer arrays cannot hold the segment numbers
+        stream_array = np.zeros(stream_array.size, dtype=int)
 
         graph = {}
         for node in strm_nodes:
-- 
2.43.0


From 90fe7d2032fbb1613d7e820f23e218f0e8ea4506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 31/33] fix: flow directions of a grid of one cell

---
 dany/flow_directions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 69baff9..55f270f 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -188,7 +188,9 @@ class FlowDirections:
 
         """
         fcells = [
-            list(np.where(slope == np.nanmin(slope))[0]) for slope in slopes
+            # a grid of one cell has no slopes
+            list(np.where(slope == np.nanmin(slope))[0]) if slope.size else []
+            for slope in slopes
         ]
         for ix, node in enumerate(self._fdir):
             if node != -1:
-- 
2.43.0


From 9c351def912a2a0590922c8596f971080b33cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:19 +0000
Subject: [PATCH 32/33] fix: subbasins of no points have the shape of the grid

---
 dany/flow_directions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 55f270f..b588698 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -660,7 +660,7 @@ class FlowDirections:
             subbasins = self.get_watershed_boundary(
                 point, subbasins=subbasins.ravel()
             )
-        return subbasins
+        return subbasins.reshape(self._shape)
 
     def _get_shared_vertex(self, iverts0, iverts1, verts):
         """
-- 
2.43.0


From a28c1d7b9fcf83dbc293e9d6b2708e643d9853fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:27 +0000
Subject: [PATCH 33/33] fix: fill the remaining cells when the last one visited
 is isolated

---
 dany/dem_conditioning.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 26e4010..d656375 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -305,15 +305,13 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     neighbors = _queen_neighbors(modelgrid)
     method = method.lower()
 
+    # no value can reach isolated cells
+    stack = [node for node in stack if len(neighbors[node]) > 0]
     unfilled = []
     nremain = len(stack) + 1
     while stack:
         node = stack.pop()
         nn = neighbors[node]
-        if len(nn) == 0:
-            # isolated cell, no value can reach it
-            continue
-
         elevs = filled_dem[nn]
         if method == "mean":
             elev = np.nanmean(elevs)
-- 
2.43.0

