From ebff75f42a64bbfc00518cab333439852b6b864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 01/73] fix: average empty flow maps as empty bins instead of
 failing

average_flow_data documents that empty data sets are included as empty
bins unless exclude_empty_sets is set, but transfer_data took the minimum
of an empty array.
---
 droplets/average.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index a3d8a27..4154eda 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -202,6 +202,10 @@ def transfer_data(grid, data, shape, spacing, coord_labels=('X', 'Y')):
     xl, yl = coord_labels
     projected_data = grid.copy()
 
+    # An empty data set is projected as empty bins
+    if data.size == 0:
+        return projected_data.ravel()
+
     dx, dy = spacing
     nx, ny = shape
 
-- 
2.43.0


From 8cb9bf9882cb61e8681ace62d252342554d67546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 02/73] fix: honour coord_labels for the origin of averaged
 flow data

---
 droplets/average.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/droplets/average.py b/droplets/average.py
index 4154eda..789cfa6 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -57,8 +57,8 @@ def average_flow_data(input_flow_maps, weights=[],
 
     def get_flowdata(data, grid, spacing):
         ny, nx = grid.shape
-        x0 = grid[0, 0]['X']
-        y0 = grid[0, 0]['Y']
+        x0 = grid[0, 0][xl]
+        y0 = grid[0, 0][yl]
 
         info = {
                 'shape': (nx, ny),
-- 
2.43.0


From 565fe23a8158139b0d4048c1a74d07372ffe4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 03/73] fix: default cutoff radius is the minimum distance
 along both axes

np.min of a map object returned the map itself and next() of it only the
distance along x, while the documentation promises the minimum distance
found between cells in the system.
---
 droplets/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index fe6baa6..7ac0871 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -182,7 +182,7 @@ def get_interface(flow, label, **kwargs):
         if radius == None:
             xdiff = np.diff(np.unique(data[xlabel]))
             ydiff = np.diff(np.unique(data[ylabel]))
-            radius = next(np.min(map(np.min, (xdiff, ydiff))))
+            radius = np.min(np.append(xdiff, ydiff))
 
         return radius
 
-- 
2.43.0


From 477b7875d3e80849b10c7fb433522a06dde479a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 04/73] fix: periodic interface search returns the edges of
 unsorted layers

The edges are positions in the layer sorted along x but were used to look
up records in the order of the input data.
---
 droplets/interface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index 7ac0871..208ce3c 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -316,7 +316,8 @@ def get_interface(flow, label, **kwargs):
             # These are then the full data for the layer of the current y-value.
             # We then sort it, to traverse it in the order of increasing x.
             layer = data[indices]
-            sorted_layer = np.sort(layer, order=xlabel)
+            layer_order = np.argsort(layer[xlabel])
+            sorted_layer = layer[layer_order]
 
             # Limit the search for cell neighbours in the data which is
             # within the possible radius of the layer.
@@ -342,10 +343,9 @@ def get_interface(flow, label, **kwargs):
             # one was found), as indices from the input `sorted_layer`.
             # We then return the corresponding indices from our full
             # dataset.
-            # TODO: This does not account for an unsorted input dataset though??
             if result != None:
                 left, right = result
-                yield [indices[edge] for edge in (left, right)]
+                yield [indices[layer_order[edge]] for edge in (left, right)]
     else:
         # Work with non-zero part of dataset
         indices = np.where(flow.data[label] >= cutoff)[0]
-- 
2.43.0


From 33c0e7b05e76aec0c08e0d9df441e1531bff9557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 05/73] fix: periodic interface search copies the edges of maps
 at any origin

The copies across the periodic boundary assumed that the first column of
the map is at x = 0, so that neighbours across it were missed elsewhere.
---
 droplets/interface.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index 208ce3c..1911cf7 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -291,11 +291,13 @@ def get_interface(flow, label, **kwargs):
         # This means that we can walk through the system and assert that
         # all bins within the cutoff radius are included, even if they are
         # on the other side of the periodic boundary.
-        left_edge_indices = np.where(data[xlabel] <= cutoff_radius)
+        xmin, xmax = np.min(data[xlabel]), np.max(data[xlabel])
+
+        left_edge_indices = np.where(data[xlabel] <= xmin + cutoff_radius)
         left_pbc_data = data[left_edge_indices]
         left_pbc_data[xlabel] += box_x
 
-        right_edge_indices = np.where(data[xlabel] >= box_x - cutoff_radius)
+        right_edge_indices = np.where(data[xlabel] >= xmax - cutoff_radius)
         right_pbc_data = data[right_edge_indices]
         right_pbc_data[xlabel] -= box_x
 
-- 
2.43.0


From bf4a47eeb6a8cc080f054822e223ab8ca4edb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 06/73] fix: get_contact_angle returns (None, None) when no
 angle is found

Without an interface StopIteration, and with an interface of a single
layer UnboundLocalError was raised instead of the documented result.
---
 droplets/interface.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index 1911cf7..bf142b0 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -76,13 +76,20 @@ def get_contact_angle(flow, height, label, **kwargs):
     kwargs['ylims'] = (yfloor, None)
 
     interface = get_interface(flow, label, **kwargs)
-    indices = next(interface)
+    indices = next(interface, None)
+
+    # Break if there is no interface to calculate an angle from
+    if indices is None:
+        return None, None
+
     ymin, xedges = get_coords(flow, indices)
 
     # Break if a floor was specified and no cells are found in that layer
     if floor != None and ymin != yfloor:
         return None, None
 
+    angles = None, None
+
     for indices in interface:
         y, xs = get_coords(flow, indices)
         dy = y - ymin
-- 
2.43.0


From b078fae8bd63f28f61be3be4793d52dc041e7839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 07/73] fix: FlowData refuses single-valued arrays among longer
 ones

All data arrays must be of equal length, but an array of size 1 was
silently repeated for all bins.
---
 droplets/flow.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/droplets/flow.py b/droplets/flow.py
index c118a6e..5f8fa35 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -296,7 +296,13 @@ class FlowData(object):
 
         try:
             for label, bindata in data_list:
-                self.data[label] = np.array(bindata).ravel()
+                values = np.array(bindata).ravel()
+
+                # Arrays of size 1 would otherwise be silently repeated
+                if values.size != sizeof:
+                    raise ValueError
+
+                self.data[label] = values
         except ValueError:
             raise ValueError("added array_like objects not all of equal size.")
 
-- 
2.43.0


From 5b91654831862eea923f919865c5fc5df7833d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 08/73] fix: output headers find the version without the
 command line module

---
 strata/interface/angle.py | 2 +-
 strata/spreading/fit.py   | 2 +-
 strata/utils.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index 3b3edc9..cf9a30c 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -139,7 +139,7 @@ def write_angle_data(path, base, height, times, angles, **kwargs):
     """
 
     def get_header(path, base, height, **kwargs):
-        import strata
+        import strata.strata
         import time
 
         time_str = time.strftime('%c', time.localtime())
diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 13663dc..3825e21 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -192,7 +192,7 @@ def write_fitting_data(path, all_series, lims, out_lims):
     """
 
     def write_header(path, all_series):
-        import strata
+        import strata.strata
         import time
 
         with open(path, 'w') as fp:
diff --git a/strata/utils.py b/strata/utils.py
index 40373f2..c533794 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -423,7 +423,7 @@ def write_module_header(file, module, title):
     """Write a module creation header with title to input file."""
 
     import inspect
-    import strata
+    import strata.strata
     import time
 
     time_str = time.strftime('%c', time.localtime())
-- 
2.43.0


From df906d9cf8a5d15eedaa15efc1bb80906e128151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 09/73] fix: cells straight to the left are sampled at 180
 degrees

---
 droplets/sample.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index 35747ae..7c256ed 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -64,8 +64,7 @@ def sample_per_angle_from(flow, origin, label,
     inds_rlim = (drs >= rmin) & (drs <= rmax)
     data_rlim = flow.data[inds_rlim]
 
-    bin_rads = np.sign(dys[inds_rlim]) \
-        * np.arccos(dxs[inds_rlim]/drs[inds_rlim])
+    bin_rads = np.arctan2(dys[inds_rlim], dxs[inds_rlim])
     bin_degrees = np.mod(np.degrees(bin_rads), 360)
 
     # Apply angular cutoffs to remaining bins
-- 
2.43.0


From b4de5d84b1c4efc2d127c01fc8eceb7e5fb356ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 10/73] fix: angular sampling includes the cells of the last
 interval

---
 droplets/sample.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index 7c256ed..3756b62 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -50,8 +50,7 @@ def sample_per_angle_from(flow, origin, label,
     """
 
     amin = max(0., amin)
-    amax = min(360. - size, amax)
-    out_angles = np.arange(amin, amax + size, size)
+    out_angles = np.arange(amin, min(360. - size, amax) + size, size)
 
     # Collect values and weights in bins to average for each angle
     out_values_bins = [[] for _ in out_angles]
-- 
2.43.0


From 7156c7851bcc521f712e8ba1a86a7ebecc0ef203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 11/73] fix: density gradients use the bin spacing of their own
 axis

---
 strata/view_flowmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index ac48508..10d72db 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -416,14 +416,14 @@ def add_density_gradient(flow):
     from numpy.lib.recfunctions import append_fields
 
     (nx, ny) = flow.shape
-    spacing = flow.spacing
+    dx, dy = flow.spacing
 
     flow.sort()
 
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], dy, dx, edge_order=1
         )
 
     flow.data = append_fields(flow.data, 'grad_rho_x', mass_gradient_x.ravel(),
@@ -447,14 +447,14 @@ def add_evaporation(flow):
     from numpy.lib.recfunctions import append_fields
 
     (nx, ny) = flow.shape
-    spacing = flow.spacing
+    dx, dy = flow.spacing
 
     flow.sort()
 
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], dy, dx, edge_order=1
         )
 
     us = data['U']
-- 
2.43.0


From 59b1d2641375ed6d0917a3272139d76559393a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 12/73] fix: arrows are drawn for all cells with flow along
 either axis

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 10d72db..37ae874 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -185,7 +185,7 @@ def get_quiver_data(data, labels, coord_labels, colour, clim, xlim, ylim):
     us, vs = (data[l] for l in labels)
 
     # Cut bins without flow
-    inds = (us != 0.) & (vs != 0.)
+    inds = (us != 0.) | (vs != 0.)
 
     # Apply limits on coordinates
     inds = inds & cut_system(xs, xlim) & cut_system(ys, ylim)
-- 
2.43.0


From 6a8221ac36655d113e9696f14adef34850000708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 13/73] fix: gmx files with little data are read from the end
 of the header

---
 strata/dataformats/gmx_flow_version_1/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 692be0f..06917bd 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -79,7 +79,7 @@ def read_header(fp):
 
             if pos != -1:
                 header_str += buf[:pos].decode("ascii")
-                offset = buf_size - pos - 1
+                offset = len(buf) - pos - 1
                 fp.seek(-offset, 1)
                 break
             else:
-- 
2.43.0


From 663cf3b50e8b0ee590f0f6d9fbc64cfd0becc8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 14/73] fix: simple binary files which are valid text are
 recognised

---
 strata/dataformats/simple/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 73758c4..e463b94 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -28,8 +28,8 @@ def read_data(filename, decimals=5):
         def is_binary(filename, checksize=512):
             with open(filename, 'r') as fp:
                 try:
-                    fp.read(checksize)
-                    return False
+                    # Raw values are also valid text if they are zero
+                    return '\0' in fp.read(checksize)
                 except UnicodeDecodeError:
                     return True
 
-- 
2.43.0


From 0e55fed3b9dd58965c94bb4a7383235cb455bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 15/73] fix: simple maps with a single row or column have no
 NaN coordinates

---
 strata/dataformats/simple/read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index e463b94..fd9741d 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -99,11 +99,11 @@ def calc_information(X, Y):
             x0 = np.min(xs)
             x1 = np.max(xs)
 
-            try:
-                return (x1 - x0) / (n - 1)
-            except:
+            if n == 1:
                 return 0.0
 
+            return (x1 - x0) / (n - 1)
+
         dx = calc_1d(X, nx)
         dy = calc_1d(Y, ny)
 
-- 
2.43.0


From add0e8314d0ee10db2da2aed3d7694852ead39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 16/73] fix: plaintext maps with a single bin can be read

---
 strata/dataformats/simple/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index fd9741d..3e5b552 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -169,7 +169,7 @@ def read_plainsimple(filename):
     """
 
     def read_file(filename):
-        raw_data = np.genfromtxt(filename, names=True)
+        raw_data = np.atleast_1d(np.genfromtxt(filename, names=True))
 
         # Unpack into dictionary
         data = {}
-- 
2.43.0


From c19137108f6c63e15eb9eaf47246512756051620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 17/73] fix: simple maps are read with the bins in any order

---
 strata/dataformats/simple/read.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 3e5b552..c76bd4b 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -49,6 +49,12 @@ def read_data(filename, decimals=5):
     dx, dy = info['spacing']
     nx, ny = info['shape']
 
+    # The bins can be stored in any order: sort them as the grid
+    ix = np.rint((data['X'] - x0) / (dx or 1.))
+    iy = np.rint((data['Y'] - y0) / (dy or 1.))
+    inds = np.lexsort((iy, ix))
+    data = {l: data[l][inds] for l in data}
+
     x = x0 + dx * np.arange(nx, dtype=np.float64)
     y = y0 + dy * np.arange(ny, dtype=np.float64)
 
-- 
2.43.0


From 0e72b1187abf3b5760aaa5d605c7a6a0e7ffcf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 18/73] fix: gmx files which end early are refused

---
 strata/dataformats/gmx_flow_version_1/read.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 06917bd..9b1c6dd 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -48,11 +48,16 @@ def read_values(fp, num_values, fields):
         'V': np.float32,
     }
 
-    return {
+    data = {
         l: np.fromfile(fp, dtype=dtypes[l], count=num_values)
         for l in fields
     }
 
+    if any(data[l].size != num_values for l in fields):
+        raise ValueError("File ended before all data was read")
+
+    return data
+
 def read_header(fp):
     """Read header information and forward the pointer to the data."""
 
@@ -77,7 +82,9 @@ def read_header(fp):
 
             pos = buf.find(b'\0')
 
-            if pos != -1:
+            if not buf:
+                raise ValueError("File ended before the header did")
+            elif pos != -1:
                 header_str += buf[:pos].decode("ascii")
                 offset = len(buf) - pos - 1
                 fp.seek(-offset, 1)
-- 
2.43.0


From 37bbd6629be619ab9f365be27e6eec78b54e8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 19/73] fix: recentered maps get the right shape despite
 floating point division

---
 strata/average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 6d18641..6ddeabd 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -227,7 +227,7 @@ def recenter_maps(data_maps, recenter_values):
     # for all final maps we can cheat a little bit
     origin = [xmin, np.min(data_subset['Y'])]
     spacing = [spacing, np.mean(np.diff(np.unique(data_subset['Y'])))]
-    nx = int((xmax - xmin)/spacing[0]) + 1
+    nx = int(np.round((xmax - xmin)/spacing[0])) + 1
     num_bins = data_subset['X'].size
     shape = [nx, num_bins // nx]
 
-- 
2.43.0


From 9cc00385ee138d286a99608ef12d4fb13764f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 20/73] fix: averaging maps quietly does not fail at the end

---
 strata/average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 6ddeabd..5826aa6 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -175,7 +175,8 @@ def average(base, output, group=1, rolling=False, **kwargs):
         if not quiet:
             progress.update(i+1)
 
-    progress.finish()
+    if not quiet:
+        progress.finish()
 
 
 def recenter_maps(data_maps, recenter_values):
-- 
2.43.0


From f9ac45e4c610ada2cc31b89c15218f9b7f5ed35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 21/73] fix: averaged maps keep their bins when cut,
 recentered, combined or supersampled

---
 strata/average.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/strata/average.py b/strata/average.py
index 5826aa6..4e67c7e 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -145,19 +145,19 @@ def average(base, output, group=1, rolling=False, **kwargs):
             else:
                 raise ValueError("Invalid position to recenter around ('%s'). Must be 'com', 'left' or 'right'" % recenter)
 
-            group_data, info = recenter_maps(group_data, xs_edges)
+            group_data, _ = recenter_maps(group_data, xs_edges)
 
         avg_data = module.average_data(*group_data)
+        info = get_output_info(avg_data, info['spacing'])
 
         if combine != (None, None):
-            avg_data, _ = module.combine_bins(avg_data, info, nx, ny)
+            avg_data, combined_info = module.combine_bins(avg_data, info, nx, ny)
+
+            # The system still begins at the edge of the first bin
+            info = dict(combined_info, origin=info['origin'])
 
         if supersample != None:
             data = [(l, avg_data[l]) for l in avg_data.keys()]
-            info = {
-                'shape': info['shape'],
-                'spacing': info['spacing'],
-            }
 
             flow = FlowData(*data, info=info)
 
@@ -165,11 +165,21 @@ def average(base, output, group=1, rolling=False, **kwargs):
                 flow, supersample, weights=[('U', 'M'), ('V', 'M'), ('T', 'N')]
             )
 
+            # Data is output in order of X and Y
+            supersampled_data.data.sort(order=['X', 'Y'])
+
             avg_data = {
                 l: supersampled_data.data[l]
                 for l in supersampled_data.properties
             }
 
+            info = {
+                'shape': supersampled_data.shape,
+                'spacing': supersampled_data.spacing,
+                'origin': info['origin'],
+                'num_bins': supersampled_data.num_bins
+            }
+
         write(fn_out, avg_data, info)
 
         if not quiet:
@@ -179,6 +189,20 @@ def average(base, output, group=1, rolling=False, **kwargs):
         progress.finish()
 
 
+def get_output_info(data, spacing):
+    """Return information about the grid of a map with the origin at its edge."""
+
+    xs, ys = (np.unique(data[l]) for l in ('X', 'Y'))
+    dx, dy = spacing
+
+    return {
+        'origin': (xs[0] - 0.5*dx, ys[0] - 0.5*dy),
+        'spacing': (dx, dy),
+        'shape': (xs.size, ys.size),
+        'num_bins': xs.size * ys.size
+    }
+
+
 def recenter_maps(data_maps, recenter_values):
     """Recenter input data around x values and return the intersection."""
 
-- 
2.43.0


From 3be03374b0701f2139278a5a00b280a477044231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 22/73] fix: viewed and averaged interfaces can be saved

---
 strata/interface/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/interface/view.py b/strata/interface/view.py
index 60f2f82..7da7821 100644
--- a/strata/interface/view.py
+++ b/strata/interface/view.py
@@ -82,7 +82,8 @@ def view_interfaces(base, average=1, save_xvg='', **kwargs):
             continue
 
         if save_xvg != '':
-            write_interface_data(fnout, interface, fngroup, kwargs)
+            coords = {'X': np.array(interface), 'Y': np.array(interface.index)}
+            write_interface_data(fnout, coords, fngroup, kwargs)
 
         if save_fig != None:
             kwargs['save_fig'] = next(fnfig)
-- 
2.43.0


From e60a6ee6041037fc5e24fc99e9562526c77cda49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 23/73] fix: edges crossing the periodic boundary are followed
 at any origin of the system

---
 strata/spreading/collect.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index d7ae38e..894ae36 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -239,7 +239,8 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
     The boundary that it crossed is that which is furthest away from its new
     position, by which we can infer how to adjust box-relative position to
-    the system-absolute.
+    the system-absolute. Since the crossing moves it to the other side of
+    the box it is the one opposite to the direction of that jump.
 
     Note that this function assumes that at all times, the system-absolute
     position of the left edge is smaller (along x) than the system-absolute
@@ -263,10 +264,10 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
     """
 
-    def get_pbc_edge_multiplier_addition(x_current, box_x):
+    def get_pbc_edge_multiplier_addition(x_current, x_prev):
         """Return -1 if the left edge was crossed, +1 if the right edge."""
 
-        if x_current % box_x > abs(box_x - x_current % box_x):
+        if x_current > x_prev:
             return -1
         else:
             return +1
@@ -284,9 +285,6 @@ def check_and_update_periodic_info(pbc_info, box_x,
     pbc_multiplier_left = pbc_info.pbc_multiplier_left
     pbc_multiplier_right = pbc_info.pbc_multiplier_right
 
-    xleft = xleft_current + pbc_multiplier_left * box_x
-    xright = xright_current + pbc_multiplier_right * box_x
-
     try:
         crossing_event = detect_crossing_event(xleft_current, xright_current,
             pbc_info.xleft_prev, pbc_info.xright_prev)
@@ -303,11 +301,11 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
             if dx_left > dx_right:
                 pbc_multiplier_left += get_pbc_edge_multiplier_addition(
-                    xleft, box_x
+                    xleft_current, pbc_info.xleft_prev
                 )
             else:
                 pbc_multiplier_right += get_pbc_edge_multiplier_addition(
-                    xright, box_x
+                    xright_current, pbc_info.xright_prev
                 )
 
     pbc_info = PeriodicInfo(
-- 
2.43.0


From 3a7679b8cd07e4ae3b9fa35162cebf9958a380b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 24/73] fix: periodic information is kept when interface layers
 appear or disappear

---
 strata/interface/collect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index d419846..03567c7 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -217,7 +217,9 @@ def transfer_values(xs, yindex_data, yindex_data_new):
     jmin = get_yindex_for_value(yindex_data_new.ymin, yindex_data)
     jmax = get_yindex_for_value(yindex_data_new.ymax, yindex_data)
 
-    xs_new[imin:imax + 1] = xs[jmin:jmax + 1]
+    # Set one by one since the values may be tuples
+    for i, x in zip(range(imin, imax + 1), xs[jmin:jmax + 1]):
+        xs_new[i] = x
 
     return xs_new
 
-- 
2.43.0


From 60f3e4bf094b049616c8fccf3e5799a04a405c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 25/73] fix: interfaces of a single layer can be collected

---
 strata/interface/collect.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index 03567c7..7416ae2 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -115,9 +115,10 @@ def get_interface_coordinates(flow, label, pbc_info_per_y, yindex_data,
     xs_right = flow.data[xl][right]
 
     box_x, _ = flow.size()
+    _, dy = flow.spacing
 
     interface, pbc_info_per_y, yindex_data = update_interface_with_pbc_info(
-        ys, xs_left, xs_right, box_x, pbc_info_per_y, yindex_data
+        ys, xs_left, xs_right, box_x, pbc_info_per_y, yindex_data, dy
     )
 
     xs = interface['X']
@@ -136,15 +137,16 @@ def get_interface_coordinates(flow, label, pbc_info_per_y, yindex_data,
 # Data for indexing a vector for floating point y-values.
 YIndexData = namedtuple("YIndexData", ["ymin", "ymax", "dy", "num"])
 
-def get_yindex_data(ys):
+def get_yindex_data(ys, dy=None):
     """Return the `YIndexData` corresponding to the input valuesself.
 
     Note that this assumes that all the values in the input array are
-    evenly spaced.
+    evenly spaced. A single value has no spacing: `dy` is used for it.
 
     """
 
-    dy = np.unique(np.diff(ys))[0]
+    if ys.size > 1:
+        dy = np.unique(np.diff(ys))[0]
 
     return YIndexData(
         ymin=np.min(ys),
@@ -270,10 +272,10 @@ def fill_pbc_info_for_empty_y_values(pbc_info_per_y):
     return pbc_info_per_y
 
 def update_interface_with_pbc_info(ys, xs_left, xs_right, box_x,
-        old_pbc_info_per_y, old_yindex_data):
+        old_pbc_info_per_y, old_yindex_data, dy=None):
     """Check whether the interface jumps for any y-value and update pbc info."""
 
-    new_yindex_data = get_yindex_data(ys)
+    new_yindex_data = get_yindex_data(ys, dy)
     new_pbc_info_per_y = transfer_values(
         old_pbc_info_per_y, old_yindex_data, new_yindex_data
     )
-- 
2.43.0


From 899be6dccf7aab71ebc58160582654e56a86d974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 26/73] fix: every spreading output gets its impact and column
 header

---
 strata/spreading/collect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 894ae36..e1632d4 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -109,6 +109,7 @@ def collect(base, **kwargs):
         progress.start()
 
     pbc_info = init_periodic_info()
+    write_spreading.impact = False
 
     for i, (data, info, meta) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
-- 
2.43.0


From b5f2e04ecd5d1ee5bb0a989a5ea98a1d378c04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 27/73] fix: spreading times count maps without spreading after
 the impact

---
 strata/spreading/collect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index e1632d4..7e38dea 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -143,6 +143,8 @@ def collect(base, **kwargs):
                     save, time, radius, left_absolute, right_absolute, cur_path
                 )
 
+        # Time passes from the impact also over maps without spreading
+        if times:
             time += dt
 
         if not quiet:
-- 
2.43.0


From 406fcc9c1dd2340b925eb2bf946e8a5d6d8de99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 28/73] fix: spreading files with a single row are read

---
 strata/spreading/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index cde7325..5bab2d1 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -184,7 +184,7 @@ def read_spreading_data(*files):
         def read_plain_file(filename):
             """Read a simple file, comments starting with '#'."""
 
-            data = np.loadtxt(filename, unpack=True, comments='#')
+            data = np.loadtxt(filename, unpack=True, comments='#', ndmin=2)
             times = data[0]
             all_series = [get_series(radii, times, filename, i+1)
                     for i, radii in enumerate(data[1:])]
-- 
2.43.0


From 09ed6308c09231134c1504bcb42362fb7f1b038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 29/73] fix: spreading curves are drawn also where matplotlib
 has no hold

---
 strata/spreading/fit.py  | 1 -
 strata/spreading/view.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 3825e21..336ec7e 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -170,7 +170,6 @@ def plot_fitting_data(fit_data, data, **kwargs):
 
     """
 
-    plt.hold(True)
     for s_fit, s_data in zip(fit_data, data):
         fit_label = s_fit.name.strip(s_data.name).strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index 5bab2d1..ab21dd2 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -349,6 +349,5 @@ def plot_spreading_data(all_series, **kwargs):
 
     """
 
-    plt.hold(True)
     for s in all_series:
         plt.plot(s.index, s.values, **kwargs)
-- 
2.43.0


From ea734a363fcbc80e213e058f47ccc95775d242ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 30/73] fix: spreading can be viewed without saving the data

---
 strata/spreading/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index ab21dd2..24b2d50 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -50,7 +50,7 @@ def view_spreading(files, **kwargs):
             tau=kwargs.pop('tau', 1.), R=kwargs.pop('R', 1.)
             )
 
-    save_path = kwargs.pop('save_xvg')
+    save_path = kwargs.pop('save_xvg', None)
     if save_path:
         try:
             write_spreading_data(save_path, synced_data)
-- 
2.43.0


From ad4e5b54a7d18afa59ffda350a039957689fabef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 31/73] fix: the radius of the neighbour search is reported in
 spreading files

---
 strata/spreading/collect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 7e38dea..8be3def 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -365,7 +365,7 @@ def write_header(output_path, input_base, kwargs):
                 % (os.path.realpath(input_base),
                     kwargs.get('begin', None), kwargs.get('end', None),
                     kwargs.get('floor', None), kwargs.get('dt', 1.),
-                    kwargs.get('cutoff', None), kwargs.get('include_radius', 1.),
+                    kwargs.get('cutoff', None), kwargs.get('cutoff_radius', 1.),
                     kwargs.get('cutoff_bins', 1)))
 
         fp.write(header + inputs)
-- 
2.43.0


From 604acf21c79343c8866a682d2be79c0b156cad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 32/73] fix: sampling the viscous dissipation keeps the order
 of the map

---
 strata/sample_average.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strata/sample_average.py b/strata/sample_average.py
index 660ce81..b98f1ec 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -176,6 +176,8 @@ def sample_value(flow, label, cutoff, cutoff_label, sum, viscosity):
     if label == 'inertial_energy':
         sample_data = sample_inertial_energy(flow).ravel()
     elif label == 'visc_diss':
+        # The calculation sorts the data, which has to stay in order
+        flow = flow.copy()
         sample_data = sample_viscous_dissipation(flow, viscosity).ravel()
     elif label == 'flow_angle':
         # If we are sampling the flow angle mean we do things a bit
-- 
2.43.0


From 1c58caec9d999d59b2e97ff2e27964b2ec7cf752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 33/73] fix: an unknown cutoff label disables the cutoff of
 samples

---
 strata/sample_average.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/strata/sample_average.py b/strata/sample_average.py
index b98f1ec..f580fc6 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -189,15 +189,16 @@ def sample_value(flow, label, cutoff, cutoff_label, sum, viscosity):
         sample_data = flow.data[label]
 
     if cutoff_label != None:
-        if cutoff == None:
-            cutoff = 0.5*(np.max(flow.data[cutoff_label]) + np.min(flow.data[cutoff_label]))
-
         try:
-            inds = flow.data[cutoff_label] >= cutoff
-            sample_data = sample_data[inds]
-        except KeyError:
+            cutoff_data = flow.data[cutoff_label]
+        except (KeyError, ValueError):
             print("[WARNING] Bad label: cutoff label '%s' not in system, disabling cutoff"
                     % cutoff_label)
+        else:
+            if cutoff == None:
+                cutoff = 0.5*(np.max(cutoff_data) + np.min(cutoff_data))
+
+            sample_data = sample_data[cutoff_data >= cutoff]
 
     if not sum:
         if label == 'flow_angle':
-- 
2.43.0


From ad653b23b17d1895e03555248c28eb8aba84439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 34/73] fix: the time step is reported in sample files

---
 strata/sample_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/sample_average.py b/strata/sample_average.py
index f580fc6..fc9f00e 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -95,7 +95,7 @@ def sample_average_files(base, labels, output=None, sum=False, dt=1.,
 
     if output:
         try:
-            prepare_output(output, labels, cutoff, cutoff_label, kwargs.copy(), fopts)
+            prepare_output(output, labels, cutoff, cutoff_label, dict(kwargs, dt=dt), fopts)
         except PermissionError:
             print("[WARNING] Output disabled: could not open '%s' for writing."
                 % output)
-- 
2.43.0


From 785682c36f3e07c4418584e3fd893463927ff04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 35/73] fix: the contact line can be extracted quietly

---
 strata/contact_line_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 7d9c66e..fc5be76 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -268,6 +268,7 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
         return (nx, ny)
 
     quiet = kwargs.pop('quiet', False)
+    progress = None
     if not quiet:
         if rolling:
             length = len(filenames) - average + 1
-- 
2.43.0


From 53491135ea3cd7a98b283646440a3b32070bfc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 36/73] fix: extracted contact lines are written as complete
 maps

---
 strata/contact_line_analysis.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index fc5be76..05f6b62 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -69,7 +69,13 @@ def extract_contact_line_bins(base, output, average=1,
             fuse_edges(avg_flow_per_edge, spacing)
 
         recombined_flow_data = combine_flow_data(avg_flow_per_edge, spacing)
-        write(next(fnout), recombined_flow_data.data)
+        info = {
+            'shape': recombined_flow_data.shape,
+            'spacing': recombined_flow_data.spacing,
+            'origin': recombined_flow_data.origin,
+            'num_bins': recombined_flow_data.num_bins
+        }
+        write(next(fnout), recombined_flow_data.data, info)
 
 
 """Fuse the left and right edges in the center."""
@@ -424,7 +430,14 @@ def combine_flow_data(avg_flow, spacing):
 
     ny, nx = grid.shape
 
-    return FlowData(*combined_data, info={'spacing': spacing, 'shape': (nx, ny)})
+    info = {
+        'spacing': spacing,
+        'shape': (nx, ny),
+        'num_bins': nx * ny,
+        'origin': (grid['X'].min(), grid['Y'].min())
+    }
+
+    return FlowData(*combined_data, info=info)
 
 
 def add_adjusted_flow(bins, direction, info):
-- 
2.43.0


From c6d582cafe4e3c419b2c789c19421b7bd8e636f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 37/73] fix: the shape of contact lines is found for any bins

---
 strata/contact_line_analysis.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 05f6b62..7b74e2d 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -447,20 +447,18 @@ def add_adjusted_flow(bins, direction, info):
 
     """
 
-    def get_cut_shape(data, dx, dy):
+    def get_cut_shape(data, dy):
         # After sorting, the data is in y-major, x-minor order
-        ys = data['Y']
-        y0 = ys[0]
-        nx = 1
-
-        while (ys[nx] >= y0 - 0.5 * dy) and (ys[nx] < y0 + 0.5 * dx):
-            nx += 1
+        if data.size == 0:
+            return 0, 0
 
+        ys = data['Y']
+        nx = int(np.sum(ys < ys[0] + 0.5 * dy))
         ny = data.size // nx
 
         return nx, ny
 
-    dx, dy = info['spacing']
+    _, dy = info['spacing']
 
     xadj, data = adjust_cell_coordinates(bins, direction)
 
@@ -469,7 +467,7 @@ def add_adjusted_flow(bins, direction, info):
     flow = FlowData(*adj_data, info=info)
     flow.sort()
 
-    nx, ny = get_cut_shape(flow.data, dx, dy)
+    nx, ny = get_cut_shape(flow.data, dy)
 
     flow.origin = xadj
     flow.shape = (nx, ny)
-- 
2.43.0


From d5865a9a241151bc8c478280c8794cfebfea368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 38/73] fix: maps without a contact line do not move the
 averaged edges

---
 strata/contact_line_analysis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 7b74e2d..f2d1dee 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -311,10 +311,12 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
         xadj_per_edge = []
 
         for data_list in [left, right]:
-            coord_adjs, flow_data = np.array(data_list).T.tolist()
+            flow_data = [flow for _, flow in data_list]
 
-            # Get mean adjusting x coordinate of edge
-            xadj_mean = np.mean(coord_adjs, axis=0)[0]
+            # Get mean adjusting x coordinate of edge, for maps where it exists
+            xadj_mean = np.mean([
+                xadj for (xadj, _), flow in data_list if flow.data.size > 0
+            ])
             xadj_per_edge.append(xadj_mean)
 
             avg_flow_per_edge.append(
-- 
2.43.0


From 3bfc042492df01cc7db1b7507e7f155d85627389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 39/73] fix: merged bins are weighted also where a value is
 zero

---
 strata/contact_line_analysis.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index f2d1dee..2aa772c 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -383,14 +383,13 @@ def combine_flow_data(avg_flow, spacing):
             grid.ravel(), left.ravel(), right.ravel()
         ):
             for (l, w) in weights:
-                if (left_bin[l] != 0.0) and (right_bin[l] != 0.0):
-                    total_weight = left_bin[w] + right_bin[w]
+                total_weight = left_bin[w] + right_bin[w]
 
-                    if total_weight != 0.0:
-                        bin[l] = (
-                            left_bin[w] * left_bin[l]
-                            + right_bin[w] * right_bin[l]
-                            ) / total_weight
+                if total_weight != 0.0:
+                    bin[l] = (
+                        left_bin[w] * left_bin[l]
+                        + right_bin[w] * right_bin[l]
+                        ) / total_weight
 
                 elif left_bin[l] != 0.0:
                     bin[l] = left_bin[l]
-- 
2.43.0


From e86e1a0a7e93619306e7375abb7c879a4224701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 40/73] fix: contact line edges can be sampled

---
 strata/contact_line_analysis.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 2aa772c..7c1424d 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -189,17 +189,16 @@ def sample_contact_line_edges(base, labels, save=None,
                     ]
 
                 means = [t[0] for t in means_and_stds]
-                # stds = [t[1] for t in means_and_stds]
 
                 if sum:
                     value = np.sum(means)
                 else:
                     value = np.mean(means)
 
-                # try:
-                    # std = np.mean([t[1] for t in means_and_stds])
-                # except:
-                    # std = None
+                try:
+                    std = np.mean([t[1] for t in means_and_stds])
+                except TypeError:
+                    std = None
 
                 samples[j].append([value, std])
             except Exception as exc:
-- 
2.43.0


From 6769964af1a3642008e34420b701ebc7337e7eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 41/73] fix: the time step is reported in contact line sample
 files

---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 7c1424d..c2f3b41 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -148,7 +148,7 @@ def sample_contact_line_edges(base, labels, save=None,
 
     if save:
         try:
-            prepare_output(save, labels, cutoff, cutoff_label, average, rolling, kwargs.copy(), fopts)
+            prepare_output(save, labels, cutoff, cutoff_label, average, rolling, dict(kwargs, dt=dt), fopts)
         except PermissionError:
             print("[WARNING] Output disabled: could not open '%s' for writing."
                 % save)
-- 
2.43.0


From 8390c841d9ba13b4a39f794bd9875639d8081aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 42/73] fix: extracted contact line bins are ordered along both
 axes

---
 strata/contact_line_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index c2f3b41..2748971 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -409,7 +409,8 @@ def combine_flow_data(avg_flow, spacing):
         grid['X'] -= 0.5 * dx
         grid['Y'] -= 0.5 * dy
 
-        grid.sort(order=['X', 'Y'])
+        # Sort all bins in x-major, y-minor order
+        grid = np.sort(grid.ravel(), order=['X', 'Y'])
 
         return [(l, grid[l]) for l in grid.dtype.names]
 
-- 
2.43.0


From 3ae9195167a3308616366d9998b19aaa6f0a6d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 43/73] fix: height maps are drawn by default and without
 colour limits

---
 strata/view_flowmap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 37ae874..866e6f0 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -219,7 +219,7 @@ def plot_quiver(xs, ys, us, vs, weights, pivot, vlim, **kwargs):
 
     return fig
 
-def view_flowmap_2d(*files, label='M', type='heightmap',
+def view_flowmap_2d(*files, label='M', type='height',
         cutoff_label='M', cutoff=None,
         **kwargs):
     """View bin data of input files.
@@ -304,8 +304,9 @@ def create_figure(**kwargs):
 def height(data, info, label, **kwargs):
     """Draw a heightmap using a 2d histogram."""
 
-    cmin, cmax = (float(c) if c != None else c for c in kwargs['clim'])
-    vmin, vmax = (float(v) if v != None else v for v in kwargs['vlim'])
+    no_limits = (None, None)
+    cmin, cmax = (float(c) if c != None else c for c in kwargs.get('clim', no_limits))
+    vmin, vmax = (float(v) if v != None else v for v in kwargs.get('vlim', no_limits))
 
     xs, ys = (data[l] for l in kwargs['coord_labels'])
 
@@ -327,7 +328,7 @@ def contour(data, info, label, **kwargs):
     colors = kwargs.get('contour_colours', None)
     filled = kwargs.get('filled', False)
 
-    vmin, vmax = (float(v) if v != None else v for v in kwargs['vlim'])
+    vmin, vmax = (float(v) if v != None else v for v in kwargs.get('vlim', (None, None)))
     if (vmin != None or vmax != None) and levels == None:
         data[label] = data[label].clip(vmin, vmax)
 
-- 
2.43.0


From 36c53f2da9ef30b62c01f074685dbeafa559bfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 44/73] fix: the viscous dissipation is drawn for every input
 file

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 866e6f0..e4b3960 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -264,7 +264,7 @@ def view_flowmap_2d(*files, label='M', type='height',
         if label == 'flow':
             flow.data = add_absolute_flow(flow.data)
 
-        if label == 'visc_diss':
+        if label in ('visc_diss', 'visc'):
             label = 'visc'
             add_viscous_dissipation(flow, viscosity=8.77e-4)
 
-- 
2.43.0


From 8de1e5bc577d55d1b77aa63478b0deafc63403c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 45/73] fix: contours are drawn on the grid of the map

---
 strata/view_flowmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index e4b3960..5268fc7 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -332,7 +332,10 @@ def contour(data, info, label, **kwargs):
     if (vmin != None or vmax != None) and levels == None:
         data[label] = data[label].clip(vmin, vmax)
 
-    grid_data = data.reshape(info['shape'])
+    # Sort the bins in x-major, y-minor order like the shape
+    xlabel, ylabel = kwargs['coord_labels']
+    order = np.lexsort((data[ylabel], data[xlabel]))
+    grid_data = data[order].reshape(info['shape'])
     xs, ys = (grid_data[l] for l in kwargs['coord_labels'])
     cs = grid_data[label]
 
-- 
2.43.0


From 1aa8016e24f44c7b9b17d6309aea585903971301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 46/73] fix: the time step is reported in interface sample
 files

---
 strata/interface/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/interface/sample.py b/strata/interface/sample.py
index 45b83ab..a0ce8e2 100644
--- a/strata/interface/sample.py
+++ b/strata/interface/sample.py
@@ -170,7 +170,7 @@ def write_header(output_path, input_base, variable, dt, kwargs):
                 "# Time (ps) %s\n"
                 % (os.path.realpath(input_base), variable,
                     kwargs.get('begin', None), kwargs.get('end', None),
-                    kwargs.get('dt', 1.), ylabel
+                    dt, ylabel
                     ))
 
         fp.write(inputs)
-- 
2.43.0


From 1a09d20a63235360d8d447a4cf96bc0f148da448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 47/73] fix: the time step is reported in contact angle files

---
 strata/interface/angle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index cf9a30c..77ceb75 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -93,7 +93,7 @@ def interface_contact_angle(base, fit=False, height=None, delta_t=1., save_xvg=N
 
     if save_xvg:
         write_angle_data(save_xvg, base, height, times, contact_angles,
-            begin=fopts['begin'], end=fopts['end'])
+            begin=fopts['begin'], end=fopts['end'], delta_t=delta_t)
 
     if kwargs.get('show', True) or kwargs.get('save_fig', None):
         kwargs.setdefault('axis', 'tight')
-- 
2.43.0


From aa32afe39e004ef7c937a77a27d2eab4f8f9ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 48/73] fix: fits are drawn with all digits of their parameters

---
 strata/spreading/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 336ec7e..ec0f0e5 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -171,7 +171,7 @@ def plot_fitting_data(fit_data, data, **kwargs):
     """
 
     for s_fit, s_data in zip(fit_data, data):
-        fit_label = s_fit.name.strip(s_data.name).strip()
+        fit_label = s_fit.name[len(s_data.name):].strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
         plt.plot(s_fit.index, s_fit.values, label=fit_label, **kwargs)
 
-- 
2.43.0


From 1c3fcb2dd771c9d652737eb7c56d6c3ae7f7a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 49/73] fix: the interface collect command ends without an
 error

---
 strata/strata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/strata.py b/strata/strata.py
index 0c7439a..7be1845 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -495,7 +495,7 @@ def interface_collect_cli(base, output, **kwargs):
 
     set_none_to_inf(kwargs)
     if kwargs['recenter'] == 'off': kwargs['recenter'] = None
-    xs, ys = collect_interfaces(base, output, **kwargs)
+    collect_interfaces(base, output, **kwargs)
 
 
 # Interface viewing wrapper
-- 
2.43.0


From cd58776c1948a57c5707e6c3fcba598ab8aa2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 50/73] fix: measure the height of a circular segment from its
 own base, not from y = 0

---
 strata/interface/angle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index 77ceb75..961de9b 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -230,5 +230,6 @@ def measure_angle(edge, direction, height):
 def fit_angle_from_segment(left, right):
     chord = right['X'][0] - left['X'][0]
     height = np.mean([np.max(left['Y']), np.max(right['Y'])])
+    height -= np.mean([left['Y'][0], right['Y'][0]])
 
     return 2*np.degrees(np.arctan(2*height/chord))
-- 
2.43.0


From 8491b511340f2e95873f03e3e82015c50c20a308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 51/73] fix: write undefined contact angles as 0, as documented
 for write_angle_data

---
 strata/interface/angle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index 961de9b..9016812 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -183,6 +183,7 @@ def write_angle_data(path, base, height, times, angles, **kwargs):
         data_axes.append(angles['fit'])
 
     data = np.array(data_axes).T
+    data[np.isnan(data)] = 0
 
     header += legend
     np.savetxt(path, data, fmt='%.3f', delimiter=' ',
-- 
2.43.0


From d6470bdd2412075c1dd7cd0587a7a230cd91c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 52/73] fix: name the map an interface was collected from as
 its input file, not the interface

---
 strata/interface/collect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index 7416ae2..542eaa0 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -66,7 +66,7 @@ def collect_interfaces(base, output, recenter=None, **kwargs):
             flow, label, pbc_info_per_y, yindex_data, recenter, **kwargs
         )
 
-        write_interface_data(fnout, interface, [fnout], kwargs, recenter)
+        write_interface_data(fnout, interface, [fn], kwargs, recenter)
 
         if not quiet:
             progress.update(i + 1)
-- 
2.43.0


From 54ae8064816f50fbaa3e4632a9ba4fffea0e46ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 53/73] fix: figures have the size in pixels which is asked for

---
 strata/view_flowmap.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 5268fc7..ee109f0 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -40,6 +40,9 @@ def view_flowfields(*files, labels=('U', 'V'), cutoff_label='M', cutoff=None,
 
     kwargs.setdefault('axis', 'scaled')
 
+    # Decorating the graph consumes the dpi option
+    kwargs['figure_dpi'] = kwargs.get('dpi', 150)
+
     # Order the data labels
     coord_labels = kwargs.get('coord_labels', ['X', 'Y'])
 
@@ -258,6 +261,9 @@ def view_flowmap_2d(*files, label='M', type='height',
     kwargs.setdefault('noaxis', True)
     kwargs.setdefault('coord_labels', ('X', 'Y'))
 
+    # Decorating the graph consumes the dpi option
+    kwargs['figure_dpi'] = kwargs.get('dpi', 150)
+
     for i, (data, info, _) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
 
@@ -285,13 +291,13 @@ def view_flowmap_2d(*files, label='M', type='height',
 
 
 def create_figure(**kwargs):
-    dpi = kwargs.get('dpi', 300)
-
     try:
         width, height = kwargs.get('dims')
     except Exception:
-        fig = plt.figure(dpi=dpi)
+        fig = plt.figure(dpi=300)
     else:
+        # The figure is saved with this dpi, so its size is in these pixels
+        dpi = kwargs.get('figure_dpi', 150)
         size = (width / dpi, height / dpi)
         fig = plt.figure(figsize=size, dpi=dpi)
 
-- 
2.43.0


From 433f3b591fd3ac3c2f874c8f97de14d23e9c38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:00 +0000
Subject: [PATCH 54/73] fix: stream lines are drawn without a cutoff, without a
 colour and for small maps

---
 strata/view_flowmap.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index ee109f0..4c7f130 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -93,7 +93,10 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     xmin, xmax = xlim
     ymin, ymax = ylim
 
-    mask = (data[cutoff_label] < cutoff_value)
+    if cutoff_label != None and cutoff_value != None:
+        mask = (data[cutoff_label] < cutoff_value)
+    else:
+        mask = np.zeros(data.shape, dtype=bool)
 
     data = np.ma.array(data, mask=mask)
 
@@ -125,7 +128,7 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     u = data['U']
     v = data['V']
 
-    weights = data[colour]
+    weights = data[colour] if colour in data.dtype.names else None
     line_weights = data['M']
 
     return x, y, u, v, weights, line_weights
@@ -137,8 +140,8 @@ def plot_streamlines(xs, ys, us, vs, weights, line_weights=None, **kwargs):
 
     ny, nx = us.shape
 
-    density_x = nx // 30
-    density_y = ny // 30
+    density_x = max(nx // 30, 1)
+    density_y = max(ny // 30, 1)
 
     linewidth = 1.5 * line_weights / line_weights.max()
 
-- 
2.43.0


From 7ae85368c1accf36eb726b660356290650fef6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:00 +0000
Subject: [PATCH 55/73] fix: stream lines are drawn on the grid of the bins, in
 the order and limits of the coordinates

---
 strata/view_flowmap.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 4c7f130..55e0038 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -82,17 +82,17 @@ def view_flowfields(*files, labels=('U', 'V'), cutoff_label='M', cutoff=None,
             break
 
 def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
-    x0, y0 = flow.origin
     dx, dy = flow.spacing
 
-    data = flow.data
-
     cutoff_label, cutoff_value = clim
 
     xlabel, ylabel = coord_labels
     xmin, xmax = xlim
     ymin, ymax = ylim
 
+    # Sort the bins in x-major, y-minor order
+    data = flow.data[np.lexsort((flow.data[ylabel], flow.data[xlabel]))]
+
     if cutoff_label != None and cutoff_value != None:
         mask = (data[cutoff_label] < cutoff_value)
     else:
@@ -100,10 +100,10 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
 
     data = np.ma.array(data, mask=mask)
 
-    x0 = max(data['X'].min(), xmin if xmin else -np.inf)
-    x1 = min(data['X'].max(), xmax if xmax else np.inf)
-    y0 = max(data['Y'].min(), ymin if ymin else -np.inf)
-    y1 = min(data['Y'].max(), ymax if ymax else np.inf)
+    x0 = max(data[xlabel].min(), xmin if xmin != None else -np.inf)
+    x1 = min(data[xlabel].max(), xmax if xmax != None else np.inf)
+    y0 = max(data[ylabel].min(), ymin if ymin != None else -np.inf)
+    y1 = min(data[ylabel].max(), ymax if ymax != None else np.inf)
 
     inds = (data[xlabel] >= x0) \
         & (data[xlabel] <= x1) \
@@ -112,13 +112,13 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
 
     data = data[inds]
 
-    x0 = data[xlabel].min()
-    x1 = data[xlabel].max()
-    y0 = data[ylabel].min()
-    y1 = data[ylabel].max()
+    # All bins of the range are on the grid, also those which are masked
+    xs, ys = (data[label].data for label in coord_labels)
+    x0, x1 = xs.min(), xs.max()
+    y0, y1 = ys.min(), ys.max()
 
-    nx = int((x1 - x0) / dx) + 2
-    ny = int((y1 - y0) / dy) + 2
+    nx = int(round((x1 - x0) / dx)) + 1
+    ny = int(round((y1 - y0) / dy)) + 1
 
     data = data.reshape(nx, ny).transpose()
 
-- 
2.43.0


From 37e640f82b58de3799519f61c3f33be7dc9bb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:00 +0000
Subject: [PATCH 56/73] fix: stream lines follow the flow of the given labels

---
 strata/view_flowmap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 55e0038..85c520f 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -125,8 +125,7 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     x = x0 + np.arange(nx) * dx
     y = y0 + np.arange(ny) * dy
 
-    u = data['U']
-    v = data['V']
+    u, v = (data[label] for label in labels)
 
     weights = data[colour] if colour in data.dtype.names else None
     line_weights = data['M']
-- 
2.43.0


From e7f309c3b464123913a4747277050ebd0d341913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:00 +0000
Subject: [PATCH 57/73] fix: height maps can be cut by the flow, the
 dissipation or no label

---
 strata/view_flowmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 85c520f..805d7d0 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -269,11 +269,13 @@ def view_flowmap_2d(*files, label='M', type='height',
     for i, (data, info, _) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
 
-        if label == 'flow':
+        if 'flow' in (label, cutoff_label):
             flow.data = add_absolute_flow(flow.data)
 
         if label in ('visc_diss', 'visc'):
             label = 'visc'
+
+        if 'visc' in (label, cutoff_label):
             add_viscous_dissipation(flow, viscosity=8.77e-4)
 
         if label == 'evaporation':
@@ -282,7 +284,7 @@ def view_flowmap_2d(*files, label='M', type='height',
         if label in ['grad_rho_x', 'grad_rho_y']:
             add_density_gradient(flow)
 
-        if cutoff != None and cutoff_label != None:
+        if cutoff != None and cutoff_label not in (None, 'None'):
             flow = flow.lims(cutoff_label, cutoff, None)
 
         if print_avg_value:
-- 
2.43.0


From deba208022ed6a5f57841fbd3af64ab39428b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:00 +0000
Subject: [PATCH 58/73] fix: contours are drawn for maps with a cutoff

---
 strata/view_flowmap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 805d7d0..4327a80 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -285,7 +285,12 @@ def view_flowmap_2d(*files, label='M', type='height',
             add_density_gradient(flow)
 
         if cutoff != None and cutoff_label not in (None, 'None'):
-            flow = flow.lims(cutoff_label, cutoff, None)
+            if type == 'contour':
+                # Contours need the whole grid, in which the cut bins have no value
+                cut = flow.data[cutoff_label] < cutoff
+                flow.data[label][cut] = np.nan
+            else:
+                flow = flow.lims(cutoff_label, cutoff, None)
 
         if print_avg_value:
             print_average_value(flow.data, label, kwargs)
-- 
2.43.0


From e5bf2a16bafe3619bfce99193055898c97f5f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:00 +0000
Subject: [PATCH 59/73] fix: stream lines are drawn in figures of the given
 size

---
 strata/view_flowmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 4327a80..2e6b8ba 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -144,7 +144,9 @@ def plot_streamlines(xs, ys, us, vs, weights, line_weights=None, **kwargs):
 
     linewidth = 1.5 * line_weights / line_weights.max()
 
-    fig = plt.streamplot(xs, ys, us, vs, (density_x, density_y), color=weights, linewidth=linewidth)
+    fig, ax = create_figure(**kwargs)
+
+    ax.streamplot(xs, ys, us, vs, (density_x, density_y), color=weights, linewidth=linewidth)
 
     return fig
 
-- 
2.43.0


From 595af98027ed5a9f7f1110c4b57aba83fcabeaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:00 +0000
Subject: [PATCH 60/73] fix: the colour map applies to the first figure, too

---
 strata/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/strata/utils.py b/strata/utils.py
index c533794..7a5d411 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -342,6 +342,15 @@ def decorate_graph(func):
             return fargs
 
         fargs = pop_figure_kwargs(kwargs)
+
+        # The colour map is taken when the graph is drawn
+        if fargs['colormap'] != None:
+            try:
+                plt.get_cmap(fargs['colormap'])
+                plt.rc('image', cmap=fargs['colormap'])
+            except ValueError as err:
+                print(err)
+
         func(*args, **kwargs)
 
         plt.title(fargs['title'])
@@ -358,12 +367,6 @@ def decorate_graph(func):
         plt.xlim(fargs['xlim'])
         plt.ylim(fargs['ylim'])
 
-        if fargs['colormap'] != None:
-            try:
-                plt.set_cmap(fargs['colormap'])
-            except ValueError as err:
-                print(err)
-
         if fargs['colorbar']:
             from mpl_toolkits.axes_grid1 import make_axes_locatable
 
-- 
2.43.0


From 89d41d3e370936ff807c0abad8877dff12f5d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:56 +0000
Subject: [PATCH 61/73] fix: averaging data on different coordinates is
 refused, as documented

---
 droplets/average.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index 789cfa6..369bb0b 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -156,6 +156,11 @@ def average_data(data_records, weights=[], coord_labels=('X', 'Y')):
 
     xl, yl = coord_labels
 
+    try:
+        assert_grids_equal(data_records)
+    except (AssertionError, ValueError):
+        raise ValueError("Coordinates of the input data do not match.")
+
     avg_data = data_records[0].copy()
     data_labels = set(avg_data.dtype.names) - set(coord_labels)
 
-- 
2.43.0


From 245abc0825ea21ec856efee814abfe4be7697cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:56 +0000
Subject: [PATCH 62/73] fix: averaging no data gives no data, as documented

---
 droplets/average.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index 369bb0b..cef9d41 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -154,6 +154,9 @@ def average_data(data_records, weights=[], coord_labels=('X', 'Y')):
 
         return np.nan_to_num(data.sum(axis=0)/(total_weight))
 
+    if len(data_records) == 0:
+        return np.array([])
+
     xl, yl = coord_labels
 
     try:
-- 
2.43.0


From 5b871255ac83374d85743e4bbccfddfe576e3022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:56 +0000
Subject: [PATCH 63/73] fix: place contact line edges on the right bins despite
 rounding of the coordinates

---
 strata/contact_line_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 2748971..e55c685 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -262,7 +262,8 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
     def get_coord_on_grid(x, dx):
         """Return input coordinate x on grid of difference dx."""
 
-        return (np.floor(x / dx) + 0.5) * dx
+        # Coordinates at the edge of a bin are not exact: allow for rounding
+        return (np.floor(x / dx + 1e-3) + 0.5) * dx
 
     def estimate_shape(data):
         """Estimate the shape of the contact line grid."""
-- 
2.43.0


From 59b01bd33430d407dfd835ae2ac160151e3da540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:27 +0000
Subject: [PATCH 64/73] fix: neighbours at the radius are found despite
 rounding of the coordinates

---
 droplets/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/droplets/interface.py b/droplets/interface.py
index bf142b0..b1b70d0 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -275,6 +275,9 @@ def get_interface(flow, label, **kwargs):
     coord_labels = kwargs.get('coord_labels', ('X', 'Y'))
     cutoff_radius = get_radius(flow.data, *coord_labels, **kwargs)
 
+    # Cells at the radius are not exactly at this distance: allow for rounding
+    cutoff_radius *= 1 + 1e-3
+
     ylims = kwargs.pop('ylims', (None, None))
 
     xlabel, ylabel = kwargs.get('coord_labels', ('X', 'Y'))
-- 
2.43.0


From 411a7296d4d00740a3c43e35333bf81b224d4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:27 +0000
Subject: [PATCH 65/73] fix: cells at the edge of the contact line area are
 found despite rounding of the coordinates

---
 droplets/contact_line.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/droplets/contact_line.py b/droplets/contact_line.py
index 2134bb0..c7e0312 100644
--- a/droplets/contact_line.py
+++ b/droplets/contact_line.py
@@ -104,7 +104,9 @@ def get_contact_line_cells(flow, label, extract_area=(0., 0.),
     x = lambda index: flow.data[index][xlabel]
     y = lambda index: flow.data[index][ylabel]
 
-    width, height = extract_area
+    # Cells at the edge of the area are not placed exactly: allow for rounding
+    width, height = (length + 1e-4 for length in extract_area)
+    extract_height += 1e-4
 
     interface_inds = get_interface_of_height(height)
     left, right = [
-- 
2.43.0


From 00ce5453c76d39795d8f63820eb5202e2571a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:48 +0000
Subject: [PATCH 66/73] fix: contact angles reach layers at the height despite
 rounding of the coordinates

---
 droplets/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/droplets/interface.py b/droplets/interface.py
index b1b70d0..5f1647b 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -88,6 +88,9 @@ def get_contact_angle(flow, height, label, **kwargs):
     if floor != None and ymin != yfloor:
         return None, None
 
+    # Layers at the height are not placed exactly: allow for rounding
+    height += 1e-4
+
     angles = None, None
 
     for indices in interface:
-- 
2.43.0


From 6ac9cbc829e3928ba23e813577b5d691537dcee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:32 +0000
Subject: [PATCH 67/73] fix: height maps with a cutoff are drawn without gaps
 between their bins

---
 strata/view_flowmap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 2e6b8ba..3b098f3 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -286,6 +286,12 @@ def view_flowmap_2d(*files, label='M', type='height',
         if label in ['grad_rho_x', 'grad_rho_y']:
             add_density_gradient(flow)
 
+        # The bins of the figure are those of the map, also if some are cut
+        kwargs['range'] = [
+            (flow.data[l].min() - 0.5 * d, flow.data[l].max() + 0.5 * d)
+            for l, d in zip(kwargs['coord_labels'], info['spacing'])
+        ]
+
         if cutoff != None and cutoff_label not in (None, 'None'):
             if type == 'contour':
                 # Contours need the whole grid, in which the cut bins have no value
@@ -330,7 +336,7 @@ def height(data, info, label, **kwargs):
     fig, ax = create_figure(**kwargs)
 
     ax.hist2d(xs, ys, weights=data[label], bins=info['shape'],
-            cmin=cmin, cmax=cmax, vmin=vmin, vmax=vmax)
+            range=kwargs.get('range', None), cmin=cmin, cmax=cmax, vmin=vmin, vmax=vmax)
 
     return fig
 
-- 
2.43.0


From bf9fa93511dd3aa447a5b7de9f39c6eb7e7f071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:35 +0000
Subject: [PATCH 68/73] fix: average maps by the weights of all maps when the
 weights are averaged by weights of their own

The total weight was taken from the averaged weights, which are not the
arithmetic mean (or still those of the first map) when the weight is itself
averaged using a weight.
---
 droplets/average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/droplets/average.py b/droplets/average.py
index cef9d41..d4a1c02 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -150,7 +150,8 @@ def average_data(data_records, weights=[], coord_labels=('X', 'Y')):
             raise KeyError("Input labels of 'weights' not in data: %r %r"
                     % (label, weight))
         else:
-            total_weight = len(data_records)*avg_data[weight]
+            # The weights may be averaged using weights of their own
+            total_weight = np.sum([d[weight] for d in data_records], axis=0)
 
         return np.nan_to_num(data.sum(axis=0)/(total_weight))
 
-- 
2.43.0


From 2ed446474c49b951a1ca6459217e95928e8395f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:35 +0000
Subject: [PATCH 69/73] fix: supersample by the weights of the map when the
 weights are averaged by weights of their own

The weighted values were put in the data, where they were taken for the
weights of other labels.
---
 droplets/resample.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/droplets/resample.py b/droplets/resample.py
index a111f4e..b088f87 100644
--- a/droplets/resample.py
+++ b/droplets/resample.py
@@ -121,8 +121,8 @@ def _supersample_data_on_grid(data, factor, data_labels, weights):
     weight_labels = [l for l, _ in weights]
     non_weighted_labels = [l for l in data_labels if l not in weight_labels]
 
-    for (l, w) in weights:
-        data[l] *= data[w]
+    # The weights may be averaged using weights of their own
+    weighted_data = {l: data[l] * data[w] for (l, w) in weights}
 
     n = factor - 1
 
@@ -141,7 +141,7 @@ def _supersample_data_on_grid(data, factor, data_labels, weights):
                 resampled_data[i, j][l] = np.mean(bins[l])
 
             for (l, w) in weights:
-                value = np.sum(bins[l])
+                value = np.sum(weighted_data[l][i0:i1, j0:j1])
                 total_weight = np.sum(bins[w])
 
                 if total_weight != 0.0:
-- 
2.43.0


From e95709070fe683a1474a6994c23e8c3293f3818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:18 +0000
Subject: [PATCH 70/73] fix: supersample maps of whole numbers without cutting
 off their means and coordinates

---
 droplets/resample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/droplets/resample.py b/droplets/resample.py
index b088f87..2641015 100644
--- a/droplets/resample.py
+++ b/droplets/resample.py
@@ -152,7 +152,9 @@ def _supersample_data_on_grid(data, factor, data_labels, weights):
     return resampled_data
 
 def _transfer_data_to_finer_grid(data, xs, ys, n, coord_labels, data_labels):
-    finer_data = np.empty_like(xs, dtype=data.dtype)
+    # Means of whole numbers are not whole
+    dtype = [(l, np.float64) for l in data.dtype.names]
+    finer_data = np.empty_like(xs, dtype=dtype)
 
     xl, yl = coord_labels
     ny, nx = data.shape
-- 
2.43.0


From 0de3f487f42b68349b45836ab076cb01d65bbaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:18 +0000
Subject: [PATCH 71/73] fix: downsample maps of whole numbers without cutting
 off their means and coordinates

---
 droplets/resample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/droplets/resample.py b/droplets/resample.py
index 2641015..2a38220 100644
--- a/droplets/resample.py
+++ b/droplets/resample.py
@@ -179,7 +179,9 @@ def _transfer_data_to_finer_grid(data, xs, ys, n, coord_labels, data_labels):
 
 def _combine_bins(coords, flow, num_combine, info, coord_labels, weights):
     # Create container for result and add coords data
-    data = np.zeros(coords[0].shape, dtype=flow.data.dtype)
+    # Means of whole numbers are not whole
+    dtype = [(l, np.float64) for l in flow.data.dtype.names]
+    data = np.zeros(coords[0].shape, dtype=dtype)
 
     for l, cs in zip(coord_labels, coords):
         data[l] = cs
-- 
2.43.0


From 25e22afac56113df87397d8edd9f4f63abb1bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:20 +0000
Subject: [PATCH 72/73] fix: average records of whole numbers without cutting
 off their means

---
 droplets/average.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/droplets/average.py b/droplets/average.py
index d4a1c02..2f88f77 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -165,7 +165,9 @@ def average_data(data_records, weights=[], coord_labels=('X', 'Y')):
     except (AssertionError, ValueError):
         raise ValueError("Coordinates of the input data do not match.")
 
-    avg_data = data_records[0].copy()
+    # Means of whole numbers are not whole
+    dtype = [(l, np.float64) for l in data_records[0].dtype.names]
+    avg_data = data_records[0].astype(dtype)
     data_labels = set(avg_data.dtype.names) - set(coord_labels)
 
     weighted_labels = [l for l, _ in weights]
-- 
2.43.0


From 83a437f35685f61fbe6716f4eeab9a9c173002e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:22 +0000
Subject: [PATCH 73/73] fix: weigh the mean flow angle of whole number flow by
 masses which are not

---
 droplets/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index 3756b62..7fafea8 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -247,8 +247,8 @@ def sample_flow_angle(flow, flow_labels=['U', 'V'], mean=False, weight=None):
     if mean:
         if weight:
             try:
-                us *= flow.data[weight]
-                vs *= flow.data[weight]
+                us = us * flow.data[weight]
+                vs = vs * flow.data[weight]
             except:
                 raise ValueError(
                         "Weight label {!r} was not found in the system" \
-- 
2.43.0

