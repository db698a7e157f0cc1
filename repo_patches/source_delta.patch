From 10df37ca5165ed215a500012ccd908ca83ac391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 01/87] fix: put axis edges midway between bin centers and
 support one-cell axes

---
 simim/map/gridder.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 84e099e..003b3a7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -16,10 +16,14 @@ from matplotlib import animation
 ###############################################################################
 ##### SECTION 0: Helper Functions #############################################
 ###############################################################################
-def _axis_edges(ax):
-    """Given bin centers (ax) along an axis return the bin edges"""
+def _axis_edges(ax,spacing=1):
+    """Given bin centers (ax) along an axis return the bin edges
+    
+    If there is only one bin then its width is taken from spacing"""
+    if len(ax) == 1:
+        return np.array([ax[0]-spacing/2, ax[0]+spacing/2])
     diff = np.diff(ax)
-    newax = ax[:-1] + diff
+    newax = ax[:-1] + diff/2
     newax = np.concatenate(([ax[0]-diff[0]/2], newax, [ax[-1]+diff[-1]/2]))
     return newax
     
@@ -190,7 +194,7 @@ class Grid():
             self.axes.append(axis)
 
             self.fourier_axes_centers.append(np.fft.fftshift(np.fft.fftfreq(self.n_pixels[i],self.pixel_size[i])))
-            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i]))
+            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i],1/self.side_length[i]))
 
         self.fourier_space = np.zeros(self.n_dimensions,dtype=bool)
 
@@ -318,7 +322,7 @@ class Grid():
                     new_axes_centers[i] = new_axes[i][:-1] + new_pixel_size[i]/2
 
                     new_fourier_axes_centers[i] = np.fft.fftshift(np.fft.fftfreq(new_n_pixels[i],new_pixel_size[i]))
-                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i])
+                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i],1/new_side_length[i])
 
         # Won't pad properties array:
         pad_full.append((0,0))
@@ -394,7 +398,7 @@ class Grid():
         self.side_length[ax] = np.ptp(self.axes[ax])
         self.center_point[ax] = np.min(self.axes[ax]) + self.side_length[ax]/2
         self.fourier_axes_centers[ax] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[ax],self.pixel_size[ax]))
-        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax])
+        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax],1/self.side_length[ax])
 
 
     # Should expand this method to support linear transformations
@@ -1216,7 +1220,7 @@ class Grid():
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi])
+            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi],1/self.side_length[axi])
 
 
     def collapse_dimension(self,ax,in_place=True,weights=None,mode='average'):
-- 
2.43.0


From 37f3fb8a81dce49fbd37b85ff94fc93adf76e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 02/87] fix: pad a subset of axes by the widths given for those
 axes

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 003b3a7..fe35a84 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -310,7 +310,7 @@ class Grid():
                         pad_full.append((0,0))
                         unpad_full.append((-pad[i_pad],-pad[i_pad]))
 
-                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[ax[i]]
+                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[i_pad]
                     if self.fourier_space[i]:
                         new_side_length[i] = self.side_length[i]
                         new_pixel_size[i] = self.side_length[i] / new_n_pixels[i]
-- 
2.43.0


From fab3f08ff0f2999067d8cda96d4882adb9f65264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 03/87] fix: make down_sample work

---
 simim/map/gridder.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index fe35a84..ea21dfb 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1178,7 +1178,7 @@ class Grid():
         
         factor = np.array(factor,ndmin=1).astype(int)
         if len(factor) == 1:
-            factor = np.ones(len(ax))*factor[0]
+            factor = np.ones(len(ax),dtype=int)*factor[0]
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
@@ -1194,29 +1194,29 @@ class Grid():
         else:
             raise ValueError("mode not recognized - must be 'average' or 'sum'.")
 
-        for axi in ax:
+        for axi, fi in zip(ax,factor):
             shape = np.concatenate((self.n_pixels,[self.n_properties]))
-            shape[axi] = shape[axi]//factor[axi]
+            shape[axi] = shape[axi]//fi
 
             # Downsample
-            new_ax_centers = np.zeros(self.axes_centers[axi].shape)
+            new_ax_centers = np.zeros(shape[axi])
             new_grid = np.zeros(shape)
             for i in range(shape[axi]):
-                slice_ax = slice(i*factor[axi],(i+1)*factor[axi])
+                slice_ax = slice(i*fi,(i+1)*fi)
                 slices = [slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1)]
                 slices_new = [slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1)]
 
                 if self.grid_active:
-                    new_grid[slices_new] = use_function(self.grid[slices],axis=axi)
+                    new_grid[tuple(slices_new)] = use_function(self.grid[tuple(slices)],axis=axi)
                 new_ax_centers[i] = np.mean(self.axes_centers[axi][slice_ax])
 
             # Set up new grid
             if self.grid_active:
                 self.grid = new_grid
             self.axes_centers[axi] = new_ax_centers
-            self.axes[axi] = np.concatenate((new_ax_centers-(factor[axi]*self.pixel_size[axi])/2, [new_ax_centers[-1]+(factor[axi]*self.pixel_size[axi])/2]))
-            self.pixel_size[axi] = self.pixel_size[axi]*factor[axi]
-            self.n_pixels[axi] = self.n_pixels[axi]//factor[axi]
+            self.axes[axi] = np.concatenate((new_ax_centers-(fi*self.pixel_size[axi])/2, [new_ax_centers[-1]+(fi*self.pixel_size[axi])/2]))
+            self.pixel_size[axi] = self.pixel_size[axi]*fi
+            self.n_pixels[axi] = self.n_pixels[axi]//fi
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-- 
2.43.0


From 1717d4172fe758bf2942c7f36beba1b0020abc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 04/87] fix: match scale_axis factors and units to the axes
 they are given for

---
 simim/map/gridder.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index ea21dfb..3d43448 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -436,11 +436,12 @@ class Grid():
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
-        for i in ax:
+        for j,i in enumerate(ax):
+            old_center = self.center_point[i]
             if scalecenter:
-                self.center_point[i] *= factor[i]
-            self.side_length[i] *= factor[i]
-            self.pixel_size[i] *= factor[i]
+                self.center_point[i] *= factor[j]
+            self.side_length[i] *= factor[j]
+            self.pixel_size[i] *= factor[j]
 
             # Handle units inputs:
             if axunits is None:
@@ -453,22 +454,22 @@ class Grid():
                 self.axunits[i] = axunits
                 self.fourier_axunits[i] = axunits+'^-1'
             elif len(np.array(axunits,ndmin=1,copy=True))==len(ax):
-                self.axunits[i] = axunits[i]
-                self.fourier_axunits[i] = axunits[i]+'^-1'
+                self.axunits[i] = axunits[j]
+                self.fourier_axunits[i] = axunits[j]+'^-1'
             else:
                 raise ValueError('length of axunits must be 1 or match the length of ax')
 
             # Set up the grid - make sure the side length is compatible with
             # number of pixels
             if scalecenter:
-                self.axes[i] = self.axes[i]*factor[i]
-                self.axes_centers[i] = self.axes_centers[i]*factor[i]
+                self.axes[i] = self.axes[i]*factor[j]
+                self.axes_centers[i] = self.axes_centers[i]*factor[j]
             else:
-                self.axes[i] = (self.axes[i]-self.center[i])*factor[i] + self.center[i]
-                self.axes_centers[i] = (self.axes_centers[i]-self.center[i])*factor[i] + self.center[i]
+                self.axes[i] = (self.axes[i]-old_center)*factor[j] + old_center
+                self.axes_centers[i] = (self.axes_centers[i]-old_center)*factor[j] + old_center
 
-            self.fourier_axes[i] = self.fourier_axes[i]/factor[i]
-            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[i]
+            self.fourier_axes[i] = self.fourier_axes[i]/factor[j]
+            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[j]
 
 
     def copy_axes(self,n_properties=1):
-- 
2.43.0


From 42a6a037255dad7ac7a0e1e1b37868df71b1ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 05/87] fix: do not truncate grid geometry given as integers

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 3d43448..24d4570 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -132,18 +132,18 @@ class Grid():
         self.n_objects = 0
 
         # Handle center_point inputs:
-        self.center_point = np.array(center_point,ndmin=1,copy=True)
+        self.center_point = np.array(center_point,ndmin=1,copy=True,dtype=float)
         self.n_dimensions = len(self.center_point)
 
         # Handle side_length inputs:
-        self.side_length = np.array(side_length,ndmin=1,copy=True)
+        self.side_length = np.array(side_length,ndmin=1,copy=True,dtype=float)
         if len(self.side_length) == 1:
             self.side_length = np.ones(self.n_dimensions)*self.side_length[0]
         if len(self.side_length) != self.n_dimensions:
             raise ValueError("side_length don't match data dimensionality")
 
         # Handle pixel_size inputs
-        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True)
+        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True,dtype=float)
         if len(self.pixel_size) != self.n_dimensions:
             if len(self.pixel_size) == 1:
                 self.pixel_size = np.ones(self.n_dimensions)*self.pixel_size[0]
-- 
2.43.0


From 179b101c52743fb67943d3b4005f0f2ed5413f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 06/87] fix: do not truncate new axis units to the length of
 the old ones

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 24d4570..a461d64 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -155,12 +155,12 @@ class Grid():
             self.axunits = np.array([None for i in range(self.n_dimensions)])
             self.fourier_axunits = np.array([None for i in range(self.n_dimensions)])
         else:
-            self.axunits = np.array(axunits,ndmin=1,copy=True)
+            self.axunits = np.array(axunits,ndmin=1,copy=True,dtype=object)
             if len(self.axunits) == 1:
                 self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)])
             if len(self.axunits) != self.n_dimensions:
                 raise ValueError("axunits don't match data dimensionality")
-            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1)
+            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1,dtype=object)
 
         if gridunits is None:
             self.gridunits = np.array([None for i in range(self.n_properties)])
-- 
2.43.0


From 2498de267309c34dbdfb29f3708dc3f4e123be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 07/87] fix: add the new properties when an empty catalog is
 gridded

---
 simim/map/gridder.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a461d64..4b2e2a5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -616,13 +616,10 @@ class Grid():
         
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                positions = positions.reshape((positions.shape[0],1))
-
-                if new_props:
-                    new_n_properties = values.shape[1]
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
-                    self.add_new_prop(new_grid)
+            if new_props:
+                new_n_properties = values.shape[1] if np.ndim(values) > 1 else 1
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
+                self.add_new_prop(new_grid)
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
-- 
2.43.0


From 05cbd8e76f3b44eace534076a0e5b67b422c69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 08/87] fix: accept integer positions when gridding and
 sampling

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4b2e2a5..a506d2f 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -623,7 +623,7 @@ class Grid():
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
-            positions = np.array(positions,ndmin=1,copy=True)
+            positions = np.array(positions,ndmin=1,copy=True,dtype=float)
             if positions.shape[0] > 0:
                 if positions.shape[1] !=self.n_dimensions:
                     raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
@@ -1026,7 +1026,7 @@ class Grid():
         properties = tuple(properties)
 
         # Make sure the positions array is in the right shape and matches the dimensions of the grid
-        positions = np.array(positions,ndmin=1,copy=True)
+        positions = np.array(positions,ndmin=1,copy=True,dtype=float)
         if positions.shape[0] > 0:
             if positions.shape[1] != self.n_dimensions:
                 raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
-- 
2.43.0


From 7e81f0b5e53737190265ba8ae6850bdee8d420e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 09/87] fix: grid the values columns into the properties they
 were given for

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a506d2f..691a2c7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -659,11 +659,11 @@ class Grid():
                 if values.shape[1] != len(properties) and values.shape[1] != 1:
                     raise ValueError("Values array does not contain the correct number of properties.")
 
-                for ip in properties:
+                for iv,ip in enumerate(properties):
                     if values.shape[1] == 1:
                         v = values.flatten()
                     else:
-                        v = values[:,ip]
+                        v = values[:,iv]
                     np.add.at(self.grid,positions+(ip,),v)
 
             # Count the number of objects
-- 
2.43.0


From 635e379fc3a432f2d2ee0a78c409930d27e71801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 10/87] fix: add the new property when an empty list of spectra
 is gridded

---
 simim/map/gridder.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 691a2c7..35c62b7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -712,10 +712,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.add_new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
@@ -875,10 +874,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
-- 
2.43.0


From 9172f4a9cd7da2499f91c953761db9ced36f1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 11/87] fix: collapse several dimensions, or with property
 dependent weights, correctly

---
 simim/map/gridder.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 35c62b7..f95bc9c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1266,6 +1266,8 @@ class Grid():
             weights = [np.ones(len(self.axes_centers[i])) for i in ax]
         elif len(ax) == 1:
             weights = [weights]
+        else:
+            weights = list(weights)
 
         if len(weights) != len(ax):
             raise ValueError("Must provide a weights array for each axis to collapse")
@@ -1286,26 +1288,24 @@ class Grid():
                 elif weights[i].ndim == self.n_dimensions+1:
                     if weights[i].shape != self.grid.shape:
                         raise ValueError("Weights must match shape of grid")
-                    weights[i] = np.expand_dims(weights[i],-1)
                 else:
                     raise ValueError("Weights for axis {} must match size of grid. {} // {}".format(ax[i],len(weights[i]),len(self.axes_centers[ax[i]])))
         
+        # Combine the weights from all of the axes being collapsed
+        weight = weights[0]
+        for i in range(1,len(ax)):
+            weight = weight * weights[i]
+
         if mode=='sum':
-            norm = [1 for i in ax]
+            norm = 1
         elif mode=='average':
-            norm = []
-            for i in range(len(ax)):
-                if weights[i].ndim == 1:
-                    norm.append(np.sum(weights[i]))
-                else:
-                    norm.append(np.sum(weights[i],axis=ax[i]))
+            norm = np.sum(weight,axis=tuple(ax))
         else:
             raise ValueError("mode not recognized - options are 'sum','average'")
 
         # Do the dang thing
         if in_place:
-            for i in range(len(ax)):
-                self.grid = np.sum(self.grid*weights[i],axis=ax[i]) / norm[i]
+            self.grid = np.sum(self.grid*weight,axis=tuple(ax)) / norm
 
             # Update grid
             self.n_pixels = self.n_pixels[ax_keep]
@@ -1328,8 +1328,7 @@ class Grid():
         else:
             newgrid = self.copy()
 
-            for i in range(len(ax)):
-                newgrid.grid = np.sum(newgrid.grid*weights[i],axis=ax[i]) / norm[i]
+            newgrid.grid = np.sum(newgrid.grid*weight,axis=tuple(ax)) / norm
 
             # Update grid
             newgrid.n_pixels = self.n_pixels[ax_keep]
-- 
2.43.0


From 5d42100328c47fc2dcaef44059cb1682fb7f4f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 12/87] fix: keep one grid unit per property when copying or
 adding properties

---
 simim/map/gridder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index f95bc9c..5051656 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -486,7 +486,7 @@ class Grid():
                           side_length=np.copy(self.side_length),
                           pixel_size=np.copy(self.pixel_size),
                           axunits=np.copy(self.axunits),
-                          gridunits=np.copy(self.gridunits))
+                          gridunits=np.copy(self.gridunits) if len(self.gridunits) in [1,n_properties] else None)
         
         return grid_copy
 
@@ -505,6 +505,7 @@ class Grid():
         n_properties = len(properties)
 
         grid_copy = self.copy_axes(n_properties)
+        grid_copy.gridunits = np.copy(self.gridunits[properties])
         
         if self.grid_active:
             grid_copy.grid = np.copy(self.grid[...,tuple(properties)])
@@ -575,6 +576,7 @@ class Grid():
 
             self.grid = np.concatenate((self.grid,value),axis=-1)
             self.n_properties += value.shape[-1]
+            self.gridunits = np.append(self.gridunits,[None]*value.shape[-1])
 
         # Different behavior if grid isn't activated yet
         if not self.grid_active:
@@ -582,6 +584,7 @@ class Grid():
                 raise ValueError("data array for this Grid has not been initialized, cannot add new values in property array -- use add_new_prop(value=None) to add an empty new property without initializing grid")
             else:
                 self.n_properties += 1
+                self.gridunits = np.append(self.gridunits,[None])
 
 
 
-- 
2.43.0


From 05f8dbab9915c1b7cda57e185ae8287d38779d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 13/87] fix: keep track of Fourier space in the grid returned
 by sum_properties

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5051656..5c51eb1 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -984,6 +984,8 @@ class Grid():
             new_grid = self.copy_axes(n_properties=1)
             new_grid.init_grid()
             new_grid.grid = sum_grid
+            new_grid.fourier_space = np.copy(self.fourier_space)
+            new_grid.is_power_spectrum = self.is_power_spectrum
 
             return new_grid
 
-- 
2.43.0


From 70a4a3f28d5157f07ed290ba0d7282b4e73d1a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 14/87] fix: do not overwrite a saved grid when its path is
 given without .npz

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5c51eb1..bfeeada 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -538,7 +538,7 @@ class Grid():
         else:
             savefunc = np.savez
 
-        if os.path.exists(path) and not overwrite:
+        if (os.path.exists(path) or os.path.exists(str(path)+'.npz')) and not overwrite:
             raise ValueError("The file you are trying to create already exists")
 
         save_data = {'n_properties':self.n_properties,
-- 
2.43.0


From 16866a60c998c9f179fe34fe7a59dadd147c2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 15/87] fix: mark only the transformed axes of a power spectrum
 as Fourier space

---
 simim/map/gridder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index bfeeada..5c5767f 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1566,7 +1566,6 @@ class Grid():
             powspec.is_power_spectrum = True
             powspec.n_objects = self.n_objects
             powspec.fourier_space = np.copy(self.fourier_space)
-            powspec.fourier_space[:] = True
 
             # Invert fourier transforms
             if not cross_grid is None:
-- 
2.43.0


From 4e3acf690168b7d79c4c02c07a9f63bbb7b26d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 16/87] fix: count the properties of a cross power spectrum
 correctly

---
 simim/map/gridder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5c5767f..6665ed3 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1530,6 +1530,9 @@ class Grid():
                 #         self.gridunits[i] += '^2' + unit_end
 
             self.is_power_spectrum = True
+            if self.grid.shape[-1] != self.n_properties:
+                self.gridunits = np.append(self.gridunits,[None]*(self.grid.shape[-1]-self.n_properties))
+                self.n_properties = self.grid.shape[-1]
             # for i in range(len(self.gridunits)):
             #     if not self.gridunits[i] is None:
             #         self.gridunits += unit_end
@@ -1544,7 +1547,8 @@ class Grid():
         # spectrum and return it, plus invert the fourier transforms
         # to the original grid
         else:
-            powspec = Grid(self.n_properties,self.center_point,self.side_length,self.pixel_size,self.axunits,self.gridunits)
+            n_properties = self.n_properties if cross_grid is None else max(self.n_properties,cross_grid.n_properties)
+            powspec = Grid(n_properties,self.center_point,self.side_length,self.pixel_size,self.axunits,self.gridunits)
 
             # TO DO!! Tidy up the units
             # for i in range(len(powspec.gridunits)):
-- 
2.43.0


From 063d0249baea1875f9de764bc88ff22d6e292f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 17/87] fix: include the outermost shell in spherical averages

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6665ed3..45fb2c4 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1733,7 +1733,7 @@ class Grid():
         # Determine the correct bin for each cell - digitize data into shells
         # and then get indices of dimensions that aren't being flattened
         bins_for_cells = np.digitize(rad,shells) - 1
-        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-2))
+        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-1))
         coords_for_cells = np.indices(self.grid.shape)
         coords_for_cells = [bins_for_cells] + \
                            [coords_for_cells[i_ax].flatten() for i_ax in range(self.n_dimensions) if keep_axes[i_ax]] + \
@@ -1767,7 +1767,7 @@ class Grid():
         # Compute standard deviation if requested
         if return_std:
 
-            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-2))
+            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-1))
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
-- 
2.43.0


From d71872d3c403518eae742d90457a8abc040d3bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 18/87] fix: do not truncate weights in spherical averages to
 integers

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 45fb2c4..27aa36c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1754,7 +1754,7 @@ class Grid():
         binned_averages = np.zeros(binned_shape,dtype=dtype_data)
         np.add.at(binned_averages,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(self.grid*weights).flatten()[good_inds].reshape(-1,1))
 
-        binned_weights = np.zeros(binned_shape,dtype=int)
+        binned_weights = np.zeros(binned_shape,dtype=float)
         np.add.at(binned_weights,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights).flatten()[good_inds].reshape(-1,1))
 
         binned_averages /= binned_weights
@@ -1779,7 +1779,7 @@ class Grid():
             if biased_std:
                 binned_std = np.sqrt(binned_std/binned_weights)
             else:
-                binned_weights2 = np.zeros(binned_shape,dtype=int)
+                binned_weights2 = np.zeros(binned_shape,dtype=float)
                 np.add.at(binned_weights2,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights**2).flatten()[good_inds].reshape(-1,1))
 
                 binned_std = np.sqrt(binned_std/(binned_weights-binned_weights2/binned_weights))
-- 
2.43.0


From 1438af7e410d5cb4ecfa1a3b47eb6905c397333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 19/87] fix: do not lose the extreme cells of automatic shells
 to rounding

---
 simim/map/gridder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 27aa36c..f654792 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1695,7 +1695,7 @@ class Grid():
 
             bin_min = np.min(rad)
             bin_max = np.max(rad)
-            bin_max = bin_max + (bin_max-bin_min)/1e10 # Make max slightly larger to ensure highest data point fits
+            bin_max = bin_max * (1+1e-10) # Make max slightly larger to ensure highest data point fits
 
             # case 1: no specifications given use min and max of axes
             if shells is None:
@@ -1714,6 +1714,7 @@ class Grid():
                 if bin_min <=0:
                     bin_min = np.min(rad[rad>0])
                 shells = np.logspace(np.log10(bin_min),np.log10(bin_max),bin_n+1)
+                shells[0], shells[-1] = bin_min, bin_max # Guard against rounding
             else:
                 raise ValueError("bin mode must be in ['log','linear'].")
         
-- 
2.43.0


From e07539d2451f9e7ffe82922c0ac19f593edcf75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 20/87] fix: do not let rounding change the number of pixels of
 GridFromAxes

---
 simim/map/gridder.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index f654792..362fa04 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2372,14 +2372,6 @@ class GridFromAxes(Grid):
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits)
 
-        n_pixels_decimal = self.side_length/self.pixel_size
-        n_pixels_ceil = np.ceil(n_pixels_decimal)
-        if np.any(n_pixels_decimal != n_pixels_ceil):
-            self.side_length = self.pixel_size * n_pixels_ceil
-            if (not side_length is None) and (not center_point is None):
-                warnings.warn("Side lengths increased to accomodate integer number of pixels")
-        self.n_pixels = n_pixels_ceil.astype('int')
-
 class GridFromAxesAndFunction(GridFromAxes):
     def __init__(self,function,*axes,function_kwargs={},n_properties=1,axunits=None,gridunits=None):
         """Initialize a Grid from a set of axes and populate it using a function
-- 
2.43.0


From ded61ecb661afa303526f55c0bc6260cfe12836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 21/87] fix: fit automatic Gridder extents around all of the
 objects

---
 simim/map/gridder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 362fa04..b9faaba 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2092,8 +2092,9 @@ class Gridder(Grid):
 
         # Handle side_length inputs:
         if side_length is None:
-            side_length = ptps * 1.0000001 # Expand slightly so both extrema get gridded
-            side_length[ptps==0] = 1 # In case dimension is flat
+            pixel_size = np.array(pixel_size,ndmin=1,dtype=float)
+            side_length = (np.floor(ptps*1.0000001/pixel_size)+1)*pixel_size # Expand so both extrema get gridded
+            side_length[ptps==0] = np.maximum(1,pixel_size*np.ones(len(ptps)))[ptps==0] # In case dimension is flat
         else:
             side_length = np.array(side_length,ndmin=1,copy=True)
             if len(side_length) == 1:
-- 
2.43.0


From ea015fe43837c237432ea157e5d67ef5187d60c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 22/87] fix: keep cell edges in the spectral axis of
 SpectralPSF

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b9faaba..0e50af9 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2298,7 +2298,7 @@ class SpectralPSF(Grid):
         pixel_size = np.concatenate((pixel_size,[np.abs(spec_axis[1]-spec_axis[0])]))
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits=None)
-        self.axes[-1] = spec_axis
+        self.axes_centers[-1] = spec_axis
 
         # Make the grid
         sig = self.fwhm0 / (2*np.sqrt(2*np.log(2)))
-- 
2.43.0


From 522db7f1e12f76d837de7eab56d6ca2dd9047136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 23/87] fix: refuse to crop an axis to nothing

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 0e50af9..b3bc60f 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -385,7 +385,7 @@ class Grid():
         if max <= min:
             raise ValueError("max must be greater than min")
         
-        if np.all(self.axes_centers[ax]>max) or np.all(self.axes_centers[ax]<min):
+        if not np.any((self.axes_centers[ax]>=min) & (self.axes_centers[ax]<=max)):
             raise ValueError("No cells within specified limits")
 
         # Crop the grid
-- 
2.43.0


From f11cf9bf0a4c3d951cdd411745d48a81552f2b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 24/87] fix: keep object dtype for a single axis unit

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b3bc60f..73274b5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -157,7 +157,7 @@ class Grid():
         else:
             self.axunits = np.array(axunits,ndmin=1,copy=True,dtype=object)
             if len(self.axunits) == 1:
-                self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)])
+                self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)],dtype=object)
             if len(self.axunits) != self.n_dimensions:
                 raise ValueError("axunits don't match data dimensionality")
             self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1,dtype=object)
-- 
2.43.0


From fa324f829f9ffe9e3e7c2ded1aa053f7ec56963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 25/87] fix: keep complex data in spherical averages when other
 axes are in Fourier space

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 73274b5..e358824 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1742,7 +1742,7 @@ class Grid():
         coords_for_cells = np.array(coords_for_cells).T[good_inds] # This is now an n_cells x n_dimensions (of binned data) array
 
         # Bin the data
-        if axfourier and not self.is_power_spectrum:
+        if np.any(self.fourier_space) and not self.is_power_spectrum:
             dtype_data = complex
         else:
             dtype_data = float
-- 
2.43.0


From acad1a2c6373ace3d954e36343efa45e75e884cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 26/87] fix: standard deviation of complex cells in spherical
 averages

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index e358824..d53ff47 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1772,9 +1772,9 @@ class Grid():
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
-            std_vals = std_vals**2 * weights
+            std_vals = np.abs(std_vals)**2 * weights
 
-            binned_std = np.zeros(binned_shape,dtype=dtype_data)
+            binned_std = np.zeros(binned_shape,dtype=float)
             np.add.at(binned_std,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),std_vals.flatten()[good_inds].reshape(-1,1))
             
             if biased_std:
-- 
2.43.0


From 6ff053df894974bc3db02e11b24b66ec2a167bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 27/87] fix: keep one h dependence per property in MultiProp

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index f4c950d..043ba55 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -65,7 +65,7 @@ class MultiProp():
         if len(h_dependence)==1:
             self.h_dependence = {key:h_dependence[0] for key in self.names}
         elif len(h_dependence)==len(self.names):
-            self.units = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
+            self.h_dependence = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
         else:
             raise ValueError("h_dependence shape not compatible with prop_names shape")
 
-- 
2.43.0


From 4c876b054e5e6b7eb54d372a2f7392fb272ba2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 28/87] fix: pass kw_arguments on in MultiProp.evaluate

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 043ba55..601d97d 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -136,7 +136,7 @@ class MultiProp():
     def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """See evaluate_all - identical functionality. This
         is just a wrapper to match the prop subclass"""
-        return self.evaluate_all(target,use_all_inds,kw_remap)
+        return self.evaluate_all(target,use_all_inds,kw_remap,kw_arguments)
 
 # Function should return an array of length n, where n is the number
 # of objects it is evaluated over, or should be of shape n x m
-- 
2.43.0


From b5f5cc7d4ceb69b64c3a2560b3d1a203ad5d62ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 29/87] fix: accept tuples from, and do not modify lists
 returned by, property functions

---
 simim/galprops/galprops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 601d97d..704f115 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -121,6 +121,7 @@ class MultiProp():
 
         if self.wrap:
             vals = [vals]
+        vals = list(vals) # Don't modify the object returned by prop_function
         if len(vals) != len(self.names):
             raise ValueError("prop_function does not return a number of properties matching prop_names")
 
-- 
2.43.0


From 4dabba902a846f6bad0009e86d15ec1d1c5dfbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 30/87] fix: allow integer and boolean properties in
 make_property

---
 simim/_handlers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 2bd3339..bb82dd6 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -323,8 +323,12 @@ class Handler():
             name = property.names[i]
             newname = names[i]
 
-            prop_values = np.empty(self.nhalos_all,dtype=all_values[i].dtype)
-            prop_values[:] = np.nan
+            dtype = all_values[i].dtype
+            if len(inds) != self.nhalos_all and not np.issubdtype(dtype,np.inexact):
+                dtype = float # Only floats can mark the inactive objects with nan
+            prop_values = np.empty(self.nhalos_all,dtype=dtype)
+            if len(inds) != self.nhalos_all:
+                prop_values[:] = np.nan
             prop_values[inds] = all_values[i]
 
             self.properties_loaded[newname] = prop_values
-- 
2.43.0


From 482a627c313a9ac0029643463b21b3992e78e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 31/87] fix: check all properties before writing any of them

---
 simim/_handlers.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index bb82dd6..6f22360 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -364,17 +364,18 @@ class Handler():
         None
         """
 
+        # Check everything before writing anything
         for property_name in property_names:
             if not property_name in self.properties_loaded.keys():
-                raise ValueError("Property {} not loaded, cannot write to disk")
-            else:
-                property_value = self.properties_loaded[property_name]
+                raise ValueError("Property {} not loaded, cannot write to disk".format(property_name))
+            if property_name in self.properties_saved and not overwrite:
+                raise ValueError("Property {} already exists".format(property_name))
+
+        for property_name in property_names:
+            property_value = self.properties_loaded[property_name]
 
             if property_name in self.properties_saved:
-                if overwrite:
-                    warnings.warn("Property {} already exists, overwriting".format(property_name))
-                else:
-                    raise ValueError("Property {} already exists".format(property_name))
+                warnings.warn("Property {} already exists, overwriting".format(property_name))
 
             with h5py.File(self.path,'a') as file:
                 if not property_name in file[self.groupname].keys():
-- 
2.43.0


From 5b6f587078e2f2ceb1329c8ae8387097acf47fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 32/87] fix: do not cast overwritten properties to the old data
 type on disk

---
 simim/_handlers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 6f22360..d462c9e 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -378,10 +378,9 @@ class Handler():
                 warnings.warn("Property {} already exists, overwriting".format(property_name))
 
             with h5py.File(self.path,'a') as file:
-                if not property_name in file[self.groupname].keys():
-                    file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
-                else:
-                    file[self.groupname][property_name][:] = property_value
+                if property_name in file[self.groupname].keys():
+                    del file[self.groupname][property_name] # The data type might be different
+                file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
 
                 file[self.groupname][property_name].attrs['units'] = self.properties_units[property_name]
                 file[self.groupname][property_name].attrs['h dependence'] = self.properties_h_dependence[property_name]
-- 
2.43.0


From 498fef539eeeeed2c8d9f6a8b85646d8e0eb87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 33/87] fix: leave no trace of deleted properties and do not
 list mass_cuts as one

---
 simim/_handlers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index d462c9e..fb52e0b 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -412,7 +412,9 @@ class Handler():
                 else:
                     del file[self.groupname][property_name]
 
-                    self.properties_saved = [key for key in file[self.groupname].keys()]
+                    self.properties_saved = [key for key in file[self.groupname].keys() if key not in ['mass_cuts']]
+                    self.properties_loaded.pop(property_name,None)
+                    self.properties_generated = [i for i in self.properties_generated if i != property_name]
                     properties_all_new = []
                     for i in self.properties_all:
                         if i != property_name:
-- 
2.43.0


From 391481e23518b89e1b3545088e51cc40b403de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 34/87] fix: forget properties which are unloaded without
 having been written

---
 simim/_handlers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index fb52e0b..ba085a0 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -184,6 +184,13 @@ class Handler():
 
             self.properties_loaded.pop(property_name, None)
 
+            # A property which was never written to disk no longer exists
+            if property_name in self.properties_generated and not property_name in self.properties_saved:
+                self.properties_generated.remove(property_name)
+                self.properties_all = [i for i in self.properties_all if i != property_name]
+                self.properties_units.pop(property_name,None)
+                self.properties_h_dependence.pop(property_name,None)
+
     def return_property(self, property_name, use_all_inds=False, in_h_units=None):
         """Load a property from file and return
 
-- 
2.43.0


From bffafabcca61096d514c992f32e89e2c4d00271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 35/87] fix: refuse writing the properties of an empty
 selection to disk

---
 simim/_handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index ba085a0..984361b 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -297,7 +297,7 @@ class Handler():
             inds = self.inds_all
         else:
             inds = self.inds_active
-            if write_to_disk and not np.all(inds==self.inds_all):
+            if write_to_disk and len(inds) != self.nhalos_all:
                 raise ValueError("Cannot write to disk when using restricted index")
 
         # Handle renaming
-- 
2.43.0


From 77ae9556f4342ec7c16fc4d65a09da3fc1e13192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 36/87] fix: return to the units on disk when a property
 overwritten in memory is unloaded or loaded again

---
 simim/_handlers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 984361b..c1a7580 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -162,9 +162,16 @@ class Handler():
                 property_value = file[self.groupname][property_name][:]
                 if len(property_value) == 0:
                     property_value = property_value.flatten()
+                self._read_units(file,property_name)
 
             self.properties_loaded[property_name] = property_value
 
+    def _read_units(self, file, property_name):
+        """Set the units and h dependence of a property to those saved in an open file"""
+
+        self.properties_units[property_name] = file[self.groupname][property_name].attrs['units']
+        self.properties_h_dependence[property_name] = file[self.groupname][property_name].attrs['h dependence']
+
     def unload_property(self, *property_names):
         """Remove a property from memory (does not erase from file on disk)
 
@@ -184,6 +191,11 @@ class Handler():
 
             self.properties_loaded.pop(property_name, None)
 
+            # The values on disk might have other units than those overwritten in memory
+            if property_name in self.properties_saved:
+                with h5py.File(self.path,'r') as file:
+                    self._read_units(file,property_name)
+
             # A property which was never written to disk no longer exists
             if property_name in self.properties_generated and not property_name in self.properties_saved:
                 self.properties_generated.remove(property_name)
-- 
2.43.0


From beac83e69d33dd63cb381d53a90d2a4057da8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 37/87] fix: initialize snapshots when SimHandler is asked to

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 8702687..7fe9fd7 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -256,7 +256,7 @@ class SimHandler():
 
         self.init_snaps = init_snaps
         if self.init_snaps:
-            self.initialize_all_snaps(redo=True)
+            self.initialize_all_snaps(remake=True)
 
     def initialize_all_snaps(self,remake=False):
         """Initialize SnapHandlers for each snapshot
-- 
2.43.0


From 99cc88542bbf74e4e223f59045a471ac9d093b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 38/87] fix: give snapshot handlers the unit default of their
 simulation

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 7fe9fd7..c53fafe 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -446,7 +446,7 @@ class SimHandler():
         else:
             snap = snap_meta['index']
             redshift = snap_meta['redshift']
-            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h)
+            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h,in_h_units=self.default_in_h_units)
 
     def get_snap_from_z(self,z):
         """Return a SnapHandler instance for the snapshot closest to a requested redshift
-- 
2.43.0


From 17614ed2dbd7eb32014e654fdf42834006df19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 39/87] fix: number_volumes returned the inverse of the number
 of volumes in the box

---
 simim/siminterface/simhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index c53fafe..3955978 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -322,9 +322,9 @@ class SimHandler():
             in_h_units = self.default_in_h_units
 
         if in_h_units:
-            return volume / self.box_edge_h**3
+            return self.box_edge_h**3 / volume
         else:
-            return volume / self.box_edge_no_h**3
+            return self.box_edge_no_h**3 / volume
 
     def extract_snap_meta(self,snap):
         """Get the meta-data for a snapshot
-- 
2.43.0


From 3d4cf92b348e97ccbc33b7a4197a0e5e59470281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 40/87] fix: z_to_snap at and beyond the ends of the covered
 redshift range

---
 simim/siminterface/simhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 3955978..50b11ce 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -360,9 +360,9 @@ class SimHandler():
             The index number of the snapshot matching the requested redshift
         """
 
-        if z > np.amax(self.z_bins) or z < 0:
+        if z > np.amax(self.z_bins) or z < np.amin(self.z_bins):
             raise ValueError("z out of range")
-        bin = np.digitize(z,self.z_bins)-1
+        bin = min(np.digitize(z,self.z_bins)-1, len(self.z_bin_snaps)-1)
         bin_id = self.z_bin_snaps[bin]
 
         return bin_id
-- 
2.43.0


From a75f55a30b6089fc953b0d4827817f3d76a9aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 41/87] fix: convert masses without little h to Msun/h when
 looking up mass cuts

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 50b11ce..75b4ae9 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -413,7 +413,7 @@ class SimHandler():
             if in_h_units:
                 mass_check = mass
             else:
-                mass_check = mass / self.h
+                mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
             if len(vals) < 1:
-- 
2.43.0


From 60ad687c29d2815e9f85c641775450e952e99b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 42/87] fix: get_mass_index dropped objects outside the range
 of the mass cuts

---
 simim/siminterface/simhandler.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 75b4ae9..2b9fdd8 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -416,10 +416,8 @@ class SimHandler():
                 mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
-            if len(vals) < 1:
-                index = 0
-            elif len(vals) == len(mass_cuts):
-                index = mass_cuts['index'][-1]
+            if len(vals) == len(mass_cuts):
+                index = file["Snapshot {}".format(snap)]['mass'].shape[0] # Below all cuts
             else:
                 index = mass_cuts['index'][len(vals)]
 
-- 
2.43.0


From 416cee17b6b4cb8d54109bfc02ceef0826511b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 43/87] fix: registered paths containing spaces were cut short
 on reload

---
 simim/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index 1761fe5..9ab055a 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -18,7 +18,7 @@ def _checkload_path_file(path):
     if os.path.exists(path):
         with open(path) as file:
             for line in file.readlines():
-                line_split = line.replace('\n','').split(' ')
+                line_split = line.replace('\n','').split(' ',1)
                 endpoint[line_split[0]] = line_split[1]
     return endpoint
 
-- 
2.43.0


From f5166bd5af290394e318c9d11ad474b0f6c71bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 44/87] fix: map_fields failed for an integer kernel_size

---
 simim/instrument/instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 29b5777..d953346 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -784,6 +784,8 @@ class Instrument:
 
         if kernel_size is None:
             kernel_size = np.round(self.best_spatial_res / field.pixel_size[:2]).astype(int) * 10 + 1
+        elif np.ndim(kernel_size) == 0:
+            kernel_size = (kernel_size, kernel_size)
         
         # Check that the value of norm is recognized
         if spatial_response_norm not in ['peak','area','none']:
-- 
2.43.0


From fcb0802f070659e5091a99ef8109bd2de0abda2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 45/87] fix: map_fields mapped property 0 whatever property was
 selected for the field

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index d953346..d54b61d 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -869,7 +869,7 @@ class Instrument:
 
         # Iterate through fields
         for f in field_names:
-            field = self.fields[f]
+            field = self.fields[f].copy(properties=self.field_props[f])
 
             all_detector_maps = [None for i in range(len(self.detector_names))]
             
-- 
2.43.0


From 0b631455141f08b97b1cad93c60b90a5ff5b8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 46/87] fix: grids of detector maps had units for one property
 only

---
 simim/instrument/instrument.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index d54b61d..f627725 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -897,6 +897,7 @@ class Instrument:
             # Hijack last 2d grid and turn it into a grid with each map as a property
             detector_map.grid = all_detector_maps
             detector_map.n_properties = len(self.detector_names)
+            detector_map.gridunits = np.repeat(field.gridunits,len(self.detector_names))
 
             # Save the result
             self.maps[f] = detector_map
-- 
2.43.0


From 89c655a44dedf1e8222c6b3b1c66f76b9445be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 47/87] fix: add_field compared the property index with the
 number of dimensions

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index f627725..a79852b 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -672,7 +672,7 @@ class Instrument:
 
         if field_property_idx is None:
             field_property_idx = 0
-        if field_property_idx > grid.n_dimensions-1 or field_property_idx < 0:
+        if field_property_idx > grid.n_properties-1 or field_property_idx < 0:
             raise ValueError(f"grid does not have property {field_property_idx}")
         if _check:
             _check_grid_detector_compatibility(self,grid,field_property_idx)
-- 
2.43.0


From 06fafc33d870e6416bd7e9bd350818ad0a83c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 48/87] fix: flux unit of fields with units was never
 recognized

---
 simim/instrument/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/_helpers.py b/simim/instrument/_helpers.py
index a35f977..3cca116 100644
--- a/simim/instrument/_helpers.py
+++ b/simim/instrument/_helpers.py
@@ -89,7 +89,7 @@ def _check_grid_detector_compatibility(detector,grid,field_property_idx):
         warnings.warn("Detector unit for flux not specified. Assuming it matches grid unit")
     else:
         try: 
-            _check_unit(grid.gridunits,'flux')
+            _check_unit(grid.gridunits[field_property_idx],'flux')
         except:
             raise ValueError("grid flux unit not recognized")
         if grid.gridunits[field_property_idx] != detector.flux_unit:
-- 
2.43.0


From b3fe2a7ad2679b876919c162d51ea20a383b458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 49/87] fix: del_fields left the consistency flag of fields
 that were never mapped

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index a79852b..5d24e2a 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -722,7 +722,7 @@ class Instrument:
 
             if f in self.maps:
                 self.maps.pop(f)
-                self.maps_consistent.pop(f)
+            self.maps_consistent.pop(f)
 
 
     def _find_spatial_clones(self) -> list:
-- 
2.43.0


From 4097ad39243370e9a06c23442d53d6f57118cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 50/87] fix: a detector named 'instrument' overwrote the
 instrument defaults

---
 simim/instrument/instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 5d24e2a..7490a08 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -495,6 +495,8 @@ class Instrument:
         # Set name
         if name is None:
             name = str(self.detector_counter)
+        if name == 'instrument':
+            raise ValueError("Name 'instrument' is reserved for the instrument's default responses")
         if name in self.detector_names:
             raise ValueError("Name already in use - this may be because you specified a pre-existing name or because another detector has been given a numerical name that would have been used as a default")
         
-- 
2.43.0


From fe4ddc7e1fe55c4b7333896a5b6fe22397657c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 51/87] fix: convolve failed when pad was given per axis

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d53ff47..a5561dc 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1132,6 +1132,8 @@ class Grid():
             pad = np.array([pad for i in range(len(ax))]).astype(int)
         elif pad is None:
             pad = np.array([0 for i in range(len(ax))]).astype(int)
+        else:
+            pad = np.array(pad).astype(int)
 
         # Do the dang thing
         if in_place:
-- 
2.43.0


From 796284f17b8d001dd93ec002483bfcfaa9f6e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 52/87] fix: kamenetzky16 used an undefined luminosity and
 failed for every input

---
 simim/galprops/line_co.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_co.py b/simim/galprops/line_co.py
index 435d8cb..00b801d 100644
--- a/simim/galprops/line_co.py
+++ b/simim/galprops/line_co.py
@@ -257,7 +257,9 @@ def kamenetzky16(sfr,
     b_not         = np.array([ 0.8,  0.4,  0.9,  1.2,  2.1,  2.3,  2.8,  2.5,  2.7,  2.5,  2.7,  3.4,  2.2])
     b_sig_not     = np.array([ 0.8,  0.9,  0.4,  0.5,  0.5,  0.4,  0.4,  0.5,  0.5,  0.5,  0.6,  0.4,  0.5])
 
-    L_fir = sfr/d_mf*1e10*fircor
+    sfr = np.array(sfr, ndmin=1)
+    L_ir = sfr/d_mf*1e10
+    L_fir = L_ir*fircor
 
     a_gal = np.zeros((len(sfr), len(lines)))
     b_gal = np.zeros((len(sfr), len(lines)))
@@ -276,8 +278,8 @@ def kamenetzky16(sfr,
         a_gal[:,:] = a[lines]
         b_gal[:,:] = b[lines]
 
-    L_ir = L_ir.reshape(len(sfr),1) * np.ones((1,len(lines)))
-    log_L_co_p = (np.log10(L_ir) - b_gal) / a_gal
+    L_fir = L_fir.reshape(len(sfr),1) * np.ones((1,len(lines)))
+    log_L_co_p = (np.log10(L_fir) - b_gal) / a_gal
     L_co_p = np.power(10,log_L_co_p)
     L_co = L_co_p * 4.9e-5 * (f[lines]/constants.nu_co10)**3
 
-- 
2.43.0


From 62a1f8602d0db4649f1ba78555e57e9e9ea6d694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 53/87] fix: Behroozi scatter ignored the random generator it
 was given

---
 simim/galprops/sfr_behroozi13.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 9a291c0..0957d79 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -170,7 +170,7 @@ class behroozi13_base():
         sfrval = self.sfr_function.ev(redshift,mass)
 
         if scatter:
-            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True)
+            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return sfrval
 
@@ -210,7 +210,7 @@ class behroozi13_base():
         stellarmassval = self.stellarmass_function.ev(redshift,mass)
 
         if scatter:
-            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True)
+            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return stellarmassval
 
-- 
2.43.0


From f19a6d8de084e5f103ddc4f637a45237b964fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 54/87] fix: Behroozi model returned an exception object
 instead of raising it

---
 simim/galprops/sfr_behroozi13.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 0957d79..4e7455c 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -159,7 +159,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
@@ -199,7 +199,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
-- 
2.43.0


From 85433fdc58f3d9f9043929a565c1114e41442d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 55/87] fix: yang22 duty cycle used the global random state

---
 simim/galprops/line_fir_yang.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 55eb1be..8c36e58 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -50,14 +50,14 @@ def yang22(mass,redshift,line='CII',
 
     m1 = 10**m1
     n = 10**n
-    L = 2 * n * mass * ((mass/m1)**-a + (mass/m1)**b)**-1
+    L = np.array(2 * n * mass * ((mass/m1)**-a + (mass/m1)**b)**-1, ndmin=1)
 
     if scatter:
         L = log10normal(L, sig, preserve_linear_mean=False, rng=rng)
 
     if fduty:
         f = _yang22_fduty(mass, redshift)
-        L[np.random.rand(len(L))>f] = 0
+        L[rng.random(len(L))>f] = 0
 
     return L
 
-- 
2.43.0


From fab4ee1cd43800eaea2b5829507cfc3457355960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 56/87] fix: yang22 CO and CI lines failed for a scalar
 redshift

---
 simim/galprops/line_fir_yang.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 8c36e58..311d1af 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -148,7 +148,7 @@ def _yang22_co_fit(redshift,line):
     pars = _yang22_co_params[_yang22_co_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
-    redshift = np.array(redshift)
+    redshift = np.array(redshift,ndmin=1)
 
     m1 = np.zeros(len(redshift))
     m1[redshift<4.0] = (pars['m1a'] + pars['m1b']*redshift)[redshift<4.0]
@@ -235,7 +235,7 @@ def _yang22_ci_fit(redshift,line):
     pars = _yang22_ci_params[_yang22_co_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
-    redshift = np.array(redshift)
+    redshift = np.array(redshift,ndmin=1)
 
     m1 = np.zeros(len(redshift))
     m1[redshift<4.0] = (pars['m1a']*np.exp(-redshift/pars['m1b']) + pars['m1c'])[redshift<4.0]
-- 
2.43.0


From 6bc35521311de313e65cce6129f46798b25c23a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 57/87] fix: yang22 CI parameters were selected with the CO
 line names

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 311d1af..1edc31b 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -232,7 +232,7 @@ def _yang22_ci_fit(redshift,line):
 
     if line not in ['CI1-0','CI2-1']:
         raise ValueError('CI line not recognized')
-    pars = _yang22_ci_params[_yang22_co_params['name']==line][0]
+    pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
     redshift = np.array(redshift,ndmin=1)
-- 
2.43.0


From b21944f4f755568ac462b9341bdbe1e3e3724af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 58/87] fix: duty cycle of an object depended on the redshifts
 of the others

---
 simim/galprops/line_co_dutycycle.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/simim/galprops/line_co_dutycycle.py b/simim/galprops/line_co_dutycycle.py
index fd401cb..413600f 100644
--- a/simim/galprops/line_co_dutycycle.py
+++ b/simim/galprops/line_co_dutycycle.py
@@ -1,5 +1,4 @@
 import numpy as np
-from scipy.interpolate import interp1d
 
 def f_duty(sf_length,redshift,cosmo):
     """Compute the fraction of star formating galaxies given a star formation
@@ -23,13 +22,9 @@ def f_duty(sf_length,redshift,cosmo):
     """
 
     redshift = np.array(redshift, ndmin=1)
-    if redshift.size>100:
-        redshift_nodes = np.linspace(np.amin(redshift),np.amax(redshift))
-        age_nodes = cosmo.age(redshift_nodes).value
-        age_spline = interp1d(redshift_nodes,age_nodes)
-        ages = age_spline(redshift)
-    else:
-        ages = cosmo.age(redshift).value
+    # Only compute each age once
+    redshift_unique, inds = np.unique(redshift, return_inverse=True)
+    ages = cosmo.age(redshift_unique).value[inds].reshape(redshift.shape)
 
     fraction = sf_length/ages
     fraction[fraction>1] = 1
-- 
2.43.0


From 0ad69f671606da736f99fa5612314a8e23601c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 59/87] fix: b17_sfms failed for scalar inputs

---
 simim/galprops/sfr_bethermin17.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/sfr_bethermin17.py b/simim/galprops/sfr_bethermin17.py
index eba84a3..32a428b 100644
--- a/simim/galprops/sfr_bethermin17.py
+++ b/simim/galprops/sfr_bethermin17.py
@@ -253,7 +253,7 @@ class bethermin17_base():
         """Compute main sequence given stellar mass and redshift"""
 
         term2 = np.log10(m_stars/1e9) - self.sfms_m1 - self.sfms_a2*np.log10(1+z)
-        term2[term2<0] = 0
+        term2 = np.maximum(term2, 0)
         logms = np.log10(m_stars/1e9) - self.sfms_m0 + self.sfms_a0*np.log10(1+z) - self.sfms_a1*term2**2
 
         if self.sfms_correztlowz:
-- 
2.43.0


From 24cc6bbab39efb599ffab0edd262b300fd6d932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 60/87] fix: abundance matching of arrays gave 0 at the ends of
 the matched range

---
 simim/galprops/galprops_am.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 534f644..54e90b2 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -113,7 +113,7 @@ def am_dfcat(prop1_cat: np.ndarray, prop2_rv: rv_continuous,
 
         if np.asarray(cum2).ndim > 0:
             ppf = np.zeros(len(cum2))
-            ppf[(cum2>missing_pmass_low_p2) & (cum2<(1-missing_pmass_high_p2))] = prop2_rv.ppf(cstar[(cum2>missing_pmass_low_p2) & (cum2<(1-missing_pmass_high_p2))])
+            ppf[(cum2>=missing_pmass_low_p2) & (cum2<=(1-missing_pmass_high_p2))] = prop2_rv.ppf(cstar[(cum2>=missing_pmass_low_p2) & (cum2<=(1-missing_pmass_high_p2))])
             ppf[cum2<missing_pmass_low_p2] = fillers[2]
             ppf[cum2>(1-missing_pmass_high_p2)] = fillers[3]
         else:
@@ -245,7 +245,7 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
 
         if np.asarray(cum1).ndim > 0:
             ppf = np.zeros(len(cum1))
-            ppf[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))] = prop1_rv.ppf(cstar[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))])
+            ppf[(cum1>=missing_pmass_low_p1) & (cum1<=(1-missing_pmass_high_p1))] = prop1_rv.ppf(cstar[(cum1>=missing_pmass_low_p1) & (cum1<=(1-missing_pmass_high_p1))])
             ppf[cum1<missing_pmass_low_p1] = fillers[2]
             ppf[cum1>(1-missing_pmass_high_p1)] = fillers[3]
         else:
@@ -274,7 +274,7 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
 
         if np.asarray(cum2).ndim > 0:
             ppf = np.zeros(len(cum2))
-            ppf[(cum2>missing_pmass_low_p2) & (cum2<(1-missing_pmass_high_p2))] = prop2_rv.ppf(cstar[(cum2>missing_pmass_low_p2) & (cum2<(1-missing_pmass_high_p2))])
+            ppf[(cum2>=missing_pmass_low_p2) & (cum2<=(1-missing_pmass_high_p2))] = prop2_rv.ppf(cstar[(cum2>=missing_pmass_low_p2) & (cum2<=(1-missing_pmass_high_p2))])
             ppf[cum2<missing_pmass_low_p2] = fillers[2]
             ppf[cum2>(1-missing_pmass_high_p2)] = fillers[3]
         else:
-- 
2.43.0


From f847c580ec214f25c9913b7f4039fed8ac578d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 61/87] fix: am_dfdf extrapolated property 1 with the fill
 values of property 2

---
 simim/galprops/galprops_am.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 54e90b2..0e87516 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -246,13 +246,13 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
         if np.asarray(cum1).ndim > 0:
             ppf = np.zeros(len(cum1))
             ppf[(cum1>=missing_pmass_low_p1) & (cum1<=(1-missing_pmass_high_p1))] = prop1_rv.ppf(cstar[(cum1>=missing_pmass_low_p1) & (cum1<=(1-missing_pmass_high_p1))])
-            ppf[cum1<missing_pmass_low_p1] = fillers[2]
-            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[3]
+            ppf[cum1<missing_pmass_low_p1] = fillers[0]
+            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[1]
         else:
             if cum1<missing_pmass_low_p1:
-                ppf = fillers[2]
+                ppf = fillers[0]
             elif cum1>1-missing_pmass_high_p1:
-                ppf = fillers[3]
+                ppf = fillers[1]
             else:
                 ppf = prop1_rv.ppf(cstar)
     
-- 
2.43.0


From 57db7a30a454cac75cfdbe61ed1b026bba3358ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 62/87] fix: abundance matching could give nan at the ends of
 the matched range from rounding

---
 simim/galprops/galprops_am.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 0e87516..17669d1 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -110,6 +110,7 @@ def am_dfcat(prop1_cat: np.ndarray, prop2_rv: rv_continuous,
         return cdf
     def ppf_func_p2(cum2):
         cstar = (cum2-missing_pmass_low_p2)/(1-missing_pmass_high_p2-missing_pmass_low_p2) * (prop2_rv.cdf(prop2_max)-prop2_rv.cdf(prop2_min))/1 + prop2_rv.cdf(prop2_min)
+        cstar = np.clip(cstar, prop2_rv.cdf(prop2_min), prop2_rv.cdf(prop2_max))
 
         if np.asarray(cum2).ndim > 0:
             ppf = np.zeros(len(cum2))
@@ -242,6 +243,7 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
         return cdf
     def ppf_func_p1(cum1):
         cstar = (cum1-missing_pmass_low_p1)/(1-missing_pmass_high_p1-missing_pmass_low_p1) * (prop1_rv.cdf(prop1_max)-prop1_rv.cdf(prop1_min))/1 + prop1_rv.cdf(prop1_min)
+        cstar = np.clip(cstar, prop1_rv.cdf(prop1_min), prop1_rv.cdf(prop1_max))
 
         if np.asarray(cum1).ndim > 0:
             ppf = np.zeros(len(cum1))
@@ -271,6 +273,7 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
         return cdf
     def ppf_func_p2(cum2):
         cstar = (cum2-missing_pmass_low_p2)/(1-missing_pmass_high_p2-missing_pmass_low_p2) * (prop2_rv.cdf(prop2_max)-prop2_rv.cdf(prop2_min))/1 + prop2_rv.cdf(prop2_min)
+        cstar = np.clip(cstar, prop2_rv.cdf(prop2_min), prop2_rv.cdf(prop2_max))
 
         if np.asarray(cum2).ndim > 0:
             ppf = np.zeros(len(cum2))
-- 
2.43.0


From 0d84dd453a27cf55a1be665d0ae6f09cff23a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 63/87] fix: Schechter distributions failed or gave wrong
 values for arrays of parameters

---
 simim/galprops/galprops_am.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 17669d1..1b4aadb 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -330,12 +330,7 @@ class schechter_gen(rv_continuous):
         return phi
 
     def lum_function_int(self, x, x0, alpha, phi0, xmin):
-        int = phi0 * self._uppergammamod(alpha+1, x/x0)
-        if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi0 * self._uppergammamod(alpha+1, xmin/x0)
-        else:
-            if x<xmin:
-                int = 1
+        int = phi0 * self._uppergammamod(alpha+1, np.maximum(x,xmin)/x0)
 
         return int
 
@@ -397,9 +392,9 @@ class schechter_gen(rv_continuous):
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
             c3 = (np.asarray(a) < 0) & (np.asarray(amod)!=0)
 
-            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
-            gp[c2] = -expi(-x[c2])
-            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
+            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x)
+            gp[c2] = -expi(-x)
+            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x)
 
         else:
             raise ValueError('a and x shapes incompatible')
@@ -411,7 +406,8 @@ class schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                xb = np.broadcast_to(x, np.shape(gp))
+                gp[n>i] = (gp[n>i] - xb[n>i]**(amod[n>i]-(i+1))*np.exp(-xb[n>i])) / (amod[n>i] - (i+1))
 
         return gp
     
@@ -472,12 +468,8 @@ class double_schechter_gen(rv_continuous):
         return phi
 
     def lum_function_int(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
-        int = phi1 * self._uppergammamod(alpha1+1, x/x0) + phi2 * self._uppergammamod(alpha2+1,x/x0)
-        if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
-        else:
-            if x<xmin:
-                int = 1
+        xm = np.maximum(x,xmin)
+        int = phi1 * self._uppergammamod(alpha1+1, xm/x0) + phi2 * self._uppergammamod(alpha2+1, xm/x0)
 
         return int
 
@@ -539,9 +531,9 @@ class double_schechter_gen(rv_continuous):
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
             c3 = (np.asarray(a) < 0) & (np.asarray(amod)!=0)
 
-            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
-            gp[c2] = -expi(-x[c2])
-            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
+            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x)
+            gp[c2] = -expi(-x)
+            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x)
 
         else:
             raise ValueError('a and x shapes incompatible')
@@ -553,7 +545,8 @@ class double_schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                xb = np.broadcast_to(x, np.shape(gp))
+                gp[n>i] = (gp[n>i] - xb[n>i]**(amod[n>i]-(i+1))*np.exp(-xb[n>i])) / (amod[n>i] - (i+1))
 
         return gp
     
-- 
2.43.0


From 84e7a573d7d9db79464b8c4d2b56f56728703b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 64/87] fix: light cones failed when a redshift limit is the
 edge of a snapshot

---
 simim/lightcone/lcmaker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 257055c..2ec73d1 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -437,8 +437,8 @@ class LCMaker(GenericLCMaker):
         # Figure out the range of snapshots needed
         self.snapshots_use = np.zeros(0,dtype=self.snap_meta.dtype)
         for i in self.snap_meta:
-            if self.redshift_min <= i['redshift_max']:
-                if self.redshift_max >= i['redshift_min']:
+            if self.redshift_min < i['redshift_max']:
+                if self.redshift_max > i['redshift_min']:
                     self.snapshots_use = np.concatenate((self.snapshots_use,[i]))
         self.snapshots_use = np.sort(self.snapshots_use,order='redshift')
 
-- 
2.43.0


From e76eaa230de45c59d883815697ca51832fd08cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 65/87] fix: the buffer of a light cone could be too small,
 leaving the corners of its field empty

---
 simim/lightcone/lcmaker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 2ec73d1..36b9f66 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -492,10 +492,11 @@ class LCMaker(GenericLCMaker):
             LOS_unit = LOS_vec/np.linalg.norm(LOS_vec)
 
             # Now test that there's enough room in the box for this thing...
-            angles = np.arctan([LOS_unit[1]/LOS_unit[0], LOS_unit[2]/LOS_unit[0], LOS_unit[2]/LOS_unit[1],
-                                LOS_unit[0]/LOS_unit[1], LOS_unit[0]/LOS_unit[2], LOS_unit[1]/LOS_unit[2]])
+            # The edge of the field has to clear the closest face of the box,
+            # and is nearer than the center by (1-cos(openradius))
+            face_angle = np.arcsin(np.amin(LOS_unit))
 
-            buffer_coef = 1.01 * np.tan(openradius) / np.sin(np.amin(angles)) # 1.01 is just to provide some padding
+            buffer_coef = 1.01 * (np.tan(openradius) / np.tan(face_angle) + 1 - np.cos(openradius)) # 1.01 is just to provide some padding
 
             max_distance = np.amax(self.snapshots_use['transverse_distance_max'])
             buffer_distance_max = buffer_coef * max_distance
-- 
2.43.0


From 72df9384c2b9813db1019b7257da485fda1846ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 66/87] fix: light cones included halos behind the observer

---
 simim/lightcone/lcmaker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 36b9f66..62ee58f 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -755,8 +755,12 @@ class LCMaker(GenericLCMaker):
                         iter_max_distance = start_distance + (iter_ind+1)*use_distance/iters
                         iter_max_distance = np.amin([iter_max_distance,end_distance])
 
+                        # Only in front of the observer
+                        in_front = (iter_position[:,0] + start_distance + iter_ind*use_distance/iters - buffer_distance) > 0
+
                         indices2 = np.where((candidate_distances < iter_max_distance)
-                                            & (candidate_distances >= iter_min_distance))
+                                            & (candidate_distances >= iter_min_distance)
+                                            & in_front)
 
                         selected_indices = np.intersect1d(indices1,indices2)
                         selected_distances = candidate_distances[selected_indices]
-- 
2.43.0


From df92f1a3f782a2caa235d4e9ba71dae191ae6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 67/87] fix: vector properties of light cones ignored the flips
 of the box

---
 simim/lightcone/lcmaker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 62ee58f..63401e1 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -322,6 +322,9 @@ class GenericLCMaker():
                             # Trim values to the indices
                             lc_values = values[:,indexing['index']]
 
+                            # Apply the same flips as for the positions
+                            lc_values = lc_values * lc_file.attrs['box flips'][:,np.newaxis]
+
                             # Get the matrices and do transformation
                             los_matrix = lc_file.attrs['line of sight transformation matrix']
                             pa_matrix = lc_file.attrs['position angle transformation matrix']
-- 
2.43.0


From 12bc27c900337cf77b2ae908f6b5ca1152624991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 68/87] fix: add_pos_properties failed for spheres

---
 simim/lightcone/lcmaker.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 63401e1..8f7b4d2 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -326,16 +326,18 @@ class GenericLCMaker():
                             lc_values = lc_values * lc_file.attrs['box flips'][:,np.newaxis]
 
                             # Get the matrices and do transformation
-                            los_matrix = lc_file.attrs['line of sight transformation matrix']
-                            pa_matrix = lc_file.attrs['position angle transformation matrix']
-                            lc_values = np.matmul(los_matrix,lc_values)
-                            lc_values = np.matmul(pa_matrix,lc_values)
-
+                            # (spheres keep the axes of the box)
+                            if 'line of sight transformation matrix' in lc_file.attrs:
+                                los_matrix = lc_file.attrs['line of sight transformation matrix']
+                                pa_matrix = lc_file.attrs['position angle transformation matrix']
+                                lc_values = np.matmul(los_matrix,lc_values)
+                                lc_values = np.matmul(pa_matrix,lc_values)
+                                lc_values = lc_values[[1,2,0]]
 
                             # Append the data
-                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[1]
-                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[2]
-                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[1]
+                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[2]
 
         # Note in LC files that we're done
         for i in range(self.n):
-- 
2.43.0


From 013330495d924bbf4f51c61518157d2e11213738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 69/87] fix: eval_stat_evo left the count of active halos and
 the extra arguments changed

---
 simim/lightcone/lchandler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index ddc9032..b38fae0 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -183,8 +183,12 @@ class LCHandler(Handler):
             give_args_in_h_units = self.default_in_h_units
 
         redshift_bins = np.sort(redshift_bins)
-        
+
+        # Work on a copy, to leave the caller's (or the default) dictionary alone
+        other_kws = dict(other_kws)
+
         inds_active_save = np.copy(self.inds_active)
+        nhalos_active_save = self.nhalos_active
 
         vals = []
         for bin in range(len(redshift_bins)-1):
@@ -209,11 +213,9 @@ class LCHandler(Handler):
                                        use_all_inds=False,
                                        give_args_in_h_units=give_args_in_h_units))
 
-            other_kws.pop('zmin',None)
-            other_kws.pop('zmax',None)
-
         # Reset active inds
         self.inds_active = np.copy(inds_active_save)
+        self.nhalos_active = nhalos_active_save
 
         return redshift_bins, vals
 
-- 
2.43.0


From 661762c8224cc1ff2fa00d34b7d5659354dc6c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 70/87] fix: properties could not be added to empty light cones

---
 simim/lightcone/lcmaker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 8f7b4d2..4f23666 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -161,7 +161,9 @@ class GenericLCMaker():
 
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
-                if shape[0] < chunks[0]:
+                if shape[0] == 0:
+                    chunks = None
+                elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
                     file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
@@ -268,7 +270,9 @@ class GenericLCMaker():
 
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
-                if shape[0] < chunks[0]:
+                if shape[0] == 0:
+                    chunks = None
+                elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
-- 
2.43.0


From 850f997598833e32e51981dfea69b4486f8633e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 71/87] fix: the volume of spherical light cones could not be
 computed

---
 simim/lightcone/lchandler.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index b38fae0..180a251 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -26,6 +26,9 @@ class LCHandler(Handler):
     to do so).
     """
 
+    # Solid angles of the shapes made by SphereMaker
+    _solid_angles = {'sphere':4*np.pi, 'hemisphere':2*np.pi, 'quarter':np.pi, 'eighth':np.pi/2}
+
     def __init__(self,sim,name,number,in_h_units=False):
         """Initialize Handler for a specified lightcone
 
@@ -134,10 +137,11 @@ class LCHandler(Handler):
         if shape == None:
             shape=self.metadata['shape']
         
-        if open_angle == None:
-            open_angle=self.metadata['open angle']
-        if aspect_ratio == None:
-            aspect_ratio=self.metadata['aspect ratio']
+        if shape in ['box','circle']:
+            if open_angle == None:
+                open_angle=self.metadata['open angle']
+            if aspect_ratio == None:
+                aspect_ratio=self.metadata['aspect ratio']
 
         # Check everything
         if redshift_min < self.metadata['minimum redshift']:
@@ -145,10 +149,13 @@ class LCHandler(Handler):
         if redshift_max > self.metadata['maximum redshift']:
             raise ValueError("redshift_max higher than maximum of lightcone")
 
-        if shape not in ['box','circle']:
+        if shape not in ['box','circle',*self._solid_angles]:
             raise ValueError("Shape not recognized")
 
-        if shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
+        if shape in self._solid_angles:
+            if shape != self.metadata['shape']:
+                raise ValueError("Shape does not match lightcone")
+        elif shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
             if open_angle > self.metadata['open angle']:
                 raise ValueError("openangle larger than lightcone")
             if open_angle*aspect_ratio > self.metadata['open angle']*self.metadata['aspect ratio']:
@@ -164,6 +171,8 @@ class LCHandler(Handler):
             area = open_angle * open_angle * aspect_ratio
         elif shape == 'circle':
             area = np.pi * (open_angle/2)**2
+        else:
+            area = self._solid_angles[shape]
 
         v2 = self.cosmo.comoving_volume(redshift_max).value
         v1 = self.cosmo.comoving_volume(redshift_min).value
-- 
2.43.0


From 3d42c6fcdabc345cac42ff6040a7255e0ff52546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 72/87] fix: LCHandler.volume compared a squared angle with an
 angle

---
 simim/lightcone/lchandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 180a251..92fa839 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -163,7 +163,7 @@ class LCHandler(Handler):
 
         if shape == 'box' and self.metadata['shape'] == 'circle':
             radius2 = open_angle**2 + (open_angle*aspect_ratio)**2
-            if radius2 > self.metadata['open angle']:
+            if radius2 > self.metadata['open angle']**2:
                 raise ValueError("specified box does not fit in circular lightcone")
 
         # Figure out the volume
-- 
2.43.0


From 935150967f13a9d57bd71302a36acb612441bbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 73/87] fix: LCHandler.volume accepted circles wider than a
 rectangular light cone

---
 simim/lightcone/lchandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 92fa839..856a07d 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -161,6 +161,10 @@ class LCHandler(Handler):
             if open_angle*aspect_ratio > self.metadata['open angle']*self.metadata['aspect ratio']:
                 raise ValueError("secondary angle (openangle * aspect) larger than lightcone")
 
+        if shape == 'circle' and self.metadata['shape'] == 'box':
+            if open_angle > self.metadata['open angle']*self.metadata['aspect ratio']:
+                raise ValueError("specified circle does not fit in rectangular lightcone")
+
         if shape == 'box' and self.metadata['shape'] == 'circle':
             radius2 = open_angle**2 + (open_angle*aspect_ratio)**2
             if radius2 > self.metadata['open angle']**2:
-- 
2.43.0


From 151246d9dc3ca26ac7796e07bd9e232fe3e2fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 74/87] fix: LCIterator failed for spheres

---
 simim/lightcone/lchandler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 856a07d..45c6bed 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -564,10 +564,13 @@ class LCIterator():
 
         # Check for consistency of metadata
         ref_lc = self.lc_handlers[str(self.lc_numbers[0])]
-        for attr in ['cosmo','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
+        attrs = ['cosmo','shape','minimum_redshift','maximum_redshift']
+        if ref_lc.shape in ['circle','box']:
+            attrs += ['open_angle','aspect_ratio']
+        for attr in attrs:
             setattr(self,attr,getattr(ref_lc,attr))
             for i_lc in self.lc_numbers[1:]:
-                if getattr(self.lc_handlers[str(i_lc)],attr) != getattr(self,attr):
+                if getattr(self.lc_handlers[str(i_lc)],attr,None) != getattr(self,attr):
                     if self.require_consistent:
                         raise ValueError("Attribute {} does not match for light cones {} and {}".format(attr, self.lc_numbers[0],i_lc))
                     else:
-- 
2.43.0


From f82e769611f89821c682bb5f64241d1c25515126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 75/87] fix: properties added to light cones were rounded to
 single precision

---
 simim/lightcone/lcmaker.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 4f23666..732af37 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -153,6 +153,11 @@ class GenericLCMaker():
 
         keys = np.sort(new_lc_keys)
 
+        # Keep the data types of the simulation
+        with h5py.File(os.path.join(self.sim_path,'data.hdf5'),'r') as sim_file:
+            snap_grp = sim_file['Snapshot {}'.format(self.snapshots_use[0]['index'])]
+            dtypes = {key:snap_grp['mass' if key == 'masscheck' else key].dtype for key in keys}
+
         # Note in LC files that we're adding properties
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
@@ -166,7 +171,7 @@ class GenericLCMaker():
                 elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
-                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
+                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
                     if key == 'masscheck':
                         file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units['mass']
                         file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
@@ -262,6 +267,11 @@ class GenericLCMaker():
 
         keys = np.sort(new_lc_keys)
 
+        # Keep the data types of the simulation
+        with h5py.File(os.path.join(self.sim_path,'data.hdf5'),'r') as sim_file:
+            snap_grp = sim_file['Snapshot {}'.format(self.snapshots_use[0]['index'])]
+            dtypes = {key:snap_grp[key+'_x'].dtype for key in keys}
+
         # Note in LC files that we're adding properties
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
@@ -276,7 +286,7 @@ class GenericLCMaker():
                     chunks = shape
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
-                        file['Lightcone Full'].create_dataset(key+subkey,shape=shape,chunks=chunks)
+                        file['Lightcone Full'].create_dataset(key+subkey,shape=shape,chunks=chunks,dtype=dtypes[key])
                         file['Lightcone Full'][key+subkey].attrs['units'] = self.sim_handler.key_units[key+subkey]
                         file['Lightcone Full'][key+subkey].attrs['h dependence'] = self.sim_handler.key_h_dependence[key+subkey]
 
-- 
2.43.0


From 65041ec8d389edfcc193d43cbd8baec249e085e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 76/87] fix: add_pos_properties took an unrelated property for
 a vector that is already there

---
 simim/lightcone/lcmaker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 732af37..765c058 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -253,7 +253,7 @@ class GenericLCMaker():
         pos_keys = ['pos','v','spin','cm']
 
         with h5py.File(os.path.join(self.lc_path,'lc_0000.hdf5'),'r') as file:
-            old_lc_keys = [i[:-2] for i in file['Lightcone Full'].keys() if i[:-2] in pos_keys]
+            old_lc_keys = [i[:-2] for i in file['Lightcone Full'].keys() if i[:-2] in pos_keys and i[-2:] in ['_x','_y','_z']]
         old_lc_keys = np.unique(old_lc_keys)
 
         new_lc_keys = []
-- 
2.43.0


From f5f8bfc73953008a0f5a2892b9c003e2a7caff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 77/87] fix: Illustris snapshot metadata were sorted twice,
 scrambling lists that are not in order

---
 simim/siminterface/illustris.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index d37573a..85321af 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -454,8 +454,7 @@ class IllustrisCatalogs(SimCatalogs):
         for i in snap_meta_raw:
             snap_meta_classes.append(Snapshot(i['number'],i['redshift'],self.metadata))
             numbers.append(i['number'])
-        snap_meta_classes = [snap_meta_classes[i] for i in np.argsort(numbers)]
-        
+
         order = np.argsort(numbers)
         snap_meta_classes = [snap_meta_classes[i] for i in order if numbers[i] in self.snaps]
 
-- 
2.43.0


From 249b13cad3f117f0f63ddb1fb25d4d735e0972b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 78/87] fix: Illustris black hole accretion rates were not
 converted to their stated units

---
 simim/siminterface/illustris.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 85321af..d1e435a 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -252,10 +252,10 @@ class IllustrisCatalogs(SimCatalogs):
             return x*1e10
         def kpc_to_mpc(x,h):
             return x / 1000
-        def illustris_bhmassunit(x,h):
-            return x * 0.978
+        def illustris_mdot(x,h):
+            return x * 1e10 / 0.978
         self.transform_keys = {'SubhaloBHMass':power_10,
-                               'SubhaloBHMdot':power_10,
+                               'SubhaloBHMdot':illustris_mdot,
                                'SubhaloMass':power_10,
                                'SubhaloMassInHalfRad':power_10,
                                'SubhaloMassInHalfRadType':power_10,
@@ -272,8 +272,7 @@ class IllustrisCatalogs(SimCatalogs):
                                'SubhaloPos':kpc_to_mpc,
                                'SubhaloSpin':kpc_to_mpc,
                                'SubhaloStellarPhotometricsRad':kpc_to_mpc,
-                               'SubhaloVmaxRad':kpc_to_mpc,
-                               'SubhaloBHMdot':illustris_bhmassunit
+                               'SubhaloVmaxRad':kpc_to_mpc
                                }
         # self.mass_e8_keys = ['SubhaloBHMass','SubhaloBHMdot','SubhaloMass',
         #                   'SubhaloMassInHalfRad','SubhaloMassInHalfRadType',
-- 
2.43.0


From 21a5c6910a4f19928fc8a104f6d8523fd106724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 79/87] fix: Illustris sfr_hr was lost and sfr_2hr held its
 values

---
 simim/siminterface/illustris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index d1e435a..f7be936 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -191,7 +191,7 @@ class IllustrisCatalogs(SimCatalogs):
                             'SubhaloSFRinMaxRad':[('sfr_maxr','f','Msun/yr',0)],
                             # Same as SubhaloSFR, but restricted to cells within
                             # twice the stellar half mass radius.
-                            'SubhaloSFRinHalfRad':[('sfr_2hr','f','Msun/yr',0)],
+                            'SubhaloSFRinRad':[('sfr_2hr','f','Msun/yr',0)],
 
                             # Mass-weighted average metallicity (Mz/Mtot, where
                             # Z = any element above He) of the star particles bound
-- 
2.43.0


From 24aa0c73dd61ce967c1fb2ea5819d9b9cc03a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 80/87] fix: UniverseMachine halo radii are converted to Mpc/h
 but were labelled kpc/h

---
 simim/siminterface/universemachine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index b601357..11d5d3a 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -136,8 +136,8 @@ class UniversemachineCatalogs(SimCatalogs):
             #VMP: Halo vmax at the time when peak mass was reached.
             'vmp':[('vmax_peak','f','km/s',0)],
 
-            #R: Halo radius (BN98 vir, comoving kpc/h)
-            'r':[('r','f','kpc/h',-1)],
+            #R: Halo radius (BN98 vir, comoving kpc/h, converted to Mpc/h)
+            'r':[('r','f','Mpc/h',-1)],
 
             #Rank1: halo rank in Delta_vmax (see UniverseMachine paper)
             'rank1':[('Rank1','f','None',0)],
-- 
2.43.0


From dbbabd9d2af43054a615b0ec83327421619666e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 81/87] fix: star formation rates in UniverseMachine binary
 files were read as integers

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 11d5d3a..7b29954 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -271,7 +271,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'),
                                     ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'),
                                     ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'),
-                                    ('icl', 'f4'), ('sfr', 'i4'), ('obs_sm', 'f4'),
+                                    ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'),
                                     ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')],
                              align=True)
 
-- 
2.43.0


From f57311c410f5e15d9933e87d9a4bdbb10f40771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 82/87] fix: positions read from UniverseMachine binary files
 were not wrapped into the box

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 7b29954..492b4fe 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -282,7 +282,7 @@ class UniversemachineCatalogs(SimCatalogs):
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-        subhalos['pos'][:,0:3] % self.box_edge
+        subhalos['pos'][:,0:3] = subhalos['pos'][:,0:3] % self.box_edge
         n_halos = len(data_raw)
 
         return subhalos, n_halos
-- 
2.43.0


From 1b0d9f2be969cc571a185db039fa9b98175f08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 83/87] fix: UniverseMachine text catalogs with a single halo
 could not be read

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 492b4fe..fb0002c 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -232,7 +232,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('m','f'),('v','f'),('mp','f'),('vmp','f'),('r','f'),
                                     ('rank1','f'),('rank2','f'),('ra','f'),('rarank','f'),
                                     ('sm','f'),('icl','f'),('sfr','f'),('obs_sm','f'),('obs_sfr','f'),('obs_ssfr','f'),('smhm','f'),('obs_uv','f')])
-        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#')
+        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#', ndmin=1)
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-- 
2.43.0


From 84129bd1a24e9b4e4067e78e56657890c080d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 84/87] fix: UniverseMachine snapshot numbers did not match
 their files when the files were not listed in order

---
 simim/siminterface/universemachine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index fb0002c..46ee202 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -85,6 +85,9 @@ class UniversemachineCatalogs(SimCatalogs):
                 raise ValueError("Unable to access file names on {}".format(self.webpage))
             np.save(self.web_path,self.web_files)
 
+        # Snapshots are numbered from the lowest scale factor up
+        self.web_files = self.web_files[np.argsort([float(t.split('_')[-1][:-4]) for t in self.web_files])]
+
         # Identify keys that will require unit conversions
         # For UM these are mostly empty because everythings in units
         # we like already.
-- 
2.43.0


From aacb0b9ded93c6acd808358a59fd60fd15e3d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 85/87] fix: a file formatted for some of the snapshots listed
 all of them

---
 simim/siminterface/_rawsiminterface.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index e7ca882..0912a43 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -421,7 +421,10 @@ class SimCatalogs():
                 for key in self.metadata.keys():
                     file.attrs[key] = self.metadata[key]
 
-                file.attrs['snapshots'] = self.snap_meta
+                # List only the snapshots that are written to the file
+                meta_snaps = self.snap_meta[np.isin(self.snap_meta['index'], snaps_to_do)]
+                file.attrs['snapshots'] = meta_snaps
+                file.attrs['number_snaps'] = len(meta_snaps)
 
         # Cases 2 and 3 - need to first get the fields to write and figure out what snaps are called for and get current metadata
         # Then sort through the requested snaps and decide whether to overwrite them or not when duplicated
-- 
2.43.0


From 0271bb4f37c30d4b375124e7354cfc5b7183e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 86/87] fix: data paths with spaces or shell characters were
 passed unquoted to rm and wget

---
 simim/siminterface/_rawsiminterface.py | 5 +++--
 simim/siminterface/illustris.py        | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 0912a43..a47e390 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -1,4 +1,5 @@
 import os
+import shlex
 import warnings
 
 from astropy.cosmology import FlatLambdaCDM
@@ -337,7 +338,7 @@ class SimCatalogs():
 
         # Remove stuff
         file_path = os.path.join(self.path,'raw')
-        os.system("rm -r {}".format(file_path))
+        os.system("rm -r {}".format(shlex.quote(file_path)))
 
     def format(self,remake=False,overwrite=False,basic=False,realtime_clean_raw=False,realtime_clean_raw_check=True):
         """Convert the unformatted simulation data into the uniform format used by 
@@ -580,6 +581,6 @@ class SimCatalogs():
                 rawsnapfiles = self._get_rawsnapfiles(snap)
                 for file in rawsnapfiles:
                     file_path = os.path.join(self.path,'raw',file)
-                    os.system("rm -r {}".format(file_path))
+                    os.system("rm -r {}".format(shlex.quote(file_path)))
 
 
diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index f7be936..fbb1607 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -1,5 +1,6 @@
 import os
 import requests
+import shlex
 import warnings
 
 import numpy as np
@@ -369,7 +370,7 @@ class IllustrisCatalogs(SimCatalogs):
             wget_cmd += '--header="API-Key: {}" '.format(self.api_key)
             wget_cmd += '"http://www.tng-project.org/api/{}'.format(self.sim)
             wget_cmd += '/files/groupcat-{}/?format=api" '.format(i)
-            wget_cmd += '-P {}'.format(file_path)
+            wget_cmd += '-P {}'.format(shlex.quote(file_path))
 
             # Download the data and check that it all arrives, retry if it doesn't
             print("\nDownloading Snapshot {}".format(i))
-- 
2.43.0


From 0764973af6bb9654f2a1f055c6e350573325ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 87/87] fix: the twelfth Uchuu data file was not removed with
 the other raw files

---
 simim/siminterface/uchuu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index da962a7..15e56a9 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -242,7 +242,7 @@ class UchuuCatalogs(SimCatalogs):
 
     def _get_rawsnapfiles(self, snapshot):
         """Get path to a snapshot's raw file"""
-        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,12)]
+        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,13)]
         return rawsnapfiles
 
     def download_meta(self, redownload=False):
-- 
2.43.0

