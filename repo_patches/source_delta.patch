From 973512b5a77e5fd133714dbfffab8fa82fc3b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 01/74] fix: chunk by size in parallel.chunk_* when size is
 given

---
 viscid/parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 0d146cd..1fb0eb7 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -80,7 +80,7 @@ def chunk_list(seq, nchunks, size=None):
     nel = len(seq)
 
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     ret = chunk_slices(nel, nchunks)
     for i in range(nchunks):
@@ -111,7 +111,7 @@ def chunk_slices(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
@@ -169,7 +169,7 @@ def chunk_sizes(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
-- 
2.43.0


From 289cdf479f03577a1315dfe021a7eba6224e82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 02/74] fix: make_fwd_slice handles empty and flipped backward
 slices, negative indices

---
 viscid/sliceutil.py | 86 ++++++++++++++++++---------------------------
 1 file changed, 35 insertions(+), 51 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 806637a..57390f3 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -904,8 +904,8 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
 
     # ya know, lets just go through all the dimensions in shape
     # just to be safe and default to an empty slice / no reverse
-    slices = slices + [slice(None)] * (len(shape) - len(slices))
-    reverse = reverse + [False] * (len(slices) - len(reverse))
+    slices = list(slices) + [slice(None)] * (len(shape) - len(slices))
+    reverse = list(reverse) + [False] * (len(slices) - len(reverse))
 
     first_slc = [slice(None)] * len(slices)
     second_slc = [slice(None, None, 1)] * len(first_slc)
@@ -913,66 +913,50 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     for i, slc, L, rev in izip(count(), slices, shape, reverse):
         if isinstance(slc, slice):
             step = slc.step if slc.step is not None else 1
-            start = slc.start if slc.start is not None else 0
-            stop = slc.stop if slc.stop is not None else L
-            if start < 0:
+            start, stop = slc.start, slc.stop
+            if start is not None and start < 0:
                 start += L
-            if stop < 0:
+            if stop is not None and stop < 0:
                 stop += L
 
             # sanity check the start/stop since we're gunna be playing
             # fast and loose with them
-            if start < 0 or stop < 0:
-                raise IndexError("((start = {0}) or (stop = {1})) < 0"
-                                 "".format(start, stop))
-            if start > L or stop > L:
-                raise IndexError("((start={0}) or (stop={1})) > (L={2})"
-                                 "".format(start, stop, L))
-
-            # now do the math of flipping the slice if needed, these branches
-            # change start, stop, and step so they can be used to create a new
-            # slice below
-            if rev:
+            for s in (start, stop):
+                if s is not None and s < 0:
+                    raise IndexError("((start = {0}) or (stop = {1})) < 0"
+                                     "".format(start, stop))
+                if s is not None and s > L:
+                    raise IndexError("((start={0}) or (stop={1})) > (L={2})"
+                                     "".format(start, stop, L))
+
+            # fill in the ends that were not given, a stop of -1 means that
+            # a backward slice goes all the way to the first element
+            if step > 0:
+                start = 0 if start is None else start
+                stop = L if stop is None else stop
+                n_sel = (stop - start + step - 1) // step
+            else:
+                start = L - 1 if start is None or start == L else start
+                stop = -1 if stop is None else stop
+                n_sel = (start - stop - step - 1) // -step
+
+            if n_sel > 0:
+                last = start + (n_sel - 1) * step
+                # now do the math of flipping the slice if needed
+                if rev:
+                    start, last, step = L - 1 - start, L - 1 - last, -step
                 if step < 0:
-                    step = -step
-                    if slc.start is None:
-                        start = L - 1
-                    if slc.stop is None:
-                        start = L - 1 - start
-                        stop = None
-                    else:
-                        start, stop = L - 1 - start, L - 1 - stop
-                else:
-                    start, stop = L - stop, L - start
-                    start += ((stop - 1 - start) % step)
+                    start, last, step = last, start, -step
                     second_slc[i] = slice(None, None, -1)
-            elif step < 0:
-                step = -step
-                if slc.start is None:
-                    start = L - 1
-
-                if slc.stop is None:
-                    start, stop = 0, start + 1
-                    start = ((stop - 1 - start) % step)
-                else:
-                    start, stop = stop + 1, start + 1
-                    start += ((stop - 1 - start) % step)
-
-                second_slc[i] = slice(None, None, -1)
-
-            # check that our slice is valid
-            assert start is None or (start >= 0 and start <= L), \
-                "start (={0}) is outside range".format(start)
-            assert start is None or (start >= 0 and start <= L), \
-                "start (={0}) is outside range".format(start)
-            assert start is None or stop is None or start == stop == 0 or \
-                start < stop, "bad slice ordering: {0} !< {1}".format(start, stop)
-            assert step > 0
-            slc = slice(start, stop, step)
+                slc = slice(start, last + 1, step)
+            else:
+                slc = slice(0, 0, abs(step))
 
         elif isinstance(slc, (int, np.integer)):
             second_slc[i] = None
             if rev:
+                if slc < 0:
+                    slc += L
                 slc = (L - 1) - slc
 
         elif slc == np.newaxis:
-- 
2.43.0


From 7a5e95a046f7e6c2930cfb8df0339ae9f225ddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 03/74] fix: slice_and_keep locates negative indices on cell
 centered axes

---
 viscid/coordinate.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 718297f..7b8d61b 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -824,23 +824,10 @@ class StructuredCrds(Coordinates):
             loc_ind = slices[new_axis_ind]
             crd_nc = self.get_nc(axis)
 
-            if cc:
-                if loc_ind == -1:
-                    crd = crd_nc[-2:]
-                    slc = slice(-1, None)
-                elif loc_ind == -2:
-                    crd = crd_nc[-2:]
-                    slc = slice(-2, -1)
-                else:
-                    crd = crd_nc[loc_ind:loc_ind + 2]
-                    slc = slice(loc_ind, loc_ind + 1)
-            else:
-                if loc_ind == -1:
-                    crd = crd_nc[-1:]
-                    slc = slice(-1, None)
-                else:
-                    crd = crd_nc[loc_ind:loc_ind + 1]
-                    slc = slice(loc_ind, loc_ind + 1)
+            if loc_ind < 0:
+                loc_ind += len(self.get_cc(axis) if cc else crd_nc)
+            slc = slice(loc_ind, loc_ind + 1)
+            crd = crd_nc[loc_ind:loc_ind + 2] if cc else crd_nc[slc]
 
             slices[new_axis_ind] = slc
             crdlst.insert(new_axis_ind, [axis, crd])
-- 
2.43.0


From d1e66a70a1b145df01515ec8edc6845c32e0904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 04/74] fix: cell centered slices keep the nodes that bound the
 selected cells, empty slices work

---
 viscid/coordinate.py | 62 +++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 7b8d61b..6d80813 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -680,32 +680,32 @@ class StructuredCrds(Coordinates):
 
                 sliced_clist_item = None
 
-                # if using step on a cell centered field, we need to figure
-                # stuff out, since the data && crd slices can't be the same,
-                # and it's not as simple as just adding 1 b/c of the stride
-                if cc and slc.step not in [None, 1, -1]:
-                    crd_cc = crd_arrs_cc[i][slc]
-                    crd_nc = 0.5 * (crd_cc[1:] + crd_cc[:-1])
-
-                    allslc = slice(slc.start, slc.stop,
-                                   slc.step // np.abs(slc.step))
-                    allnc = crd_arrs_nc[i][allslc]
-                    crd_nc = np.concatenate([[allnc[0]], crd_nc, [allnc[-1]]])
-
-                    sliced_clist_item = [axis, crd_nc, crd_cc]
-
-                elif cc and slc.stop is not None:
-                    if slc.stop >= 0:
-                        if slc.step is None or slc.step > 0:
-                            newstop = slc.stop + 1
-                        else:
-                            newstop = slc.stop - 1
-                    else:  # slc.stop < 0
-                        # this will slice crds nc, so if we're going backward,
-                        # the extra crd will be included
-                        # print("am i used?", slc.step)
-                        newstop = slc.stop
-                    slc = slice(slc.start, newstop, slc.step)
+                # for cell centered fields, the data && crd slices can't be
+                # the same, find the nodes that bound the selected cells
+                if cc:
+                    arr_nc, arr_cc = crd_arrs_nc[i], crd_arrs_cc[i]
+                    inds = np.arange(len(arr_cc))[slc]
+
+                    if len(inds) == 0:
+                        crd_nc = arr_nc[:0]
+                    elif len(arr_nc) == 1:
+                        crd_nc = arr_nc
+                    elif len(inds) == 1 or slc.step in [None, 1, -1]:
+                        crd_nc = arr_nc[np.min(inds):np.max(inds) + 2]
+                        if inds[-1] < inds[0]:
+                            crd_nc = crd_nc[::-1]
+                    else:
+                        # with a stride, the selected cells don't touch
+                        crd_cc = arr_cc[slc]
+                        crd_nc = 0.5 * (crd_cc[1:] + crd_cc[:-1])
+                        ends = [arr_nc[inds[0]], arr_nc[inds[-1] + 1]]
+                        if inds[-1] < inds[0]:
+                            ends = [arr_nc[inds[0] + 1], arr_nc[inds[-1]]]
+                        crd_nc = np.concatenate([ends[:1], crd_nc, ends[1:]])
+                        sliced_clist_item = [axis, crd_nc, crd_cc]
+
+                    if sliced_clist_item is None:
+                        sliced_clist_item = [axis, crd_nc]
 
                 if sliced_clist_item is None:
                     cval = crd_arrs_nc[i][slc]
@@ -723,7 +723,7 @@ class StructuredCrds(Coordinates):
                     sliced_clist.append([axis, crd_arrs_nc[i][slc]])
 
             elif hasattr(slc, "__index__"):
-                cval = crd_arrs_nc[i][slc]
+                cval = crd_arrs[i][slc]
                 reduced.append([axis, cval])
 
             elif slc == np.newaxis:
@@ -741,6 +741,14 @@ class StructuredCrds(Coordinates):
 
         any_non_uniform = False
         for i, clist_i in enumerate(sliced_clist):
+            if len(clist_i[1]) == 0:
+                continue
+            # uniform crds can't hold cell centers of their own
+            if len(clist_i) > 2:
+                mid = 0.5 * (clist_i[1][1:] + clist_i[1][:-1])
+                if not np.allclose(mid, clist_i[2]):
+                    any_non_uniform = True
+                    break
             # int crds (including times/dates) are never store at uniform crds
             if isinstance(clist_i[1][0], (int, np.integer, np.datetime64)):
                 any_non_uniform = True
-- 
2.43.0


From badefc4044c58fd382a195a64221cf7565ab952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 05/74] fix: uniform crds report the cell centers and spacings
 of their own nodes

---
 viscid/coordinate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 6d80813..e9877e2 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -1261,7 +1261,7 @@ class UniformCrds(StructuredCrds):
         self._nc_linspace_args = _nc_linspace_args
         self._cc_linspace_args = []
         for args in _nc_linspace_args:
-            half_dx = 0.5 * (args[1] - args[0]) / max(args[2], 1)
+            half_dx = 0.5 * (args[1] - args[0]) / max(args[2] - 1, 1)
             cc_args = [args[0] + half_dx, args[1] - half_dx,
                        max(args[2] - 1, 0)]
             self._cc_linspace_args.append(cc_args)
@@ -1274,7 +1274,7 @@ class UniformCrds(StructuredCrds):
         self.shape_nc = np.array([args[2] for args in self._nc_linspace_args],
                                  dtype='int')
         self.L_nc = self.xh_nc - self.xl_nc
-        self.min_dx_nc = self.L_nc / self.shape_nc
+        self.min_dx_nc = self.L_nc / np.clip(self.shape_nc - 1, 1, None)
         self.min_dx_nc = np.ma.masked_values(self.min_dx_nc, 0.0)
 
         # cell centered things
@@ -1285,7 +1285,7 @@ class UniformCrds(StructuredCrds):
         self.shape_cc = np.array([args[2] for args in self._cc_linspace_args],
                                  dtype='int')
         self.L_cc = self.xh_cc - self.xl_cc
-        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc, 1, None)
+        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc - 1, 1, None)
 
         init_clist = [(axis, None) for axis, _ in init_clist]
         super(UniformCrds, self).__init__(init_clist, dtype=self.dtype,
@@ -1354,7 +1354,7 @@ class UniformCrds(StructuredCrds):
         """
         axes = self.axes
         xl, xh = self.get_xl(), self.get_xh()
-        dx = (xh - xl) / self.shape_nc
+        dx = (xh - xl) / np.clip(self.shape_nc - 1, 1, None)
         # FIXME: I don't think this will extend datetime64/timedelta64 axes
         dx = np.choose(np.abs(dx) > 0, [default_width, dx])
         xl -= 0.5 * dx
-- 
2.43.0


From 45be8a8dbd5f3f5224bf8ffc2316c1d9a4982357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 06/74] fix: interlaced vector fields keep their layout when
 the shape is ambiguous

---
 viscid/field.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 79b3089..b806e2d 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -190,7 +190,7 @@ def full(crds, fill_value, dtype="f8", name="NoName", center="cell",
             raise RuntimeError("Please update Numpy; your version has neither "
                                "`numpy.full` nor `numpy.filled`")
     return wrap_field(dat, crds, name=name, fldtype=fldtype, center=center,
-                      **kwargs)
+                      _src_layout=layout.lower(), **kwargs)
 
 def empty(crds, dtype="f8", name="NoName", center="cell", layout=LAYOUT_FLAT,
           nr_comps=0, **kwargs):
@@ -256,6 +256,8 @@ def full_like(fld, fill_value, name="NoName", **kwargs):
                                "`numpy.full` nor `numpy.filled`")
     c = kwargs.pop("center", fld.center)
     t = kwargs.pop("time", fld.time)
+    if fld.nr_comps:
+        kwargs.setdefault("_src_layout", fld.layout)
     return wrap_field(dat, fld.crds, name=name, fldtype=fld.fldtype, center=c,
                       time=t, parents=[fld], **kwargs)
 
@@ -1058,6 +1060,9 @@ class Field(tree.Leaf):
 
         if dat_shape == sshape:
             layout = LAYOUT_SCALAR
+        elif dat_shape[1:] == sshape and dat_shape[:-1] == sshape:
+            # the shape alone can't tell, so use what wrap knew
+            layout = self.deep_meta.get("src_layout", LAYOUT_FLAT)
         elif dat_shape[1:] == sshape:
             layout = LAYOUT_FLAT
         elif dat_shape[:-1] == sshape or dat_shape2[:-1] == sshape2:
@@ -1879,6 +1884,10 @@ class Field(tree.Leaf):
         else:
             fldtype = field_type(fldtype)
 
+        # arr is laid out like self.data
+        if self.nr_comps:
+            context.setdefault("src_layout", self.layout)
+
         # Transform functions are intentionally omitted. The idea being that
         # the transform was already applied when creating arr
         # same idea with zyx_native... whatever created arr should have done
@@ -2182,7 +2191,10 @@ class Field(tree.Leaf):
         t_data = self.data.transpose(axes)
 
         context = dict(crds=t_crds)
-        # i think the layout should be taken care of automagically
+        # the layout is detected, unless it's ambiguous given t_data.shape
+        if self.nr_comps:
+            context["src_layout"] = (LAYOUT_FLAT if axes[0] == self.nr_comp
+                                     else LAYOUT_INTERLACED)
         return self.wrap(t_data, context=context)
 
     def transpose_crds(self, *axes):
-- 
2.43.0


From c7e8e62d19c05a0a75397e468398840c315cc78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 07/74] fix: as_layout without force_c_contiguous returned None
 for fields already in that layout

---
 viscid/field.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index b806e2d..1ed906b 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2367,15 +2367,12 @@ class VectorField(Field):
         """
         was_loaded = self.is_loaded
 
-        ret = None
+        ret = self
         if self.layout == to_layout:
             if force_c_contiguous:
                 if not self.data.flags['C_CONTIGUOUS']:
                     # print("calling np.ascontiguousarray")
                     ret = self.wrap(np.ascontiguousarray(self.data))
-                else:
-                    # print("returning self")
-                    ret = self
         else:
             ctx = dict(force_layout=to_layout)
             # the data load is going to wrap the array, i think it's
-- 
2.43.0


From 44b6ecb31ae61ae50d474c6abe3157772ece0c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 08/74] fix: slice_reduce with new axes reduces the axis it
 means to

---
 viscid/coordinate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index e9877e2..1a8126a 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -785,7 +785,8 @@ class StructuredCrds(Coordinates):
 
     def make_slice_reduce(self, selection, cc=False):
         """make slice, and reduce dims that were not explicitly sliced"""
-        slices, crdlst, reduced, crds_type = self.make_slice(selection, cc=cc)
+        slices, crdlst, reduced, crds_type, full_ax_names = \
+            self._make_slice(selection, cc=cc)
         # augment slices / reduced
 
         reduced_axes = [t[0] for t in reduced]
@@ -794,11 +795,11 @@ class StructuredCrds(Coordinates):
             reduce_axis = False
             if axis not in reduced_axes:
                 if cc and self.shape_cc[i] == 1:
-                    slices[i] = 0
+                    slices[full_ax_names.index(axis)] = 0
                     reduced.insert(i, [axis, self.get_cc(axis)[0]])
                     reduce_axis = True
                 elif not cc and self.shape_nc[i] == 1:
-                    slices[i] = 0
+                    slices[full_ax_names.index(axis)] = 0
                     reduced.insert(i, [axis, self.get_nc(axis)[0]])
                     reduce_axis = True
                 # go find which element of crdlst to take out since there
-- 
2.43.0


From 60f6cfe68223b1c341116304d9581031eec0fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 09/74] fix: slicing a strided cell centered field keeps its
 cell centers

---
 viscid/coordinate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 1a8126a..98b7797 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -706,6 +706,8 @@ class StructuredCrds(Coordinates):
 
                     if sliced_clist_item is None:
                         sliced_clist_item = [axis, crd_nc]
+                        if axis in self._src_crds_cc:
+                            sliced_clist_item.append(arr_cc[slc])
 
                 if sliced_clist_item is None:
                     cval = crd_arrs_nc[i][slc]
@@ -840,6 +842,8 @@ class StructuredCrds(Coordinates):
 
             slices[new_axis_ind] = slc
             crdlst.insert(new_axis_ind, [axis, crd])
+            if cc and axis in self._src_crds_cc:
+                crdlst[new_axis_ind].append(self.get_cc(axis)[slc])
 
         # should be no more reduced crds
         reduced = []
-- 
2.43.0


From 0ea5fcf5c64088fc9ab1b6c408672f9c030c985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 10/74] fix: nc2cc of an axis with two nodes uses the real cell
 width

---
 viscid/coordinate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 98b7797..dc57baa 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -129,7 +129,7 @@ def extend_arr(x, n=1, cell_fraction=1.0, full_arr=True, default_width=1e-5,
         width_arr = x
 
     if full_arr:
-        if len(x) > 1:
+        if len(width_arr) > 1:
             dxl = cell_fraction * (width_arr[1] - width_arr[0])
             dxh = cell_fraction * (width_arr[-1] - width_arr[-2])
         else:
-- 
2.43.0


From c506bf2e11458898d1c6af376b7d1b66f4176d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 11/74] fix: transposing a field keeps cell centers that were
 given explicitly

---
 viscid/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/field.py b/viscid/field.py
index 1ed906b..44d1f76 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2180,6 +2180,10 @@ class Field(tree.Leaf):
         if len(axes) != self.nr_dims:
             raise ValueError("transpose can not change number of axes")
         clist = self._src_crds.get_clist()
+        # keep cell centers that are not half way between nodes
+        for c in clist:
+            if c[0] in self._src_crds._src_crds_cc:
+                c.append(self._src_crds.get_cc(c[0]))
         caxes = list(axes)
         if self.nr_comps:
             caxes.remove(self.nr_comp)
-- 
2.43.0


From 7ee979a51f335a6ed86da5cfcf7ef232bd1cf2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 12/74] fix: pending axis reflections reach uniform bounds and
 recentered fields

---
 viscid/coordinate.py | 31 +++++++++++++++++++++++++++----
 viscid/field.py      |  2 ++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index dc57baa..7ee76e3 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -425,6 +425,22 @@ class StructuredCrds(Coordinates):
         else:
             return self
 
+    def defer_reflections(self, crds):
+        """Make crds lazily reflected the same way as self
+
+        Args:
+            crds: Coordinates made from self's reflected arrays
+
+        Returns:
+            Coordinates that are the same as crds once the reflections
+            are applied, for use with source data that is not reflected
+        """
+        if len(self.reflect_axes) > 0:
+            crds.reflect_axes = self.reflect_axes
+            crds = crds.apply_reflections()
+            crds.reflect_axes = self.reflect_axes
+        return crds
+
     def _reflect_axis_arr(self, arr):  # pylint: disable=no-self-use
         return np.array(-1.0 * arr[::-1])
 
@@ -1323,13 +1339,20 @@ class UniformCrds(StructuredCrds):
                                   center=center)
         return np.ma.masked_values(ret, 0.0)
 
+    def _reflected_extent(self, x, x_opposite):
+        rev = [ax in self.reflect_axes for ax in self._axes]
+        return np.array([-b if r else a for a, b, r in zip(x, x_opposite, rev)],
+                        dtype=self.dtype)
+
     def get_xl(self, axes=None, center='node'):
-        return self._pull_out_axes([self.xl_nc, self.xl_cc], axes,
-                                   center=center)
+        xl_nc = self._reflected_extent(self.xl_nc, self.xh_nc)
+        xl_cc = self._reflected_extent(self.xl_cc, self.xh_cc)
+        return self._pull_out_axes([xl_nc, xl_cc], axes, center=center)
 
     def get_xh(self, axes=None, center='node'):
-        return self._pull_out_axes([self.xh_nc, self.xh_cc], axes,
-                                   center=center)
+        xh_nc = self._reflected_extent(self.xh_nc, self.xl_nc)
+        xh_cc = self._reflected_extent(self.xh_cc, self.xl_cc)
+        return self._pull_out_axes([xh_nc, xh_cc], axes, center=center)
 
     def get_L(self, axes=None, center='node'):
         """Get lengths"""
diff --git a/viscid/field.py b/viscid/field.py
index 44d1f76..adb7c16 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1602,6 +1602,7 @@ class Field(tree.Leaf):
         elif self.iscentered('node'):
             # construct new crds
             new_crds = self._src_crds.nc2cc(default_width=default_width)
+            new_crds = self._src_crds.defer_reflections(new_crds)
 
             # this is similar to a shell copy, but it's intimately
             # linked to self as a parent
@@ -1648,6 +1649,7 @@ class Field(tree.Leaf):
             # crds_cc = self.get_crds_cc()
             new_clist = self._src_crds.get_clist(center="cell")
             new_crds = type(self._src_crds)(new_clist)
+            new_crds = self._src_crds.defer_reflections(new_crds)
 
             # this is similar to a shell copy, but it's intimately
             # linked to self as a parent
-- 
2.43.0


From 2213fd3f7b8352d351e325158bd7ace329784d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 13/74] fix: setting a field's layout recomputes where its
 component axis is

---
 viscid/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/field.py b/viscid/field.py
index adb7c16..05b5a0c 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -620,6 +620,7 @@ class Field(tree.Leaf):
                 self.clear_cache()
         self.deep_meta["force_layout"] = new_layout
         self._layout = None
+        self._nr_comp = None
 
     @property
     def nr_dims(self):
-- 
2.43.0


From 4d3dfa2f43f5d77523010c6ec6857dd7ac47da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 14/74] fix: loc and iloc select the named spatial axis of
 vector fields

---
 viscid/field.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 05b5a0c..06e31c8 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -458,9 +458,6 @@ class _FldSlcProxy(object):
             else:
                 sel.append(self._floatify(it))
 
-        if self.parent.nr_comps and len(sel) >= self.parent.nr_comp:
-            sel.insert(self.parent.nr_comp, slice(None))
-
         return tuple(sel)
 
     def __getitem__(self, item):
-- 
2.43.0


From c5f8e067174c5e3ea1df947548ef7b8cac404e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 15/74] fix: arithmetic between scalar and vector fields of
 different layouts

---
 viscid/field.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/viscid/field.py b/viscid/field.py
index 06e31c8..7732c5f 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2275,6 +2275,12 @@ class ScalarField(Field):
     def nr_comps(self):
         return 0
 
+    def _ow(self, other):
+        # vector fields broadcast with scalar fields when they are flat
+        if isinstance(other, VectorField) and other.layout == LAYOUT_INTERLACED:
+            return np.moveaxis(other.__array__(), -1, 0)
+        return super(ScalarField, self)._ow(other)
+
     # no downsample / transpose / swap axes for vectors yet since that would
     # have the added layer of checking the layout
     def downsample(self):
@@ -2397,6 +2403,13 @@ class VectorField(Field):
                     return other.__array__()[..., np.newaxis]
                 elif self.layout == 'flat':
                     return other.__array__()[np.newaxis, ...]
+            elif isinstance(other, VectorField) and other.layout != self.layout:
+                # bring the component axis of other to where it is in self
+                dat = other.__array__()
+                if self.layout == LAYOUT_INTERLACED:
+                    return np.moveaxis(dat, 0, -1)
+                elif self.layout == LAYOUT_FLAT:
+                    return np.moveaxis(dat, -1, 0)
             return other.__array__()
         except AttributeError:
             return other
-- 
2.43.0


From b12498ddc8704d81d484740c184b0d159119ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 16/74] fix: reducing a vector field along an axis drops that
 axis from its coordinates

---
 viscid/field.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 7732c5f..aa68ac8 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1850,11 +1850,15 @@ class Field(tree.Leaf):
         if npkwargs:
             axis = npkwargs.get('axis', None)
             if axis is not None:
-                if self.nr_comps > 0 and axis == self.nr_comp:
+                if (self.nr_comps > 0 and
+                        axis in (self.nr_comp, self.nr_comp - len(self.shape))):
                     # reducing vector -> scalar, no need to play with crds
                     pass
                 else:
-                    reduce_axis = crds.axes[axis]
+                    crd_axis = axis + len(self.shape) if axis < 0 else axis
+                    if self.nr_comps > 0 and crd_axis > self.nr_comp:
+                        crd_axis -= 1
+                    reduce_axis = crds.axes[crd_axis]
                     crd_slc = "{0}=0".format(reduce_axis)
                     default_keepdims = len(self.shape) == len(crds.shape)
                     iscc = self.iscentered('cell')
-- 
2.43.0


From 6833386b5c3f3a54ad8d774195a1455e9d20e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 17/74] fix: lazily slicing hypersliceable data accepts the
 slices numpy accepts

---
 viscid/coordinate.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 7ee76e3..986bd3b 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -470,6 +470,19 @@ class StructuredCrds(Coordinates):
             shape = self.shape_cc
         else:
             shape = self.shape_nc
+        # make_fwd_slice needs start / stop inside the range of the axis
+        slices = list(slices)
+        lengths = iter(shape)
+        for i, slc in enumerate(slices):
+            if slc is np.newaxis:
+                continue
+            n = next(lengths)
+            if isinstance(slc, slice):
+                start, stop, step = slc.indices(int(n))
+                if start < 0:
+                    slices[i] = slice(0, 0, 1)
+                else:
+                    slices[i] = slice(start, None if stop < 0 else stop, step)
         first, second = sliceutil.make_fwd_slice(shape, slices, rev,
                                                  cull_second=cull_second)
         return first, second
-- 
2.43.0


From 487f7cac0a263c8276fc064b0afab6eba22725c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 18/74] fix: slicing a transposed hdf5 data set slices the
 transposed array

---
 viscid/readers/hdf5.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 3e72c2d..507d67b 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -70,10 +70,7 @@ class H5pyDataWrapper(vfile.DataWrapper):
         return self._dtype
 
     def __len__(self):
-        if self.transpose:
-            return self.shape[-1]
-        else:
-            return self.shape[0]
+        return self.shape[0]
 
     def __array__(self, *args, **kwargs):
         arr = np.empty(self.shape, dtype=self.dtype)
@@ -118,6 +115,16 @@ class H5pyDataWrapper(vfile.DataWrapper):
                 arr[...] = fill_arr.T
 
     def __getitem__(self, item):
+        if self.transpose:
+            # item is meant for the transposed array
+            item = list(item) if isinstance(item, tuple) else [item]
+            fill_idx = [i for i, it in enumerate(item) if it is Ellipsis]
+            if not fill_idx:
+                fill_idx = [len(item)]
+                item.append(Ellipsis)
+            n_fill = len(self.shape) - (len(item) - 1)
+            item[fill_idx[0]:fill_idx[0] + 1] = [slice(None)] * n_fill
+            item = tuple(item[::-1])
         item = self._inject_comp_slice(item)
         with h5py.File(self.fname, 'r') as f:
             arr = self._resolve_loc(f)[item]
-- 
2.43.0


From 8942545a3bc99b258a750dde3b7415e7965e7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 19/74] fix: lazily slicing vector data sets and forced layouts

---
 viscid/field.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index aa68ac8..58edba2 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -872,7 +872,9 @@ class Field(tree.Leaf):
                     # spatial_transpose = list(range(len(self.shape)))
                     spatial_transpose = list(range(len(self._src_data.shape)))
                     if self.nr_comps > 0:
-                        nr_comp = self.nr_comp
+                        nr_comp = 0
+                        if self._detect_layout(self._src_data) != LAYOUT_FLAT:
+                            nr_comp = len(spatial_transpose) - 1
                         spatial_transpose.remove(nr_comp)
                         spatial_transpose = spatial_transpose[::-1]
                         spatial_transpose.insert(nr_comp, nr_comp)
@@ -1135,6 +1137,11 @@ class Field(tree.Leaf):
         slced_dat = None
 
         hypersliceable = getattr(self._src_data, "_hypersliceable", False)
+        # changing the layout is not something a lazy slice can do
+        force_layout = self.deep_meta["force_layout"]
+        if (self.nr_comps and force_layout != LAYOUT_DEFAULT and
+                force_layout != self._detect_layout(self._src_data)):
+            src_is_fld_list = hypersliceable = False
         single_comp_slc = hasattr(comp_slc, "__index__")
         cc = (self.iscentered("Cell") or self.iscentered("Face") or
               self.iscentered("Edge"))
@@ -1176,8 +1183,8 @@ class Field(tree.Leaf):
                 native_first_slc = first_slc[::-1]
                 native_second_slc = second_slc[::-1]
             else:
-                native_first_slc = first_slc
-                native_second_slc = second_slc
+                native_first_slc = list(first_slc)
+                native_second_slc = list(second_slc)
 
             # now put component slice back in
             try:
@@ -1202,7 +1209,8 @@ class Field(tree.Leaf):
                 it = izip_longest(count(), native_first_slc, native_second_slc,
                                   fillvalue=None)
                 for i, a, b in islice(it, None, len(first_slc)):
-                    if self._src_data.shape[j] == self.native_shape[i]:
+                    if (j < len(self._src_data.shape) and
+                            self._src_data.shape[j] == self.native_shape[i]):
                         _first.append(a)
                         _second.append(b)
                         j += 1
@@ -1234,11 +1242,11 @@ class Field(tree.Leaf):
                 # post-reshape-transform
                 if self.post_reshape_transform_func is not None:
                     if cc:
-                        target_shape = crds.shape_cc
+                        target_shape = list(crds.shape_cc)
                     else:
-                        target_shape = crds.shape_nc
+                        target_shape = list(crds.shape_nc)
                     if nr_comp is not None:
-                        target_shape.insert(nr_comp, -1)
+                        target_shape.insert(0 if self.nr_comp == 0 else len(target_shape), -1)
                     slced_dat = self.post_reshape_transform_func(
                         self, crds, slced_dat.reshape(target_shape),
                         comp_slc=comp_slc, **self.transform_func_kwargs)
-- 
2.43.0


From e2ba7199d7e21b86de932a8d7b57ef16f931da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 20/74] fix: mhd2gse of one component or part of a lazily
 sliced vector

---
 viscid/readers/openggcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 2bbeb21..3d2207b 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -160,7 +160,7 @@ def mhd2gse_field_vector(fld, crds, arr, comp_slc=None,
     factor = np.array([-1.0, -1.0, 1.0], dtype=arr.dtype).reshape(shp)
     if comp_slc is not None:
         tmpslc = [slice(None) if s == 1 else comp_slc for s in shp]
-        factor = factor[tmpslc]
+        factor = factor[tuple(tmpslc)]
     # print("** factor", factor.shape, factor.flatten())
     if copy_on_transform:
         if _has_numexpr:
-- 
2.43.0


From aef94b7ef373ba03c367f86b5a4336242ad28614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 21/74] fix: slice AMR fields by component and location
 together

---
 viscid/amr_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 511c0fc..7eb40bd 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -105,7 +105,7 @@ class AMRField(object):
             raise ValueError("AMR field must contain patches to be slicable")
         sel_list, _ = self.patches[0]._prepare_slice(selection)
         try:
-            extent = self.patches[0]._src_crds.get_slice_extent(selection)
+            extent = self.patches[0]._src_crds.get_slice_extent(tuple(sel_list))
         except RuntimeError:
             raise RuntimeError("Slicing by global index is poorly defined "
                                "for AMR fields; selection = '{0}'"
-- 
2.43.0


From fcba087e8ae2232168f982b91f456d98d8c463eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 22/74] fix: in-place arithmetic of AMR fields

---
 viscid/amr_field.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 7eb40bd..52a7aa3 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -389,21 +389,21 @@ class AMRField(object):
         return self.wrap_field_method("__rpow__", other)
 
     def __iadd__(self, other):
-        return self.wrap_field_method("__iadd__", other)
+        return NotImplemented
     def __isub__(self, other):
-        return self.wrap_field_method("__isub__", other)
+        return NotImplemented
     def __imul__(self, other):
-        return self.wrap_field_method("__imul__", other)
+        return NotImplemented
     def __idiv__(self, other):
-        return self.wrap_field_method("__idiv__", other)
+        return NotImplemented
     def __itruediv__(self, other):
-        return self.wrap_field_method("__itruediv__", other)
+        return NotImplemented
     def __ifloordiv__(self, other):
-        return self.wrap_field_method("__ifloordiv__", other)
+        return NotImplemented
     def __imod__(self, other):
-        return self.wrap_field_method("__imod__", other)
+        return NotImplemented
     def __ipow__(self, other):
-        return self.wrap_field_method("__ipow__", other)
+        return NotImplemented
 
     def __neg__(self):
         return self.wrap_field_method("__neg__")
-- 
2.43.0


From 3d07fe2b2f4b60b935e5e6cbd70c4240f742918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 23/74] fix: component views of vector fields with a single
 point

---
 viscid/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/field.py b/viscid/field.py
index 58edba2..dae0e75 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2355,6 +2355,9 @@ class VectorField(Field):
         """ return numpy views to components individually, memory layout
         of the original field is maintained """
         flds = self.component_fields()
+        # the components of a field with a single point are just numbers
+        if not all(isinstance(f, Field) for f in flds):
+            return list(np.rollaxis(self.data, self.nr_comp))
         return [f.data for f in flds]
 
     def component_fields(self):
-- 
2.43.0


From a4ab8d275c8670d12b82d450fca0aaf38cacd15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 24/74] fix: gradient keeps the centering of its input

---
 viscid/calculator/calc.py   | 16 ++++++++++------
 viscid/calculator/necalc.py | 14 +++++++++-----
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 879708f..dc7d3a5 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -226,7 +226,7 @@ def _grad_np(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    gradcrds = fld.crds.slice_keep(np.s_[1:-1, 1:-1, 1:-1])
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
@@ -236,10 +236,14 @@ def _grad_np(fld, bnd=True):
     vyp, vym = v[1:-1, 2:  , 1:-1], v[1:-1,  :-2, 1:-1]  # pylint: disable=bad-whitespace
     vzp, vzm = v[1:-1, 1:-1, 2:  ], v[1:-1, 1:-1,  :-2]  # pylint: disable=bad-whitespace
 
-    g['x'].data[...] = (vxp - vxm) / (xp - xm)
-    g['y'].data[...] = (vyp - vym) / (yp - ym)
-    g['z'].data[...] = (vzp - vzm) / (zp - zm)
-    return g
+    grad_x = (vxp - vxm) / (xp - xm)
+    grad_y = (vyp - vym) / (yp - ym)
+    grad_z = (vzp - vzm) / (zp - zm)
+
+    return field.wrap_field([grad_x, grad_y, grad_z], gradcrds,
+                            name="grad " + fld.name, fldtype="Vector",
+                            center=fld.center, time=fld.time,
+                            parents=[fld])
 grad.add_implementation("numpy", _grad_np)
 
 def _div_np(fld, bnd=True):
@@ -343,7 +347,7 @@ def convective_deriv(a, b=None, bnd=True):
             g = grad(b[jcmp], bnd=False)
             for i, icmp in enumerate('xyz'):
                 diBj[i][j] = g[icmp]
-        dest = viscid.zeros(a.crds, nr_comps=3)
+        dest = viscid.zeros(a.crds, nr_comps=3, center=a.center)
         for i, icmp in enumerate('xyz'):
             for j, jcmp in enumerate('xyz'):
                 dest[jcmp][...] += a[icmp] * diBj[i][j]
diff --git a/viscid/calculator/necalc.py b/viscid/calculator/necalc.py
index 8ce136b..42791bf 100644
--- a/viscid/calculator/necalc.py
+++ b/viscid/calculator/necalc.py
@@ -154,7 +154,7 @@ def grad(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    gradcrds = fld.crds.slice_keep(np.s_[1:-1, 1:-1, 1:-1])
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
@@ -164,10 +164,14 @@ def grad(fld, bnd=True):
     vyp, vym = v[1:-1, 2:  , 1:-1], v[1:-1,  :-2, 1:-1]  # pylint: disable=bad-whitespace
     vzp, vzm = v[1:-1, 1:-1, 2:  ], v[1:-1, 1:-1,  :-2]  # pylint: disable=bad-whitespace
 
-    g['x'].data[...] = ne.evaluate("(vxp-vxm)/(xp-xm)")
-    g['y'].data[...] = ne.evaluate("(vyp-vym)/(yp-ym)")
-    g['z'].data[...] = ne.evaluate("(vzp-vzm)/(zp-zm)")
-    return g
+    grad_x = ne.evaluate("(vxp-vxm)/(xp-xm)")
+    grad_y = ne.evaluate("(vyp-vym)/(yp-ym)")
+    grad_z = ne.evaluate("(vzp-vzm)/(zp-zm)")
+
+    return field.wrap_field([grad_x, grad_y, grad_z], gradcrds,
+                            name="grad " + fld.name, fldtype="Vector",
+                            center=fld.center, time=fld.time,
+                            parents=[fld])
 
 def div(fld, bnd=True):
     """2nd order centeral diff, 1st order @ boundaries if bnd"""
-- 
2.43.0


From 7448f3c660af447ca0d02257934463cfd1a01bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 25/74] fix: naming single-value results, native magnitude,
 mixed-layout projection

---
 viscid/calculator/calc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index dc7d3a5..5ebec75 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -97,12 +97,17 @@ class Operation(object):
 class UnaryOperation(Operation):
     def __call__(self, a, **kwargs):
         ret = super(UnaryOperation, self).__call__(a, **kwargs)
-        ret.name = "{0} {1}".format(self.short_name, a.name)
+        # results with a single value are unpacked to plain numbers
+        if not np.isscalar(ret):
+            ret.name = "{0} {1}".format(self.short_name, a.name)
         return ret
 
 class BinaryOperation(Operation):
     def __call__(self, a, b=None, **kwargs):
         ret = super(BinaryOperation, self).__call__(a, b, **kwargs)
+        # results with a single value are unpacked to plain numbers
+        if np.isscalar(ret):
+            return ret
         try:
             ret.name = "{0} {1} {2}".format(a.name, self.short_name, b.name)
         except AttributeError:
@@ -179,7 +184,7 @@ magnitude.add_implementation("numpy", _magnitude_np)
 
 def _project_np(a, b):
     """ project a along b (a dot b / |b|) """
-    return (np.sum(a * b, axis=b.nr_comp) /
+    return (np.sum(a * b, axis=a.nr_comp) /
             np.sqrt(np.sum(b * b, axis=b.nr_comp)))
 project.add_implementation("numpy", _project_np)
 
@@ -364,7 +369,8 @@ def _magnitude_native(fld):
             for k in range(mag.shape[2]):
                 mag[i, j, k] = np.sqrt(vx[i, j, k]**2 + vy[i, j, k]**2 +
                                        vz[i, j, k]**2)
-    return vx.wrap(mag, context={"name": "{0} magnitude".format(fld.name)})
+    return fld.wrap(mag, fldtype="Scalar",
+                    context={"name": "{0} magnitude".format(fld.name)})
 
 magnitude.add_implementation("native", _magnitude_native)
 
-- 
2.43.0


From 1844e390081570cdfc9a4bad0f984e06c7116f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 26/74] fix: slice staggered fields by their spatial axes only

---
 viscid/calculator/ecfc.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index b199212..1e4c768 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -121,9 +121,7 @@ def make_ecfc_field_leading(fc, trim_leading=True):
                 raise RuntimeError("I shouldn't be here")
 
         fc.resolve()  # if translating -> gse, do it once, not 4 times
-        s0vec = list(sc)
-        s0vec.insert(fc.nr_comp, slice(None))
-        prepared_fc = viscid.zeros_like(fc[s0vec])
+        prepared_fc = viscid.zeros_like(fc[tuple(sc)])
 
         prepared_fc['x'] = fc['x', sd[0][0], sd[0][1], sd[0][2]]
         prepared_fc['y'] = fc['y', sd[1][0], sd[1][1], sd[1][2]]
@@ -141,9 +139,7 @@ def fc2cc(fc, force_numpy=False, bnd=True):
     fc = make_ecfc_field_leading(fc)
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(None))
-    cc = viscid.zeros_like(fc[s0vec])
+    cc = viscid.zeros_like(fc[tuple(s0)])
     cc.center = "Cell"
 
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
@@ -181,9 +177,7 @@ def ec2cc(ec, force_numpy=False, bnd=True):
     ec = make_ecfc_field_leading(ec)
     s0, sm, sp = _prep_slices(ec)
 
-    s0vec = list(s0)
-    s0vec.insert(ec.nr_comp, slice(None))
-    cc = viscid.zeros_like(ec[s0vec])
+    cc = viscid.zeros_like(ec[tuple(s0)])
     cc.center = "Cell"
 
     ecx0, ecx1, ecx2, ecx3 = (ec['x', s0[0], sm[1], sm[2]].data,
@@ -230,9 +224,7 @@ def div_fc(fc, force_numpy=False, bnd=True):
     #        just faking it with a 0 order hold before returning
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(0, 1))
-    div_cc = viscid.zeros_like(fc[s0vec], center="cell")
+    div_cc = viscid.zeros_like(fc['x', s0[0], s0[1], s0[2]], center="cell")
 
     x, y, z = fc.get_crds_nc('xyz', shaped=True)
     if True:
-- 
2.43.0


From 985f0000fe6e8f159837140e58fdb141f96dde44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 27/74] fix: make staggered fields with a single cell along an
 axis leading

---
 viscid/calculator/ecfc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index 1e4c768..3de291e 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -90,7 +90,8 @@ def make_ecfc_field_leading(fc, trim_leading=True):
             _sd0L = 2
             _sdL = 2
 
-        # sd: how to slice the data for vector component xyz
+        # sd: how to slice the data for vector component xyz (1st index) along
+        #     spatial axis xyz (2nd index)
         # sc: how to slice the xyz NC coordinates
         sd = [[None] * 3, [None] * 3, [None] * 3]
         sc = [None] * 3
@@ -107,16 +108,16 @@ def make_ecfc_field_leading(fc, trim_leading=True):
             if n == 1:
                 sc[i] = slice(None, None)
                 for j in range(3):
-                    sd[i][j] = slice(None, None)
+                    sd[j][i] = slice(None, None)
             elif n > 1:
                 sc[i] = slice(1, None)
                 for j in range(3):
                     cnd = i == j if center == 'face' else i != j
-                    S = SB if flipping[j] and cnd else SA
+                    S = SB if flipping[i] and cnd else SA
                     if cnd:
-                        sd[i][j] = S[_sd]
+                        sd[j][i] = S[_sd]
                     else:
-                        sd[i][j] = S[_sd0]
+                        sd[j][i] = S[_sd0]
             else:
                 raise RuntimeError("I shouldn't be here")
 
-- 
2.43.0


From 4a302150ee38b4279b519a345c13bda46ef9c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 28/74] fix: divergence of face centered fields with invariant
 dimensions

---
 viscid/calculator/ecfc.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index 3de291e..e7b1e99 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -228,16 +228,16 @@ def div_fc(fc, force_numpy=False, bnd=True):
     div_cc = viscid.zeros_like(fc['x', s0[0], s0[1], s0[2]], center="cell")
 
     x, y, z = fc.get_crds_nc('xyz', shaped=True)
-    if True:
-        # x, y, z = x[1:, :, :], y[:, 1:, :], z[:, :, 1:]
-        x, y, z = x[:-1, :, :], y[:, :-1, :], z[:, :, :-1]
-    else:
-        raise NotImplementedError()
-    # x, y, z = fc.get_crds_cc('xyz', shaped=True)
-
-    xm, xp = x[sm[0], :, :], x[sp[0], :, :]
-    ym, yp = y[:, sm[1], :], y[:, sp[1], :]
-    zm, zp = z[:, :, sm[2]], z[:, :, sp[2]]
+    # face i is at node i, but dimensions with a single cell are invariant, so
+    # all that matters there is that the cell has some width
+    nx, ny, nz = fc.sshape
+    x = x[:-1, :, :] if nx > 1 else x
+    y = y[:, :-1, :] if ny > 1 else y
+    z = z[:, :, :-1] if nz > 1 else z
+
+    xm, xp = x[:-1, :, :], x[1:, :, :]
+    ym, yp = y[:, :-1, :], y[:, 1:, :]
+    zm, zp = z[:, :, :-1], z[:, :, 1:]
 
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
                   fc['x', sp[0], s0[1], s0[2]].data)
-- 
2.43.0


From 1c3a3616b57575919999c1262c4862ea5109417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 29/74] fix: accept integer fields in the compiled
 interpolation and tracing code

---
 viscid/cython/cyamr.pyx   | 2 +-
 viscid/cython/cyfield.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/cython/cyamr.pyx b/viscid/cython/cyamr.pyx
index 4de6038..2649929 100644
--- a/viscid/cython/cyamr.pyx
+++ b/viscid/cython/cyamr.pyx
@@ -117,7 +117,7 @@ cdef make_cyamrfield(vfield):
         amrfld = _init_cyamrfield(AMRField_I4_Crd_F8(), vfield, 'f8')
     elif fld_dtype == np.dtype('i8'):
         amrfld = _init_cyamrfield(AMRField_I8_Crd_F8(), vfield, 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         amrfld = _init_cyamrfield(AMRField_F4_Crd_F4(), vfield, 'f4')
     elif fld_dtype == np.dtype('f8'):
         amrfld = _init_cyamrfield(AMRField_F8_Crd_F8(), vfield, 'f8')
diff --git a/viscid/cython/cyfield.pyx b/viscid/cython/cyfield.pyx
index e8ca83a..822635b 100644
--- a/viscid/cython/cyfield.pyx
+++ b/viscid/cython/cyfield.pyx
@@ -121,7 +121,7 @@ cdef make_cyfield(vfield):
         fld = _init_cyfield(Field_I4_Crd_F8(), vfield, 'i4', 'f8')
     elif fld_dtype == np.dtype('i8'):
         fld = _init_cyfield(Field_I8_Crd_F8(), vfield, 'i8', 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         fld = _init_cyfield(Field_F4_Crd_F4(), vfield, 'f4', 'f4')
     elif fld_dtype == np.dtype('f8'):
         fld = _init_cyfield(Field_F8_Crd_F8(), vfield, 'f8', 'f8')
-- 
2.43.0


From 43a0e8d887ec75b02f08d4e0bf8853a9e76103a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 30/74] fix: keep the compiled grid lookup inside the grid it
 searches

---
 viscid/cython/cycalc.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/viscid/cython/cycalc.pyx b/viscid/cython/cycalc.pyx
index 76c2f28..070053d 100644
--- a/viscid/cython/cycalc.pyx
+++ b/viscid/cython/cycalc.pyx
@@ -257,14 +257,22 @@ cdef inline int closest_preceeding_ind(FusedField fld, int m, int d, real_t valu
     cdef real_t frac
     cdef int i, ind, found_ind
     cdef int n = fld.n[d]
-    cdef int startidx = cached_idx3[d]  # using fld.cached_ind is not threadsafe
+    # using fld.cached_ind is not threadsafe; note that the cached index could
+    # come from another patch that has more points than fld
+    cdef int startidx = int_max(int_min(cached_idx3[d], fld.nm2[d]), 0)
 
     if n == 1:
         ind = 0
     elif fld.uniform_crds:
         frac = (value - fld.xl[m, d]) / (fld.L[m, d])
-        i = <int> floor((fld.nm1[d]) * frac)
-        ind = int_min(int_max(i, 0), fld.nm2[d])
+        if frac >= 1.0:
+            # also, don't let values far out of range overflow the int
+            ind = fld.nm2[d]
+        elif frac <= 0.0:
+            ind = 0
+        else:
+            i = <int> floor((fld.nm1[d]) * frac)
+            ind = int_min(int_max(i, 0), fld.nm2[d])
     else:
         found_ind = 0
         if fld.crds[m, d, startidx] <= value:
@@ -274,7 +282,7 @@ cdef inline int closest_preceeding_ind(FusedField fld, int m, int d, real_t valu
                     found_ind = 1
                     break
             if not found_ind:
-                i = n - 1
+                i = n - 2
         else:
             i = startidx - 1
             for i in range(startidx - 1, -1, -1):
-- 
2.43.0


From d1852955762111e47c4a9cf7e7daf63edac89833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 31/74] fix: adaptive streamline steps stay above the smallest
 step

---
 viscid/cython/integrate.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/cython/integrate.pyx b/viscid/cython/integrate.pyx
index c2ad7f0..4b7662b 100644
--- a/viscid/cython/integrate.pyx
+++ b/viscid/cython/integrate.pyx
@@ -276,6 +276,8 @@ cdef inline int _ts_ctrl(real_t *ds, real_t error_estimate, real_t max_error,
             ds[0] = 0.9 * deref(ds) * (err_ratio ** -0.2)
             if fabs(ds[0]) >= largest_ds:
                 ds[0] = ds_sign * largest_ds
+            elif fabs(ds[0]) <= smallest_ds:
+                ds[0] = ds_sign * smallest_ds
             repeat = 0
 
     # if isnan(ds[0]) or ds[0] == 0.0:
-- 
2.43.0


From 5097c57545c6f439f33385a0125ec89200e0195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 32/74] fix: streamline max_t counts the time of each step once

---
 viscid/cython/streamline.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index e3fb67a..eb533c5 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -558,6 +558,8 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
                     s0[1] = s[1]
                     s0[2] = s[2]
 
+                    # integrators add the time of a step to dt
+                    dt = 0.0
                     ret = integrate_func(patch, s, &ds, dt_ptr,
                                          max_error, smallest_ds, largest_ds,
                                          vscale, cached_idx3)
-- 
2.43.0


From 86e0e5f71317fff587c45befe0edca8ed151f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 33/74] fix: find_nulls of fields without nulls

---
 viscid/cython/null_tools.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index cd52548..5ebe89c 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -104,7 +104,7 @@ def _reduce_candidates(fld, ibound=0.0):
     dat = fld.as_interlaced().data
     x, y, z = fld.get_crds("xyz")
     candidate_inds = _py_reduce_candidates(dat, x, y, z, ibound)
-    return np.array(candidate_inds)
+    return np.array(candidate_inds, dtype='l')
 
 def _find_null_cells_from_candidates(fld, inds):
     assert fld.nr_sdims == 3
@@ -113,7 +113,8 @@ def _find_null_cells_from_candidates(fld, inds):
     # iys = np.array(iys, dtype='int32', copy=False)
     # ixs = np.array(ixs, dtype='int32', copy=False)
     dat = fld.as_interlaced().data
-    null_inds = np.array(_py_find_null_cells_from_candidates(dat, inds))
+    null_inds = np.array(_py_find_null_cells_from_candidates(dat, inds),
+                         dtype='l')
     x, y, z = fld.get_crds()
     null_pts = np.zeros_like(null_inds).astype(dat.dtype)
     null_pts[0, :] = x[null_inds[0, :]]
-- 
2.43.0


From bf707b29c4f5372b689213dac5a2e7091db55e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 34/74] fix: corner offsets of the xy faces in the null finder

---
 viscid/cython/null_tools.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index 5ebe89c..ca580f5 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -209,7 +209,7 @@ def _py_find_null_cells_from_candidates(real_t[:, :, :, ::1] f,
     cdef int* ozc = [0, 1, 1, 1, 0, 0]
 
     cdef int* oxd = [1, 1, 0, 1, 1, 1]
-    cdef int* oyd = [0, 0, 1, 1, 0, 1]
+    cdef int* oyd = [1, 1, 1, 1, 0, 1]
     cdef int* ozd = [0, 1, 1, 1, 1, 1]
     cdef int[:, ::1] permuted_comps = np.array([[0, 1, 2], [1, 2, 0], [2, 0, 1]],
                                                dtype="int32")
-- 
2.43.0


From ac27d7bf9dee54c6b32eb2b0a84462f606fbe681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 35/74] fix: stable roots of nearly linear fields in the null
 finder

---
 viscid/cython/null_tools.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index ca580f5..00afd18 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -315,9 +315,13 @@ cdef inline find_roots_face(real_t a1, real_t b1, real_t c1, real_t d1,
         desc = b**2 - (4.0 * a * c)
         if desc > 0.0:
             # il y a deux solutions
-            rootx1 = (-b + np.sqrt(desc)) / (2.0 * a)
-            rootx2 = (-b - np.sqrt(desc)) / (2.0 * a)
-            roots_x = np.array([rootx1, rootx2])
+            # adding two terms of the same sign avoids cancellation if 4 * a * c
+            # is small, ie, if f1 and f2 are (almost) linear
+            if b > 0.0:
+                q = -0.5 * (b + np.sqrt(desc))
+            else:
+                q = -0.5 * (b - np.sqrt(desc))
+            roots_x = np.array([q / a, c / q])
             # print("::", roots_x)
         elif desc == 0.0:
             # il y a seulment une solution
-- 
2.43.0


From e12836db8ed7060b8f6b0d83d00eef6b1b529e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 36/74] fix: null finder roots where one component does not
 depend on y

---
 viscid/cython/null_tools.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index 00afd18..d0d483d 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -331,7 +331,12 @@ cdef inline find_roots_face(real_t a1, real_t b1, real_t c1, real_t d1,
             roots_x = np.array([])
             # print("::", roots_x)
 
-    roots_y = - (a1 + b1 * roots_x) / (c1 + d1 * roots_x)
+    # at a root, f1 and f2 vanish at the same y, so use the one of them that
+    # depends most on y (one of them may not depend on y at all)
+    numer1, denom1 = a1 + b1 * roots_x, c1 + d1 * roots_x
+    numer2, denom2 = a2 + b2 * roots_x, c2 + d2 * roots_x
+    use_f1 = np.abs(denom1) >= np.abs(denom2)
+    roots_y = - np.where(use_f1, numer1, numer2) / np.where(use_f1, denom1, denom2)
 
     # remove roots that are outside the box
     keep = ((roots_x >= 0.0) & (roots_x <= 1.0) &
-- 
2.43.0


From c6e5d3fb55e5373414362fa54f5f6b3abf11f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 37/74] fix: Bucket adds index handles to the caller's list

---
 viscid/bucket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/bucket.py b/viscid/bucket.py
index cd75cb2..235d22d 100755
--- a/viscid/bucket.py
+++ b/viscid/bucket.py
@@ -76,6 +76,7 @@ class Bucket(object):
             handles = []
         if not isinstance(handles, list):
             raise TypeError("handle must by of list type")
+        handles = list(handles)  # don't add index handles to the caller's list
 
         # make sure we have a hashable "item" for doing reverse
         # lookups of handles using an item
-- 
2.43.0


From 59984b1d09eb627c02428e93783665bda566b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 38/74] fix: resample_lines needs an integer number of points

---
 viscid/calculator/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 5ebec75..4e75aec 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -405,7 +405,7 @@ def resample_lines(lines, factor=1, kind="linear"):
 
     for i, line in enumerate(lines):
         nr_sdims, nold = line.shape
-        nnew = np.ceil(factor * (nold - 1)) + 1
+        nnew = int(np.ceil(factor * (nold - 1))) + 1
         newline = np.empty((nr_sdims, nnew), dtype=line.dtype)
         sold = np.linspace(0, 1, nold)
         snew = np.linspace(0, 1, nnew)
-- 
2.43.0


From af735e867caf4ee62df8217df66b12ff22e6d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 39/74] fix: tangent of the last vertex in project_along_line

---
 viscid/calculator/calc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 4e75aec..0994943 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -438,8 +438,11 @@ def project_along_line(line, fld, interp_kind='trilin'):
     # FIXME: here in lies a bug, which axis am I actually summing over?
     #        maybe that's not the bug, but there must be something wrong
     #        here as indicated by kris_scripts/work/iono_xi_mismatch/analytic_pot.py
-    dsvec = line[:, 2:] - line[:, :-2]
-    dsvec = np.concatenate([dsvec[:, 0:1], dsvec, dsvec[:, -2:-1]], axis=1)
+    if line.shape[1] > 2:
+        dsvec = line[:, 2:] - line[:, :-2]
+        dsvec = np.concatenate([dsvec[:, 0:1], dsvec, dsvec[:, -1:]], axis=1)
+    else:
+        dsvec = line[:, -1:] - line[:, 0:1]
     dsvec = dsvec / np.linalg.norm(dsvec, axis=0)
     return np.sum(fld_on_verts * dsvec.T, axis=1)
 
-- 
2.43.0


From ca96266880bc1e34a71ff4fb96d7fbbade6963cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 40/74] fix: magnitude reduction in integrate_along_lines

---
 viscid/calculator/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 0994943..8e6890b 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -502,7 +502,7 @@ def integrate_along_lines(lines, fld, reduction="dot", mask_func=None,
                 values = np.sum(values, axis=1)
             elif reduction in ["mag", "magnitude", "norm"]:
                 mag = np.linalg.norm(fld_on_verts[start:stop], axis=1)
-                values = 0.5 * (mag[start:stop - 1] + mag[start + 1:stop])
+                values = 0.5 * (mag[:-1] + mag[1:])
             else:
                 raise ValueError("Unknown reduction: {0}".format(reduction))
         else:
-- 
2.43.0


From 46a4ae4caa13c819fa51261303075b4a6abbb0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 41/74] fix: local_vector_points used a function that does not
 exist

---
 viscid/calculator/calc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 8e6890b..f3a08a3 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -539,21 +539,21 @@ def local_vector_points(B, x, y, z, dx=None, dy=None, dz=None):
     assert has_cython  # if a problem, you need to build Viscid
     assert B.iscentered("Cell")
 
-    x, y, z = [np.array(c).reshape(1, 1) for c in [x, y, z]]
+    x, y, z = [np.array(c, dtype='f8').reshape(1, 1) for c in [x, y, z]]
     crds = B.get_crds("xyz")
     inds = [0] * len(crds)
     dcrd = [0] * len(crds)
     # This makes points in xyz order
     pts = np.tile([x, y, z], 6).reshape(3, -1).T
     for i, crd, loc, d in zip(count(), crds, [x, y, z], [dx, dy, dz]):
-        inds[i] = cycalc.closest_ind(crd, loc)
         if d is None:
+            inds[i] = min(np.argmin(np.abs(crd - loc)), len(crd) - 2)
             dcrd[i] = crd[inds[i] + 1] - crd[inds[i]]
         else:
             dcrd[i] = d
         pts[2 * i + 1, i] += dcrd[i]
         pts[2 * i + 0, i] -= dcrd[i]
-    bs = cycalc.interp_trilin(B, seed.Point(pts))
+    bs = cycalc.interp_trilin(B, seed.Point(pts), wrap=False)
     # viscid.interact(banner="in local_vector_points")
     return bs, pts, dcrd
 
-- 
2.43.0


From 4cb31a9426a761a9b20e6c600934c26b2c3eb2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 42/74] fix: component indices in curl_at_point

---
 viscid/calculator/calc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index f3a08a3..62ac6cc 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -644,10 +644,10 @@ def curl_at_point(A, x, y, z, dx=None, dy=None, dz=None):
     # this is confusing: In As, first index is xyz, 2nd index is xyz
     #             xi+dxi  comp      xi-dxi   comp /   (2 * dxi)
     c[0] = ((As[2 * 1 + 1, 2] - As[2 * 1 + 0, 2]) / (2.0 * dcrd[1]) -
-            (As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[2]))
-    c[1] = ((As[2 * 0 + 1, 0] - As[2 * 0 + 0, 0]) / (2.0 * dcrd[2]) -
-            (As[2 * 2 + 1, 2] - As[2 * 2 + 0, 2]) / (2.0 * dcrd[0]))
-    c[2] = ((As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[0]) -
+            (As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[2]))
+    c[1] = ((As[2 * 2 + 1, 0] - As[2 * 2 + 0, 0]) / (2.0 * dcrd[2]) -
+            (As[2 * 0 + 1, 2] - As[2 * 0 + 0, 2]) / (2.0 * dcrd[0]))
+    c[2] = ((As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[0]) -
             (As[2 * 1 + 1, 0] - As[2 * 1 + 0, 0]) / (2.0 * dcrd[1]))
     return c
 
-- 
2.43.0


From b451ca66068ecce7e8b46a13509cab046f52e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 43/74] fix: DatasetTemporal contains index 0

---
 viscid/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 3dfd009..c35e12b 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -727,7 +727,7 @@ class DatasetTemporal(Dataset):
         return child
 
     def __contains__(self, item):
-        if isinstance(item, int) and item > 0 and item < len(self.children):
+        if isinstance(item, int) and item >= 0 and item < len(self.children):
             return True
         if isinstance(item, string_types) and item[-1] == 'f':
             try:
-- 
2.43.0


From 67ebb535e196055c21a5763efabf08f63219853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 44/74] fix: honour tdunit in std_sel2index

---
 viscid/sliceutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 57390f3..3a88276 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -506,7 +506,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
             and not isinstance(std_sel.start, (np.datetime64, np.timedelta64))):
             ustart = std_sel.start
         else:
-            ustart, tol = _unify_sbv_types(std_sel.start, crd_arr, tdunit='s',
+            ustart, tol = _unify_sbv_types(std_sel.start, crd_arr, tdunit=tdunit,
                                            epoch=epoch)
             start_val = ustart
             diff = crd_arr - ustart + (tol * sgn)
@@ -534,7 +534,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
             and not isinstance(std_sel.stop, (np.datetime64, np.timedelta64))):
             ustop = std_sel.stop
         else:
-            ustop, tol = _unify_sbv_types(std_sel.stop, crd_arr, tdunit='s',
+            ustop, tol = _unify_sbv_types(std_sel.stop, crd_arr, tdunit=tdunit,
                                           epoch=epoch)
             stop_val = ustop
             diff = crd_arr - ustop - (tol * sgn)
@@ -575,7 +575,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
 
     else:
         # slice by single value or ndarray of single values (int, float, times)
-        usel, _ = _unify_sbv_types(std_sel, crd_arr, tdunit='s', epoch=epoch)
+        usel, _ = _unify_sbv_types(std_sel, crd_arr, tdunit=tdunit, epoch=epoch)
         if (isinstance(usel, (int, np.integer, type(None)))
             and not isinstance(usel, (np.datetime64, np.timedelta64))):
             idx = usel
-- 
2.43.0


From 1f8d55fe70086378d284f5d51853ed758122fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 45/74] fix: NameError in Node.find_attr

---
 viscid/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index 5ba358b..ff35db4 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -197,7 +197,7 @@ class Node(object):
         """
         def _condition(_node, _):
             return (hasattr(_node, attr_name) and
-                    getattr(parent, attr_name) is not NotImplemented)
+                    getattr(_node, attr_name) is not NotImplemented)
         parent = self._parent_bfs(_condition)
         if parent is not None:
             return getattr(parent, attr_name)
-- 
2.43.0


From c5e5ffe75d2e0edbc43d30455f556266ee6c45d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 46/74] fix: Node.time accepts datetimes and timedeltas

---
 viscid/tree.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index ff35db4..29c8d28 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -25,14 +25,14 @@ class Node(object):
             info = dict()
         self._info = info
 
-        self.time = time
-
         if parents is None:
             parents = []
         if not isinstance(parents, (list, tuple)):
             parents = [parents]
         self.parents = parents
 
+        self.time = time
+
         self._info.update(kwargs)
 
     def prepare_child(self, obj):
@@ -232,11 +232,12 @@ class Node(object):
     @time.setter
     def time(self, val):
         if viscid.is_datetime_like(val):
-            val = viscid.as_timedelta(self.basetime - viscid.as_datetime64(val))
+            val = viscid.as_timedelta(viscid.as_datetime64(val) - self.basetime)
             val = val.total_seconds()
         elif viscid.is_timedelta_like(val, conservative=True):
             val = viscid.as_timedelta(val).total_seconds()
-        elif val is not None:
+
+        if val is not None:
             self.set_info('time', float(val))
 
     def time_as_timedelta64(self):
-- 
2.43.0


From b9e18dc2962e6d5263c18e5b100a372afc750e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 47/74] fix: quat2rot no longer renormalizes the caller's
 quaternion in place and accepts integers

---
 viscid/rotation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 44f2497..6b30f4b 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -773,10 +773,11 @@ def quat2rot(q):
     q = np.asarray(q)
     if hasattr(np, 'quaternion') and q.dtype == 'quaternion':
         single_val = q.shape == ()
-        q = q.reshape(-1)
+        q = q.reshape(-1).view(dtype=np.double)
     else:
         single_val = q.shape == (4,)
-    q = q.view(dtype=np.double).reshape(-1, 4)
+    # make a copy, since renormalization is done in place
+    q = np.array(q, dtype=np.double).reshape(-1, 4)
 
     q_norm = np.linalg.norm(q, axis=-1)
     do_renorm = ~np.bitwise_or(np.isclose(q_norm, 0.0), np.isclose(q_norm, 1.0))
-- 
2.43.0


From fdf4f0b9970276f2f4429af843b10d2e28c8e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 48/74] fix: rot2wxyz takes the axis from the symmetric part of
 the matrix

---
 viscid/rotation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 6b30f4b..b55e7a7 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1071,7 +1071,9 @@ def rot2wxyz(R, unit='rad', quick=True, bad_matrix='warn'):
     if any(null_mask):
         # calculate eigen vectors for transforms where the quick
         # method failed (or was never calculated)
-        eigval, eigvecs = np.linalg.eigh(R[null_mask])
+        # (the axis is the eigenvector of the symmetric part of R too)
+        Rsym = 0.5 * (R[null_mask] + np.swapaxes(R[null_mask], -2, -1))
+        eigval, eigvecs = np.linalg.eigh(Rsym)
         idx_evec = np.argmin(np.abs(eigval - 1.0), axis=1)
         # eigenvector for eigenval closest to 1.0
         u[null_mask, :] = eigvecs[np.arange(len(eigvecs)), :, idx_evec].real
-- 
2.43.0


From bb36ff89748b76cdd10fcf2db437f3fa23018b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 49/74] fix: wxyz2quat accepts one angle with many axes

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index b55e7a7..b64b04b 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1158,7 +1158,7 @@ def wxyz2quat(angle, vector, unit='rad'):
 
     half_theta_rad = convert_angle(angle, unit, 'rad') / 2
 
-    q = np.zeros([len(half_theta_rad), 4], dtype=np.double)
+    q = np.zeros([max(len(half_theta_rad), len(vector)), 4], dtype=np.double)
 
     q[:, 0:1] = np.cos(half_theta_rad)
     q[:, 1:] = (np.sin(half_theta_rad)
-- 
2.43.0


From fe09b773a5d4271aa9b5c59f276e35b32502e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 50/74] fix: quat2wxyz normalizes each quaternion by its own
 norm

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index b64b04b..dbdde0f 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1214,7 +1214,7 @@ def quat2wxyz(q, unit='rad'):
     wxyz = np.zeros([len(q), 4], dtype=np.double)
 
     # normalize quats
-    q = q / np.linalg.norm(q, axis=1)[-1, np.newaxis]
+    q = q / np.linalg.norm(q, axis=1)[:, np.newaxis]
 
     vec_norm = np.linalg.norm(q[:, 1:], axis=1)
     wxyz[:, 0] = 2 * np.arctan2(vec_norm, q[:, 0])
-- 
2.43.0


From c9cbce26091035abb09bd2bfd5570c92c7c55e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 51/74] fix: a2b_rot rolls by 180 degrees when new_x is
 opposite to the current x

---
 viscid/rotation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index dbdde0f..fb10f7a 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1333,12 +1333,10 @@ def a2b_rot(a, b, roll=0.0, unit='rad', new_x=None):
             current_x = np.einsum('mij,mj->mi', R, [[1, 0, 0]])
             new_x /= new_x_norm
             current_x /= np.linalg.norm(current_x, axis=1)[:, np.newaxis]
-            s_roll = np.linalg.norm(np.cross(current_x, new_x, axis=1), axis=1)
+            s_roll = np.sum(np.cross(current_x, new_x, axis=1) * b, axis=1)
             c_roll = np.sum(current_x * new_x, axis=1)
             roll[~no_norm] = np.arctan2(s_roll, c_roll)
             roll[~no_norm] = convert_angle(roll[~no_norm], 'rad', unit)
-            roll[~no_norm] *= np.sign(np.sum(np.cross(current_x, new_x, axis=1)
-                                             * b, axis=1))
 
     if np.any(roll):
         roll_rad = convert_angle(roll, unit, 'rad')
-- 
2.43.0


From 67a94c6ec4eaffa250ef14cb533fd0df232234ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 52/74] fix: prepare_lines does not modify the caller's list of
 scalars

---
 viscid/vutil.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index da5e442..493889c 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -367,10 +367,7 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
             elif isinstance(scalars, np.ndarray):
                 scalars = scalars
             else:
-                for i, si in enumerate(scalars):
-                    if not isinstance(si, np.ndarray):
-                        scalars[i] = np.asarray(si)
-                    scalars[i] = np.atleast_2d(scalars[i])
+                scalars = [np.atleast_2d(np.asarray(si)) for si in scalars]
                 try:
                     scalars = np.concatenate(scalars, axis=0)
                 except ValueError:
-- 
2.43.0


From 932c97a09b2222a53c645f6485db6e23e90b04b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 53/74] fix: prepare_lines keeps scalars carried by the lines
 at their vertices

---
 viscid/vutil.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index 493889c..7bed2b4 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -340,11 +340,13 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
     if vertices.dtype.kind not in 'fc':
         vertices = np.asarray(vertices, dtype='f')
 
+    vertex_scalars = False
     if vertices.shape[0] > 3:
         if scalars is not None:
             viscid.logger.warning("Overriding line scalars with scalars kwarg")
         else:
             scalars = vertices[3:, :]
+            vertex_scalars = True
         vertices = vertices[:3, :]
 
     if scalars is not None:
@@ -380,7 +382,10 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
                                "that indicate rgb(a), or hex strings - they "
                                "must not be python objects")
 
-        if scalars.shape == (1, 1):
+        if vertex_scalars:
+            # came with the vertices, so there is one column per vertex
+            pass
+        elif scalars.shape == (1, 1):
             scalars = scalars.repeat(N, axis=1)
         elif scalars.shape == (1, nlines) or scalars.shape == (nlines, 1):
             # one scalar for each line, so broadcast it
-- 
2.43.0


From b53131c37b3d7eb381f89008b048221292b207fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 54/74] fix: prepare_lines transposes per-vertex colors given
 with one row per vertex

---
 viscid/vutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index 7bed2b4..64215df 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -411,8 +411,8 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
             scalars = np.concatenate(colors, axis=1)
         elif scalars.shape in [(3, N), (N, 3), (4, N), (N, 4)]:
             # one rgb(a) color for each vertex
-            if (scalars.shape in [(3, N), (4, N)] and
-                scalars.shape not in [(3, 3), (4, 4)]):
+            if (scalars.shape in [(N, 3), (N, 4)] or
+                scalars.shape in [(3, 3), (4, 4)]):
                 # the guard against shapes (3, 3) and (4, 4) mean that
                 # these square shapes are assumed N x {3,4}
                 scalars = scalars.T
-- 
2.43.0


From 94ceafe7c80d9751a385cb89ceecf2e83911aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 55/74] fix: recognize all of Jan 1 1967 as the special no-tilt
 time

---
 viscid/cotr.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 96c388e..baaca75 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -124,11 +124,16 @@ _IGRF = np.array([[1950.0, -30554.00, -2250.00, 5815.00],
                   [2015.0, -29442.00, -1501.00, 4797.10]], dtype='f8')
 
 
+def _is_notilt1967(time):
+    """True if time is on Jan 1 1967, ie, OpenGGCM's special no-tilt time"""
+    day = as_datetime64(time).astype('datetime64[D]')
+    return bool(day == np.datetime64('1967-01-01', 'D'))
+
 def _igrf_interpolate(time, notilt1967=True):
     # get time as decimal year, note that epoch is completely arbitrary
     years = datetime64_as_years(time)
 
-    if notilt1967 and np.abs(years - 1967.0) < 0.0006:
+    if notilt1967 and _is_notilt1967(time):
         # OpenGGCM special no-tilt hack
         # g10, g11, h11 = np.linalg.norm(IGRF[0, 1:]), 0.0, 0.0
         g10, g11, h11 = -30554.00, 0.0, 0.0
@@ -442,8 +447,7 @@ class Cotr(object):
         self.h11 = h11
 
         self._disable_mag_crds = dip_tilt is not None or dip_gsm is not None
-        years = datetime64_as_years(time)
-        notilt = notilt1967 and np.abs(years - 1967.0) < 0.0006
+        notilt = notilt1967 and _is_notilt1967(time)
 
         # do i really want the self._disable_mag_crds part of this? what
         # if i want dip_gsm set by the time, and dip_tilt set by hand...
-- 
2.43.0


From 6a82456ea58e8a800ed5a01a5d98a1b08ea197ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 56/74] fix: heliocentric identity transforms no longer raise a
 TypeError

---
 viscid/cotr.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index baaca75..3f7e10b 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -357,7 +357,7 @@ class Cotr(object):
     # verify your favorite transformations and fix them or mark them as tested
     #
     GEOCENTRIC = ['gei', 'geo', 'gse', 'gsm', 'sm', 'mag', 'mhd']
-    HELIOCENTRIC = ['hea', 'hee', 'heeq']
+    HELIOCENTRIC = ['hae', 'hee', 'heeq']
     XFORM_LOOKUP = {"gei->gei": (0, ),  # identity
                     "geo->gei": (-1, ),
                     "gse->gei": (-2, ),
@@ -387,12 +387,12 @@ class Cotr(object):
                     "mhd->mag": (5, 1, -2, 6),
                     "mhd->mhd": (0, ),  # identity
                     # Heliocentric
-                    "hae->hae": (0),  # identity
-                    "hee->hae": (-11),
-                    "heeq->hae": (-12),
-                    "hee->hee": (0),  # identity
+                    "hae->hae": (0,),  # identity
+                    "hee->hae": (-11,),
+                    "heeq->hae": (-12,),
+                    "hee->hee": (0,),  # identity
                     # "heeq->hee": (0),  # <- unknown transform?
-                    "heeq->heeq": (0),  # identity
+                    "heeq->heeq": (0,),  # identity
                    }
 
     def __init__(self, time='1967-01-01', dip_tilt=None, dip_gsm=None, rdim=3,
-- 
2.43.0


From 7536317a3574441614eb79d2bed09e59fe3b4ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 57/74] fix: get_dipole_moment_ang no longer overflows

---
 viscid/cotr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 3f7e10b..fa6e059 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -863,7 +863,7 @@ def get_dipole_moment_ang(dip_tilt=0.0, dip_gsm=0.0, crd_system='gse',
     Returns:
         ndarray: dipole moment [mx, my, mz]
     """
-    c = Cotr(0, dip_tilt=dip_tilt, dip_gsm=dip_gsm)
+    c = Cotr(dip_tilt=dip_tilt, dip_gsm=dip_gsm)
     return c.get_dipole_moment(strength=strength, crd_system=crd_system)
 
 def get_dipole_angles(date_time, notilt1967=True):
-- 
2.43.0


From d28cfe30d6fd16b1d22c43bcc2aa53430bc400f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 58/74] fix: dipole_moment2cotr uses the northern end of the
 dipole axis

---
 viscid/cotr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index fa6e059..62b607d 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -897,8 +897,9 @@ def dipole_moment2cotr(m, crd_system='gse'):
     if as_crd_system(crd_system) not in ('gse', 'mhd'):
         raise ValueError('bad crd_system: {0}'.format(crd_system))
     m = Cotr(dip_tilt=0.0, dip_gsm=0.0).transform(crd_system, 'gse', m)
-    gsm = np.rad2deg(np.arctan2(m[1], m[2]))
-    tilt = np.rad2deg(np.arctan2(m[0], np.linalg.norm(m[1:])))
+    # the dipole moment points southward (see Cotr.get_dipole_moment)
+    gsm = np.rad2deg(np.arctan2(-m[1], -m[2]))
+    tilt = np.rad2deg(np.arctan2(-m[0], np.linalg.norm(m[1:])))
     return Cotr(dip_tilt=tilt, dip_gsm=gsm)
 
 
-- 
2.43.0


From e8acfdf6c3e9acfdb50e169fd96b361e2ffcddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 59/74] fix: map field unit lists are padded and not modified

---
 viscid/mapfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 0c5f916..ac8509c 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -53,7 +53,7 @@ def fld_noop(fld, base, target, unit=''):
 def _prep_units(order, units='', fld=None):
     if not isinstance(units, (list, tuple)):
         units = [units] * len(order)
-    units += [None] * (len(units) - len(order))
+    units = list(units) + [None] * (len(order) - len(units))
     units = ['' if u is None else u.strip() for u in units]
     if fld is not None:
         crds = fld.crds
-- 
2.43.0


From 26292acbd70ad8e4207562f10f8569e3a91cb770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 60/74] fix: theta and lat reversal picks the right axis of
 interlaced fields

---
 viscid/mapfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index ac8509c..d1f5781 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -76,7 +76,7 @@ def _make_transform_unit_func(base_unit, target_unit):
 
 def _get_axinds(fld, ax):
     dcrd = fld.crds.ind(ax)
-    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp < dcrd else dcrd
+    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp <= dcrd else dcrd
     return dcrd, ddat
 
 def _fld_xform_common(fld, base, target, unit, crd_xform, dat_xform, raw=False):
-- 
2.43.0


From 76b9a021e431162d370b1959af9d2e8367747ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 61/74] fix: fld_theta2lat and fld_lat2theta default to the
 unit of the field

---
 viscid/mapfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index d1f5781..e1292dc 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -111,6 +111,8 @@ def fld_phi2lon(fld, base='phi', target='lon', unit='deg'):
 
 def fld_theta2lat(fld, base='theta', target='lat', unit='deg'):
     _, ddat = _get_axinds(fld, base)
+    if not unit:
+        unit = fld.crds.get_unit(base)
     crd_xform = lambda x: theta2lat(x, unit=unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
     dslc[ddat] = slice(None, None, -1)
@@ -124,6 +126,8 @@ def fld_lon2phi(fld, base='lon', target='phi', unit='deg'):
 
 def fld_lat2theta(fld, base='lat', target='theta', unit='deg'):
     dcrd, ddat = _get_axinds(fld, base)
+    if not unit:
+        unit = fld.crds.get_unit(base)
     crd_xform = lambda x: lat2theta(x, unit=unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
     dslc[ddat] = slice(None, None, -1)
-- 
2.43.0


From f78f927c8a3e9b3fc70a7a9914fa0a77c23b0dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 62/74] fix: as_polar_mapfield compares latitudes with
 latitudes

---
 viscid/mapfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index e1292dc..ce42a14 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -256,14 +256,14 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
     abs_bounding_lat = abs(bounding_lat)
 
     if hemisphere in ("north", 'n'):
-        if np.all(mfld.get_crd('lat') < abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') < np.pi / 2 - abs_bounding_lat):
             raise ValueError("fld {0} contains no values north of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
         # mfld = mfld["lat=:{0}j:-1".format(abs_bounding_lat)]
         mfld = mfld.loc[:, :np.pi / 2 - abs_bounding_lat:-1]
     elif hemisphere in ("south", 's'):
-        if np.all(mfld.get_crd('lat') > -abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') > -np.pi / 2 + abs_bounding_lat):
             raise ValueError("fld {0} contains no values south of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
-- 
2.43.0


From 7cf13c7a177d7c72a780ef4d374402cd50013cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 63/74] fix: periodic uniform polar map fields get one more
 node

---
 viscid/mapfield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index ce42a14..2ab9f66 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -291,7 +291,8 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
 
         if phi_diff < 2 * np.pi - 1e-5:
             if mfld.crds.is_uniform():
-                clist[0][1][1] += phi_diff / clist[0][1][2]
+                clist[0][1][1] += phi_diff / (clist[0][1][2] - 1)
+                clist[0][1][2] += 1
                 if not np.isclose(clist[0][1][1] - clist[0][1][0], 2 * np.pi):
                     viscid.logger.warning("Tried unsuccessfully to make uniform "
                                           "polar mapfield periodic: {0:g}"
-- 
2.43.0


From feb64c3dc52ac3ce974d06e1724ca429c1c96cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 64/74] fix: coordinate transforms of integer points are not
 truncated

---
 viscid/mapfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 2ab9f66..6e4fcba 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -344,6 +344,8 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
     hemisphere = hemisphere.strip().lower()
 
     pts = np.array(pts)
+    if pts.dtype.kind not in 'fc':
+        pts = pts.astype('f8')
     pts_axes = list(pts_axes)
 
     # convert pts to lat/lon
@@ -381,6 +383,8 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
 def _as_3xN(arr, d=3):
     """return a copy of arr as a 3xN array"""
     arr = np.array(arr)
+    if arr.dtype.kind not in 'fc':
+        arr = arr.astype('f8')
     was_single_point = arr.shape == (d, )
     arr = arr.reshape((d, -1))
     return arr, was_single_point
-- 
2.43.0


From b00beaa4af9f52e981ea3eafda396d1a2bb2c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 65/74] fix: cart2sph(deg=True) converts the result

---
 viscid/mapfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 6e4fcba..9c79d66 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -406,7 +406,7 @@ def cart2sph(arr, deg=False):
     ret[1, :] = np.arccos(arr[2, :] / ret[0, :])
     ret[2, :] = np.arctan2(arr[1, :], arr[0, :])
     if deg:
-        arr[1:] *= 180.0 / np.pi
+        ret[1:] *= 180.0 / np.pi
     if was_single_point:
         return ret[:, 0]
     else:
-- 
2.43.0


From 9f7bf29f97da72f5fa3666b4c7f34dbe111508d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 66/74] fix: great_circle through colinear points stays on the
 circle

---
 viscid/mapfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 9c79d66..5705537 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -513,6 +513,8 @@ def great_circle(p1, p2, origin=(0, 0, 0), n=32):
         pole = np.array([0, -1, 0])
         if np.isclose(np.linalg.norm(np.cross(pole, p1)), 0.0):
             pole = np.array([0, 0, -1])
+        # the pole must be perpendicular to p1
+        pole = pole - (np.dot(pole, p1) / np.dot(p1, p1)) * p1
 
     matBtoA = viscid.a2b_rot([0, 0, 1], pole, new_x=p1)
 
-- 
2.43.0


From dbd48d22bef03471f2fdc7cb8e7bdbec79d83abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 67/74] fix: calc_dip broadcasts over many points

---
 viscid/dipole.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 7bceee6..46e6e80 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -172,6 +172,8 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
         single_pt = False
 
     if dtype is None:
+        if pts.dtype.kind not in 'fc':
+            pts = pts.astype('f8')
         dtype = pts.dtype
 
     one = np.array([1.0], dtype=dtype)  # pylint: disable=W0612
@@ -194,11 +196,13 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
         _X, _Y, _Z = pts.T
         rsq = ne.evaluate("_X**2 + _Y**2 + _Z**2")  # pylint: disable=W0612
         mdotr = ne.evaluate("mx * _X + my * _Y + mz * _Z")  # pylint: disable=W0612
+        rsq, mdotr = rsq.reshape(-1, 1), mdotr.reshape(-1, 1)
         Bdip = ne.evaluate("((three * pts * mdotr / rsq) - m) / rsq**1.5")
     else:
         _X, _Y, _Z = pts.T
         rsq = _X**2 + _Y**2 + _Z**2
         mdotr = mx * _X + my * _Y + mz * _Z
+        rsq, mdotr = rsq.reshape(-1, 1), mdotr.reshape(-1, 1)
         Bdip = ((three * pts * mdotr / rsq) - m) / rsq**1.5
 
     if single_pt:
-- 
2.43.0


From 70943995d1342bf1db4ff07a7db9df0cfe797782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 68/74] fix: dipole_map of points on the equator

---
 viscid/dipole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 46e6e80..0b2d05f 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -336,7 +336,7 @@ def dipole_map(pts, r=1.0, cotr=None, crd_system='gse', as_spherical=False):
     rlp_mapped = np.empty_like(lsrlp[1:, :])
     rlp_mapped[0, :] = r
     # root is determined by sign of latitude in sm?
-    root = np.sign(lsrlp[2:3, :])
+    root = np.where(lsrlp[2:3, :] < 0.0, -1.0, 1.0)
     rlp_mapped[1, :] = root * np.arccos(np.sqrt(r / lsrlp[0:1, :]))
     rlp_mapped[2, :] = lsrlp[3:4, :]
     del lsrlp
-- 
2.43.0


From fec48d43236614db484e835018586a23cb16e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 69/74] fix: make_spherical_mask indexes with a tuple

---
 viscid/dipole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 0b2d05f..2c5f557 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -253,7 +253,7 @@ def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
             rsq = np.sum([c**2 for c in _crd_lst[i]], axis=0)
             _slc = [slice(None)] * len(fld.shape)
             _slc[fld.nr_comp] = i
-            mask[_slc] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
+            mask[tuple(_slc)] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         return fld.wrap_field(mask, dtype='bool')
     else:
         rsq = np.sum([c**2 for c in fld.get_crds(shaped=True)], axis=0)
-- 
2.43.0


From f65410d5a5e02beaf930a10eb37b95d781bc34c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 70/74] fix: masks of fill_dipole and set_in_region

---
 viscid/dipole.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 2c5f557..01fa8b5 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -99,7 +99,7 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
         Field: B
     """
     # FIXME: should really be taking the curl of a vector field
-    if mask:
+    if mask is not None:
         Bdip = field.empty_like(B)
     else:
         Bdip = B
@@ -141,8 +141,8 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
             mdotr = mx * _X + my * _Y + mz * _Z
             Bdip[cn] = ((three * _XI * mdotr / rsq) - _mi) / rsq**1.5
 
-    if mask:
-        B.data[...] = np.choose(mask.astype('i'), [B, Bdip])
+    if mask is not None:
+        B.data[...] = np.where(_shape_mask(mask, B), Bdip.data, B.data)
     return B
 
 def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
@@ -210,6 +210,16 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
 
     return Bdip
 
+def _shape_mask(mask, fld):
+    """mask as a boolean ndarray that broadcasts with fld.data"""
+    if getattr(mask, "nr_comps", 0):
+        mask = mask.as_centered(fld.center).as_layout(fld.layout)
+    mask = np.asarray(getattr(mask, "data", mask), dtype='bool')
+    if fld.nr_comps and mask.ndim < len(fld.shape):
+        # scalar mask, use it for all components
+        mask = np.expand_dims(mask, fld.nr_comp)
+    return mask
+
 def set_in_region(a, b, alpha=1.0, beta=1.0, mask=None, out=None):
     """set `ret = alpha * a + beta * b` where mask is True"""
     alpha = np.asarray(alpha, dtype=a.dtype)
@@ -230,13 +240,7 @@ def set_in_region(a, b, alpha=1.0, beta=1.0, mask=None, out=None):
     if mask is None:
         out.data[...] = vals
     else:
-        if hasattr(mask, "nr_comps") and mask.nr_comps:
-            mask = mask.as_centered(a.center).as_layout(a.layout)
-        try:
-            out.data[...] = np.choose(mask, [out.data, vals])
-        except ValueError:
-            out.data[...] = np.choose(mask.data.reshape(list(mask.sshape) + [1]),
-                                      [out.data, vals])
+        out.data[...] = np.where(_shape_mask(mask, out), vals, out.data)
     return out
 
 def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
-- 
2.43.0


From a641548e89e501e316866670d664f139f2df916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 71/74] fix: equations with vector fields don't go to numexpr

---
 viscid/calculator/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index 963d3fa..748077f 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -105,6 +105,8 @@ def _evaluate_numexpr(grid, result_name, eqn, slc=Ellipsis):
         # getitem might copy the array
         if salted_symbol not in local_dict:
             this_fld = grid.get_field(symbol, slc=slc)
+            if getattr(this_fld, "nr_comps", 0):
+                raise RuntimeError("numexpr doesn't know about vector fields")
             local_dict[salted_symbol] = this_fld
             if len(flds) == 0:
                 if isinstance(this_fld, field.Field):
-- 
2.43.0


From 8ed9530b80c36792eb6c2eda9847f14615417b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 72/74] fix: fields may have the name of a function in an
 equation

---
 viscid/calculator/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index 748077f..a214545 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -157,11 +157,12 @@ def _evaluate_numpy(grid, result_name, eqn, slc=Ellipsis):
         return salted_symbol
     salted_eqn = re.sub(var_re, var_salter, eqn)
 
-    # salt function names
+    # salt function names, fields can have the name of a function
+    func_salt = "FUNC"
     func_re = _symbol_re + r"(\s*\()"
     def func_salter(symbols):
         symbol = symbols.groups()[0]
-        salted_symbol = salt + symbol
+        salted_symbol = func_salt + symbol
         if salted_symbol not in local_dict:
             if hasattr(calc, symbol):
                 local_dict[salted_symbol] = getattr(calc, symbol)
-- 
2.43.0


From 9f698029e3f0e65fac940de400320bf437f512ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 73/74] fix: evaluate returns a new field with the result

---
 viscid/calculator/evaluator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index a214545..f7a0faf 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -173,6 +173,15 @@ def _evaluate_numpy(grid, result_name, eqn, slc=Ellipsis):
 
     # run eval
     fld = eval(salted_eqn, {"__builtins__": {}}, local_dict)  # pylint: disable=eval-used
+    flds = [f for f in local_dict.values() if isinstance(f, field.Field)]
+    if any(fld is f for f in flds):
+        # don't change the name of the grid's field
+        fld = fld.shell_copy(force=True)
+    elif isinstance(fld, np.ndarray):
+        # not all functions return fields
+        flds = [f for f in flds if f.data.shape == fld.shape]
+        if flds:
+            fld = flds[0].wrap(fld)
     try:
         fld.name = result_name
         fld.pretty_name = result_name
-- 
2.43.0


From 802068c2c71e3d321ba00670b10531a5c3c07729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 74/74] fix: lmn frame for l_basis against the normal

---
 viscid/calculator/minvar_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/minvar_tools.py b/viscid/calculator/minvar_tools.py
index 344ff7b..c725c4d 100644
--- a/viscid/calculator/minvar_tools.py
+++ b/viscid/calculator/minvar_tools.py
@@ -135,7 +135,9 @@ def _minvar_lmn_directions(evec_min, evec_max, l_basis=(0, 0, 1)):
 
     try:
         l_basis = np.array(l_basis).reshape((3,))
-        if np.allclose(n_dir, l_basis / np.linalg.norm(l_basis)):
+        l_hat = l_basis / np.linalg.norm(l_basis)
+        # the sign of n_dir is arbitrary
+        if np.allclose(n_dir, l_hat) or np.allclose(-n_dir, l_hat):
             viscid.logger.warning("LMN says l_basis is parallel to normal, using "
                                   "MVAs max eigenvector direction")
             raise ValueError
-- 
2.43.0

