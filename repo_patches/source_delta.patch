From 261ff9974d40ca5e1a07aab7c85ad0f10c891085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 001/109] fix: don't treat unevenly sampled coords with tiny
 spacing as even

The absolute tolerance of np.allclose (1e-8) made every float coordinate
whose spacing is smaller than that 'evenly sampled', silently replacing its
values.
---
 dascore/utils/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index f5f0b36..2b3f0f0 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -331,7 +331,9 @@ def all_diffs_close_enough(diffs):
     med = np.median(diffs)
     # Note: The rtol parameter here is a bit arbitrary; it was set
     # based on experience but there is probably a better way to do this.
-    return np.allclose(diffs, med, rtol=0.001)
+    # The tolerance must be purely relative; an absolute one would consider
+    # any spacing smaller than it to be even.
+    return np.allclose(diffs, med, rtol=0.001, atol=0)
 
 
 def unbyte(byte_or_str: bytes | str) -> str:
-- 
2.43.0


From 112a43e07125765e04b30117b4579cb13925ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 002/109] fix: reordering a monotonic coord no longer claims to
 be sorted

Indexing a CoordMonotonicArray with integers (eg through Coord.order) could
return a CoordMonotonicArray with non-monotonic values, which later selects
then searched incorrectly.
---
 dascore/core/coords.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 5e494e6..d3a0d1e 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1583,6 +1583,16 @@ class CoordMonotonicArray(CoordArray):
             return self.empty(), slice(0, 0)
         return self.new(values=self.values[out]), out
 
+    def __getitem__(self, item) -> Self:
+        out = super().__getitem__(item)
+        # Indexing with an array of ints can reorder or repeat values, in which
+        # case the output is no longer monotonic.
+        if isinstance(out, CoordMonotonicArray) and not isinstance(item, slice):
+            vals = out.values
+            if not (np.all(vals[1:] > vals[:-1]) or np.all(vals[1:] < vals[:-1])):
+                return CoordArray(values=vals, units=self.units)
+        return out
+
     def _get_index(self, value, forward=True):
         """
         Get the index corresponding to a value.
-- 
2.43.0


From e82b6af62b5ffa34504fa5c1ca0d3fd9eea34510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 003/109] fix: update_limits of reverse sorted evenly sampled
 coords

The new min was used as the first value (and the new max as the last one)
even if the coordinate is reverse sorted.
---
 dascore/core/coords.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index d3a0d1e..bd273da 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1341,17 +1341,19 @@ class CoordRange(BaseCoord):
             step = get_compatible_values(step, type(self.step))
             new_stop = out.start + step * len(out)
             out = out.new(stop=new_stop, step=step)
-        if min is not None:
-            min = get_compatible_values(min, self.dtype)
-            diff = min - out.start
+        # The first value is the max, and the last the min, if reverse sorted.
+        first, last = (max, min) if out.reverse_sorted else (min, max)
+        if first is not None:
+            first = get_compatible_values(first, self.dtype)
+            diff = first - out.start
             new_stop = out.stop + diff
-            out = out.new(start=min, stop=new_stop)
-        if max is not None:
-            max = get_compatible_values(max, self.dtype)
-            translation = (max + out.step) - out.stop
+            out = out.new(start=first, stop=new_stop)
+        if last is not None:
+            last = get_compatible_values(last, self.dtype)
+            translation = (last + out.step) - out.stop
             new_start = self.start + translation
             # we add step so the new range is inclusive of stop.
-            out = out.new(start=new_start, stop=max + out.step)
+            out = out.new(start=new_start, stop=last + out.step)
         return out.new(**kwargs)
 
     @property
-- 
2.43.0


From 39a47c0fcf3b9557f91c0c9d91b2891cfc692f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:56 +0000
Subject: [PATCH 004/109] fix: change_length of evenly sampled coords with tiny
 steps

Coord.update skips values which are close (1e-8) to the current ones, so the
length of coordinates with a very small step could not be changed.
---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index bd273da..52c1ca6 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1402,7 +1402,7 @@ class CoordRange(BaseCoord):
             return get_coord(data=data, step=self.step, units=self.units)
         diff = length - current
         stop, step = self.stop, self.step
-        out = self.update(stop=stop + step * diff)
+        out = self.new(stop=stop + step * diff)
         assert len(out) == length
         return out
 
-- 
2.43.0


From c51834b6af26e023dcb707ae360adccfb56ad266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 005/109] fix: ordering by samples dropped the valid index
 -len(coord)

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 52c1ca6..e2e317d 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -343,7 +343,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             )
             raise CoordError(msg)
         # Filter out bad indices
-        array = array[np.abs(array) < len(self)]
+        array = array[(array < len(self)) & (array >= -len(self))]
         return self[array], array
 
     def _select_by_value_array(self, array):
-- 
2.43.0


From d58a527bbfc33ca5a483bf68ee2252f15e3ed0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 006/109] fix: select and order on reverse sorted time coords
 with fine sampling

The values were converted to (negative) float seconds before searching, which
only resolves some hundreds of nanoseconds for current dates.
---
 dascore/core/coords.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index e2e317d..3b7b1f0 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -321,10 +321,10 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             inds = self._get_value_index(coord_array, values_to_find)
             return self[inds], inds
         if self.reverse_sorted:
-            # Need to_float here because datetime can't be multiplied by -1.
-            inds = self._get_value_index(
-                -to_float(coord_array), -to_float(values_to_find)
-            )
+            # Search the flipped (ascending) array, then map back. Negating
+            # isn't possible for datetimes without loosing precision.
+            inds = self._get_value_index(coord_array[::-1], values_to_find)
+            inds = len(coord_array) - 1 - inds
             return self[inds], inds
         # Sort the array, then find insertion points, and map
         # back to pre-sorted indices.
@@ -1604,19 +1604,19 @@ class CoordMonotonicArray(CoordArray):
         if (new_value := self._get_compatible_value(value)) is None:
             return new_value
         values = np.atleast_1d(self.values)
-        # since search sorted only works on ascending monotonic arrays we
-        # negative descending arrays to get the same effect.
-        if self.reverse_sorted:
-            values = to_float(values) * -1
-            new_value = to_float(new_value) * -1
-        # side = "right" if forward else "left"
-        # out = np.atleast_1d(np.searchsorted(values, new_value, side=side))
         # Search values. Ensure the returned index is in bounds (eg values GT
         # coord max should still have a range in coords.
         new_value = np.atleast_1d(new_value)
-        right = np.searchsorted(values, new_value, side="right")
-        # right_ok = (right < len(self)) & (right < 0)
-        left = np.searchsorted(values, new_value, side="left")
+        # since search sorted only works on ascending monotonic arrays we
+        # flip descending arrays and count from the end. Converting them to
+        # negative floats would loose the precision of datetimes.
+        if self.reverse_sorted:
+            flipped = values[::-1]
+            right = len(values) - np.searchsorted(flipped, new_value, side="left")
+            left = len(values) - np.searchsorted(flipped, new_value, side="right")
+        else:
+            right = np.searchsorted(values, new_value, side="right")
+            left = np.searchsorted(values, new_value, side="left")
         left_ok = (left < len(self)) & (left > 0)
         eq = left_ok & (values.take(left, mode="clip") == new_value)
         out = right if forward else left
-- 
2.43.0


From 92e787d7e480a0c90befec4e831f532e7606c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 007/109] fix: get_next_index of the first value of unevenly
 sampled coords

The index of the second, rather than first, value was returned.
---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 3b7b1f0..956086b 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1617,7 +1617,7 @@ class CoordMonotonicArray(CoordArray):
         else:
             right = np.searchsorted(values, new_value, side="right")
             left = np.searchsorted(values, new_value, side="left")
-        left_ok = (left < len(self)) & (left > 0)
+        left_ok = (left < len(self)) & (left >= 0)
         eq = left_ok & (values.take(left, mode="clip") == new_value)
         out = right if forward else left
         # where equal it should also be left values. This makes the function
-- 
2.43.0


From 1ae5b4e303fd315cd77160e5dc0fe8f9769239de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 008/109] fix: ordering by consecutive samples which span
 negative indices

order with eg [-1, 0] used a slice for the data which didn't match the
returned coordinate.
---
 dascore/core/coords.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 956086b..25acd22 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -344,6 +344,9 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             raise CoordError(msg)
         # Filter out bad indices
         array = array[(array < len(self)) & (array >= -len(self))]
+        # Negative indices count from the end. They can't be left as is since
+        # consecutive indices spanning 0 (eg [-1, 0]) don't form a slice.
+        array = np.where(array < 0, array + len(self), array)
         return self[array], array
 
     def _select_by_value_array(self, array):
-- 
2.43.0


From a019c9543191d5068324549fb9f40efa70fea9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:40 +0000
Subject: [PATCH 009/109] fix: flipping several dimensions of coords which span
 them

A coordinate associated with two flipped dimensions was only flipped along
the last one, so its values no longer matched the data.
---
 dascore/core/coordmanager.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 87dabbf..36f6299 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -1173,10 +1173,13 @@ class CoordManager(DascoreBaseModel):
                 # Don't flip dimensional coords twice!
                 if associated == name:
                     continue
-                associated_coord = self.get_coord(associated)
-                dims = dim_map[associated]
-                axis = dims.index(name)
-                out[associated] = (dims, _flip_coord(associated_coord, axis))
+                coord_dims = dim_map[associated]
+                # The coord may already be flipped along another dimension.
+                _, associated_coord = out.get(
+                    associated, (coord_dims, self.get_coord(associated))
+                )
+                axis = coord_dims.index(name)
+                out[associated] = (coord_dims, _flip_coord(associated_coord, axis))
 
         return self.update(**out)
 
-- 
2.43.0


From 2c05bf083408c69b2aa658169817c8e24dd154ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:21 +0000
Subject: [PATCH 010/109] fix: coordinate summaries no longer leak between
 coords with a common prefix

A dimension named "a" picked up the limits of any coordinate whose name starts
with "a" (time and timer, for example), corrupting attrs and then coords.
Dimension names which contain an underscore are also split properly.
---
 dascore/core/coordmanager.py | 2 +-
 dascore/utils/attrs.py       | 4 +++-
 dascore/utils/misc.py        | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 36f6299..71ed6e8 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -308,7 +308,7 @@ class CoordManager(DascoreBaseModel):
         out.update({i: v for i, v in kwargs.items() if i not in coord_to_drop})
         # update based on keywords
         for item, value in coord_updates.items():
-            coord_name, attr = item.split("_")
+            coord_name, attr = item.rsplit("_", maxsplit=1)
             new = list(out[coord_name])
             new[1] = new[1].update(**{attr: value})
             out[coord_name] = tuple(new)
diff --git a/dascore/utils/attrs.py b/dascore/utils/attrs.py
index dfc1fb9..ae83044 100644
--- a/dascore/utils/attrs.py
+++ b/dascore/utils/attrs.py
@@ -254,7 +254,9 @@ def separate_coord_info(
         """First get coord info from top level."""
         for dim in iterate(dims):
             potential_coord = {
-                i.split("_")[1]: v for i, v in obj.items() if is_valid_coord_str(i, dim)
+                i.rsplit("_", maxsplit=1)[1]: v
+                for i, v in obj.items()
+                if is_valid_coord_str(i, dim)
             }
             # nasty hack for handling d_{dim} for backward compatibility.
             if (bad_name := f"d_{dim}") in obj:
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index 2b3f0f0..671e637 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -447,7 +447,9 @@ def _get_compiled_suffix_prefix_regex(
     suffixes = iterate(suffixes)
     pattern = rf".*_({'|'.join(iterate(suffixes))})"
     if prefixes is not None:
-        pattern = rf"({'|'.join(iterate(prefixes))})" + pattern
+        # The prefix must be the whole name; "a" doesn't match "abc_min".
+        prefix = "|".join(re.escape(x) for x in iterate(prefixes))
+        pattern = rf"({prefix})_({'|'.join(iterate(suffixes))})$"
     return re.compile(pattern)
 
 
-- 
2.43.0


From ee06d5d2b2bc669bd003cdeea2f4a519a824756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:01 +0000
Subject: [PATCH 011/109] fix: renaming a non-dimensional coord no longer
 leaves its old summary in attrs

patch.rename_coords(quality="q2") added quality_min, quality_max, ... as extra
attributes which nothing keeps up to date.
---
 dascore/proc/coords.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/coords.py b/dascore/proc/coords.py
index e64748c..8ab40d3 100644
--- a/dascore/proc/coords.py
+++ b/dascore/proc/coords.py
@@ -226,8 +226,8 @@ def rename_coords(self: PatchType, **kwargs) -> PatchType:
     >>> assert 'fragrance' in pa2.dims
     """
     new_coord = self.coords.rename_coord(**kwargs)
-    attrs = self.attrs.rename_dimension(**kwargs)
-    return self.new(coords=new_coord, dims=new_coord.dims, attrs=attrs)
+    # attrs are conformed to the new coords, so no stale summaries remain.
+    return self.new(coords=new_coord)
 
 
 @patch_function()
-- 
2.43.0


From acd5e906c853f311188db861b2c25a5c744b203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:01 +0000
Subject: [PATCH 012/109] fix: fbe and kurtosis dropped all metadata of the
 patch

Both replaced the attributes (tag, station, history, custom fields, ...) instead
of updating the data type and units.
---
 dascore/transform/fbe.py      | 9 +++++----
 dascore/transform/kurtosis.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dascore/transform/fbe.py b/dascore/transform/fbe.py
index 48ffaf9..2c33a3f 100644
--- a/dascore/transform/fbe.py
+++ b/dascore/transform/fbe.py
@@ -86,6 +86,8 @@ def fbe(
     if step is None:
         step = to_float(1 / sample_rate)
 
+    # Keep the metadata of the input; only the data type (and units) change.
+    attrs = patch.attrs.update(coords={}, data_type="frequency_band_energy")
     patch = patch.pass_filter(**kwargs)
 
     fbe = ((patch**2).rolling(**{dim: window, "step": step}).mean() ** 0.5).update(
@@ -93,8 +95,7 @@ def fbe(
     )
 
     if db:
-        fbe = (20 * fbe.log10()).update(
-            attrs={"data_type": "frequency_band_energy", "data_units": "dB"}
-        )
+        fbe = 20 * fbe.log10()
+        attrs = attrs.update(data_units="dB")
 
-    return fbe
+    return fbe.update(attrs=attrs)
diff --git a/dascore/transform/kurtosis.py b/dascore/transform/kurtosis.py
index 8ee822b..94ddabf 100644
--- a/dascore/transform/kurtosis.py
+++ b/dascore/transform/kurtosis.py
@@ -240,5 +240,5 @@ def kurtosis(
     return (
         patch_t.new(data=out)
         .transpose(*orig_dims)
-        .update(attrs={"data_type": "kurtosis", "data_units": ""})
+        .update_attrs(data_type="kurtosis", data_units="")
     )
-- 
2.43.0


From 8b4c0355dafd702686abd0589940f40fa9933f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:01 +0000
Subject: [PATCH 013/109] fix: aligning patches keeps dependent coords with
 their labels

Binary operations on patches whose shared dimension is reordered by the
alignment left coords associated with that dimension in the old order, and
patches with equal coords but a different dimension order could not be
combined at all.
---
 dascore/utils/patch.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index b1abfd7..aa5c52f 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -951,7 +951,7 @@ def align_patch_coords(
         The second patch.
     """
     # Fast path for no alignment needed
-    if patch1.coords == patch2.coords:
+    if patch1.dims == patch2.dims and patch1.coords == patch2.coords:
         return patch1, patch2
     shared_dims = set(patch1.dims) & set(patch2.dims)
     if not shared_dims:
@@ -960,6 +960,23 @@ def align_patch_coords(
             f"patch1: {patch1.dims}, patch2: {patch2.dims}"
         )
         raise PatchCoordinateError(msg)
+
+    def _update_coords(patch, new_coords, indexers):
+        """Update dimensions and reorder the coords which depend on them."""
+        cm = patch.coords
+        # Coords of dimensions which change length are dropped by the update.
+        resized = {x for x, v in new_coords.items() if len(v) != len(cm.coord_map[x])}
+        out = dict(new_coords)
+        for name, coord_dims in cm.dim_map.items():
+            if name in new_coords or resized & set(coord_dims):
+                continue
+            coord = cm.coord_map[name]
+            for axis, dim in enumerate(coord_dims):
+                if dim in new_coords:
+                    coord = coord.index(indexers[dim_dict[dim]], axis=axis)
+            out[name] = (coord_dims, coord)
+        return cm.update(**out)
+
     # First ensure the patches have the same dims
     dims = _merge_tuples(patch1.dims, patch2.dims)
     dim_dict = {x: num for num, x in enumerate(dims)}
@@ -981,8 +998,8 @@ def align_patch_coords(
     if not (new_coords_1 or new_coords_2):
         return patch1, patch2
     # Update coordinate managers and reshape arrays, return new patches.
-    coord1 = patch1.coords.update(**new_coords_1)
-    coord2 = patch2.coords.update(**new_coords_2)
+    coord1 = _update_coords(patch1, new_coords_1, align_1)
+    coord2 = _update_coords(patch2, new_coords_2, align_2)
     array1 = _apply_union_indexers(tuple(align_1), patch1.data)
     array2 = _apply_union_indexers(tuple(align_2), patch2.data)
     out1 = patch1.new(data=array1, coords=coord1)
-- 
2.43.0


From e03e0f514cb184d74cf29600c2247b6fa398b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:01 +0000
Subject: [PATCH 014/109] fix: coords which differ by part of a sample are not
 approximately equal

Labels which are large compared to their spacing (e.g. distances around
100 km) were considered equal although they are shifted, so arithmetic paired
values of different labels.
---
 dascore/core/coords.py | 16 ++++++++++++++--
 dascore/utils/patch.py |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 25acd22..cd59be8 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -445,7 +445,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 )
                 raise CoordError(msg)
 
-        if self == other:
+        if self.approx_equal(other):
             return self, other, slice(None), slice(None)
         if self.ndim != 1:
             msg = "can only align 1D coords."
@@ -968,7 +968,19 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             return self == other
         if any(non_coords):
             return False
-        return all_close(self.values, other.values)
+        values1, values2 = self.values, other.values
+        if not all_close(values1, values2):
+            return False
+        # Values can be relatively close, because they are large or tiny compared
+        # to their spacing, but still differ by a significant part of a sample.
+        is_number = {x.dtype.kind for x in (values1, values2)} <= set("iufm")
+        if is_number and self.ndim == 1 and len(self) > 1:
+            spacing = np.abs(np.diff(np.sort(values1)))
+            spacing = spacing[spacing > spacing.dtype.type(0)]
+            if len(spacing):
+                diff = np.abs(values1 - values2)
+                return not np.any(diff > np.min(spacing) / 100)
+        return True
 
     def change_length(self, length: int) -> Self:
         """
diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index aa5c52f..92fc026 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -987,7 +987,7 @@ def align_patch_coords(
     new_coords_1, new_coords_2 = {}, {}
     for dim in shared_dims:
         coord1, coord2 = patch1.get_coord(dim), patch2.get_coord(dim)
-        if coord1 == coord2:
+        if coord1.approx_equal(coord2):
             continue
         dim_ind = dim_dict[dim]
         # We actually need to do some alignment here.
-- 
2.43.0


From 78720b2ac123f25090ca320d1a345a0a8245cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:29 +0000
Subject: [PATCH 015/109] fix: refuse to align patches whose shared dimension
 is in different units

Arithmetic on a patch with distance in m and one with distance in ft or s paired
the labels by their magnitudes.
---
 dascore/utils/patch.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 92fc026..e7f6645 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -31,6 +31,7 @@ from dascore.exceptions import (
     ParameterError,
     PatchAttributeError,
     PatchCoordinateError,
+    UnitError,
 )
 from dascore.units import get_quantity, is_percent
 from dascore.utils.attrs import combine_patch_attrs
@@ -48,7 +49,7 @@ from dascore.utils.misc import (
     warn_or_raise,
     yield_sub_sequences,
 )
-from dascore.utils.time import to_float
+from dascore.utils.time import dtype_time_like, to_float
 
 attr_type = dict[str, Any] | str | Sequence[str] | None
 
@@ -950,6 +951,17 @@ def align_patch_coords(
     patch2
         The second patch.
     """
+    # The values of coords in different units can't be compared.
+    for dim in set(patch1.dims) & set(patch2.dims):
+        coord1, coord2 = patch1.get_coord(dim), patch2.get_coord(dim)
+        unit1, unit2 = coord1.units, coord2.units
+        is_time = dtype_time_like(coord1.dtype) and dtype_time_like(coord2.dtype)
+        if not is_time and None not in (unit1, unit2) and unit1 != unit2:
+            msg = (
+                f"Cannot align patches whose dimension {dim} has different units: "
+                f"{unit1} and {unit2}. Use convert_units first."
+            )
+            raise UnitError(msg)
     # Fast path for no alignment needed
     if patch1.dims == patch2.dims and patch1.coords == patch2.coords:
         return patch1, patch2
-- 
2.43.0


From da52185661ecc627eae7266d137036534e218e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:57 +0000
Subject: [PATCH 016/109] fix: convert_units of a dimension without values

CoordPartial.convert_units raised a TypeError.
---
 dascore/core/coords.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index cd59be8..139d98e 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1076,7 +1076,10 @@ class CoordPartial(BaseCoord):
     # Other operations that normally modify data do not in this case.
     update_limits = update
     set_units = update
-    convert_units = update
+
+    def convert_units(self, units):
+        """Convert units. There are no values so simply set the units."""
+        return self.set_units(units=units)
 
     def sort(self, reverse=False):
         """Sort dummy array. Does nothing."""
-- 
2.43.0


From 0d6fe6a165bc0e8a7d7f650fa7e70747e0584051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:13 +0000
Subject: [PATCH 017/109] fix: setting the units of a coordinate removed the
 data units

---
 dascore/proc/units.py           | 6 +++++-
 dascore/transform/dispersion.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/units.py b/dascore/proc/units.py
index a254ffa..2f17be0 100644
--- a/dascore/proc/units.py
+++ b/dascore/proc/units.py
@@ -22,7 +22,7 @@ def _update_attrs_coord_units(patch: dc.Patch, data_units, coords):
 
 @patch_function()
 def set_units(
-    patch: PatchType, data_units: str | Quantity | Unit | None = None, **kwargs
+    patch: PatchType, data_units: str | Quantity | Unit | None = ..., **kwargs
 ) -> PatchType:
     """
     Set the units of a patch's data or coordinates.
@@ -33,6 +33,8 @@ def set_units(
         The input patch.
     data_units
         New units for the patch data. Accepts both unit and quantity strings.
+        Use None to remove the units. If not provided, and units for coordinates
+        are, the current data units are kept.
     **kwargs
         Used to specify new units for any of the patch's coordinates.
 
@@ -55,6 +57,8 @@ def set_units(
     >>> # remove data units
     >>> patch_removed_units = patch_with_units.set_units(None)
     """
+    if data_units is ...:
+        data_units = patch.attrs.data_units if kwargs else None
     new_coords = patch.coords.set_units(**kwargs)
     new_attrs = _update_attrs_coord_units(patch, data_units, new_coords)
     return patch.new(attrs=new_attrs, coords=new_coords)
diff --git a/dascore/transform/dispersion.py b/dascore/transform/dispersion.py
index 80e2c15..269601a 100644
--- a/dascore/transform/dispersion.py
+++ b/dascore/transform/dispersion.py
@@ -165,4 +165,4 @@ def dispersion_phase_shift(
     disp_patch = patch.new(
         data=fc / nchan, coords=coords, attrs=attrs, dims=["velocity", "frequency"]
     )
-    return disp_patch.set_units(velocity="m/s", frequency="Hz")
+    return disp_patch.set_units(None, velocity="m/s", frequency="Hz")
-- 
2.43.0


From 5f8380f17897927edafe7757ca4028df0409620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:14 +0000
Subject: [PATCH 018/109] fix: simplify_units of data with offset units
 multiplied by the wrong factor

---
 dascore/proc/units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/units.py b/dascore/proc/units.py
index 2f17be0..0e52623 100644
--- a/dascore/proc/units.py
+++ b/dascore/proc/units.py
@@ -142,7 +142,9 @@ def simplify_units(
     # get data and data units
     attrs = patch.attrs
     d_factor, d_units = get_factor_and_unit(attrs.get("data_units"), simplify=True)
-    data = patch.data * d_factor if d_factor != 1 else patch.data
+    data = patch.data
+    if d_factor != 1:  # offset units (e.g., degC) need more than the factor.
+        data = u_covert_units(data, d_units, attrs.get("data_units"))
     # update coords and coord units in attrs
     coords = patch.coords.simplify_units()
     new_attrs = attrs.update(data_units=d_units, coords=coords.to_summary_dict())
-- 
2.43.0


From de5f6f1dc48616fe253bd0f104aea923473a7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:17 +0000
Subject: [PATCH 019/109] fix: reducing an integer coord with dim_reduce used
 its value as a length

---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 139d98e..dbdb08e 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1029,7 +1029,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             if dtype_time_like(coord_data):
                 result = _reduce_time_like(func, coord_data)
             else:
-                result = func(self.data)
+                # A plain integer would be interpreted as a coord length.
+                result = np.atleast_1d(func(self.data))
             new_coord = self.update(data=result)
         else:
             msg = "dim_reduce must be 'empty', 'squeeze' or valid aggregator."
-- 
2.43.0


From d5b2c3c2ad7592b300ae957388ab142d49ef0e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:17 +0000
Subject: [PATCH 020/109] fix: ufunc reduce over several dimensions raised a
 TypeError

---
 dascore/utils/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dascore/utils/array.py b/dascore/utils/array.py
index c7fd41c..3270a59 100644
--- a/dascore/utils/array.py
+++ b/dascore/utils/array.py
@@ -426,6 +426,8 @@ def apply_array_func(func, *args, **kwargs):
 
     # Convert dim to axis for numpy functions
     converted_kwargs = swap_kwargs_dim_to_axis(first_patch, kwargs)
+    if isinstance(axis := converted_kwargs.get("axis"), list):
+        converted_kwargs["axis"] = tuple(axis)  # numpy requires tuples.
     converted_args = args
 
     _args = tuple(_strip_data_from_patch(a) for a in converted_args)
-- 
2.43.0


From 6c9aaccc496e72519d8b27e4775950ed20c5c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:43 +0000
Subject: [PATCH 021/109] fix: mutes of dims in another order than the patch,
 or reverse sorted

---
 dascore/proc/mute.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dascore/proc/mute.py b/dascore/proc/mute.py
index 6aaf8fa..d9709c1 100644
--- a/dascore/proc/mute.py
+++ b/dascore/proc/mute.py
@@ -248,7 +248,6 @@ class _MuteGeometry2D(_MuteGeometry):
         ifill_index = -1
 
         for ind, (coord, row) in enumerate(zip(coords, value_list, strict=True)):
-            coord = patch.get_coord(patch.dims[ind])
             # We iterate each pair because it might be an implicit value.
             for pair_ind, pair in enumerate(row):
                 is_sized = isinstance(pair, Sized)
@@ -615,6 +614,9 @@ def slope_mute(
     # Here we take the full range as to allow it to be negative if the
     # coord is reversed sorted.
     range_x = dc.to_float(coord_x[-1] - coord_x[0])
+    range_y = dc.to_float(coord_y[-1] - coord_y[0])
+    # Lines need to head into the patch, regardless of the sorting of each coord.
+    sign_x, sign_y = np.sign(range_x), np.sign(range_y)
     # Calculate endpoints for lines defined by each slope
     dim0_vals = [[origin[0], origin[0] + range_x], [origin[0], origin[0] + range_x]]
     dim1_vals = [[origin[1], None], [origin[1], None]]
@@ -622,13 +624,13 @@ def slope_mute(
         # Special case for 0 and inf velocities
         if np.isclose(slope, 0):
             dim0_vals[num][1] = origin[0]
-            dim1_vals[num][1] = origin[1] + 1
+            dim1_vals[num][1] = origin[1] + sign_y
         elif np.isinf(slope):
-            dim0_vals[num][1] = origin[0] + 1
+            dim0_vals[num][1] = origin[0] + sign_x
             dim1_vals[num][1] = origin[1]
         else:
             # Slope is rise over run (e.g., distance/time for velocity)
-            dim1_vals[num][1] = origin[1] + range_x / slope
+            dim1_vals[num][1] = origin[1] + sign_y * abs(range_x) / slope
     mute_kwargs = {
         dims[0]: dim0_vals,
         dims[1]: dim1_vals,
-- 
2.43.0


From ae9623ff6d558b96962a6e1a06ea166adc2feb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:43 +0000
Subject: [PATCH 022/109] fix: updating the values of a coord dropped its units

---
 dascore/core/coords.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index dbdb08e..07e17d4 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -654,7 +654,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if data is None and values is None:
             return self
         data = values if data is None else data
-        units = kwargs.get("units")
+        units = kwargs.get("units", self.units)
         return get_coord(data=data, units=units)
 
     def new(self, **kwargs):
@@ -817,6 +817,9 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         }
         units = update_fields.pop("units", None)
         _ = update_fields.pop("dtype", None)
+        if units is not None and {"data", "values"} & set(update_fields):
+            # The new values are already in the new units.
+            out = out.set_units(units)
         if update_fields:
             out = out.update_limits(**update_fields).update_data(**update_fields)
         if units is not None:
-- 
2.43.0


From 4779656bd27948b5cf6d1751403dc29b38b513e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:43 +0000
Subject: [PATCH 023/109] fix: padding and sample counts of reverse sorted
 coords

---
 dascore/core/coords.py | 3 ++-
 dascore/proc/basic.py  | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 07e17d4..40382ee 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -857,7 +857,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         else:
             compat_val = self._get_compatible_value(value, relative=True)
             duration = compat_val - self.min()
-            ratio = duration / self.step
+            # The count doesn't depend on the direction of the coordinate.
+            ratio = duration / np.abs(self.step)
             if np.issubdtype(self.dtype, np.floating):
                 nearest = np.round(ratio)
                 # Adding a relative float value to coord.min() and subtracting
diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index d41888d..bb629fe 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -626,8 +626,9 @@ def pad(
     def _get_new_coord(coord, pad_tuple, expand_coords):
         """Get the new coordinate along the expanded axis."""
         if expand_coords and coord.evenly_sampled:
-            new_start = coord.min() - pad_tuple[0] * coord.step
-            new_end = coord.max() + (pad_tuple[1] + 1) * coord.step
+            # Use the first/last values since the coord may be reverse sorted.
+            new_start = coord[0] - pad_tuple[0] * coord.step
+            new_end = coord[-1] + (pad_tuple[1] + 1) * coord.step
             assert coord.evenly_sampled, "expand_coords requires evenly sampled."
             new_coord = get_coord(
                 start=new_start, stop=new_end, step=coord.step, units=coord.units
@@ -697,6 +698,8 @@ def roll(patch, samples=False, update_coord=False, **kwargs):
     arr = patch.data
     coord = patch.get_coord(dim)
     value = coord.get_sample_count(input_value, samples=samples)
+    if coord.reverse_sorted and not samples:
+        value = -value
 
     roll_arr = np.roll(arr, value, axis=axis)
 
-- 
2.43.0


From 93f466658d5a64eda41ecdbc8acc6b272b6afe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:21 +0000
Subject: [PATCH 024/109] fix: merging patches replaced coords associated with
 the merge dim by its labels

---
 dascore/utils/coordmanager.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dascore/utils/coordmanager.py b/dascore/utils/coordmanager.py
index 4e6ef04..2ce0f3a 100644
--- a/dascore/utils/coordmanager.py
+++ b/dascore/utils/coordmanager.py
@@ -112,7 +112,7 @@ def merge_coord_managers(
         """Get the merged coordinates."""
         out = {}
         for coord_name in coords_to_merge:
-            merge_coords = [x.coord_map[dim] for x in managers]
+            merge_coords = [x.coord_map[coord_name] for x in managers]
             axis = managers[0].dim_map[coord_name].index(dim)
             if len(units := {x.units for x in merge_coords}) != 1:
                 # TODO: we might try to convert all the units to a common
@@ -122,11 +122,13 @@ def merge_coord_managers(
                     f"share the same units. Units found are: {set(units)}"
                 )
                 raise CoordMergeError(msg)
-            snap_coords = _snap_coords(merge_coords)
-            data = [x.data for x in snap_coords]
-            dims = managers[0].dim_map[dim]
+            if coord_name == dim:  # only the dimension itself can be snapped.
+                merge_coords = _snap_coords(merge_coords)
+            data = [x.data for x in merge_coords]
+            dims = managers[0].dim_map[coord_name]
             new_data = np.concatenate(data, axis=axis)
-            out[coord_name] = (dims, new_data)
+            new_coord = dc.get_coord(data=new_data, units=units.pop())
+            out[coord_name] = (dims, new_coord)
         return out
 
     def _get_new_coords(managers) -> dict[str, tuple[tuple[str, ...], ArrayLike]]:
-- 
2.43.0


From 45584a9daf1c71228777cc70acab46e7a1940dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:21 +0000
Subject: [PATCH 025/109] fix: chunking patches with 2D coords or nulls in
 associated coords

---
 dascore/core/spool.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 406c426..eb3f165 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -108,6 +108,15 @@ def _estimate_merge_samples(df, dim) -> int | None:
     return int(counts.sum())
 
 
+def _narrows_coord(patch, name, limits) -> bool:
+    """Return True if the limits exclude any (non-null) values of the coord."""
+    coord = patch.get_coord(name)
+    start, stop = limits
+    below = not pd.isnull(start) and coord.min() < start
+    above = not pd.isnull(stop) and coord.max() > stop
+    return bool(below or above)
+
+
 class BaseSpool(NamespaceOwner, abc.ABC):
     """Spool Abstract Base Class (ABC) for defining Spool interface."""
 
@@ -562,7 +571,8 @@ class DataFrameSpool(BaseSpool):
             select_kwargs = {
                 i: v
                 for i, v in kwargs.items()
-                if i in patch.dims or i in patch.coords.coord_map
+                if i in patch.dims
+                or (i in patch.coords.coord_map and _narrows_coord(patch, i, v))
             }
         else:
             select_kwargs = self._select_kwargs
-- 
2.43.0


From 43954b5b482e07a8c4ee6855d9ce1b2022ba7b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:21 +0000
Subject: [PATCH 026/109] fix: chunk lost samples of lengths which aren't a
 multiple of the step

---
 dascore/utils/chunk.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 25ad36f..8d8b7e9 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -93,20 +93,33 @@ def get_intervals(
     # See 474.
     _raw_duration = stop - start
     duration = _raw_duration + step if step is not None else _raw_duration
-    if duration < length and not keep_partials:
+    # Floats need some tolerance since they usually can't exactly represent the
+    # values of the coordinate.
+    is_float = isinstance(stop, float | np.floating)
+    tol = abs(step) * 1e-6 if is_float else 0 * step
+    if duration + tol < length and not keep_partials:
         msg = "Cant chunk when data interval is less than chunk size. "
         raise ChunkError(msg)
     # reference with no overlap
     new_step = length - overlap
     reference = np.arange(start, stop + new_step, step=new_step)
     # Since we just add to get stop values we need to remove anything
-    # that is within a sample of stopping value (otherwise that segment
-    # will have no data).
-    reference = reference[(reference + step) <= stop]
+    # that is within a sample of stopping value (these only have a single
+    # sample), unless the segments are not longer than a sample.
+    min_length = step if length > step + tol else 0 * step
+    reference = reference[(reference + min_length) <= stop + tol]
     # we subtract step to avoid overlaps in segments. This can mean segments
     # are ~ one sample shorter than those requested.
     ends = reference + length - step
     starts = reference
+    # If segments don't contain a whole number of samples the last sample
+    # before the start of the next segment should still be included.
+    if step > 0 * step:
+        # Floor divide negatives to get the ceil without losing precision.
+        sample_count = -(-(reference + length - start - tol) // step)
+        on_grid = start + (sample_count - 1) * step
+        ends = np.where(on_grid > ends + tol, on_grid, ends)
+    ends = np.where(np.abs(ends - stop) <= tol, stop, ends)
     # trim end to not surpass stop
     bad_ends = ends > stop
     if bad_ends.any():
-- 
2.43.0


From 48d82824a5e496ca8b61aef9ae7cb5292ce3fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:21 +0000
Subject: [PATCH 027/109] fix: chunking patches contained by, or duplicates of,
 other patches

---
 dascore/utils/chunk.py |  9 ++++++++-
 dascore/utils/pd.py    | 20 ++++++++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 8d8b7e9..e738009 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -403,7 +403,14 @@ class ChunkManager:
             if col in out.columns:
                 continue
             out[col] = sub_source[col].values[source_inds]
-        out = out.sort_index()
+        # Rounding can associate a source with a chunk it has no samples in. These
+        # shouldn't be used, unless they are all there is for the chunk.
+        tol = 0 * _src_step[source_inds]
+        if np.issubdtype(out[min_name].dtype, np.floating):
+            tol = np.abs(_src_step[source_inds]) * 1e-6
+        empty = (out[min_name] - out[max_name]) > tol
+        all_empty = empty.groupby(out["current_index"]).transform("all")
+        out = out[~empty | all_empty].sort_index()
         out["_modified"] = _instructions_modified(out, sub_source)
         return out
 
diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 07238f4..a463892 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -485,16 +485,32 @@ def _remove_overlaps(df, name):
         zeros = np.zeros_like(array, dtype=array.dtype)
         return np.where(~isna, array, zeros)
 
+    def _add_tolerance(array, step):
+        """Account for rounding of floats."""
+        if np.issubdtype(array.dtype, np.floating):
+            return array + np.abs(step) * 1e-6
+        return array
+
     def _get_correct_starts(start, stop, df, step_name):
         step = _get_step_values(df, step_name)
         stop_roll = np.roll(stop, 1)
-        start_lt_stop = start <= stop_roll
+        start_lt_stop = start <= _add_tolerance(stop_roll, step)
         start_lt_stop[0] = False  # remove roll artifact; [0] should be start[0]
-        adjusted = stop_roll + step
+        adjusted = np.minimum(stop_roll + step, stop)
         return np.where(start_lt_stop, adjusted, start)
 
+    def _drop_contained(df, max_name, step_name):
+        """Drop rows which only contain values found in previous rows."""
+        stop = df[max_name].values
+        limit = np.roll(np.maximum.accumulate(stop), 1)
+        contained = stop <= _add_tolerance(limit, _get_step_values(df, step_name))
+        contained[0] = False  # remove roll artifact.
+        new_stop = np.maximum.reduceat(stop, np.flatnonzero(~contained))
+        return df[~contained].assign(**{max_name: new_stop})
+
     min_name, max_name, step_name = f"{name}_min", f"{name}_max", f"{name}_step"
     assert df[min_name].is_monotonic_increasing, "df must be sorted"
+    df = _drop_contained(df, max_name, step_name)
     start = df[min_name].values
     stop = df[max_name].values
     # Add step to stop roll so we don't get 1 sample of overlap
-- 
2.43.0


From c045388b0cc89e477ce750c6a77a697e50a8c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:21 +0000
Subject: [PATCH 028/109] fix: chunk bridged gaps which are covered by patches
 of other groups

---
 dascore/utils/chunk.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index e738009..103904f 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -475,17 +475,25 @@ class ChunkManager:
         Get the group designation for df. This accounts for both time intervals
         being consistent and group columns matching.
         """
-        cont_g = self._get_continuity_group_number(start, stop, step)
+
+        def _get_continuity(tolerance=None):
+            """Get continuity, only considering rows which could be merged."""
+            out = pd.Series(0, index=start.index)
+            for inds in out.groupby([samp_g, col_g]).indices.values():
+                columns = (x.iloc[inds] for x in (start, stop, step))
+                num = self._get_continuity_group_number(*columns, tolerance=tolerance)
+                out.iloc[inds] = num.values
+            return out
+
         samp_g = self._get_sampling_group_num(step)
-        col_g = self._get_col_group(df, cont_g)
+        col_g = self._get_col_group(df, samp_g)
+        cont_g = _get_continuity()
         group = self._get_final_group(samp_g, col_g, cont_g)
 
         # Check for final merges that only occur because of a non-default
         # tolerance. See #662.
         if self._tolerance > _DEFAULT_TOLERANCE:
-            default_cont_g = self._get_continuity_group_number(
-                start, stop, step, tolerance=_DEFAULT_TOLERANCE
-            )
+            default_cont_g = _get_continuity(tolerance=_DEFAULT_TOLERANCE)
             if self._groups_merge_default_groups(group, default_cont_g):
                 msg = (
                     f"There is a gap in the patch along dimension {self._name} "
-- 
2.43.0


From 434a12ce0cd422014c8491eaf9bac18a7af64f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 029/109] fix: slicing or selecting chunked spools repeated the
 samples of shared sources

---
 dascore/core/spool.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index eb3f165..074f238 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -471,7 +471,8 @@ class DataFrameSpool(BaseSpool):
             new_df = self._df.iloc[item]
             inst, source = self._instruction_df, self._source_df
             new_inst = inst[inst["current_index"].isin(new_df.index)]
-            new_source = source.loc[new_inst.index]
+            # several instructions can use the same source.
+            new_source = source.loc[new_inst.index.unique()]
             out = self.new_from_df(
                 df=new_df,
                 instruction_df=new_inst,
@@ -758,7 +759,9 @@ class DataFrameSpool(BaseSpool):
             **kwargs,
         ).loc[lambda x: x["current_index"].isin(filtered_df.index)]
         source = adjust_segments(
-            self._source_df.loc[inst.index], ignore_bad_kwargs=True, **kwargs
+            self._source_df.loc[inst.index.unique()],
+            ignore_bad_kwargs=True,
+            **kwargs,
         )
         out = self.new_from_df(
             filtered_df,
-- 
2.43.0


From 88b386a5ae880eca348af69f05c7af9a480762e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 030/109] fix: too negative indices of derived spools returned
 a patch

---
 dascore/core/spool.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 074f238..2c65529 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -507,9 +507,10 @@ class DataFrameSpool(BaseSpool):
         source = self._source_df
         instruction = self._instruction_df
         # handle negative index.
-        df_ind = df_ind if df_ind >= 0 else len(self._df) + df_ind
+        position = df_ind if df_ind >= 0 else len(self._df) + df_ind
         try:
-            inds = self._df.index[df_ind]
+            # Still negative indices are too low, don't let them wrap around.
+            inds = self._df.index[position if position >= 0 else len(self._df)]
         except IndexError:
             msg = f"index of [{df_ind}] is out of bounds for spool."
             raise IndexError(msg) from None
-- 
2.43.0


From 67a9ac40e8c15bf50679d1ed9d8b6c8b1133961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 031/109] fix: chunk used patches which are not in the spool
 any more

---
 dascore/core/spool.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 2c65529..9e393ad 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -691,6 +691,22 @@ class DataFrameSpool(BaseSpool):
     def _load_patch(self, kwargs) -> dc.Patch:
         """Given a row from the managed dataframe, return a patch."""
 
+    def _get_trimmed_source_df(self):
+        """
+        Get a source df with only the parts of the sources in the current df.
+
+        Indexing and chunking can leave parts of the sources unused.
+        """
+        source, inst = self._source_df, self._instruction_df
+        if source is None or inst is None or source.empty:
+            return source
+        used = inst[inst["current_index"].isin(self._df.index)]
+        out = source.loc[used.index]
+        cols = [x for x in used.columns if x in out.columns or x == "_modified"]
+        out = out.assign(**{x: used[x].values for x in cols})
+        # A single source can be used more than once; rows need their own index.
+        return out if out.index.is_unique else out.reset_index(drop=True)
+
     @compose_docstring(doc=BaseSpool.chunk.__doc__)
     def chunk(
         self,
@@ -702,7 +718,8 @@ class DataFrameSpool(BaseSpool):
         **kwargs,
     ) -> Self:
         """{doc}"""
-        df = self._source_df.drop(columns=list(self._drop_columns), errors="ignore")
+        source = self._get_trimmed_source_df()
+        df = source.drop(columns=list(self._drop_columns), errors="ignore")
         chunker = ChunkManager(
             overlap=overlap,
             keep_partial=keep_partial,
@@ -719,7 +736,7 @@ class DataFrameSpool(BaseSpool):
             instructions = chunker.get_instruction_df(in_df, out_df)
         return self.new_from_df(
             out_df,
-            source_df=self._source_df,
+            source_df=source,
             instruction_df=instructions,
             merge_kwargs={"conflicts": conflict, "snap_coords": snap_coords},
         )
-- 
2.43.0


From 7d9426747c16b062c38c8765223de13c41569ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 032/109] fix: contents of empty spools after select

---
 dascore/core/spool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 9e393ad..bf28de7 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -840,7 +840,10 @@ class DataFrameSpool(BaseSpool):
     @compose_docstring(doc=BaseSpool.get_contents.__doc__)
     def get_contents(self) -> pd.DataFrame:
         """{doc}."""
-        return self._df[filter_df(self._df, **self._select_kwargs)]
+        # Select kwargs don't apply to columns which aren't in an empty df.
+        ignore = self._df.empty
+        keep = filter_df(self._df, ignore_bad_kwargs=ignore, **self._select_kwargs)
+        return self._df[keep]
 
     get_patch_names = get_patch_names
 
-- 
2.43.0


From dd388638fec54fab0513a516f2d3e82c916df051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:08 +0000
Subject: [PATCH 033/109] fix: splitting spools by count gave too few parts, by
 0 never ended

---
 dascore/core/spool.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index bf28de7..e382643 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import abc
+import itertools
 import warnings
 from collections.abc import Callable, Generator, Mapping, Sequence
 from functools import singledispatch
@@ -831,11 +832,21 @@ class DataFrameSpool(BaseSpool):
         if not ((count is not None) ^ (size is not None)):
             msg = "Spool.split requires either spool_count or spool_size."
             raise ParameterError(msg)
-        start = 0
-        step = int(np.ceil(len(self) / count if count else size))
-        while start < len(self):
-            yield self[start : start + step]
-            start += step
+        if (count if size is None else size) <= 0:
+            # Empty spools can be mapped with a calculated size of 0.
+            if not len(self):
+                return
+            msg = "Spool.split requires a positive size or count."
+            raise ParameterError(msg)
+        spool_len = len(self)
+        if size is not None:
+            step = int(np.ceil(size))
+            edges = [*range(0, spool_len, step), spool_len]
+        else:
+            num = min(int(count), spool_len)
+            edges = [i * spool_len // num for i in range(num + 1)] if num else []
+        for start, stop in itertools.pairwise(edges):
+            yield self[start:stop]
 
     @compose_docstring(doc=BaseSpool.get_contents.__doc__)
     def get_contents(self) -> pd.DataFrame:
-- 
2.43.0


From abb7fca922ee5aba105c476b4c176a6f4e8b4b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:08 +0000
Subject: [PATCH 034/109] fix: mapping callables without a name raised

---
 dascore/utils/misc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index 671e637..b2d6f75 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -496,6 +496,11 @@ def cached_method(func):
     return wrapper
 
 
+def _get_func_name(func) -> str:
+    """Get the name of a callable; not all of them (e.g. partials) have one."""
+    return getattr(func, "__name__", type(func).__name__)
+
+
 class _MapFuncWrapper:
     """A class for unwrapping spools to base applies."""
 
@@ -510,7 +515,7 @@ class _MapFuncWrapper:
         # to the first spool. This way only the first spool displays the
         # the progress bar. A huge hack, maybe there is a better way? See #265.
         if not getattr(spool, "_no_progress", False):
-            desc = f"Applying {self._func.__name__} to spool"
+            desc = f"Applying {_get_func_name(self._func)} to spool"
             iterable = track(spool, desc) if self._progress else spool
         return [self._func(x, **self._kwargs) for x in iterable]
 
@@ -533,7 +538,7 @@ def _spool_map(spool, func, size=None, client=None, progress=True, **kwargs):
         Keywords passed to func.
     """
     # no client; simple for loop.
-    desc = f"Applying {func.__name__} to spool"
+    desc = f"Applying {_get_func_name(func)} to spool"
     if client is None:
         iterable = track(spool, desc) if progress else spool
         return [func(patch, **kwargs) for patch in iterable]
-- 
2.43.0


From c8d3cb5af79fb151397037870b967627a77c9392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:47 +0000
Subject: [PATCH 035/109] fix: stack added patches whose dimensions are not
 compatible

---
 dascore/utils/patch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index e7f6645..718d42b 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -1043,7 +1043,6 @@ def check_dims(
         to be equal.
     """
     dims1, dims2 = patch1.dims, patch2.dims
-    dims_ok = True
     if not intersection and patch1.dims == patch2.dims:
         return True
     dset1, dset2 = set(dims1), set(dims2)
@@ -1054,7 +1053,7 @@ def check_dims(
         f" Patch1 dims: {dims1}, Patch2 dims: {dims2}"
     )
     warn_or_raise(msg, exception=IncompatiblePatchError, behavior=check_behavior)
-    return dims_ok
+    return False
 
 
 def check_coords(
-- 
2.43.0


From 4d6e238381464a3270f6465ae1006477055f61f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:47 +0000
Subject: [PATCH 036/109] fix: concatenate dropped, and mixed labels of
 different, dimension units

---
 dascore/utils/patch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 718d42b..a65e9be 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -1350,9 +1350,13 @@ def concatenate_patches(
         if new_dim:
             coords = coords.update(**{dim: (dim, len(patch_list))})
         else:
-            array_list = [x.get_array(dim) for x in patch_list]
-            array = np.concatenate(array_list, axis=0)
-            coords = coords.update(**{dim: array})
+            coord_list = [x.get_coord(dim) for x in patch_list]
+            # The labels must all be in the same units to be joined.
+            units = next((x.units for x in coord_list if x.units is not None), None)
+            if units is not None:
+                coord_list = [x.convert_units(units) for x in coord_list]
+            array = np.concatenate([x.values for x in coord_list], axis=0)
+            coords = coords.update(**{dim: dc.get_coord(data=array, units=units)})
         return coords
 
     dim, val = _get_dim_and_value(kwargs)
-- 
2.43.0


From 19664537adf09fce7933aaa00ad0357703a21c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:28 +0000
Subject: [PATCH 037/109] fix: combine_patch_attrs changed the coords of the
 dicts passed to it

---
 dascore/utils/attrs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dascore/utils/attrs.py b/dascore/utils/attrs.py
index ae83044..46e43b1 100644
--- a/dascore/utils/attrs.py
+++ b/dascore/utils/attrs.py
@@ -117,6 +117,11 @@ def combine_patch_attrs(
             x.model_dump(exclude_defaults=True) if not isinstance(x, dict) else x
             for x in mod_list
         ]
+        # The coord dicts are changed below, the ones passed in shouldn't be.
+        model_dicts = [
+            {**x, "coords": dict(x["coords"])} if "coords" in x else x
+            for x in model_dicts
+        ]
         # drop attributes specified.
         if drop := set(iterate(drop_attrs)):
             model_dicts = [
-- 
2.43.0


From 0ee71b63ca08075be9f7b1d667962a919210de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:08 +0000
Subject: [PATCH 038/109] fix: writing indexed DASDAE files first in a process
 raised AssertionError

---
 dascore/utils/hdf5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 5c6930f..4313d8f 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -21,6 +21,7 @@ import tables
 from h5py import File as H5pyFile
 from packaging.version import parse as get_version
 from pandas.io.common import stringify_path
+from pandas.io.pytables import _tables
 from tables import ClosedNodeError
 from tables import File as PyTablesFile
 
@@ -76,6 +77,8 @@ class _HDF5Store(pd.HDFStore):
         self._complib = complib
         self._fletcher32 = fletcher32
         self._filters = None
+        # Pandas imports pytables lazily, this ensures it has been.
+        _tables()
         if isinstance(path, tables.File):
             self._handle = path
         else:
-- 
2.43.0


From 7843042b1a86c9c47411e714d5bfdba003b180ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:52 +0000
Subject: [PATCH 039/109] fix: units of partial coords could not be set and
 were missing in the attrs

---
 dascore/core/coords.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 40382ee..3673acb 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1080,7 +1080,6 @@ class CoordPartial(BaseCoord):
 
     # Other operations that normally modify data do not in this case.
     update_limits = update
-    set_units = update
 
     def convert_units(self, units):
         """Convert units. There are no values so simply set the units."""
@@ -1158,7 +1157,7 @@ class CoordPartial(BaseCoord):
             max=np.nan,
             step=np.nan,
             dtype=self.dtype,
-            units=None,
+            units=self.units,
         )
 
 
-- 
2.43.0


From 652ab1fab98e76fd7e4f4fa12550a2bab20022ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:52 +0000
Subject: [PATCH 040/109] fix: DASDAE files stored zeros for broadcast data and
 partial coords

---
 dascore/io/dasdae/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 1cde1e1..77670c5 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -32,6 +32,9 @@ def _create_or_get_group(h5, group, name):
 
 def _create_or_squash_array(h5, group, name, data):
     """Create a new array, if it exists delete and re-create."""
+    # Pytables writes zeros for arrays with no strides (i.e., broadcasted ones).
+    if 0 in data.strides:
+        data = data.copy()
     try:
         array = h5.create_array(group, name, data)
     except NodeError:
-- 
2.43.0


From a1880b15a8aebc69a487b6a1ef1e28f8227eabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:52 +0000
Subject: [PATCH 041/109] fix: DASDAE lost the units of coords with underscores
 in their name

---
 dascore/io/dasdae/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 77670c5..9c4a751 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -133,10 +133,11 @@ def _get_coords(patch_group, dims, attrs2):
     for coord in [x for x in patch_group if x.name.startswith("_coord_")]:
         name = coord.name.replace("_coord_", "")
         array = _read_array(coord)
+        summary = attrs2.coords.get(name)
         coord = get_coord(
             data=array,
-            units=getattr(attrs2, f"{name}_units", None),
-            step=getattr(attrs2, f"{name}_step", None),
+            units=getattr(summary, "units", None),
+            step=getattr(summary, "step", None),
         )
         coord_dict[name] = coord
     # associates coordinates with dimensions
-- 
2.43.0


From d5e1ab3f2b76e81d5c4991c97c7bb3a355eaf9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:52 +0000
Subject: [PATCH 042/109] fix: DASDAE patches with equal names overwrote each
 other, indices were incomplete

---
 dascore/io/dasdae/core.py  | 66 +++++++++++++++++++++-----------------
 dascore/io/dasdae/utils.py | 33 +++++++++++++++++++
 2 files changed, 70 insertions(+), 29 deletions(-)

diff --git a/dascore/io/dasdae/core.py b/dascore/io/dasdae/core.py
index 475da97..bc52c0d 100644
--- a/dascore/io/dasdae/core.py
+++ b/dascore/io/dasdae/core.py
@@ -4,8 +4,6 @@ from __future__ import annotations
 
 import contextlib
 
-import pandas as pd
-
 import dascore as dc
 from dascore.constants import SpoolType
 from dascore.io import FiberIO
@@ -17,11 +15,12 @@ from dascore.utils.hdf5 import (
     PyTablesWriter,
 )
 from dascore.utils.misc import unbyte
-from dascore.utils.patch import get_patch_names
+from dascore.utils.pd import _model_list_to_df
 
 from .utils import (
     _get_attrs,
     _get_contents_from_patch_groups,
+    _get_group_name,
     _kwargs_empty,
     _matches_attr_filters,
     _read_patch,
@@ -87,26 +86,32 @@ class DASDAEV1(FiberIO):
             resource.create_group(resource.root, "waveforms")
         waveforms = resource.get_node("/waveforms")
         # write new patches to file
-        patch_names = get_patch_names(patches).values
-        for patch, name in zip(patches, patch_names):
+        new_patches = {}
+        for patch in patches:
+            # Names are from the patch contents, not the file it came from.
+            name = _get_group_name(patch, waveforms, patch.get_patch_name())
+            if name not in waveforms:
+                new_patches[name] = patch.attrs
             _save_patch(patch, waveforms, resource, name)
         indexer = HDFPatchIndexManager(resource)
-        if index or indexer.has_index:
-            df = self._get_patch_summary(patches)
-            indexer.write_update(df)
-
-    def _get_patch_summary(self, patches) -> pd.DataFrame:
-        """Get a patch summary to put into index."""
-        df = (
-            dc.scan_to_df(patches)
-            .assign(
-                path=lambda x: get_patch_names(x),
-                file_format=self.name,
-                file_version=self.version,
-            )
-            .dropna(subset=["time_min", "time_max", "distance_min", "distance_max"])
+        if indexer.has_index:  # patches which aren't new are in the index.
+            self._update_index(indexer, new_patches)
+        elif index:  # The file might already have had patches.
+            contents = {x._v_name: _get_attrs(x) for x in waveforms}
+            self._update_index(indexer, contents)
+
+    def _update_index(self, indexer, contents):
+        """Put the contents, a dict of {group_name: attrs}, into the index."""
+        df = _model_list_to_df(list(contents.values()), exclude=("history",)).assign(
+            path=list(contents), file_format=self.name, file_version=self.version
         )
-        return df
+        # Patches without times can't be indexed.
+        time_columns = ["time_min", "time_max"]
+        df = df.reindex(columns=df.columns.union(time_columns)).dropna(
+            subset=time_columns
+        )
+        if not df.empty:
+            indexer.write_update(df)
 
     def get_format(self, resource: H5Reader, **kwargs) -> tuple[str, str] | bool:
         """Return the format from a dasdae file."""
@@ -148,16 +153,19 @@ class DASDAEV1(FiberIO):
         resource
             A path to the file.
         """
-        indexer = HDFPatchIndexManager(resource.filename)
+        path = resource.filename
+        indexer = HDFPatchIndexManager(path)
         if indexer.has_index:
-            # We need to change the path back to the file rather than internal
-            # HDF5 path so it works with FileSpool and such.
-            records = indexer.get_index().assign(path=str(resource)).to_dict("records")
-            return [dc.PatchAttrs(**x) for x in records]
-        else:
-            file_format = self.name
-            version = resource.root._v_attrs.__DASDAE_version__
-            return _get_contents_from_patch_groups(resource, version, file_format)
+            index = indexer.get_index()
+            # The index can only be used if it has all the patches.
+            if len(index) == len(resource.list_nodes("/waveforms")):
+                # We need to change the path back to the file rather than internal
+                # HDF5 path so it works with FileSpool and such.
+                records = index.assign(path=path).to_dict("records")
+                return [dc.PatchAttrs(**x) for x in records]
+        file_format = self.name
+        version = resource.root._v_attrs.__DASDAE_version__
+        return _get_contents_from_patch_groups(resource, version, file_format)
 
     def index(self, path):
         """Index the dasdae file."""
diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 9c4a751..f63a0c9 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -11,6 +11,7 @@ from dascore.core.attrs import PatchAttrs
 from dascore.core.coordmanager import get_coord_manager
 from dascore.core.coords import get_coord
 from dascore.utils.misc import suppress_warnings
+from dascore.utils.models import sensible_model_equals
 from dascore.utils.pd import filter_df
 from dascore.utils.time import to_int
 
@@ -88,6 +89,38 @@ def _save_coords(patch, patch_group, h5):
         patch_group._v_attrs[save_name] = ",".join(dims)
 
 
+def _is_stored_patch(patch, patch_group):
+    """Return True if the patch group holds a version of patch."""
+
+    def _coord_eq(coord1, coord2):
+        """Return True if the coords are equal, including null values."""
+        eq = np.array_equal(coord1.values, coord2.values, equal_nan=True)
+        return eq and coord1.units == coord2.units
+
+    attrs, dims = _get_attrs(patch_group), _get_dims(patch_group)
+    info1, info2 = (x.model_dump(exclude={"coords"}) for x in (attrs, patch.attrs))
+    if dims != patch.dims or not sensible_model_equals(info1, info2):
+        return False
+    cm1, cm2 = _get_coords(patch_group, dims, attrs), patch.coords
+    if cm1.dim_map != cm2.dim_map:
+        return False
+    return all(_coord_eq(c, cm2.coord_map[n]) for n, c in cm1.coord_map.items())
+
+
+def _get_group_name(patch, wave_group, name):
+    """
+    Get the name of the group in which to save the patch.
+
+    Patch names don't have to be unique (e.g., they only have second
+    precision) but different patches must not overwrite each other.
+    """
+    out, count = name, 0
+    while out in wave_group and not _is_stored_patch(patch, wave_group[out]):
+        count += 1
+        out = f"{name}__{count}"
+    return out
+
+
 def _save_patch(patch, wave_group, h5, name):
     """Save the patch to disk."""
     patch_group = _create_or_get_group(h5, wave_group, name)
-- 
2.43.0


From 02c9da566b027fdcbb561e7d40e6a6cc9d7e74e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:50 +0000
Subject: [PATCH 043/109] fix: TDMS data with several (or only full) chunks
 were read out of order (or not at all)

---
 dascore/io/tdms/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dascore/io/tdms/utils.py b/dascore/io/tdms/utils.py
index 51f39ee..d81f6ca 100644
--- a/dascore/io/tdms/utils.py
+++ b/dascore/io/tdms/utils.py
@@ -265,8 +265,9 @@ def _get_data(tdms_file, lead_in_length=28):
             buffer=dmap,
             offset=rdo,
         )
-        # Rotate the axes to [chunk_size, nblk, nch]
-        raw_data = np.rollaxis(raw_data, 2)
+        # Rotate the axes to [nblk, chunk_size, nch] so time increases along
+        # the first two axes.
+        raw_data = np.swapaxes(raw_data, 1, 2)
         data_node = np.reshape(raw_data, (n_complete_blk * fileinfo["chunk_size"], nch))
         if n_complete_blk != seg_length / fileinfo["chunk_size"]:
             # If the last chunk isn't full there is some data left
@@ -290,7 +291,7 @@ def _get_data(tdms_file, lead_in_length=28):
             # Rotate the axes to [samples, nch]
             raw_last_chunk = np.rollaxis(raw_last_chunk, 1)
             data_node = np.append(data_node, raw_last_chunk, axis=0)
-            return data_node, channel_length
+        return data_node, channel_length
 
     fileinfo, attrs = _get_fileinfo(tdms_file)
 
-- 
2.43.0


From 42b901aae92f0dead5db71b9ad34b9bb2a4d89a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:50 +0000
Subject: [PATCH 044/109] fix: sentek files which start in the first ten
 seconds of a minute could not be read

---
 dascore/io/sentek/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/io/sentek/utils.py b/dascore/io/sentek/utils.py
index a112014..9886ed1 100644
--- a/dascore/io/sentek/utils.py
+++ b/dascore/io/sentek/utils.py
@@ -49,7 +49,7 @@ def _get_time_from_file_name(name) -> np.datetime64:
     hour = time_str[8:10]
     minute = time_str[10:12]
     second = float(time_str[12:]) / 1_000
-    iso = f"{year}-{month}-{day}T{hour}:{minute}:{second:02f}"
+    iso = f"{year}-{month}-{day}T{hour}:{minute}:{second:09.6f}"
     return np.datetime64(iso)
 
 
-- 
2.43.0


From 89cfab6bab38cb54b59dbcad5d79a537f454227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 045/109] fix: partial time reads of febus A1 files had their
 times shifted by one sample

---
 dascore/io/febus/a1utils.py | 51 +++++++++----------------------------
 1 file changed, 12 insertions(+), 39 deletions(-)

diff --git a/dascore/io/febus/a1utils.py b/dascore/io/febus/a1utils.py
index 5788db0..bf909fd 100644
--- a/dascore/io/febus/a1utils.py
+++ b/dascore/io/febus/a1utils.py
@@ -305,61 +305,34 @@ def _get_data_new_cm(cm, febus, distance=None, time=None):
     but we want a 2d output.
     """
 
-    def _get_start_end_time_array(time_coord, total_time_rows, data_shape, time):
-        """Get a 2d array where columns are start/end times for each block."""
-        block_count = data_shape[0]
-        block_duration = total_time_rows * time_coord.step
-        start = (
-            np.arange(block_count) * block_duration + time_coord.step
-        ) + time_coord.min()
-        end = start + block_duration
-        return np.stack([start, end], axis=-1)
-
-    def _get_time_filtered_data(data, t_start_end, time, total_slice, time_coord):
+    def _get_time_filtered_data(data, rows, time, total_slice, time_coord):
         """Get new data array filtered from time query."""
-        assert len(time) == 2
-        t1, t2 = time
-        # block for which all data are needed.
-        in_time = np.ones(len(t_start_end), dtype=bool)
-        if t1 is not None and t1 is not ...:
-            in_time = np.logical_and(in_time, ~(t_start_end[:, 1] < t1))
-        if t2 is not None and t2 is not ...:
-            in_time = np.logical_and(in_time, ~(t_start_end[:, 0] > t2))
-        times = t_start_end[in_time]
-        # get start/stop indexes for complete blocks
-        start = np.argmax(in_time)
-        stop = np.argmax(np.cumsum(in_time)) + (1 if len(times) else 0)
+        new_coord, indexer = time_coord.select(time)
+        inds = np.arange(len(time_coord))[indexer]
+        # Only the blocks which have some of the requested rows are needed.
+        start = inds[0] // rows if len(inds) else 0
+        stop = inds[-1] // rows + 1 if len(inds) else 0
         total_slice[0] = slice(start, stop)
         # load data from disk.
-        data_2d = data[tuple(total_slice)].reshape(-1, data.shape[-1])
+        data_3d = data[tuple(total_slice)]
+        data_2d = data_3d.reshape(-1, data_3d.shape[-1]) if data_3d.size else data_3d
         # Bail out early, no size on array.
         if not data_2d.size:
-            return data_2d, time_coord.empty()
-        # Next, get mew time coord and slice.
-        tmin = times[:, 0].min()
-        tmax = times[:, 1].max()
-        new_coord, time_slice = (
-            get_coord(min=tmin, max=tmax, step=time_coord.step)
-            .change_length(len(data_2d))
-            .select((t1, t2))
-        )
-        return data_2d[time_slice], new_coord
+            shape = (len(new_coord), data_3d.shape[-1])
+            return np.empty(shape, dtype=data.dtype), new_coord
+        return data_2d[inds - start * rows], new_coord
 
     time_info = _get_zone_time(febus)
     dist_coord, time_coord = cm.coord_map["distance"], cm.coord_map["time"]
     data = febus.zone[febus.data_name]
-    data_shape = data.shape
     data_slice = slice(time_info.idx_start, time_info.idx_stop + 1)
     total_slice = list(broadcast_for_index(3, 1, data_slice))
     total_time_rows = time_info.idx_stop - time_info.idx_start + 1
     if distance:
         dist_coord, total_slice[2] = dist_coord.select(distance)
     if time:  # need to sub-select blocks to get data we are after.
-        t_start_end = _get_start_end_time_array(
-            time_coord, total_time_rows, data_shape, time
-        )
         data, time_coord = _get_time_filtered_data(
-            data, t_start_end, time, total_slice, time_coord
+            data, total_time_rows, time, total_slice, time_coord
         )
     else:  # no need to mess with blocks, all time is selected
         data_3d = data[tuple(total_slice)]
-- 
2.43.0


From 16e2aadcb9ce2cd6a971d20f149973579a6383f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 046/109] fix: reading a channel range with no channels from a
 segy file raised

---
 dascore/io/segy/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dascore/io/segy/utils.py b/dascore/io/segy/utils.py
index 8306694..fcb278a 100644
--- a/dascore/io/segy/utils.py
+++ b/dascore/io/segy/utils.py
@@ -95,6 +95,8 @@ def _get_filtered_data_and_coords(segy_fi, coords, time=None, channel=None):
 
     # filter channels
     data_list = [traces[x][time_slice] for x in traces_inds_to_read]
+    if not data_list:  # all channels are out of the requested range.
+        return np.empty(coords.shape), coords
     return np.stack(data_list, axis=-1), coords
 
 
-- 
2.43.0


From acb934cef8ee983b9e22012bb9ee935e9bbe57d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:44 +0000
Subject: [PATCH 047/109] fix: selecting from a spool with limits the contents'
 dtype can't hold raised

---
 dascore/utils/pd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index a463892..1c55b36 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -314,8 +314,13 @@ def adjust_segments(df, ignore_bad_kwargs=False, **kwargs):
         max_val = val_max if val_max is not None else stop.max()
         too_small = start < min_val
         too_large = stop > max_val
-        out.loc[too_large, too_large.name] = max_val
-        out.loc[too_small, too_small.name] = min_val
+        # Where (rather than setting) allows limits the column's dtype can't hold.
+        out = out.assign(
+            **{
+                start.name: start.where(~too_small, min_val),
+                stop.name: stop.where(~too_large, max_val),
+            }
+        )
         not_modified &= ~(too_small.values | too_large.values)
     return out.assign(_modified=~not_modified)
 
-- 
2.43.0


From d4cf24fc5722342723995726edcfc026c8aa4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:44 +0000
Subject: [PATCH 048/109] fix: selecting a range from an empty coordinate
 raised, and emptying dropped units

---
 dascore/core/coords.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 3673acb..cd64abc 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -766,7 +766,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             for ind in iterate(axes):
                 new_shape[ind] = 0
         data = np.empty(tuple(new_shape), dtype=self.dtype)
-        return get_coord(data=data)
+        return get_coord(data=data, units=self.units)
 
     def index(self, indexer, axis: int | None = None) -> Self:
         """
@@ -1116,6 +1116,9 @@ class CoordPartial(BaseCoord):
 
         For partial, samples==True or raise.
         """
+        # An empty coord has nothing to select.
+        if self.shape == (0,) and not is_array(args):
+            return self, slice(None)
         # Need to ensure relative is used OR the select has no effect.
         try:
             self._check_order_and_select(relative, samples)
-- 
2.43.0


From 974813d7433c7babfdc1df83f9b792585d040c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:13 +0000
Subject: [PATCH 049/109] fix: spools passed ranges as lists, which some
 formats take as labels to select

---
 dascore/utils/pd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 1c55b36..7833711 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -389,8 +389,9 @@ def _convert_min_max_in_kwargs(kwargs, df):
             val = out.pop(key)
             if key in datetime_cols:
                 val = to_datetime64(val)
-            minmax[key.replace(suffix, "")][ind] = val
-    out.update(minmax)
+            minmax[key.removesuffix(suffix)][ind] = val
+    # These need to be tuples, others might be treated as values to select.
+    out.update({i: tuple(v) for i, v in minmax.items()})
     return out
 
 
-- 
2.43.0


From aece41181d4a26924c7062e918a0451805865222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:30 +0000
Subject: [PATCH 050/109] fix: selections on coords missing from the contents
 were ignored with other selections

---
 dascore/core/spool.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index e382643..c4460d5 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -577,6 +577,13 @@ class DataFrameSpool(BaseSpool):
                 if i in patch.dims
                 or (i in patch.coords.coord_map and _narrows_coord(patch, i, v))
             }
+            # Also apply the selections on coords which aren't in the contents.
+            coord_map = patch.coords.coord_map
+            select_kwargs = {
+                i: v
+                for i, v in self._select_kwargs.items()
+                if i in coord_map and i not in kwargs
+            } | select_kwargs
         else:
             select_kwargs = self._select_kwargs
         if select_kwargs:
-- 
2.43.0


From 8754c093afed8a8c0dec93232fecbccef57abfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 051/109] fix: files with several patches in the same range
 gave the first one for each

---
 dascore/clients/dirspool.py  | 12 +++++--
 dascore/clients/filespool.py |  8 ++---
 dascore/core/spool.py        | 61 ++++++++++++++++++++++++++++++++++++
 3 files changed, 74 insertions(+), 7 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index a4ba73e..b1bf226 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -15,7 +15,12 @@ from typing_extensions import Self
 
 import dascore as dc
 from dascore.constants import PROGRESS_LEVELS
-from dascore.core.spool import BaseSpool, DataFrameSpool, MemorySpool
+from dascore.core.spool import (
+    BaseSpool,
+    DataFrameSpool,
+    MemorySpool,
+    _get_described_patch,
+)
 from dascore.exceptions import MissingPatchError
 from dascore.io.indexer import AbstractIndexer, DirectoryIndexer
 from dascore.utils.docs import compose_docstring
@@ -130,14 +135,15 @@ class DirectorySpool(DataFrameSpool):
         patches = self._read_patches(final_kwargs)
         if patches is None:  # fast path doesn't apply, use generic read.
             patches = list(dc.read(**final_kwargs))
-        if not patches:
+        patch = _get_described_patch(patches, final_kwargs, dc.read)
+        if patch is None:
             # Iteration skips these with a warning, see #583.
             msg = (
                 f"No patch in {final_kwargs.get('path')} matches the "
                 f"requested range; it may have been trimmed to nothing."
             )
             raise MissingPatchError(msg)
-        return patches[0]
+        return patch
 
     def _read_patches(self, kwargs) -> list[dc.Patch] | None:
         """
diff --git a/dascore/clients/filespool.py b/dascore/clients/filespool.py
index 3cc4d38..de5a868 100644
--- a/dascore/clients/filespool.py
+++ b/dascore/clients/filespool.py
@@ -10,7 +10,7 @@ from typing_extensions import Self
 
 import dascore as dc
 from dascore.constants import PROGRESS_LEVELS, SpoolType
-from dascore.core.spool import BaseSpool, DataFrameSpool
+from dascore.core.spool import BaseSpool, DataFrameSpool, _get_described_patch
 from dascore.exceptions import MissingPatchError
 from dascore.io.core import FiberIO
 from dascore.utils.docs import compose_docstring
@@ -66,15 +66,15 @@ class FileSpool(DataFrameSpool):
 
     def _load_patch(self, kwargs) -> Self:
         """Given a row from the managed dataframe, return a patch."""
-        patches = list(dc.read(**kwargs))
-        if not patches:
+        patch = _get_described_patch(dc.read(**kwargs), kwargs, dc.read)
+        if patch is None:
             # Iteration skips these with a warning, see #583.
             msg = (
                 f"No patch in {self._path} matches the requested range; "
                 f"it may have been trimmed to nothing."
             )
             raise MissingPatchError(msg)
-        return patches[0]
+        return patch
 
     @compose_docstring(doc=BaseSpool.update.__doc__)
     def update(self: SpoolType, progress: PROGRESS_LEVELS = "standard") -> Self:
diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index c4460d5..352112a 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -109,6 +109,67 @@ def _estimate_merge_samples(df, dim) -> int | None:
     return int(counts.sum())
 
 
+def _get_described_patch(patches, contents, reader) -> dc.Patch | None:
+    """
+    Get the patch which best matches a row of a file's contents.
+
+    Files can contain several patches in the same range (e.g. other frequency
+    bands or zones), so reading the range isn't enough to find the right one.
+
+    Parameters
+    ----------
+    patches
+        The patches read from the file, using the range of the contents.
+    contents
+        A dict with the row of contents.
+    reader
+        A callable to read the file, e.g. `dascore.read`.
+    """
+
+    def _is_null(value):
+        """Return True for empty values; these can have several types."""
+        return np.ndim(value) == 0 and (pd.isnull(value) or value == "")
+
+    def _differs(value1, value2):
+        """Return True if both values are known and not the same."""
+        if is_array(value1) or is_array(value2):
+            return not np.array_equal(value1, value2)
+        return not (_is_null(value1) or _is_null(value2)) and value1 != value2
+
+    def _count_differences(patch):
+        """Count differences between the contents and the patch."""
+        info = patch.attrs.flat_dump(dim_tuple=True, exclude={"history"})
+        info["dims"] = ",".join(patch.dims)
+        ranges, names = set(patch.dims), set(info) & set(contents) - {"path"}
+        skip = {"file_format", "file_version", *(x for x in names if "_dtype" in x)}
+        # Ranges only matter if nothing else can tell the patches apart.
+        groups = (names - ranges - skip, names & ranges)
+        return [sum(_differs(contents[x], info[x]) for x in y) for y in groups]
+
+    def _overlaps(patch):
+        """Return True if the patch has some of the content's range."""
+        for name in set(patch.dims) & set(contents):
+            coord = patch.get_coord(name)
+            start, stop = coord.get_slice_tuple(contents[name])
+            if not _is_null(start) and start > coord.max():
+                return False
+            if not _is_null(stop) and stop < coord.min():
+                return False
+        return True
+
+    best = min(patches, key=_count_differences, default=None)
+    # The range might not have any samples of the right patch, but some of
+    # others. Only the whole file can tell.
+    if contents.get("_modified") and best is not None and _count_differences(best)[0]:
+        keys = {"path", "file_format", "file_version"} & set(contents)
+        patches = [x for x in reader(**{k: contents[k] for k in keys}) if _overlaps(x)]
+        best = min(patches, key=_count_differences, default=None)
+        if best is not None:
+            best = best.select(**{x: contents[x] for x in best.dims if x in contents})
+            best = best if best.data.size else None
+    return best
+
+
 def _narrows_coord(patch, name, limits) -> bool:
     """Return True if the limits exclude any (non-null) values of the coord."""
     coord = patch.get_coord(name)
-- 
2.43.0


From f806a425d0b028bd94a5a7777258280d0d00fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 052/109] fix: reading ranges from pickle files returned
 everything

---
 dascore/io/pickle/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dascore/io/pickle/core.py b/dascore/io/pickle/core.py
index 80f62b5..4a126df 100644
--- a/dascore/io/pickle/core.py
+++ b/dascore/io/pickle/core.py
@@ -49,8 +49,16 @@ class PickleIO(FiberIO):
 
     def read(self, resource: BinaryReader, **kwargs):
         """Read a Patch/Spool from disk."""
-        out = pickle.load(resource)
-        return dascore.spool(out)
+        spool = dascore.spool(pickle.load(resource))
+        # Kwargs can have things other than ranges of dimensions.
+        ranges = {i: v for i, v in kwargs.items() if isinstance(v, tuple)}
+        if not ranges:
+            return spool
+        patches = []
+        for patch in spool:
+            select = {i: v for i, v in ranges.items() if i in patch.dims}
+            patches.append(patch.select(**select))
+        return dascore.spool([x for x in patches if x.data.size])
 
     def write(self, patch, resource: BinaryWriter, **kwargs):
         """Write a Patch/Spool to disk."""
-- 
2.43.0


From cd198cf13da1f3aa53163f5538dae349d7c7ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 053/109] fix: reading ranges from febus G1 csv files returned
 everything

---
 dascore/io/febus/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dascore/io/febus/core.py b/dascore/io/febus/core.py
index 9e4c7c2..c541d18 100644
--- a/dascore/io/febus/core.py
+++ b/dascore/io/febus/core.py
@@ -171,10 +171,17 @@ class FebusG1CSV1(FiberIO):
         attrs = FebusBOTDRStrainAttrs(coords=coords, **attrs_no_private)
         return [attrs]
 
-    def read(self, resource: TextReader, **kwargs) -> dc.BaseSpool:
+    def read(
+        self,
+        resource: TextReader,
+        time: _time_select_type | None = None,
+        distance: _float_select_type | None = None,
+        **kwargs,
+    ) -> dc.BaseSpool:
         """Read a G1 file, return a Patch object."""
         pa = _get_g1_patch(resource, attr_cls=FebusBOTDRStrainAttrs)
-        return dc.spool([pa])
+        pa = pa.select(time=time, distance=distance)
+        return dc.spool([pa] if pa.data.size else [])
 
 
 class FebusMTXH5V1(FiberIO):
-- 
2.43.0


From 558ab3600b794e1b032c3eb469dd6cec26bc2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:14 +0000
Subject: [PATCH 054/109] fix: labels of nearly even coordinates could drift
 many samples from the given ones

---
 dascore/core/coords.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index cd64abc..da0f61b 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1785,6 +1785,29 @@ def get_coord(
             data = values
         return data
 
+    def _get_even_step(data, diffs):
+        """Get a step for nearly evenly sampled data, or None if there isn't one."""
+
+        def _get_max_error(step):
+            """Get the largest difference (in steps) from data using the step."""
+            error = (np.arange(len(data)) * step) - (data - data[0])
+            return np.max(np.abs(error / step))
+
+        # this is a poor man's median that preserves dtype
+        step = np.sort(diffs)[len(diffs) // 2]
+        error, allowed = _get_max_error(step), 0.1
+        # Small differences from the median can add up, then the mean fits better.
+        if error > 1e-6:
+            span = (data[-1] - data[0]).astype(np.float64)
+            exact = span / (len(data) - 1)
+            mean = np.rint(exact) if diffs.dtype.kind in "ium" else exact
+            # Some error can't be avoided if the step has to be an integer.
+            allowed += abs((mean - exact) * len(data) / exact)
+            mean = np.asarray(mean).astype(diffs.dtype)[()]
+            mean_error = _get_max_error(mean)
+            step, error = (mean, mean_error) if mean_error < error else (step, error)
+        return step if error < allowed else None
+
     def _maybe_get_start_stop_step(data):
         """Get start, stop, step, is_monotonic."""
         data = np.asarray(data)
@@ -1800,11 +1823,10 @@ def get_coord(
             unique_diff = np.unique(diffs)
             if len(unique_diff) == 1 or all_diffs_close_enough(unique_diff):
                 _min = data[0]
-                # this is a poor man's median that preserves dtype
-                sorted_diffs = np.sort(diffs)
-                _step = sorted_diffs[len(sorted_diffs) // 2]
-                _max = _get_new_max(data, _min, _step)
-                return _min, _max + _step, _step, is_monotonic
+                _step = _get_even_step(data, diffs)
+                if _step is not None:
+                    _max = _get_new_max(data, _min, _step)
+                    return _min, _max + _step, _step, is_monotonic
         return None, None, None, is_monotonic
 
     data = _get_array(data, values)
-- 
2.43.0


From 24f4396df3dec0282689869f27885266b17242a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:12 +0000
Subject: [PATCH 055/109] fix: scanning GDR files ignored the order of
 dimensions

---
 dascore/io/gdr/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/io/gdr/core.py b/dascore/io/gdr/core.py
index 7bf5957..96c54d2 100644
--- a/dascore/io/gdr/core.py
+++ b/dascore/io/gdr/core.py
@@ -66,7 +66,8 @@ class GDR_V1(FiberIO):  # noqa
         """Get the attributes of a resource belong to this type."""
         attrs, cm, data = _get_attrs_coords_and_data(resource, snap)
         attrs["coords"] = cm.to_summary_dict()
+        attrs["dims"] = cm.dims
         attrs["path"] = resource.filename
         attrs["file_format"] = self.name
         attrs["file_version"] = self.version
-        return [dc.PatchAttrs(**attrs)]
+        return [GDRPatchAttrs(**attrs)]
-- 
2.43.0


From bf39380d374097632fd99fd18f66a84663d3d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:12 +0000
Subject: [PATCH 056/109] fix: scanning DASDAE files reported storage details
 as attributes

---
 dascore/io/dasdae/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index f63a0c9..e6e6ae0 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -266,6 +266,8 @@ def _get_patch_content_from_group(group):
     attrs = group._v_attrs
     out = {}
     for key in attrs._f_list():
+        if key.startswith("_cdims_"):  # These only describe how coords are stored.
+            continue
         value = getattr(attrs, key)
         new_key = key.replace("_attrs_", "")
         # need to unpack 0 dim arrays.
-- 
2.43.0


From 443878b0ac45ae5297a2bae6776d5932cca01110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:48 +0000
Subject: [PATCH 057/109] fix: time queries of the index could match the wrong
 rows

---
 dascore/utils/hdf5.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 4313d8f..9c24cfc 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -142,12 +142,7 @@ def _get_kernel_query(starttime: int, endtime: int, buffer: int):
     """
     t1 = starttime - buffer
     t2 = endtime + buffer
-    con = (
-        f"(time_min>{t1:d} & time_min<{t2:d}) | "
-        f"((time_max>{t1:d} & time_max<{t2:d}) | "
-        f"(time_min<{t1:d} & time_max>{t2:d}))"
-    )
-    return con
+    return f"time_min<{t2:d} & time_max>{t1:d}"
 
 
 class HDFPatchIndexManager:
-- 
2.43.0


From cd128c2a89486a1ba3c6ecf51e0a3bfda1e860dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:48 +0000
Subject: [PATCH 058/109] fix: files which changed after they were indexed were
 indexed again with the old contents

---
 dascore/utils/hdf5.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 9c24cfc..ea07f7f 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -292,6 +292,14 @@ class HDFPatchIndexManager:
             try:
                 nrows = store.get_storer(self._index_node).nrows
             except (AttributeError, KeyError):
+                nrows = 0
+            if nrows and (old := self._get_kept_rows(store, df)) is not None:
+                # Until this finishes everything would need to be indexed again.
+                with suppress(KeyError):
+                    store.remove(self._time_node)
+                store.remove(self._index_node)
+                df, nrows = pd.concat([old, df], ignore_index=True), 0
+            if not nrows:
                 store.append(
                     self._index_node,
                     df,
@@ -303,6 +311,16 @@ class HDFPatchIndexManager:
                 store.append(self._index_node, df, append=True, **self.hdf_kwargs)
             self._update_metadata(store, update_time)
 
+    def _get_kept_rows(self, store, df):
+        """
+        Get the rows to keep from the index if df can't simply be appended.
+
+        This is the case if df has new contents of files already in the index.
+        """
+        old = store.select(self._index_node)
+        stale = old["path"].isin(df["path"])
+        return old[~stale] if stale.any() else None
+
     def _update_metadata(self, store, update_time):
         # update timestamp
         update_time = time.time() if update_time is None else update_time
-- 
2.43.0


From 2077d884cf0f9bd49d7fb93b9500b6fb9338590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:48 +0000
Subject: [PATCH 059/109] fix: strings longer than those already indexed could
 not be added to the index

---
 dascore/utils/hdf5.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index ea07f7f..52a7b4c 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -315,11 +315,17 @@ class HDFPatchIndexManager:
         """
         Get the rows to keep from the index if df can't simply be appended.
 
-        This is the case if df has new contents of files already in the index.
+        This is the case if df has new contents of files already in the index
+        or strings too long for the table's columns.
         """
         old = store.select(self._index_node)
         stale = old["path"].isin(df["path"])
-        return old[~stale] if stale.any() else None
+        too_long = any(
+            df[name].str.encode("utf-8").str.len().max() > col.itemsize
+            for name, col in store.get_storer(self._index_node).table.coldtypes.items()
+            if name in df.columns and col.kind == "S"
+        )
+        return old[~stale] if (stale.any() or too_long) else None
 
     def _update_metadata(self, store, update_time):
         # update timestamp
-- 
2.43.0


From f12366346eac6f073fc58a6fe0991ebab23c289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:48 +0000
Subject: [PATCH 060/109] fix: the index dropped parts of paths which repeat
 the path of the directory

---
 dascore/utils/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 7833711..ba29ddb 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -34,7 +34,7 @@ def _remove_base_path(series: pd.Series, base="") -> pd.Series:
     assert not series.empty, "Series must be non-empty"
     unix_paths = series.str.replace(os.sep, "/")
     unix_base_path = (str(base) + "/").replace(os.sep, "/")
-    out = unix_paths.str.replace(unix_base_path, "", regex=False)
+    out = unix_paths.str.removeprefix(unix_base_path)
     return out
 
 
-- 
2.43.0


From 4fab3b8ec5189e0c4ce313cfc943941a071ae84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:48 +0000
Subject: [PATCH 061/109] fix: files of formats without a version could not be
 loaded from directories

---
 dascore/clients/dirspool.py | 2 +-
 dascore/io/core.py          | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index b1bf226..131a3dd 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -123,7 +123,7 @@ class DirectorySpool(DataFrameSpool):
 
         This is significantly faster than iterating rows.
         """
-        df = df.copy(deep=False).replace("", None)
+        df = df.astype(object).replace("", None)
         # note: need to add extra / here since we no longer store it in db.
         df["path"] = (str(self.spool_path) + "/") + df["path"]
         return super()._df_to_dict_list(df)
diff --git a/dascore/io/core.py b/dascore/io/core.py
index c80b96d..39688c8 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -510,6 +510,7 @@ class FiberIO:
         for pa in spool:
             new = pa.attrs.update(
                 file_format=self.name,
+                file_version=self.version,
                 path=str(resource),
             )
             out.append(new)
-- 
2.43.0


From 84dc858bda0f41c0ad5799afec8e424de7e7cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:48 +0000
Subject: [PATCH 062/109] fix: directories with only patches without times
 raised, others ignored such patches

---
 dascore/io/indexer.py | 21 +++++++++------------
 dascore/utils/hdf5.py | 24 +++++++++++-------------
 2 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index c4157dc..876e31b 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -179,7 +179,9 @@ class DirectoryIndexer(AbstractIndexer):
         # empty df.
         if not self.index_path.exists():
             return pd.DataFrame(columns=self._index_table.index_columns)
-        time_min, time_max = get_max_min_times(kwargs.pop("time", None))
+        limits = kwargs.pop("time", None)
+        has_limits = limits is not None and not all(pd.isnull(x) for x in limits)
+        time_min, time_max = get_max_min_times(limits)
         hdf5_kwargs, kwargs = self._separate_hdf5_kwargs(kwargs)
         buffer = to_timedelta64(buffer)
         # find out if the query falls within one cached times
@@ -189,8 +191,8 @@ class DirectoryIndexer(AbstractIndexer):
         cached_index = self.cache[con1 & con2 & con3]
         if not len(cached_index):  # query is not cached get it from hdf5 file
             index = self._index_table.get_index(
-                time_min=time_min,
-                time_max=time_max,
+                time_min=time_min if has_limits else None,
+                time_max=time_max if has_limits else None,
                 **hdf5_kwargs,
             )
             self._set_cache(index, time_min, time_max, hdf5_kwargs)
@@ -200,15 +202,10 @@ class DirectoryIndexer(AbstractIndexer):
         con1 = index["time_min"] >= (time_max + buffer)
         con2 = index["time_max"] <= (time_min - buffer)
         pre_filter_df = index[~(con1 | con2)]
-        out = pre_filter_df[
-            filter_df(
-                pre_filter_df,
-                time=(time_min, time_max),
-                ignore_bad_kwargs=True,
-                **kwargs,
-            )
-        ]
-        return out
+        # Patches without times are only excluded if there are time limits.
+        if has_limits:
+            kwargs["time"] = (time_min, time_max)
+        return pre_filter_df[filter_df(pre_filter_df, ignore_bad_kwargs=True, **kwargs)]
 
     def __str__(self):
         """Rep. indexer as a string."""
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 52a7b4c..e6cc23a 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -220,15 +220,11 @@ class HDFPatchIndexManager:
         """Encode the table for writing to hdf5."""
         # apply column encoders, make paths relative to reference path
         # and drop any non-index columns.
-        cols = set(df.columns)
+        df = df.pipe(fill_defaults_from_pydantic, self._base_model)
         for col, func in self._column_encoders.items():
-            if col not in cols:
-                continue
             df[col] = func(df[col])
-        out = (
-            df.pipe(fill_defaults_from_pydantic, self._base_model)
-            .loc[:, list(self.index_columns)]
-            .assign(path=lambda x: _remove_base_path(x["path"], path))
+        out = df.loc[:, list(self.index_columns)].assign(
+            path=lambda x: _remove_base_path(x["path"], path)
         )
         # there shouldn't be any null values in index now
         assert not out.isnull().any().any(), "null values found in index"
@@ -269,12 +265,14 @@ class HDFPatchIndexManager:
             else:
                 return df
 
-        time_min, time_max = get_max_min_times((time_min, time_max))
-        where = _get_kernel_query(
-            time_min.view(np.int64),
-            time_max.view(np.int64),
-            self.buffer.view(np.int64),
-        )
+        where = None  # Entries without times are only excluded by time limits.
+        if not (pd.isnull(time_min) and pd.isnull(time_max)):
+            time_min, time_max = get_max_min_times((time_min, time_max))
+            where = _get_kernel_query(
+                time_min.view(np.int64),
+                time_max.view(np.int64),
+                self.buffer.view(np.int64),
+            )
         df = _get_index(where, **kwargs)
         return self.decode_table(df)
 
-- 
2.43.0


From 1a96e80a6217e557b34f6dbf76a20bb8922fdfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:48 +0000
Subject: [PATCH 063/109] fix: files could be missed after another spool
 updated the index or single files were indexed

---
 dascore/io/indexer.py | 8 +++++---
 dascore/utils/hdf5.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 876e31b..89c1bd8 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -187,7 +187,7 @@ class DirectoryIndexer(AbstractIndexer):
         # find out if the query falls within one cached times
         con1 = self.cache.t1 <= time_min
         con2 = self.cache.t2 >= time_max
-        con3 = self.cache.kwargs == self._kwargs_to_str(kwargs)
+        con3 = self.cache.kwargs == self._kwargs_to_str(hdf5_kwargs)
         cached_index = self.cache[con1 & con2 & con3]
         if not len(cached_index):  # query is not cached get it from hdf5 file
             index = self._index_table.get_index(
@@ -321,6 +321,8 @@ class DirectoryIndexer(AbstractIndexer):
         self._enforce_min_version()  # delete index if schema has changed
         update_time = time.time()
         timestamp = self._get_mtime(only_new=True)
+        if paths is not None:  # Other files haven't been looked at.
+            update_time = self._index_table.last_updated_timestamp or 0
         paths = self._get_paths(paths)
         df = dc.scan_to_df(
             path=paths,
@@ -338,6 +340,6 @@ class DirectoryIndexer(AbstractIndexer):
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
             self._index_table.write_update(df, update_time, base_path=self.path)
-            # clear cache out when new traces are added
-            self.clear_cache()
+        # The index may have new contents, even if this didn't find any.
+        self.clear_cache()
         return self
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index e6cc23a..1377c91 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -284,7 +284,7 @@ class HDFPatchIndexManager:
     ):
         """Convert updates to dataframe, then append to index table."""
         # read in dataframe and prepare for input into hdf5 index
-        update_time = update_time or time.time()
+        update_time = time.time() if update_time is None else update_time
         df = self.encode_table(update_df.copy(), path=base_path)
         with _HDF5Store(self.path) as store:
             try:
-- 
2.43.0


From e33e0f2ad3c484929080e99e17ff766bcc4ec867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:49 +0000
Subject: [PATCH 064/109] fix: directories with a damaged index could not be
 used or updated

---
 dascore/io/indexer.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 89c1bd8..453bad1 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -18,7 +18,7 @@ from typing_extensions import Self
 import dascore as dc
 from dascore.constants import ONE_SECOND_IN_NS, PROGRESS_LEVELS
 from dascore.exceptions import InvalidIndexVersionError
-from dascore.utils.hdf5 import HDFPatchIndexManager
+from dascore.utils.hdf5 import HDF5ExtError, HDFPatchIndexManager
 from dascore.utils.misc import iterate
 from dascore.utils.pd import filter_df
 from dascore.utils.time import get_max_min_times, to_timedelta64
@@ -190,11 +190,18 @@ class DirectoryIndexer(AbstractIndexer):
         con3 = self.cache.kwargs == self._kwargs_to_str(hdf5_kwargs)
         cached_index = self.cache[con1 & con2 & con3]
         if not len(cached_index):  # query is not cached get it from hdf5 file
-            index = self._index_table.get_index(
+            index_kwargs = dict(
                 time_min=time_min if has_limits else None,
                 time_max=time_max if has_limits else None,
                 **hdf5_kwargs,
             )
+            try:
+                index = self._index_table.get_index(**index_kwargs)
+            except (HDF5ExtError, KeyError):  # damaged index, eg by a crash.
+                self.update()
+                if not self.index_path.exists():
+                    return pd.DataFrame(columns=self._index_table.index_columns)
+                index = self._index_table.get_index(**index_kwargs)
             self._set_cache(index, time_min, time_max, hdf5_kwargs)
         else:
             index = cached_index.iloc[0]["cindex"]
@@ -292,6 +299,16 @@ class DirectoryIndexer(AbstractIndexer):
             warnings.warn(msg, UserWarning)
             os.remove(self.index_path)
             self.update()
+        except HDF5ExtError as e:
+            self._remove_damaged_index(e)
+
+    def _remove_damaged_index(self, error):
+        """Remove the index file which can't be opened so it can be recreated."""
+        if "unable to lock" in str(error):  # something else is using the index.
+            raise error
+        msg = f"The index file at {self.path} is damaged. Recreating it now."
+        warnings.warn(msg, UserWarning)
+        os.remove(self.index_path)
 
     def get_index_metadata(self):
         """Return a dict of metadata about the index."""
@@ -320,7 +337,11 @@ class DirectoryIndexer(AbstractIndexer):
         """
         self._enforce_min_version()  # delete index if schema has changed
         update_time = time.time()
-        timestamp = self._get_mtime(only_new=True)
+        try:
+            timestamp = self._get_mtime(only_new=True)
+        except HDF5ExtError as e:
+            self._remove_damaged_index(e)
+            timestamp = None
         if paths is not None:  # Other files haven't been looked at.
             update_time = self._index_table.last_updated_timestamp or 0
         paths = self._get_paths(paths)
-- 
2.43.0


From 2c0fa65d87ac48f865783949b17d64d8f7cb5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 065/109] fix: time deltas from small ints overflowed and those
 from float32 were imprecise

---
 dascore/utils/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 13abc71..dbf9c30 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -23,6 +23,7 @@ _NAT_TIMEDELTA64 = np.timedelta64("NaT", "ns")
 
 def _float_array_to_ns(array):
     """Convert seconds as floats to signed integer nanoseconds."""
+    array = np.asarray(array, dtype=np.float64)  # small dtypes overflow.
     return np.rint(array * 1_000_000_000).astype(np.int64)
 
 
-- 
2.43.0


From 1f738a74166d813a421215243d34b0a57b228998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 066/109] fix: times of other precisions than nanoseconds were
 not always converted to nanoseconds

---
 dascore/utils/time.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index dbf9c30..50347b6 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -98,7 +98,7 @@ def _array_to_datetime64(array: np.ndarray) -> np.datetime64 | np.ndarray:
     # dealing with an array of datetime64 or empty array
     if np.issubdtype(array.dtype, np.datetime64) or len(array) == 0:
         if not array.shape:  # dealing with degenerate (0-D( array
-            out = np.datetime64(array)
+            out = np.datetime64(array, "ns")
         else:
             out = array.astype("datetime64[ns]")
     # dealing with numerical data
@@ -145,7 +145,7 @@ def _datetime_to_datetime64(dt: datetime):
 
 @to_datetime64.register(pd.Timestamp)
 def _pandas_timestamp(datetime: pd.Timestamp):
-    return datetime.to_datetime64()
+    return to_datetime64(datetime.to_datetime64())
 
 
 @singledispatch
@@ -210,12 +210,12 @@ def _array_to_timedelta64(array: np.ndarray) -> np.datetime64:
         array = array.astype(np.float64)
     if np.issubdtype(array.dtype, np.timedelta64) or len(array) == 0:
         if not array.shape:  # unpack degenerate array
-            return np.timedelta64(array)
+            return np.timedelta64(array).astype("timedelta64[ns]")
         else:
             return array.astype("timedelta64[ns]")
     # Need to just get the ns form datetime64
     elif np.issubdtype(array.dtype, np.datetime64):
-        int_array = array.view(np.int64)
+        int_array = array.astype("datetime64[ns]").view(np.int64)
         return np.array(int_array).astype("timedelta64[ns]")
 
     assert np.isreal(array[0])
@@ -249,7 +249,7 @@ def _string_array_to_timedelta64(arr: pd.arrays.StringArray):
 @to_timedelta64.register(pd.Timedelta)
 def _unpack_pandas_time_delta(time_delta: pd.Timedelta):
     """Simply return the time delta."""
-    return time_delta.to_numpy()
+    return to_timedelta64(time_delta.to_numpy())
 
 
 @to_timedelta64.register(timedelta)
@@ -267,7 +267,7 @@ def _time_delta_from_str(time_delta_str: str):
             if units[-1] == "s":
                 units = units[:-1]
             new_unit = NUMPY_TIME_UNIT_MAPPING[units]
-            return np.timedelta64(int(val), new_unit)
+            return to_timedelta64(np.timedelta64(int(val), new_unit))
         case [val] if val.lower() == "nat" or val.lower() == "":
             return _NAT_TIMEDELTA64
         case _:
@@ -335,7 +335,7 @@ def _time_delta_to_number(time_delta: np.timedelta64):
 
 @to_int.register(pd.Series)
 def _pandas_timestamp_to_num(ser: pd.Series):
-    return ser.astype(np.int64)
+    return pd.Series(to_int(ser.values), index=ser.index).astype(np.int64)
 
 
 @singledispatch
-- 
2.43.0


From ae39fb26f3db006bb3395d0689921f744b78d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 067/109] fix: datetimes from time deltas were rounded

---
 dascore/utils/time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 50347b6..1187bec 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -95,6 +95,9 @@ def _array_to_datetime64(array: np.ndarray) -> np.datetime64 | np.ndarray:
     # dealing with a string
     if np.issubdtype(array.dtype, np.dtype(str)):
         array = array.astype("datetime64[ns]")
+    if np.issubdtype(array.dtype, np.timedelta64):
+        # Offsets from 1970, these are exact so don't use floats.
+        array = array.astype("timedelta64[ns]").astype("int64").astype("datetime64[ns]")
     # dealing with an array of datetime64 or empty array
     if np.issubdtype(array.dtype, np.datetime64) or len(array) == 0:
         if not array.shape:  # dealing with degenerate (0-D( array
@@ -102,7 +105,7 @@ def _array_to_datetime64(array: np.ndarray) -> np.datetime64 | np.ndarray:
         else:
             out = array.astype("datetime64[ns]")
     # dealing with numerical data
-    elif np.issubdtype(array.dtype, np.timedelta64) or np.isreal(array[0]):
+    elif np.isreal(array[0]):
         with np.errstate(divide="ignore", invalid="ignore"):
             array = to_float(np.array(array))  # need to make copy to write
             nans = nans | ~np.isfinite(array)
-- 
2.43.0


From cbd87d02ac8f5e8e9f739217efcf0198089b3383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 068/109] fix: multidimensional numbers and lists of time
 deltas could not be converted to times

---
 dascore/utils/time.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 1187bec..3c636b0 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -105,7 +105,7 @@ def _array_to_datetime64(array: np.ndarray) -> np.datetime64 | np.ndarray:
         else:
             out = array.astype("datetime64[ns]")
     # dealing with numerical data
-    elif np.isreal(array[0]):
+    elif np.isreal(array).all():
         with np.errstate(divide="ignore", invalid="ignore"):
             array = to_float(np.array(array))  # need to make copy to write
             nans = nans | ~np.isfinite(array)
@@ -208,9 +208,10 @@ def _pass_time_delta(time_delta):
 def _array_to_timedelta64(array: np.ndarray) -> np.datetime64:
     """Convert an array of floating point timestamps to an array of np.datatime64."""
     array = np.asarray(array)
-    # convert pure object arrays into float so sign casting works.
-    if np.issubdtype(array.dtype, np.dtype(object)):
-        array = array.astype(np.float64)
+    # dealing with objects or strings
+    if array.dtype.kind in "OU":
+        out = [to_timedelta64(x) for x in array]
+        array = np.asarray(out, dtype="timedelta64[ns]")
     if np.issubdtype(array.dtype, np.timedelta64) or len(array) == 0:
         if not array.shape:  # unpack degenerate array
             return np.timedelta64(array).astype("timedelta64[ns]")
@@ -221,7 +222,7 @@ def _array_to_timedelta64(array: np.ndarray) -> np.datetime64:
         int_array = array.astype("datetime64[ns]").view(np.int64)
         return np.array(int_array).astype("timedelta64[ns]")
 
-    assert np.isreal(array[0])
+    assert np.isreal(array).all()
     invalid = pd.isnull(array) | ~np.isfinite(array)
     # Need to make copy to 1) not change original array and 2) handle
     # immutable arrays. See #575.
-- 
2.43.0


From 2b0d451cfa91bbde53a852b94a2df0f478a6411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 069/109] fix: time limits at the epoch (zero) were ignored by
 the index

---
 dascore/utils/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 3c636b0..a223a81 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -456,8 +456,8 @@ def get_max_min_times(kwarg_time=None):
     # get defaults if starttime or endtime is none
     time_min = None if pd.isnull(time_min) else time_min
     time_max = None if pd.isnull(time_max) else time_max
-    time_min = to_datetime64(time_min or SMALLDT64)
-    time_max = to_datetime64(time_max or LARGEDT64)
+    time_min = to_datetime64(SMALLDT64 if time_min is None else time_min)
+    time_max = to_datetime64(LARGEDT64 if time_max is None else time_max)
     if time_min is not None and time_max is not None:
         if time_min > time_max:
             msg = "time_min cannot be greater than time_max."
-- 
2.43.0


From 0bf10d5e78c3cd96c148c2a833a48919cdca0135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 070/109] fix: series of time strings with and without time
 zones could not be converted

---
 dascore/utils/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index a223a81..2a70842 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -126,7 +126,7 @@ def _float_to_datetime(ser: pd.Series) -> pd.Series:
 @to_datetime64.register(pd.arrays.StringArray)
 def _string_array_to_datetime64(arr: pd.arrays.StringArray):
     """Convert pandas StringArray to datetime64."""
-    out = pd.to_datetime(arr, errors="coerce", format="mixed")
+    out = pd.to_datetime(arr, errors="coerce", format="mixed", utc=True)
     return out.to_numpy(dtype="datetime64[ns]")
 
 
-- 
2.43.0


From ac2a6be9a1f788488b750482532698b93a1caca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 071/109] fix: coordinates with one label could have values of
 another type than their dtype

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index da0f61b..53f40c4 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1386,7 +1386,7 @@ class CoordRange(BaseCoord):
     def values(self) -> ArrayLike:
         """Return the values of the coordinate as an array."""
         if len(self) == 1:
-            return np.asarray([self.start])
+            return np.asarray([self.start], dtype=self.dtype)
         # note: linspace works better for floats that might have slightly
         # uneven spacing. It ensures the length of the output array is robust
         # to small deviations in spacing. However, this doesnt work for datetimes.
-- 
2.43.0


From 65c30263554acb5954e4166e6fbea4b8a2651824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 072/109] fix: integrals and derivatives along uneven times
 were imprecise

---
 dascore/utils/patch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index a65e9be..12c1bbb 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -49,7 +49,7 @@ from dascore.utils.misc import (
     warn_or_raise,
     yield_sub_sequences,
 )
-from dascore.utils.time import dtype_time_like, to_float
+from dascore.utils.time import dtype_time_like, is_datetime64, to_float
 
 attr_type = dict[str, Any] | str | Sequence[str] | None
 
@@ -931,6 +931,9 @@ def _get_dx_or_spacing_and_axes(
             val = coord.step
         else:
             val = coord.data
+            # Floats can't resolve small differences of absolute times.
+            if is_datetime64(val):
+                val = val - val[0]
         # need to convert val to float so datetimes work
         out.append(to_float(val))
         axes.append(patch.get_axis(dim_))
-- 
2.43.0


From 0276a4178966e0b12d26e371496b4602493eeabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 073/109] fix: integrals of ints were truncated, those over
 uneven coords raised, definite ones along descending coords were negative

---
 dascore/transform/integrate.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dascore/transform/integrate.py b/dascore/transform/integrate.py
index 30cab68..aed82d4 100644
--- a/dascore/transform/integrate.py
+++ b/dascore/transform/integrate.py
@@ -29,6 +29,13 @@ def _quasi_mean(array):
     return np.asarray([out], dtype=array.dtype)
 
 
+def _get_inexact_array(array):
+    """Integers and bools overflow or get truncated; use floats for these."""
+    if np.issubdtype(array.dtype, np.inexact):
+        return array
+    return array.astype(np.float64)
+
+
 def _get_definite_integral(patch, dxs_or_vals, dims, axes):
     """Get a definite integral along axes."""
 
@@ -43,15 +50,17 @@ def _get_definite_integral(patch, dxs_or_vals, dims, axes):
         cm = patch.coords.update(**new_coords)
         return array, cm
 
-    array = patch.data
+    array = _get_inexact_array(patch.data)
     ndims = len(patch.shape)
     for dxs_or_val, ax in zip(dxs_or_vals, axes):
         # Numpy 2/3 compat code
         indexer = broadcast_for_index(ndims, ax, None, fill=slice(None))
+        # Integrals go from min to max, also if the coordinate is descending.
         if is_array(dxs_or_val):
-            array = _TRAP_FUNC(array, x=dxs_or_val, axis=ax)[indexer]
+            x = dxs_or_val if dxs_or_val[0] <= dxs_or_val[-1] else -dxs_or_val
+            array = _TRAP_FUNC(array, x=x, axis=ax)[indexer]
         else:
-            array = _TRAP_FUNC(array, dx=dxs_or_val, axis=ax)[indexer]
+            array = _TRAP_FUNC(array, dx=abs(dxs_or_val), axis=ax)[indexer]
     array, coords = _get_new_coords_and_array(patch, array, dims)
     return array, coords
 
@@ -63,13 +72,16 @@ def _get_indefinite_integral(patch, dxs_or_vals, axes):
     We need to calculate the distance weighted average for the areas between
     samples for the integration dimension.
     """
-    array = patch.data
+    array = _get_inexact_array(patch.data)
     for dx_or_val, ax in zip(dxs_or_vals, axes):
         out = np.zeros_like(array)
+        ndim = len(out.shape)
         # if coordinate values are provided need to get diffs.
         if is_array(dx_or_val):
             dx_or_val = dx_or_val[1:] - dx_or_val[:-1]
-        ndim = len(out.shape)
+            # and these need to line up with the axis.
+            indexer = broadcast_for_index(ndim, ax, slice(None), fill=None)
+            dx_or_val = dx_or_val[indexer]
         # get diffs along dimension
         stop_indexer = broadcast_for_index(ndim, ax, slice(1, None), fill=slice(None))
         start_indexer = broadcast_for_index(ndim, ax, slice(None, -1), fill=slice(None))
-- 
2.43.0


From 83c5269585397d9fbd7d3cabb8fbe17bb71d87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 074/109] fix: derivatives of ints with a step were truncated

---
 dascore/transform/differentiate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/transform/differentiate.py b/dascore/transform/differentiate.py
index c758e6a..2a0a964 100644
--- a/dascore/transform/differentiate.py
+++ b/dascore/transform/differentiate.py
@@ -54,7 +54,7 @@ def _strided_diff(order, patch, axes, dx_or_spacing, step):
     if len(axes) > 1:
         msg = "Step in patch.differentiate can only be used along one axis."
         raise ParameterError(msg)
-    new_data = np.empty_like(patch.data)
+    new_data = None
     dx_or_space = dx_or_spacing[0]
     for step_ in range(step):
         current_slice = slice(step_, None, step)
@@ -66,6 +66,8 @@ def _strided_diff(order, patch, axes, dx_or_spacing, step):
         else:
             _dx_or_space = dx_or_space * step
         sub = _get_diff(order, patch.data[slicer], axes, [_dx_or_space])
+        if new_data is None:  # the dtype may change, e.g. for ints.
+            new_data = np.empty_like(patch.data, dtype=sub.dtype)
         new_data[slicer] = sub
     return new_data
 
-- 
2.43.0


From a25e55dfc66dec4b7f1241088b72ac85235fdc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 075/109] fix: rfft returned the wrong frequencies

---
 dascore/transform/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/transform/fft.py b/dascore/transform/fft.py
index b3a4381..c742ea6 100644
--- a/dascore/transform/fft.py
+++ b/dascore/transform/fft.py
@@ -46,8 +46,8 @@ def rfft(patch: PatchType, dim="time") -> PatchType:
 
     ft = FourierTransformatter()
     data = patch.data
-    sr = 1 / to_float(patch.attrs[f"{dim}_step"])
-    freqs = np.fft.rfftfreq(data.shape[axis], sr)
+    step = to_float(patch.attrs[f"{dim}_step"])
+    freqs = np.fft.rfftfreq(data.shape[axis], step)
     new_data = np.fft.rfft(data, axis=axis)
     # get new dims and data units
     new_dims = ft.rename_dims(dim)
-- 
2.43.0


From f1409bfdfa17e56c239ddd177ff72cd2b6ca4a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 076/109] fix: spectrograms along descending coords were
 negative and mislabelled

---
 dascore/transform/spectro.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dascore/transform/spectro.py b/dascore/transform/spectro.py
index ea9bc70..bae9fb7 100644
--- a/dascore/transform/spectro.py
+++ b/dascore/transform/spectro.py
@@ -26,11 +26,11 @@ scipy_spectrogram = lazy_import("scipy.signal", "spectrogram")
 def _get_new_original_coord(old_coord, array):
     """Get a new coordinate for original axis (eg time)."""
     # determine what dtype the data
-    old_min = get_compatible_values(old_coord.min(), array.dtype)
+    old_start = get_compatible_values(old_coord.values[0], array.dtype)
     is_dt = np.issubdtype(old_coord.dtype, np.datetime64)
     val_dtype = np.timedelta64 if is_dt else old_coord.dtype
     vals = get_compatible_values(array, val_dtype)
-    return get_coord(data=old_min + vals, units=old_coord.units)
+    return get_coord(data=old_start + vals, units=old_coord.units)
 
 
 def _get_transformed_coord(coord, freqs):
@@ -102,10 +102,13 @@ def spectrogram(patch: PatchType, dim: str = "time", **kwargs) -> PatchType:
     # returns frequency, new values for original dimension (eg time) and spectrogram
     freqs, original, spec = scipy_spectrogram(
         patch.data,
-        fs=1 / dxs[0],  # sample *frequency* is requested, not spacing
+        fs=1 / abs(dxs[0]),  # sample *frequency* is requested, not spacing
         axis=axes[0],
         **kwargs,
     )
+    # The windows move along the coordinate, which may be descending.
+    sign = np.sign(dxs[0])
+    freqs, original = freqs * sign, original * sign
     # add new coordinates
     out_coords[dim] = _get_new_original_coord(coord, original)
     out_coords[new_coord_name] = _get_transformed_coord(coord, freqs)
-- 
2.43.0


From 031f7b17192ba353bc93e9f9e488a6ea247bebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 077/109] fix: dimensions transformed one by one or along
 descending coords could not be transformed back

---
 dascore/transform/fourier.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index 164d891..673d78a 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -126,11 +126,14 @@ def _get_dft_new_coords(patch, dxs, dims, axes, real, original_cm=None):
 def _get_dft_attrs(patch, dims, new_coords, pad=False, output="FFT"):
     """Get new attributes for transformed patch."""
     new = dict(patch.attrs)
+    new.pop("coords", None)  # these come from the new coords.
     new["dims"] = new_coords.dims
     new["data_units"] = _get_dft_data_units(patch, dims)
-    new["_pre_dft_data_type"] = new.get("data_type")
+    # Some dimensions may already be transformed, then keep what these need.
+    new.setdefault("_pre_dft_data_type", new.get("data_type"))
     new["data_type"] = "fourier_transform"
-    new["_dft_output"] = output
+    if new.get("_dft_output", "FFT") == "FFT":
+        new["_dft_output"] = output
     new["_dft_padded"] = pad
     return PatchAttrs(**new)
 
@@ -336,7 +339,8 @@ def _get_idft_dims_steps_axis(patch, dim):
     dims = [x if x in current_dims else ft.rename_dims(x)[0] for x in iterate(dim)]
     patch.check_coords(dims=dims)
     coords = [patch.get_coord(x, require_evenly_sampled=True) for x in dims]
-    is_real = [1 if to_float(x.min()) == 0 else 0 for x in coords]
+    # Only half spectra start at 0 (a single label is the same for either kind).
+    is_real = [1 if len(x) > 1 and to_float(x.values[0]) == 0 else 0 for x in coords]
     real_sum = sum(is_real)
     assert real_sum <= 1, "only one real axis allowed."
     has_real = bool(real_sum)
@@ -351,7 +355,6 @@ def _get_idft_dims_steps_axis(patch, dim):
 def _get_idft_coords_and_sizes(patch, dims, new_dims, axes, real):
     """Get the new coords for the idft and expected sizes to pass to numpy."""
     shapes = patch.shape
-    padded = patch.attrs.get("_dft_padded", False)
     coord_map = patch.coords.disassociate_coord(*dims).get_coord_tuple_map()
     sizes = []
     padding = {}
@@ -368,9 +371,10 @@ def _get_idft_coords_and_sizes(patch, dims, new_dims, axes, real):
         if (len(potential_coord) == ax_len) or (real and old_dim == dims[-1]):
             sizes.append(len(potential_coord))
         coord_map[new_dim] = (new_dim, potential_coord)
-        if not padded:  # No padding, go to next dim.
+        # Dimensions may have been transformed separately; not all are padded.
+        if (unpadded := f"_{new_dim}_unpadded") not in coord_map:
             continue
-        old_len = len(coord_map.pop(f"_{new_dim}_unpadded")[1])
+        old_len = len(coord_map.pop(unpadded)[1])
         diff = old_len - len(coord_map[new_dim][1])
         if diff < 0:
             padding[new_dim] = (0, diff)
@@ -388,6 +392,9 @@ def _get_idft_attrs(patch, dims, new_coords):
     new.pop("coords", None)
     new["dims"] = new_coords.dims
     new["data_units"] = _get_data_units_from_dims(patch, dims, mul)
+    # Other dimensions are still transformed.
+    if any(x.startswith("ft_") for x in new_coords.dims):
+        return PatchAttrs(**new)
     # Restore the pre-dft datatype.
     if "_pre_dft_data_type" in new:
         new["data_type"] = new.pop("_pre_dft_data_type", None)
-- 
2.43.0


From 8b0efcf7fea6a2b8e7077f425921fbadffa528e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 078/109] fix: stft along descending coords was mislabelled and
 could not be inverted with other coords or orders

---
 dascore/transform/fourier.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index 673d78a..513e801 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -494,10 +494,12 @@ def _get_stft_coords(patch, dim, axis, coord, stft, window):
     # while keeping the transformed dim itself as a non-dimensional coord.
     coord_map = patch.coords.disassociate_coord(dim).get_coord_tuple_map()
     new_units = invert_quantity(coord.units)
+    # The windows move along the coordinate, which may be descending.
+    sign = -1 if dc.to_float(coord.step) < 0 else 1
     coord_map.update(
         {
-            dim: get_coord(values=time + coord.min(), units=coord.units),
-            new_dims[axis]: get_coord(values=stft.f, units=new_units),
+            dim: get_coord(values=coord.values[0] + time * sign, units=coord.units),
+            new_dims[axis]: get_coord(values=stft.f * sign, units=new_units),
             # Add window array for inverse stft.
             "_stft_window": (None, window),
             "_stft_old_coord": (None, patch.get_coord(dim)),
@@ -643,15 +645,15 @@ def _get_istft_coord(coords, frequency_axis, time_axis):
     """
     dims = coords.dims
     # Create new time coordinate.
-    coord_map = dict(coords.coord_map)
+    coord_map = coords.get_coord_tuple_map()
     coord_map.pop("_stft_window")
-    time = coord_map.pop("_stft_old_coord")
+    _, time = coord_map.pop("_stft_old_coord")
     coord_map.pop(coords.dims[frequency_axis])
-    coord_map[dims[time_axis]] = time
-    # Get new dimensions
-    new_dims = list(dims)
-    new_dims[frequency_axis] = dims[time_axis]
-    new_dims.pop(time_axis)
+    coord_map[dims[time_axis]] = (dims[time_axis], time)
+    # Get new dimensions; the restored axis is where scipy puts it.
+    new_axis = frequency_axis if frequency_axis < len(dims) - 1 else time_axis
+    new_dims = [x for i, x in enumerate(dims) if i not in (frequency_axis, time_axis)]
+    new_dims.insert(new_axis, dims[time_axis])
     return get_coord_manager(coords=coord_map, dims=tuple(new_dims)), time
 
 
@@ -704,10 +706,8 @@ def istft(patch) -> PatchType:
         patch.data / dc.to_float(coord.step), t_axis=time_axis, f_axis=frequency_axis
     )
     # Trim data array to remove effect of padding.
-    # Note: after ISTFT, `frequency_axis` now indexes the restored time axis.
-    index = broadcast_for_index(
-        data_untrimmed.ndim, frequency_axis, slice(0, len(coord))
-    )
+    new_axis = cm.dims.index(patch.dims[time_axis])
+    index = broadcast_for_index(data_untrimmed.ndim, new_axis, slice(0, len(coord)))
     new_data = data_untrimmed[index]
     assert new_data.shape == cm.shape
     # Re-assemble and return new patch.
-- 
2.43.0


From 7b413e8f48991ab3684019658b69922baa325b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:47 +0000
Subject: [PATCH 079/109] fix: aligning to a coord could shift traces one
 sample short and dropped imaginary parts or fractions of the data

---
 dascore/core/coords.py | 6 ++++--
 dascore/proc/align.py  | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 53f40c4..b5267b5 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -939,8 +939,10 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 return array if input_array_like else array[0]
             # For absolute mode with evenly sampled coords, compute index from value
             if hasattr(self, "step") and self.step is not None:
-                # Calculate index: (value - min) / step
-                indices = ((array - min_val) / self.step).astype(np.int64)
+                # Calculate index: (value - min) / step. As for values inside the
+                # coordinate, the next index is used, with some fudge for floats.
+                fraction = np.round((array - min_val) / self.step, decimals=10)
+                indices = np.ceil(fraction).astype(np.int64)
                 return indices if input_array_like else indices[0]
 
         # Clamp values to bounds for backward compatibility when not out of bounds
diff --git a/dascore/proc/align.py b/dascore/proc/align.py
index 59e1a8b..265f9f2 100644
--- a/dascore/proc/align.py
+++ b/dascore/proc/align.py
@@ -125,7 +125,8 @@ def _apply_shifts_to_data(data, meta, dim_axis, coord_axes, fill_value):
     """
     Apply different shifts to data along specified axis.
     """
-    out = np.full(meta.new_shape, fill_value)
+    dtype = np.result_type(data.dtype, fill_value)
+    out = np.full(meta.new_shape, fill_value, dtype=dtype)
     coord_axes = tuple(iterate(coord_axes))
     in_start, in_stop = meta.source_slice
     out_start, out_stop = meta.dest_slice
-- 
2.43.0


From 1429917f1f01b07d50fd246c2955cf04ae4579da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:47 +0000
Subject: [PATCH 080/109] fix: labels of evenly sampled large ints were rounded

---
 dascore/core/coords.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index b5267b5..b7c41ad 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1392,8 +1392,11 @@ class CoordRange(BaseCoord):
         # note: linspace works better for floats that might have slightly
         # uneven spacing. It ensures the length of the output array is robust
         # to small deviations in spacing. However, this doesnt work for datetimes.
+        # Large ints also don't survive the conversion to floats.
         if is_datetime64(self.start) or is_timedelta64(self.start):
             out = np.arange(self.start, self.stop, self.step)
+        elif np.issubdtype(self.dtype, np.integer):
+            out = np.arange(self.start, self.stop, self.step, dtype=self.dtype)
         else:
             out = np.linspace(
                 self.start, self.stop - self.step, num=len(self), dtype=self.dtype
-- 
2.43.0


From 01c7fb254b6082530bfc16bdc1b9c44cf431bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:47 +0000
Subject: [PATCH 081/109] fix: interpolating times was imprecise, lost units
 and resampling descending coords raised

---
 dascore/proc/resample.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/dascore/proc/resample.py b/dascore/proc/resample.py
index 0de7973..83c62ac 100644
--- a/dascore/proc/resample.py
+++ b/dascore/proc/resample.py
@@ -12,12 +12,8 @@ from dascore.constants import PatchType
 from dascore.exceptions import FilterValueError
 from dascore.units import get_filter_units
 from dascore.utils.imports import lazy_import
-from dascore.utils.patch import (
-    get_dim_axis_value,
-    get_start_stop_step,
-    patch_function,
-)
-from dascore.utils.time import to_int, to_timedelta64
+from dascore.utils.patch import get_dim_axis_value, patch_function
+from dascore.utils.time import to_float, to_int, to_timedelta64
 
 scipy_decimate = lazy_import("scipy.signal", "decimate")
 
@@ -136,21 +132,25 @@ def interpolate(patch: PatchType, kind: str | int = "linear", **kwargs) -> Patch
     >>> patch_time_even = patch.interpolate(time=None)
     """
     dim, axis, samples = get_dim_axis_value(patch, kwargs=kwargs)[0]
+    coord = patch.coords.coord_map[dim]
     # if samples is None, get evenly sampled coords along dimension.
     if samples is None:
-        coord = patch.coords.coord_map[dim]
         samples = coord.snap().values
     # we need to make sure only real numbers are used, interp1d doesn't support
     # datetime64 yet.
     coord_num = to_int(patch.coords.get_array(dim))
     samples_num = to_int(samples)
+    # interp1d uses floats which can't resolve small differences of large ints.
+    if len(coord_num) and np.issubdtype(coord_num.dtype, np.signedinteger):
+        samples_num = samples_num - coord_num[0]
+        coord_num = coord_num - coord_num[0]
     func = compat.interp1d(
         coord_num, patch.data, axis=axis, kind=kind, fill_value="extrapolate"
     )
     out = func(samples_num)
     cm = patch.coords
     associated_dims = cm.dim_map[dim]
-    coord_new = dc.core.get_coord(data=samples)
+    coord_new = dc.core.get_coord(data=samples, units=coord.units)
     cm_new = cm.update(**{dim: (associated_dims, coord_new)})
     return patch.new(data=out, coords=cm_new)
 
@@ -231,6 +231,9 @@ def resample(
         # nasty hack so that ints/floats get converted to seconds.
         if isinstance(step, np.timedelta64):
             new_step = to_timedelta64(new_step)
+        # The sampling period is positive but the coordinate can be descending.
+        if to_float(step) < 0 < to_float(new_step):
+            new_step = -new_step
         current_sig_len = patch.data.shape[axis]
         new_len = current_sig_len * (step / new_step)
     else:
@@ -239,11 +242,12 @@ def resample(
     data, new_coord = compat.resample(
         patch.data, int(np.round(new_len)), t=coord, axis=axis, window=window
     )
+    new_coord = dc.core.get_coord(data=new_coord, units=coord.units)
     cm = patch.coords.update(**{dim: new_coord})
     out = patch.new(data=data, coords=cm)
     # Interpolate if new sampling rate is not very close to desired sampling rate.
     if not samples and not np.isclose(new_len, np.round(new_len)):
-        start, stop, step = get_start_stop_step(out, dim)
+        start, stop = out.get_array(dim)[[0, -1]]
         new_coord = np.arange(start, stop, new_step)
         out = interpolate(out, kind=interp_kind, **{dim: new_coord})
     return out
-- 
2.43.0


From 68e4b421bea5edf1a39a61708032d80c06d58d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 082/109] fix: savgol_filter over several dimensions only
 filtered the last one

---
 dascore/proc/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index 51c9508..fd732e5 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -391,7 +391,7 @@ def savgol_filter(
     size, axes = _create_size_and_axes(patch, kwargs, samples)
     for ax in axes:
         data = np_savgol_filter(
-            x=patch.data,
+            x=data,
             window_length=size[ax],
             polyorder=polyorder,
             mode=mode,
-- 
2.43.0


From 3aece54d35baa99224880cba3c392a3ca09509b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 083/109] fix: hampel_filter rounded large ints

---
 dascore/proc/hampel.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dascore/proc/hampel.py b/dascore/proc/hampel.py
index 8cb2034..feacfe9 100644
--- a/dascore/proc/hampel.py
+++ b/dascore/proc/hampel.py
@@ -192,7 +192,8 @@ def hampel_filter(
     # Need to convert ints to float for calculations to avoid roundoff error.
     # There were issues using np.issubdtype not working so this uses kind.
     is_int = data.dtype.kind in {"i", "u"}
-    dataf = data.copy() if not is_int else data.astype(np.float32)
+    float_type = np.float32 if data.dtype.itemsize <= 2 else np.float64
+    dataf = data.copy() if not is_int else data.astype(float_type)
     # Apply hampel filtering using appropriate method
     if approximate:
         dataf = _hampel_separable(dataf, size, mode, threshold)
@@ -201,6 +202,10 @@ def hampel_filter(
         dataf = _hampel_non_separable(dataf, size, mode, threshold)
     # Cast back to original dtype (round if original was integer)
     if np.issubdtype(data.dtype, np.integer):
-        dataf = np.rint(dataf)
-    out = dataf.astype(data.dtype, copy=False)
+        # Large ints may not be exact as floats; only touch replaced samples.
+        replaced = dataf != data.astype(dataf.dtype)
+        out = data.copy()
+        out[replaced] = np.rint(dataf[replaced]).astype(data.dtype)
+    else:
+        out = dataf
     return patch.update(data=out)
-- 
2.43.0


From 3332a376f5456cf554e45baf93bb5970d9029784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 084/109] fix: windowed kurtosis of data with an offset was
 wrong through cancellation

---
 dascore/transform/kurtosis.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/dascore/transform/kurtosis.py b/dascore/transform/kurtosis.py
index 94ddabf..970eace 100644
--- a/dascore/transform/kurtosis.py
+++ b/dascore/transform/kurtosis.py
@@ -53,27 +53,24 @@ def _moving_sum(x: np.ndarray, nwin: int):
 @maybe_numba_jit
 def _windowed_kurtosis(data: np.ndarray, nwin: int) -> np.ndarray:
     """Compute Pearson kurtosis in moving windows along axis 0."""
+    npts = data.shape[0]
+    left = nwin // 2
+    right = nwin - left
     s1, counts = _moving_sum(data, nwin)
-    s2, _ = _moving_sum(data**2, nwin)
-    s3, _ = _moving_sum(data**3, nwin)
-    s4, _ = _moving_sum(data**4, nwin)
 
     out = np.empty_like(data, dtype=np.float64)
 
-    for i in range(data.shape[0]):
+    for i in range(npts):
+        start = max(i - left, 0)
+        stop = min(i + right, npts)
         for j in range(data.shape[1]):
-            count = counts[i]
-
-            m1 = s1[i, j] / count
-            m2 = s2[i, j] / count
-            m3 = s3[i, j] / count
-            m4 = s4[i, j] / count
-
-            mu2 = m2 - m1**2
-            mu4 = m4 - 4 * m1 * m3 + 6 * m1**2 * m2 - 3 * m1**4
+            window = data[start:stop, j]
+            # Removing the mean first avoids the cancellation of raw moments.
+            diff2 = (window - s1[i, j] / counts[i]) ** 2
+            mu2 = np.mean(diff2)
 
-            if mu2 > 0:
-                out[i, j] = mu4 / mu2**2
+            if mu2 > 0 and np.min(window) < np.max(window):
+                out[i, j] = np.mean(diff2**2) / mu2**2
             else:
                 out[i, j] = np.nan
 
-- 
2.43.0


From cea10051e842963f357a5320cc21cb81e0cb0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 085/109] fix: stepped and centered numpy windows, complex data
 and single sample outputs in rolling

---
 dascore/proc/rolling.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/dascore/proc/rolling.py b/dascore/proc/rolling.py
index 30b9af6..0a3f353 100644
--- a/dascore/proc/rolling.py
+++ b/dascore/proc/rolling.py
@@ -98,13 +98,22 @@ class _PatchRollerInfo:
 class _NumpyPatchRoller(_PatchRollerInfo):
     """A class to apply roller operations to patches."""
 
+    def _get_samples_before_label(self):
+        """
+        Get the number of samples in the window before its label.
+
+        The label is the last sample or, when centering, the middle one. As in
+        pandas, the additional sample of even windows is before the label.
+        """
+        return self.window // 2 if self.center else self.window - 1
+
     def get_start_index(self):
         """
         Get the start index to account for non-zero step size.
 
         This only applies for numpy engine.
         """
-        wsize = self.window - 1
+        wsize = self._get_samples_before_label()
         out = np.ceil(wsize / self.step) * self.step - wsize
         return int(out)
 
@@ -112,22 +121,16 @@ class _NumpyPatchRoller(_PatchRollerInfo):
         """
         Pad the reduced array with NaNs and align it to the output coordinate.
 
-        The NaNs go at the start of the axis, except when centering, which
-        moves `num_nans // 2` of them to the end. This is done with a single
-        allocation rather than a pad followed by a roll.
+        There is one output for each step-th sample; those without a complete
+        window are NaN.
         """
-        num_nans = 1 + (self.window - 2) // self.step
-        if not num_nans:  # window of one sample; nothing to pad.
-            return data
         shape = list(data.shape)
-        shape[self.axis] += num_nans
+        shape[self.axis] = -(-self.patch.data.shape[self.axis] // self.step)
         out = np.full(shape, np.nan, dtype=data.dtype)
-        start = num_nans - num_nans // 2 if self.center else num_nans
+        start = -(-self._get_samples_before_label() // self.step)
         slicer = [slice(None, None)] * len(shape)
         slicer[self.axis] = slice(start, start + data.shape[self.axis])
         out[tuple(slicer)] = data
-        if self.step == 1:
-            assert out.shape == self.patch.data.shape
         return out
 
     @compose_docstring(apply_description=rolling_apply_description)
@@ -154,8 +157,9 @@ class _NumpyPatchRoller(_PatchRollerInfo):
         step_slice[self.axis] = slice(start, None, self.step)
         # apply function, then pad with NaNs and roll
         trimmed_slide_view = slide_view[tuple(step_slice)]
-        raw = function(trimmed_slide_view, *args, axis=-1, **kwargs)
-        out = self._pad_roll_array(np.asarray(raw, dtype=np.float64))
+        raw = np.asarray(function(trimmed_slide_view, *args, axis=-1, **kwargs))
+        dtype = np.complex128 if np.iscomplexobj(raw) else np.float64
+        out = self._pad_roll_array(raw.astype(dtype, copy=False))
         return self._new_patch(out, function)
 
     def mean(self):
@@ -191,6 +195,9 @@ class _PandasPatchRoller(_PatchRollerInfo):
         if len(self.patch.dims) > 2:
             msg = "Cannot use Pandas engine on patches with more than 2 dims."
             raise ParameterError(msg)
+        if np.iscomplexobj(self.patch.data):
+            msg = "Cannot use Pandas engine on patches with complex data."
+            raise ParameterError(msg)
         df = pd.DataFrame(self.patch.data)
         return df
 
@@ -211,7 +218,7 @@ class _PandasPatchRoller(_PatchRollerInfo):
         data = df.values if not self.axis else df.T.values
         # get rid of extra dims if original data doesn't have them.
         if len(data.shape) != len(self.patch.data.shape):
-            data = np.squeeze(data)
+            data = data[:, 0]
         return self._new_patch(data, func_or_str)
 
     def _call_rolling_func(self, name, *args, **kwargs):
@@ -394,6 +401,8 @@ def rolling(
         engines = {"numpy": _NumpyPatchRoller, "pandas": _PandasPatchRoller}
         if cls := engines.get(engine):
             return cls
+        if np.iscomplexobj(patch.data):  # not supported by pandas.
+            return _NumpyPatchRoller
         if step < 10 and len(patch.squeeze().dims) < 2:
             return _PandasPatchRoller
         return _NumpyPatchRoller
-- 
2.43.0


From f1bcb5c59f25b86940112541400214d891461166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 086/109] fix: rolling engines computed different standard
 deviations

---
 dascore/proc/rolling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/rolling.py b/dascore/proc/rolling.py
index 0a3f353..24bc994 100644
--- a/dascore/proc/rolling.py
+++ b/dascore/proc/rolling.py
@@ -253,7 +253,8 @@ class _PandasPatchRoller(_PatchRollerInfo):
 
     def std(self):
         """Apply standard deviation to moving window."""
-        return self._call_rolling_func(name="std")
+        # As for the numpy engine (and Patch.std) use the population std.
+        return self._call_rolling_func("std", ddof=0)
 
     def sum(self):
         """Apply sum to moving window."""
-- 
2.43.0


From 82d7869182dfdf47f9eb6ac1465015939c8c330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 087/109] fix: pickle files lost later writes and could not
 hold lazy spools

---
 dascore/io/pickle/core.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dascore/io/pickle/core.py b/dascore/io/pickle/core.py
index 4a126df..59e256d 100644
--- a/dascore/io/pickle/core.py
+++ b/dascore/io/pickle/core.py
@@ -49,7 +49,14 @@ class PickleIO(FiberIO):
 
     def read(self, resource: BinaryReader, **kwargs):
         """Read a Patch/Spool from disk."""
-        spool = dascore.spool(pickle.load(resource))
+        # Writing to an existing file appends, so there can be several pickles.
+        patches = list(dascore.spool(pickle.load(resource)))
+        while True:
+            try:
+                patches.extend(dascore.spool(pickle.load(resource)))
+            except EOFError:
+                break
+        spool = dascore.spool(patches)
         # Kwargs can have things other than ranges of dimensions.
         ranges = {i: v for i, v in kwargs.items() if isinstance(v, tuple)}
         if not ranges:
@@ -62,4 +69,7 @@ class PickleIO(FiberIO):
 
     def write(self, patch, resource: BinaryWriter, **kwargs):
         """Write a Patch/Spool to disk."""
+        # Other spools only refer to their data, and aren't recognized.
+        if isinstance(patch, dascore.BaseSpool):
+            patch = dascore.spool(list(patch))
         pickle.dump(patch, resource)
-- 
2.43.0


From c0e0c20d73561125e9ebed8a98ef6b3924e85f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 088/109] fix: segy files of complex, descending or long and
 coarsely sampled patches were wrong or unreadable

---
 dascore/io/segy/utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dascore/io/segy/utils.py b/dascore/io/segy/utils.py
index fcb278a..be0570f 100644
--- a/dascore/io/segy/utils.py
+++ b/dascore/io/segy/utils.py
@@ -211,6 +211,20 @@ def _get_segy_compatible_patch(spool, round_error_max=3e-9):
             "patch.update_coords or resample the time axis with patch.resample"
         )
         raise PatchError(msg)
+    # The data are stored as real numbers, ascending in time, and the header
+    # fields for the time step (in us) and number of samples have two bytes.
+    if np.iscomplexobj(patch.data):
+        msg = "The segy format doesn't support complex data."
+        raise PatchError(msg)
+    if patch.get_coord("time").reverse_sorted:
+        patch = patch.sort_coords("time")
+    if abs(time_step) * 1_000_000 > 32_767 or len(patch.get_coord("time")) > 32_767:
+        msg = (
+            "The segy format supports time steps of less than 32,768 us and less "
+            f"than 32,768 samples per trace. The input patch has a time step of "
+            f"{time_step} s and {len(patch.get_coord('time'))} samples."
+        )
+        raise PatchError(msg)
     return patch.transpose("channel", "time")
 
 
-- 
2.43.0


From 91236a49d185a78314e398dd875505ba1a96ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 089/109] fix: complex data as wav and uneven coords as rsf
 were stored wrongly

---
 dascore/io/rsf/core.py | 2 ++
 dascore/io/wav/core.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/dascore/io/rsf/core.py b/dascore/io/rsf/core.py
index 5e9de15..3776a60 100644
--- a/dascore/io/rsf/core.py
+++ b/dascore/io/rsf/core.py
@@ -58,6 +58,8 @@ class RSFV1(FiberIO):
         assert len(spool) == 1
         patch = spool[0]
         axis_lengs = patch.shape
+        for dim in patch.dims:  # each axis is defined by its origin and step.
+            patch.get_coord(dim, require_evenly_sampled=True)
         axis_origs = [to_float(patch.get_coord(x).start) for x in patch.dims]
         axis_steps = [to_float(patch.get_coord(x).step) for x in patch.dims]
         axis_names = patch.dims
diff --git a/dascore/io/wav/core.py b/dascore/io/wav/core.py
index 92f25b3..233a669 100644
--- a/dascore/io/wav/core.py
+++ b/dascore/io/wav/core.py
@@ -79,6 +79,9 @@ class WavIO(FiberIO):
         # Ensure we have a 2D patch which has a time dimension.
         check_patch_coords(patch, ("time",))
         assert len(patch.dims) == 2, "only 2D patches supported for this function."
+        if np.iscomplexobj(patch.data):
+            msg = "The wav format doesn't support complex data."
+            raise ParameterError(msg)
         time = patch.get_coord("time").step
 
         # handle resampling and normalization
-- 
2.43.0


From 15eca10b662a573a9ba100efd95dd4202cde5b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 090/109] fix: times of streams were imprecise, reversed for
 descending coords or mixed from differing traces

---
 dascore/utils/io.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/dascore/utils/io.py b/dascore/utils/io.py
index 543e1b6..cd00b07 100644
--- a/dascore/utils/io.py
+++ b/dascore/utils/io.py
@@ -209,7 +209,7 @@ def patch_to_obspy(patch: PatchType):
         """Ensure the patch can be converted to a stream else raise."""
         is_2d = len(patch.dims) == 2
         has_time = "time" in patch.dims
-        if not has_time and is_2d:
+        if not (has_time and is_2d):
             msg = "Can only convert 2d patches with a time dimension to stream."
             raise PatchConversionError(msg)
 
@@ -221,15 +221,17 @@ def patch_to_obspy(patch: PatchType):
         dt = np.timedelta64(1, "s") / coord.step
 
         time_stats = {
-            "starttime": obspy.UTCDateTime(str(tmin)),
-            "endtime": obspy.UTCDateTime(str(tmax)),
+            "starttime": obspy.UTCDateTime(ns=int(tmin.astype(np.int64))),
+            "endtime": obspy.UTCDateTime(ns=int(tmax.astype(np.int64))),
             "sampling_rate": to_float(dt),
         }
         return time_stats
 
     _check_patch(patch)
-    # ensure time is last axis
+    # ensure time is last axis, and ascending as streams can't be otherwise.
     patch = patch.transpose(..., "time")
+    if patch.get_coord("time").reverse_sorted:
+        patch = patch.sort_coords("time")
     other_dim = next(iter(set(patch.dims) - {"time"}))
     other_vals = patch.coords.get_array(other_dim)
     base_stats = _get_time_stats(patch)
@@ -271,6 +273,20 @@ def obspy_to_patch(stream, dim="distance") -> PatchType:
             )
             raise PatchConversionError(msg)
 
+        times = {(x.stats.starttime.ns, x.stats.sampling_rate) for x in stream}
+        if len(times) != 1:
+            msg = (
+                "Cannot convert stream whose traces have different start times "
+                "or sampling rates to a Patch."
+            )
+            raise PatchConversionError(msg)
+
+    def _get_time(tr):
+        """Get time coord; timestamps as floats aren't precise enough."""
+        step = np.round(10**9 / tr.stats.sampling_rate).astype("timedelta64[ns]")
+        start = np.datetime64(tr.stats.starttime.ns, "ns")
+        return start + np.arange(len(tr.data)) * step
+
     def _get_attrs(tr):
         """Get stats from one of the traces."""
         # these are mainly obspy-specific things.
@@ -291,7 +307,7 @@ def obspy_to_patch(stream, dim="distance") -> PatchType:
     dims = (dim, "time")
     coords = {
         dim: ((dim,), np.asarray(new_dim)),
-        "time": (("time",), dc.to_datetime64(tr.times("timestamp"))),
+        "time": (("time",), _get_time(tr)),
     }
     attrs = _get_attrs(tr)
     patch = dc.Patch(
-- 
2.43.0


From 9481a963602fee86215bb5ef3a7356977c08c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 091/109] fix: selecting twice along a coord missing from the
 contents kept only the last selection

---
 dascore/core/spool.py | 16 +++++++++++-----
 dascore/utils/misc.py | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 352112a..9edaf38 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -42,6 +42,7 @@ from dascore.utils.misc import (
     _spool_map,
     broadcast_for_index,
     deep_equality_check,
+    intersect_ranges,
 )
 from dascore.utils.namespace import NamespaceOwner
 from dascore.utils.patch import (
@@ -820,6 +821,14 @@ class DataFrameSpool(BaseSpool):
     ):
         """Create a new instance from dataframes."""
         new = self.__class__(self)
+        new._select_kwargs = dict(self._select_kwargs)
+        for key, value in (select_kwargs or {}).items():
+            if key in new._select_kwargs:  # both selections apply.
+                value = intersect_ranges(new._select_kwargs[key], value)
+                if value is None:  # and nothing is in both.
+                    df, source_df, instruction_df = df.iloc[:0], None, None
+                    continue
+            new._select_kwargs[key] = value
         if source_df is None or instruction_df is None:
             _, source_, inst_ = self._get_dummy_dataframes(df)
             source_df = source_df if source_df is not None else source_
@@ -829,8 +838,6 @@ class DataFrameSpool(BaseSpool):
         new._instruction_df = instruction_df
         # Discard stale instruction indices (eg from copied caches).
         new._cache.pop("_instruction_indices", None)
-        new._select_kwargs = dict(self._select_kwargs)
-        new._select_kwargs.update(select_kwargs or {})
         new._merge_kwargs = dict(self._merge_kwargs)
         new._merge_kwargs.update(merge_kwargs or {})
         return new
@@ -919,9 +926,8 @@ class DataFrameSpool(BaseSpool):
     @compose_docstring(doc=BaseSpool.get_contents.__doc__)
     def get_contents(self) -> pd.DataFrame:
         """{doc}."""
-        # Select kwargs don't apply to columns which aren't in an empty df.
-        ignore = self._df.empty
-        keep = filter_df(self._df, ignore_bad_kwargs=ignore, **self._select_kwargs)
+        # Select kwargs are those which don't apply to the columns of the df.
+        keep = filter_df(self._df, ignore_bad_kwargs=True, **self._select_kwargs)
         return self._df[keep]
 
     get_patch_names = get_patch_names
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index b2d6f75..9beda88 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -601,6 +601,22 @@ def sanitize_range_param(select) -> tuple:
     return select
 
 
+def intersect_ranges(range_1, range_2):
+    """Return the range which is in both ranges, or None if there is none."""
+    try:
+        (min_1, max_1), (min_2, max_2) = (
+            order_range_tuple(sanitize_range_param(x)) for x in (range_1, range_2)
+        )
+        mins = [x for x in (min_1, min_2) if x is not None]
+        maxs = [x for x in (max_1, max_2) if x is not None]
+        out = max(mins, default=None), min(maxs, default=None)
+        disjoint = None not in out and out[0] > out[1]
+    except Exception as exc:
+        msg = f"Cannot combine the selections {range_1} and {range_2}."
+        raise ParameterError(msg) from exc
+    return None if disjoint else out
+
+
 def order_range_tuple(range_tuple):
     """Ensure finite range bounds are in increasing order."""
     val_min, val_max = range_tuple
-- 
2.43.0


From 9f1d0c6083d07fc0e10fc3069954986318240858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 092/109] fix: one damaged file could stop the scan of a whole
 directory

---
 dascore/io/core.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 39688c8..4ce01ac 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -32,7 +32,6 @@ from dascore.constants import (
 from dascore.core.attrs import str_validator
 from dascore.core.spool import DataFrameSpool
 from dascore.exceptions import (
-    InvalidFiberFileError,
     InvalidFiberIOError,
     MissingOptionalDependencyError,
     UnknownFiberFormatError,
@@ -880,6 +879,15 @@ def scan(
                     )
                 except UnknownFiberFormatError:  # skip bad entities
                     continue
+                except Exception:
+                    # Files found in a directory can be damaged or, by now, gone.
+                    paths = (x for x in iterate(path) if isinstance(x, str | Path))
+                    if str(patch_source) in {str(x) for x in paths}:
+                        raise
+                    if not isinstance(patch_source, str | Path):
+                        raise
+                    warnings.warn(f"Failed to open {patch_source}", UserWarning)
+                    continue
                 # Cache this fiber io to given preferential treatment next
                 # iteration. This speeds up the common case of many files
                 # with the same format.
@@ -893,21 +901,21 @@ def scan(
                         continue
                     # Directory FiberIO may need to know the time after which
                     # contents should be returned.
-                    source = fiber_io.scan(
-                        resource, timestamp=timestamp, _pre_cast=True
-                    )
+                    scan_kwargs = dict(timestamp=timestamp)
                 else:
-                    try:
-                        source = fiber_io.scan(resource, _pre_cast=True)
-                    # This happens if the file is corrupt see #346.
-                    except (OSError, InvalidFiberFileError, ValueError, TypeError):
-                        warnings.warn(f"Failed to scan {resource}", UserWarning)
-                        continue
-                    except MissingOptionalDependencyError as ex:
-                        missing_optional_deps[ex.msg.split(" ")[0]] += 1
-                        continue
-                for attr in source:
-                    out.append(dc.PatchAttrs.from_dict(attr))
+                    scan_kwargs = {}
+                try:
+                    source = fiber_io.scan(resource, _pre_cast=True, **scan_kwargs)
+                    attrs = [dc.PatchAttrs.from_dict(attr) for attr in source]
+                except MissingOptionalDependencyError as ex:
+                    missing_optional_deps[ex.msg.split(" ")[0]] += 1
+                    continue
+                # This happens if the file is corrupt see #346. The readers, some
+                # of which may be third party code, can then raise anything.
+                except Exception:
+                    warnings.warn(f"Failed to scan {resource}", UserWarning)
+                    continue
+                out.extend(attrs)
     # Ensure ctl + c exists scan.
     except KeyboardInterrupt:
         getattr(progress, "stop", lambda: None)()
-- 
2.43.0


From 5a3355913d656931ec140fc3f9fd943f87c84d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 093/109] fix: xml metadata was cached by path so changed or
 damaged files gave the old one

---
 dascore/io/xml_binary/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dascore/io/xml_binary/utils.py b/dascore/io/xml_binary/utils.py
index a9dc9b5..4974be3 100644
--- a/dascore/io/xml_binary/utils.py
+++ b/dascore/io/xml_binary/utils.py
@@ -65,10 +65,15 @@ class XMLBinaryInfo(_XMLModel):
 
 
 @lru_cache
+def _parse_xml_metadata(contents):
+    """Parse the contents of the xml file."""
+    return XMLBinaryInfo.model_validate(xml_to_dict(contents))
+
+
 def _read_xml_metadata(path):
     """A function to read metadata from the xml file."""
-    contents = xml_to_dict(path.read_bytes())
-    return XMLBinaryInfo.model_validate(contents)
+    # The path can't be used for caching since the file could have changed.
+    return _parse_xml_metadata(path.read_bytes())
 
 
 def _make_distance_coord(metadata: XMLLaserZones):
-- 
2.43.0


From 7eb5745ed6b928493c0962834c1d5094dc2e91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 094/109] fix: a damaged or outdated index map could prevent
 access to directories

---
 dascore/io/indexer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 453bad1..413edf8 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -44,9 +44,10 @@ def _get_index_map(cache_path) -> dict:
             with path.open("r") as fi:
                 out = json.load(fi)
         # On rare occasions, the file can become corrupt. See #508.
-        except (OSError, json.JSONDecodeError):
+        except (OSError, ValueError):
             successful_read = False
-    if not isinstance(out, dict) or not successful_read:
+    valid = isinstance(out, dict) and all(isinstance(x, str) for x in out.values())
+    if not valid or not successful_read:
         out = {}
         with suppress(FileNotFoundError, PermissionError):
             path.unlink(missing_ok=True)
@@ -148,7 +149,7 @@ class DirectoryIndexer(AbstractIndexer):
                 return expected_path
         # else load path map and see if it knows where the index is.
         path_map = _get_index_map(cache_path=str(self.index_map_path))
-        if out := path_map.get(str(data_path)):
+        if (out := path_map.get(str(data_path))) and Path(out).parent.exists():
             return out
         # if not, set the path to either the data path, if writable,
         # else the dascore cache
-- 
2.43.0


From 41fdd530b67d83c2acf767663feafe31877c4ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 095/109] fix: directories where only some patches have an
 experiment_id could not be indexed

---
 dascore/utils/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 1377c91..8b412d1 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -221,6 +221,10 @@ class HDFPatchIndexManager:
         # apply column encoders, make paths relative to reference path
         # and drop any non-index columns.
         df = df.pipe(fill_defaults_from_pydantic, self._base_model)
+        # only some of the patches may have values for the column.
+        for name, field in self._base_model.model_fields.items():
+            if isinstance(field.default, str):
+                df[name] = df[name].where(~df[name].isnull(), field.default)
         for col, func in self._column_encoders.items():
             df[col] = func(df[col])
         out = df.loc[:, list(self.index_columns)].assign(
-- 
2.43.0


From 55acbc9e54f75d9d024c8f7a3d2e224af67c317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 096/109] fix: tdms files cut off inside a chunk gave values at
 wrong positions

---
 dascore/io/tdms/utils.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/dascore/io/tdms/utils.py b/dascore/io/tdms/utils.py
index d81f6ca..1409f06 100644
--- a/dascore/io/tdms/utils.py
+++ b/dascore/io/tdms/utils.py
@@ -11,6 +11,7 @@ import numpy as np
 
 from dascore.core.attrs import PatchAttrs
 from dascore.core.coords import get_coord
+from dascore.exceptions import InvalidFiberFileError
 from dascore.utils.time import to_datetime64, to_timedelta64
 
 DEFAULT_ATTRS = set(PatchAttrs.model_fields)
@@ -182,9 +183,6 @@ def _get_all_attrs(tdms_file, lead_in_length=28):
     fileinfo["next_segment_offset"] += lead_in_length
     fileinfo["raw_data_offset"] += lead_in_length
     fileinfo["file_size"] = os.path.getsize(tdms_file.name)
-    # Make sure next segment does not go beyond file capacity
-    if fileinfo["next_segment_offset"] > fileinfo["file_size"]:
-        fileinfo["next_segment_offset"] = fileinfo["file_size"]
     # navigate pointer to immediately after lead in data
     tdms_file.seek(lead_in_length, 0)
     # Read number of channels
@@ -219,12 +217,26 @@ def _get_all_attrs(tdms_file, lead_in_length=28):
     fileinfo["data_type"] = TDS_DATA_TYPE.get(struct.unpack("<i", tdms_file.read(4))[0])
     if fileinfo["data_type"] not in ("int16", "float32"):
         raise Exception("Unsupported TDMS data type: " + fileinfo["data_type"])
+    # Read Dimension of the raw data array (has to be 1):
+    _ = struct.unpack("<i", tdms_file.read(4))[0]
+    fileinfo["chunk_size"] = struct.unpack("<i", tdms_file.read(4))[0]
+    # Make sure next segment does not go beyond file capacity. If it does the
+    # file is cut off and only complete chunks (or rows) can be used.
+    item_size = np.dtype(fileinfo["data_type"]).itemsize
+    if fileinfo["next_segment_offset"] > fileinfo["file_size"]:
+        block = item_size * n_channels
+        if fileinfo["decimated"]:
+            block *= fileinfo["chunk_size"]
+        blocks = (fileinfo["file_size"] - fileinfo["raw_data_offset"]) // block
+        if blocks < 1:
+            msg = f"TDMS file {tdms_file.name} is cut off before the end of its data."
+            raise InvalidFiberFileError(msg)
+        end = fileinfo["raw_data_offset"] + blocks * block
+        fileinfo["next_segment_offset"] = fileinfo["file_size"] = end
     # get number of samples by dividing amount of unread data by the
     # size of data per channel
     numofsamples = (
-        (fileinfo["file_size"] - fileinfo["raw_data_offset"])
-        / n_channels
-        / np.dtype(fileinfo["data_type"]).itemsize
+        (fileinfo["file_size"] - fileinfo["raw_data_offset"]) / n_channels / item_size
     )
     t_coord = _get_time_coord(out, numofsamples)
     out["coords"] = {"time": t_coord, "distance": d_coord}
@@ -236,9 +248,6 @@ def _get_all_attrs(tdms_file, lead_in_length=28):
 def _get_fileinfo(tdms_file, lead_in_length=28):
     """Get info about file not included in the attributes."""
     attrs, fileinfo = _get_all_attrs(tdms_file)
-    # Read Dimension of the raw data array (has to be 1):
-    _ = struct.unpack("<i", tdms_file.read(4))[0]
-    fileinfo["chunk_size"] = struct.unpack("<i", tdms_file.read(4))[0]
     return fileinfo, attrs
 
 
-- 
2.43.0


From 73ea9090c69f01cf8a467a67afddd2bedb59de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 097/109] fix: in-place changes to patches read from xml_binary
 changed the data files

---
 dascore/io/xml_binary/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/io/xml_binary/utils.py b/dascore/io/xml_binary/utils.py
index 4974be3..b56f167 100644
--- a/dascore/io/xml_binary/utils.py
+++ b/dascore/io/xml_binary/utils.py
@@ -166,7 +166,7 @@ def _read_single_file(path, metadata, time, distance):
         {"time": time_coord, "distance": distance_coord},
         dims=attr.dim_tuple,
     )
-    memmap = np.memmap(path, dtype=metadata.data_type)
+    memmap = np.memmap(path, dtype=metadata.data_type, mode="r")
     size = np.prod(cm.shape)
     assert memmap.size == size, f"wrong data shape for {path}"
     data = memmap.reshape(cm.shape)
@@ -176,7 +176,9 @@ def _read_single_file(path, metadata, time, distance):
         coords=cm,
         attrs=attr.update(coord=None),
     )
-    return patch.select(time=time, distance=distance)
+    out = patch.select(time=time, distance=distance)
+    # Without the copy, changes to the patch would be written to the file.
+    return out.update(data=np.array(out.data))
 
 
 def _load_patches(paths, metadata, time, distance, attr_cls):
-- 
2.43.0


From a35af74548976ae205145dadfbd9b41604f17088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 098/109] fix: a failed dasdae write left partial patches or
 destroyed the one it replaced

---
 dascore/io/dasdae/utils.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index e6e6ae0..4dd56bf 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -18,6 +18,9 @@ from dascore.utils.time import to_int
 # Keys not counted as true kwargs for determining if patch is filtered/selected.
 _KWARG_NON_KEYS = {"file_version", "file_format", "path", "_modified"}
 
+# The name of the group which holds patches while they are being saved.
+_TEMP_GROUP = "_unfinished"
+
 
 # --- Functions for writing DASDAE format
 
@@ -122,13 +125,25 @@ def _get_group_name(patch, wave_group, name):
 
 
 def _save_patch(patch, wave_group, h5, name):
-    """Save the patch to disk."""
-    patch_group = _create_or_get_group(h5, wave_group, name)
-    _save_attrs_and_dims(patch, patch_group)
-    _save_coords(patch, patch_group, h5)
-    # add data
-    if patch.data.shape:
-        _create_or_squash_array(h5, patch_group, "data", patch.data)
+    """
+    Save the patch to disk.
+
+    The patch is only moved to the wave group once it is complete, so errors
+    can neither leave a part of it nor affect a patch it replaces.
+    """
+    if _TEMP_GROUP in h5.root:  # A previous write was killed.
+        h5.remove_node(h5.root, _TEMP_GROUP, recursive=True)
+    try:
+        patch_group = _create_or_get_group(h5, h5.root, _TEMP_GROUP)
+        _save_attrs_and_dims(patch, patch_group)
+        _save_coords(patch, patch_group, h5)
+        # add data
+        if patch.data.shape:
+            _create_or_squash_array(h5, patch_group, "data", patch.data)
+        h5.move_node(patch_group, wave_group, name, overwrite=True)
+    finally:
+        if _TEMP_GROUP in h5.root:
+            h5.remove_node(h5.root, _TEMP_GROUP, recursive=True)
 
 
 # --- Functions for reading
-- 
2.43.0


From d3044d9dcf53298cfad806c4607ae31844ece50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 099/109] fix: dasdae files whose index update failed could not
 be scanned

---
 dascore/utils/hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 8b412d1..8123f9d 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -414,10 +414,11 @@ class HDFPatchIndexManager:
     @property
     def has_index(self) -> bool:
         """Return True if an index table has been written."""
-        expected_node = "/".join([self.namespace, "metadata"])
         with open_hdf5_file(self.path) as h5:
             try:
-                h5.get_node(expected_node)
+                h5.get_node(self._meta_node)
+                # A failed update can leave the metadata without the index.
+                h5.get_node(self._index_node)
             except NoSuchNodeError:
                 return False
             else:
-- 
2.43.0


From 7e81dcd6109277dbf3a30f329c43b67151209cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 100/109] fix: a failed write to an existing pickle file made
 its patches unreadable

---
 dascore/io/pickle/core.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dascore/io/pickle/core.py b/dascore/io/pickle/core.py
index 59e256d..17a9068 100644
--- a/dascore/io/pickle/core.py
+++ b/dascore/io/pickle/core.py
@@ -72,4 +72,16 @@ class PickleIO(FiberIO):
         # Other spools only refer to their data, and aren't recognized.
         if isinstance(patch, dascore.BaseSpool):
             patch = dascore.spool(list(patch))
-        pickle.dump(patch, resource)
+        data = pickle.dumps(patch)
+        # A part of a pickle would make everything in the file unreadable, so
+        # there shouldn't be anything left in a buffer when an error is raised.
+        resource.flush()
+        raw = getattr(resource, "raw", resource)
+        start = raw.seek(0, 2)
+        try:
+            written = 0
+            while written < len(data):
+                written += raw.write(data[written:])
+        except BaseException:
+            raw.truncate(start)
+            raise
-- 
2.43.0


From 985c83731811e077e66d4bc84d31de926cc99b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 101/109] fix: files were left open if closing another one
 raised

---
 dascore/utils/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/io.py b/dascore/utils/io.py
index cd00b07..15bf679 100644
--- a/dascore/utils/io.py
+++ b/dascore/utils/io.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import io
 import typing
+from contextlib import ExitStack
 from functools import cache
 from inspect import isfunction, ismethod
 from pathlib import Path
@@ -148,8 +149,9 @@ class IOResourceManager:
 
     def close_all(self):
         """Close any open file handles."""
-        for handle in self._cache.values():
-            getattr(handle, "close", lambda: None)()
+        with ExitStack() as stack:  # closes all of them even if one raises.
+            for handle in self._cache.values():
+                stack.callback(getattr(handle, "close", lambda: None))
 
     def __enter__(self):
         """Entering context manager."""
-- 
2.43.0


From dc0dbd4324acacc38fe1cac22ce9c0d3b81118c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 102/109] fix: a failed update of the index map lost the
 locations of all indices

---
 dascore/io/indexer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 413edf8..1da7288 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -58,9 +58,15 @@ def _update_index_map(updates, cache_path) -> dict:
     """Update index map to track new index."""
     data = _get_index_map(cache_path=cache_path)
     data.update(updates)
-    Path(cache_path).parent.mkdir(exist_ok=True, parents=True)
-    with open(cache_path, "w") as fi:
-        json.dump(data, fi)
+    path = Path(cache_path)
+    path.parent.mkdir(exist_ok=True, parents=True)
+    # Never leave a partial file; it would lose the locations of all indices.
+    temp_path = path.with_name(f"{path.name}.{os.getpid()}.tmp")
+    try:
+        temp_path.write_text(json.dumps(data))
+        os.replace(temp_path, path)
+    finally:
+        temp_path.unlink(missing_ok=True)
     return data
 
 
-- 
2.43.0


From b462b98299740e968e843431bfe8e6c5a839944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 103/109] fix: calling the methods of a FiberIO left the file
 open if they raised

---
 dascore/io/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 4ce01ac..9cb51fa 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -420,6 +420,7 @@ def _type_caster(func, sig, required_type, arg_name):
         bound = sig.bind(*args, **kwargs)
         new_kw = bound.arguments
         resource = new_kw.pop(arg_name)
+        new_resource = resource
         try:
             new_resource = get_handle_from_resource(resource, required_type)
             new_kw[arg_name] = new_resource
@@ -431,7 +432,7 @@ def _type_caster(func, sig, required_type, arg_name):
                 out = False
             else:
                 raise e
-        else:
+        finally:
             # if a new file handle was created we need to close it now. But it
             # shouldn't close any passed in, that should happen up the stack.
             if new_resource is not resource and hasattr(new_resource, "close"):
-- 
2.43.0


From 181ba7276e4f2387d882292f8da9c0f371bb83ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 104/109] fix: the index map was deleted if it could not be
 read for a moment

---
 dascore/io/indexer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 1da7288..bf3d52d 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -44,7 +44,7 @@ def _get_index_map(cache_path) -> dict:
             with path.open("r") as fi:
                 out = json.load(fi)
         # On rare occasions, the file can become corrupt. See #508.
-        except (OSError, ValueError):
+        except ValueError:
             successful_read = False
     valid = isinstance(out, dict) and all(isinstance(x, str) for x in out.values())
     if not valid or not successful_read:
@@ -154,7 +154,9 @@ class DirectoryIndexer(AbstractIndexer):
             if expected_path.exists():
                 return expected_path
         # else load path map and see if it knows where the index is.
-        path_map = _get_index_map(cache_path=str(self.index_map_path))
+        path_map = {}
+        with suppress(OSError):  # the map can't be read.
+            path_map = _get_index_map(cache_path=str(self.index_map_path))
         if (out := path_map.get(str(data_path))) and Path(out).parent.exists():
             return out
         # if not, set the path to either the data path, if writable,
-- 
2.43.0


From cf795f6c0ccebc8b3f7d7c17fdc69078f2d5ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:53 +0000
Subject: [PATCH 105/109] fix: equality of directory and file spools depended
 on what they had cached

---
 dascore/clients/dirspool.py |  7 ++++++
 dascore/core/spool.py       | 48 +++++++++++++++++++++----------------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index 131a3dd..f25590c 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -72,6 +72,13 @@ class DirectorySpool(DataFrameSpool):
         assert hasattr(self, "indexer"), "indexer not set."
         self._preferred_format = preferred_format
 
+    def _eq_dict(self) -> dict:
+        """Get a dict for equality checks, normalizing lazy state."""
+        out = super()._eq_dict()
+        # What the indexer has cached doesn't matter.
+        out["indexer"] = (str(self.indexer.path), str(self.indexer.index_path))
+        return out
+
     def __rich__(self):
         """Augment rich string directory spool stuff."""
         base = super().__rich__()
diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 9edaf38..6b8300b 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -492,6 +492,30 @@ class DataFrameSpool(BaseSpool):
     _group_columns = ("network", "station", "dims", "data_type", "tag")
     _drop_columns = ("patch",)
 
+    def __eq__(self, other) -> bool:
+        """
+        Equality check which ignores the state of the lazy dataframes.
+
+        The managed dataframes are built and compared directly so that
+        equality does not depend on whether they were constructed yet.
+        """
+        if self is other:
+            return True
+        if not isinstance(other, DataFrameSpool):
+            return super().__eq__(other)
+        return deep_equality_check(self._eq_dict(), other._eq_dict())
+
+    def _eq_dict(self) -> dict:
+        """Get a dict for equality checks, normalizing lazy state."""
+        out = dict(self.__dict__)
+        # Build (if needed) and compare the dataframes.
+        out["_cache"] = {
+            "_df": self._df,
+            "_source_df": self._source_df,
+            "_instruction_df": self._instruction_df,
+        }
+        return out
+
     def _get_df(self):
         """Function to get the current df."""
 
@@ -1006,29 +1030,11 @@ class MemorySpool(DataFrameSpool):
         else:
             yield from super().__iter__()
 
-    def __eq__(self, other) -> bool:
-        """
-        Equality check which ignores the state of the lazy dataframes.
-
-        The managed dataframes are built and compared directly so that
-        equality does not depend on whether they were constructed yet.
-        """
-        if self is other:
-            return True
-        if not isinstance(other, MemorySpool):
-            return super().__eq__(other)
-        return deep_equality_check(self._eq_dict(), other._eq_dict())
-
     def _eq_dict(self) -> dict:
         """Get a dict for equality checks, normalizing lazy state."""
-        out = dict(self.__dict__)
-        # Build (if needed) and compare the dataframes; drop the inputs
-        # they were built from, whose form can differ for equal contents.
-        out["_cache"] = {
-            "_df": self._df,
-            "_source_df": self._source_df,
-            "_instruction_df": self._instruction_df,
-        }
+        out = super()._eq_dict()
+        # Drop the inputs the dataframes were built from, whose form can
+        # differ for equal contents.
         out.pop("_patches", None)
         out.pop("_data", None)
         return out
-- 
2.43.0


From 6ba3bf2ea1e84a6f5262b42ab8c4abaf702191e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:53 +0000
Subject: [PATCH 106/109] fix: selecting from a spool could fail while another
 thread used it

---
 dascore/clients/dirspool.py  | 3 +--
 dascore/clients/filespool.py | 3 +--
 dascore/core/spool.py        | 7 +++++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index f25590c..43040e8 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -6,7 +6,6 @@ The spool uses a simple hdf5 index for keeping track of files.
 
 from __future__ import annotations
 
-import copy
 from pathlib import Path
 
 import pandas as pd
@@ -62,7 +61,7 @@ class DirectorySpool(DataFrameSpool):
         super().__init__(select_kwargs=select_kwargs, merge_kwargs=merge_kwargs)
         # Init file spool from another file spool
         if isinstance(base_path, self.__class__):
-            self.__dict__.update(copy.deepcopy(base_path.__dict__))
+            self._copy_state(base_path)
             return
         # Init file spool from indexer
         elif isinstance(base_path, AbstractIndexer):
diff --git a/dascore/clients/filespool.py b/dascore/clients/filespool.py
index de5a868..b525433 100644
--- a/dascore/clients/filespool.py
+++ b/dascore/clients/filespool.py
@@ -2,7 +2,6 @@
 
 from __future__ import annotations
 
-import copy
 from pathlib import Path
 
 from rich.text import Text
@@ -44,7 +43,7 @@ class FileSpool(DataFrameSpool):
         super().__init__()
         # Init file spool from another file spool
         if isinstance(path, self.__class__):
-            self.__dict__.update(copy.deepcopy(path.__dict__))
+            self._copy_state(path)
             return
         self._path = Path(path)
         if not self._path.exists() or self._path.is_dir():
diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 6b8300b..fe31ca8 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import abc
+import copy
 import itertools
 import warnings
 from collections.abc import Callable, Generator, Mapping, Sequence
@@ -505,6 +506,12 @@ class DataFrameSpool(BaseSpool):
             return super().__eq__(other)
         return deep_equality_check(self._eq_dict(), other._eq_dict())
 
+    def _copy_state(self, other):
+        """Copy the state of another spool, which other threads may be using."""
+        state = dict(other.__dict__)
+        state["_cache"] = dict(other._cache)  # copying runs code between items.
+        self.__dict__.update(copy.deepcopy(state))
+
     def _eq_dict(self) -> dict:
         """Get a dict for equality checks, normalizing lazy state."""
         out = dict(self.__dict__)
-- 
2.43.0


From 3ebba189568e0954a9450728fb952cd0c4efceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:23 +0000
Subject: [PATCH 107/109] fix: formats registered after the first detection
 were never detected

---
 dascore/io/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 9cb51fa..81a7320 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -10,7 +10,7 @@ import os.path
 import warnings
 from collections import defaultdict
 from collections.abc import Generator
-from functools import cache, cached_property, wraps
+from functools import cached_property, wraps
 from pathlib import Path
 from typing import Annotated, Literal, get_type_hints
 
@@ -124,7 +124,7 @@ class _FiberIOManager:
         """
         return pd.Series(get_entry_point_loaders("dascore.fiber_io"))
 
-    @cached_property
+    @property
     def known_formats(self):
         """Return names of known formats."""
         formats = [name.split("__", maxsplit=1)[0] for name in self._eps.index]
@@ -147,7 +147,7 @@ class _FiberIOManager:
             out = self._fiber_io_by_input_type[input_type]
         return out
 
-    @cache
+    @cached_method
     def _get_prioritized_list(self, input_type="file"):
         """Yield a prioritized list of fiber_ios."""
         # must load all plugins before getting list
@@ -211,6 +211,9 @@ class _FiberIOManager:
         self._format_version[forma][ver] = fiberio
         self._fiber_io_by_input_type[fiberio.input_type].add(fiberio)
         self._fiber_io_name_ver.add(id_tuple)
+        # Cached results don't know the new fiber_io. A new dict is needed so
+        # calls still running store their outdated results in the old one.
+        self._cache = {}
 
     @cached_method
     def get_fiberio(
-- 
2.43.0


From 1c67843755b5b98592a45752c757a5e6f8b3d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:40 +0000
Subject: [PATCH 108/109] fix: a format could be used by one thread while
 another had loaded some of its versions

---
 dascore/io/core.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 81a7320..7e3f9fa 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -110,6 +110,8 @@ class _FiberIOManager:
         self._entry_point = entry_point
         self._loaded_eps: set[str] = set()
         self._failed_formats: set[str] = set()
+        # Formats of which all versions have been loaded.
+        self._complete_formats: set[str] = set()
         self._format_version = defaultdict(dict)
         self._extension_list = defaultdict(list)
         # This is a dict of {input_type: (fiberio_name, version)}
@@ -132,8 +134,8 @@ class _FiberIOManager:
 
     @property
     def unloaded_formats(self):
-        """Return names of known formats."""
-        loaded_or_failed = set(self._format_version) | self._failed_formats
+        """Return names of formats which aren't completely loaded yet."""
+        loaded_or_failed = self._complete_formats | self._failed_formats
         return sorted(self.known_formats - loaded_or_failed)
 
     @cached_method
@@ -141,7 +143,7 @@ class _FiberIOManager:
         """Get a set of FiberIO instances that meet input type."""
         if input_type not in self._fiber_io_by_input_type:
             out = set()
-            for input_set in self._fiber_io_by_input_type.values():
+            for input_set in list(self._fiber_io_by_input_type.values()):
                 out |= input_set
         else:
             out = self._fiber_io_by_input_type[input_type]
@@ -174,7 +176,9 @@ class _FiberIOManager:
     @cached_method
     def load_plugins(self, format: str | None = None):
         """Load plugin for specific format or ensure all formats are loaded."""
-        if format is not None and format in self._format_version:
+        # While a module is imported (by any thread) some of its fiber_ios are
+        # registered before others, so having one of them isn't sufficient.
+        if format is not None and format in self._complete_formats:
             return  # already loaded
         if not (unloaded := self.unloaded_formats):
             return
@@ -194,7 +198,9 @@ class _FiberIOManager:
                         "package providing the plugin) may fix it."
                     )
                     warnings.warn(msg, UserWarning, stacklevel=2)
-            if form not in self._format_version:
+            if form in self._format_version:
+                self._complete_formats.add(form)
+            else:
                 self._failed_formats.add(form)
         # The selected format(s) should now be loaded
         assert set(formats).isdisjoint(self.unloaded_formats)
-- 
2.43.0


From 5b011e1e0692aaa4b1bd4e841836a543672ec0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:28 +0000
Subject: [PATCH 109/109] fix: registering a format in two threads at once
 could list it twice

---
 dascore/io/core.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 7e3f9fa..a70dc7e 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -12,6 +12,7 @@ from collections import defaultdict
 from collections.abc import Generator
 from functools import cached_property, wraps
 from pathlib import Path
+from threading import Lock
 from typing import Annotated, Literal, get_type_hints
 
 import numpy as np
@@ -99,6 +100,9 @@ class PatchFileSummary(DascoreBaseModel):
         return self.model_dump()
 
 
+_REGISTER_LOCK = Lock()  # Not part of the managers, which can be copied.
+
+
 class _FiberIOManager:
     """
     A structure for intelligently storing, loading, and return FiberIO objects.
@@ -209,17 +213,19 @@ class _FiberIOManager:
         """Register a new fiber IO to manage."""
         forma, ver = fiberio.name.upper(), fiberio.version
         id_tuple = (forma, ver)
-        if id_tuple in self._fiber_io_name_ver:
-            return
-        self._loaded_eps.add(fiberio.name)
-        for ext in iter(fiberio.preferred_extensions):
-            self._extension_list[ext].append(fiberio)
-        self._format_version[forma][ver] = fiberio
-        self._fiber_io_by_input_type[fiberio.input_type].add(fiberio)
-        self._fiber_io_name_ver.add(id_tuple)
-        # Cached results don't know the new fiber_io. A new dict is needed so
-        # calls still running store their outdated results in the old one.
-        self._cache = {}
+        # Nothing is imported here, so waiting can't cause a deadlock.
+        with _REGISTER_LOCK:
+            if id_tuple in self._fiber_io_name_ver:
+                return
+            self._loaded_eps.add(fiberio.name)
+            for ext in iter(fiberio.preferred_extensions):
+                self._extension_list[ext].append(fiberio)
+            self._fiber_io_by_input_type[fiberio.input_type].add(fiberio)
+            self._format_version[forma][ver] = fiberio
+            self._fiber_io_name_ver.add(id_tuple)
+            # Cached results don't know the new fiber_io. A new dict is needed so
+            # calls still running store their outdated results in the old one.
+            self._cache = {}
 
     @cached_method
     def get_fiberio(
-- 
2.43.0

