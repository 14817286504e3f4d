From 5f95770091eb01d17583fb0c47bc89b9f94e515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:42 +0000
Subject: [PATCH 001/122] fix: use the configured key_pattern when passing
 products on

The pattern was compiled in Manager.__init__, before the configuration had
been read, so a configured key_pattern was never used.
---
 caput/pipeline/_pipeline.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 36d921f..a84217a 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -145,8 +145,14 @@ class Manager(config.Reader):
 
         self._psutil_profiling = psutil_profiling
 
-        # Precompile the key pattern to skip
-        self.key_match = re.compile(self.key_pattern)
+    @property
+    def key_match(self):
+        """Compiled pattern of the product keys to pass on.
+
+        The configuration is read after the manager is created, so this must
+        not be compiled any earlier than when it is used.
+        """
+        return re.compile(self.key_pattern)
 
     @classmethod
     def from_yaml_file(cls, file_name, lint=False, psutil_profiling=False):
-- 
2.43.0


From bb30857e47ab0a85c49e345b62e33d81f600cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:42 +0000
Subject: [PATCH 002/122] fix: do not compare task outputs with inputs by value

The in-place check compared every output with every input using ==, which
raises for products such as numpy arrays and aborts the pipeline.
---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index a84217a..e508309 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -1148,7 +1148,7 @@ class Task(config.Reader):
                 # Let the user know if there's a chance that data has been
                 # modified in-place
                 for opt in out if isinstance(out, tuple | list) else (out,):
-                    if opt in args:
+                    if any(opt is arg for arg in args):
                         logger.debug(
                             f"Task {self!s} may have modified dataset {opt!r} in-place. "
                             "If you encounter unexpected results, check that this is "
-- 
2.43.0


From b7d527cdca925f23ca826fb3dd97e4ddbb022d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:57 +0000
Subject: [PATCH 003/122] fix: normalise negative distributed axes of MPIArray

A negative axis was stored as given, after which redistribution, file output
and most metadata of the array were wrong.
---
 caput/mpiarray.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 69bba87..813ba27 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -606,6 +606,8 @@ class MPIArray(np.ndarray):
         if comm is None:
             comm = mpitools.world
 
+        axis = _normalise_axis(axis, len(global_shape))
+
         # Determine local section of distributed axis
         local_num, local_start, _ = mpitools.split_local(global_shape[axis], comm=comm)
 
@@ -717,12 +719,8 @@ class MPIArray(np.ndarray):
             comm = mpitools.world
 
         # Get axis length, both locally, and globally
-        try:
-            axlen = array.shape[axis]
-        except IndexError as e:
-            raise AxisException(
-                f"Distributed axis {axis} does not exist in global shape {array.shape}"
-            ) from e
+        axis = _normalise_axis(axis, array.ndim)
+        axlen = array.shape[axis]
 
         totallen = mpitools.allreduce(axlen, comm=comm)
 
@@ -764,6 +762,8 @@ class MPIArray(np.ndarray):
         MemoryError
             If there is not enough memory to perform the redistribution.
         """
+        axis = _normalise_axis(axis, self.ndim)
+
         # Check to see if this is the current distributed axis
         if self.axis == axis or self.comm is None:
             return self
@@ -2144,6 +2144,14 @@ def ones(*args: Any, **kwargs: Any) -> MPIArray:
     return arr
 
 
+def _normalise_axis(axis: int, ndim: int) -> int:
+    """Wrap a (possibly negative) axis to an actual position."""
+    if axis < -ndim or axis >= ndim:
+        raise AxisException(f"Distributed axis {axis} not in range ({-ndim}, {ndim - 1})")
+
+    return axis + ndim if axis < 0 else axis
+
+
 def _partition_sel(
     sel: tuple[slice, ...],
     split_axis: int,
-- 
2.43.0


From fa550ed5e90c2a889fb28ccb28e36844983c65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:57 +0000
Subject: [PATCH 004/122] fix: gather MPIArrays that are not C-contiguous
 correctly

The local array was sent in memory order, so gathering a transposed array gave
scrambled data, and a strided one failed.
---
 caput/mpiarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 813ba27..d965bfb 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1552,7 +1552,8 @@ class MPIArray(np.ndarray):
 
             # Send the data
             if self.comm.rank == ri:
-                request = self.comm.Isend(self._prep_buf(self.local_array), dest=rank)
+                sbuf = np.ascontiguousarray(self.local_array)
+                request = self.comm.Isend(self._prep_buf(sbuf), dest=rank)
 
                 # Wait until the data has been sent
                 stat = mpitools.MPI.Status()
-- 
2.43.0


From 08e8eeb0d5ff68c131a835031203fd969d72fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:57 +0000
Subject: [PATCH 005/122] fix: keep the distribution of MPIArray.T and swapaxes

Only transpose() moved the distributed axis along with the data, the other ways
to transpose kept the old axis number and shape metadata.
---
 caput/mpiarray.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index d965bfb..9712e03 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1394,6 +1394,29 @@ class MPIArray(np.ndarray):
 
         return tdata
 
+    @property
+    def T(self) -> MPIArray:
+        """The transposed array, see :py:meth:`.MPIArray.transpose`."""
+        return self.transpose()
+
+    def swapaxes(self, axis1: int, axis2: int) -> MPIArray:
+        """Interchange two axes of the array.
+
+        Parameters
+        ----------
+        axis1, axis2 : int
+            Axes to interchange.
+
+        Returns
+        -------
+        swapped_array : MPIArray
+            :py:class:`MPIArray` view of the original data.
+        """
+        axes = list(range(self.ndim))
+        axes[axis1], axes[axis2] = axes[axis2], axes[axis1]
+
+        return self.transpose(axes)
+
     def reshape(self, *shape: Sequence[int | None], order: str = "C") -> MPIArray:  # noqa: D417
         r"""Reshape the array.
 
-- 
2.43.0


From 007135392d31c59c7a74d031655bde62dde8391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:57 +0000
Subject: [PATCH 006/122] fix: refuse to accumulate over the distributed axis
 given as a negative axis

---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 9712e03..e6d1073 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2023,7 +2023,7 @@ class MPIArray(np.ndarray):
     ) -> tuple[int, 3]:
         """Validate and infer the final distributed axis for a ufunc accumulation."""
         # An accumulation should give an array the same shape as the input.
-        if axis == input_.axis:
+        if axis in (input_.axis, input_.axis - input_.ndim):
             raise AxisException(
                 f"Can not accumulate over the distributed axis (axis={input_.axis})"
             )
-- 
2.43.0


From 16cd6da8e2982a5d0d1f6cb90f51aaf6e0fa56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:57 +0000
Subject: [PATCH 007/122] fix: resolve strided, negative and numpy integer
 indices in global slices

A step was applied from the start of each rank's local section, a negative
index never matched any rank, numpy integers were taken as local indices and a
bare ellipsis failed.
---
 caput/mpiarray.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index e6d1073..161b703 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -304,9 +304,9 @@ class _global_resolver:
         ndim = self.array.ndim
         local_length = self.array.shape[self.axis]
 
-        # Expand a single integer or slice index
-        if isinstance(slobj, int | slice):
-            slobj: SelectionTupleLike = (slobj, Ellipsis)
+        # Expand a single integer, slice or ellipsis index
+        if isinstance(slobj, int | np.integer | slice | EllipsisType):
+            slobj: SelectionTupleLike = (slobj,)
 
         # Add an ellipsis if length of slice object is too short
         if isinstance(slobj, tuple) and len(slobj) < ndim:
@@ -331,8 +331,9 @@ class _global_resolver:
 
         # Process the parallel axis. Calculate the correct index for the
         # containing rank, and set None on all others.
-        if isinstance(slice_list[self.axis], int):
-            index = slice_list[self.axis] - self.offset
+        if isinstance(slice_list[self.axis], int | np.integer):
+            index = int(slice_list[self.axis])
+            index = (index if index >= 0 else index + self.length) - self.offset
             slice_list[self.axis] = (
                 None if (index < 0 or index >= local_length) else index
             )
@@ -367,10 +368,15 @@ class _global_resolver:
             else:
                 stop = local_length
 
-            # If step is defined we don't need to adjust this, but it's no longer a
-            # complete slice
+            # If step is defined it's no longer a complete slice, and the first local
+            # element must be in step with the first element of the global slice
             if step is not None:
+                if step < 0:
+                    raise IndexError("Negative steps on the distributed axis.")
                 fullslice = False
+                gstart = max(start + self.offset, 0) if s.start is not None else 0
+                if gstart < self.offset:
+                    start = (gstart - self.offset) % step
 
             # If there is no data on this node place None on the parallel axis
             if start >= local_length or stop < 0:
-- 
2.43.0


From c0658069b571799903d753afd22a68f0d51889b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:29 +0000
Subject: [PATCH 008/122] fix: reshape MPIArrays with nothing on some ranks

A wildcard length was worked out from the local size, so on ranks that hold
none of the distributed axis it failed or gave a zero length.
---
 caput/mpiarray.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 161b703..6a8f116 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1490,23 +1490,28 @@ class MPIArray(np.ndarray):
         # Fill in the missing value
         local_shape = list(shape)
         new_axis = local_shape.index(None)
-        local_shape[new_axis] = self.local_shape[self.axis]
+        local_shape[new_axis] = 1
 
         # We will check the reshaping in two steps so we can be sure that we are not
         # messing up the axis distribution. In both cases we will *include* the
         # distributed axis in the test as this takes care of cases where we are adding
-        # length-1 axes where there are currently no axes.
+        # length-1 axes where there are currently no axes. It counts as length 1 on
+        # both sides, as there may be nothing of it on this rank.
         # First, we test any axes after the distributed axis...
-        post_shape = self.local_shape[self.axis :]
+        post_shape = (1, *self.local_shape[self.axis + 1 :])
         new_post_shape: list = local_shape[new_axis:]
         new_post_shape: tuple = _check_shapes(post_shape, new_post_shape)
         # Then, we test any axes before the distributed axis...
-        pre_shape = self.local_shape[: (self.axis + 1)]
+        pre_shape = (*self.local_shape[: self.axis], 1)
         new_pre_shape: list = local_shape[: (new_axis + 1)]
         new_pre_shape: tuple = _check_shapes(pre_shape, new_pre_shape)
 
         # Construct the new fleshed out local array shape
-        local_shape = new_pre_shape[:new_axis] + new_post_shape
+        local_shape = (
+            *new_pre_shape[:new_axis],
+            self.local_shape[self.axis],
+            *new_post_shape[1:],
+        )
 
         # Now we actually try the resize...
         new_data = self.local_array.reshape(local_shape, order=order)
-- 
2.43.0


From 3fb9cf18bcdc430e8055d3815581d7ea3c39187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:26 +0000
Subject: [PATCH 009/122] fix: make random list partitions disjoint

Each call drew its own permutation, so the partitions of a list (one per
process) overlapped and missed elements, and a parallel_map using them returned
the wrong results.
---
 caput/util/arraytools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/util/arraytools.py b/caput/util/arraytools.py
index e048953..ece8884 100644
--- a/caput/util/arraytools.py
+++ b/caput/util/arraytools.py
@@ -93,7 +93,9 @@ def partition_list(full_list: list, i: int, n: int, method: str = "con") -> list
         return full_list[i::n]
 
     if method == "rand":
-        choices = np.random.permutation(N)[start:stop]
+        # Every partition must be taken from the same permutation, whichever process
+        # it is made in
+        choices = np.random.default_rng(N).permutation(N)[start:stop]
         return [full_list[i] for i in choices]
 
     raise ValueError(f"Unknown partition method {method}")
-- 
2.43.0


From e534c096965d21344bb3a463d6669a2c9f159493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:37 +0000
Subject: [PATCH 010/122] fix: do not look up paths inside of in-memory
 datasets

Paths descending through a dataset indexed its data, so that membership tests,
lookups and require_* raised IndexError, or returned a field of a structured
dataset.
---
 caput/memdata/_memh5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index a782107..d6b9c3f 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -167,7 +167,10 @@ class _StorageRoot(_Storage):
         # Crawl the path.
         out = self
         for part in path_parts:
-            out = out[part]
+            # Only groups have entries, so do not look inside of datasets
+            if not isinstance(out, _Storage):
+                raise KeyError(key)
+            out = dict.__getitem__(out, part)
         return out
 
     def __eq__(self, other):
-- 
2.43.0


From dc21ed064b227990d4b0a4faacfa38ec8cc269d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:37 +0000
Subject: [PATCH 011/122] fix: accept paths with extra slashes when creating
 and deleting entries

A trailing slash created a dataset with an empty name, could not be deleted, and
ended up in the name of new groups.
---
 caput/memdata/_memh5.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index d6b9c3f..8372d15 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -305,7 +305,7 @@ class _BaseGroup(_MemObjMixin, Mapping):
         if name not in self:
             raise KeyError(f"Key {name} not present.")
 
-        path = posixpath.join(self.name, name)
+        path = format_abs_path(posixpath.join(self.name, name))
         parent_path, name = posixpath.split(path)
         parent = self._storage_root[parent_path]
 
@@ -770,8 +770,8 @@ class MemGroup(_BaseGroup):
         dataset : MemDataset
             The created dataset.
         """
-        parent_name, name = posixpath.split(posixpath.join(self.name, name))
-        parent_name = format_abs_path(parent_name)
+        path = format_abs_path(posixpath.join(self.name, name))
+        parent_name, name = posixpath.split(path)
         parent_storage = self.require_group(parent_name)._get_storage()
 
         # If distributed, synchronise to ensure that we create group collectively
@@ -2116,7 +2116,7 @@ class MemDiskGroup(_BaseGroup):
         :py:exc:`ValueError`
             If the group name is not allowed.
         """
-        path = posixpath.join(self.name, name)
+        path = format_abs_path(posixpath.join(self.name, name))
 
         if not self.group_name_allowed(path):
             raise ValueError(f"Group name {path} not allowed.")
-- 
2.43.0


From cf0e34f823e9036103ad410a877b24f293e83aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:29 +0000
Subject: [PATCH 012/122] fix: clean up after a failed locked write without a
 temporary file

If the write failed before the temporary file was created, or the temporary file
was a directory (zarr), leaving lock_file raised another exception and left the
lock file behind.
---
 caput/memdata/_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_io.py b/caput/memdata/_io.py
index 09bddec..98c34c8 100644
--- a/caput/memdata/_io.py
+++ b/caput/memdata/_io.py
@@ -8,6 +8,8 @@ from __future__ import annotations
 
 import os
 
+from . import fileformats
+
 
 def open_h5py_mpi(f, mode, use_mpi=True, comm=None):
     """Ensure that we have an h5py File object.
@@ -108,10 +110,11 @@ class lock_file:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if self.rank0:
-            # Check if exception was raised and delete the temp file if needed
+            # Check if exception was raised and delete the temp file if needed. It
+            # may be a directory, or may not have been created at all.
             if exc_type is not None:
                 if not self.preserve:
-                    os.remove(self.tmpfile)
+                    fileformats.remove_file_or_dir(self.tmpfile)
             # Otherwise things were successful and we should move the file over
             else:
                 os.rename(self.tmpfile, self.filename)
-- 
2.43.0


From 18d706f20320a706701ea127bdc47d0cd1f792dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:29 +0000
Subject: [PATCH 013/122] fix: write outputs of GroupIOMixin

MemGroup was only imported for type checking, and a file name without a directory
was refused.
---
 caput/pipeline/extensions/_extensions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 047b938..2a1e9f1 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -348,6 +348,8 @@ class GroupIOMixin:
         """
         import h5py
 
+        from ...memdata import MemGroup
+
         file_format = fileformats.check_file_format(filename, file_format, output)
 
         try:
@@ -358,7 +360,7 @@ class GroupIOMixin:
 
         # Ensure parent directory is present.
         dirname = os.path.dirname(filename)
-        if not os.path.isdir(dirname):
+        if dirname and not os.path.isdir(dirname):
             try:
                 os.makedirs(dirname)
             except OSError as e:
-- 
2.43.0


From 2d3510d294e86fd512e0802d964bda9a6d568a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:45 +0000
Subject: [PATCH 014/122] fix: lengths of empty slices when reading into an
 MPIArray

---
 caput/mpiarray.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 6a8f116..c3f3f1b 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2233,8 +2233,7 @@ def _partition_sel(
 def _len_slice(slice_: slice, n: int) -> int:
     """Calculate the output length of a slice applied to an axis of length n."""
     if isinstance(slice_, slice):
-        start, stop, step = slice_.indices(n)
-        return 1 + (stop - start - 1) // step
+        return len(range(*slice_.indices(n)))
 
     return len(slice_)
 
-- 
2.43.0


From 48222e25a918c1d1c801f2f4bb82af6975dfcfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:20 +0000
Subject: [PATCH 015/122] fix: put the zarr lock directory next to the file and
 remove all of it

---
 caput/memdata/_memh5.py      |  2 +-
 caput/memdata/fileformats.py | 19 +++++++++++++++++++
 caput/mpiarray.py            |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 8372d15..d143617 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2822,7 +2822,7 @@ def _distributed_group_to_file(
     if file_format == fileformats.Zarr:
         with (
             fileformats.ZarrProcessSynchronizer(
-                f".{fname}.sync", group.comm
+                fileformats.synchronizer_path(fname), group.comm
             ) as synchronizer,
             zarr.open_group(store=fname, mode="r+", synchronizer=synchronizer) as f,
         ):
diff --git a/caput/memdata/fileformats.py b/caput/memdata/fileformats.py
index 204a04d..f90a6f0 100644
--- a/caput/memdata/fileformats.py
+++ b/caput/memdata/fileformats.py
@@ -361,6 +361,25 @@ class ZarrProcessSynchronizer:
             remove_file_or_dir(self.name)
 
 
+def synchronizer_path(name):
+    """Path of the lock directory used while writing a zarr file in parallel.
+
+    Parameters
+    ----------
+    name : str
+        Name of the zarr file.
+
+    Returns
+    -------
+    path : str
+        A hidden path next to the file.
+    """
+    import os
+
+    base, fname = os.path.split(os.path.normpath(name))
+    return os.path.join(base, f".{fname}.sync")
+
+
 def remove_file_or_dir(name):
     """Remove the file or directory with the given name.
 
diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index c3f3f1b..b5d2960 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1263,7 +1263,7 @@ class MPIArray(np.ndarray):
         if isinstance(f, str):
             if self.comm.rank == 0 and create:
                 zarr.open(store=f, mode=mode)
-            lockfile = f".{f}.sync"
+            lockfile = fileformats.synchronizer_path(f)
             self.comm.Barrier()
             group = zarr.open_group(
                 store=f,
-- 
2.43.0


From 7fa8aa25f3f9863d9a225abdcf2a287f7050f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:20 +0000
Subject: [PATCH 016/122] fix: let hints override that a dataset is distributed

---
 caput/memdata/_memh5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index d143617..1402224 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2899,9 +2899,8 @@ def _distributed_group_from_file(
             else:
                 dset_hints = hints_dict.get(item.name, {})
 
-                distributed = hints and (
-                    dset_hints.get("distributed", False)
-                    or item.attrs.get("__memh5_distributed_dset", False)
+                distributed = hints and dset_hints.get(
+                    "distributed", item.attrs.get("__memh5_distributed_dset", False)
                 )
                 # Check if we are in a distributed dataset
                 if distributed:
-- 
2.43.0


From cd319680fa7342231922f6ea4b5f483f3e7c3dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:20 +0000
Subject: [PATCH 017/122] fix: read index list selections from zarr into an
 MPIArray

---
 caput/mpiarray.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index b5d2960..4cc574e 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1087,8 +1087,10 @@ class MPIArray(np.ndarray):
             if fh.opened:
                 fh.close()
         else:
-            # If using zarr we can directly read the full dataset into the final array
-            dset.get_basic_selection(sel, out=dist_arr.local_array)
+            # If using zarr we can directly read the full dataset into the final array.
+            # There may be nothing to read on this rank.
+            if dist_arr.local_array.size > 0:
+                dset.get_orthogonal_selection(sel, out=dist_arr.local_array)
 
         return dist_arr
 
-- 
2.43.0


From 3d788e9f184d34521c54eee7cd79df22155d6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:02 +0000
Subject: [PATCH 018/122] fix: serialise numpy scalars in dictionary attributes

---
 caput/memdata/_memh5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 1402224..3b27cd0 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2395,8 +2395,8 @@ def copyattrs(a1, a2, convert_strings=False):
             def default(self, o):
                 if isinstance(o, datetime.datetime):
                     return o.isoformat()
-                if isinstance(o, np.number):
-                    return o.data
+                if isinstance(o, np.number | np.bool_):
+                    return o.item()
                 if isinstance(o, np.ndarray):
                     if len(o) == 1:
                         return o.tolist()[0]
-- 
2.43.0


From 9b9885d4eb551d9e89375b779cb9560849b08042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:02 +0000
Subject: [PATCH 019/122] fix: keep array attributes with a single element when
 saving to zarr

---
 caput/memdata/_memh5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 3b27cd0..cf80652 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2415,8 +2415,11 @@ def copyattrs(a1, a2, convert_strings=False):
             isinstance(value, dict | datetime.datetime)
             and isinstance(a2, h5py.AttributeManager)
         ):
-            # Save to JSON converting datetimes.
+            # Save to JSON converting datetimes. Arrays must stay sequences, even if
+            # they have a single element.
             encoder = Memh5JSONEncoder()
+            if isinstance(value, np.ndarray):
+                value = value.tolist()
             value = json_prefix + encoder.encode(value)
         elif isinstance(value, str) and value.startswith(json_prefix):
             # Read from JSON, keep serialised datetimes as strings
-- 
2.43.0


From d878b13cae6a97da64d22663d35999ac84041734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:29 +0000
Subject: [PATCH 020/122] fix: keep subarray fields when converting strings in
 structured types

---
 caput/util/typeutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index 4244302..b2bd736 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -142,7 +142,8 @@ def _convert_dtype(
             # Recursively convert the type
             newtype = _iter_conv(type_) if isinstance(type_, list) else _conv(type_)
 
-            items.append((name, newtype))
+            # Anything after the type is the shape of a subarray field
+            items.append((name, newtype, *item[2:]))
 
         return items
 
-- 
2.43.0


From b61b5641e75781615d125064bcc3e9b33bbdbf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:29 +0000
Subject: [PATCH 021/122] fix: look for strings in nested structured types with
 a single field

---
 caput/util/typeutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index b2bd736..f81d696 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -221,8 +221,10 @@ def has_kind(dt: npt.DTypeLike, kind: npt._DTypeKind) -> bool:
             type_ = item[1]
 
             # Recursively convert the type
-            if isinstance(type_, list) and _iter_conv(type_):
-                return True
+            if isinstance(type_, list):
+                if _iter_conv(type_):
+                    return True
+                continue
             if isinstance(type_, tuple) and type_[0][1] == kind:
                 return True
             if type_[1] == kind:
-- 
2.43.0


From e795406c71f7d101a702f9e3dae08f8c64a61878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:08 +0000
Subject: [PATCH 022/122] fix: save data that lives on disk to another file

---
 caput/memdata/_memh5.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index cf80652..8d1f37c 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2248,8 +2248,15 @@ class MemDiskGroup(_BaseGroup):
         if (zarr_available and isinstance(self._data, zarr.Group)) or isinstance(
             self._data, h5py.File
         ):
+            kwargs.setdefault("mode", "w")
             with file_format.open(filename, **kwargs) as f:
-                deep_group_copy(self._data, f)
+                deep_group_copy(
+                    self._data,
+                    f,
+                    convert_attribute_strings=convert_attribute_strings,
+                    convert_dataset_strings=convert_dataset_strings,
+                    file_format=file_format,
+                )
         else:
             self._data.to_file(
                 filename,
@@ -2421,7 +2428,12 @@ def copyattrs(a1, a2, convert_strings=False):
             if isinstance(value, np.ndarray):
                 value = value.tolist()
             value = json_prefix + encoder.encode(value)
-        elif isinstance(value, str) and value.startswith(json_prefix):
+        elif (
+            isinstance(value, str)
+            and value.startswith(json_prefix)
+            and not isinstance(a2, h5py.AttributeManager)
+            and not (zarr_available and isinstance(a2, zarr.attrs.Attributes))
+        ):
             # Read from JSON, keep serialised datetimes as strings
             value = json.loads(value[len(json_prefix) :])
         return value
-- 
2.43.0


From 789c88cfeee91f9ef84657e18f7a1784d44d09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:08 +0000
Subject: [PATCH 023/122] fix: load open zarr groups into memory

---
 caput/memdata/_memh5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 8d1f37c..d531b81 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1917,9 +1917,9 @@ class MemDiskGroup(_BaseGroup):
         lockfile = None
 
         if not ondisk:
-            if (zarr_available and isinstance(file_, zarr.Group)) or isinstance(
-                file_, h5py.Group
-            ):
+            if zarr_available and isinstance(file_, zarr.Group):
+                file_ = file_.store.path
+            elif isinstance(file_, h5py.Group):
                 file_ = file_.filename
 
             kwargs.pop("mode", None)
-- 
2.43.0


From 1dbf79047c65f69735219b3d0647bda628a02275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:08 +0000
Subject: [PATCH 024/122] fix: fall back to the class used for loading if the
 saved one is missing

---
 caput/memdata/_memh5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index d531b81..5a1e7c1 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1718,8 +1718,9 @@ class MemDiskGroup(_BaseGroup):
         # Try to get a reference to the requested class (warn if we cannot find it)
         try:
             new_cls = importtools.import_class(clspath)
-        except (ImportError, KeyError):
+        except (ImportError, KeyError, AttributeError):
             warnings.warn(f"Could not import memh5 subclass {clspath}")
+            return cls
 
         # Check that it is a subclass of MemDiskGroup
         if not issubclass(new_cls, MemDiskGroup):
-- 
2.43.0


From dcd46dcc7d0ed44c467365a853fa18a5eaf38bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:19 +0000
Subject: [PATCH 025/122] fix: apply selections and allow datasets on disk when
 copying into a file

---
 caput/memdata/_memh5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 5a1e7c1..7cd1c55 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2590,10 +2590,12 @@ def deep_group_copy(
             else:
                 data = typeutils.ensure_unicode(data)
 
-        elif to_file:
+        elif to_file and typeutils.has_unicode(data.dtype):
             # If we shouldn't convert we at least need to ensure there aren't any
             # Unicode characters before writing
-            data = typeutils.check_unicode(entry)
+            raise TypeError(
+                f'Can not write dataset "{dset.name!s}" of unicode type into HDF5.'
+            )
 
         dset_args = {"dtype": data.dtype, "shape": data.shape, "data": data}
         # If we're copying memory to memory we can allow distributed datasets
-- 
2.43.0


From b3475d96621a121b8252138d84d062e1a1fe15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:59 +0000
Subject: [PATCH 026/122] fix: do not keep chunks larger than the selected data
 when copying

---
 caput/memdata/_memh5.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 7cd1c55..8dd3c54 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2606,8 +2606,8 @@ def deep_group_copy(
 
         return dset_args
 
-    def _prepare_compression_args(dset: DatasetLike) -> dict:
-        """Get compression options and chunking for this dataset.
+    def _prepare_compression_args(dset: DatasetLike, shape: tuple) -> dict:
+        """Get compression options and chunking to store this dataset with a given shape.
 
         Returns: dict(compression, compression_opts, chunks)
         """
@@ -2626,7 +2626,11 @@ def deep_group_copy(
             compression_kwargs = fileformats.HDF5.compression_kwargs(
                 compression=compression, compression_opts=compression_opts
             )
-        compression_kwargs["chunks"] = getattr(dset, "chunks", None)
+        # Chunks can't be larger than the data, which may be only a selection
+        chunks = getattr(dset, "chunks", None)
+        if chunks is not None:
+            chunks = tuple(map(min, zip(chunks, shape))) if 0 not in shape else None
+        compression_kwargs["chunks"] = chunks
 
         return compression_kwargs
 
@@ -2686,7 +2690,7 @@ def deep_group_copy(
             # Copy over this dataset. `_prepare_dataset` will make
             # a deep copy of the dataset
             dset_args = _prepare_dataset(entry)
-            compression_kwargs = _prepare_compression_args(entry)
+            compression_kwargs = _prepare_compression_args(entry, dset_args["shape"])
 
             g2.create_dataset(
                 key,
-- 
2.43.0


From f29ed429d10c3d8023a2040e44beeeb9f89d9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:18 +0000
Subject: [PATCH 027/122] fix: save structured data with strings that was read
 from HDF5 to zarr

---
 caput/memdata/_memh5.py |  4 ++++
 caput/util/typeutils.py | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 8dd3c54..1973ae2 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2597,6 +2597,10 @@ def deep_group_copy(
                 f'Can not write dataset "{dset.name!s}" of unicode type into HDF5.'
             )
 
+        # The string encodings of data read from HDF5 can't be stored in zarr
+        if to_file and file_format == fileformats.Zarr and data.dtype.names:
+            data = data.view(typeutils.strip_string_metadata(data.dtype))
+
         dset_args = {"dtype": data.dtype, "shape": data.shape, "data": data}
         # If we're copying memory to memory we can allow distributed datasets
         if not to_file and isinstance(dset, MemDatasetDistributed):
diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index f81d696..abe2819 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -154,6 +154,40 @@ def _convert_dtype(
     return np.dtype(_iter_conv(dt.descr))
 
 
+def strip_string_metadata(dt: np.dtype) -> np.dtype:
+    """Remove metadata from the string fields of a structured type.
+
+    :py:mod:`h5py` attaches the string encoding to the types of the strings it reads,
+    which can not be represented in other file formats.
+
+    Parameters
+    ----------
+    dt : dtype
+        Data type to convert.
+
+    Returns
+    -------
+    datatype : dtype
+        An equal datatype without metadata on any strings.
+    """
+    if dt.subdtype is not None:
+        base, shape = dt.subdtype
+        return np.dtype((strip_string_metadata(base), shape))
+
+    if dt.names:
+        fields = [dt.fields[name] for name in dt.names]
+        return np.dtype(
+            {
+                "names": dt.names,
+                "formats": [strip_string_metadata(f[0]) for f in fields],
+                "offsets": [f[1] for f in fields],
+                "itemsize": dt.itemsize,
+            }
+        )
+
+    return np.dtype(dt.str) if dt.kind == "S" else dt
+
+
 def check_byteorder(arr_byteorder: np._ByteOrderChar) -> bool:
     """Test if a native byteorder; if not, check if byteorder matches the architecture.
 
-- 
2.43.0


From ea1ea6dc3b4147d14d7a6f9e4c4388baa04350bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:18 +0000
Subject: [PATCH 028/122] fix: keep bitshuffle compression when loading from
 HDF5

---
 caput/memdata/_memh5.py       |  3 +--
 caput/memdata/fileformats.py  | 34 ++++++++++++++++++++++++++++++++++
 caput/memdata/fileformats.pyi |  2 ++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 1973ae2..4820391 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2615,8 +2615,7 @@ def deep_group_copy(
 
         Returns: dict(compression, compression_opts, chunks)
         """
-        compression = getattr(dset, "compression", None)
-        compression_opts = getattr(dset, "compression_opts", None)
+        compression, compression_opts = fileformats.HDF5.get_compression(dset)
 
         if to_file:
             # massage args according to file format
diff --git a/caput/memdata/fileformats.py b/caput/memdata/fileformats.py
index f90a6f0..c22d33a 100644
--- a/caput/memdata/fileformats.py
+++ b/caput/memdata/fileformats.py
@@ -239,6 +239,40 @@ class HDF5(FileFormat):
 
         return {}
 
+    @classmethod
+    def get_compression(cls, dset):
+        """Find the compression arguments a dataset was created with.
+
+        :py:mod:`h5py` does not identify filters that it doesn't provide itself, so look
+        for bitshuffle in the dataset properties. Any other such filters are dropped.
+
+        Parameters
+        ----------
+        dset : Any
+            Dataset-like object.
+
+        Returns
+        -------
+        compression : str | int | None
+            Name or identifier of the compression filter.
+        compression_opts : Any
+            Options for the filter.
+        """
+        compression = getattr(dset, "compression", None)
+        compression_opts = getattr(dset, "compression_opts", None)
+
+        if compression == "unknown" and isinstance(dset, h5py.Dataset):
+            compression = None
+            plist = dset.id.get_create_plist()
+
+            for ii in range(plist.get_nfilters()):
+                code, _, values, _ = plist.get_filter(ii)
+                # The filter puts its version and the element size in front
+                if cls.compression and code == H5FILTER and len(values) >= 5:
+                    compression, compression_opts = H5FILTER, tuple(values[3:5])
+
+        return compression, compression_opts
+
 
 class Zarr(FileFormat):
     """Interface for using zarr file format from caput."""
diff --git a/caput/memdata/fileformats.pyi b/caput/memdata/fileformats.pyi
index 55dd040..b280cd7 100644
--- a/caput/memdata/fileformats.pyi
+++ b/caput/memdata/fileformats.pyi
@@ -41,6 +41,8 @@ class HDF5(FileFormat):
         compression_opts: tuple[int, int] | None = None,
         compressor: Codec | None = None,
     ) -> dict: ...
+    @classmethod
+    def get_compression(cls, dset: Any) -> tuple[str | int | None, Any]: ...
 
 #
 class Zarr(FileFormat):
-- 
2.43.0


From fe98bfe2321650dab8bafa245998cc929ca3b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:57 +0000
Subject: [PATCH 029/122] fix: distribute a common dataset along the requested
 axis

dataset_common_to_distributed always sliced the first axis of the data,
whatever axis it was asked to distribute over.
---
 caput/memdata/_memh5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 4820391..b33211e 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -945,7 +945,8 @@ class MemGroup(_BaseGroup):
         md = mpiarray.MPIArray(
             dset_shape, axis=distributed_axis, comm=self.comm, dtype=dset_type
         )
-        md.local_array[:] = dset[sd:ed].copy()
+        axis = md.axis
+        md.local_array[:] = dset[(slice(None),) * axis + (slice(sd, ed),)]
         attr_dict = {}  # temporarily save attrs of this dataset
         copyattrs(dset.attrs, attr_dict)
         del dset
-- 
2.43.0


From 047787b03e6d068bbb3aadcb2431ceb273d6ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:57 +0000
Subject: [PATCH 030/122] fix: gather_local on a single process

numpy needs a tuple of slices; a list of slices is an IndexError.
---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fc4521c..fb1934a 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -608,7 +608,7 @@ def gather_local(
 
     if comm is None or comm.size == 1:
         # only one process
-        slc = [slice(s, s + n) for (s, n) in zip(local_start, local_size)]
+        slc = tuple(slice(s, s + n) for (s, n) in zip(local_start, local_size))
         global_array[slc] = local_array.copy()
     else:
         local_sizes = comm.gather(local_size, root=root)
-- 
2.43.0


From d7e942633ca8182d778237e2c4d8f29362ba520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:57 +0000
Subject: [PATCH 031/122] fix: skip out-of-range negative axes in
 Container.redistribute

---
 caput/containers/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 07b8ed9..d411cbc 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -251,7 +251,7 @@ class Container(memdata.MemDiskGroup):
                             axis = naxis + axis
 
                     # Check axis is within bounds
-                    if axis >= naxis:
+                    if not 0 <= axis < naxis:
                         continue
 
                     # Excellent, found a matching axis, time to redistribute
-- 
2.43.0


From b05c8044bfb0e70ed6aed55faafb066ebaf92b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:28 +0000
Subject: [PATCH 032/122] fix: convert distributed datasets of structured type
 to common ones

gather_local only knows the basic MPI types, so use MPIArray.allgather,
which supports any numpy dtype.
---
 caput/memdata/_memh5.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index b33211e..7d52472 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -989,14 +989,8 @@ class MemGroup(_BaseGroup):
         dset_chunks = dset.chunks
         dset_compression = dset.compression
         dset_compression_opts = dset.compression_opts
-        global_array = np.zeros(dset_shape, dtype=dset_type)
-        local_start = dset.local_offset
-        nproc = 1 if self.comm is None else self.comm.size
         # gather local distributed dataset to a global array for all procs
-        for rank in range(nproc):
-            mpitools.gather_local(
-                global_array, dset.local_data, local_start, root=rank, comm=self.comm
-            )
+        global_array = dset[:].allgather()
         attr_dict = {}  # temporarily save attrs of this dataset
         copyattrs(dset.attrs, attr_dict)
         del dset
-- 
2.43.0


From f4adb46c856388ac7f045b0256c9d49a7fb97305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:28 +0000
Subject: [PATCH 033/122] fix: merge container specifications in method
 resolution order

In a diamond, a class without a specification of its own reapplied the one
it inherits over the overrides of its siblings.
---
 caput/containers/_core.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index d411cbc..a00c023 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -599,13 +599,9 @@ class ContainerPrototype(Container):
         # which get added to a temporary dict. We go over the reversed MRO so
         # that the `ddict.update` overrides datasets in base classes.`
         for cls in inspect.getmro(cls)[::-1]:
-            try:
-                # NOTE: this is a little ugly as the following line will drop
-                # down to base classes if dataset_spec isn't present, and thus
-                # try and `update` with the same values again.
-                ddict.update(cls._dataset_spec)
-            except AttributeError:
-                pass
+            # NOTE: only look at the specs this class defines itself, otherwise a class
+            # without one would reapply that of its base over its other derived classes
+            ddict.update(cls.__dict__.get("_dataset_spec", {}))
 
         # Ensure that the dataset_spec is the same order on all ranks
         return {k: ddict[k] for k in sorted(ddict)}
@@ -802,14 +798,9 @@ class TableSpec(ContainerPrototype):
     @property
     def table_spec(self) -> dict[str, dict]:
         """Return a copy of the fully resolved table specifiction as a dictionary."""
-        import inspect
-
         tdict = {}
 
         for cls in inspect.getmro(self.__class__)[::-1]:
-            try:
-                tdict.update(cls._table_spec)
-            except AttributeError:
-                pass
+            tdict.update(cls.__dict__.get("_table_spec", {}))
 
         return tdict
-- 
2.43.0


From 96c367bc9195764338b6128d70b48cb28eb97bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:01 +0000
Subject: [PATCH 034/122] fix: copy datasets between containers distributed in
 different ways

dsets_from assigned each rank's part of the source as it is, which fails, or
broadcasts a part over the whole dataset, when the new dataset is not
distributed over the same axis as the source.
---
 caput/containers/_core.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index a00c023..8ee340b 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -441,7 +441,21 @@ class ContainerPrototype(Container):
                 if name not in self:
                     self.add_dataset(name)
 
-                self[name][:] = source_dset[:]
+                dest_dset = self[name]
+                data = source_dset[:]
+
+                # The two datasets may not be distributed in the same way
+                if isinstance(source_dset, memdata.MemDatasetDistributed):
+                    if isinstance(dest_dset, memdata.MemDatasetDistributed):
+                        data = data.redistribute(dest_dset.distributed_axis)
+                    else:
+                        data = data.allgather()
+                elif isinstance(dest_dset, memdata.MemDatasetDistributed):
+                    local_data = dest_dset[:]
+                    sel = (slice(None),) * local_data.axis
+                    data = data[(*sel, local_data.local_bounds)]
+
+                dest_dset[:] = data
 
         # Copy over attributes
         if attrs_from is not None:
-- 
2.43.0


From 23f9d21b86cb45f84dad46017b950890cddc7328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:35 +0000
Subject: [PATCH 035/122] fix: save distributed structured data that was read
 from HDF5 to zarr

---
 caput/memdata/_memh5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 7d52472..9793148 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2566,7 +2566,10 @@ def deep_group_copy(
             # If we get here, we should create the dataset, but not write out
             # any data into it (i.e. return None)
             distributed_dset_names.append(dset.name)
-            return {"dtype": dset.dtype, "shape": dset.shape, "data": None}
+            dtype = dset.dtype
+            if file_format == fileformats.Zarr and dtype.names:
+                dtype = typeutils.strip_string_metadata(dtype)
+            return {"dtype": dtype, "shape": dset.shape, "data": None}
 
         # Extract the data for the selection
         data = dset[selection]
-- 
2.43.0


From aa35845b1bc9a0fc755eb122b66c7bd91100cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:21 +0000
Subject: [PATCH 036/122] fix: keep the chunks of distributed datasets when
 copying in memory

Chunks are global, so limit them by the global shape of the data.
---
 caput/memdata/_memh5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 9793148..ae1783f 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2691,7 +2691,8 @@ def deep_group_copy(
             # Copy over this dataset. `_prepare_dataset` will make
             # a deep copy of the dataset
             dset_args = _prepare_dataset(entry)
-            compression_kwargs = _prepare_compression_args(entry, dset_args["shape"])
+            shape = getattr(dset_args["data"], "global_shape", dset_args["shape"])
+            compression_kwargs = _prepare_compression_args(entry, shape)
 
             g2.create_dataset(
                 key,
-- 
2.43.0


From f85971bdc7ef8ff7a5890896cb39bc9cd9a5a211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:41 +0000
Subject: [PATCH 037/122] fix: allow index selections along several axes when
 loading files

With lists of indices for more than one axis of a dataset, zarr selected
only the paired up elements, and h5py failed.
---
 caput/memdata/_memh5.py |  4 ++--
 caput/mpiarray.py       | 23 +++++++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index ae1783f..1f4bbd0 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2572,7 +2572,7 @@ def deep_group_copy(
             return {"dtype": dtype, "shape": dset.shape, "data": None}
 
         # Extract the data for the selection
-        data = dset[selection]
+        data = mpiarray._read_selection(dset, selection)
         # If copying memory to memory, make a deep copy of this dataset
         # We don't need to make a copy if writing to disk
         if not to_file:
@@ -2955,7 +2955,7 @@ def _distributed_group_from_file(
                         if selection is None:
                             cdata = item[:]
                         else:
-                            cdata = item[selection]
+                            cdata = mpiarray._read_selection(item, selection)
 
                         # Convert ascii string back to unicode if requested
                         if convert_dataset_strings:
diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 4cc574e..eb4288f 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1072,7 +1072,8 @@ class MPIArray(np.ndarray):
                     islice, fslice = _partition_sel(
                         sel, split_axis, dshape[split_axis], part
                     )
-                    if dtype.byteorder == "=":
+                    nlists = sum(not isinstance(s, slice) for s in islice)
+                    if dtype.byteorder == "=" and nlists < 2:
                         # Native dtype so use `read_direct` to limit copies. This won't
                         # necessarily always be faster, but it should never be slower
                         dset.read_direct(dist_arr, islice, fslice)
@@ -1082,7 +1083,7 @@ class MPIArray(np.ndarray):
                         # do the conversion. I haven't quite nailed down the cases where
                         # this happens, so for now just do it most of the time.
                         # https://github.com/h5py/h5py/issues/1851
-                        dist_arr[fslice] = dset[islice]
+                        dist_arr[fslice] = _read_selection(dset, islice)
 
             if fh.opened:
                 fh.close()
@@ -2283,6 +2284,24 @@ def _expand_sel(sel: SelectionLike | None, naxis: int) -> list[slice | int]:
     return list(sel)
 
 
+def _read_selection(dset: Any, sel: SelectionLike) -> npt.ArrayLike:
+    """Read a selection of a dataset in a file, with an index list for any axis.
+
+    Files only support one list of indices (h5py raises an error for several and zarr
+    pairs up their indices), so any others need to be applied after reading.
+    """
+    if not isinstance(sel, tuple):
+        return dset[sel]
+
+    lists = [i for i, s in enumerate(sel) if isinstance(s, list | tuple | np.ndarray)]
+    data = dset[tuple(slice(None) if i in lists[1:] else s for i, s in enumerate(sel))]
+
+    for i in lists[1:]:
+        data = np.take(data, sel[i], axis=i)
+
+    return data
+
+
 def _apply_sel(
     arr: npt.ArrayLike,
     sel: slice | tuple[int, ...] | list[int],
-- 
2.43.0


From 0133715877c4aebfde77a1be092124f9d7ba0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:29 +0000
Subject: [PATCH 038/122] fix: let selections on load know about the tables of
 a container

---
 caput/containers/_core.py | 46 ++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 8ee340b..477bff6 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -764,20 +764,19 @@ class TableSpec(ContainerPrototype):
 
     _table_spec: ClassVar[dict[str, dict]] = {}
 
-    def __init__(self, *args: tuple, **kwargs: dict):
-        # Get the dataset specifiction for this class (not any base classes), or
-        # an empty dictionary if it does not exist. Do the same for the axes entry..
-        dspec = self.__class__.__dict__.get("_dataset_spec", {})
-        axes = self.__class__.__dict__.get("_axes", ())
+    @classmethod
+    def _class_dataset_spec(cls) -> dict[str, dict]:
+        """Get the inherited set of dataset spec entries, including the tables."""
+        dspec = super()._class_dataset_spec()
 
         # Iterate over all table_spec entries and construct dataset specifications for
         # them.
-        for name, spec in self.table_spec.items():
+        for name, spec in cls._class_table_spec().items():
             # Get the specifieid axis or if not present create a unique one for
             # this table entry
             axis = spec.get("axis", name + "_index")
 
-            dtype = self._create_dtype(spec["columns"])
+            dtype = cls._create_dtype(spec["columns"])
 
             _dataset = {
                 "axes": [axis],
@@ -789,16 +788,22 @@ class TableSpec(ContainerPrototype):
 
             dspec[name] = _dataset
 
-            if axis not in axes:
-                axes += (axis,)
+        # Ensure that the dataset_spec is the same order on all ranks
+        return {k: dspec[k] for k in sorted(dspec)}
 
-        self._dataset_spec = dspec
-        self._axes = axes
+    @classmethod
+    def _class_axes(cls) -> tuple[str, ...]:
+        """Get the axes of the container and its base classes, including the tables."""
+        axes = set(super()._class_axes())
 
-        super().__init__(*args, **kwargs)
+        for name, spec in cls._class_table_spec().items():
+            axes.add(spec.get("axis", name + "_index"))
+
+        return tuple(sorted(axes))
 
+    @staticmethod
     def _create_dtype(
-        self, columns: dict[str, npt.DTypeLike]
+        columns: dict[str, npt.DTypeLike],
     ) -> list[tuple[str, np.dtype]]:
         """Take a dictionary of columns and turn into the appropriate compound data type."""
         dt = []
@@ -809,12 +814,17 @@ class TableSpec(ContainerPrototype):
 
         return dt
 
-    @property
-    def table_spec(self) -> dict[str, dict]:
-        """Return a copy of the fully resolved table specifiction as a dictionary."""
+    @classmethod
+    def _class_table_spec(cls) -> dict[str, dict]:
+        """Get the inherited set of table spec entries."""
         tdict = {}
 
-        for cls in inspect.getmro(self.__class__)[::-1]:
-            tdict.update(cls.__dict__.get("_table_spec", {}))
+        for c in inspect.getmro(cls)[::-1]:
+            tdict.update(c.__dict__.get("_table_spec", {}))
 
         return tdict
+
+    @property
+    def table_spec(self) -> dict[str, dict]:
+        """Return a copy of the fully resolved table specifiction as a dictionary."""
+        return self._class_table_spec()
-- 
2.43.0


From 5a58ac0eb978d97e925a0b33d094645bd28d5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:12 +0000
Subject: [PATCH 039/122] fix: clean up the selections of copy_datasets_filter

---
 caput/containers/_util.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 18560c8..3fded23 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -91,16 +91,20 @@ def copy_datasets_filter(
             f"but selections for {list(selection.keys())}."
         )
 
-    # Try to clean up selections
+    # Try to clean up selections, without changing the dictionary of the caller
+    selection = dict(selection)
     for ax in list(selection):
         sel = selection[ax]
+        if isinstance(sel, np.ndarray) and sel.dtype != bool:
+            selection[ax] = sel = sel.tolist()
         # Remove any unnecessary slices
-        if sel == slice(None):
-            del selection[ax]
+        if isinstance(sel, slice):
+            if sel == slice(None):
+                del selection[ax]
         # Convert any indexed selections to slices where possible
-        elif type(sel) in {list, tuple, np.ndarray}:
-            if list(sel) == list(range(sel[0], sel[-1])):
-                selection[ax] = slice(sel[0], sel[-1])
+        elif isinstance(sel, list | tuple) and len(sel) > 0 and sel[0] >= 0:
+            if list(sel) == list(range(sel[0], sel[-1] + 1)):
+                selection[ax] = slice(sel[0], sel[-1] + 1)
 
     stack = [source]
 
-- 
2.43.0


From 33c6c8693333ff70cc16556a300bf5bd1d281933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:12 +0000
Subject: [PATCH 040/122] fix: keep the distribution of the source in
 copy_datasets_filter

---
 caput/containers/_util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 3fded23..5258c80 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -130,6 +130,8 @@ def copy_datasets_filter(
 
         dest_dset = dest[item.name]
 
+        data = item[:]
+
         # Make sure that both datasets are distributed to the same axis
         if isinstance(item, _memh5.MemDatasetDistributed):
             if not isinstance(dest_dset, _memh5.MemDatasetDistributed):
@@ -157,12 +159,13 @@ def copy_datasets_filter(
                     )
                 new_ax_id = item_axes.index(ax_priority[-1])
 
-            # Make sure both datasets are distributed to the same axis.
-            item.redistribute(new_ax_id)
+            # Make sure both datasets are distributed to the same axis, leaving the
+            # source as it is.
+            data = data.redistribute(new_ax_id)
             dest_dset.redistribute(new_ax_id)
 
         # Apply the selections
-        arr = item[:].view(np.ndarray)
+        arr = data.view(np.ndarray)
 
         for ax, sel in selection.items():
             try:
-- 
2.43.0


From 36c30e3a327f91bbd83da81a916159f29fbe3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:12 +0000
Subject: [PATCH 041/122] fix: copy common datasets into distributed ones in
 copy_datasets_filter

---
 caput/containers/_util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 5258c80..2fe443e 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -174,11 +174,19 @@ def copy_datasets_filter(
                 continue
             arr = _apply_sel(arr, sel, ax_ind)
 
+        # A common dataset may go into a distributed one, which only takes its own part
+        if isinstance(
+            dest_dset, _memh5.MemDatasetDistributed
+        ) and not isinstance(item, _memh5.MemDatasetDistributed):
+            arr = _apply_sel(
+                arr, dest_dset[:].local_bounds, int(dest_dset.distributed_axis)
+            )
+
         dest_dset[:] = arr[:]
 
         # also copy attritutes
         _memh5.copyattrs(item.attrs, dest_dset.attrs)
 
-        if isinstance(dest_dset, _memh5.MemDatasetDistributed):
+        if isinstance(item, _memh5.MemDatasetDistributed):
             # Redistribute back to the original axis
             dest_dset.redistribute(original_ax_id)
-- 
2.43.0


From 9eb3f3173b11da51c94a8080ad956bc9bd95a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:13 +0000
Subject: [PATCH 042/122] fix: accept selections of a single axis when loading
 distributed datasets

---
 caput/memdata/_memh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 1f4bbd0..78e4b89 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2934,6 +2934,10 @@ def _distributed_group_from_file(
                         else item.attrs.get("__memh5_distributed_axis", 0)
                     )
 
+                    # A selection of the first axis only may be given on its own
+                    if selection is not None and not isinstance(selection, tuple):
+                        selection = (selection,)
+
                     # Read from file into MPIArray
                     pdata = mpiarray.MPIArray.from_file(
                         fname,
-- 
2.43.0


From 8e49d663fbb3d10ef42dda70a6e1d34b008ff8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:52 +0000
Subject: [PATCH 043/122] fix: do not change the start and stop mappings given
 to concatenate

---
 caput/containers/tod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index dd2df28..002e5c6 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -377,11 +377,13 @@ def concatenate(
     first_data = data_list[0]
     concatenation_axes = first_data.time_axes
 
-    # Ensure *start* and *stop* are mappings.
+    # Ensure *start* and *stop* are mappings, which are not those of the caller as they
+    # get changed below.
     if not hasattr(start, "__getitem__"):
         start = dict.fromkeys(concatenation_axes, start)
     if not hasattr(stop, "__getitem__"):
         stop = dict.fromkeys(concatenation_axes, stop)
+    start, stop = dict(start), dict(stop)
 
     # Get the length of all axes for which we are concatenating.
     concat_index_lengths = dict.fromkeys(concatenation_axes, 0)
-- 
2.43.0


From 54255c046477c8bc2e3556b695916e9ac8561e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:52 +0000
Subject: [PATCH 044/122] fix: concatenate over ranges that reach beyond the
 data or are empty

---
 caput/containers/tod.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 002e5c6..86358a8 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -501,15 +501,19 @@ def concatenate(
                 current_concat_index_start[axis] + current_concat_index_n[axis]
                 <= start[axis]
             )
-            if axis_finished or axis_not_started:
-                continue
             axis_rate = 1  # Place holder for eventual implementation.
-            in_slice, out_slice = _get_in_out_slice(
-                start[axis] * axis_rate,
-                stop[axis] * axis_rate,
-                current_concat_index_start[axis] * axis_rate,
-                current_concat_index_n[axis] * axis_rate,
-            )
+            if stop[axis] == start[axis]:
+                # Nothing to copy, but the (empty) output dataset is needed.
+                in_slice = out_slice = slice(0, 0)
+            elif axis_finished or axis_not_started:
+                continue
+            else:
+                in_slice, out_slice = _get_in_out_slice(
+                    start[axis] * axis_rate,
+                    stop[axis] * axis_rate,
+                    current_concat_index_start[axis] * axis_rate,
+                    current_concat_index_n[axis] * axis_rate,
+                )
 
             # Filter the dataset.
             if filter_time_slice:
@@ -724,13 +728,16 @@ def _start_stop_inds(
     if start is None:
         start = 0
     elif start < 0:
-        start = ntime + start
+        start = max(ntime + start, 0)
     if stop is None:
         stop = ntime
     elif stop < 0:
         stop = ntime + stop
     elif stop > ntime:
         stop = ntime
+    # Like for slices, there is nothing in the range if it starts after its end
+    start = min(start, ntime)
+    stop = max(start, stop)
     return start, stop
 
 
-- 
2.43.0


From f044dd2471002abf7c5bf8a35e68075a6fc4ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:52 +0000
Subject: [PATCH 045/122] fix: write the index maps when concatenating into a
 file

---
 caput/containers/tod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 86358a8..f5695fd 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -470,7 +470,7 @@ def concatenate(
                 current_concat_index_start[axis],
                 current_concat_index_n[axis],
             )
-            out.index_map[axis][out_slice] = (
+            out._data["index_map"][axis][out_slice] = (
                 typeutils.ensure_unicode(data.index_map[axis][in_slice])
                 if convert_attribute_strings
                 else data.index_map[axis][in_slice]
-- 
2.43.0


From c87c513dec8b03fc5156b3ea9ad897d557fd1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:52 +0000
Subject: [PATCH 046/122] fix: copy the history when concatenating

---
 caput/containers/tod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index f5695fd..f74e4d4 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -433,6 +433,13 @@ def concatenate(
             )
         memdata.copyattrs(first_data.index_attrs[axis], out.index_attrs[axis])
 
+    # Copy over the history.
+    memdata.copyattrs(
+        first_data._data["history"].attrs,
+        out._data["history"].attrs,
+        convert_strings=convert_attribute_strings,
+    )
+
     # Copy over the reverse maps.
     for axis, reverse_map in first_data.reverse_map.items():
         out.create_reverse_map(axis, reverse_map)
-- 
2.43.0


From d666b1a56f72f8bba63fd3dfa6b7bb6a554282e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:52 +0000
Subject: [PATCH 047/122] fix: concatenate any sequence of containers

---
 caput/containers/tod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index f74e4d4..2d3dc73 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -445,7 +445,7 @@ def concatenate(
         out.create_reverse_map(axis, reverse_map)
 
     all_dataset_names = _copy_non_time_data(
-        data_list,
+        first_data,
         out,
         convert_attribute_strings=convert_attribute_strings,
         convert_dataset_strings=convert_dataset_strings,
-- 
2.43.0


From 1dd9db77a95e0b89c2beeda96bae7865bd684e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:52 +0000
Subject: [PATCH 048/122] fix: select time ranges without any samples

---
 caput/containers/tod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 2d3dc73..b092e9b 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -274,12 +274,14 @@ class TODReader:
         """
         if start_time is not None:
             start_time = self.data_class.convert_time(start_time)
-            start = np.where(self.time >= start_time)[0][0]
+            inds = np.where(self.time >= start_time)[0]
+            start = inds[0] if len(inds) else len(self.time)
         else:
             start = self.time_sel[0]
         if stop_time is not None:
             stop_time = self.data_class.convert_time(stop_time)
-            stop = np.where(self.time < stop_time)[0][-1] + 1
+            inds = np.where(self.time < stop_time)[0]
+            stop = inds[-1] + 1 if len(inds) else 0
         else:
             stop = self.time_sel[1]
 
-- 
2.43.0


From ce1e6d6271575231dd0bd3cdd3ea49282e98ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:52 +0000
Subject: [PATCH 049/122] fix: copy distributed datasets without a time axis
 when concatenating

---
 caput/containers/tod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index b092e9b..a6ae155 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -699,6 +699,13 @@ def _copy_non_time_data(
         for entry in to_copy:
             if memdata.is_group(entry):
                 target = out if entry.name == "/" else out.require_group(entry.name)
+            elif isinstance(entry, memdata.MemDatasetDistributed):
+                target = out.create_dataset(
+                    entry.name,
+                    data=entry[:],
+                    distributed=True,
+                    distributed_axis=entry.distributed_axis,
+                )
             else:
                 arr = (
                     typeutils.ensure_unicode(entry[:])
-- 
2.43.0


From 542dbd5e967249a0239fa4d8854dd7e3ce34df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:41 +0000
Subject: [PATCH 050/122] fix: find the time axis of datasets in zarr files

---
 caput/containers/tod.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index a6ae155..f175e1e 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -497,7 +497,7 @@ def concatenate(
             attrs = dataset.attrs
 
             # Figure out which axis we are concatenating over.
-            for a in typeutils.bytes_to_unicode(attrs["axis"]):
+            for a in _dset_axes(attrs):
                 if a in concatenation_axes:
                     axis = a
                     break
@@ -535,7 +535,7 @@ def concatenate(
                 attrs = dataset.attrs
 
             # Do this *after* the filter, in case filter changed axis order.
-            axis_ind = list(typeutils.bytes_to_unicode(attrs["axis"])).index(axis)
+            axis_ind = _dset_axes(attrs).index(axis)
 
             # Slice input data if the filter doesn't do it.
             if not filter_time_slice:
@@ -730,11 +730,19 @@ def _dset_has_axis(entry: Any, axes: tuple[str]) -> bool:
     if memdata.is_group(entry):
         return False
 
-    # Assume is a dataset. We need to ensure the output strings are Unicode as h5py may
-    # return them as byte strings if the input is an h5py.Dataset
-    dset_axes = typeutils.bytes_to_unicode(entry.attrs.get("axis", ()))
+    # Assume is a dataset.
+    return len(set(_dset_axes(entry.attrs)).intersection(axes)) > 0
 
-    return len(set(dset_axes).intersection(axes)) > 0
+
+def _dset_axes(attrs: Any) -> list[str]:
+    """Get the axis names from the attributes of a dataset, which may be on disk."""
+    # Arrays of strings are encoded in the attributes of zarr arrays
+    axes = {}
+    memdata.copyattrs({"axis": attrs.get("axis", ())}, axes)
+
+    # We need to ensure the output strings are Unicode as h5py may return them as byte
+    # strings if the input is an h5py.Dataset
+    return list(typeutils.bytes_to_unicode(axes["axis"]))
 
 
 # XXX andata still calls these.
-- 
2.43.0


From ef9a87de166cc69f4111e35d69841634f4519ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:41 +0000
Subject: [PATCH 051/122] fix: accept numpy integers as the range to
 concatenate

---
 caput/containers/tod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index f175e1e..4472960 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -381,9 +381,9 @@ def concatenate(
 
     # Ensure *start* and *stop* are mappings, which are not those of the caller as they
     # get changed below.
-    if not hasattr(start, "__getitem__"):
+    if not hasattr(start, "keys"):
         start = dict.fromkeys(concatenation_axes, start)
-    if not hasattr(stop, "__getitem__"):
+    if not hasattr(stop, "keys"):
         stop = dict.fromkeys(concatenation_axes, stop)
     start, stop = dict(start), dict(stop)
 
-- 
2.43.0


From 8f01257530d6dbd0a7524cf3b5936cc0e034f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:15 +0000
Subject: [PATCH 052/122] fix: write the bytes of a buffer at the stated offset
 in lock_and_write_buffer

---
 caput/util/mpitools.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fb1934a..8557fbf 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -924,23 +924,28 @@ def lock_and_write_buffer(obj: object, fname: str, offset: int, size: int) -> No
     import fcntl
     import os
 
-    buf = memoryview(obj)
+    # The raw bytes in C order, as the offset and size are in bytes
+    buf = memoryview(memoryview(obj).tobytes())
 
     if len(buf) > size:
         raise Exception("Size doesn't match array length.")
 
-    fd = os.open(fname, os.O_RDWR | os.O_CREAT)
-
-    fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)
-
-    nb = os.write(fd, buf)
+    # A zero-length lock would extend to the end of the file
+    if len(buf) == 0:
+        return
 
-    if nb != len(buf):
-        raise Exception("Something funny happened with the reading.")
-
-    fcntl.lockf(fd, fcntl.LOCK_UN)
+    fd = os.open(fname, os.O_RDWR | os.O_CREAT)
 
-    os.close(fd)
+    try:
+        fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)
+
+        while len(buf) > 0:
+            nb = os.pwrite(fd, buf, offset)
+            offset += nb
+            buf = buf[nb:]
+    finally:
+        # This also releases the lock
+        os.close(fd)
 
 
 def parallel_rows_write_hdf5(
-- 
2.43.0


From 46c6f23278f881e7aaa43768f0b2d083388b6e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:15 +0000
Subject: [PATCH 053/122] fix: account for the item size in
 parallel_rows_write_hdf5

---
 caput/util/mpitools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 8557fbf..c0431b9 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -962,6 +962,9 @@ def parallel_rows_write_hdf5(
 
     lr, sr, _ = split_local(shape[0], comm=comm)
 
-    nc = np.prod(shape[1:])
+    # The number of bytes in each row
+    nb = int(np.prod(shape[1:], dtype=int)) * local_data.dtype.itemsize
 
-    lock_and_write_buffer(local_data, fname, offset + sr * nc, lr * nc)
+    # An empty dataset does not have an offset
+    if lr * nb > 0:
+        lock_and_write_buffer(local_data, fname, int(offset + sr * nb), int(lr * nb))
-- 
2.43.0


From 6839a9c3922fd0838cb9c5b8b83f7a537ff666c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:15 +0000
Subject: [PATCH 054/122] fix: accept any sequence as the shape in
 transpose_blocks

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index c0431b9..45be07d 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -746,7 +746,7 @@ def transpose_blocks(
     """
     if comm is None or comm.size == 1:
         # only one process
-        if row_array.shape[:-1] == shape[:-1]:
+        if row_array.shape[:-1] == tuple(shape[:-1]):
             # We are working on a single node and being asked to do
             # a trivial transpose.
             # Note that to mimic the mpi behaviour we have to allow the
-- 
2.43.0


From f3ba930da8408640ccd1ef3adb70c4fb53191567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:15 +0000
Subject: [PATCH 055/122] fix: divide the cpus by the number of processes on
 the node in cpu_count

---
 caput/util/mpitools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 45be07d..2e73534 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -165,7 +165,7 @@ def cpu_count(
             scomm = comm.Split_type(MPI.COMM_TYPE_SHARED)
 
     try:
-        nproc_per_node = comm.size // scomm.size
+        nproc_per_node = scomm.size
     except AttributeError:
         # This would happend if the default comm is None
         nproc_per_node = 1
@@ -173,7 +173,7 @@ def cpu_count(
     cpu_count = os.cpu_count()
 
     if cpu_count is not None:
-        cpu_count = int(cpu_count // nproc_per_node)
+        cpu_count = max(int(cpu_count // nproc_per_node), 1)
 
     return cpu_count
 
-- 
2.43.0


From be34fbca509a83da20dc01c415ecb17834335878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:15 +0000
Subject: [PATCH 056/122] fix: gather into global arrays which are not in C
 order

---
 caput/util/mpitools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 2e73534..a0c9230 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -634,15 +634,20 @@ def gather_local(
                 ).Commit()
                 for i in nonempty_procs
             ]  # default order=ORDER_C
+            # The section types assume C order
+            recv_array = np.ascontiguousarray(global_array)
             # Post each receive
             reqs = [
-                comm.Irecv([global_array, sub_type[si]], source=sr, tag=0)
+                comm.Irecv([recv_array, sub_type[si]], source=sr, tag=0)
                 for (si, sr) in enumerate(nonempty_procs)
             ]
 
             # Wait for requests to complete
             MPI.Prequest.Waitall(reqs)
 
+            if recv_array is not global_array:
+                global_array[...] = recv_array
+
         # Wait on send request. Important, as can get weird synchronisation
         # bugs otherwise as processes exit before completing their send.
         if np.prod(local_size) > 0:
-- 
2.43.0


From 8dcde189e4fa388c551d2fd8fec9d3d07c0bd132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:46 +0000
Subject: [PATCH 057/122] fix: accept the name of the dataset as a string in
 allocate_hdf5_dataset

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index a0c9230..4ff2e13 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -897,7 +897,7 @@ def allocate_hdf5_dataset(
         plist.set_fill_time(h5py.h5d.FILL_TIME_NEVER)
 
         # Create the dataset
-        dset = h5py.h5d.create(f.id, dsetname, tp, sp, plist)
+        dset = h5py.h5d.create(f.id, dsetname.encode(), tp, sp, plist)
 
         # Get the offset of the dataset into the file.
         state = dset.get_offset(), dset.get_storage_size()
-- 
2.43.0


From f04ff47cad1d1f0001360c3ab5e4fc3978f8d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 058/122] fix: raise a config error for values that cannot be
 converted

---
 caput/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index a138da1..d04490e 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -156,7 +156,7 @@ class Property:
         if self.key in config:
             try:
                 val = self.proptype(config[self.key])
-            except TypeError as e:
+            except (TypeError, ValueError) as e:
                 raise CaputConfigError(
                     f"Can't read value of '{self.key}' as {self.proptype}: {e}",
                     location=config,
-- 
2.43.0


From 8673218481a40672b95b0a407b34ecf7a082542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 059/122] fix: do not share mutable default values between
 instances

---
 caput/config.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/caput/config.py b/caput/config.py
index d04490e..01a3dbf 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -50,6 +50,7 @@ Richard 40.0 Sooty
 from __future__ import annotations
 
 import logging
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 from yaml.loader import SafeLoader
@@ -110,10 +111,14 @@ class Property:
         # and warn if it's been deprecated
         self._set_propname_warn_deprecated(obj)
 
-        # If the value has not been set, return the default, otherwise return the
-        # actual value.
+        # If the value has not been set, use the default, otherwise return the
+        # actual value. Each instance gets its own copy of the default, such that
+        # changes to a mutable value are kept, but not seen by other instances.
         if self.propname not in obj.__dict__:
-            return self.proptype(self.default) if self.default is not None else None
+            if self.default is None:
+                return None
+
+            obj.__dict__[self.propname] = self.proptype(deepcopy(self.default))
 
         return obj.__dict__[self.propname]
 
-- 
2.43.0


From c3a225bf5fcf71d75cd9029583c6f7bea65d320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 060/122] fix: only read the most derived declaration of a
 property

---
 caput/config.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/caput/config.py b/caput/config.py
index 01a3dbf..e73b639 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -264,11 +264,17 @@ class Reader:
 
         config_keys = list(config.keys())
         prop_keys = []
+
+        # Find the most derived declaration of each property
+        props = {}
         for basecls in inspect.getmro(type(self))[::-1]:
-            for clsprop in basecls.__dict__.values():
+            for propname, clsprop in basecls.__dict__.items():
                 if isinstance(clsprop, Property):
-                    clsprop._from_config(self, config)
-                    prop_keys.append(clsprop.key)
+                    props[propname] = clsprop
+
+        for clsprop in props.values():
+            clsprop._from_config(self, config)
+            prop_keys.append(clsprop.key)
 
         if compare_keys:
             if isinstance(compare_keys, list):
-- 
2.43.0


From 79bd44b9c2e8e4f7385e5967fdfc48406d9b06ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 061/122] fix: reject NaN in float_in_range

---
 caput/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index e73b639..7df0d55 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -356,7 +356,7 @@ def float_in_range(
     def _prop(val):
         val = float(val)
 
-        if val < start or val > end:
+        if not (start <= val <= end):
             raise CaputConfigError(f"Input {val:f} not in range [{start:f}, {end:f}]")
 
         return val
-- 
2.43.0


From 85520723d89273dcaa5493a8ac3d760693f38394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 062/122] fix: respect zero lengths and empty defaults in
 list_type

---
 caput/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/config.py b/caput/config.py
index 7df0d55..1155027 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -453,19 +453,19 @@ def list_type(  # noqa: D417
                         f"'{item!s}' of type '{type(item)!s}' at position {ii}"
                     )
 
-        if length and len(val) != length:
+        if length is not None and len(val) != length:
             raise CaputConfigError(
                 f"List expected to be of length {length}, but was actually length {len(val)}"
             )
 
-        if maxlength and len(val) > maxlength:
+        if maxlength is not None and len(val) > maxlength:
             raise CaputConfigError(
                 f"Maximum length of list is {maxlength} is, but list was actually length {len(val)}"
             )
 
         return val
 
-    if default:
+    if default is not None:
         try:
             _prop(default)
         except CaputConfigError as e:
-- 
2.43.0


From 39aaaee050b41772a713efa8e84e177cdc84605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 063/122] fix: raise a config error for invalid logging levels

---
 caput/config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/caput/config.py b/caput/config.py
index 1155027..bff845c 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -507,9 +507,9 @@ def logging_config(default: str | dict | None = None) -> Property[str | dict]:
         if isinstance(config, str):
             config = {"root": config}
         elif not isinstance(config, dict):
-            raise ValueError(
+            raise CaputConfigError(
                 f"Expected a string or YAML block for config value 'logging', got "
-                f"'{type(config.__name__)}'."
+                f"'{type(config).__name__}'."
             )
 
         # check entries, get module names and warn for duplicates when sorting into new
@@ -517,9 +517,10 @@ def logging_config(default: str | dict | None = None) -> Property[str | dict]:
         checked_config = {}
         loglevels = ["DEBUG", "INFO", "WARNING", "ERROR", "NOTSET"]
         for key, level in config.items():
-            level = level.upper()
+            if isinstance(level, str):
+                level = level.upper()
             if level not in loglevels:
-                raise ValueError(
+                raise CaputConfigError(
                     f"Expected one of {loglevels} for log level of {key} (was {level})."
                 )
 
-- 
2.43.0


From d9fcd4a30b9d4b4978977a7ef665803927c22e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 064/122] fix: accept the names of file formats in the
 file_format property

---
 caput/pipeline/extensions/_configtypes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/caput/pipeline/extensions/_configtypes.py b/caput/pipeline/extensions/_configtypes.py
index c82a5bf..3342cd9 100644
--- a/caput/pipeline/extensions/_configtypes.py
+++ b/caput/pipeline/extensions/_configtypes.py
@@ -45,7 +45,7 @@ def file_format(default=None):
         if val is None:
             return None
 
-        if issubclass(val, fileformats.FileFormat):
+        if isinstance(val, type) and issubclass(val, fileformats.FileFormat):
             return val
 
         if not isinstance(val, str):
@@ -62,9 +62,11 @@ def file_format(default=None):
 
         raise CaputConfigError(f"Input {val!r} needs to be one of {options})")
 
-    if default is not None and (
-        (not isinstance(default, str)) or (default.lower() not in options)
-    ):
-        raise CaputConfigError(f"Default value {default!r} must be in {options}")
+    try:
+        _prop(default)
+    except CaputConfigError as e:
+        raise CaputConfigError(
+            f"Default value {default!r} must be in {options}"
+        ) from e
 
     return Property(proptype=_prop, default=default)
-- 
2.43.0


From 212020106539220a7a3f2f9ae12873a07488231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 065/122] fix: raise a config error if there is no pipeline
 section

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index e508309..73ac8c4 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -210,7 +210,7 @@ class Manager(config.Reader):
                     f"`{type(yaml_params['pipeline']).__name__}` (expected a dict here).",
                     location=yaml_params,
                 )
-        except TypeError as e:
+        except (TypeError, KeyError) as e:
             raise config.CaputConfigError(
                 "Couldn't find key 'pipeline' in YAML configuration document.",
                 location=yaml_params,
-- 
2.43.0


From 0f9d7ac81bfa235ecfb176e8de3bcf64dfbd6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 066/122] fix: raise a config error for task entries and keys
 of the wrong type

---
 caput/pipeline/_pipeline.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 73ac8c4..939bff6 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -526,11 +526,12 @@ class Manager(config.Reader):
         """Make sure all in/requires values have corresponding out keys from another task."""
         all_out_values = []
         for t in self.task_specs:
-            if "out" in t:
-                if isinstance(t["out"], list | tuple):
-                    all_out_values.extend(t["out"])
-                else:
-                    all_out_values.append(t["out"])
+            if not isinstance(t, dict):
+                raise config.CaputConfigError(
+                    f"Found value of type '{type(t).__name__}' in 'tasks' list "
+                    "(expected a dict)."
+                )
+            all_out_values.extend(_format_product_keys(t.get("out")))
 
         unique_out_values = set(all_out_values)
 
@@ -547,14 +548,10 @@ class Manager(config.Reader):
             requires = task_spec.get("requires", None)
 
             for key, value in (["in", in_], ["requires", requires]):
-                if value is None:
-                    continue
-                if not isinstance(value, list):
-                    value = [value]
-                for v in value:
+                for v in _format_product_keys(value):
                     if v not in unique_out_values:
                         raise config.CaputConfigError(
-                            f"Value '{key}' for task {task_spec['type']} has no corresponding "
+                            f"Value '{key}' for task {task_spec.get('type')} has no corresponding "
                             f"`out` from another task (Value {v} is not in {unique_out_values})."
                         )
 
-- 
2.43.0


From 76d4692a6cb79e00caa9698ba934f2e3a0452db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 067/122] fix: raise a config error if the type of a task is
 not a task class

---
 caput/pipeline/_pipeline.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 939bff6..611dae9 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -580,6 +580,9 @@ class Manager(config.Reader):
         except KeyError as e:
             raise config.CaputConfigError("'type' not specified for task.") from e
 
+        if not isinstance(task_path, str):
+            raise config.CaputConfigError("'type' of the task must be a string.")
+
         # Find the tasks class either in the local set, or by importing a fully
         # qualified class name
         if task_path in local_tasks:
@@ -590,12 +593,17 @@ class Manager(config.Reader):
             except (
                 config.CaputConfigError,
                 AttributeError,
-                ModuleNotFoundError,
+                ImportError,
+                KeyError,
+                ValueError,
             ) as exc:
                 raise config.CaputConfigError(
                     f"Error loading task `{task_path}`\n"
                 ) from exc
 
+        if not (isinstance(task_cls, type) and issubclass(task_cls, Task)):
+            raise config.CaputConfigError(f"`{task_path}` is not a pipeline task.")
+
         # Get the parameters and initialize the class.
         params = {}
         if "params" in task_spec:
-- 
2.43.0


From 0dd269dfae100c68222516b31b88f5fcfad1bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 068/122] fix: raise a config error if a parameter section is
 not a mapping

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 611dae9..e58452f 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -623,7 +623,7 @@ class Manager(config.Reader):
                 for param_key in param_keys:
                     try:
                         params.update(self.all_params[param_key])
-                    except KeyError as e:
+                    except (KeyError, TypeError, ValueError) as e:
                         raise config.CaputConfigError(
                             f"Parameter group {param_key} not found in config."
                         ) from e
-- 
2.43.0


From eb7ac3dfe3559a704796d94f2a45f3fbbec30744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 069/122] fix: do not share the values of a parameter section
 between tasks

---
 caput/pipeline/_pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index e58452f..7edd369 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -630,7 +630,8 @@ class Manager(config.Reader):
 
         # add global params to params
         task_params = deepcopy(self.all_tasks_params)
-        task_params.update(params)
+        # tasks using the same parameter section must not share any values
+        task_params.update(deepcopy(params))
 
         # Create and configure the task instance
         try:
-- 
2.43.0


From bca8d47a0180ff16b26930eb4b8745a1c5f86884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:02 +0000
Subject: [PATCH 070/122] fix: accept log levels in any case

---
 caput/pipeline/tasklib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 9af355f..873506b 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -58,7 +58,7 @@ def _log_level(x):
     if isinstance(x, int):
         return x
 
-    if isinstance(x, str) and x in level_dict:
+    if isinstance(x, str) and x.upper() in level_dict:
         return level_dict[x.upper()]
 
     raise ValueError(f"Logging level {x!r} not understood")
-- 
2.43.0


From 3e49b2599e3ff59cbc1147ec00950dcf42b04bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:00 +0000
Subject: [PATCH 071/122] fix: accept only mappings as parameter sections

---
 caput/pipeline/_pipeline.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 7edd369..35d624f 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -622,11 +622,17 @@ class Manager(config.Reader):
                 # Locate param sections, and add to dict
                 for param_key in param_keys:
                     try:
-                        params.update(self.all_params[param_key])
-                    except (KeyError, TypeError, ValueError) as e:
+                        section = self.all_params[param_key]
+                    except (KeyError, TypeError) as e:
                         raise config.CaputConfigError(
                             f"Parameter group {param_key} not found in config."
                         ) from e
+                    if not isinstance(section, dict):
+                        raise config.CaputConfigError(
+                            f"Parameter group {param_key} is of type "
+                            f"`{type(section).__name__}` (expected a dict here)."
+                        )
+                    params.update(section)
 
         # add global params to params
         task_params = deepcopy(self.all_tasks_params)
-- 
2.43.0


From a1a2357c9b3c0dd840c7c320e1d90b799cd9547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:59 +0000
Subject: [PATCH 072/122] fix: run the Delete and MakeCopy tasks

They do not derive from ContainerTask, so nothing called `process` and the
inputs were left in the queue.
---
 caput/pipeline/tasklib/flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/flow.py b/caput/pipeline/tasklib/flow.py
index c0ea04d..3b15865 100644
--- a/caput/pipeline/tasklib/flow.py
+++ b/caput/pipeline/tasklib/flow.py
@@ -100,7 +100,7 @@ class GatherInputs(MPILoggedTask):
 class Delete(MPILoggedTask):
     """Delete pipeline products to free memory."""
 
-    def process(self, x):
+    def next(self, x):
         """Delete the input and collect garbage.
 
         Parameters
@@ -118,7 +118,7 @@ class Delete(MPILoggedTask):
 class MakeCopy(MPILoggedTask):
     """Make a copy of the passed object."""
 
-    def process(self, data):
+    def next(self, data):
         """Return a deep copy of the given object.
 
         Parameters
-- 
2.43.0


From cb46d7c41d148a414609b162017662fff33cd1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:08 +0000
Subject: [PATCH 073/122] fix: number the outputs of a task with untagged input

---
 caput/pipeline/tasklib/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 873506b..6806226 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -350,7 +350,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
 
         # Extract a list of the tags for all input arguments
         input_tags = [
-            (str(icont.attrs.get("tag")) if isinstance(icont, MemDiskGroup) else "")
+            (str(icont.attrs.get("tag", "")) if isinstance(icont, MemDiskGroup) else "")
             for icont in input
         ]
 
@@ -558,7 +558,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
         idict = dict(output.attrs)
         if "tag" in output.attrs:
             tag = output.attrs["tag"]
-        elif "input_tags" in output.attrs and len(output.attrs["input_tags"]):
+        elif "input_tags" in output.attrs and any(output.attrs["input_tags"][:1]):
             tag = output.attrs["input_tags"][0]
         else:
             tag = self._count
-- 
2.43.0


From d2c47ef9dcfa8613dd5f789f801e079d843b61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:06 +0000
Subject: [PATCH 074/122] fix: check scalar datasets for NaNs

---
 caput/pipeline/tasklib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 6806226..5a54168 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -597,7 +597,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
             if isinstance(n, MemDataset):
                 # Try to test for NaN's and infs. This will fail for compound datatypes...
                 # casting to ndarray, bc MPI ranks may fall out of sync, if a nan or inf are found
-                arr = n[:].view(np.ndarray)
+                arr = n[...].view(np.ndarray)
                 try:
                     all_finite = np.isfinite(arr).all()
                 except TypeError:
-- 
2.43.0


From 0df87a26b331fc2cb132f3f8f9b3ed176644e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:00 +0000
Subject: [PATCH 075/122] fix: save and load scalar datasets

---
 caput/memdata/_memh5.py | 4 ++--
 caput/mpiarray.py       | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 78e4b89..40a803b 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -902,7 +902,7 @@ class MemGroup(_BaseGroup):
                 )
 
             if data is not None:
-                new_dataset[:] = data[:]
+                new_dataset[...] = data[...]
 
         # Add new dataset to group
         parent_storage[name] = new_dataset
@@ -2957,7 +2957,7 @@ def _distributed_group_from_file(
                     cdata = None
                     if comm.rank == 0:
                         if selection is None:
-                            cdata = item[:]
+                            cdata = item[...]
                         else:
                             cdata = mpiarray._read_selection(item, selection)
 
diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index eb4288f..fce5329 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2290,6 +2290,10 @@ def _read_selection(dset: Any, sel: SelectionLike) -> npt.ArrayLike:
     Files only support one list of indices (h5py raises an error for several and zarr
     pairs up their indices), so any others need to be applied after reading.
     """
+    # There is nothing to select from in a scalar dataset
+    if dset.shape == ():
+        return dset[...]
+
     if not isinstance(sel, tuple):
         return dset[sel]
 
-- 
2.43.0


From 6c2bba2fbbdfec0cc92aa9da1e1b275183506f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:28 +0000
Subject: [PATCH 076/122] fix: flatten nested lists of files without changing
 them

---
 caput/pipeline/tasklib/io.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 16a6995..648b0bf 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -65,21 +65,12 @@ def list_of_filelists(files):
     flattened_list : list[PathLike]
         The input file list. Any glob patterns will be flattened to file path string lists.
     """
-    import glob
-
     f2 = []
 
     for filelist in files:
-        if isinstance(filelist, str):
-            if "*" not in filelist and not os.path.isfile(filelist):
-                raise config.CaputConfigError(f"File not found: {filelist!s}")
-            filelist = glob.glob(filelist)
-        elif isinstance(filelist, list):
-            for i in range(len(filelist)):
-                filelist[i] = list_or_glob(filelist[i])
-        else:
+        if not isinstance(filelist, str | list):
             raise config.CaputConfigError("Must be list or glob pattern.")
-        f2 = f2 + filelist
+        f2 = f2 + list_or_glob(filelist)
 
     return f2
 
-- 
2.43.0


From 11e77d632ed9c81426d80d65257d1eb9815c5a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:28 +0000
Subject: [PATCH 077/122] fix: process all globs in file groups, in order and
 without changing the groups

---
 caput/pipeline/tasklib/io.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 648b0bf..0adde4f 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -145,12 +145,12 @@ def list_of_filegroups(groups):
     :py:exc:`~caput.config.CaputConfigError`
         If `groups` has the wrong format.
     """
-    import glob
-
     # Convert to list if the group was not included in a list
     if not isinstance(groups, list):
         groups = [groups]
 
+    file_groups = []
+
     # Iterate over groups, set the tag if needed, and process the file list
     # through glob
     for gi, group in enumerate(groups):
@@ -163,22 +163,14 @@ def list_of_filegroups(groups):
                 f"Expected type dict in file groups (got {type(group)})."
             )
 
-        if "tag" not in group:
-            group["tag"] = f"group_{gi:d}"
-
-        flist = []
-
-        for fname in files:
-            if "*" not in fname and not os.path.isfile(fname):
-                raise config.CaputConfigError(f"File not found: {fname!s}")
-            flist += glob.glob(fname)
+        flist = list_or_glob(files)
 
         if not len(flist):
             raise config.CaputConfigError(f"No files in group exist ({files!s}).")
 
-        group["files"] = flist
+        file_groups.append({"tag": f"group_{gi:d}", **group, "files": flist})
 
-    return groups
+    return file_groups
 
 
 class FindFiles(MPILoggedTask):
-- 
2.43.0


From 97f3711e8639d28dc964ea481b8dc372009b922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:50 +0000
Subject: [PATCH 078/122] fix: find files whose names look like a glob pattern

---
 caput/pipeline/tasklib/io.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 0adde4f..db9c5fd 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -102,23 +102,26 @@ def list_or_glob(files):
             parsed_files = parsed_files + list_or_glob(f)
         return parsed_files
 
-    # If it's a glob we need to expand the glob and then call again
-    if isinstance(files, str) and any(c in files for c in "*?["):
-        return list_or_glob(sorted(glob.glob(files)))
-
-    # We presume a string is an actual path...
     if isinstance(files, str):
-        # Check that it exists and is a file (or dir if zarr format)
-        if files.endswith(".zarr"):
-            if not os.path.isdir(files):
-                raise config.CaputConfigError(
-                    f"Expected a zarr directory store, but directory not found: {files}"
-                )
+        # If it's a glob we need to expand the glob, otherwise we presume a string is
+        # an actual path...
+        if any(c in files for c in "*?["):
+            paths = sorted(glob.glob(files))
         else:
-            if not os.path.isfile(files):
-                raise config.CaputConfigError(f"File not found: {files!s}")
+            paths = [files]
+
+        # Check that each exists and is a file (or dir if zarr format)
+        for path in paths:
+            if path.endswith(".zarr"):
+                if not os.path.isdir(path):
+                    raise config.CaputConfigError(
+                        f"Expected a zarr directory store, but directory not found: {path}"
+                    )
+            else:
+                if not os.path.isfile(path):
+                    raise config.CaputConfigError(f"File not found: {path!s}")
 
-        return [files]
+        return paths
 
     raise config.CaputConfigError(
         f"Argument must be list, glob pattern, or file path, got {files!r}"
-- 
2.43.0


From bef5ec29d8cb1b573567b7e7925a623cbdfa0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:50 +0000
Subject: [PATCH 079/122] fix: let index selections override map selections and
 require an axis name

---
 caput/pipeline/tasklib/io.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index db9c5fd..9008bf0 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -256,15 +256,18 @@ class SelectionsMixin:
         if not self.allow_index_map:
             del sel_parsers["map"]
 
-        # To enforce the precedence of range vs index selections, we rely on the fact
-        # that a sort will place the axis_range keys after axis_index keys
-        for k in sorted(self.selections or []):
+        # To enforce the precedence of range vs index vs map selections, sort them such
+        # that later ones replace earlier ones
+        for k in sorted(
+            self.selections or [],
+            key=lambda k: (k.endswith("_range"), k.endswith("_index")),
+        ):
             # Parse the key to get the axis name and type, accounting for the fact the
             # axis name may contain an underscore
             *axis, type_ = k.split("_")
             axis_name = "_".join(axis)
 
-            if type_ not in sel_parsers:
+            if type_ not in sel_parsers or not axis_name:
                 raise ValueError(
                     f'Unsupported selection type "{type_}", or invalid key "{k}". '
                     "Note that map-type selections require `allow_index_map=True`."
-- 
2.43.0


From a09e87593f197adee4be609baa029030a889f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:50 +0000
Subject: [PATCH 080/122] fix: allow the Save task to be created

---
 caput/pipeline/tasklib/io.py  | 2 +-
 caput/pipeline/tasklib/io.pyi | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 9008bf0..ca2c383 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -584,7 +584,7 @@ class LoadFiles(LoadFilesFromParams):
         self.files = files
 
 
-class Save(ContainerTask):
+class Save(MPILoggedTask):
     """Save out the input, and pass it on.
 
     Assumes that the input has a :py:meth:`to_hdf5` method. Appends a *tag* if there is
diff --git a/caput/pipeline/tasklib/io.pyi b/caput/pipeline/tasklib/io.pyi
index 1120c17..b8a08b2 100644
--- a/caput/pipeline/tasklib/io.pyi
+++ b/caput/pipeline/tasklib/io.pyi
@@ -67,7 +67,7 @@ class LoadFiles(LoadFilesFromParams):
     files: ClassVar[list[PathLike] | None]
     def setup(self, files: Sequence[PathLike]): ...
 
-class Save(ContainerTask):
+class Save(MPILoggedTask):
     root: PathLike
     count: int
     def next(self, data: MemGroup) -> MemGroup: ...
-- 
2.43.0


From 9b66de54d7abcd97cb345fea7bfc68d0f3c92360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:50 +0000
Subject: [PATCH 081/122] fix: wait for no zarr zip jobs

---
 caput/pipeline/tasklib/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index ca2c383..8f26dc5 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1035,7 +1035,7 @@ class WaitZarrZip(MPILoggedTask):
 
     def finish(self):
         """Wait for all Zarr zipping jobs to complete."""
-        for h in self._handles:
+        for h in self._handles or []:
             self.log.debug(f"Waiting on job processing {h.filename}")
 
             if h.handle is not None:
-- 
2.43.0


From 1b872dc15f437e52a81d11ec5f25bc3be4e86092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:50 +0000
Subject: [PATCH 082/122] fix: quote the file names given to the shell for
 zipping

---
 caput/pipeline/tasklib/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 8f26dc5..275d050 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -29,6 +29,7 @@ These are specified in the YAML file as a dictionary like below.
 from __future__ import annotations
 
 import os
+import shlex
 import shutil
 import subprocess
 from functools import partial
@@ -998,12 +999,14 @@ class SaveZarrZip(ZipZarrContainers):
             # Run 7z to zip up the file
             dest_file = outfile + ".zip"
             src_dir = outfile + "/."
-            command = f"{self._path_7z} a -tzip -mx=0 {dest_file} {src_dir}"
+            command = shlex.join(
+                [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]
+            )
 
             # If we are to remove the file get the background job to do it immediately
             # after zipping succeeds
             if self.remove:
-                command += f" && rm -r {outfile}"
+                command += " && " + shlex.join(["rm", "-r", outfile])
 
             bg_process = subprocess.Popen(
                 command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE
-- 
2.43.0


From dbdc55c32b706599156180126671931cb83eb920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:50 +0000
Subject: [PATCH 083/122] fix: number the untagged containers saved as zarr
 zips

---
 caput/pipeline/tasklib/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 275d050..741030e 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1012,8 +1012,9 @@ class SaveZarrZip(ZipZarrContainers):
                 command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE
             )
 
-        # Increment the global operations counter
+        # Increment the global operations counter, and the number of this output
         self.__class__._operation_counter += 1
+        self._count += 1
 
         return ZarrZipHandle(dest_file, bg_process)
 
-- 
2.43.0


From 40a18615e574a4ba27a6054ea4f4b8fedfe854f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:40 +0000
Subject: [PATCH 084/122] fix: replace existing zarr zips instead of adding to
 them

---
 caput/pipeline/tasklib/io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 741030e..605cf3f 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -910,9 +910,12 @@ class ZipZarrContainers(ContainerTask):
                 if not container.endswith(".zarr") or not os.path.isdir(container):
                     raise ValueError(f"{container} is not a valid .zarr directory")
 
-                # Run 7z to zip up the file
+                # Run 7z to zip up the file. As this would add to an existing file any
+                # earlier one needs to go first.
                 dest_file = container + ".zip"
                 src_dir = container + "/."
+                if os.path.exists(dest_file):
+                    os.remove(dest_file)
                 command = [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]
                 status = subprocess.run(command, capture_output=True)
 
@@ -996,9 +999,12 @@ class SaveZarrZip(ZipZarrContainers):
         if self._host_rank == host_rank_to_use:
             self.log.info(f"Starting background job to zip {outfile}")
 
-            # Run 7z to zip up the file
+            # Run 7z to zip up the file. As this would add to an existing file any
+            # earlier one needs to go first.
             dest_file = outfile + ".zip"
             src_dir = outfile + "/."
+            if os.path.exists(dest_file):
+                os.remove(dest_file)
             command = shlex.join(
                 [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]
             )
-- 
2.43.0


From bf5d8e6eaa855bc105feda9a556a6488bf7a9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:24 +0000
Subject: [PATCH 085/122] fix: truncate negative values without weight relative
 to their magnitude

The fallback precision times a negative value is a negative error, for
which the value is rounded to zero.
---
 caput/util/truncate.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/truncate.pyx b/caput/util/truncate.pyx
index 970dca8..57180f2 100644
--- a/caput/util/truncate.pyx
+++ b/caput/util/truncate.pyx
@@ -104,7 +104,7 @@ def _bit_truncate_weights_float(float[:] val, float[:] inv_var, float fallback):
         if inv_var[i] != 0:
             val[i] = _bit_truncate_float(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_float(val[i], fallback * val[i])
+            val[i] = _bit_truncate_float(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
@@ -126,7 +126,7 @@ def _bit_truncate_weights_double(double[:] val, double[:] inv_var, double fallba
         if inv_var[i] != 0:
             val[i] = _bit_truncate_double(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_double(val[i], fallback * val[i])
+            val[i] = _bit_truncate_double(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
-- 
2.43.0


From 6ef28227f02e730ef0fd8bad4c59ec5654e41287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:24 +0000
Subject: [PATCH 086/122] fix: scale the error of very small numbers correctly
 when truncating

The power of two that scales the error overflowed for numbers below
2**-104 in single and 2**-971 in double precision, such that they were
not truncated, or rounded to zero whatever the error.
---
 caput/util/truncate.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index b728e0d..e4947a2 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -203,7 +203,10 @@ inline float _bit_truncate_float(float val, float err) {
     int32_t val_man = (cast_val_ptr[0] & MASK_MANTISSA_FLOAT) + IMPLICIT_BIT_FLOAT;
     // scale the error to the integer representation of the mantissa
     // scale by 2**(23 + 127 - pow)
-    int32_t int_err = (int32_t)(err * fast_pow(150 - val_pow));
+    // in two steps, as the power may be too large for a float
+    int32_t err_pow = 150 - val_pow;
+    int32_t int_err =
+        (int32_t)(err * fast_pow(err_pow / 2) * fast_pow(err_pow - err_pow / 2));
     // make sure hasn't overflowed. if set to 2**30-1, will surely round to 0.
     // must keep err < 2**30 for bit_truncate to work
     int_err = (int_err & HIGH_BITS) ? ERR_MAX_FLOAT : int_err;
@@ -253,7 +256,10 @@ inline double _bit_truncate_double(double val, double err) {
     // Step 2: Scale the error to the integer representation of the mantissa:
     // ----------------------------------------------------------------------
     // scale by 2**(52 + 1023 - pow)
-    int64_t int_err = (int64_t)(err * fast_pow_double(1075 - val_pow));
+    // in two steps, as the power may be too large for a double
+    int64_t err_pow = 1075 - val_pow;
+    int64_t int_err =
+        (int64_t)(err * fast_pow_double(err_pow / 2) * fast_pow_double(err_pow - err_pow / 2));
     // make sure hasn't overflowed. if set to 2**62-1, will surely round to 0.
     // must keep err < 2**62 for bit_truncate_double to work
     int_err = (int_err & HIGH_BITS_DOUBLE) ? ERR_MAX_DOUBLE : int_err;
-- 
2.43.0


From e8771a461e16c9d2d76e6e987ad8e2384b29b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:24 +0000
Subject: [PATCH 087/122] fix: truncate subnormal numbers within the error

Subnormal numbers have no implicit bit.
---
 caput/util/truncate.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index e4947a2..c091aa6 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -201,6 +201,10 @@ inline float _bit_truncate_float(float val, float err) {
     int32_t val_s = val_pre >> LEN_EXPONENT_FLOAT;
     // extract mantissa. mask is 2**23 - 1. Add back the implicit 24th bit
     int32_t val_man = (cast_val_ptr[0] & MASK_MANTISSA_FLOAT) + IMPLICIT_BIT_FLOAT;
+    // subnormal numbers have no implicit bit, and the scale of the smallest normal ones
+    int32_t subnormal = (val_pow == 0);
+    val_man -= subnormal * IMPLICIT_BIT_FLOAT;
+    val_pow += subnormal;
     // scale the error to the integer representation of the mantissa
     // scale by 2**(23 + 127 - pow)
     // in two steps, as the power may be too large for a float
@@ -214,6 +218,7 @@ inline float _bit_truncate_float(float val, float err) {
     // truncate
     int32_t tr_man = bit_truncate(val_man, int_err);
 
+    int32_t tr_sub = tr_man;
     // count leading zeros
     int32_t z_count = count_zeros(tr_man);
     // adjust power after truncation to account for loss of implicit bit
@@ -224,6 +229,8 @@ inline float _bit_truncate_float(float val, float err) {
     val_pow = ((z_count != 32) ? val_pow : 0);
     // restore sign and exponent
     int32_t tr_val = tr_man | ((val_pow | (val_s << 8)) << 23);
+    // the mantissa of a subnormal number is kept as it is
+    tr_val = subnormal ? (tr_sub | ((val_s << 8) << 23)) : tr_val;
     // cast back to float
     float* tr_val_ptr = (float*)&tr_val;
 
@@ -252,6 +259,10 @@ inline double _bit_truncate_double(double val, double err) {
     int64_t val_s = val_pre >> LEN_EXPONENT_DOUBLE;
     // extract mantissa. mask is 2**52 - 1. Add back the implicit 53rd bit
     int64_t val_man = (cast_val_ptr[0] & MASK_MANTISSA_DOUBLE) + IMPLICIT_BIT_DOUBLE;
+    // subnormal numbers have no implicit bit, and the scale of the smallest normal ones
+    int64_t subnormal = (val_pow == 0);
+    val_man -= subnormal * IMPLICIT_BIT_DOUBLE;
+    val_pow += subnormal;
 
     // Step 2: Scale the error to the integer representation of the mantissa:
     // ----------------------------------------------------------------------
@@ -270,6 +281,7 @@ inline double _bit_truncate_double(double val, double err) {
 
     // Step 4: Put it back together:
     // -----------------------------
+    int64_t tr_sub = tr_man;
     // count leading zeros
     int64_t z_count = count_zeros_64(tr_man);
     // adjust power after truncation to account for loss of implicit bit
@@ -280,6 +292,8 @@ inline double _bit_truncate_double(double val, double err) {
     val_pow = ((z_count != 64) ? val_pow : 0);
     // restore sign and exponent
     int64_t tr_val = tr_man | ((val_pow | (val_s << 11)) << 52);
+    // the mantissa of a subnormal number is kept as it is
+    tr_val = subnormal ? (tr_sub | ((val_s << 11) << 52)) : tr_val;
     // cast back to double
     double* tr_val_ptr = (double*)&tr_val;
 
-- 
2.43.0


From 721be260941ae55156537259f6fb9745263d262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:24 +0000
Subject: [PATCH 088/122] fix: truncate with weights whose axes are ordered
 differently

The weights were broadcast by position, such that the wrong ones were
used when the axes have the same length.
---
 caput/pipeline/tasklib/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 605cf3f..0ceba89 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -737,11 +737,13 @@ class Truncate(ContainerTask):
 
         if isinstance(weight, MemDataset):
             # Add missing broadcast axes to the weights dataset
-            waxes = weight.attrs.get("axis", [])
-            daxes = data.attrs.get("axis", [])
+            waxes = list(weight.attrs.get("axis", []))
+            daxes = list(data.attrs.get("axis", []))
+            # Put the axes in the order of those of the data
+            order = [waxes.index(ax) for ax in daxes if ax in waxes]
             # Add length-one axes
             slobj = tuple(slice(None) if ax in waxes else np.newaxis for ax in daxes)
-            weight = weight[:][slobj]
+            weight = np.asarray(weight[:]).transpose(order)[slobj]
 
         # Broadcast `weight` against the shape of the truncation array
         weight = np.broadcast_to(weight, data[:].shape).copy().reshape(-1)
-- 
2.43.0


From 79c9c375808c705b50a89e9d7e73a92bb2f80852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:11 +0000
Subject: [PATCH 089/122] fix: do not crash when rounding hides the weighted
 median

With weights whose sums are not exact the search for the median could
be led to a child that does not exist.
---
 caput/algorithms/median/MedianTree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/MedianTree.hpp b/caput/algorithms/median/MedianTree.hpp
index e2d4bd1..dd1693f 100644
--- a/caput/algorithms/median/MedianTree.hpp
+++ b/caput/algorithms/median/MedianTree.hpp
@@ -541,10 +541,11 @@ T Tree<T>::weighted_median(char method) {
 
     // Find the highest order node that satisfies median conditions
     while (true) {
-        if (node->left_weight + previous_weights > midpoint) {
+        // (rounding of the sums must not lead us to a child that does not exist)
+        if (node->left && node->left_weight + previous_weights > midpoint) {
             next_weights += node->right_weight + node->data->weight;
             node = node->left;
-        } else if (node->right_weight + next_weights > midpoint) {
+        } else if (node->right && node->right_weight + next_weights > midpoint) {
             previous_weights += node->left_weight + node->data->weight;
             node = node->right;
         } else
-- 
2.43.0


From b5c1752e20899d8d43b8dda7f588a8515cda09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:11 +0000
Subject: [PATCH 090/122] fix: find the lower and higher moving weighted median

The value next to the one found may be anywhere in the tree, and only
one value can be as good.
---
 caput/algorithms/median/MedianTree.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/caput/algorithms/median/MedianTree.hpp b/caput/algorithms/median/MedianTree.hpp
index dd1693f..c2ef2b2 100644
--- a/caput/algorithms/median/MedianTree.hpp
+++ b/caput/algorithms/median/MedianTree.hpp
@@ -595,9 +595,11 @@ template<typename T>
 T Tree<T>::weighted_median_higher(node_ptr<T> node, double previous_weights,
                                   double next_weights, double midpoint) {
     // Take the highest value that qualifies.
-    while (node->right_weight + next_weights <= midpoint
-           && node->left_weight + previous_weights + node->data->weight <= midpoint && node->right)
-        node = node->right;
+    if (node->left_weight + previous_weights + node->data->weight <= midpoint) {
+        node_ptr<T> next = in_order_successor(node);
+        if (next)
+            node = next;
+    }
     return (double)node->data->value;
 }
 
@@ -605,9 +607,11 @@ template<typename T>
 T Tree<T>::weighted_median_lower(node_ptr<T> node, double previous_weights,
                                  double next_weights, double midpoint) {
     // Take the lowest value that qualifies.
-    while (node->left_weight + previous_weights <= midpoint
-           && node->right_weight + next_weights + node->data->weight <= midpoint && node->left)
-        node = node->left;
+    if (node->right_weight + next_weights + node->data->weight <= midpoint) {
+        node_ptr<T> previous = in_order_predecessor(node);
+        if (previous)
+            node = previous;
+    }
     return (double)node->data->value;
 }
 
-- 
2.43.0


From 41602a6b325dc1b0a0e27e1b2dbc05de6d79c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:11 +0000
Subject: [PATCH 091/122] fix: give NaN for a first window without weight

As for the other windows.
---
 caput/algorithms/median/weighted.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 5ffdfbd..1fd7767 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -388,7 +388,7 @@ def _mwm_1D(
             node = dummy
         fifo.push_back(node)
 
-    medians[0] = avl.weighted_median(method)
+    medians[0] = avl.weighted_median(method) if avl.size() else np.nan
 
     # move window over the rest of the data
     for i in range(1, len_data):
-- 
2.43.0


From b1e65560d1df4070d125aa62b525999877601889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:11 +0000
Subject: [PATCH 092/122] fix: give NaN for windows without weight in two
 dimensions

As in one dimension, not zero, which may be a valid median.
---
 caput/algorithms/median/MedianTree.pxd | 2 +-
 caput/algorithms/median/weighted.pyx   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/median/MedianTree.pxd b/caput/algorithms/median/MedianTree.pxd
index db94819..80543c0 100644
--- a/caput/algorithms/median/MedianTree.pxd
+++ b/caput/algorithms/median/MedianTree.pxd
@@ -9,7 +9,7 @@ cdef extern from "MedianTree.hpp" namespace "MedianTree":
         shared_ptr[Data[T]] insert(const T& element, const double weight) nogil
         bool remove(const shared_ptr[Data[T]] node) nogil
         T weighted_median(char method) nogil
-        int size()
+        int size() nogil
 
 cdef extern from "MedianTreeNodeData.hpp" namespace "MedianTree":
     cdef cppclass Data[T]:
diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 1fd7767..2348089 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -5,6 +5,7 @@
 import numpy as np
 import numpy.typing as npt
 
+from libc.math cimport NAN
 from libcpp.memory cimport shared_ptr
 from libcpp.deque cimport deque
 from cython.parallel import prange, parallel
@@ -479,7 +480,7 @@ def _mwm_2D(
                         node = dummy
                     fifo.push_back(node)
 
-            median_view[0, col] = avl.weighted_median(method)
+            median_view[0, col] = avl.weighted_median(method) if avl.size() else NAN
 
             # move window over the col
             for row in range(1, len_data_y):
@@ -507,6 +508,8 @@ def _mwm_2D(
                         else:
                             node = dummy
                         fifo.push_back(node)
-                median_view[row, col] = avl.weighted_median(method)
+                median_view[row, col] = (
+                    avl.weighted_median(method) if avl.size() else NAN
+                )
 
     return medians
-- 
2.43.0


From 2d3d79ce75ff334446e0e4243c5cdce135cf439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:11 +0000
Subject: [PATCH 093/122] fix: do not read beyond a single element in quantile

---
 caput/algorithms/median/weighted.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 2348089..602dfbc 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -49,6 +49,10 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
     cdef data_t min_d, max_d
     cdef data_t min_w, max_w
 
+    # There is nothing to divide (nor an element to the right of it)
+    if i == j:
+        return A[i]
+
     while True:
         ii = i
         jj = j
-- 
2.43.0


From 68b860f3660b3850d9989f6c3f66010f21af00d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:11 +0000
Subject: [PATCH 094/122] fix: take quantiles of arrays that are not contiguous
 or read-only

---
 caput/algorithms/median/weighted.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 602dfbc..698ad60 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -220,8 +220,8 @@ def quantile(A, W, q, method = "split"):
 
     # Reshape the arrays to 2D. The last axis is the one along which the quantile will
     # be calculated
-    Ar = A.reshape(-1, A.shape[-1])
-    Wr = W.reshape(-1, W.shape[-1])
+    Ar = np.require(A.reshape(-1, A.shape[-1]), requirements=["C", "W"])
+    Wr = np.require(W.reshape(-1, W.shape[-1]), requirements=["C", "W"])
 
     # Allocate the temporaries and output arrays
     At = np.ndarray(Ar.shape[-1], dtype=A.dtype)
-- 
2.43.0


From 835b027debaea74a5553c01895deab87ef23671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:11 +0000
Subject: [PATCH 095/122] fix: check the shapes given to the moving weighted
 median

Weights of another shape than the data, negative window sizes and empty
arrays were read out of bounds. A list as the window size is accepted
whatever its order.
---
 caput/algorithms/median/weighted.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 698ad60..e4a5c13 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -317,10 +317,10 @@ def _check_arrays(
     if np.iscomplexobj(weights):
         raise ValueError(f"Weights must be real (got {weights.dtype})")
 
-    if data.ndim != weights.ndim:
+    if data.shape != weights.shape:
         raise ValueError(
             f"Expected data and weights to have same dimensions "
-            f"(is {data.ndim} and {weights.ndim})."
+            f"(is {data.shape} and {weights.shape})."
         )
 
     return data, weights
@@ -342,6 +342,10 @@ def moving_weighted_median(data, weights, size, method = "split"):
 
     if size == 0:
         raise ValueError('Got size=0, what do you expect me to do with that?')
+    if np.any(np.asarray(size) < 0):
+        raise ValueError('Need a positive window size (got {}).'.format(size))
+    if data.size == 0:
+        return np.empty(data.shape, dtype=np.float64)
     if size == 1:
         return np.where(weights != 0, data, weights)
 
@@ -364,7 +368,7 @@ def moving_weighted_median(data, weights, size, method = "split"):
         if size[0] < size[1]:
             return _mwm_2D(data.T, weights.T, tuple(reversed(size)), c_method).T
         else:
-            return _mwm_2D(data, weights, size, c_method)
+            return _mwm_2D(data, weights, tuple(size), c_method)
     raise NotImplementedError('weighted_median() is only implemented for 1 and 2 dimensions, not {}'
                          .format(data.ndim))
 
-- 
2.43.0


From c87b0cde9c215fe9d0adf332814f6e0f64770c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:05 +0000
Subject: [PATCH 096/122] fix: ignore elements without weight in the lower
 quantile at zero

---
 caput/algorithms/median/weighted.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index e4a5c13..4897466 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -107,9 +107,13 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
             i = _max_non_zero(A, W, 0, jj)
             j = _min_non_zero(A, W, jj + 1, len(A) - 1)
 
-            if (W[j] == 0 and W[i] > 0) or method == "l":
+            if W[j] == 0 and W[i] > 0:
                 return A[i]
-            elif (W[i] == 0 and W[j] > 0) or method == "h":
+            elif W[i] == 0 and W[j] > 0:
+                return A[j]
+            elif method == "l":
+                return A[i]
+            elif method == "h":
                 return A[j]
             else:  # method == "s":
                 return <data_t>((A[i] + A[j]) / 2)
-- 
2.43.0


From 1b15207eb04e8260c5f8b97ac9259a0b79b2d27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:35 +0000
Subject: [PATCH 097/122] fix: never select elements without weight in quantile

Rounding of the sums of the weights could lead to them.
---
 caput/algorithms/median/weighted.pyx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 4897466..1948b62 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -182,28 +182,35 @@ cpdef void _quickselect(
     # Worker routine for the weighted quickselect
 
     cdef double wt, qs
-    cdef int i, j
+    cdef int i, j, n
 
     for i in range(A.shape[0]):
 
         wt = 0
+        n = 0
 
+        # Leave out the elements without weight. Although they should not be selected,
+        # rounding of the sums of the weights may otherwise lead to them
         for j in range(A.shape[1]):
-            At[j] = A[i, j]
-            Wt[j] = W[i, j]
-            wt += W[i, j]
+            if W[i, j] != 0:
+                At[n] = A[i, j]
+                Wt[n] = W[i, j]
+                wt += W[i, j]
+                n += 1
 
         # If all the weights are zero just ensures to do a regular quantile calculation
         # by using uniform non-zero weights
         if wt == 0:
             for j in range(W.shape[1]):
+                At[j] = A[i, j]
                 Wt[j] = 1
             wt = W.shape[1]
+            n = W.shape[1]
 
         qs = wt * q
 
 
-        quantile[i] = _quickselect_weight(At, Wt, qs, method)
+        quantile[i] = _quickselect_weight(At[:n], Wt[:n], qs, method)
 
 
 def quantile(A, W, q, method = "split"):
-- 
2.43.0


From 1bcb12e2f78f7458c452acee56066e88402a091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:36 +0000
Subject: [PATCH 098/122] fix: link the truncation functions when they are not
 inlined

---
 caput/util/truncate.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index c091aa6..187516a 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -46,7 +46,7 @@ const int64_t ERR_MAX_DOUBLE = 4611686018427387903L;
  *
  *  @warning Undefined results for err < 0 and err > 2**30.
  */
-inline int32_t bit_truncate(int32_t val, int32_t err) {
+static inline int32_t bit_truncate(int32_t val, int32_t err) {
     // *gran* is the granularity. It is the power of 2 that is *larger than* the
     // maximum error *err*.
     int32_t gran = err;
@@ -83,7 +83,7 @@ inline int32_t bit_truncate(int32_t val, int32_t err) {
  *
  *  @warning Undefined results for err < 0 and err > 2**62.
  */
-inline int64_t bit_truncate_64(int64_t val, int64_t err) {
+static inline int64_t bit_truncate_64(int64_t val, int64_t err) {
     // *gran* is the granularity. It is the power of 2 that is *larger than* the
     // maximum error *err*.
     int64_t gran = err;
@@ -119,7 +119,7 @@ inline int64_t bit_truncate_64(int64_t val, int64_t err) {
  *  @brief Count the number of leading zeros in a binary number.
  *         Taken from https://stackoverflow.com/a/23857066
  */
-inline int32_t count_zeros(int32_t x) {
+static inline int32_t count_zeros(int32_t x) {
     x = x | (x >> 1);
     x = x | (x >> 2);
     x = x | (x >> 4);
@@ -133,7 +133,7 @@ inline int32_t count_zeros(int32_t x) {
  *  @brief Count the number of leading zeros in a binary number.
  *         Taken from https://stackoverflow.com/a/23857066
  */
-inline int64_t count_zeros_64(int64_t x) {
+static inline int64_t count_zeros_64(int64_t x) {
     x = x | (x >> 1);
     x = x | (x >> 2);
     x = x | (x >> 4);
@@ -153,7 +153,7 @@ inline int64_t count_zeros_64(int64_t x) {
  *
  * @returns The result of 2^e
  */
-inline float fast_pow(int8_t e) {
+static inline float fast_pow(int8_t e) {
     float* out_f;
     // Construct float bitwise
     uint32_t out_i = ((uint32_t)(127 + e) << 23);
@@ -172,7 +172,7 @@ inline float fast_pow(int8_t e) {
  *
  * @returns The result of 2^e
  */
-inline double fast_pow_double(int16_t e) {
+static inline double fast_pow_double(int16_t e) {
     double* out_f;
     // Construct float bitwise
     uint64_t out_i = ((uint64_t)(1023 + e) << 52);
@@ -191,7 +191,7 @@ inline double fast_pow_double(int16_t e) {
  *  happens to remove all of the non-zero bits in the mantissa, a NaN can become inf.
  *
  */
-inline float _bit_truncate_float(float val, float err) {
+static inline float _bit_truncate_float(float val, float err) {
     // cast float memory into an int
     int32_t* cast_val_ptr = (int32_t*)&val;
     // extract the exponent and sign
@@ -247,7 +247,7 @@ inline float _bit_truncate_float(float val, float err) {
  *  happens to remove all of the non-zero bits in the mantissa, a NaN can become inf.
  *
  */
-inline double _bit_truncate_double(double val, double err) {
+static inline double _bit_truncate_double(double val, double err) {
     // Step 1: Extract the sign, exponent and mantissa:
     // ------------------------------------------------
     // cast float memory into an int
-- 
2.43.0


From cc1548f353416ae5e5065f615460c0272f541b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:46 +0000
Subject: [PATCH 099/122] fix: fill an output given to MultithreadedRNG as
 positional argument or None

---
 caput/algorithms/random.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index d73c831..97b7a4a 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -156,12 +156,16 @@ class MultithreadedRNG(np.random.Generator):
                 size = None
 
             # Try and get an out argument
-            if has_out and "out" in kwargs:
+            if has_out and len(args) > nparam + 2:
+                out = args[nparam + 2]
+            elif has_out and "out" in kwargs:
                 out = kwargs.pop("out")
-                size = out.shape
             else:
                 out = None
 
+            if out is not None:
+                size = out.shape
+
             # Try to figure out the dtype so we can pre-allocate the array for filling
             if has_dtype and len(args) > nparam + 1:
                 dtype = args[nparam + 1]
-- 
2.43.0


From 7ef1ef498c1106b18a7d7a221ca854fd04fa33fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:46 +0000
Subject: [PATCH 100/122] fix: fill an output of MultithreadedRNG that is not
 contiguous

---
 caput/algorithms/random.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 97b7a4a..3ac640a 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -223,12 +223,15 @@ class MultithreadedRNG(np.random.Generator):
                         size=len(local_array),
                     )
 
+            # This is a copy if the output is not contiguous
+            flat = out.ravel()
+
             # Generate the numbers with each worker thread
             futures = [
                 self._executor.submit(
                     _fill,
                     self._random_generators[i],
-                    out.ravel()[(i * step) : ((i + 1) * step)],
+                    flat[(i * step) : ((i + 1) * step)],
                 )
                 for i in range(self._threads)
             ]
@@ -240,6 +243,9 @@ class MultithreadedRNG(np.random.Generator):
                         f"An exception occurred in thread {ii} (and maybe others)."
                     ) from e
 
+            if not np.shares_memory(flat, out):
+                out[...] = flat.reshape(out.shape)
+
             return out
 
         # Copy over the docstring for the method
-- 
2.43.0


From 82d99c0a7aab33205a1adda2f8736e6988c3d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:46 +0000
Subject: [PATCH 101/122] fix: do not ignore a size that does not match the
 output in MultithreadedRNG

---
 caput/algorithms/random.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 3ac640a..d4e291a 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -164,6 +164,10 @@ class MultithreadedRNG(np.random.Generator):
                 out = None
 
             if out is not None:
+                if size is not None and tuple(np.atleast_1d(size)) != out.shape:
+                    raise ValueError(
+                        f"Output array of shape {out.shape} does not match size {size}."
+                    )
                 size = out.shape
 
             # Try to figure out the dtype so we can pre-allocate the array for filling
-- 
2.43.0


From ddb9ce87db2dc60c2b6f24d0ccf8e3e099c41815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:46 +0000
Subject: [PATCH 102/122] fix: give Poisson numbers the same type whatever
 their number

---
 caput/algorithms/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index d4e291a..5688421 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -80,7 +80,7 @@ class MultithreadedRNG(np.random.Generator):
         "uniform": (2, np.float64, False, False),
         "normal": (2, np.float64, False, False),
         "standard_normal": (0, np.float64, True, True),
-        "poisson": (1, np.float64, False, False),
+        "poisson": (1, np.int64, False, False),
         "power": (1, np.float64, False, False),
     }
 
-- 
2.43.0


From fe2a32124d15df258f4c5465660074d3e463889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:46 +0000
Subject: [PATCH 103/122] fix: do not drop a positional endpoint in
 MultithreadedRNG.integers

---
 caput/algorithms/random.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 5688421..bc8665f 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -178,7 +178,10 @@ class MultithreadedRNG(np.random.Generator):
             else:
                 dtype = defdtype
 
-            # Trim any excess positional arguments
+            # Trim any excess positional arguments, but generate directly if there is
+            # one which isn't understood here
+            if len(args) > nparam + 1 + has_dtype + has_out:
+                return method(self, *orig_args, **orig_kwargs)
             args = args[:nparam]
 
             # Check that all the parameters are scalar
-- 
2.43.0


From 6c3d7889daf987ee67ba6fe593404cd16d5496a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:06 +0000
Subject: [PATCH 104/122] fix: name an unknown queue system in the error

---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 083f55e..f73bf6d 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -305,7 +305,7 @@ def _resolve_system_config(conf: dict) -> dict:
             )
         else:
             raise ValueError(
-                f"Specified system `{system}`: is not known. "
+                f"Specified system `{sysname}`: is not known. "
                 f"Known systems are: {list(REGISTERED_SYSTEMS.keys())} "
                 f"and known clusters are: {list(REGISTERED_CLUSTERS.keys())}"
             )
-- 
2.43.0


From c590930ffa317a0ed11d6b8270c24ad63a270572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:06 +0000
Subject: [PATCH 105/122] fix: fill the PBS job script and require all of its
 keys

---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 7c98664..b21e0b7 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -58,7 +58,7 @@ options = "--mail-user={email} --mail-type={mailtype}"
 command = "qsub"
 invoke = "mpirun"
 invoke_args = "-np {mpiproc:d} -npernode {pernode:d} -bind-to none"
-required = ["name", "nodes", "time", "directory", "ppn", "queue"]
+required = ["name", "nodes", "time", "directory", "ompnum", "pernode", "ppn", "queue"]
 script = """#!/bin/bash
 #PBS -l nodes={nodes:d}:ppn={ppn:d}
 #PBS -q {queue:s}
@@ -78,7 +78,7 @@ function setCrashed {{
 
 trap setCrashed ERR
 
-{module:s}
+{modules:s}
 
 source {venv:s}
 
-- 
2.43.0


From 1c50b6730970f98f4117543668dafb7db24cfda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:06 +0000
Subject: [PATCH 106/122] fix: forward the profiling options to PBS jobs

---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index b21e0b7..b08ae6d 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -85,7 +85,7 @@ source {venv:s}
 cd {workdir:s}
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
 
 # Set the status
 echo FINISHED > {statuspath:s}
-- 
2.43.0


From f887fa293df93aa8f2590c824181e02ab7ee4cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:06 +0000
Subject: [PATCH 107/122] fix: use the arguments of the run command given by
 the queue system

---
 caput/pipeline/runner/_scheduler/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index f73bf6d..5c99666 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -434,9 +434,9 @@ def _resolve_job_script(conf: dict, directories: dict) -> str:
         conf["invoke"] = REGISTERED_SYSTEMS[system].get("invoke", "mpirun")
 
     if "invoke_args" not in conf:
-        # Nothing here, but still need an empty string to
+        # If there's nothing here, still need an empty string to
         # satisfy the script template
-        conf["invoke_args"] = ""
+        conf["invoke_args"] = REGISTERED_SYSTEMS[system].get("invoke_args", "")
 
     # Path does not support type specifiers, so convert all `Path`
     # objects to strings
-- 
2.43.0


From e33ed0c75e55192ba5f42a23f3d29162b326d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:06 +0000
Subject: [PATCH 108/122] fix: queue profiled jobs with a profiler that exists

---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 5c99666..533a1fb 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -112,7 +112,7 @@ def queue(
     submit: bool = False,
     lint: bool = True,
     profile: bool = False,
-    profiler: str | None = "cProfiler",
+    profiler: str | None = "cProfile",
     psutil: bool = False,
     overwrite: Literal["never", "failed"] = "never",
     email: str | None = None,
-- 
2.43.0


From b67b570915100266614d5688e021f9f69a44c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:06 +0000
Subject: [PATCH 109/122] fix: run pipelines from templates without profiling
 options

---
 caput/pipeline/runner/_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index 88541d6..47730be 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -43,10 +43,10 @@ def lint_config(configfile: os.PathLike | tuple[os.PathLike, ...]) -> None:
 
 def run_pipeline(
     configfile: os.PathLike,
-    profile: bool,
-    profiler: Literal["cprofile", "pyinstrument"],
-    mpi_abort: bool,
-    psutil: bool,
+    profile: bool = False,
+    profiler: Literal["cprofile", "pyinstrument"] = "cprofile",
+    mpi_abort: bool = True,
+    psutil: bool = False,
 ) -> None:
     """Run a pipeline immediately from the given `configfile`.
 
-- 
2.43.0


From 5691dc3a2d33b6fd6b7bb078f8b9cdfded18807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:06 +0000
Subject: [PATCH 110/122] fix: find the packages of a virtual environment on
 Python 3.10 and later

---
 caput/pipeline/runner/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index 47730be..29e8be4 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -182,7 +182,7 @@ def _load_venv(configfile: os.PathLike) -> None:
         logger.warning(f"Path defined in 'cluster'/'venv' doesn't exist ({base})")
         sys.exit(1)
 
-    site_packages = base / "lib" / f"python{sys.version[:3]}" / "site-packages"
+    site_packages = base / "lib" / f"python{sys.version_info.major}.{sys.version_info.minor}" / "site-packages"
     prev_sys_path = list(sys.path)
 
     site.addsitedir(site_packages)
-- 
2.43.0


From c13b09bccb39f80e3a33b88b53c1f5f503592444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:06 +0000
Subject: [PATCH 111/122] fix: do not leave a job directory behind when a job
 cannot be queued

---
 caput/pipeline/runner/_scheduler/__init__.py | 34 ++++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 533a1fb..e69e5fc 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -219,19 +219,12 @@ def queue(
     system = resolved_config["system"]
     system_config = REGISTERED_SYSTEMS[system]
 
-    directories = _create_job_directories(resolved_config, overwrite)
+    directories = _resolve_job_directories(resolved_config, overwrite)
 
     if not directories:
         # The job already exists and we are not overwriting
         return
 
-    # Copy the config file to the job directory
-    sfile = _fix_path(configfile)
-    dfile = _fix_path(directories["jobdir"] / "config.yaml")
-
-    if sfile != dfile:
-        shutil.copyfile(sfile, dfile)
-
     # Forward profiler configuration
     resolved_config["profile"] = "--profile" if profile else ""
     resolved_config["profiler"] = f"--profiler={profiler}" if profile else ""
@@ -240,10 +233,6 @@ def queue(
     # Resolve the cluster job script based on the configuration
     jobscript = _resolve_job_script(resolved_config, directories)
 
-    # Write the job script to the job directory
-    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
-        f.write(jobscript)
-
     # Resolve mail options, if available for the queue system
     extra_options = []
 
@@ -266,6 +255,20 @@ def queue(
                 mail_config["options"].format(email=email, mailtype=mailtype).split()
             )
 
+    # Everything is resolved, so now create the job directory
+    directories["jobdir"].mkdir(parents=True, exist_ok=True)
+
+    # Copy the config file to the job directory
+    sfile = _fix_path(configfile)
+    dfile = _fix_path(directories["jobdir"] / "config.yaml")
+
+    if sfile != dfile:
+        shutil.copyfile(sfile, dfile)
+
+    # Write the job script to the job directory
+    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
+        f.write(jobscript)
+
     if submit:
         # NOTE: explicitly set the environment to what Python thinks it should
         # be. This is because mpi4py will incorrectly modify the environment
@@ -324,8 +327,8 @@ def _resolve_system_config(conf: dict) -> dict:
     return cluster_conf
 
 
-def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
-    """Create job directories based on a configuration dictionary."""
+def _resolve_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
+    """Resolve the job directories based on a configuration dictionary."""
     directories = {}
 
     # If no temporary directory set, just use the final directory
@@ -344,7 +347,6 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
     if not finaldir.is_absolute():
         raise ValueError(f"Final output directory path {finaldir} must be absolute")
 
-    # Create temporary directory if required
     jobdir = workdir / "job/"
     statusfile = jobdir / "STATUS"
 
@@ -361,8 +363,6 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
                         f"Successful job already exists at {workdir}. Skipping."
                     )
                     return None
-    else:
-        jobdir.mkdir(parents=True)
 
     directories["jobdir"] = jobdir
     directories["workdir"] = workdir
-- 
2.43.0


From f85552269c8c595564b2e183265b33022f53a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:32 +0000
Subject: [PATCH 112/122] fix: do not share values between a config and the
 instances read from it

---
 caput/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index bff845c..0a8f897 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -160,7 +160,9 @@ class Property:
 
         if self.key in config:
             try:
-                val = self.proptype(config[self.key])
+                # Copy, so that the value is not shared with the config (or with
+                # other instances that are read from it)
+                val = self.proptype(deepcopy(config[self.key]))
             except (TypeError, ValueError) as e:
                 raise CaputConfigError(
                     f"Can't read value of '{self.key}' as {self.proptype}: {e}",
-- 
2.43.0


From a2aaff498be26c79d7fbd0b2f4f215b733407b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:48 +0000
Subject: [PATCH 113/122] fix: raise a config error for unused keys that are
 not strings

---
 caput/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index 0a8f897..53c7561 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -286,7 +286,7 @@ class Reader:
             if set(config_keys) - excluded_keys:
                 raise CaputConfigError(
                     "Unused configuration keys: [%s]"  # noqa: UP031
-                    % ", ".join(set(config_keys) - excluded_keys),
+                    % ", ".join(str(k) for k in set(config_keys) - excluded_keys),
                 )
 
         if not use_defaults:
-- 
2.43.0


From 8b9b67ed123c6166a017a9224e752573a847718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:05 +0000
Subject: [PATCH 114/122] fix: transpose distributed arrays with np.transpose
 and negative axes

---
 caput/mpiarray.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index fce5329..c458f22 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1391,14 +1391,17 @@ class MPIArray(np.ndarray):
 
         if len(axes) == 1 and isinstance(axes[0], tuple | list):
             axes: list | tuple = axes[0]
-        elif axes is None or axes == ():
+        elif axes in ((), (None,)):
             axes: list = list(range(self.ndim - 1, -1, -1))
 
+        # Resolve negative axes
+        axes: list = [ax % self.ndim for ax in axes]
+
         tdata._global_shape = tuple(self.global_shape[ax] for ax in axes)
         tdata._local_shape = tuple(self.local_shape[ax] for ax in axes)
         tdata._local_offset = tuple(self.local_offset[ax] for ax in axes)
 
-        tdata._axis = list(axes).index(self.axis)
+        tdata._axis = axes.index(self.axis)
         tdata._comm = self._comm
 
         return tdata
-- 
2.43.0


From 752c49d285526afe7be0c37b217ecdff7dea9b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:24 +0000
Subject: [PATCH 115/122] fix: redistribute a copied dataset without changing
 the original

---
 caput/memdata/_memh5.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 40a803b..8c878c3 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1559,9 +1559,17 @@ class MemDatasetDistributed(MemDataset):
         axis : int
             Axis to distribute over.
         """
+        base_dset = None
         if self._storage_root is not None:
+            try:
+                base_dset = self._storage_root[self.name]
+            except KeyError:
+                # No longer part of the tree
+                pass
+
+        # A view shares its attributes with the base dataset, a copy does not
+        if base_dset is not None and base_dset.attrs is self.attrs:
             # This is a view, and we should modify the base dataset
-            base_dset = self._storage_root[self.name]
             base_dset.redistribute(axis=axis)
             self._data = base_dset._data
         else:
-- 
2.43.0


From 38f7dd08d76eabc88147ae5bd51203e3cf8a616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:16 +0000
Subject: [PATCH 116/122] fix: read selections with index lists for the first
 axes only from zarr files

---
 caput/mpiarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index c458f22..674504b 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2300,6 +2300,10 @@ def _read_selection(dset: Any, sel: SelectionLike) -> npt.ArrayLike:
     if not isinstance(sel, tuple):
         return dset[sel]
 
+    # zarr only takes a list of indices when there is a selection for every axis
+    if not any(s is Ellipsis for s in sel):
+        sel = tuple(_expand_sel(sel, len(dset.shape)))
+
     lists = [i for i, s in enumerate(sel) if isinstance(s, list | tuple | np.ndarray)]
     data = dset[tuple(slice(None) if i in lists[1:] else s for i, s in enumerate(sel))]
 
-- 
2.43.0


From 2bda4744914e3505d5d5e07b7ed769bbdee13087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:03 +0000
Subject: [PATCH 117/122] fix: never filter a dataset along the axis it is
 distributed over

---
 caput/containers/_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 2fe443e..2099f67 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -150,7 +150,9 @@ def copy_datasets_filter(
             else:
                 # Find the largest axis available
                 ax_priority = [
-                    x for _, x in sorted(zip(item.shape, item_axes)) if x not in axis
+                    x
+                    for _, x in sorted(zip(item.shape, item_axes))
+                    if x not in axis and x not in selection
                 ]
                 if not ax_priority:
                     raise ValueError(
-- 
2.43.0


From 04b00ff647d995e28b6a0389fb65c187891ab3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:30 +0000
Subject: [PATCH 118/122] fix: give the UTC time in time strings, whatever the
 time zone of the datetime

---
 caput/astro/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/astro/time.py b/caput/astro/time.py
index 1764c69..5a2ad30 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -228,6 +228,8 @@ def datetime_to_timestr(dt):
     --------
     :py:func:`timestr_to_datetime`
     """
+    dt = naive_datetime_to_utc(dt).astimezone(timezone.utc)
+
     return dt.strftime("%Y%m%dT%H%M%SZ")
 
 
-- 
2.43.0


From 750380e1ddae6aec3ca726953604cd36e1531973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:30 +0000
Subject: [PATCH 119/122] fix: accept empty arrays in time_of_day

---
 caput/astro/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/time.py b/caput/astro/time.py
index 5a2ad30..2427552 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -360,7 +360,7 @@ def naive_datetime_to_utc(dt):
     return dt
 
 
-@arraytools.vectorize()
+@arraytools.vectorize(otypes=[np.float64])
 def time_of_day(time):
     """Return the time since the start of the UTC day in seconds.
 
-- 
2.43.0


From 563b062ba8194fe24e3d6164521936077eb4f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 120/122] fix: accept zeros and lists of numbers in
 invert_no_zero

---
 caput/algorithms/_invert_no_zero/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index 19ccbd5..db25f79 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -29,7 +29,10 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
         if this cannot be preserved the output is C-contiguous. If `out` was not `None`,
         this is `out`.
     """
-    if not isinstance(x, np.generic | np.ndarray) or np.issubdtype(x.dtype, np.integer):
+    if not isinstance(x, np.generic | np.ndarray):
+        x = np.asarray(x)
+
+    if np.issubdtype(x.dtype, np.integer):
         with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
             return np.where(x == 0, 0.0, 1.0 / x)
 
-- 
2.43.0


From ce0a2e7d5617d9125e464f5c14a7c76ea671c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 121/122] fix: fill the output given to invert_no_zero for
 integers

---
 caput/algorithms/_invert_no_zero/__init__.py | 22 +++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index db25f79..ce500d0 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -32,16 +32,22 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
     if not isinstance(x, np.generic | np.ndarray):
         x = np.asarray(x)
 
+    if out is not None and x.shape != out.shape:
+        raise ValueError(
+            f"Input and output arrays don't have same shape: {x.shape} != {out.shape}."
+        )
+
     if np.issubdtype(x.dtype, np.integer):
         with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
-            return np.where(x == 0, 0.0, 1.0 / x)
-
-    if out is not None:
-        if x.shape != out.shape:
-            raise ValueError(
-                f"Input and output arrays don't have same shape: {x.shape} != {out.shape}."
-            )
-    else:
+            inverse = np.where(x == 0, 0.0, 1.0 / x)
+
+        if out is None:
+            return inverse
+
+        out[...] = inverse
+        return out
+
+    if out is None:
         # This works even for MPIArrays, producing a correctly shaped MPIArray
         out = np.empty_like(x, order="A")
 
-- 
2.43.0


From 164f01f377309623aee6596426b961fffe203336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 122/122] fix: fill outputs of any memory layout in
 invert_no_zero

---
 caput/algorithms/_invert_no_zero/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index ce500d0..8565075 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -54,8 +54,15 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
     # In order to be able to flatten the arrays to do element by element operations, we
     # need to ensure the inputs are numpy arrays, and so we take a view which will work
     # even if `x` (and thus `out`) are MPIArray's
-    _invert_no_zero(
-        x.view(np.ndarray).ravel(order="A"), out.view(np.ndarray).ravel(order="A")
-    )
+    x_arr, out_arr = x.view(np.ndarray), out.view(np.ndarray)
+
+    # Both must be flattened in the same order. The flattened output is a copy if this
+    # order is not the one it has in memory.
+    order = "F" if x_arr.flags.fnc and out_arr.flags.fnc else "C"
+    inverse = out_arr.ravel(order=order)
+    _invert_no_zero(x_arr.ravel(order=order), inverse)
+
+    if not np.may_share_memory(inverse, out_arr):
+        out_arr[...] = inverse.reshape(out_arr.shape, order=order)
 
     return out
-- 
2.43.0

