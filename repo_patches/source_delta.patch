From 06749ce689978800b70aaff2aa18bf1bdb483afc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 01/57] fix: repartition() scrambled Fortran ordered
 multidimensional arrays

np.empty_like() keeps the memory layout of its input, so the receive
buffer was Fortran ordered too and reshape() returned a copy of it.
---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 534e40d..e6a0a6e 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -244,7 +244,7 @@ def repartition(arr, ndesired, comm=None):
 
     shape = list(arr.shape)
     shape[0] = sum(recv_count)
-    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype)
+    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype, order="C")
     my_alltoallv(arr.reshape((-1,)),        nvalues*send_count, nvalues*send_displ,
                  arr_return.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
-- 
2.43.0


From 2cff0a936704b0abd8a4c9910c10b028972326c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 02/57] fix: fetch_elements() returned garbage for arrays which
 are not C contiguous

If arr was Fortran ordered or result was a non-contiguous array then
reshape() made a copy of the receive buffer and the values received
were discarded.
---
 python/virgo/mpi/parallel_sort.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index e6a0a6e..15f250c 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -330,10 +330,13 @@ def fetch_elements(arr, index, result=None, comm=None):
         # Will return result, so allocate storage
         shape = list(arr.shape)
         shape[0] = index.shape[0]
-        values_recv = np.empty_like(arr, shape=shape)
-    else:
+        values_recv = np.empty_like(arr, shape=shape, order="C")
+    elif result.flags.c_contiguous:
         # Will put result in supplied array
         values_recv = result
+    else:
+        # Can't receive directly into a non-contiguous array
+        values_recv = np.empty_like(result, order="C")
 
     my_alltoallv(values.reshape((-1,)),      nvalues*recv_count, nvalues*recv_displ,
                  values_recv.reshape((-1,)), nvalues*send_count, nvalues*send_displ,
@@ -341,7 +344,10 @@ def fetch_elements(arr, index, result=None, comm=None):
     del values
 
     # Restore original order using index array
-    values_recv[idx,...] = values_recv.copy()
+    if result is None or values_recv is result:
+        values_recv[idx,...] = values_recv.copy()
+    else:
+        result[idx,...] = values_recv
 
     if result is None:
         return values_recv
-- 
2.43.0


From bba9fbf303fd18fe181b35fead4b7d1b3784869d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 03/57] fix: reduce_elements() used garbage updates if updates
 was Fortran ordered

The receive buffer inherited the Fortran order so that reshape() made
a copy of it and the values received were discarded.
---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 15f250c..d7d8da6 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1075,7 +1075,7 @@ def reduce_elements(arr, updates, index, op, comm=None):
 
     # Exchange updates
     recv_shape = (sum(recv_count),) + updates.shape[1:]
-    updates_recv = np.empty_like(updates, shape=recv_shape)
+    updates_recv = np.empty_like(updates, shape=recv_shape, order="C")
     my_alltoallv(updates.reshape((-1,)),      nvalues*send_count, nvalues*send_displ,
                  updates_recv.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
-- 
2.43.0


From 9050e593b251cb13a406b70ec7a781a3ecfef184 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 04/57] fix: parallel_bincount() raised TypeError for uint64
 input

np.uint64 + 1 is a float so the number of bins was not an integer.
---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index d7d8da6..6cbd5d9 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1126,7 +1126,7 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
         result_dtype = index_dtype
 
     # Find the maximum value in x
-    x_max = np.amax(x) if len(x) > 0 else 0
+    x_max = int(np.amax(x)) if len(x) > 0 else 0
     x_max = comm.allreduce(x_max, op=MPI.MAX)
     total_nr_bins = x_max+1
 
-- 
2.43.0


From eda39227dbd20aef19515239b1eaeec5623a0a9c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 05/57] fix: MultiFile.read() did not accept
 return_file_nr=True

---
 python/virgo/mpi/parallel_hdf5.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 2fdaf77..2a09a0b 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -563,6 +563,12 @@ class MultiFile:
         else:
             single_dataset = False
 
+        # File numbers can be requested for all datasets or a list of names
+        if return_file_nr is True:
+            return_file_nr = datasets
+        elif return_file_nr is False:
+            return_file_nr = None
+
         if self.collective:
             data, file_nr = self._read_collective(datasets, group, return_file_nr, read_attributes)
         else:
-- 
2.43.0


From c7b9737b20dae6d644f5fa3e2557fd64d2a9fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 06/57] fix: match() missed matches between int64 and uint64
 arrays with large values

---
 python/virgo/util/match.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/match.py b/python/virgo/util/match.py
index b811c7a..20dde7b 100644
--- a/python/virgo/util/match.py
+++ b/python/virgo/util/match.py
@@ -45,8 +45,13 @@ def match(arr1, arr2, arr2_sorted=False, arr2_index=None):
             idx = arr2_index
             tmp2 = arr2_n[arr2_index]
 
-    # Find where elements of arr1 are in arr2
-    ptr  = searchsorted(tmp2, tmp1)
+    # Find where elements of arr1 are in arr2. Integers are converted to the
+    # type of arr2 first because signed and unsigned 64 bit integers would be
+    # compared as floats. Values which don't fit can't match anything.
+    if tmp1.dtype.kind in "iu" and tmp2.dtype.kind in "iu":
+        ptr = searchsorted(tmp2, tmp1.astype(tmp2.dtype))
+    else:
+        ptr = searchsorted(tmp2, tmp1)
 
     # Make sure all elements in ptr are valid indexes into tmp2
     # (any out of range entries won't match so they'll get set to -1
-- 
2.43.0


From f256525c943f8faa3eae466a61d3fa23f9e5a964 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 07/57] fix: parallel_match() missed matches between int64 and
 uint64 arrays with large values

---
 python/virgo/mpi/parallel_sort.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 6cbd5d9..aa23ab9 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -782,6 +782,15 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
         print("Can only match elements between 1D arrays!")
         comm.Abort()
 
+    # Integers of different types are compared using the type of arr2, because
+    # signed and unsigned 64 bit integers would otherwise be compared as floats.
+    # Any arr1 values which this type can't represent will not match.
+    no_match = np.zeros(arr1.shape, dtype=bool)
+    if arr1.dtype != arr2.dtype and arr1.dtype.kind in "iu" and arr2.dtype.kind in "iu":
+        arr1_in = arr1
+        arr1 = arr1_in.astype(arr2.dtype)
+        no_match = arr1 != arr1_in
+
     # If arr1 has no elements we just return an empty index array
     if comm.allreduce(arr1.shape[0]) == 0:
         return np.ndarray(0, dtype=index_dtype)
@@ -879,6 +888,7 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
     index[idx] = index_out
     del index_out
     del idx
+    index[no_match] = -1
 
     return index
 
-- 
2.43.0


From f20dcba6a03f4687bc23fa5d7f6e89bfe05501e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 08/57] fix: attributes of datasets in BinaryFile ignored an
 earlier set_endian()

---
 python/virgo/util/read_binary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index fe954dd..a9defee 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -176,6 +176,7 @@ class BinaryGroup(Mapping):
                     raise KeyError("Duplicate attribute name!")
                 new_block = BinaryDataset(fname, dtype, offset, shape, tail)
                 self.datasets[head].attrs._items[tail] = new_block
+                new_block.endian = endian
             else:
                 # We're adding something to a sub-group, so ensure sub-group exists
                 if head not in self.groups:
-- 
2.43.0


From 65dbaa694f175de18078cd4740c5f40ebc1fdd66 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 09/57] fix: BinaryGroup.write_hdf5() did not write attributes
 of the root group

---
 python/virgo/util/read_binary.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index a9defee..1a27d1b 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -213,6 +213,10 @@ class BinaryGroup(Mapping):
         else:
             created = False
 
+        # Copy attributes of this group
+        for attr_name in self.attrs.keys():
+            h5group.attrs[attr_name] = self.attrs[attr_name]
+
         # Loop over datasets in this group and write them out
         for dataset_name in self.datasets.keys():
 
@@ -244,8 +248,6 @@ class BinaryGroup(Mapping):
         # Loop over groups in this group and create in output file
         for group_name in self.groups.keys():
             new_group = h5group.create_group(group_name)
-            for attr_name in self.groups[group_name].attrs.keys():
-                new_group.attrs[attr_name] = self.groups[group_name].attrs[attr_name]
             # Recursively write sub-groups
             self.groups[group_name].write_hdf5(h5group=new_group, gzip=gzip)
 
-- 
2.43.0


From a6f641963ced72f020a67a091b8b531f14ee2b01 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 10/57] fix: BinaryGroup.write_hdf5() failed on zero size
 datasets

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 1a27d1b..f7e778b 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -224,7 +224,7 @@ class BinaryGroup(Mapping):
             src_dset = self.datasets[dataset_name]
 
             # Determine chunk size for output
-            if gzip > 0:
+            if gzip > 0 and src_dset.size > 0:
                 chunks = tuple([s if s < chunk_size else chunk_size for s in src_dset.shape])
             else:
                 chunks = None
-- 
2.43.0


From 57d09c97e62d43c821e610b6e871e2d718efdc06 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 11/57] fix: default mode of BinaryFile.write_binary() was
 invalid

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index f7e778b..589964b 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -505,7 +505,7 @@ class BinaryFile(BinaryGroup):
     def __repr__(self):
         return ('BinaryFile("%s")' % (self.fname,))
 
-    def write_binary(self, fname, mode="wb-", endian=None):
+    def write_binary(self, fname, mode="xb", endian=None):
         """
         Write all blocks in this file to a new file. Output will be
         in byte order given by endian parameter, or same byte order
-- 
2.43.0


From 3de87a0acd8c4717ad1d690c92de615f43111333 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 12/57] fix: BinaryFile.close() left the file open if only
 read_and_skip() was used

---
 python/virgo/util/read_binary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 589964b..06cc024 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -430,6 +430,12 @@ class BinaryFile(BinaryGroup):
         self.close()
         return False
 
+    def close(self):
+        """Close all blocks, including any which are not in a group"""
+        BinaryGroup.close(self)
+        for block in self.all_blocks:
+            block.close()
+
     def _add_block(self, name, dtype, shape, is_attr):
 
         # Add the new data block
-- 
2.43.0


From 6ce7624db030958536936d7970d580e8fa38a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 13/57] fix: BinaryFile.toggle_byteswap() did not affect
 existing blocks if endian was set explicitly

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 06cc024..97c14bc 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -502,9 +502,9 @@ class BinaryFile(BinaryGroup):
     def toggle_byteswap(self):
         """Reverse the current byte swapping setting"""
         if self.endian == "<":
-            self.endian = ">"
+            self.set_endian(">")
         elif self.endian == ">":
-            self.endian = "<"
+            self.set_endian("<")
         elif self.endian == "=":
             self.enable_byteswap(True)
 
-- 
2.43.0


From ca2f27e3dbd39329cb52aea20cadb176703c35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 14/57] fix: GadgetBinarySnapshotFile rejected a list of extra
 datasets

---
 python/virgo/formats/gadget_snapshot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/gadget_snapshot.py b/python/virgo/formats/gadget_snapshot.py
index aa29b0d..914715a 100644
--- a/python/virgo/formats/gadget_snapshot.py
+++ b/python/virgo/formats/gadget_snapshot.py
@@ -102,7 +102,7 @@ class GadgetBinarySnapshotFile(BinaryFile):
             )
         # Add any user specified fields
         if extra is not None:
-            all_datasets += extra
+            all_datasets += tuple(extra)
         
         # Determine what datasets are present in this file
         count_records = 0
-- 
2.43.0


From e459c98cb8f3e34aa4d13958ed6e60af020634dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 15/57] fix: L-Gadget2 GroupIDsFile always failed looking for a
 non-existent dataset

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 78a6819..8bc3cb1 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -84,7 +84,7 @@ class GroupIDsFile(BinaryFile):
         self.add_dataset("NTask",      np.int32)
         
         # Establish endian-ness by sanity check on number of files
-        nfiles = self["NFiles"][...]
+        nfiles = self["NTask"][...]
         if nfiles < 1 or nfiles > 65535:
             self.enable_byteswap(True)
 
-- 
2.43.0


From 50b9bb617b4582527ea822c046bc573499708883 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 16/57] fix: L-Gadget2 SnapshotFile.sanity_check() failed with
 float hash table sizes in Python 3

---
 python/virgo/formats/subfind_lgadget2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 8bc3cb1..3920804 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -349,9 +349,9 @@ class SnapshotFile(BinaryFile):
         # Determine hashbits
         hashbits = 1
         while hashtabsize > 2:
-            hashtabsize /= 2
+            hashtabsize //= 2
             hashbits += 1
-        hashbits /= 3 # bits per dimension
+        hashbits //= 3 # bits per dimension
         del hashtabsize
 
         # Check positions
-- 
2.43.0


From 043e7b63547a279d58baade02df6859c656767e9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 17/57] fix: L-Gadget2 Snapshot.read_region() passed floats to
 np.indices()

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 3920804..81dfec8 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -462,7 +462,7 @@ class Snapshot():
 
         # Identify requested hash cells
         cellsize = self.boxsize / self.ncell
-        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize)
+        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize).astype(int)
         idx = np.indices((icoords[1]-icoords[0]+1,
                           icoords[3]-icoords[2]+1,
                           icoords[5]-icoords[4]+1))
-- 
2.43.0


From 98dae74ae6ab261709377e05fca2175e2436909b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 18/57] fix: range checks in subfind sanity_check() overflowed
 for corrupt offsets near 2^31

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 python/virgo/formats/subfind_lgadget3.py | 6 +++---
 python/virgo/formats/subfind_pgadget3.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 81dfec8..88d3c68 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -202,7 +202,7 @@ class SubTabFile(BinaryFile):
         ind = nsubperhalo > 0
         if np.any(firstsubofhalo[ind]<0) or np.any(firstsubofhalo[ind]>=nsubgroups):
             raise SanityCheckFailedException("FirstSubOfHalo out of range")
-        if np.any(suboffset<0) or np.any(suboffset+sublen>nids):
+        if np.any(suboffset<0) or np.any(np.add(suboffset, sublen, dtype=np.int64)>nids):
             raise SanityCheckFailedException("Subhalo particle index(es) out of range")
 
         # Check subhalo parent group index
diff --git a/python/virgo/formats/subfind_lgadget3.py b/python/virgo/formats/subfind_lgadget3.py
index 38bd9fc..f8aaf4e 100644
--- a/python/virgo/formats/subfind_lgadget3.py
+++ b/python/virgo/formats/subfind_lgadget3.py
@@ -118,7 +118,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2), 
             # so this test is expected to fail in that case
-            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...]+self["GroupLen"][...] > totnids):
+            if np.any(self["GroupOffset"][...] < 0) or np.any(np.add(self["GroupOffset"][...], self["GroupLen"][...], dtype=np.int64) > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check pointers from groups to subgroups are sane
@@ -127,7 +127,7 @@ class SubTabFile(BinaryFile):
         if np.any(nsubs < 0):
             raise SanityCheckFailedException("Negative number of subgroups in group!")
         ind = nsubs > 0
-        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind]+nsubs[ind] > totnsubgroups):
+        if np.any(firstsub[ind] < 0) or np.any(np.add(firstsub[ind], nsubs[ind], dtype=np.int64) > totnsubgroups):
             raise SanityCheckFailedException("Found group with subgroup index out of range!")
 
         # Check some group properties that we expect to be finite and non-negative
@@ -144,7 +144,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2),
             # so this test is expected to fail in that case
-            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...]+self["SubLen"][...] > totnids):
+            if np.any(self["SubOffset"][...] < 0) or np.any(np.add(self["SubOffset"][...], self["SubLen"][...], dtype=np.int64) > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check some subgroup properties that we expect to be finite and (in some cases) non-negative
diff --git a/python/virgo/formats/subfind_pgadget3.py b/python/virgo/formats/subfind_pgadget3.py
index 93734cc..e172f04 100644
--- a/python/virgo/formats/subfind_pgadget3.py
+++ b/python/virgo/formats/subfind_pgadget3.py
@@ -255,7 +255,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2), 
             # so this test is expected to fail in that case
-            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...]+self["GroupLen"][...] > totnids):
+            if np.any(self["GroupOffset"][...] < 0) or np.any(np.add(self["GroupOffset"][...], self["GroupLen"][...], dtype=np.int64) > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check pointers from groups to subgroups are sane
@@ -264,7 +264,7 @@ class SubTabFile(BinaryFile):
         if np.any(nsubs < 0):
             raise SanityCheckFailedException("Negative number of subgroups in group!")
         ind = nsubs > 0
-        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind]+nsubs[ind] > totnsubgroups):
+        if np.any(firstsub[ind] < 0) or np.any(np.add(firstsub[ind], nsubs[ind], dtype=np.int64) > totnsubgroups):
             raise SanityCheckFailedException("Found group with subgroup index out of range!")
 
         # Check some group properties that we expect to be finite and non-negative
@@ -284,7 +284,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2),
             # so this test is expected to fail in that case
-            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...]+self["SubLen"][...] > totnids):
+            if np.any(self["SubOffset"][...] < 0) or np.any(np.add(self["SubOffset"][...], self["SubLen"][...], dtype=np.int64) > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check some subgroup properties that we expect to be finite and (in some cases) non-negative
-- 
2.43.0


From bcfc6b79346ee81a0542016c161dc25a5ca13a55 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 19/57] fix: Gadget-4 GroupOrderedSnapshot failed if there are
 no subgroups in the snapshot

---
 python/virgo/formats/subfind_gadget4.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 840dc7c..508a0ba 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -207,7 +207,10 @@ class GroupOrderedSnapshot():
         self.foflentype = np.concatenate(self.foflentype, axis=0)
         self.nsubs      = np.concatenate(self.nsubs,      axis=0)
         self.firstsub   = np.concatenate(self.firstsub,   axis=0)
-        self.sublentype = np.concatenate(self.sublentype, axis=0)
+        if len(self.sublentype) > 0:
+            self.sublentype = np.concatenate(self.sublentype, axis=0)
+        else:
+            self.sublentype = np.zeros((0,6), dtype=np.int32) # No subgroups in this snapshot
 
         # Calculate offset to each fof group for each particle type
         self.fof_offset = np.cumsum(self.foflentype, dtype=np.int64, axis=0) - self.foflentype
-- 
2.43.0


From ff1b2587d3080f65f3ab496368d7f81488a1e80e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 20/57] fix: Gadget-4 read_fof_group() lost the last particle
 if it was first in a snapshot file

---
 python/virgo/formats/subfind_gadget4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 508a0ba..46fd7a2 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -277,7 +277,7 @@ class GroupOrderedSnapshot():
                 self.npart_file[ifile,:] = snap["Header"].attrs["NumPart_ThisFile"][:]
 
             # Check if any particles we need are in this file
-            last_in_snap = first_in_snap + self.npart_file[ifile,:]
+            last_in_snap = first_in_snap + self.npart_file[ifile,:] - 1
 
             # Loop over quantities to read
             for dataset in ("Coordinates","Velocities","ParticleIDs"):
-- 
2.43.0


From 41bc5ad6e03ef9155a5c24c5e4e1d6501641ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 21/57] fix: velociraptor PropertiesFile used np.int, which was
 removed from numpy

---
 python/virgo/formats/velociraptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/velociraptor.py b/python/virgo/formats/velociraptor.py
index be3da77..965f382 100644
--- a/python/virgo/formats/velociraptor.py
+++ b/python/virgo/formats/velociraptor.py
@@ -22,7 +22,7 @@ class PropertiesFile(BinaryFile):
         self.add_attribute("Header/NProcs",   np.int32)
         self.add_attribute("Header/ng",       np.uint64) # "unsigned long" in code - assuming 64 bit system here
         self.add_attribute("Header/ngtot",    np.uint64)
-        self.add_attribute("Header/hsize",    np.int)
+        self.add_attribute("Header/hsize",    int)
         hsize = self["Header"].attrs["hsize"]
         for i in range(hsize):
             self.add_attribute("Header/entry%03d" % i, np.dtype("S40"))
-- 
2.43.0


From 46814613045f58f9cbcb2826f05ae4abd91e10b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 22/57] fix: PartialFormatter did not preserve missing fields
 with a conversion or attribute lookup

---
 python/virgo/util/partial_formatter.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/virgo/util/partial_formatter.py b/python/virgo/util/partial_formatter.py
index f09183f..4e905cf 100644
--- a/python/virgo/util/partial_formatter.py
+++ b/python/virgo/util/partial_formatter.py
@@ -1,5 +1,6 @@
 #!/bin/env python
 
+import _string
 import string
 
 class FormatKey:
@@ -44,6 +45,23 @@ class PartialFormatter(string.Formatter):
             # Otherwise return the value
             return kwargs[key]
 
+    def get_field(self, field_name, args, kwargs):
+        # Values not provided are left unchanged, including any attribute
+        # or item lookup in the replacement field
+        first, _ = _string.formatter_field_name_split(field_name)
+        value = self.get_value(first, args, kwargs)
+        if isinstance(value, FormatKey):
+            return FormatKey(field_name), first
+        return super().get_field(field_name, args, kwargs)
+
+    def convert_field(self, value, conversion):
+        if isinstance(value, FormatKey):
+            # Keep the conversion for when the value is substituted
+            if conversion is not None:
+                value = FormatKey(f"{value.key}!{conversion}")
+            return value
+        return super().convert_field(value, conversion)
+
     def format_field(self, value, format_spec):
         if isinstance(value, FormatKey):
             # We're not substituting anything in here
-- 
2.43.0


From 9ec3528622c4173c945c775f2ef929ec22d16ecd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:05:15 +0000
Subject: [PATCH 23/57] fix: MXXL SubTabFile passed options which L-Gadget3
 SubTabFile does not have

---
 python/virgo/sims/mxxl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/virgo/sims/mxxl.py b/python/virgo/sims/mxxl.py
index 792cbab..598a10b 100644
--- a/python/virgo/sims/mxxl.py
+++ b/python/virgo/sims/mxxl.py
@@ -35,10 +35,11 @@ class SubTabFile(subfind_lgadget3.SubTabFile):
                  SO_BAR_INFO=False,
                  WRITE_SUB_IN_SNAP_FORMAT=False,
                  id_bytes=8, float_bytes=4):
+        # L-Gadget3 does not have these options
+        if SO_BAR_INFO or WRITE_SUB_IN_SNAP_FORMAT:
+            raise NotImplementedError("SO_BAR_INFO and WRITE_SUB_IN_SNAP_FORMAT are not supported")
         subfind_lgadget3.SubTabFile.__init__(self, fname,
                                              SO_VEL_DISPERSIONS=SO_VEL_DISPERSIONS,
-                                             SO_BAR_INFO=SO_BAR_INFO,
-                                             WRITE_SUB_IN_SNAP_FORMAT=WRITE_SUB_IN_SNAP_FORMAT,
                                              id_bytes=id_bytes, float_bytes=float_bytes)
 
 
-- 
2.43.0


From 21f737a24c4f114996764c71cfcc8d743df20021 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 24/57] fix: numpy_type() used re without importing it

---
 python/virgo/database/make_dtrees_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/virgo/database/make_dtrees_table.py b/python/virgo/database/make_dtrees_table.py
index 994165b..74798d0 100644
--- a/python/virgo/database/make_dtrees_table.py
+++ b/python/virgo/database/make_dtrees_table.py
@@ -5,6 +5,7 @@
 
 import collections
 import io
+import re
 
 import numpy as np
 import h5py
@@ -37,7 +38,7 @@ def sql_type(dtype):
 
 def numpy_type(sqltype):
     """Given an SQL data type, return the corresponding numpy type"""
-    m = re.match("char\(([0-9]+)\)", sqltype.strip())
+    m = re.match(r"char\(([0-9]+)\)", sqltype.strip())
     if m is not None:
         # It's a string
         return np.dtype("|S"+m.group(1))
-- 
2.43.0


From 51126b9906bacca8113dd362d79b0a210c3bb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 25/57] fix: SOAP style units could not be determined for
 datasets with dimensions of current

---
 python/virgo/formats/swift.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/virgo/formats/swift.py b/python/virgo/formats/swift.py
index 1742c5b..4667fd9 100644
--- a/python/virgo/formats/swift.py
+++ b/python/virgo/formats/swift.py
@@ -129,11 +129,17 @@ def soap_units_from_attributes(attrs, registry):
     unit = unyt.Unit(u, registry=registry)
 
     # SOAP outputs can have units which are not just powers of the base units.
+    # Here we express SWIFT's current unit in amps because unyt can't convert
+    # quantities with dimensions involving current to its cgs unit system.
+    unit_cgs = unyt.dimensionless
+    for symbol, unit_symbol in (("I", unyt.A), ("L", unyt.cm), ("M", unyt.g),
+                                ("T", unyt.K), ("t", unyt.s)):
+        unit_cgs = unit_cgs*unit_symbol**attrs["U_%s exponent" % symbol][0]
     try:
         cgs_conversion_from_attrs = float(attrs["Conversion factor to physical CGS (including cosmological corrections)"])
     except KeyError:
         cgs_conversion_from_attrs = float(attrs["Conversion factor to CGS (including cosmological corrections)"])
-    cgs_conversion_from_unyt = float((1.0*unit).in_cgs().value)
+    cgs_conversion_from_unyt = float((1.0*unit).to(unit_cgs).value)
     factor = cgs_conversion_from_attrs / cgs_conversion_from_unyt
     if np.isclose(factor, 1.0, atol=0.0, rtol=1.0e-9):
         return unit
-- 
2.43.0


From ef95742f175c97c4d645c42664fb8a536c968088 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 26/57] fix: SwiftFile failed on files with more than one
 massive neutrino species

---
 python/virgo/formats/swift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/swift.py b/python/virgo/formats/swift.py
index 4667fd9..6f97284 100644
--- a/python/virgo/formats/swift.py
+++ b/python/virgo/formats/swift.py
@@ -31,7 +31,7 @@ def soap_unit_registry_from_snapshot(snap):
     """
     # Read snapshot metadata
     physical_constants_cgs = {name : float(value) for name, value in snap["PhysicalConstants/CGS"].attrs.items()}
-    cosmology = {name : float(value) for name, value in snap["Cosmology"].attrs.items()}
+    cosmology = {name : float(snap["Cosmology"].attrs[name]) for name in ("Scale-factor", "h")}
     a = unyt.unyt_quantity(cosmology["Scale-factor"])
     h = unyt.unyt_quantity(cosmology["h"])
 
-- 
2.43.0


From 6b6f38233f8771c8035ea921b7abe36cdf1f2f48 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 27/57] fix: Fortran HDF5 wrapper wrote only two dimensions of
 seven dimensional integer arrays

---
 fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
index f5c495b..5e131b3 100644
--- a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
@@ -54,7 +54,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer4_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
@@ -130,7 +130,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer8_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
-- 
2.43.0


From cc384c785787b9bca69c12c8df80cc3f1163799e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 28/57] fix: Fortran HDF5 wrapper rejected arrays larger than
 the data if the data has size 1 in a dimension

---
 fortran/hdf5_wrapper/src/read_dataset.inc  | 36 +++++++++++++++-------
 fortran/hdf5_wrapper/src/write_dataset.inc | 34 ++++++++++++++------
 2 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 8ae55e6..ea5d178 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -34,6 +34,7 @@
     integer(kind=hsize_t) :: read_dims(7), eff_read_dims(7), read_dim_idx(7)
     ! Information about the dimensions of the array
     integer               :: array_rank, eff_array_rank
+    logical               :: same_rank
     integer(kind=hsize_t) :: array_dims(7),  eff_array_dims(7), array_dim_idx(7)
     ! Dimensions of the memory dataspace
     integer(kind=hsize_t) :: memspace_dims(7), maxdims(7)
@@ -166,10 +167,17 @@
        endif
     end do
 
+    ! If the array has the same rank as the dataset and the data fits there
+    ! is no need to ignore the dimensions with size 1: the part of a larger
+    ! array to read in may well have size 1 in some dimensions.
+    same_rank = .false.
+    if(array_rank.eq.file_rank)same_rank = &
+         all(array_dims(1:array_rank).ge.read_dims(1:array_rank))
+
     ! All dimensions with size>1 have to be at least as big
     ! in the array as in the file dataset, otherwise the data
     ! isn't going to fit.
-    if(eff_array_rank.ne.eff_read_rank)then
+    if(eff_array_rank.ne.eff_read_rank.and..not.same_rank)then
        write(0,*)'Array rank (omitting dimensions with size=1) : ',eff_array_rank
        write(0,*)'Data  rank (omitting dimensions with size=1) : ',eff_read_rank
        call hdf5_abort( &
@@ -177,11 +185,13 @@
             name=name,fname=fname_table(ifile))
     endif
     ! Dimensions of the array need to be big enough in each direction
-    do i = 1, eff_array_rank, 1
-       if(eff_array_dims(i).lt.eff_read_dims(i))call hdf5_abort( &
-            'Data to be read does not fit in the supplied array', &
-            name=name,fname=fname_table(ifile))
-    end do
+    if(.not.same_rank)then
+       do i = 1, eff_array_rank, 1
+          if(eff_array_dims(i).lt.eff_read_dims(i))call hdf5_abort( &
+               'Data to be read does not fit in the supplied array', &
+               name=name,fname=fname_table(ifile))
+       end do
+    endif
 
     ! Now we need to create a dataspace to describe the array in memory,
     ! then select the region that the data to be read in will occupy.
@@ -190,10 +200,14 @@
     ! the dimensions of the array (e.g. may want to read a 2D slice of
     ! a 3D dataset, or read a single value from a 1D dataset into a scalar).
     memspace_dims(1:7) = 1
-    do i = 1, eff_array_rank, 1
-       j = read_dim_idx(i)
-       memspace_dims(j) = eff_array_dims(i)
-    end do
+    if(same_rank)then
+       memspace_dims(1:file_rank) = array_dims(1:file_rank)
+    else
+       do i = 1, eff_array_rank, 1
+          j = read_dim_idx(i)
+          memspace_dims(j) = eff_array_dims(i)
+       end do
+    endif
 
     ! Create the memory dataspace
     maxdims(1:file_rank) = memspace_dims(1:file_rank)
@@ -203,7 +217,7 @@
          name=name,fname=fname_table(ifile))
 
     ! Select the part of this dataspace that will hold the data
-    if(eff_array_rank.gt.0)then
+    if(file_rank.gt.0)then
        hs_start(1:file_rank) = 0
        hs_count(1:file_rank) = read_dims(1:file_rank)
        call h5sselect_hyperslab_f(memspace_id, H5S_SELECT_SET_F, &
diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index b677eff..8bd6ed2 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -40,6 +40,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   integer(hid_t)                      :: prop_id
   ! Size of the input array
   integer                             :: array_rank, select_rank
+  logical                             :: same_rank
   integer(kind=hsize_t)               :: array_dims(7), select_dims(7)
   integer(kind=hsize_t)               :: hs_start(7), hs_count(7)
   !
@@ -343,25 +344,38 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   end do
   eff_array_rank = j
 
+  ! If the array has the same rank as the dataset and contains enough data
+  ! there is no need to ignore the dimensions with size 1: the part of a larger
+  ! array to write out may well have size 1 in some dimensions.
+  same_rank = .false.
+  if(array_rank.eq.file_rank)same_rank = &
+       all(array_dims(1:array_rank).ge.select_dims(1:array_rank))
+
   ! Check dataset and array have the same rank, ignoring dimensions of size 1
-  if(eff_array_rank.ne.eff_select_rank)call hdf5_abort( &
+  if(eff_array_rank.ne.eff_select_rank.and..not.same_rank)call hdf5_abort( &
        'The supplied data does not have the same number'//&
        ' of dimensions as the dataset to write',&
        name=name,fname=fname_table(ifile))    
 
   ! Check that the array contains enough data
-  do i = 1, eff_array_rank, 1
-     if(eff_array_dims(i).lt.eff_select_dims(i))call hdf5_abort( &
-          'Size of the data array is inconsistent with '//&
-          'the count parameter in write_data',&
-          name=name,fname=fname_table(ifile))    
-  end do
+  if(.not.same_rank)then
+     do i = 1, eff_array_rank, 1
+        if(eff_array_dims(i).lt.eff_select_dims(i))call hdf5_abort( &
+             'Size of the data array is inconsistent with '//&
+             'the count parameter in write_data',&
+             name=name,fname=fname_table(ifile))    
+     end do
+  endif
 
   ! Generate the padded dimensions array.
   pad_dims(1:7) = 1
-  do i = 1, eff_array_rank, 1
-     pad_dims(eff_select_idx(i)) = eff_array_dims(i)
-  end do
+  if(same_rank)then
+     pad_dims(1:file_rank) = array_dims(1:file_rank)
+  else
+     do i = 1, eff_array_rank, 1
+        pad_dims(eff_select_idx(i)) = eff_array_dims(i)
+     end do
+  endif
 
   ! Use this to create the dataspace to describe the array in memory
   maxdims(1:file_rank) = pad_dims(1:file_rank)
-- 
2.43.0


From f80f511a65a4077552b252cf6de79b474e5958ae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 29/57] fix: Fortran HDF5 wrapper made datasets extensible with
 extensible=.false.

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 8bd6ed2..731f443 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -78,7 +78,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   endif
   if(present(szip))szip_on = szip
   extensible_on = .false.
-  if(present(extensible))extensible_on = .true.
+  if(present(extensible))extensible_on = extensible
 
   if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
        'Invalid file handle in write_data',name=name)
-- 
2.43.0


From 0d81ded93fff91ee91b2476425431d3628a9c894 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 30/57] fix: Fortran HDF5 wrapper could not use initial_size
 without start and count

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 731f443..263b293 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -319,7 +319,9 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   if(present(start))then
      select_dims(1:select_rank) = count(1:select_rank)
   else
-     select_dims(1:select_rank) = file_dims(1:select_rank)
+     ! New dataset, which may be larger than the array if initial_size is set
+     select_dims(1:select_rank) = min(file_dims(1:select_rank), &
+          array_dims(1:select_rank))
   endif
 
   ! Get the dimensions of the array in memory. These may need some
@@ -387,7 +389,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
      hs_count(1:file_rank) = count(1:file_rank)
   else
      hs_start(1:file_rank) = 0
-     hs_count(1:file_rank) = file_dims(1:file_rank)
+     hs_count(1:file_rank) = select_dims(1:file_rank)
   endif
   if(file_rank.gt.0)then ! Can't use select hyperslab on scalar dataspace
      call h5sselect_hyperslab_f(memspace_id, H5S_SELECT_SET_F, &
@@ -403,9 +405,9 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
      hs_start(1:file_rank) = start(1:file_rank) - 1
      hs_count(1:file_rank) = count(1:file_rank)
   else
-     ! Select whole dataset
+     ! Select whole dataset, or the part of it which the array fills
      hs_start(1:file_rank) = 0
-     hs_count(1:file_rank) = file_dims(1:file_rank)
+     hs_count(1:file_rank) = select_dims(1:file_rank)
   endif
   if(file_rank.gt.0)then
      call h5sselect_hyperslab_f(dspace_id, H5S_SELECT_SET_F, &
-- 
2.43.0


From cd846033e2f168c3cc40759001b79a8871e562b3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 31/57] fix: Fortran HDF5 wrapper returned the old contents of
 an overwritten dataset

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 263b293..80fd522 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -128,6 +128,11 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
         ! If the dataset exists but we have overwrite = .true.,
         ! delete the dataset
         call h5dclose_f(dset_id, hdf_err)
+        ! If the dataset was left open by read_data() it must not be used again
+        if(open_dset)then
+           open_dset = .false.
+           call h5dclose_f(open_dset_id, hdf_err)
+        endif
         call h5gunlink_f(file_id(ifile),name,hdf_err)
         dset_opened = .false.
      endif
-- 
2.43.0


From 7fc9500604d8f5447fa65eb89a328e150d67f725 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:36:42 +0000
Subject: [PATCH 32/57] fix: Fortran HDF5 wrapper could not write empty
 compressed or extensible datasets

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 80fd522..7157f3a 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -205,8 +205,13 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
      call h5pcreate_f(H5P_DATASET_CREATE_F, prop_id, hdf_err) 
      ! Decide on chunk size based on the initial size of the dataset
      do i = 1, file_rank, 1
-        nchunk(i) = min(file_dims(i),nchunk_max(i))
+        nchunk(i) = max(min(file_dims(i),nchunk_max(i)),1)
      end do
+     ! Datasets without any elements can't be compressed
+     if(any(file_dims(1:file_rank).eq.0).and..not.extensible_on)then
+        gzip_level = 0
+        szip_on = .false.
+     endif
      ! Only use chunking if we need it (saves space for small datasets)
      if(gzip_level.gt.0.or.szip_on.or.extensible_on) &
           call h5pset_chunk_f(prop_id, NDIMS, nchunk, hdf_err)
-- 
2.43.0


From bee20dedf539e448ad2dd5a85e531a1411414a5e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 33/57] fix: Fortran HDF5 wrapper could not access attributes
 of the root group

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90    | 4 ++--
 fortran/hdf5_wrapper/src/read_attribute.inc  | 2 +-
 fortran/hdf5_wrapper/src/write_attribute.inc | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 9363edf..bbabbeb 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -532,7 +532,7 @@ contains
        if(nslash.eq.0)call hdf5_abort( &
             'Invalid dataset/attribute name in get_dimensions()!', &
             fname=fname_table(ifile),name=name)
-       loc_name=name(1:nslash-1)
+       loc_name=name(1:max(nslash-1,1))
        attr_name=name(nslash+1:len_trim(name))
 
        ! Try to open loc_name as a group then as a dataset
@@ -628,7 +628,7 @@ contains
        if(nslash.eq.0)call hdf5_abort( &
             'Invalid dataset/attribute name in get_type()!', &
             fname=fname_table(ifile),name=name)
-       loc_name=name(1:nslash-1)
+       loc_name=name(1:max(nslash-1,1))
        attr_name=name(nslash+1:len_trim(name))
 
        ! Try to open loc_name as a group then as a dataset
diff --git a/fortran/hdf5_wrapper/src/read_attribute.inc b/fortran/hdf5_wrapper/src/read_attribute.inc
index 5a69943..04a665d 100644
--- a/fortran/hdf5_wrapper/src/read_attribute.inc
+++ b/fortran/hdf5_wrapper/src/read_attribute.inc
@@ -58,7 +58,7 @@ subroutine SUB_NAME (ifile,name,arr)
               name=name,fname=fname_table(ifile))
       endif
       
-      loc_name=name(1:nslash-1)
+      loc_name=name(1:max(nslash-1,1))
       attr_name=name(nslash+1:len_trim(name))
       ! Try to open loc_name as a group and as a dataset
       itype=1
diff --git a/fortran/hdf5_wrapper/src/write_attribute.inc b/fortran/hdf5_wrapper/src/write_attribute.inc
index 0b66709..b203489 100644
--- a/fortran/hdf5_wrapper/src/write_attribute.inc
+++ b/fortran/hdf5_wrapper/src/write_attribute.inc
@@ -53,7 +53,7 @@ subroutine SUB_NAME (ifile,name,arr,overwrite)
               name=name,fname=fname_table(ifile))
       endif
       
-      loc_name=name(1:nslash-1)
+      loc_name=name(1:max(nslash-1,1))
       attr_name=name(nslash+1:len_trim(name))
       ! Try to open loc_name as a group and as a dataset
       itype=1
-- 
2.43.0


From c6f5b67a1af3f8248f5408c64f5b169db1d7b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 34/57] fix: hdf5_list_attributes() always failed to return
 names with HDF5 1.10

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index bbabbeb..6dca827 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -968,7 +968,8 @@ contains
     ! Get the names of the attributes
     if(present(attrib_names))then
        do i = 1, nattribs, 1
-          call h5aopen_idx_f(loc_id, i-1, attr_id, hdf_err)
+          call h5aopen_by_idx_f(loc_id, ".", H5_INDEX_NAME_F, &
+               H5_ITER_INC_F, int(i-1,kind=hsize_t), attr_id, hdf_err)
           if(hdf_err.ne.0) call hdf5_abort( &
                'Unable to open attribute in list_attributes()!', &
                name=name,fname=fname_table(ifile))
-- 
2.43.0


From 6cd872bd4e554d4841b89619e40f843c1c3607b6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 35/57] fix: hdf5_create_group() wrote past the end of an array
 if more than ten groups are nested

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 6dca827..431db91 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -726,10 +726,10 @@ contains
     integer          :: ifile
     character(len=*) :: name
     character, parameter            :: slash='/'
-    integer, parameter              :: MAX_NEST = 10
+    integer, parameter              :: LEN_STR = 256
+    integer, parameter              :: MAX_NEST = LEN_STR/2
     integer(hid_t)                  :: id_chain(MAX_NEST)
     integer(hid_t)                  :: group_id, loc_id
-    integer, parameter              :: LEN_STR = 256
 
     character(len=LEN_STR)          :: thestring,currentgroup
     integer          :: i,n_nest, starti, endi, hdf_err
-- 
2.43.0


From cb0f8aa2cd8377f0471bde1c7b747a65dd4f4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 36/57] fix: consistency check scripts did not run under Python
 3

They used print statements, dict.iteritems() and the truth value of a
bytearray slice in ways which Python 3 (the only version which the package
supports) does not accept.
---
 .../eagle/check_eagle_file_presence.py         | 16 ++++++++--------
 consistency_check/hash/hash_dirs_mpi.py        | 10 +++++-----
 .../p-gadget3/check_pgadget3_file_presence.py  | 18 +++++++++---------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index a34e85c..f299056 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -64,13 +64,13 @@ def check_dir(basedir, dirbase, filebase, nfiles_attr, isnap):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -130,14 +130,14 @@ def check_eagle_run(basedir, num_snaps, num_snips):
             count_expected[filebase] += 1
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print("")
+    print("Summary of missing or incomplete directories:")
+    print("")
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
+            print("%30s - %d of %d directories not complete" % (outtype, 
                                                                 count_missing[outtype],
-                                                                count_expected[outtype])
+                                                                count_expected[outtype]))
 
 if __name__ == "__main__":
 
diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index 79169f9..f5d6985 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -84,7 +84,7 @@ class DirectoryList:
         if hashes is not None:
             self.all_hashes.update(hashes)
             if self.con is not None:
-                for name, val in hashes.iteritems():
+                for name, val in hashes.items():
                     # Don't store anything if file could not be read or hash was read from database 
                     if name not in self.cache and val is not None:
                         self.con.execute("insert into hashes values(?,?,?,?)", (self.basedir, name, self.hash_type, val))
@@ -145,7 +145,7 @@ def hash_file(fname, hash_type):
         # Read next block of data
         data = f.read(buffer_size)
         # Update hash
-        if data != "":
+        if len(data) > 0:
             m.update(data)
         else:
             break
@@ -202,11 +202,11 @@ def hash_dir(basedir, dirpath, dirnames, filenames,
                     attr = xattr(full_name)
                     attr["user.checksum."+hash_type] = this_hash
                 if cached:
-                    print "Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
                 else:
-                    print "Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
         else:
-            print "Task %4d : skipping output file %s" % (comm_rank, rel_path)
+            print("Task %4d : skipping output file %s" % (comm_rank, rel_path))
 
     # Get sorted list of names
     sorted_names = sorted(hashes.keys())
diff --git a/consistency_check/p-gadget3/check_pgadget3_file_presence.py b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
index 65ddcce..2d0a95f 100644
--- a/consistency_check/p-gadget3/check_pgadget3_file_presence.py
+++ b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
@@ -48,13 +48,13 @@ def check_dir(basedir, dirbase, filebase, isnap, get_nfiles_func):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -100,14 +100,14 @@ def check_pgadget3_run(basedir, snapbase, max_num, first_num, step):
    
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print("")
+    print("Summary of missing or incomplete directories:")
+    print("")
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
+            print("%30s - %d of %d directories not complete" % (outtype, 
                                                                 count_missing[outtype],
-                                                                count_expected[outtype])
+                                                                count_expected[outtype]))
 
 if __name__ == "__main__":
 
@@ -122,7 +122,7 @@ if __name__ == "__main__":
         first_num = 0
         step      = 1
     else:
-        print "Incorrect number of arguments!"
+        print("Incorrect number of arguments!")
         sys.exit(1)
 
     check_pgadget3_run(basedir, snapbase, max_num, first_num, step)
-- 
2.43.0


From c8828965b2a2c5c4aafc6db47b4af5543975fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 37/57] fix: Millennium Fortran routines did not compile with
 current gfortran

A blank is required between STOP and the message.
---
 .../fortran/readfofgroupsexample.f90          |  2 +-
 .../millennium/fortran/readgroupsexample.f90  |  2 +-
 examples/millennium/fortran/readregion.f90    | 14 ++++++-------
 examples/millennium/fortran/sort.f90          | 20 +++++++++----------
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/examples/millennium/fortran/readfofgroupsexample.f90 b/examples/millennium/fortran/readfofgroupsexample.f90
index 1330116..079d195 100644
--- a/examples/millennium/fortran/readfofgroupsexample.f90
+++ b/examples/millennium/fortran/readfofgroupsexample.f90
@@ -115,7 +115,7 @@ PROGRAM readfofgroups
      zgroup(gidx(i))=z(pidx(j))
   END DO
   WRITE(*,*)'Matched ',nmatched,' particles out of ',nidfile
-  IF(nmatched.LT.nidfile)STOP"Error: Didn't match all particles!"
+  IF(nmatched.LT.nidfile)STOP "Error: Didn't match all particles!"
 
 ! Write positions and FoF group membership to an ascii file
 ! Columns are FoF group ID, then x,y,z coordinates.
diff --git a/examples/millennium/fortran/readgroupsexample.f90 b/examples/millennium/fortran/readgroupsexample.f90
index 9c3c920..d663129 100644
--- a/examples/millennium/fortran/readgroupsexample.f90
+++ b/examples/millennium/fortran/readgroupsexample.f90
@@ -111,7 +111,7 @@ PROGRAM readgroupsexample
      zgroup(gidx(i))=z(pidx(j))
   END DO
   WRITE(*,*)'Matched ',nmatched,' particles out of ',nidfile
-  IF(nmatched.LT.nidfile)STOP"Didn't match all particles!"
+  IF(nmatched.LT.nidfile)STOP "Didn't match all particles!"
 
 ! Write positions and group/subgroup membership to an ascii file
 ! Columns are subgroup ID, FoF group ID, then x,y,z coordinates.
diff --git a/examples/millennium/fortran/readregion.f90 b/examples/millennium/fortran/readregion.f90
index 2bdc596..3ac0e0c 100644
--- a/examples/millennium/fortran/readregion.f90
+++ b/examples/millennium/fortran/readregion.f90
@@ -43,13 +43,13 @@ LOGICAL, PARAMETER :: verbose = .FALSE.
 INTEGER :: ncells_to_read, ncells_read
 !
 ! Check arrays are not already in use
-IF(ASSOCIATED(x))STOP'Array x already allocated in getregion()'
-IF(ASSOCIATED(y))STOP'Array y already allocated in getregion()'
-IF(ASSOCIATED(z))STOP'Array z already allocated in getregion()'
-IF(ASSOCIATED(ids))STOP'Array ids already allocated in getregion()'
-IF(ASSOCIATED(vx))STOP'Array vx already allocated in getregion()'
-IF(ASSOCIATED(vy))STOP'Array vy already allocated in getregion()'
-IF(ASSOCIATED(vz))STOP'Array vz already allocated in getregion()'
+IF(ASSOCIATED(x))STOP 'Array x already allocated in getregion()'
+IF(ASSOCIATED(y))STOP 'Array y already allocated in getregion()'
+IF(ASSOCIATED(z))STOP 'Array z already allocated in getregion()'
+IF(ASSOCIATED(ids))STOP 'Array ids already allocated in getregion()'
+IF(ASSOCIATED(vx))STOP 'Array vx already allocated in getregion()'
+IF(ASSOCIATED(vy))STOP 'Array vy already allocated in getregion()'
+IF(ASSOCIATED(vz))STOP 'Array vz already allocated in getregion()'
 !
 ! Now read in the whole hash table
 !
diff --git a/examples/millennium/fortran/sort.f90 b/examples/millennium/fortran/sort.f90
index 93a8e6b..8868d8e 100644
--- a/examples/millennium/fortran/sort.f90
+++ b/examples/millennium/fortran/sort.f90
@@ -58,7 +58,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -174,7 +174,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -290,7 +290,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -406,7 +406,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -526,7 +526,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -647,7 +647,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -763,7 +763,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -879,7 +879,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -995,7 +995,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -1115,7 +1115,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
-- 
2.43.0


From 14931999eb7caebf058427d9a2b927781269aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 38/57] fix: readregion closed a file twice if the region
 contains no particles

---
 examples/millennium/fortran/readregion.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/millennium/fortran/readregion.f90 b/examples/millennium/fortran/readregion.f90
index 3ac0e0c..f4caa70 100644
--- a/examples/millennium/fortran/readregion.f90
+++ b/examples/millennium/fortran/readregion.f90
@@ -201,7 +201,8 @@ DO WHILE (ihash.LT.nhash)
    END IF
    ihash=ihash+1
 END DO
-CALL close_gadget()
+! No file is open if none of the cells contain particles
+IF(iopen.GE.0)CALL close_gadget()
 
 END SUBROUTINE
 END MODULE
-- 
2.43.0


From 36ef317bfb0b6a3cdc855dcc9ad7962ee07644e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 39/57] fix: Millennium Fortran examples passed undefined
 pointers to the read routines

The routines stop if the pointers are associated, but the programs never
nullified them.
---
 examples/millennium/fortran/readfofgroupsexample.f90 | 4 ++++
 examples/millennium/fortran/readgroupsexample.f90    | 4 ++++
 examples/millennium/fortran/readregionexample.f90    | 3 +++
 examples/millennium/fortran/readsubhalosexample.f90  | 3 +++
 4 files changed, 14 insertions(+)

diff --git a/examples/millennium/fortran/readfofgroupsexample.f90 b/examples/millennium/fortran/readfofgroupsexample.f90
index 079d195..20b5214 100644
--- a/examples/millennium/fortran/readfofgroupsexample.f90
+++ b/examples/millennium/fortran/readfofgroupsexample.f90
@@ -52,6 +52,10 @@ PROGRAM readfofgroups
   TYPE (headertype) :: header
   REAL :: aexpand 
 
+! The read routines require pointers which are not associated
+  NULLIFY(x,y,z,vx,vy,vz,ids)
+  NULLIFY(foflen,foffset,groupids)
+
 ! Get parameters
   WRITE(*,*)'Enter number of file to read'
   READ(*,*)ifile
diff --git a/examples/millennium/fortran/readgroupsexample.f90 b/examples/millennium/fortran/readgroupsexample.f90
index d663129..71e0f97 100644
--- a/examples/millennium/fortran/readgroupsexample.f90
+++ b/examples/millennium/fortran/readgroupsexample.f90
@@ -48,6 +48,10 @@ PROGRAM readgroupsexample
   INTEGER :: nmatched
   INTEGER*8 :: ihash
 
+! The read routines require pointers which are not associated
+  NULLIFY(x,y,z,vx,vy,vz,ids)
+  NULLIFY(nsphalo,firstsub,sublen,suboffset,subpar,groupids)
+
 ! Get parameters
   WRITE(*,*)'Enter number of file to read'
   READ(*,*)ifile
diff --git a/examples/millennium/fortran/readregionexample.f90 b/examples/millennium/fortran/readregionexample.f90
index 0664c5d..c49660f 100644
--- a/examples/millennium/fortran/readregionexample.f90
+++ b/examples/millennium/fortran/readregionexample.f90
@@ -25,6 +25,9 @@ PROGRAM readregionexample
   INTEGER :: i,j,k
   INTEGER :: peano_hilbert_key
 
+! The read routines require pointers which are not associated
+  NULLIFY(x,y,z,vx,vy,vz,ids)
+
 ! Get parameters
   WRITE(*,*)'Enter minimum and maximum x coordinates (comoving Mpc/h)' 
   READ(*,*)xmin,xmax
diff --git a/examples/millennium/fortran/readsubhalosexample.f90 b/examples/millennium/fortran/readsubhalosexample.f90
index 5ac6570..deb52e2 100644
--- a/examples/millennium/fortran/readsubhalosexample.f90
+++ b/examples/millennium/fortran/readsubhalosexample.f90
@@ -24,6 +24,9 @@ PROGRAM readsubhalosexample
 ! Loop index
   INTEGER :: isub, ifof
 
+! The read routines require pointers which are not associated
+  NULLIFY(subhalo,halo)
+
 ! Get parameters
   WRITE(*,*)'Enter number of file to read'
   READ(*,*)ifile
-- 
2.43.0


From 9e4e1f344d769ad952cd16b9225187e1c7e1827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 40/57] fix: compute_rvmax example relied on subhalo numbers
 which the reader does not return

---
 examples/millennium2/python/compute_rvmax.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/examples/millennium2/python/compute_rvmax.py b/examples/millennium2/python/compute_rvmax.py
index f7a441f..f84747f 100644
--- a/examples/millennium2/python/compute_rvmax.py
+++ b/examples/millennium2/python/compute_rvmax.py
@@ -22,12 +22,9 @@ isub = 43
 # Read group catalogue
 cat = subfind_pgadget3.GroupCatalogue(basedir, snapnum)
 
-# Determine FoF group index which contains subhalo isub
-ifof = cat["SubGrNr"][isub]
-
-# Read particle data for FoF group ifof
+# Read particle data for subhalo isub
 snap = subfind_pgadget3.GroupOrderedSnapshot(basedir, basename, snapnum)
-data = snap.read_fof_group(ifof)
+data = snap.read_subfind_group(isub)
 
 # Get box size and particle mass from one of the snapshot files
 snapfile = snap.open_snap_file(0)
@@ -39,16 +36,11 @@ a        = 1.0/(1.0+redshift)
 pos   = data["Coordinates"]
 vel   = data["Velocities"]
 ids   = data["ParticleIDs"]
-subnr = data["SubNr"]
 
 # Get positions relative to subhalo centre 
 pos_rel = pos - cat["SubPos"][isub,:]
 pos_rel = ((pos_rel+boxsize/2) % boxsize) - boxsize/2
 
-# Discard particles not in subhalo
-ind = (subnr == isub)
-pos_rel = pos_rel[ind,:]
-
 # Get sorted radii of particles
 radius = np.sqrt(np.sum(pos_rel**2, axis=1))
 idx    = np.argsort(radius)
@@ -63,9 +55,9 @@ vcirc          = np.zeros(np_interior.shape, dtype=np.float64)
 vcirc[ind]     = np.sqrt(G_SI*m_interior_si[ind]/radius_si[ind]) / 1000.0 # Convert to km/sc
 
 imax = np.argmax(vcirc)
-print "RVmax (from particles) = ", radius[imax]*a # radii from snapshot are comoving
-print "RVmax (from catalogue) = ", cat["SubRVmax"][isub]
+print("RVmax (from particles) = ", radius[imax]*a) # radii from snapshot are comoving
+print("RVmax (from catalogue) = ", cat["SubRVmax"][isub])
 
-print "Vmax (from particles) = ", vcirc[imax]
-print "Vmax (from catalogue) = ", cat["SubVmax"][isub]
+print("Vmax (from particles) = ", vcirc[imax])
+print("Vmax (from catalogue) = ", cat["SubVmax"][isub])
 
-- 
2.43.0


From 1bd02e7fcf1a5fad87028f0febbf15e72ce6f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 41/57] fix: Python example scripts did not run under Python 3

---
 examples/millennium-wmap7/python/read_mr7_snapshot_file.py | 4 ++--
 examples/millennium/python/check_units.py                  | 4 +++-
 examples/millennium/python/read_subhalo_catalogue.py       | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/examples/millennium-wmap7/python/read_mr7_snapshot_file.py b/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
index a020237..97dbce5 100644
--- a/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
+++ b/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
@@ -16,10 +16,10 @@ f = h5py.File(fname, "r")
 # Read header
 # Can get full list of attributes with f["Header"].keys()
 boxsize = f["Header"].attrs["BoxSize"]
-print "Box size is ", boxsize, " comoving Mpc/h"
+print("Box size is ", boxsize, " comoving Mpc/h")
 
 numpart_thisfile = f["Header"].attrs["NumPart_ThisFile"]
-print "Number of particles in this file is ", numpart_thisfile[1]
+print("Number of particles in this file is ", numpart_thisfile[1])
 
 # Read positions, velocities and IDs
 pos = f["PartType1/Coordinates"][...]
diff --git a/examples/millennium/python/check_units.py b/examples/millennium/python/check_units.py
index cb9d8ca..0664f2e 100644
--- a/examples/millennium/python/check_units.py
+++ b/examples/millennium/python/check_units.py
@@ -4,6 +4,8 @@
 # run using the particle data.
 #
 
+import numpy as np
+
 from virgo.formats import gadget_snapshot
 from virgo.formats import subfind_lgadget2
 from virgo.util import read_multi, ranges, match
@@ -101,6 +103,6 @@ mean_pos = ranges.sum_ranges(pos, first_particle, num_particles, normalize=True,
 mean_vel = ranges.sum_ranges(vel, first_particle, num_particles, normalize=True, dtype=np.float64) * np.sqrt(a)
 
 # Calculate angular momentum
-am = ranges.sum_ranges(np.cross((pos-mean_pos[subnr,:])*a, (vel-mean_vel[subnr,:])*sqrt(a)), 
+am = ranges.sum_ranges(np.cross((pos-mean_pos[subnr,:])*a, (vel-mean_vel[subnr,:])*np.sqrt(a)), 
                        first_particle, num_particles, normalize=True, dtype=np.float64)
 
diff --git a/examples/millennium/python/read_subhalo_catalogue.py b/examples/millennium/python/read_subhalo_catalogue.py
index 97152e3..6f2efb7 100644
--- a/examples/millennium/python/read_subhalo_catalogue.py
+++ b/examples/millennium/python/read_subhalo_catalogue.py
@@ -9,7 +9,7 @@ import virgo.sims.millennium as mill
 # Snapshot number to read
 isnap = 63
 
-print "Parent halo, Number of particles, x, y, z, vx, vy, vz"
+print("Parent halo, Number of particles, x, y, z, vx, vy, vz")
 
 # Loop over subtab files in this snapshot
 for ifile in range(512):
@@ -29,6 +29,6 @@ for ifile in range(512):
     vel        = subtab["SubVel"][...]    # Velocity of each subhalo (km/sec peculiar)
 
     for i in range(nsub):
-        print "%d, %d, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f" % (parenthalo[i], len[i], 
+        print("%d, %d, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f" % (parenthalo[i], len[i], 
                                                                           pos[i,0], pos[i,1], pos[i,2],
-                                                                          vel[i,0], vel[i,1], vel[i,2])
+                                                                          vel[i,0], vel[i,1], vel[i,2]))
-- 
2.43.0


From 1284214928c6f93c873b0c65f997651d9d0609df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 42/57] fix: reading a P-Gadget3 subhalo failed if it ends
 beyond particle number 2^31

---
 python/virgo/formats/subfind_pgadget3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/virgo/formats/subfind_pgadget3.py b/python/virgo/formats/subfind_pgadget3.py
index e172f04..30fb250 100644
--- a/python/virgo/formats/subfind_pgadget3.py
+++ b/python/virgo/formats/subfind_pgadget3.py
@@ -490,9 +490,9 @@ class GroupOrderedSnapshot():
             datasets = ("Coordinates", "Velocities", "ParticleIDs")
         result = {name : [] for name in datasets}
 
-        # Find range of particles we want
-        first_particle = offset
-        last_particle = offset + count - 1
+        # Find range of particles we want (offset and count may be 32 bit)
+        first_particle = int(offset)
+        last_particle = first_particle + int(count) - 1
 
         # Loop over snapshot files and read those we need
         first_in_snap = 0
-- 
2.43.0


From 3bb7008532be7d6df6691f9ba22c132ac5b061c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 43/57] fix: BinaryFile failed if a block's dimensions are
 unsigned 64 bit integers

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 97c14bc..01b5069 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -291,7 +291,7 @@ class BinaryDataset:
         self.size  = 1
         self.endian = "="
         self.attrs  = BinaryAttrs()
-        for s in shape:
+        for s in self.shape:
             self.size *= s
         self.nbytes = self.dtype.itemsize * self.size
 
-- 
2.43.0


From ece88926901fbae7e46d750aeef604862976d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 44/57] fix: collective I/O failed if elements are larger than
 the I/O buffer or have zero size

---
 python/virgo/mpi/parallel_hdf5.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 2a09a0b..f550b59 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -139,7 +139,8 @@ def collective_read(dataset, comm, buffer_size=None):
             element_size *= s
         local_nr_bytes = num_on_task[comm_rank] * element_size
         # Compute number of iterations this task needs
-        buffer_size_elements = buffer_size // element_size
+        # (at least one, in case elements are larger than the buffer or have zero size)
+        buffer_size_elements = max(buffer_size // max(element_size, 1), 1)
         local_nr_iterations = num_on_task[comm_rank] // buffer_size_elements
         if num_on_task[comm_rank] % buffer_size_elements > 0:
             local_nr_iterations += 1
@@ -235,7 +236,10 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     element_size = data.dtype.itemsize
     for s in full_shape[1:]:
         element_size *= s
-    max_elements = buffer_size // element_size
+    # (at least one, in case elements are larger than the buffer)
+    max_elements = max(buffer_size // max(element_size, 1), 1)
+    if element_size == 0:
+        nr_left = 0 # No data to write
 
     # We need to use the low level interface here because the h5py high
     # level interface omits zero sized writes, which causes a hang in
-- 
2.43.0


From b85638ba536253b59080a50b6151f6cf928d1b21 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 45/57] fix: collective_read of bool or compound data hung if
 some ranks need fewer reads than others

---
 python/virgo/mpi/parallel_hdf5.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index f550b59..5040dc4 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -144,6 +144,8 @@ def collective_read(dataset, comm, buffer_size=None):
         local_nr_iterations = num_on_task[comm_rank] // buffer_size_elements
         if num_on_task[comm_rank] % buffer_size_elements > 0:
             local_nr_iterations += 1
+        if element_size == 0:
+            local_nr_iterations = 0 # No data to read
         # Find maximum number of iterations over all tasks
         global_nr_iterations = comm.allreduce(local_nr_iterations, op=MPI.MAX)
         # Allocate the output array
@@ -154,10 +156,24 @@ def collective_read(dataset, comm, buffer_size=None):
         offset_in_mem = 0
         offset_in_file = offset_on_task[comm_rank]
         nr_left = num_on_task[comm_rank]
+        # We need to use the low level interface here because the h5py high
+        # level interface omits zero sized reads of some data types, which
+        # causes a hang in collective mode if a rank has nothing left to read.
+        dset_id = dataset.id
+        file_space = dset_id.get_space()
+        mem_space = h5py.h5s.create_simple(data.shape)
+        prop_list = h5py.h5p.create(h5py.h5p.DATASET_XFER)
+        prop_list.set_dxpl_mpio(h5py.h5fd.MPIO_COLLECTIVE)
         for i in range(global_nr_iterations):
             length = min(nr_left, buffer_size_elements)
-            with dataset.collective:
-                data[offset_in_mem:offset_in_mem+length,...] = dataset[offset_in_file:offset_in_file+length,...]
+            if length > 0:
+                count = (length,)+data.shape[1:]
+                file_space.select_hyperslab((offset_in_file,)+(0,)*(len(count)-1), count)
+                mem_space.select_hyperslab((offset_in_mem,)+(0,)*(len(count)-1), count)
+            else:
+                file_space.select_none()
+                mem_space.select_none()
+            dset_id.read(mem_space, file_space, data, dxpl=prop_list)
             offset_in_mem += length
             offset_in_file += length
             nr_left -= length
-- 
2.43.0


From 688a4b079cce5f36005007cd7c6ad03a4e572f65 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 46/57] fix: MPIArgumentParser hung if rank 0's command line
 asks for help and the others' do not

---
 python/virgo/mpi/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/virgo/mpi/util.py b/python/virgo/mpi/util.py
index 2931a38..d9a5523 100644
--- a/python/virgo/mpi/util.py
+++ b/python/virgo/mpi/util.py
@@ -28,10 +28,14 @@ class MPIArgumentParser(argparse.ArgumentParser):
         raise MPIArgumentParserError(message)
 
     def parse_args(self, *args, **kwargs):
-        try:
-            result = super().parse_args(*args, **kwargs)
-        except MPIArgumentParserError:
-            result = None
+        # Only rank 0's arguments are used. The other ranks need to stop too if
+        # rank 0 would exit (e.g. after printing the help message).
+        result = None
+        if self.comm.Get_rank() == 0:
+            try:
+                result = super().parse_args(*args, **kwargs)
+            except (MPIArgumentParserError, SystemExit):
+                pass
         result = self.comm.bcast(result)
         if result is None:
             from mpi4py import MPI
-- 
2.43.0


From 50bfa3139da002d55837f7188908c6f1a231d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 47/57] fix: Rockstar sanity check accepted negative particle
 counts and ranges which overflow 64 bits

---
 python/virgo/formats/rockstar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/virgo/formats/rockstar.py b/python/virgo/formats/rockstar.py
index 22f752b..2b1117d 100644
--- a/python/virgo/formats/rockstar.py
+++ b/python/virgo/formats/rockstar.py
@@ -119,7 +119,8 @@ class HalosFile(BinaryFile):
         halo = self["Halo"][...]
         p_start = halo["p_start"]
         num_p = halo["num_p"]
-        if not np.all(p_start + num_p <= self["IDs"].shape[0]):
-            raise SanityCheckFailedException("Particle index too large")
-        if np.any(p_start < 0):
+        if np.any(p_start < 0) or np.any(num_p < 0):
             raise SanityCheckFailedException("Particle index is negative")
+        # Avoid computing p_start + num_p, which may overflow if halo_t is wrong
+        if not np.all(p_start <= self["IDs"].shape[0] - num_p):
+            raise SanityCheckFailedException("Particle index too large")
-- 
2.43.0


From b62ddb53a7e80f75a44b2d8684467b58d9d55ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 48/57] fix: Gadget-4 GroupOrderedSnapshot failed if the
 snapshot has no FoF groups

---
 python/virgo/formats/subfind_gadget4.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 46fd7a2..b24c78d 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -204,9 +204,14 @@ class GroupOrderedSnapshot():
 
             ifile += 1
             
-        self.foflentype = np.concatenate(self.foflentype, axis=0)
-        self.nsubs      = np.concatenate(self.nsubs,      axis=0)
-        self.firstsub   = np.concatenate(self.firstsub,   axis=0)
+        if len(self.foflentype) > 0:
+            self.foflentype = np.concatenate(self.foflentype, axis=0)
+            self.nsubs      = np.concatenate(self.nsubs,      axis=0)
+            self.firstsub   = np.concatenate(self.firstsub,   axis=0)
+        else:
+            self.foflentype = np.zeros((0,6), dtype=np.int32) # No groups in this snapshot
+            self.nsubs      = np.zeros(0, dtype=np.int32)
+            self.firstsub   = np.zeros(0, dtype=np.int32)
         if len(self.sublentype) > 0:
             self.sublentype = np.concatenate(self.sublentype, axis=0)
         else:
-- 
2.43.0


From 87af7df1f093f658b1d4ffbbd7c25440ddeb1280 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 49/57] Revert "fix: Python example scripts did not run under
 Python 3"

This reverts commit 1bd02e7fcf1a5fad87028f0febbf15e72ce6f16d.
---
 examples/millennium-wmap7/python/read_mr7_snapshot_file.py | 4 ++--
 examples/millennium/python/check_units.py                  | 4 +---
 examples/millennium/python/read_subhalo_catalogue.py       | 6 +++---
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/examples/millennium-wmap7/python/read_mr7_snapshot_file.py b/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
index 97dbce5..a020237 100644
--- a/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
+++ b/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
@@ -16,10 +16,10 @@ f = h5py.File(fname, "r")
 # Read header
 # Can get full list of attributes with f["Header"].keys()
 boxsize = f["Header"].attrs["BoxSize"]
-print("Box size is ", boxsize, " comoving Mpc/h")
+print "Box size is ", boxsize, " comoving Mpc/h"
 
 numpart_thisfile = f["Header"].attrs["NumPart_ThisFile"]
-print("Number of particles in this file is ", numpart_thisfile[1])
+print "Number of particles in this file is ", numpart_thisfile[1]
 
 # Read positions, velocities and IDs
 pos = f["PartType1/Coordinates"][...]
diff --git a/examples/millennium/python/check_units.py b/examples/millennium/python/check_units.py
index 0664f2e..cb9d8ca 100644
--- a/examples/millennium/python/check_units.py
+++ b/examples/millennium/python/check_units.py
@@ -4,8 +4,6 @@
 # run using the particle data.
 #
 
-import numpy as np
-
 from virgo.formats import gadget_snapshot
 from virgo.formats import subfind_lgadget2
 from virgo.util import read_multi, ranges, match
@@ -103,6 +101,6 @@ mean_pos = ranges.sum_ranges(pos, first_particle, num_particles, normalize=True,
 mean_vel = ranges.sum_ranges(vel, first_particle, num_particles, normalize=True, dtype=np.float64) * np.sqrt(a)
 
 # Calculate angular momentum
-am = ranges.sum_ranges(np.cross((pos-mean_pos[subnr,:])*a, (vel-mean_vel[subnr,:])*np.sqrt(a)), 
+am = ranges.sum_ranges(np.cross((pos-mean_pos[subnr,:])*a, (vel-mean_vel[subnr,:])*sqrt(a)), 
                        first_particle, num_particles, normalize=True, dtype=np.float64)
 
diff --git a/examples/millennium/python/read_subhalo_catalogue.py b/examples/millennium/python/read_subhalo_catalogue.py
index 6f2efb7..97152e3 100644
--- a/examples/millennium/python/read_subhalo_catalogue.py
+++ b/examples/millennium/python/read_subhalo_catalogue.py
@@ -9,7 +9,7 @@ import virgo.sims.millennium as mill
 # Snapshot number to read
 isnap = 63
 
-print("Parent halo, Number of particles, x, y, z, vx, vy, vz")
+print "Parent halo, Number of particles, x, y, z, vx, vy, vz"
 
 # Loop over subtab files in this snapshot
 for ifile in range(512):
@@ -29,6 +29,6 @@ for ifile in range(512):
     vel        = subtab["SubVel"][...]    # Velocity of each subhalo (km/sec peculiar)
 
     for i in range(nsub):
-        print("%d, %d, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f" % (parenthalo[i], len[i], 
+        print "%d, %d, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f" % (parenthalo[i], len[i], 
                                                                           pos[i,0], pos[i,1], pos[i,2],
-                                                                          vel[i,0], vel[i,1], vel[i,2]))
+                                                                          vel[i,0], vel[i,1], vel[i,2])
-- 
2.43.0


From afde236b022b874b582205a6d72e35e8f60f78df Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 50/57] Revert "fix: compute_rvmax example relied on subhalo
 numbers which the reader does not return"

This reverts commit 9e4e1f344d769ad952cd16b9225187e1c7e1827d.
---
 examples/millennium2/python/compute_rvmax.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/examples/millennium2/python/compute_rvmax.py b/examples/millennium2/python/compute_rvmax.py
index f84747f..f7a441f 100644
--- a/examples/millennium2/python/compute_rvmax.py
+++ b/examples/millennium2/python/compute_rvmax.py
@@ -22,9 +22,12 @@ isub = 43
 # Read group catalogue
 cat = subfind_pgadget3.GroupCatalogue(basedir, snapnum)
 
-# Read particle data for subhalo isub
+# Determine FoF group index which contains subhalo isub
+ifof = cat["SubGrNr"][isub]
+
+# Read particle data for FoF group ifof
 snap = subfind_pgadget3.GroupOrderedSnapshot(basedir, basename, snapnum)
-data = snap.read_subfind_group(isub)
+data = snap.read_fof_group(ifof)
 
 # Get box size and particle mass from one of the snapshot files
 snapfile = snap.open_snap_file(0)
@@ -36,11 +39,16 @@ a        = 1.0/(1.0+redshift)
 pos   = data["Coordinates"]
 vel   = data["Velocities"]
 ids   = data["ParticleIDs"]
+subnr = data["SubNr"]
 
 # Get positions relative to subhalo centre 
 pos_rel = pos - cat["SubPos"][isub,:]
 pos_rel = ((pos_rel+boxsize/2) % boxsize) - boxsize/2
 
+# Discard particles not in subhalo
+ind = (subnr == isub)
+pos_rel = pos_rel[ind,:]
+
 # Get sorted radii of particles
 radius = np.sqrt(np.sum(pos_rel**2, axis=1))
 idx    = np.argsort(radius)
@@ -55,9 +63,9 @@ vcirc          = np.zeros(np_interior.shape, dtype=np.float64)
 vcirc[ind]     = np.sqrt(G_SI*m_interior_si[ind]/radius_si[ind]) / 1000.0 # Convert to km/sc
 
 imax = np.argmax(vcirc)
-print("RVmax (from particles) = ", radius[imax]*a) # radii from snapshot are comoving
-print("RVmax (from catalogue) = ", cat["SubRVmax"][isub])
+print "RVmax (from particles) = ", radius[imax]*a # radii from snapshot are comoving
+print "RVmax (from catalogue) = ", cat["SubRVmax"][isub]
 
-print("Vmax (from particles) = ", vcirc[imax])
-print("Vmax (from catalogue) = ", cat["SubVmax"][isub])
+print "Vmax (from particles) = ", vcirc[imax]
+print "Vmax (from catalogue) = ", cat["SubVmax"][isub]
 
-- 
2.43.0


From ed9bea444afed5112badadee4b4bd0f0bf65bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 51/57] Revert "fix: Millennium Fortran examples passed
 undefined pointers to the read routines"

This reverts commit 36ef317bfb0b6a3cdc855dcc9ad7962ee07644e3.
---
 examples/millennium/fortran/readfofgroupsexample.f90 | 4 ----
 examples/millennium/fortran/readgroupsexample.f90    | 4 ----
 examples/millennium/fortran/readregionexample.f90    | 3 ---
 examples/millennium/fortran/readsubhalosexample.f90  | 3 ---
 4 files changed, 14 deletions(-)

diff --git a/examples/millennium/fortran/readfofgroupsexample.f90 b/examples/millennium/fortran/readfofgroupsexample.f90
index 20b5214..079d195 100644
--- a/examples/millennium/fortran/readfofgroupsexample.f90
+++ b/examples/millennium/fortran/readfofgroupsexample.f90
@@ -52,10 +52,6 @@ PROGRAM readfofgroups
   TYPE (headertype) :: header
   REAL :: aexpand 
 
-! The read routines require pointers which are not associated
-  NULLIFY(x,y,z,vx,vy,vz,ids)
-  NULLIFY(foflen,foffset,groupids)
-
 ! Get parameters
   WRITE(*,*)'Enter number of file to read'
   READ(*,*)ifile
diff --git a/examples/millennium/fortran/readgroupsexample.f90 b/examples/millennium/fortran/readgroupsexample.f90
index 71e0f97..d663129 100644
--- a/examples/millennium/fortran/readgroupsexample.f90
+++ b/examples/millennium/fortran/readgroupsexample.f90
@@ -48,10 +48,6 @@ PROGRAM readgroupsexample
   INTEGER :: nmatched
   INTEGER*8 :: ihash
 
-! The read routines require pointers which are not associated
-  NULLIFY(x,y,z,vx,vy,vz,ids)
-  NULLIFY(nsphalo,firstsub,sublen,suboffset,subpar,groupids)
-
 ! Get parameters
   WRITE(*,*)'Enter number of file to read'
   READ(*,*)ifile
diff --git a/examples/millennium/fortran/readregionexample.f90 b/examples/millennium/fortran/readregionexample.f90
index c49660f..0664c5d 100644
--- a/examples/millennium/fortran/readregionexample.f90
+++ b/examples/millennium/fortran/readregionexample.f90
@@ -25,9 +25,6 @@ PROGRAM readregionexample
   INTEGER :: i,j,k
   INTEGER :: peano_hilbert_key
 
-! The read routines require pointers which are not associated
-  NULLIFY(x,y,z,vx,vy,vz,ids)
-
 ! Get parameters
   WRITE(*,*)'Enter minimum and maximum x coordinates (comoving Mpc/h)' 
   READ(*,*)xmin,xmax
diff --git a/examples/millennium/fortran/readsubhalosexample.f90 b/examples/millennium/fortran/readsubhalosexample.f90
index deb52e2..5ac6570 100644
--- a/examples/millennium/fortran/readsubhalosexample.f90
+++ b/examples/millennium/fortran/readsubhalosexample.f90
@@ -24,9 +24,6 @@ PROGRAM readsubhalosexample
 ! Loop index
   INTEGER :: isub, ifof
 
-! The read routines require pointers which are not associated
-  NULLIFY(subhalo,halo)
-
 ! Get parameters
   WRITE(*,*)'Enter number of file to read'
   READ(*,*)ifile
-- 
2.43.0


From bc3736164bcb664f5c0d5050b5ddd7c47c9e3504 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 52/57] Revert "fix: readregion closed a file twice if the
 region contains no particles"

This reverts commit 14931999eb7caebf058427d9a2b927781269aea8.
---
 examples/millennium/fortran/readregion.f90 | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/millennium/fortran/readregion.f90 b/examples/millennium/fortran/readregion.f90
index f4caa70..3ac0e0c 100644
--- a/examples/millennium/fortran/readregion.f90
+++ b/examples/millennium/fortran/readregion.f90
@@ -201,8 +201,7 @@ DO WHILE (ihash.LT.nhash)
    END IF
    ihash=ihash+1
 END DO
-! No file is open if none of the cells contain particles
-IF(iopen.GE.0)CALL close_gadget()
+CALL close_gadget()
 
 END SUBROUTINE
 END MODULE
-- 
2.43.0


From 6229fb2d85c9d206b70628b0ce2fb9c4f7f68f95 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 53/57] Revert "fix: Millennium Fortran routines did not
 compile with current gfortran"

This reverts commit c8828965b2a2c5c4aafc6db47b4af5543975fb85.
---
 .../fortran/readfofgroupsexample.f90          |  2 +-
 .../millennium/fortran/readgroupsexample.f90  |  2 +-
 examples/millennium/fortran/readregion.f90    | 14 ++++++-------
 examples/millennium/fortran/sort.f90          | 20 +++++++++----------
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/examples/millennium/fortran/readfofgroupsexample.f90 b/examples/millennium/fortran/readfofgroupsexample.f90
index 079d195..1330116 100644
--- a/examples/millennium/fortran/readfofgroupsexample.f90
+++ b/examples/millennium/fortran/readfofgroupsexample.f90
@@ -115,7 +115,7 @@ PROGRAM readfofgroups
      zgroup(gidx(i))=z(pidx(j))
   END DO
   WRITE(*,*)'Matched ',nmatched,' particles out of ',nidfile
-  IF(nmatched.LT.nidfile)STOP "Error: Didn't match all particles!"
+  IF(nmatched.LT.nidfile)STOP"Error: Didn't match all particles!"
 
 ! Write positions and FoF group membership to an ascii file
 ! Columns are FoF group ID, then x,y,z coordinates.
diff --git a/examples/millennium/fortran/readgroupsexample.f90 b/examples/millennium/fortran/readgroupsexample.f90
index d663129..9c3c920 100644
--- a/examples/millennium/fortran/readgroupsexample.f90
+++ b/examples/millennium/fortran/readgroupsexample.f90
@@ -111,7 +111,7 @@ PROGRAM readgroupsexample
      zgroup(gidx(i))=z(pidx(j))
   END DO
   WRITE(*,*)'Matched ',nmatched,' particles out of ',nidfile
-  IF(nmatched.LT.nidfile)STOP "Didn't match all particles!"
+  IF(nmatched.LT.nidfile)STOP"Didn't match all particles!"
 
 ! Write positions and group/subgroup membership to an ascii file
 ! Columns are subgroup ID, FoF group ID, then x,y,z coordinates.
diff --git a/examples/millennium/fortran/readregion.f90 b/examples/millennium/fortran/readregion.f90
index 3ac0e0c..2bdc596 100644
--- a/examples/millennium/fortran/readregion.f90
+++ b/examples/millennium/fortran/readregion.f90
@@ -43,13 +43,13 @@ LOGICAL, PARAMETER :: verbose = .FALSE.
 INTEGER :: ncells_to_read, ncells_read
 !
 ! Check arrays are not already in use
-IF(ASSOCIATED(x))STOP 'Array x already allocated in getregion()'
-IF(ASSOCIATED(y))STOP 'Array y already allocated in getregion()'
-IF(ASSOCIATED(z))STOP 'Array z already allocated in getregion()'
-IF(ASSOCIATED(ids))STOP 'Array ids already allocated in getregion()'
-IF(ASSOCIATED(vx))STOP 'Array vx already allocated in getregion()'
-IF(ASSOCIATED(vy))STOP 'Array vy already allocated in getregion()'
-IF(ASSOCIATED(vz))STOP 'Array vz already allocated in getregion()'
+IF(ASSOCIATED(x))STOP'Array x already allocated in getregion()'
+IF(ASSOCIATED(y))STOP'Array y already allocated in getregion()'
+IF(ASSOCIATED(z))STOP'Array z already allocated in getregion()'
+IF(ASSOCIATED(ids))STOP'Array ids already allocated in getregion()'
+IF(ASSOCIATED(vx))STOP'Array vx already allocated in getregion()'
+IF(ASSOCIATED(vy))STOP'Array vy already allocated in getregion()'
+IF(ASSOCIATED(vz))STOP'Array vz already allocated in getregion()'
 !
 ! Now read in the whole hash table
 !
diff --git a/examples/millennium/fortran/sort.f90 b/examples/millennium/fortran/sort.f90
index 8868d8e..93a8e6b 100644
--- a/examples/millennium/fortran/sort.f90
+++ b/examples/millennium/fortran/sort.f90
@@ -58,7 +58,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -174,7 +174,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -290,7 +290,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -406,7 +406,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -526,7 +526,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -647,7 +647,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -763,7 +763,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -879,7 +879,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -995,7 +995,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -1115,7 +1115,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
-- 
2.43.0


From acd58342e48ca2a8327c0970ee535214bf94e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 54/57] fix: Gadget snapshot reader accepted files ending part
 way through a record marker

---
 python/virgo/formats/gadget_snapshot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/gadget_snapshot.py b/python/virgo/formats/gadget_snapshot.py
index 914715a..b67021b 100644
--- a/python/virgo/formats/gadget_snapshot.py
+++ b/python/virgo/formats/gadget_snapshot.py
@@ -1,6 +1,7 @@
 #!/bin/env python
 
 import numpy as np
+import os
 import re
 try:
     from collections.abc import Mapping
@@ -121,8 +122,9 @@ class GadgetBinarySnapshotFile(BinaryFile):
                 try:
                     irec = self.read_and_skip(np.uint32)
                 except IOError:
-                    if count_records < 3:
-                        # pos, vel, ids should always be present
+                    if count_records < 3 or self.offset < os.path.getsize(fname):
+                        # pos, vel, ids should always be present and
+                        # the file must not end part way through a marker
                         raise
                     else:
                         break
-- 
2.43.0


From c9b7f8bf08dad9664155c7b889392f3447e3c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 55/57] fix: parallel_sort() failed on arrays with several NaNs

---
 python/virgo/mpi/parallel_sort.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index aa23ab9..6edfc99 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -601,9 +601,7 @@ def parallel_sort(arr, comm=None, return_index=False, verbose=False):
         if arr.shape[0] > 0:
             first_ind  = np.searchsorted(arr, val, side='left')
             last_ind   = np.searchsorted(arr, val, side='right') - 1
-            nval_local = last_ind - first_ind + 1
-            first_ind[first_ind >= len(arr)] = len(arr) - 1
-            nval_local[arr[first_ind] != val] = 0 
+            nval_local = last_ind - first_ind + 1 # Zero if value is not present, also works for NaNs
         else:
             nval_local = np.zeros(len(val), dtype=index_dtype)
         nval_local = np.asarray(nval_local, dtype=index_dtype)
@@ -652,7 +650,7 @@ def parallel_sort(arr, comm=None, return_index=False, verbose=False):
                     # processor
                     last_to_send = arr.shape[0] - 1
                 else:
-                    if arr[val_first_index_arr[rank+1]] != val[rank+1]:
+                    if val_last_index < val_first_index:
                         # All remaining instances of this value go to later
                         # processors
                         last_to_send = val_first_index - 1
-- 
2.43.0


From 4cdfb279fa1bf831243820907be314dd0410ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 56/57] fix: parallel_sort() used uninitialized memory if
 strings have different lengths

---
 python/virgo/mpi/parallel_sort.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 6edfc99..3cf4de8 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -473,7 +473,9 @@ def find_splitting_points(arr, r, comm=None):
                 local_est_median = weighted_median(recv_median, recv_weight)
             else:
                 local_est_median = recv_median[0] # Not used, but need to set a value for Allgather
-            # All MPI tasks need the full array of medians
+            # All MPI tasks need the full array of medians. Ensure that
+            # strings have their full length in the buffer we send.
+            local_est_median = np.asarray(local_est_median, dtype=arr.dtype)
             comm.Allgather([local_est_median, mpi_type], [est_median, mpi_type])
         
         # Find first and last elements where estimated medians can be inserted in sorted array
-- 
2.43.0


From 2f365171317409708e84e5522b613429705f440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 57/57] fix: parallel_match() missed matches if the other array
 contains NaNs

---
 python/virgo/mpi/parallel_sort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 3cf4de8..79cddcc 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -818,8 +818,8 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
     min_on_task = np.ndarray(comm_size, dtype=arr2.dtype)
     max_on_task = np.ndarray(comm_size, dtype=arr2.dtype)
     if arr2_ordered.shape[0] > 0:
-        min_val = np.amin(arr2_ordered)
-        max_val = np.amax(arr2_ordered)
+        min_val = arr2_ordered[:1]  # Note: amin() would return any NaNs,
+        max_val = arr2_ordered[-1:] # which are sorted to the end
     else:
         # If there are no values set min and max to zero
         min_val = np.asarray(0, dtype=arr2_ordered.dtype)
-- 
2.43.0

